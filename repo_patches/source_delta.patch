From a946adfd042e3af6994af5aafb676a0e4e15bfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:02:48 +0000
Subject: [PATCH 01/76] fix: honour a day-of-year range of a single day

DOY_RANGE with equal start and end was treated as a range wrapping around
new year, i.e. all days were selected. The documentation reserves the
wrap-around for start > end.
---
 src/modules/higher-level/param-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/param-hl.c b/src/modules/higher-level/param-hl.c
index 604a62f..0a70279 100755
--- a/src/modules/higher-level/param-hl.c
+++ b/src/modules/higher-level/param-hl.c
@@ -1053,7 +1053,7 @@ double tol = 5e-3;
        phl->doy_range[_MIN_] > 0 && 
        phl->doy_range[_MAX_] > 0){
 
-    if (phl->doy_range[_MIN_] < phl->doy_range[_MAX_]){
+    if (phl->doy_range[_MIN_] <= phl->doy_range[_MAX_]){
       for (d=phl->doy_range[_MIN_]; d<=phl->doy_range[_MAX_]; d++) phl->date_doys[d] = true;
     } else {
       for (d=1; d<=phl->doy_range[_MAX_];   d++) phl->date_doys[d] = true;
-- 
2.43.0


From 7599d980067fdb883169a37bd6afaef2be8f938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:52 +0000
Subject: [PATCH 02/76] fix: keep the last period before the change in the
 before part of CAT

---
 src/modules/higher-level/trend-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/trend-hl.c b/src/modules/higher-level/trend-hl.c
index b64ecb7..2a7ff61 100755
--- a/src/modules/higher-level/trend-hl.c
+++ b/src/modules/higher-level/trend-hl.c
@@ -304,7 +304,7 @@ double mae, rmse;
 
       // split the time series into three parts
       f_min[_PART_TOTAL_]  = 0;        f_max[_PART_TOTAL_]  = nf;         // complete
-      f_min[_PART_BEFORE_] = 0;        f_max[_PART_BEFORE_] = f_change-1; // before
+      f_min[_PART_BEFORE_] = 0;        f_max[_PART_BEFORE_] = f_change;   // before
       f_min[_PART_AFTER_]  = f_change; f_max[_PART_AFTER_]  = nf;         // after
 
       f_len[_PART_TOTAL_]  = f_max[_PART_TOTAL_]  - f_min[_PART_TOTAL_];  // complete
-- 
2.43.0


From 8d5ddf312d3b1cc7222acc1e73134df4c164a8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:20 +0000
Subject: [PATCH 03/76] fix: compute the documented index NDVIre1n

---
 src/modules/higher-level/index-compute-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/index-compute-hl.c b/src/modules/higher-level/index-compute-hl.c
index 4750307..5c6acc2 100755
--- a/src/modules/higher-level/index-compute-hl.c
+++ b/src/modules/higher-level/index-compute-hl.c
@@ -1101,7 +1101,7 @@ int tsa_spectral_index(ard_t *ard, tsa_t *ts, small *mask_, int nc, int nt, int
           band_for_index(ard[0].DAT, index->band_names[idx][0]), 
           band_for_index(ard[0].DAT, index->band_names[idx][1]), 
           nc, nt, nodata);
-      } else if (strcmp(index->names[idx], "NDVIren") == 0){
+      } else if (strcmp(index->names[idx], "NDVIre1n") == 0){
         cite_me(_CITE_NDVIre1n_);
         check_nbands_for_index(index->names[idx], 2, index->n_bands[idx]);
         index_differenced(ard, mask_, ts, 
-- 
2.43.0


From cdd961b3e45a4d7cc01ccdd6a7915c57133d98c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:12 +0000
Subject: [PATCH 04/76] fix: keep time series products when there is nothing to
 monitor

With OUTPUT_NRT and no acquisition after the fitting period, compiling the
empty NRT product failed, and all other requested products were lost.
---
 src/modules/higher-level/tsa-hl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/higher-level/tsa-hl.c b/src/modules/higher-level/tsa-hl.c
index a607812..b8bf538 100755
--- a/src/modules/higher-level/tsa-hl.c
+++ b/src/modules/higher-level/tsa-hl.c
@@ -70,8 +70,8 @@ int info_nrt(brick_compile_info_t *info, int o, int nr, tsa_t *ts, par_hl_t *phl
   info[o].bandname = NULL;
   info[o].date     = NULL;
   info[o].prodtype = _nrt_;
-  info[o].enable   = phl->tsa.tsi.onrt;
-  info[o].write    = phl->tsa.tsi.onrt;
+  info[o].enable   = phl->tsa.tsi.onrt && nr > 0;
+  info[o].write    = phl->tsa.tsi.onrt && nr > 0;
   info[o].ptr      = &ts->nrt_;
 
   return o+1;
-- 
2.43.0


From 6283e59749c116dade44d3f21cfc98be981877c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:12 +0000
Subject: [PATCH 05/76] fix: write nodata to the NRT product where there is no
 harmonic model

Pixels outside the processing mask and pixels with too few observations
were left at 0, i.e. looked like a perfect match with the prediction.
---
 src/modules/higher-level/interpolate-hl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/higher-level/interpolate-hl.c b/src/modules/higher-level/interpolate-hl.c
index 9296e96..f02cd58 100755
--- a/src/modules/higher-level/interpolate-hl.c
+++ b/src/modules/higher-level/interpolate-hl.c
@@ -534,6 +534,7 @@ bool model_terms[_TERM_LEN_];
 
       if (mask_ != NULL && !mask_[p]){
         for (i=0; i<ni; i++) ts->tsi_[i][p] = nodata;
+        if (tsi->onrt){ for (k=0; k<nr; k++) ts->nrt_[k][p] = nodata;}
         continue;
       }
 
@@ -552,6 +553,7 @@ bool model_terms[_TERM_LEN_];
       //if (nk == 0){
       if (nk < n_coef){
         for (i=0; i<ni; i++) ts->tsi_[i][p] = nodata;
+        if (tsi->onrt){ for (k=0; k<nr; k++) ts->nrt_[k][p] = nodata;}
         continue;
       }
 
-- 
2.43.0


From f21519e66b3cb42ab9149cb9748728084d8e1410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:12 +0000
Subject: [PATCH 06/76] fix: interpolate linearly in the noise screening

The slope between the bracketing observations was truncated to an integer.
Between two observations of the same day, half their difference was used
instead of their mean.
---
 src/modules/higher-level/quality-hl.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modules/higher-level/quality-hl.c b/src/modules/higher-level/quality-hl.c
index 93f5b2d..460c1b7 100755
--- a/src/modules/higher-level/quality-hl.c
+++ b/src/modules/higher-level/quality-hl.c
@@ -257,11 +257,11 @@ small *mask_ = NULL;
 
           if (ce[t_right] == ce[t_left]){
             y_hat = fabs(ard[t_mid].dat[b][p] - 
-                        (ard[t_right].dat[b][p]-ard[t_left].dat[b][p]) / 2.0);
+                        (ard[t_right].dat[b][p]+ard[t_left].dat[b][p]) / 2.0);
           } else {
             y_hat = fabs(ard[t_mid].dat[b][p] - 
                         (ard[t_right].dat[b][p]-ard[t_left].dat[b][p]) / 
-                        (ce[t_right]-ce[t_left]) * (ce[t_mid]-ce[t_left]) - 
+                        (float)(ce[t_right]-ce[t_left]) * (ce[t_mid]-ce[t_left]) - 
                         ard[t_left].dat[b][p]);
           }
           t_max = t_mid;
@@ -337,11 +337,11 @@ small *mask_ = NULL;
 
         if (ce[t_right] == ce[t_left]){
           y_hat = fabs(ard[t_mid].dat[b][p] - 
-                      (ard[t_right].dat[b][p]-ard[t_left].dat[b][p]) / 2.0);
+                      (ard[t_right].dat[b][p]+ard[t_left].dat[b][p]) / 2.0);
         } else {
           y_hat = fabs(ard[t_mid].dat[b][p] - 
                       (ard[t_right].dat[b][p]-ard[t_left].dat[b][p]) / 
-                      (ce[t_right]-ce[t_left]) * (ce[t_mid]-ce[t_left]) - 
+                      (float)(ce[t_right]-ce[t_left]) * (ce[t_mid]-ce[t_left]) - 
                       ard[t_left].dat[b][p]);
         }
 
-- 
2.43.0


From b41f9565dc926b87731705e42bec396528843e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:12 +0000
Subject: [PATCH 07/76] fix: read the left neighbour block from its own column

The pixels left of a block were always taken from the first block column
of the tile.
---
 src/modules/higher-level/read-ard-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/read-ard-hl.c b/src/modules/higher-level/read-ard-hl.c
index 3d7f226..4a5c059 100755
--- a/src/modules/higher-level/read-ard-hl.c
+++ b/src/modules/higher-level/read-ard-hl.c
@@ -997,7 +997,7 @@ double tol = 5e-3;
 
   if (fabs(partial_x) > tol){
     width = fabs(partial_x);
-    if (partial_x < 0) x_offset = chunk_size[_X_]+partial_x;
+    if (partial_x < 0) x_offset += chunk_size[_X_]+partial_x;
   }
   
   if (fabs(partial_y) > tol){
-- 
2.43.0


From a0eb794856477656cafd0b145c14f20de5b53850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:53 +0000
Subject: [PATCH 08/76] fix: give three default basenames of the phenology
 datasets

The generated LEVEL3 parameter file held one value for BASE_LSP, which the
parser refused because it expects three.
---
 src/modules/aux-level/param-aux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/aux-level/param-aux.c b/src/modules/aux-level/param-aux.c
index 2ff8d7f..339b08d 100755
--- a/src/modules/aux-level/param-aux.c
+++ b/src/modules/aux-level/param-aux.c
@@ -1400,7 +1400,7 @@ void write_par_hl_pac(FILE *fp, bool verbose){
     fprintf(fp, "# the corresponding years, need to be the same for all files.\n");
     fprintf(fp, "# Type: List with basenames of 3 files\n");
   }
-  fprintf(fp, "BASE_LSP = NULL\n");
+  fprintf(fp, "BASE_LSP = NULL NULL NULL\n");
 
   if (verbose){
     fprintf(fp, "# This parameter defines year, which corresponds to the 1st band of the\n");
-- 
2.43.0


From 6ee3a4b299efe03b878b34fbad867d8623a56ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:06 +0000
Subject: [PATCH 09/76] fix: run Python UDFs when the computing task is not the
 main thread

With STREAMING = TRUE, the UDF is executed in a worker thread.
The interpreter lock was never handed over to this thread, and the program crashed.
---
 src/modules/higher-level/py-udf-hl.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/py-udf-hl.c b/src/modules/higher-level/py-udf-hl.c
index a3244d9..f111ebb 100755
--- a/src/modules/higher-level/py-udf-hl.c
+++ b/src/modules/higher-level/py-udf-hl.c
@@ -176,6 +176,9 @@ par_udf_t *udf;
     exit(FAILURE);
   }
 
+  // release the interpreter: the computing task may run in another thread
+  PyEval_SaveThread();
+
   #ifdef FORCE_DEBUG
   printf("finished to register python interface\n");
   #endif
@@ -203,7 +206,10 @@ par_udf_t *udf;
     return;
   }
 
-  if (udf->out) Py_Finalize();
+  if (udf->out){
+    PyGILState_Ensure();
+    Py_Finalize();
+  }
 
   #ifdef FORCE_DEBUG
   printf("finished to deregister python interface\n");
@@ -234,6 +240,7 @@ PyObject *py_bandname = NULL;
 PyObject *py_encoded  = NULL;
 char *bandname = NULL;
 date_t date;
+PyGILState_STATE gil;
 
 
   #ifdef FORCE_DEBUG
@@ -249,6 +256,7 @@ date_t date;
     return;
   }
 
+  gil = PyGILState_Ensure();
 
   main_module = PyImport_AddModule("__main__");
   main_dict   = PyModule_GetDict(main_module);
@@ -313,6 +321,8 @@ date_t date;
   Py_DECREF(pylab.bandname);
   Py_DECREF(pylab.sensor);
   Py_DECREF(py_return);
+
+  PyGILState_Release(gil);
   
   fclose(fpy);
 
@@ -478,6 +488,7 @@ PyArrayObject* py_data     = NULL;
 PyArrayObject *py_return   = NULL;
 short* data_    = NULL;
 short* return_  = NULL;
+PyGILState_STATE gil;
 
 
   if (submodule == _HL_UDF_ && udf_->pyp_ == NULL) return CANCEL;
@@ -488,6 +499,8 @@ short* return_  = NULL;
   printf("starting to run python interface\n");
   #endif
 
+  gil = PyGILState_Ensure();
+
   main_module = PyImport_AddModule("__main__");
   main_dict   = PyModule_GetDict(main_module);
 
@@ -595,6 +608,7 @@ short* return_  = NULL;
   Py_DECREF(pylab.bandname);
   Py_DECREF(pylab.sensor);
 
+  PyGILState_Release(gil);
 
   fclose(fpy);
 
-- 
2.43.0


From f4953731ca6c6b67e0d9cb55a27c38894c8b796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:11 +0000
Subject: [PATCH 10/76] fix: write nodata to masked pixels of the Level 3
 products

---
 src/modules/higher-level/level3-hl.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/level3-hl.c b/src/modules/higher-level/level3-hl.c
index a59e7a0..80aa5d9 100755
--- a/src/modules/higher-level/level3-hl.c
+++ b/src/modules/higher-level/level3-hl.c
@@ -322,7 +322,12 @@ bool water;
     for (p=0; p<nc; p++){
 
       // skip pixels that are masked
-      if (mask_ != NULL && !mask_[p]) continue;
+      if (mask_ != NULL && !mask_[p]){
+        if (l3.bap != NULL){ for (int b=0; b<nb; b++) l3.bap[b][p] = nodata;}
+        if (l3.inf != NULL){ for (int b=0; b<_INF_LENGTH_; b++) l3.inf[b][p] = nodata;}
+        if (l3.scr != NULL){ for (int b=0; b<_SCR_LENGTH_; b++) l3.scr[b][p] = nodata;}
+        continue;
+      }
       
       if (phl->bap.pac.lsp) target = compile_target_adaptive(&phl->bap, lsp, p, lsp_nodata);
 
-- 
2.43.0


From 16b25245d9fdf865aefb08e867744237947fbf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:11 +0000
Subject: [PATCH 11/76] fix: leave nodata in blocks of higher level products
 that are not processed

The nodata value was only set after writing, such that unprocessed blocks
that share a file block with processed ones, or that are stored in formats
without sparse storage, contained zeros.
---
 src/modules/cross-level/brick_io-cl.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/modules/cross-level/brick_io-cl.cpp b/src/modules/cross-level/brick_io-cl.cpp
index 33a57fb..b391f45 100755
--- a/src/modules/cross-level/brick_io-cl.cpp
+++ b/src/modules/cross-level/brick_io-cl.cpp
@@ -333,6 +333,14 @@ int write_brick(brick_t *brick){
       } else {
         if ((fp = GDALCreate(driver_create, fname, brick->nx, brick->ny, nbands, file_datatype, options)) == NULL){
           printf("Error creating file %s. ", fname); return FAILURE;}
+        // chunks that are not processed will not be written, they have no data
+        if (brick->open == OPEN_CHUNK){
+          for (b=0; b<nbands; b++){
+            band = GDALGetRasterBand(fp, bands[_FILE_][f][b]);
+            GDALSetRasterNoDataValue(band, brick->nodata[bands[_brick_][f][b]]);
+            GDALFillRaster(band, brick->nodata[bands[_brick_][f][b]], 0);
+          }
+        }
       }
         
       if (brick->open == OPEN_CHUNK){
-- 
2.43.0


From 885c8ae05a31e752b2950bfb7d373036b5975405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:56 +0000
Subject: [PATCH 12/76] fix: keep the first pixel when delineating objects

The top left pixel of each block was always dropped from the image,
which changed the landscape metrics next to block corners.
---
 src/modules/cross-level/imagefuns-cl.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/modules/cross-level/imagefuns-cl.c b/src/modules/cross-level/imagefuns-cl.c
index d43baa3..29f53f2 100755
--- a/src/modules/cross-level/imagefuns-cl.c
+++ b/src/modules/cross-level/imagefuns-cl.c
@@ -636,9 +636,6 @@ int id, nc, p, no;
 
   alloc((void**)&CCL, nc, sizeof(int));
 
-  // to ensure that 1st object gets ID=1
-  image[0] = false;
-
   if ((no = connectedcomponents_(image, CCL, nx, ny)) > 0){
 
     alloc((void**)&CCS, no, sizeof(int));
-- 
2.43.0


From b8af202ad8e311d38a90696bf701a88fd3255ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:57 +0000
Subject: [PATCH 13/76] fix: read enough neighboring pixels for texture metrics
 that dilate and erode

OPN, CLS, THT and BHT are two consecutive operations, and need twice the radius.
With the simple radius, there were seams at block borders.
---
 src/modules/higher-level/param-hl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/higher-level/param-hl.c b/src/modules/higher-level/param-hl.c
index 0a70279..dcebe9d 100755
--- a/src/modules/higher-level/param-hl.c
+++ b/src/modules/higher-level/param-hl.c
@@ -1095,6 +1095,8 @@ double tol = 5e-3;
 
   if (phl->type == _HL_TXT_){
     phl->radius = phl->txt.radius*phl->txt.iter;
+    // two consecutive operations
+    if (phl->txt.oopn || phl->txt.ocls || phl->txt.otht || phl->txt.obht) phl->radius *= 2;
     phl->txt.radius = (int)(phl->txt.radius/phl->res);
   } else if (phl->type == _HL_LSM_){
     phl->radius = phl->lsm.radius;
-- 
2.43.0


From 154000163a42aa8560141e64e903895e6fca61b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:57 +0000
Subject: [PATCH 14/76] fix: honour the processing mask in the texture module

---
 src/modules/higher-level/texture-hl.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modules/higher-level/texture-hl.c b/src/modules/higher-level/texture-hl.c
index ecd0c10..4c8a117 100755
--- a/src/modules/higher-level/texture-hl.c
+++ b/src/modules/higher-level/texture-hl.c
@@ -218,7 +218,7 @@ short nodata;
                      Point(phl->txt.radius, phl->txt.radius));
 
 
-  #pragma omp parallel private(i,j,p) shared(nf,nx,ny,morph_elem,features,txt,phl,nodata) default(none)
+  #pragma omp parallel private(i,j,p) shared(nf,nx,ny,morph_elem,features,txt,phl,nodata,mask_) default(none)
   {
 
     #pragma omp for
@@ -244,7 +244,8 @@ short nodata;
       for (i=0, p=0; i<ny; i++){
       for (j=0; j<nx; j++, p++){
         
-        if (!features[f].msk[p] && phl->ftr.exclude){
+        if ((mask_ != NULL && !mask_[p]) || 
+            (!features[f].msk[p] && phl->ftr.exclude)){
           
           if (phl->txt.oero) txt.ero_[f][p] = nodata;
           if (phl->txt.odil) txt.dil_[f][p] = nodata;
-- 
2.43.0


From 69f2599760be041a069fbac0ec0802ef6a0fc8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:09 +0000
Subject: [PATCH 15/76] fix: count the rows of an image downwards when
 computing coordinates

The y coordinate of a row was computed above the image.
With this, no sample was ever found by the sampling module,
and latitudes used for sun and view angles were off.
---
 src/modules/cross-level/brick_base-cl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/cross-level/brick_base-cl.c b/src/modules/cross-level/brick_base-cl.c
index 72e26d6..edea22f 100755
--- a/src/modules/cross-level/brick_base-cl.c
+++ b/src/modules/cross-level/brick_base-cl.c
@@ -1657,7 +1657,7 @@ double get_brick_uly(brick_t *brick){
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 double get_brick_y(brick_t *brick, int i){
 
-  return (brick->geotran[_GT_ULY_] + i*brick->geotran[_GT_RES_]);
+  return (brick->geotran[_GT_ULY_] + i*brick->geotran[_GT_YRES_]);
 }
 
 
-- 
2.43.0


From 378d08e1e8db77943c936b1d76069b544281c2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:44 +0000
Subject: [PATCH 16/76] fix: count all processing units when looking for
 missing input or output

Without streaming, only the last processing unit decided whether
FAIL_IF_EMPTY reports an error.
---
 src/modules/higher-level/tasks-hl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/higher-level/tasks-hl.c b/src/modules/higher-level/tasks-hl.c
index 5cf6e91..97e344b 100755
--- a/src/modules/higher-level/tasks-hl.c
+++ b/src/modules/higher-level/tasks-hl.c
@@ -116,7 +116,7 @@ off_t bytes = 0;
   }
 
 
-  *ibytes = bytes;
+  *ibytes += bytes;
 
   measure_progress(pro, _TASK_INPUT_, _CLOCK_TOCK_);
 
@@ -317,7 +317,7 @@ int o;
   free((void*)OUTPUT[pu]);
   OUTPUT[pu] = NULL;
 
-  *obytes = bytes;
+  *obytes += bytes;
 
   measure_progress(pro, _TASK_OUTPUT_, _CLOCK_TOCK_);
 
-- 
2.43.0


From 8fd2925c67a59006a442562c2c33927bd6043f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:29 +0000
Subject: [PATCH 17/76] fix: flush the nodata fill of new images before blocks
 are written

Formats with direct writing (ENVI) would otherwise lose the first block.
---
 src/modules/cross-level/brick_io-cl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/cross-level/brick_io-cl.cpp b/src/modules/cross-level/brick_io-cl.cpp
index b391f45..e90e7b6 100755
--- a/src/modules/cross-level/brick_io-cl.cpp
+++ b/src/modules/cross-level/brick_io-cl.cpp
@@ -339,6 +339,7 @@ int write_brick(brick_t *brick){
             band = GDALGetRasterBand(fp, bands[_FILE_][f][b]);
             GDALSetRasterNoDataValue(band, brick->nodata[bands[_brick_][f][b]]);
             GDALFillRaster(band, brick->nodata[bands[_brick_][f][b]], 0);
+            GDALFlushRasterCache(band);
           }
         }
       }
-- 
2.43.0


From 7e6234d88fccee61edc8ec152443d9e13a0f02c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:54 +0000
Subject: [PATCH 18/76] fix: accept custom output options without any creation
 options

---
 src/modules/cross-level/gdalopt-cl.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modules/cross-level/gdalopt-cl.c b/src/modules/cross-level/gdalopt-cl.c
index 2883b2c..02641c3 100644
--- a/src/modules/cross-level/gdalopt-cl.c
+++ b/src/modules/cross-level/gdalopt-cl.c
@@ -140,8 +140,10 @@ bool b_ext = false;
     nchar[1] = (strlen(tagval[i][_TV_VAL_]) > nchar[_TV_VAL_]) ? strlen(tagval[i][_TV_VAL_]) : nchar[_TV_VAL_];
   }
 
-  alloc_string_vector(&gdalopt->options[_TV_TAG_],  nrows - 2, nchar[_TV_TAG_]);
-  alloc_string_vector(&gdalopt->options[_TV_VAL_],  nrows - 2, nchar[_TV_VAL_]);
+  if (nrows > 2){
+    alloc_string_vector(&gdalopt->options[_TV_TAG_],  nrows - 2, nchar[_TV_TAG_]);
+    alloc_string_vector(&gdalopt->options[_TV_VAL_],  nrows - 2, nchar[_TV_VAL_]);
+  }
 
   for (int i=0, o=0; i<nrows; i++){
 
-- 
2.43.0


From 29374eb1cc4e1d22a1375a006671199213818b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:59:38 +0000
Subject: [PATCH 19/76] fix: points on a tile border belong to the tile right
 of / below it

---
 src/modules/cross-level/cube-cl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/cross-level/cube-cl.c b/src/modules/cross-level/cube-cl.c
index e2ba358..284bd43 100755
--- a/src/modules/cross-level/cube-cl.c
+++ b/src/modules/cross-level/cube-cl.c
@@ -443,7 +443,7 @@ int px = 0, py = 0;
   if (x > tx){
 
     // shift tile-x to the right until x is left of tile-x
-    while (x > tx){
+    while (x >= tx){
       tx += cube->tile_size[_X_];
       px++;
     }
@@ -466,7 +466,7 @@ int px = 0, py = 0;
   if (y < ty){
 
     // shift tile-y to the bottom until y is above tile-y
-    while (y < ty){
+    while (y <= ty){
       ty -= cube->tile_size[_Y_];
       py++;
     }
-- 
2.43.0


From c59b454a0c37af0d909040f82e51de6fc90899f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:59:57 +0000
Subject: [PATCH 20/76] fix: read projections with blanks from the data cube
 definition

---
 src/modules/cross-level/read-cl.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modules/cross-level/read-cl.c b/src/modules/cross-level/read-cl.c
index 96b5c84..eb2e9e0 100755
--- a/src/modules/cross-level/read-cl.c
+++ b/src/modules/cross-level/read-cl.c
@@ -69,7 +69,11 @@ int n_buf = 1;
       copy_string(tagval[n][_TV_TAG_], NPOW_10, ptr);
     }
 
-    if ((ptr = strtok_r(NULL, separator, &saveptr)) == NULL){
+    // the value is the rest of the line, it may contain blanks
+    ptr = saveptr + strspn(saveptr, separator);
+    for (int i=strlen(ptr)-1; i>=0 && ptr[i]==' '; i--) ptr[i] = '\0';
+
+    if (strlen(ptr) == 0){
       printf("could not read tag/value pair from:\n  %s\n", fname);
       free_3D((void***)tagval, n_buf, _TV_LENGTH_);
       fclose(fp);
-- 
2.43.0


From f30988a7bf8a43a4d9865cbb63b0efc056602a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:49 +0000
Subject: [PATCH 21/76] fix: dates of polar metrics were one day early for some
 days of the year

---
 src/modules/higher-level/polar-hl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/higher-level/polar-hl.c b/src/modules/higher-level/polar-hl.c
index b4db061..11c7f64 100755
--- a/src/modules/higher-level/polar-hl.c
+++ b/src/modules/higher-level/polar-hl.c
@@ -73,8 +73,8 @@ float doy;
   polar->rad   = r;
   polar->val   = v;
   polar->year = yr;
-  polar->doy  = doy;
-  polar->ce    = doy2ce(doy, yr);
+  polar->doy  = round(doy);
+  polar->ce    = doy2ce(polar->doy, yr);
   polar->pcx   = v*cos(r);
   polar->pcy   = v*sin(r);
 
-- 
2.43.0


From 4e07315762bf8eebbfc7ca7ddea158e192fdfd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:19 +0000
Subject: [PATCH 22/76] fix: polar coordinates of pixels outside the mask or
 without data are nodata

---
 src/modules/higher-level/polar-hl.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modules/higher-level/polar-hl.c b/src/modules/higher-level/polar-hl.c
index 11c7f64..eb21bb8 100755
--- a/src/modules/higher-level/polar-hl.c
+++ b/src/modules/higher-level/polar-hl.c
@@ -357,6 +357,9 @@ float green_val, base_val;
           for (y=0; y<pol->ny; y++) ts->pol_[l][y][p] = nodata;
         }
       }
+      if (pol->opct){
+        for (i=0; i<ni; i++) ts->pcx_[i][p] = ts->pcy_[i][p] = nodata;
+      }
       
       if (mask_ != NULL && !mask_[p]) continue;
 
@@ -416,8 +419,8 @@ float green_val, base_val;
         polar_coords(r, v, ts->d_tsi[i].year-year_min, &polar[i]);
 
         
-        if (pol->opct) ts->pcx_[i][p] = (short)polar[i].pcx;
-        if (pol->opct) ts->pcy_[i][p] = (short)polar[i].pcy;
+        if (pol->opct && valid) ts->pcx_[i][p] = (short)polar[i].pcx;
+        if (pol->opct && valid) ts->pcy_[i][p] = (short)polar[i].pcy;
 
         mean_window[_ALPHA_][_X_] += polar[i].pcx;
         mean_window[_ALPHA_][_Y_] += polar[i].pcy;
-- 
2.43.0


From 689c7b422e951a5992d5e93dc0ffed0509396d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:51 +0000
Subject: [PATCH 23/76] fix: write the polar coordinates also when no polar
 metric is requested

---
 src/modules/higher-level/polar-hl.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/polar-hl.c b/src/modules/higher-level/polar-hl.c
index eb21bb8..9d1a403 100755
--- a/src/modules/higher-level/polar-hl.c
+++ b/src/modules/higher-level/polar-hl.c
@@ -331,7 +331,7 @@ polar_t *theta0 = NULL;
 float green_val, base_val;
 
 
-  valid = false;
+  valid = pol->opct;
   for (l=0; l<_POL_LENGTH_; l++){
     if (ts->pol_[l] != NULL) valid = true;
   }
@@ -429,6 +429,9 @@ float green_val, base_val;
 
       if (!valid) continue;
 
+      // polar coordinates only
+      if (pol->opol + pol->otrd + pol->ocat == 0) continue;
+
 
       // mean of polar coordinates
       mean_window[_ALPHA_][_X_] /= ni;
-- 
2.43.0


From f013f300da9ca6cea76abd85fb7f1e5af80a73f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:49 +0000
Subject: [PATCH 24/76] fix: run R user-defined functions without a terminal

---
 src/modules/higher-level/r-udf-hl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/higher-level/r-udf-hl.c b/src/modules/higher-level/r-udf-hl.c
index 91ea552..18fc355 100644
--- a/src/modules/higher-level/r-udf-hl.c
+++ b/src/modules/higher-level/r-udf-hl.c
@@ -113,8 +113,8 @@ int i;
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 void register_rstats(par_hl_t *phl){
 par_udf_t *udf;
-int r_argc = 2;
-char *r_argv[] = { "R", "--silent" };
+int r_argc = 3;
+char *r_argv[] = { "R", "--silent", "--no-save" };
 
 
   #ifdef FORCE_DEBUG
-- 
2.43.0


From 635403ebc3df49d91fe45d24cdb265daf2eacac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:31 +0000
Subject: [PATCH 25/76] fix: rows and columns of blocks handed to R functions
 were interchanged

---
 src/modules/higher-level/r-udf-hl.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/modules/higher-level/r-udf-hl.c b/src/modules/higher-level/r-udf-hl.c
index 18fc355..2f049e2 100644
--- a/src/modules/higher-level/r-udf-hl.c
+++ b/src/modules/higher-level/r-udf-hl.c
@@ -502,7 +502,11 @@ int *rstats_return_ = NULL;
 
   k = 0;
 
-  for (int p = 0; p < nc; p++){
+  for (int i = 0; i < nc; i++){
+
+    // R arrays are column-major
+    int p = (udf->type == _UDF_CHUNK_) ? (i % ny) * nx + i / ny : i;
+
   for (int b = 0; b < (nb_main + nb_aux); b++){
   for (int t = 0; t < nt; t++){
 
@@ -537,7 +541,10 @@ int *rstats_return_ = NULL;
 
   k =  0;
 
-  for (int p = 0; p < nc; p++){
+  for (int i = 0; i < nc; i++){
+
+    int p = (udf->type == _UDF_CHUNK_) ? (i % ny) * nx + i / ny : i;
+
   for (int b = 0; b < udf->nb; b++){
 
     int value = nodata;
-- 
2.43.0


From 72fd3296930eca4ef582f2e2d94c8b184127195d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:42 +0000
Subject: [PATCH 26/76] fix: pixels without phenology were composited with the
 scores of another pixel

---
 src/modules/higher-level/bap-hl.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/bap-hl.c b/src/modules/higher-level/bap-hl.c
index 7504e01..8f79780 100755
--- a/src/modules/higher-level/bap-hl.c
+++ b/src/modules/higher-level/bap-hl.c
@@ -261,6 +261,8 @@ float *lsp_;
     } else if (n == 1){
       intercept = my-mx*365;
       slope     = 365;
+    } else {
+      intercept = slope = 0;
     }
     
     for (y=0, yr=y0; y<ny; y++, yr++){
@@ -532,7 +534,10 @@ float vz;
     // if target is corrupt, skip pixel
     if (target[y].ce[0] < 1900*365 || 
         target[y].ce[1] < 1900*365 || 
-        target[y].ce[2] < 1900*365) continue;
+        target[y].ce[2] < 1900*365){
+      memset(&score[t], 0, sizeof(par_scr_t));
+      continue;
+    }
 
     // difference between acquisition and target year
     dy = abs(get_brick_year(ard[t].DAT, 0) - bap->Yt);
-- 
2.43.0


From 8dc7270b687ae763ca49aa671a8765eb4ce352ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:42 +0000
Subject: [PATCH 27/76] fix: crash when weighted compositing is run without
 output of the composite

---
 src/modules/higher-level/bap-hl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/bap-hl.c b/src/modules/higher-level/bap-hl.c
index 8f79780..cefc592 100755
--- a/src/modules/higher-level/bap-hl.c
+++ b/src/modules/higher-level/bap-hl.c
@@ -897,7 +897,9 @@ double sum_r = 0, sum_v = 0;
 
   }
 
-  for (b=0; b<nb; b++) l3->bap[b][p] = (short)sum_reflection[b];
+  if (l3->bap != NULL){
+    for (b=0; b<nb; b++) l3->bap[b][p] = (short)sum_reflection[b];
+  }
 
   free((void*)sum_reflection);
 
-- 
2.43.0


From 92692cf06e197c78dd60811c8a74788341cbb76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:42 +0000
Subject: [PATCH 28/76] fix: overflow of the polarization ratio in radar
 quicklooks

---
 src/modules/higher-level/bap-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/bap-hl.c b/src/modules/higher-level/bap-hl.c
index cefc592..c497722 100755
--- a/src/modules/higher-level/bap-hl.c
+++ b/src/modules/higher-level/bap-hl.c
@@ -994,7 +994,7 @@ float ratio;
         
         if (ratio < 0.2 || l3->bap[VV][p] == nodata|| l3->bap[VH][p] == nodata){
           l3->ovv[_RGB_B_][p_] = 0;
-        } else if (l3->bap[VH][p] > 1.0){
+        } else if (ratio > 1.0){
           l3->ovv[_RGB_B_][p_] = 255;
         } else {
           l3->ovv[_RGB_B_][p_] = (small)((ratio - 0.2)/0.8*255);
-- 
2.43.0


From 803bbe98bbb6e6ae950c15b5e33114128efdfc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:25 +0000
Subject: [PATCH 29/76] fix: crash in phenology-adaptive compositing when
 target dates coincide

---
 src/modules/higher-level/bap-hl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modules/higher-level/bap-hl.c b/src/modules/higher-level/bap-hl.c
index c497722..9ec0357 100755
--- a/src/modules/higher-level/bap-hl.c
+++ b/src/modules/higher-level/bap-hl.c
@@ -575,6 +575,10 @@ float vz;
 
       }
 
+      // target dates may coincide: no temporal distance, maximum score
+      if (isnan(score[t].d)) score[t].d = bap->Ds[1];
+      if (isnan(score[t].y)) score[t].y = bap->Ds[1];
+
       // difference between acquisition and target
       tdist[t] = ce_dist;
 
-- 
2.43.0


From 3820ae1a12efbcdd74955e3e3cb2bcb3cde8012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:34:18 +0000
Subject: [PATCH 30/76] fix: statistics of clear-sky gaps divided by the number
 of observations

The gap statistics (standard deviation, skewness, kurtosis, quantiles, IQR)
are computed over the gaps between observations, which include the window
borders. They were normalised with the number of observations instead of the
number of gaps, so the last gap was ignored by the quantiles and windows
without observation gave undefined quantiles.
---
 src/modules/higher-level/cso-hl.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/modules/higher-level/cso-hl.c b/src/modules/higher-level/cso-hl.c
index 61eb151..47004f4 100755
--- a/src/modules/higher-level/cso-hl.c
+++ b/src/modules/higher-level/cso-hl.c
@@ -357,13 +357,15 @@ bool alloc_q_array = false;
         } else {
 
           minimum = maximum = mean = cs.d_cso[w+1].ce-cs.d_cso[w].ce;
+          if (alloc_q_array) q_array[0] = mean;
+          k = 1;
 
         }
 
 
         if (n > 0){
-          skewscaled = skewness(var, skew, n)*1000;
-          kurtscaled = (kurtosis(var, kurt, n)-3)*1000;
+          skewscaled = skewness(var, skew, k)*1000;
+          kurtscaled = (kurtosis(var, kurt, k)-3)*1000;
           if (skewscaled < -30000) skewscaled = -30000;
           if (skewscaled >  30000) skewscaled =  30000;
           if (kurtscaled < -30000) kurtscaled = -30000;
@@ -374,21 +376,21 @@ bool alloc_q_array = false;
         if (phl->cso.sta.max > -1) cs.cso_[phl->cso.sta.max][w][p] = maximum;
         if (phl->cso.sta.rng > -1) cs.cso_[phl->cso.sta.rng][w][p] = maximum-minimum;
         if (phl->cso.sta.avg > -1) cs.cso_[phl->cso.sta.avg][w][p] = (short)mean;
-        if (phl->cso.sta.std > -1) cs.cso_[phl->cso.sta.std][w][p] = (short)standdev(var, n);
+        if (phl->cso.sta.std > -1) cs.cso_[phl->cso.sta.std][w][p] = (short)standdev(var, k);
         if (phl->cso.sta.skw > -1) cs.cso_[phl->cso.sta.skw][w][p] = (short)skewscaled;
         if (phl->cso.sta.krt > -1) cs.cso_[phl->cso.sta.krt][w][p] = (short)kurtscaled;
 
         if (phl->cso.sta.quantiles){
           for (q=0; q<phl->cso.sta.nquantiles; q++){
-            cs.cso_[phl->cso.sta.qxx[q]][w][p] = (short)quantile(q_array, n, phl->cso.sta.q[q]);
+            cs.cso_[phl->cso.sta.qxx[q]][w][p] = (short)quantile(q_array, k, phl->cso.sta.q[q]);
             if (phl->cso.sta.q[q] == 0.25) q25_ = cs.cso_[phl->cso.sta.qxx[q]][w][p];
             if (phl->cso.sta.q[q] == 0.75) q75_ = cs.cso_[phl->cso.sta.qxx[q]][w][p];
           }
         }
 
         if (phl->cso.sta.iqr > -1){
-          if (q25_ == SHRT_MIN) q25_ = (short)quantile(q_array, n, 0.25);
-          if (q75_ == SHRT_MIN) q75_ = (short)quantile(q_array, n, 0.75);
+          if (q25_ == SHRT_MIN) q25_ = (short)quantile(q_array, k, 0.25);
+          if (q75_ == SHRT_MIN) q75_ = (short)quantile(q_array, k, 0.75);
           cs.cso_[phl->cso.sta.iqr][w][p] = q75_-q25_;
         }
 
-- 
2.43.0


From 91b58fbebf6b59e6dc1f28cbeef47e14339f8188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:34:18 +0000
Subject: [PATCH 31/76] fix: clear-sky observations omitted the last month of
 the date range

A time window that starts in the last month of the date range was not
processed, e.g. December with monthly windows.
---
 src/modules/higher-level/cso-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/cso-hl.c b/src/modules/higher-level/cso-hl.c
index 47004f4..427435c 100755
--- a/src/modules/higher-level/cso-hl.c
+++ b/src/modules/higher-level/cso-hl.c
@@ -244,7 +244,7 @@ bool alloc_q_array = false;
   month = phl->date_range[_MIN_].month;
   
   while (year < phl->date_range[_MAX_].year ||
-        (year <= phl->date_range[_MAX_].year && month < phl->date_range[_MAX_].month)){
+        (year <= phl->date_range[_MAX_].year && month <= phl->date_range[_MAX_].month)){
     nw++;
     if ((month += phl->cso.step) > 12){ year++; month -= 12;}
   }
-- 
2.43.0


From 355f540978b7109990324cb4f90eac547427d967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:36 +0000
Subject: [PATCH 32/76] fix: single-pixel patches entered the fractal dimension
 with a 5 pixel radius

Patches of one pixel have no fractal dimension and are skipped. The test
compared a rounded floating point area with 1, which failed for some kernel
sizes, e.g. a radius of 5 pixels.
---
 src/modules/higher-level/lsm-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/lsm-hl.c b/src/modules/higher-level/lsm-hl.c
index 1af37c2..b394882 100755
--- a/src/modules/higher-level/lsm-hl.c
+++ b/src/modules/higher-level/lsm-hl.c
@@ -475,7 +475,7 @@ float unit_perim = 0;
         // weighted sum of fractal dimensions
         for (t=0; t<numberOfuniquePatches; t++){
 
-          if (patchAreas[uniquePatches[t]]*kernelSize == 1) continue;
+          if (patchAreas[uniquePatches[t]]*kernelSize < 1.5) continue;
 
             unit_area  = patchAreas[uniquePatches[t]]*kernelSize;
             unit_perim = patchperimeters[uniquePatches[t]]*sqrt(kernelSize);
-- 
2.43.0


From e6c6696c9b4ba05d760ce3bd66a7c7c7d0302daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:36 +0000
Subject: [PATCH 33/76] fix: maximum landscape metric was 0 when all values are
 negative

---
 src/modules/higher-level/lsm-hl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/higher-level/lsm-hl.c b/src/modules/higher-level/lsm-hl.c
index b394882..acef2ad 100755
--- a/src/modules/higher-level/lsm-hl.c
+++ b/src/modules/higher-level/lsm-hl.c
@@ -341,7 +341,7 @@ float unit_perim = 0;
         logSum = 0;
         logCounter = 0;
         validDataPixels = 0;
-        maxVal = 0;
+        maxVal = SHRT_MIN;
         mx = vx = 0;
 
 
@@ -437,7 +437,7 @@ float unit_perim = 0;
         if (phl->lsm.ouci) lsm.uci_[f][p] = CCL[p];
         if (phl->lsm.oavg) lsm.avg_[f][p] = mx;
         if (phl->lsm.ogeo) lsm.geo_[f][p] = exp(logSum / (float)logCounter);
-        if (phl->lsm.omax) lsm.max_[f][p] = maxVal;
+        if (phl->lsm.omax) lsm.max_[f][p] = (validDataPixels > 0) ? maxVal : 0;
         if (phl->lsm.oare){
             if (validDataPixels <= SHRT_MAX) {
                 lsm.are_[f][p] = validDataPixels;
-- 
2.43.0


From ef2171bf15eeb7faf87af29dfeefba5e197ca3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:36 +0000
Subject: [PATCH 34/76] fix: landscape metrics of background pixels were
 missing in blocks without patch

With LSM_ALL_PIXELS = TRUE, pixels whose kernel holds no foreground get 0.
In blocks that hold no patch at all they were left as nodata, so the result
depended on the block layout.
---
 src/modules/higher-level/lsm-hl.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/lsm-hl.c b/src/modules/higher-level/lsm-hl.c
index acef2ad..92fe7ca 100755
--- a/src/modules/higher-level/lsm-hl.c
+++ b/src/modules/higher-level/lsm-hl.c
@@ -306,7 +306,33 @@ float unit_perim = 0;
 
     // make objects and delete small ones
     binary_to_objects(newFeatures, nx, ny, minPatchSize, &CCL, &SIZE, &nobj);
-    if (nobj < 1) continue;
+    if (nobj < 1){
+
+      // no patch in this block, background pixels have empty kernels
+      if (phl->lsm.allpx){
+        for (p=0; p<nc; p++){
+
+          if (mask_ != NULL && !mask_[p]) continue;
+          if (!features[f].msk[p] && phl->ftr.exclude) continue;
+
+          if (phl->lsm.ompa) lsm.mpa_[f][p] = 0;
+          if (phl->lsm.ouci) lsm.uci_[f][p] = 0;
+          if (phl->lsm.ofdi) lsm.fdi_[f][p] = 0;
+          if (phl->lsm.oedd) lsm.edd_[f][p] = 0;
+          if (phl->lsm.onbr) lsm.nbr_[f][p] = 0;
+          if (phl->lsm.oems) lsm.ems_[f][p] = 0;
+          if (phl->lsm.oavg) lsm.avg_[f][p] = 0;
+          if (phl->lsm.ostd) lsm.std_[f][p] = 0;
+          if (phl->lsm.ogeo) lsm.geo_[f][p] = 0;
+          if (phl->lsm.omax) lsm.max_[f][p] = 0;
+          if (phl->lsm.oare) lsm.are_[f][p] = 0;
+
+        }
+      }
+
+      continue;
+
+    }
 
 
     #pragma omp parallel firstprivate(kernelSize,numberOfuniquePatches) private(p,u,uniquePatches,ccl,patchperimeters,patchAreas,totalClassArea,totaledgelength,sumFractalDims,mx,vx,validDataPixels,maxVal,logSum,logCounter,ii,jj,ni,nj,np,exists,t,share,kj,ki,sumarea,sumshare,unit_area,unit_perim) shared(ny,nx,nobj,f,nodata,lsm,mask_,CCL,features,phl,newFeatures,KDIST,kfraction,sqkfraction) default(none)
-- 
2.43.0


From c79c6f2aee45d910ca636a78a05ce33929264111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:18 +0000
Subject: [PATCH 35/76] fix: class probability bands overwrote each other with
 exploded output

All bands of the random forest class probabilities that belong to one model
had the same band name. With OUTPUT_EXPLODE = TRUE, the band name is used in
the file name and only the last class was kept.
---
 src/modules/higher-level/ml-hl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/ml-hl.c b/src/modules/higher-level/ml-hl.c
index 3fd44eb..31829fa 100755
--- a/src/modules/higher-level/ml-hl.c
+++ b/src/modules/higher-level/ml-hl.c
@@ -95,7 +95,9 @@ short ***ptr[5] = { &ml->mlp_, &ml->mli_, &ml->mlu_, &ml->rfp_, &ml->rfm_ };
                   if (nchar < 0 || nchar >= NPOW_10){ 
                     printf("Buffer Overflow in assembling domain\n"); error++;}
                 } else { 
-                  copy_string(domain, NPOW_10, bname);
+                  nchar = snprintf(domain, NPOW_10, "%s_CLASS-%03d", bname, c+1);
+                  if (nchar < 0 || nchar >= NPOW_10){ 
+                    printf("Buffer Overflow in assembling domain\n"); error++;}
                 }
                 set_brick_domain(ML[o],   sc, domain);
                 set_brick_bandname(ML[o], sc, domain);
-- 
2.43.0


From 108ae60d60dd588f8bf44e478ec9326ca4270f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:18 +0000
Subject: [PATCH 36/76] fix: classification margin was maximal instead of 0
 when two classes tie

The second largest class probability was searched among the values that are
strictly smaller than the largest one.
---
 src/modules/higher-level/ml-hl.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/modules/higher-level/ml-hl.c b/src/modules/higher-level/ml-hl.c
index 31829fa..5b35395 100755
--- a/src/modules/higher-level/ml-hl.c
+++ b/src/modules/higher-level/ml-hl.c
@@ -384,10 +384,12 @@ bool valid;
           if (ml.rfm_ != NULL){
             max_prob = max2_prob  = 0;
             for (c=0; c<phl->mcl.nclass[s]; c++){
-              if (mean_prob[c] > max_prob) max_prob = mean_prob[c];
-            }
-            for (c=0; c<phl->mcl.nclass[s]; c++){
-              if (mean_prob[c] > max2_prob && mean_prob[c] < max_prob) max2_prob = mean_prob[c];
+              if (mean_prob[c] > max_prob){
+                max2_prob = max_prob;
+                max_prob  = mean_prob[c];
+              } else if (mean_prob[c] > max2_prob){
+                max2_prob = mean_prob[c];
+              }
             }
             ml.rfm_[s][p] = max_prob-max2_prob;
           }
-- 
2.43.0


From 5758df12df83f0d367291ee165c6af563689423c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:59 +0000
Subject: [PATCH 37/76] fix: library completeness products were named like
 landscape metrics

The file name is documented to hold the module ID, but library completeness
products were written with the ID of the landscape metrics module (LSM).
---
 src/modules/higher-level/lib-hl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/higher-level/lib-hl.c b/src/modules/higher-level/lib-hl.c
index 491965e..3b876a0 100755
--- a/src/modules/higher-level/lib-hl.c
+++ b/src/modules/higher-level/lib-hl.c
@@ -122,7 +122,7 @@ int nchar;
 
   if ((brick = copy_brick(from, nb, _DT_SHORT_)) == NULL) return NULL;
 
-  set_brick_name(brick, "FORCE Landscape Metrics");
+  set_brick_name(brick, "FORCE Library Completeness");
   set_brick_product(brick, prodname);
 
   if (phl->subfolders){
@@ -139,7 +139,7 @@ int nchar;
   set_brick_dirname(brick, dname);
   set_brick_provdir(brick, phl->d_prov);
 
-  nchar = snprintf(fname, NPOW_10, "%s_HL_LSM_%s", phl->lib.base, prodname);
+  nchar = snprintf(fname, NPOW_10, "%s_HL_LIB_%s", phl->lib.base, prodname);
   if (nchar < 0 || nchar >= NPOW_10){
     printf("Buffer Overflow in assembling filename\n"); return NULL;}
   set_brick_filename(brick, fname);
-- 
2.43.0


From c8ecfbd25792833fcc114d81ada2d8dd169ebfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:36 +0000
Subject: [PATCH 38/76] fix: out-of-bounds read when logging list parameters

The separator that follows list elements was used as string, but had no
terminating zero. Stack memory could thus end up in the parameter log.
---
 src/modules/cross-level/param-cl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/cross-level/param-cl.c b/src/modules/cross-level/param-cl.c
index d6ee773..07eb17f 100755
--- a/src/modules/cross-level/param-cl.c
+++ b/src/modules/cross-level/param-cl.c
@@ -925,7 +925,7 @@ const char *separator = " =";
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 void print_parameter(params_t *params){
 int i, n;
-char eol[1];
+char eol[2] = "\0";
 
 
   printf("Parameter printout:\n");
@@ -1019,7 +1019,7 @@ void log_parameter(params_t *params){
 int i, n;
 char *cur = params->log;
 char *const end = params->log + NPOW_14;
-char eol[1];
+char eol[2] = "\0";
 
 
   for (i=0; i<params->n; i++){
-- 
2.43.0


From 3f9f73fabc450fac71ead5fbf5e5a603b10ba98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:31 +0000
Subject: [PATCH 39/76] fix: invalid INPUT_FEATURE was reported, but not
 refused

The outcome of checking the feature file names and band numbers was ignored.
---
 src/modules/higher-level/param-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/param-hl.c b/src/modules/higher-level/param-hl.c
index dcebe9d..33f98f5 100755
--- a/src/modules/higher-level/param-hl.c
+++ b/src/modules/higher-level/param-hl.c
@@ -1007,7 +1007,7 @@ double tol = 5e-3;
   
   if (phl->type == _HL_LSM_) parse_lsm(&phl->lsm);
 
-  if (phl->input_level1 == _INP_FTR_) parse_ftr(&phl->ftr);
+  if (phl->input_level1 == _INP_FTR_ && parse_ftr(&phl->ftr) == FAILURE) return FAILURE;
 
   if (phl->input_level1 == _INP_ARD_ ||
       phl->input_level1 == _INP_QAI_) parse_quality(&phl->qai);
-- 
2.43.0


From fc459b002111ad07afe1b5307ad049a2216a9dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:56 +0000
Subject: [PATCH 40/76] fix: out-of-bounds read in force-train when all samples
 are used for training

---
 src/main/aux-level/force-train.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/aux-level/force-train.cpp b/src/main/aux-level/force-train.cpp
index 036e6de..17f7c1b 100755
--- a/src/main/aux-level/force-train.cpp
+++ b/src/main/aux-level/force-train.cpp
@@ -206,7 +206,7 @@ time_t TIME;
   alloc((void**)&c_response_train, n_sample_train, sizeof(int));
   alloc((void**)&r_response_train, n_sample_train, sizeof(float));
 
-  alloc_2DC((void***)&features_val, n_sample_val, t_features.ncol, sizeof(float));
+  if (n_sample_val > 0) alloc_2DC((void***)&features_val, n_sample_val, t_features.ncol, sizeof(float));
   alloc((void**)&c_response_val, n_sample_val, sizeof(int));
   alloc((void**)&r_response_val, n_sample_val, sizeof(float));
 
@@ -300,7 +300,7 @@ time_t TIME;
   free_2DC((void**)features_train);
   free((void*)c_response_train);
   free((void*)r_response_train);
-  free_2DC((void**)features_val);
+  if (features_val != NULL) free_2DC((void**)features_val);
   free((void*)c_response_val);
   free((void*)r_response_val);
   free((void*)is_train);
-- 
2.43.0


From 3a7a50da9d2d86e579a6ee24e62dced60c5ea70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:12 +0000
Subject: [PATCH 41/76] fix: out-of-bounds write when SPECTRAL_ADJUST is used

---
 src/modules/higher-level/sensor-hl.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/modules/higher-level/sensor-hl.c b/src/modules/higher-level/sensor-hl.c
index 0aa03ae..92b6b8f 100644
--- a/src/modules/higher-level/sensor-hl.c
+++ b/src/modules/higher-level/sensor-hl.c
@@ -344,12 +344,6 @@ char **band_names = NULL;
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 int retrieve_sensor(sen_t *sen){
 
-  int *nbands = NULL;
-  alloc((void**)&nbands, sen->n, sizeof(int));
-
-  char ***band_names = NULL;
-  alloc((void**)&band_names, sen->n, sizeof(char**));
-
   // ugly hack to make sure spectral adjustment works when no target sensor is included in SENSORS
   if (sen->spec_adjust){
     re_alloc_2D((void***)&sen->sensor, sen->n, NPOW_10, sen->n+1, NPOW_10, sizeof(char));
@@ -357,6 +351,12 @@ int retrieve_sensor(sen_t *sen){
     sen->n++;
   }
 
+  int *nbands = NULL;
+  alloc((void**)&nbands, sen->n, sizeof(int));
+
+  char ***band_names = NULL;
+  alloc((void**)&band_names, sen->n, sizeof(char**));
+
   int error = 0;
 
   for (int s=0; s<sen->n; s++){
-- 
2.43.0


From e7b28345727565ca5e182e8021f5a75705ddd122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:47:30 +0000
Subject: [PATCH 42/76] fix: force-stack turned nodata pixels into zeros

---
 src/main/aux-level/force-stack.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/aux-level/force-stack.c b/src/main/aux-level/force-stack.c
index 114b742..e954719 100755
--- a/src/main/aux-level/force-stack.c
+++ b/src/main/aux-level/force-stack.c
@@ -157,7 +157,7 @@ int f, nf;
 int b, nb;
 int k;
 int nx = 0, ny = 0;
-int nodata;
+int nodata, has_nodata;
 GDALDriverH     driver = NULL;
 GDALDatasetH    src    = NULL;
 GDALDatasetH    dst    = NULL;
@@ -304,7 +304,7 @@ enum { _BYFILE_, _BYBAND_, _INTERLEN_ };
     bsrc = GDALGetRasterBand(src, out[b].b);
     bmeta = GDALGetMetadata(bsrc, "FORCE");
     bname = GDALGetDescription(bsrc);
-    nodata = (int)GDALGetRasterNoDataValue(bsrc, NULL);
+    nodata = (int)GDALGetRasterNoDataValue(bsrc, &has_nodata);
 
     // add new band
     GDALAddBand(dst, GDT_Int16, NULL);
@@ -325,6 +325,7 @@ enum { _BYFILE_, _BYBAND_, _INTERLEN_ };
     GDALSetMetadataItem(bdst, "source_0", source, "new_vrt_sources");
     GDALSetMetadata(bdst, bmeta, "FORCE");
     GDALSetDescription(bdst, bname);
+    if (has_nodata) GDALSetRasterNoDataValue(bdst, nodata);
 
     GDALClose(src);
 
-- 
2.43.0


From 9d84bc3bd6291e7a87ba9e1c8c9cabdfd23706e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:47:30 +0000
Subject: [PATCH 43/76] fix: force-stratified-sample refused every output
 format option

---
 src/main/aux-level/force-stratified-sample.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/aux-level/force-stratified-sample.c b/src/main/aux-level/force-stratified-sample.c
index 46f1901..79b2a9f 100644
--- a/src/main/aux-level/force-stratified-sample.c
+++ b/src/main/aux-level/force-stratified-sample.c
@@ -115,6 +115,7 @@ bool o, f;
         exit(SUCCESS);
       case 'o':
         copy_string(args->file_output, NPOW_10, optarg);
+        o = true;
         break;
       case 'f':
         copy_string(args->format, NPOW_10, optarg);
@@ -161,7 +162,7 @@ bool o, f;
     usage(argv[0], FAILURE);
   }
 
-  if ((!o && f) || (!f && o)){
+  if (!o && f){
     fprintf(stderr, "If -f is given, -o need to be given, too.\n"); usage(argv[0], FAILURE);
   }
 
-- 
2.43.0


From 7cbb699eb6fc237122d5a21173390bb07bd21049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:51 +0000
Subject: [PATCH 44/76] fix: force-cube and force-procmask could not read
 tagged data cube definitions

---
 bash/force-cube.sh         | 25 +++++++++++++------------
 bash/force-procmask.sh     |  4 ++--
 misc/force-bash-library.sh | 11 +++++++++++
 3 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/bash/force-cube.sh b/bash/force-cube.sh
index 171fc19..56d2a90 100755
--- a/bash/force-cube.sh
+++ b/bash/force-cube.sh
@@ -107,9 +107,9 @@ function cubethis(){
   debug "$x $y $ORIGX $ORIGY $TILESIZE $CHUNKSIZE $RES $FINP $DOUT $COUT"
 
   ULX=$(echo "$ORIGX" "$x" "$TILESIZE" | awk '{printf "%f",  $1 + $2*$3}')
-  ULY=$(echo "$ORIGY" "$y" "$TILESIZE" | awk '{printf "%f",  $1 - $2*$3}')
+  ULY=$(echo "$ORIGY" "$y" "$TILESIZE_Y" | awk '{printf "%f",  $1 - $2*$3}')
   LRX=$(echo "$ORIGX" "$x" "$TILESIZE" | awk '{printf "%f",  $1 + ($2+1)*$3}')
-  LRY=$(echo "$ORIGY" "$y" "$TILESIZE" | awk '{printf "%f",  $1 - ($2+1)*$3}')
+  LRY=$(echo "$ORIGY" "$y" "$TILESIZE_Y" | awk '{printf "%f",  $1 - ($2+1)*$3}')
   TILE=$(printf "X%04d_Y%04d" "$x" "$y")
   XBLOCK=$(echo "$TILESIZE"  "$RES" | awk '{print int($1/$2)}')
   YBLOCK=$(echo "$CHUNKSIZE" "$RES" | awk '{print int($1/$2)}')
@@ -322,11 +322,12 @@ for i in "$@"; do
   debug "tempfile: $FTMP"
 
   # datacube parameters
-  WKT=$(head -n 1 "$DCDEF")
-  ORIGX=$(head -n 4 "$DCDEF"  | tail -1 )
-  ORIGY=$(head -n 5 "$DCDEF" | tail -1 )
-  TILESIZE=$(head -n 6 "$DCDEF" | tail -1 )
-  CHUNKSIZE=$(head -n 7 "$DCDEF" | tail -1 )
+  WKT=$(datacube_def "$DCDEF" "PROJECTION" 1)
+  ORIGX=$(datacube_def "$DCDEF" "ORIGIN_MAP_X" 4)
+  ORIGY=$(datacube_def "$DCDEF" "ORIGIN_MAP_Y" 5)
+  TILESIZE=$(datacube_def "$DCDEF" "TILE_SIZE_X" 6)
+  TILESIZE_Y=$(datacube_def "$DCDEF" "TILE_SIZE_Y" 6)
+  CHUNKSIZE=$(datacube_def "$DCDEF" "TILE_SIZE_Y" 7)
   debug "$WKT $ORIGX $ORIGY $TILESIZE $CHUNKSIZE"
 
   # nodata value
@@ -383,9 +384,9 @@ for i in "$@"; do
 
   # 1st tile, and ulx/uly of 1st tile
   TXMIN=$(echo "$XMIN" "$ORIGX" "$TILESIZE" | awk '{f=($1-$2)/$3;i=int(f);print(i==f||f>0)?i:i-1}')
-  TYMIN=$(echo "$YMAX" "$ORIGY" "$TILESIZE" | awk '{f=($2-$1)/$3;i=int(f);print(i==f||f>0)?i:i-1}')
+  TYMIN=$(echo "$YMAX" "$ORIGY" "$TILESIZE_Y" | awk '{f=($2-$1)/$3;i=int(f);print(i==f||f>0)?i:i-1}')
   ULX=$(echo "$ORIGX" "$TXMIN" "$TILESIZE" | awk '{printf "%f", $1 + $2*$3}')
-  ULY=$(echo "$ORIGY" "$TYMIN" "$TILESIZE" | awk '{printf "%f", $1 - $2*$3}')
+  ULY=$(echo "$ORIGY" "$TYMIN" "$TILESIZE_Y" | awk '{printf "%f", $1 - $2*$3}')
   debug "UL grid $ULX $ULY"
 
   # step a tile to the west, and check if image is in tile, find last tile
@@ -398,10 +399,10 @@ for i in "$@"; do
 
   # step a tile to the south, and check if image is in tile, find last tile
   TYMAX=$TYMIN
-  ULY=$(echo "$ULY" "$TILESIZE" | awk '{printf "%f", $1-$2}')
+  ULY=$(echo "$ULY" "$TILESIZE_Y" | awk '{printf "%f", $1-$2}')
   while is_lt "$YMIN" "$ULY"; do
     TYMAX=$(echo "$TYMAX" | awk '{print $1+1}')
-    ULY=$(echo "$ULY" "$TILESIZE" | awk '{printf "%f",  $1-$2}')
+    ULY=$(echo "$ULY" "$TILESIZE_Y" | awk '{printf "%f",  $1-$2}')
   done
   debug "X_TILE_RANGE = $TXMIN $TXMAX"
   debug "Y_TILE_RANGE = $TYMIN $TYMAX"
@@ -411,7 +412,7 @@ for i in "$@"; do
   MEMORY=$(LANG="C"; free --mega | awk '/^Mem/ { printf("%.0fM\n", $2 * 0.05) }')
 
   # cube the file, spawn multiple jobs for each tile
-  export WKT ORIGX ORIGY TILESIZE CHUNKSIZE RES 
+  export WKT ORIGX ORIGY TILESIZE TILESIZE_Y CHUNKSIZE RES 
   export FINP DOUT COUT INODATA ONODATA RESAMPLE RASTER DATATYPE ATTRIBUTE
   $PARALLEL_EXE -j "$NJOB" --memsuspend "$MEMORY" cubethis {1} {2} ::: $(seq "$TXMIN" "$TXMAX") ::: $(seq "$TYMIN" "$TYMAX")
 
diff --git a/bash/force-procmask.sh b/bash/force-procmask.sh
index 7cbc841..647c400 100755
--- a/bash/force-procmask.sh
+++ b/bash/force-procmask.sh
@@ -201,8 +201,8 @@ if [ $(cat "$TEMP" | wc -l) -lt 1 ]; then
 fi
 
 # tile /chunk size
-TILESIZE=$(head -n 6 $DOUT/datacube-definition.prj | tail -1 )
-CHUNKSIZE=$(head -n 7 $DOUT/datacube-definition.prj | tail -1 )
+TILESIZE=$(datacube_def "$DOUT/datacube-definition.prj" "TILE_SIZE_X" 6)
+CHUNKSIZE=$(datacube_def "$DOUT/datacube-definition.prj" "TILE_SIZE_Y" 7)
 
 # block size
 XBLOCK=$(echo $TILESIZE  $RES | awk '{print int($1/$2)}')
diff --git a/misc/force-bash-library.sh b/misc/force-bash-library.sh
index 3c45f5d..8764dd1 100644
--- a/misc/force-bash-library.sh
+++ b/misc/force-bash-library.sh
@@ -160,3 +160,14 @@ is_integer(){
   if [[ "$1" =~ ^-?[0-9]+$ ]]; then return 0; else return 1; fi
 }
 export -f is_integer
+
+# read a value from the datacube definition (tagged, or deprecated line-by-line format)
+# 1: file, 2: tag, 3: line number in deprecated format
+datacube_def(){
+  if grep -q "^PROJECTION *=" "$1"; then
+    grep "^$2 *=" "$1" | head -n 1 | sed 's/^[^=]*= *//'
+  else
+    head -n "$3" "$1" | tail -1
+  fi
+}
+export -f datacube_def
-- 
2.43.0


From 551040c9c43fae9573b65df77deaa1c8052383a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:51 +0000
Subject: [PATCH 45/76] fix: force-mosaic mixed products whose name ends with
 another product's name

---
 bash/force-mosaic.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bash/force-mosaic.sh b/bash/force-mosaic.sh
index cc943d6..2d044ca 100755
--- a/bash/force-mosaic.sh
+++ b/bash/force-mosaic.sh
@@ -80,7 +80,7 @@ function mosaic_this(){
   debug "output name: $ONAME"
 
   # file list
-  grep "$prd" force-mosaic_all-files.txt 1> "$LIST" 2> /dev/null
+  awk -F '/' -v prd="$prd" '$NF == prd' force-mosaic_all-files.txt 1> "$LIST" 2> /dev/null
 
   # file list exists?
   if [ ! -f "$LIST" ]; then
-- 
2.43.0


From 73fdbc4b40f68f57ca8b2f44942988d0f9d910d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:51 +0000
Subject: [PATCH 46/76] fix: force-mosaic failed with a relative mosaic
 directory and ignored the default one

---
 bash/force-mosaic.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bash/force-mosaic.sh b/bash/force-mosaic.sh
index 2d044ca..9121019 100755
--- a/bash/force-mosaic.sh
+++ b/bash/force-mosaic.sh
@@ -178,9 +178,9 @@ dir_not_found "$FINP"
 
 # output directory for mosaics
 if [ -z "$MOSAIC" ]; then
-  DOUT="$FINP/$MOSAIC"
+  DOUT="$FINP/mosaic"
 else 
-  DOUT="$MOSAIC"
+  DOUT=$(readlink -m "$MOSAIC") # absolute path
 fi
 
 if [ ! -d "$DOUT" ]; then
-- 
2.43.0


From b97db161a960d99848ed99241b6e30d4ca25561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:51 +0000
Subject: [PATCH 47/76] fix: force-procmask wrote no mask if the expression
 contains blanks

---
 bash/force-procmask.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bash/force-procmask.sh b/bash/force-procmask.sh
index 647c400..e1acc8b 100755
--- a/bash/force-procmask.sh
+++ b/bash/force-procmask.sh
@@ -90,7 +90,7 @@ function mask(){
     -A $FILE \
     --A_band=$LAYER \
     --outfile=$DOUT/$TILE/$FOUT \
-    --calc=$CALC \
+    --calc="$CALC" \
     --NoDataValue=255 \
     --type=Byte \
     --format='GTiff' \
-- 
2.43.0


From 5ff53a18b2df3eba84abf7e762610655cdb26e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:51 +0000
Subject: [PATCH 48/76] fix: force-virtual-datacube swallowed the option that
 follows -w

---
 bash/force-virtual-datacube.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bash/force-virtual-datacube.sh b/bash/force-virtual-datacube.sh
index 9514936..a229c0d 100755
--- a/bash/force-virtual-datacube.sh
+++ b/bash/force-virtual-datacube.sh
@@ -101,7 +101,7 @@ while :; do
     -v|--version) force_version; exit 0;;
     -i|--info) echo "Display the size of your datacube"; exit 0;;
     -p|--pattern) PATTERN="$2"; shift ;;
-    -w|-overwrite) OVERWRITE=TRUE; shift ;;
+    -w|--overwrite) OVERWRITE=TRUE ;;
     -j|--jobs) NJOB="$2"; shift ;;
     
     -- ) shift; break ;;
-- 
2.43.0


From e9997c7a9f3214fd4ef0d703f8fc75b9d1ecd9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:04 +0000
Subject: [PATCH 49/76] fix: force-tile-extent lost tile number 0 and used a
 wrong directory for the allow-list

---
 bash/force-tile-extent.sh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bash/force-tile-extent.sh b/bash/force-tile-extent.sh
index 3581fc8..f2e4f86 100755
--- a/bash/force-tile-extent.sh
+++ b/bash/force-tile-extent.sh
@@ -108,7 +108,7 @@ debug "allow-list:   $FILE_ALLOW"
 debug "AOI:          $FILE_AOI"
 debug "njobs:        $NJOB"
 
-DIR_ALLOW=$(dirname "FILE_ALLOW")
+DIR_ALLOW=$(dirname "$FILE_ALLOW")
 FILE_CUBE="$DIR_CUBE/datacube-definition.prj"
 
 # checks
@@ -160,8 +160,8 @@ for i in "${TILES_MASK[@]}"; do
   X=${i:1:4}
   Y=${i:7:4}
 
-  X=$(echo $X | sed 's/^0*//')
-  Y=$(echo $Y | sed 's/^0*//')
+  X=$(echo $X | awk '{print $1+0}')
+  Y=$(echo $Y | awk '{print $1+0}')
 
   is_gt "$X" "$XMAX" && XMAX="$X"
   is_lt "$X" "$XMIN" && XMIN="$X"
-- 
2.43.0


From 3599a9aa2ff21e69d09c3bcd30af69faa5fc42bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:04 +0000
Subject: [PATCH 50/76] fix: force-cube looked for the first file's layer in
 all further vector files

---
 bash/force-cube.sh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bash/force-cube.sh b/bash/force-cube.sh
index 56d2a90..edd200e 100755
--- a/bash/force-cube.sh
+++ b/bash/force-cube.sh
@@ -277,6 +277,7 @@ fi
 
 
 # main thing -----------------------------------------------------------------------------
+LAYER_OPTION="$LAYER"
 for i in "$@"; do
 
   FINP=$(readlink -f "$i") # absolute file path
@@ -290,7 +291,7 @@ for i in "$@"; do
     COUT="$BASE" # corename from user parameters
   fi
 
-  if [ "$LAYER" == "DEFAULT" ]; then
+  if [ "$LAYER_OPTION" == "DEFAULT" ]; then
     LAYER="$CINP"  # layername from input file
   fi
 
-- 
2.43.0


From 3f864fcad33e6ed0381f09133a84275002dc0403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:58:09 +0000
Subject: [PATCH 51/76] fix: force-magic-parameters put braces around the value
 of single-value vectors

---
 bash/force-magic-parameters.sh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bash/force-magic-parameters.sh b/bash/force-magic-parameters.sh
index 6428533..a298299 100755
--- a/bash/force-magic-parameters.sh
+++ b/bash/force-magic-parameters.sh
@@ -127,6 +127,8 @@ if [ "$COMB" = "all" ]; then
   # combine values
   for k in $KEYS; do
     VALUES={$(grep "%$k%:" $FINP | sed 's/^.*%: //' | tr -s ' ' | sed 's/^ //' | sed 's/ /,/g' )}
+    # single values are not expanded, remove braces
+    if [[ "$VALUES" != *,* ]]; then VALUES="${VALUES:1:-1}"; fi
     #echo $VALUES
     combis="$combis%$VALUES"
     #echo $combis
-- 
2.43.0


From cbe8ae755be704d9a13b2e4778bf8f4bcdd5a580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:29 +0000
Subject: [PATCH 52/76] fix: not-a-number was accepted for parameters with a
 valid range

---
 src/modules/cross-level/param-cl.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/modules/cross-level/param-cl.c b/src/modules/cross-level/param-cl.c
index 07eb17f..febb3d1 100755
--- a/src/modules/cross-level/param-cl.c
+++ b/src/modules/cross-level/param-cl.c
@@ -1214,12 +1214,12 @@ int error = 0, n;
 
 
   if (par->length == NULL){
-    if (*par->float_ < par->float_range[_MIN_] ||
-        *par->float_ > par->float_range[_MAX_]) error++;
+    if (!(*par->float_ >= par->float_range[_MIN_] &&
+          *par->float_ <= par->float_range[_MAX_])) error++;
   } else {
     for (n=0; n<*par->length; n++){
-      if (par->float_vec_[0][n] < par->float_range[_MIN_] ||
-          par->float_vec_[0][n] > par->float_range[_MAX_]) error++;
+      if (!(par->float_vec_[0][n] >= par->float_range[_MIN_] &&
+            par->float_vec_[0][n] <= par->float_range[_MAX_])) error++;
     }
   }
 
@@ -1242,12 +1242,12 @@ int error = 0, n;
 
 
   if (par->length == NULL){
-    if (*par->double_ < par->double_range[_MIN_] ||
-        *par->double_ > par->double_range[_MAX_]) error++;
+    if (!(*par->double_ >= par->double_range[_MIN_] &&
+          *par->double_ <= par->double_range[_MAX_])) error++;
   } else {
     for (n=0; n<*par->length; n++){
-      if (par->double_vec_[0][n] < par->double_range[_MIN_] ||
-          par->double_vec_[0][n] > par->double_range[_MAX_]) error++;
+      if (!(par->double_vec_[0][n] >= par->double_range[_MIN_] &&
+            par->double_vec_[0][n] <= par->double_range[_MAX_])) error++;
     }
   }
 
-- 
2.43.0


From 9101d08ce986c066993c38e614e6a03e1c2b9373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:29 +0000
Subject: [PATCH 53/76] fix: force-synthmix aborted when rounding keeps the
 fractions from summing to exactly one

---
 python/force-synthmix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/force-synthmix.py b/python/force-synthmix.py
index b361dca..c47bc01 100755
--- a/python/force-synthmix.py
+++ b/python/force-synthmix.py
@@ -106,7 +106,7 @@ def synthMixCore(
                 fraction = np.random.random() * (1. - sum(drawnFractions))
             drawnFractions.append(fraction)
         drawnFractions.append(1. - sum(drawnFractions))
-        assert sum(drawnFractions) == 1.
+        assert abs(sum(drawnFractions) - 1.) < 1e-9
 
         # mix
         mixedProfile = list(np.sum(features[drawnIndices] * np.reshape(drawnFractions, (-1, 1)), axis=0))
-- 
2.43.0


From 3de1a49c85e650dc50331e6c3545f5b9a157f408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:29 +0000
Subject: [PATCH 54/76] fix: force-synthmix assigned proportional likelihoods
 to the wrong classes if not all are used

---
 python/force-synthmix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/force-synthmix.py b/python/force-synthmix.py
index c47bc01..7140696 100755
--- a/python/force-synthmix.py
+++ b/python/force-synthmix.py
@@ -57,7 +57,7 @@ def synthMixCore(
         classLikelihood = 'proportional'
     if isinstance(classLikelihood, str):
         if classLikelihood.lower() == 'proportional':
-            classLikelihood = {classId: float(count) / len(response) for classId, count in zip(classIds, counts)}
+            classLikelihood = {classId: float(count) / len(response) for classId, count in zip(_classIds, counts) if classId in classIds}
         elif classLikelihood.lower() == 'equalized':
             classLikelihood = {classId: 1. / len(classIds) for classId in classIds}
     assert isinstance(mixingLikelihood, dict)
-- 
2.43.0


From 012b3a1c9189f347b9965c32f496c5793babc86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:29 +0000
Subject: [PATCH 55/76] fix: force-synthmix counted only one endmember of the
 target class in within-class mixtures

---
 python/force-synthmix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/force-synthmix.py b/python/force-synthmix.py
index 7140696..cf6dcbd 100755
--- a/python/force-synthmix.py
+++ b/python/force-synthmix.py
@@ -282,7 +282,8 @@ def synthMixCli(filenamePrm):
             with open(filenameFeatures, 'w') as fileFeatures, open(filenameResponse, 'w') as fileResponse:
                 for i, mixture in enumerate(mixtureStream, 1):
                     fileFeatures.write(' '.join([str(round(v, 2)) for v in mixture.profile]) + '\n')
-                    fileResponse.write(str(round(mixture.fractions[0], 4)) + '\n')
+                    fraction = sum(f for f, classId in zip(mixture.fractions, mixture.classIds) if classId == target)
+                    fileResponse.write(str(round(fraction, 4)) + '\n')
                     if i == n:
                         break
 
-- 
2.43.0


From c8e9fe4f694eab25532f1cc6014f05337a28c923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:43 +0000
Subject: [PATCH 56/76] fix: void bands behind a saturated band were not
 detected

The search for void bands stopped at the first saturated band. A pixel that
is saturated in one band and void in a later one (e.g. thermal) was kept as
valid observation.
---
 src/modules/lower-level/read-ll.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/lower-level/read-ll.c b/src/modules/lower-level/read-ll.c
index 846ee97..478ec25 100755
--- a/src/modules/lower-level/read-ll.c
+++ b/src/modules/lower-level/read-ll.c
@@ -196,7 +196,7 @@ int tvalid = 0;
         if (b != b_cirrus && dn_[b][p] == 0){ off_[p] = true; break;}
 
         // if any (non-temp) layer saturated
-        if (b != b_temp && dn_[b][p] >= meta->sat){ set_saturation(qai, p, true); break;}
+        if (b != b_temp && dn_[b][p] >= meta->sat) set_saturation(qai, p, true);
 
         // if temperature has any non-0 value
         if (b == b_temp) tvalid++;
-- 
2.43.0


From ff750cbe4a3497c9a3ea285cea2246cd9ae966f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:43 +0000
Subject: [PATCH 57/76] fix: TOA reflectance above 3.2767 overflowed

Bright pixels under low sun exceed the range of the 16bit image. Use the
largest number, as is done for the temperature and in the Level 2 product.
---
 src/modules/lower-level/read-ll.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modules/lower-level/read-ll.c b/src/modules/lower-level/read-ll.c
index 478ec25..9996a4b 100755
--- a/src/modules/lower-level/read-ll.c
+++ b/src/modules/lower-level/read-ll.c
@@ -462,7 +462,12 @@ float dn_scale, toa_scale;
                 set_off(QAI, p, true);
               }
             } else {
-              toa_[b][p] = (short)(tmp*toa_scale);
+              tmp *= toa_scale;
+              if (tmp < SHRT_MAX){
+                toa_[b][p] = (short)tmp;
+              } else {
+                toa_[b][p] = SHRT_MAX;
+              }
             }
 
           }
-- 
2.43.0


From 2edb72f84c7baa9906a45fd7c48fb123f99199cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:43 +0000
Subject: [PATCH 58/76] fix: cloud shadows ignored the NIR band with one thread

The shadow probability of the bands was combined once per thread, not once
per band. With NTHREAD = 1, only the last band was considered, and cloud
shadows differed from the ones found with more threads.
---
 src/modules/lower-level/cloud-ll.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/modules/lower-level/cloud-ll.c b/src/modules/lower-level/cloud-ll.c
index 83f484d..5c5bf17 100755
--- a/src/modules/lower-level/cloud-ll.c
+++ b/src/modules/lower-level/cloud-ll.c
@@ -843,13 +843,14 @@ char domains[2][NPOW_10] = { "NIR", "SWIR1" };
       greyscale_reconstruction_(mask_, marker_, nx, ny);
       for (p=0; p<nc; p++) marker_[p]  -= mask_[p];
 
-    }
-
-    #pragma omp critical
-    {
-      for (p=0; p<nc; p++){
-        if (marker_[p] < spr_[p]) spr_[p] = marker_[p];
+      // a thread may process more than one band
+      #pragma omp critical
+      {
+        for (p=0; p<nc; p++){
+          if (marker_[p] < spr_[p]) spr_[p] = marker_[p];
+        }
       }
+
     }
 
     free((void*)mask_);
-- 
2.43.0


From 2a9d8973fcd0b5a4417d7986a4709732a51a4fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:43 +0000
Subject: [PATCH 59/76] fix: Level 2 tiles could be shifted by one pixel

The offset of a tile in an image aligned with the grid is a whole number of
pixels, up to rounding. Without tolerance, the offset was rounded down to
the previous pixel if the coordinates were e.g. 1e-10 m too small.
---
 src/modules/lower-level/cube-ll.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modules/lower-level/cube-ll.c b/src/modules/lower-level/cube-ll.c
index 898e9fa..3b62488 100755
--- a/src/modules/lower-level/cube-ll.c
+++ b/src/modules/lower-level/cube-ll.c
@@ -50,6 +50,7 @@ int tx, ty;  // tile id
 double tulx, tuly; // ul of tile
 double ulx, uly; // ul of image
 int istart, jstart; // image-to-chip offset
+double tol = 1e-4; // tolerance (in pixels) for images aligned with the grid
 int ntile = 0; // number of written tiles
 int *tiles_x = NULL;
 int *tiles_y = NULL;
@@ -125,8 +126,8 @@ int cube_nx, cube_ny, cube_nc;
       cube_nc = cube_nx*cube_ny;
 
       // image offset relative to current tile
-      jstart = floor((tulx-ulx)/res); // changed from round to floor
-      istart = floor((uly-tuly)/res); // changed from round to floor
+      jstart = floor((tulx-ulx)/res + tol); // changed from round to floor
+      istart = floor((uly-tuly)/res + tol); // changed from round to floor
 
       #ifdef FORCE_DEBUG
       printf("ul: %f/%f, offset: %d/%d\n", tulx, tuly, jstart, istart);
-- 
2.43.0


From 13eb19258e56278ad219334fb9964c1c2f37cc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:43 +0000
Subject: [PATCH 60/76] fix: filling small holes in the cloud mask depended on
 the threads

Pixels filled by one thread were counted as neighbors by others, thus the
cloud mask depended on the number and the timing of the threads.
---
 src/modules/cross-level/imagefuns-cl.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/modules/cross-level/imagefuns-cl.c b/src/modules/cross-level/imagefuns-cl.c
index 29f53f2..9952454 100755
--- a/src/modules/cross-level/imagefuns-cl.c
+++ b/src/modules/cross-level/imagefuns-cl.c
@@ -239,9 +239,15 @@ int nx, ny;
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 int majorfill_(small *image, int nx, int ny){
 int i, j, ii, jj, ni, nj, p, k;
+int nc = nx*ny;
+small *tmp = NULL;
+
 
+  // count neighbors in a copy, cells filled here do not count
+  alloc((void**)&tmp, nc, sizeof(small));
+  memmove(tmp, image, nc*sizeof(small));
 
-  #pragma omp parallel private(j, p, ii, jj, ni, nj, k) shared(nx, ny, image) default(none) 
+  #pragma omp parallel private(j, p, ii, jj, ni, nj, k) shared(nx, ny, image, tmp) default(none) 
   {
 
     #pragma omp for schedule(guided)
@@ -261,7 +267,7 @@ int i, j, ii, jj, ni, nj, p, k;
         ni = i+ii; nj = j+jj;
         if (ni < 0 || ni >= ny || nj < 0 || nj >= nx) continue;
 
-        k += image[ni*nx+nj];
+        k += tmp[ni*nx+nj];
 
       }
       }
@@ -272,6 +278,8 @@ int i, j, ii, jj, ni, nj, p, k;
     }
     
   }
+
+  free((void*)tmp);
   
 
   return SUCCESS;
-- 
2.43.0


From b37c4b42056d86635b01a7362798f24d7225efb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:53:19 +0000
Subject: [PATCH 61/76] fix: buffering dropped flags near the image border

Pixels closer to the image border than the buffer radius were skipped and,
as the buffered image replaces the input, lost. The buffer is now drawn for
all pixels and cut off at the border.
---
 src/modules/cross-level/imagefuns-cl.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/modules/cross-level/imagefuns-cl.c b/src/modules/cross-level/imagefuns-cl.c
index 9952454..ce402dd 100755
--- a/src/modules/cross-level/imagefuns-cl.c
+++ b/src/modules/cross-level/imagefuns-cl.c
@@ -151,7 +151,8 @@ int nx, ny;
 +++ Return: SUCCESS/FAILURE
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 int buffer_(small *image, int nx, int ny, int r){
-int i, j, k, p, d, x, y;
+int i, j, k, p, d, x, y, l;
+int dj[4], dk[4];
 int nc = nx*ny;
 small *tmp = NULL;
 
@@ -160,15 +161,14 @@ small *tmp = NULL;
 
   alloc((void**)&tmp, nc, sizeof(small));
 
-  // do for every pixel, except boundary
-  // boundary width is determined by buffer radius
+  // do for every pixel, the buffer is cut off at the image boundary
 
-  #pragma omp parallel private(j, p, k, x, y, d) shared(nx, ny, r, image, tmp) default(none) 
+  #pragma omp parallel private(j, p, k, l, x, y, d, dj, dk) shared(nx, ny, r, image, tmp) default(none) 
   {
 
     #pragma omp for schedule(guided)
-    for (i=r; i<(ny-r); i++){
-    for (j=r; j<(nx-r); j++){
+    for (i=0; i<ny; i++){
+    for (j=0; j<nx; j++){
 
       p = nx*i+j;
 
@@ -182,8 +182,15 @@ small *tmp = NULL;
       while (x <= y){
 
         // draw buffer with radius around point
-        for (k=i-y; k<=i+y; k++){ tmp[nx*k+j+x] = true; tmp[nx*k+j-x] = true; }
-        for (k=i-x; k<=i+x; k++){ tmp[nx*k+j+y] = true; tmp[nx*k+j-y] = true; }
+        dj[0] =  x; dj[1] = -x; dj[2] =  y; dj[3] = -y;
+        dk[0] =  y; dk[1] =  y; dk[2] =  x; dk[3] =  x;
+
+        for (l=0; l<4; l++){
+          if (j+dj[l] < 0 || j+dj[l] >= nx) continue;
+          for (k=i-dk[l]; k<=i+dk[l]; k++){
+            if (k >= 0 && k < ny) tmp[nx*k+j+dj[l]] = true;
+          }
+        }
 
         if (d < 0){
           d = d + (4 * x) + 6;
-- 
2.43.0


From 34136c512ed0de17ee825b69d1b9e305d19580eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:06 +0000
Subject: [PATCH 62/76] fix: queue update changed the state of images with
 similar paths

The path of the processed image was used as an unanchored regular expression.
Images whose path ends with that path, or only differs where it has a dot,
got the same state although they were not processed; paths with a plus sign
were never updated.
---
 bash/force-level2.sh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bash/force-level2.sh b/bash/force-level2.sh
index c065e7b..439e43d 100755
--- a/bash/force-level2.sh
+++ b/bash/force-level2.sh
@@ -263,7 +263,9 @@ function process_this_image(){
 
   # update queue status; queue must be locked and unlocked
   $LOCK_CREATE_EXE "$FILE_QUEUE"
-  sed -i.tmp -E "s+($FILE_IMAGE) .*+\1 $STATUS+" "$FILE_QUEUE"
+  # match the complete path, and take it literally
+  REGEX_IMAGE=$(printf '%s' "$FILE_IMAGE" | sed 's/[][\.*^$+?(){}|/]/\\&/g')
+  sed -i.tmp -E "s/^($REGEX_IMAGE) .*/\1 $STATUS/" "$FILE_QUEUE"
   chmod --reference "$FILE_QUEUE.tmp" "$FILE_QUEUE"
   rm "$FILE_QUEUE.tmp"
   $LOCK_REMOVE_EXE "$FILE_QUEUE"
-- 
2.43.0


From d661aa8846adebfcf0a78c1732e379ced98d08b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:30:51 +0000
Subject: [PATCH 63/76] fix: Level 2 ImproPhe could not be run

The secondary sensors were compared with a target sensor that they do not have.
The product types were not set for them either, which crashed the search for images.
---
 src/modules/higher-level/param-hl.c  | 4 ++++
 src/modules/higher-level/sensor-hl.c | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/modules/higher-level/param-hl.c b/src/modules/higher-level/param-hl.c
index 33f98f5..2c756b1 100755
--- a/src/modules/higher-level/param-hl.c
+++ b/src/modules/higher-level/param-hl.c
@@ -990,6 +990,10 @@ double tol = 5e-3;
     retrieve_sensor(&phl->sen) != SUCCESS){
     printf("Compiling sensors failed.\n"); return FAILURE;}
     
+  // secondary sensors use the same product types as the primary sensors
+  phl->sen2.main_product    = phl->sen.main_product;
+  phl->sen2.quality_product = phl->sen.quality_product;
+
   if ((phl->input_level2 == _INP_QAI_ ||
        phl->input_level2 == _INP_ARD_) &&
     retrieve_sensor(&phl->sen2) != SUCCESS){
diff --git a/src/modules/higher-level/sensor-hl.c b/src/modules/higher-level/sensor-hl.c
index 92b6b8f..0935779 100644
--- a/src/modules/higher-level/sensor-hl.c
+++ b/src/modules/higher-level/sensor-hl.c
@@ -422,8 +422,8 @@ int retrieve_sensor(sen_t *sen){
     return FAILURE;
   }
 
-  // compare with target sensor if combination is sensible
-  if (check_target_sensor(sen) != SUCCESS){
+  // compare with target sensor if combination is sensible (secondary sensors do not have a target)
+  if (sen->target != NULL && check_target_sensor(sen) != SUCCESS){
     fprintf(stderr, "Error: Target sensor is not compatible with selected input sensors.\n");
     return FAILURE;
   }
-- 
2.43.0


From 53304643326745671f9345f4f2d3f6859e1c4cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:30:51 +0000
Subject: [PATCH 64/76] fix: principal components were projected with the
 transposed eigenvectors

The eigenvectors are stored in columns, but the data were multiplied with the rows.
Components that are retained for their variance could thus hold none of it.
---
 src/modules/cross-level/pca-cl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/cross-level/pca-cl.c b/src/modules/cross-level/pca-cl.c
index 83d1c90..4359ce5 100755
--- a/src/modules/cross-level/pca-cl.c
+++ b/src/modules/cross-level/pca-cl.c
@@ -174,7 +174,7 @@ gsl_vector *eval = NULL;
   alloc_2D((void***)&PCA, numcomp, nc, sizeof(float));
 
   // project original data to principal components
-  gsl_blas_dgemm(CblasNoTrans, CblasTrans, 1.0, GINP, evec, 0.0, GPCA);
+  gsl_blas_dgemm(CblasNoTrans, CblasNoTrans, 1.0, GINP, evec, 0.0, GPCA);
 
   // restructure data
   for (b=0; b<numcomp; b++){
-- 
2.43.0


From 902c15ba613d9b57f02c035acddb7334046b776d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:31:43 +0000
Subject: [PATCH 65/76] fix: Continuous Field ImproPhe left pixels and years
 without a value

Pixels outside of the mask, or without data in one of the fields, were 0.
Years after the first year without fine images were 0 as well.
---
 src/modules/higher-level/cf-improphe-hl.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/modules/higher-level/cf-improphe-hl.c b/src/modules/higher-level/cf-improphe-hl.c
index 371e522..00e3bc2 100755
--- a/src/modules/higher-level/cf-improphe-hl.c
+++ b/src/modules/higher-level/cf-improphe-hl.c
@@ -265,15 +265,15 @@ bool is_empty;
     if (is_empty){
 
       for (f=0; f<ncf; f++){
-        #pragma omp parallel shared(cfi,cf,nc,y,f,b_cf) default(none)
+        #pragma omp parallel shared(cfi,cf,mask_,nc,y,f,b_cf,cf_nodata) default(none)
         {
           #pragma omp for
-          for (p=0; p<nc; p++) cfi.imp_[f][y][p] = cf[f].dat[b_cf][p];
+          for (p=0; p<nc; p++) cfi.imp_[f][y][p] = (mask_ != NULL && !mask_[p]) ? cf_nodata : cf[f].dat[b_cf][p];
         }
       }
 
-      *nproduct = nprod;
-      return CFI;
+      free_2D((void**)seasonal_avg_, phl->imp.nwin*nb_ard);
+      continue;
 
     }
 
@@ -321,6 +321,7 @@ bool is_empty;
             //cfi.imp_[f][y][p] = cf[f].dat[b_cf][p];
             cf_[f][p] = cf_nodata;
           } else {
+            pred_[f][p] = cf[f].dat[b_cf][p];
             cf_[f][p] = cf[f].dat[b_cf][p];
           }
         }
@@ -344,10 +345,10 @@ bool is_empty;
 
         p = i*nx+j;
 
-        if (cf_[0][p] == cf_nodata) continue;
-
-        improphe(ard_, ard_tex_, cf_, cf_tex_, pred_, KDIST, ard_nodata, cf_nodata, i, j, p, 
-          nx, ny, phl->imp.ksize, npc, ncf, nk, mink);
+        if (cf_[0][p] != cf_nodata){
+          improphe(ard_, ard_tex_, cf_, cf_tex_, pred_, KDIST, ard_nodata, cf_nodata, i, j, p, 
+            nx, ny, phl->imp.ksize, npc, ncf, nk, mink);
+        }
 
         for (f=0; f<ncf; f++) cfi.imp_[f][y][p] = pred_[f][p];
 
-- 
2.43.0


From 4e387e9f870d97131a0b40895933b93e9532415d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:28 +0000
Subject: [PATCH 66/76] fix: Level 2 ImproPhe wrote values outside of the mask
 if there are no fine images

---
 src/modules/higher-level/l2-improphe-hl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/higher-level/l2-improphe-hl.c b/src/modules/higher-level/l2-improphe-hl.c
index 5bf0e40..f10df3c 100755
--- a/src/modules/higher-level/l2-improphe-hl.c
+++ b/src/modules/higher-level/l2-improphe-hl.c
@@ -217,11 +217,11 @@ bool is_empty;
   if (is_empty){
     
     for (t=0; t<nt_mr; t++){
-      #pragma omp parallel private(b) shared(l2i,ard_mr,nc,nb_mr,t) default(none)
+      #pragma omp parallel private(b) shared(l2i,ard_mr,mask_,nc,nb_mr,t,nodata) default(none)
       {
         #pragma omp for
         for (p=0; p<nc; p++){
-          for (b=0; b<nb_mr; b++) l2i.imp_[t][b][p] = ard_mr[t].dat[b][p];
+          for (b=0; b<nb_mr; b++) l2i.imp_[t][b][p] = (mask_ != NULL && !mask_[p]) ? nodata : ard_mr[t].dat[b][p];
         }
       }
     }
-- 
2.43.0


From 4a4bc86d56f4ea915a93b439ed2ea3ccfdacfeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:28 +0000
Subject: [PATCH 67/76] fix: out-of-bounds read for prediction years before the
 first year of the fields

---
 src/modules/higher-level/cf-improphe-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/cf-improphe-hl.c b/src/modules/higher-level/cf-improphe-hl.c
index 00e3bc2..687090e 100755
--- a/src/modules/higher-level/cf-improphe-hl.c
+++ b/src/modules/higher-level/cf-improphe-hl.c
@@ -215,7 +215,7 @@ bool is_empty;
   ny_cf = get_brick_nbands(cf[0].DAT);
 
   for (y=0; y<phl->cfi.nyears; y++){
-    if ((b_cf = phl->cfi.years[y]-phl->cfi.y0) >= ny_cf){
+    if ((b_cf = phl->cfi.years[y]-phl->cfi.y0) >= ny_cf || b_cf < 0){
       printf("requested years and number of bands in file do not match.\n");
       *nproduct = 0;
       return NULL;
-- 
2.43.0


From c9163b7fe1faf87535c05e0dd8eef0e932d1e5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:18:44 +0000
Subject: [PATCH 68/76] fix: do not keep values of an earlier run in newly
 written chunked images

When an image is written in several chunks, the file was opened for update
whenever it existed and the chunk was not the first one of the tile. If the
first chunk had nothing to process, a file left by an earlier run was updated
instead of being created anew, and its old values stayed in the result.
Remember which files were started in this run instead.
---
 src/modules/cross-level/brick_io-cl.cpp | 37 +++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/modules/cross-level/brick_io-cl.cpp b/src/modules/cross-level/brick_io-cl.cpp
index e90e7b6..317ac26 100755
--- a/src/modules/cross-level/brick_io-cl.cpp
+++ b/src/modules/cross-level/brick_io-cl.cpp
@@ -38,6 +38,40 @@ This file contains functions for organizing bricks in memory, and output
 #include "ogr_spatialref.h" // coordinate systems services
 #endif
 
+#include <search.h> // binary search trees
+
+
+/** This function compares two filenames stored in a search tree
+--- a:      filename
+--- b:      filename
++++ Return: order as in strcmp
++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
+static int compare_filename(const void *a, const void *b){
+
+  return strcmp((const char*)a, (const char*)b);
+}
+
+
+/** This function tells whether a file that is written in chunks is written
++++ for the first time in this run. Files that were left behind by an earlier
++++ run must be replaced, even if their first chunk is not processed now
+--- fname:  filename
++++ Return: true/false
++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
+static bool is_first_chunk(const char *fname){
+static void *written = NULL;
+bool first;
+
+  #pragma omp critical (written_chunks)
+  {
+    if ((first = (tfind(fname, &written, compare_filename) == NULL))){
+      tsearch(strdup(fname), &written, compare_filename);
+    }
+  }
+
+  return first;
+}
+
 
 /** This function outputs a brick
 --- brick:  brick
@@ -326,8 +360,7 @@ int write_brick(brick_t *brick){
   
   
       // open for chunk mode or write from scratch
-      if (brick->open == OPEN_CHUNK && fileexist(fname) && 
-         (brick->chunk[_X_] > 0 || brick->chunk[_Y_] > 0)){
+      if (brick->open == OPEN_CHUNK && !is_first_chunk(fname) && fileexist(fname)){
         if ((fp = GDALOpen(fname, GA_Update)) == NULL){
           printf("Unable to open %s. ", fname); return FAILURE;}
       } else {
-- 
2.43.0


From bd63f487995b12e38da9deff172be45bd5ddca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:18:44 +0000
Subject: [PATCH 69/76] fix: apply the externally provided aerosol optical
 depth

With DO_AOD = FALSE, the elevation scaling of the aerosol optical depth was
never set, and the values from the look-up table were divided by the nodata
value. The correction was made without any aerosol.
---
 src/modules/lower-level/aod-ll.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/lower-level/aod-ll.c b/src/modules/lower-level/aod-ll.c
index f6d3702..97bd870 100755
--- a/src/modules/lower-level/aod-ll.c
+++ b/src/modules/lower-level/aod-ll.c
@@ -1744,6 +1744,8 @@ dark_t dark;
 
   if (!pl2->doaod){
     for (b=0; b<nb; b++) atc->aod[b] = aod_lut[b];
+    atc->Hp = 1000; // almost flat AOD
+    atc->Ha = aod_elev_factor(atc->dem.avg, atc->Hp);
     free((void*)aod_lut);
     return SUCCESS;
   }
-- 
2.43.0


From 2a1610d616e0111daee15154b17e8e228a2736c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:18:44 +0000
Subject: [PATCH 70/76] fix: propagate the C-factor through the spectrum

The topographic correction scales the C-factor of the SWIR2 band with the
ratio of diffuse and direct light of both bands. The transmittances of the
band itself were used for SWIR2, so that the ratio was always 1.
---
 src/modules/lower-level/atmo-ll.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/lower-level/atmo-ll.c b/src/modules/lower-level/atmo-ll.c
index 458d80f..ad02968 100755
--- a/src/modules/lower-level/atmo-ll.c
+++ b/src/modules/lower-level/atmo-ll.c
@@ -286,8 +286,8 @@ float **xyz_tsd_sw2 = NULL;
         tvd     = interpolate_coarse(weights, xyz_tvd[z]);
         s       = interpolate_coarse(weights, xyz_s[z]); 
         rho_p   = interpolate_coarse(weights, xyz_rho_p[z]); 
-        tss_sw2 = interpolate_coarse(weights, xyz_tss[z]);
-        tsd_sw2 = interpolate_coarse(weights, xyz_tsd[z]);
+        tss_sw2 = interpolate_coarse(weights, xyz_tss_sw2[z]);
+        tsd_sw2 = interpolate_coarse(weights, xyz_tsd_sw2[z]);
         if (pl2->dobrdf) brdf = interpolate_coarse(weights, xy_brdf); 
 
         if (Tg_ == NULL){
-- 
2.43.0


From 6328829185523cceda18f66e58c8efd749492c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:30:21 +0000
Subject: [PATCH 71/76] fix: single continents of the GLANCE7 grid

PROJECTION = GLANCE7-EU (and the other continents) is accepted, but was
compared with the names GLANCE-AF ... GLANCE-SA when the continental cubes
are set up. No cube matched and nothing was written.
---
 src/modules/lower-level/glance7-ll.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/lower-level/glance7-ll.c b/src/modules/lower-level/glance7-ll.c
index af5d3cf..eb844b3 100755
--- a/src/modules/lower-level/glance7-ll.c
+++ b/src/modules/lower-level/glance7-ll.c
@@ -42,7 +42,7 @@ static char name7[7][NPOW_10] = {
 
 // projection name of continental cube
 static char projname7[7][NPOW_10] = {
-  "GLANCE-AF", "GLANCE-AN", "GLANCE-AS", "GLANCE-EU", "GLANCE-NA", "GLANCE-OC", "GLANCE-SA" };
+  "GLANCE7-AF", "GLANCE7-AN", "GLANCE7-AS", "GLANCE7-EU", "GLANCE7-NA", "GLANCE7-OC", "GLANCE7-SA" };
 
 
 // abbreviation of continental cube
-- 
2.43.0


From 845ef592288595fee32ed6bffe4302aaa9e25f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:52:22 +0000
Subject: [PATCH 72/76] fix: report result images that could not be written

A higher-level run ended successfully although some or all of its images
could not be written, and failures that only show when an image is closed
went unnoticed.  Count the images that were not written and end with a
failure status.
---
 src/main/higher-level/force-higher-level.c | 12 +++++++++---
 src/modules/cross-level/brick_io-cl.cpp    |  8 +++++++-
 src/modules/higher-level/tasks-hl.c        | 16 +++++++++-------
 src/modules/higher-level/tasks-hl.h        |  2 +-
 4 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/main/higher-level/force-higher-level.c b/src/main/higher-level/force-higher-level.c
index 25e2ebc..6ab4279 100755
--- a/src/main/higher-level/force-higher-level.c
+++ b/src/main/higher-level/force-higher-level.c
@@ -142,6 +142,7 @@ GDALDriverH driver;
 progress_t  pro;
 off_t ibytes = 0, obytes = 0;
 int         exit_code = SUCCESS;
+int         nfail = 0;
 
 
   /** INITIALIZING
@@ -217,7 +218,7 @@ int         exit_code = SUCCESS;
 
     if (phl->stream){
 
-      #pragma omp parallel num_threads(3) shared(ARD1,ARD2,MASK,OUTPUT,aux,nprod,nt1,nt2,pro,cube,phl) reduction(+: ibytes, obytes) default(none)
+      #pragma omp parallel num_threads(3) shared(ARD1,ARD2,MASK,OUTPUT,aux,nprod,nt1,nt2,pro,cube,phl) reduction(+: ibytes, obytes, nfail) default(none)
       {
 
         if (omp_get_thread_num() == 0){
@@ -225,7 +226,7 @@ int         exit_code = SUCCESS;
         } else if (omp_get_thread_num() == 1){
           compute_higher_level(&pro, MASK, ARD1, ARD2, nt1, nt2, cube, phl, aux, OUTPUT, nprod);
         } else {
-          output_higher_level(&pro, &obytes, OUTPUT, nprod, phl);
+          nfail += output_higher_level(&pro, &obytes, OUTPUT, nprod, phl);
         }
 
       }
@@ -234,7 +235,7 @@ int         exit_code = SUCCESS;
 
       read_higher_level(&pro, &ibytes, MASK, ARD1, ARD2, nt1, nt2, cube, phl);
       compute_higher_level(&pro, MASK, ARD1, ARD2, nt1, nt2, cube, phl, aux, OUTPUT, nprod);
-      output_higher_level(&pro, &obytes, OUTPUT, nprod, phl);
+      nfail += output_higher_level(&pro, &obytes, OUTPUT, nprod, phl);
 
     }
 
@@ -242,6 +243,11 @@ int         exit_code = SUCCESS;
 
   exit_code = handle_no_io(ibytes, obytes, phl);
 
+  if (nfail > 0){
+    printf("Error: %d output images were not written.\n", nfail);
+    exit_code = FAILURE;
+  }
+
   cite_push(phl->d_higher);
 
 
diff --git a/src/modules/cross-level/brick_io-cl.cpp b/src/modules/cross-level/brick_io-cl.cpp
index 317ac26..761f916 100755
--- a/src/modules/cross-level/brick_io-cl.cpp
+++ b/src/modules/cross-level/brick_io-cl.cpp
@@ -363,9 +363,11 @@ int write_brick(brick_t *brick){
       if (brick->open == OPEN_CHUNK && !is_first_chunk(fname) && fileexist(fname)){
         if ((fp = GDALOpen(fname, GA_Update)) == NULL){
           printf("Unable to open %s. ", fname); return FAILURE;}
+        CPLErrorReset();
       } else {
         if ((fp = GDALCreate(driver_create, fname, brick->nx, brick->ny, nbands, file_datatype, options)) == NULL){
           printf("Error creating file %s. ", fname); return FAILURE;}
+        CPLErrorReset();
         // chunks that are not processed will not be written, they have no data
         if (brick->open == OPEN_CHUNK){
           for (b=0; b<nbands; b++){
@@ -503,9 +505,13 @@ int write_brick(brick_t *brick){
   
       }
    
+      // data may only be written now
       if (!create) GDALClose(fp_copy);
       GDALClose(fp);
-  
+
+      if (CPLGetLastErrorType() == CE_Failure){
+        printf("Unable to write %s. ", fname); return FAILURE;}
+
     
       CPLUnlockFile(lock);
     
diff --git a/src/modules/higher-level/tasks-hl.c b/src/modules/higher-level/tasks-hl.c
index 97e344b..401f29d 100755
--- a/src/modules/higher-level/tasks-hl.c
+++ b/src/modules/higher-level/tasks-hl.c
@@ -249,24 +249,25 @@ bool error = false;
 --- OUTPUT:   OUTPUT bricks
 --- nproduct: number of output bricks
 --- phl:      HL parameters
-+++ Return:   void
++++ Return:   number of output bricks that could not be written
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
-void output_higher_level (progress_t *pro, off_t *obytes, brick_t ***OUTPUT, int *nprod, par_hl_t *phl){
+int output_higher_level (progress_t *pro, off_t *obytes, brick_t ***OUTPUT, int *nprod, par_hl_t *phl){
 char dname[NPOW_10]; 
 int nchar;
 char *lock = NULL;
 bool error = false;
 off_t bytes = 0;
+int nfail = 0;
 int o;
 
 
-  if (!write_this_chunk(pro, nprod)) return;
+  if (!write_this_chunk(pro, nprod)) return nfail;
 
   int pu = pro->last.processing_unit;
   int tile[2] = { pro->last.tile[_X_], pro->last.tile[_Y_] };
 
 
-  if (OUTPUT[pu] == NULL) return;
+  if (OUTPUT[pu] == NULL) return nfail;
 
 
   measure_progress(pro, _TASK_OUTPUT_, _CLOCK_TICK_);
@@ -278,6 +279,7 @@ int o;
   if ((lock = (char*)CPLLockFile(dname, 60)) == NULL){
     printf("Unable to lock directory %s (timeout: %ds). ", dname, 60);
     error = true;
+    nfail = nprod[pu];
   }
 
   if (!error){
@@ -288,7 +290,7 @@ int o;
 
     omp_set_num_threads(phl->othread);
   
-    #pragma omp parallel shared(OUTPUT,pu,nprod,phl) reduction(+: bytes) default(none)
+    #pragma omp parallel shared(OUTPUT,pu,nprod,phl) reduction(+: bytes, nfail) default(none)
     {
 
       CPLPushErrorHandler(CPLQuietErrorHandler);
@@ -298,7 +300,7 @@ int o;
       for (o=0; o<nprod[pu]; o++){
         if (phl->radius > 0) OUTPUT[pu][o] = crop_brick(
           OUTPUT[pu][o], phl->radius);
-        write_brick(OUTPUT[pu][o]);
+        if (write_brick(OUTPUT[pu][o]) == FAILURE) nfail++;
         if (OUTPUT[pu][o] != NULL && 
             get_brick_open(OUTPUT[pu][o]) != OPEN_FALSE){
             bytes += get_brick_size(OUTPUT[pu][o]);
@@ -321,7 +323,7 @@ int o;
 
   measure_progress(pro, _TASK_OUTPUT_, _CLOCK_TOCK_);
 
-  return;
+  return nfail;
 }
 
 
diff --git a/src/modules/higher-level/tasks-hl.h b/src/modules/higher-level/tasks-hl.h
index a571e7e..374c120 100755
--- a/src/modules/higher-level/tasks-hl.h
+++ b/src/modules/higher-level/tasks-hl.h
@@ -62,7 +62,7 @@ extern "C" {
 
 void read_higher_level (progress_t *pro, off_t *ibytes, brick_t **MASK, ard_t **ARD1, ard_t **ARD2, int *nt1, int *nt2, cube_t *cube, par_hl_t *phl);
 void compute_higher_level (progress_t *pro, brick_t **MASK, ard_t **ARD1, ard_t **ARD2, int *nt1, int *nt2, cube_t *cube, par_hl_t *phl, aux_t *aux, brick_t ***OUTPUT, int *nprod);
-void output_higher_level (progress_t *pro, off_t *obytes, brick_t ***OUTPUT, int *nprod, par_hl_t *phl);
+int  output_higher_level (progress_t *pro, off_t *obytes, brick_t ***OUTPUT, int *nprod, par_hl_t *phl);
 int handle_no_io(off_t ibytes, off_t obytes, par_hl_t *phl);
 
 #ifdef __cplusplus
-- 
2.43.0


From 5b5e5a8b13a70cd772964d42e75fb528b979f96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:58:03 +0000
Subject: [PATCH 73/76] fix: report an inflated quality image that could not be
 written

---
 src/main/higher-level/force-qai-inflate.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/higher-level/force-qai-inflate.c b/src/main/higher-level/force-qai-inflate.c
index a7158f7..2395fd4 100755
--- a/src/main/higher-level/force-qai-inflate.c
+++ b/src/main/higher-level/force-qai-inflate.c
@@ -219,7 +219,10 @@ small **qim_ = NULL;
   }
 
 
-  write_brick(QIM);
+  if (write_brick(QIM) == FAILURE){
+    printf("Error writing inflated QAI\n");
+    return FAILURE;
+  }
 
   free_brick(QAI);
   free_brick(QIM);
-- 
2.43.0


From 98eb0792e811985c70967b14c32fa1657376cf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:03:52 +0000
Subject: [PATCH 74/76] fix: sample points near the curved border of a block

The box that preselects geographic points was derived from corners and
edge centres of a block only.  Points between them, near the border of a
block whose edge extends further elsewhere, were not sampled.
---
 src/modules/higher-level/sample-hl.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/sample-hl.c b/src/modules/higher-level/sample-hl.c
index f78d979..968ea8a 100755
--- a/src/modules/higher-level/sample-hl.c
+++ b/src/modules/higher-level/sample-hl.c
@@ -94,7 +94,7 @@ double **smp_features = NULL;
 double **smp_response = NULL;
 coord_t geo_ul, geo_ur, geo_lr, geo_ll;
 coord_t geo_upper, geo_lower, geo_left, geo_right;
-double minx, maxx, miny, maxy; 
+double minx, maxx, miny, maxy, margin;
 
 
   // if no sample is left, skip all
@@ -165,6 +165,11 @@ double minx, maxx, miny, maxy;
     if (geo_lower.y < miny) miny -= 2*fabs(geo_lower.y-miny);
     if (geo_upper.y > maxy) maxy += 2*fabs(geo_upper.y-maxy);
 
+    // the edge may extend furthest somewhere else, add a margin
+    margin = 0.05*MAX(maxx-minx, maxy-miny);
+    minx -= margin; maxx += margin;
+    miny -= margin; maxy += margin;
+
   }
 
 
-- 
2.43.0


From 3c94b7e343b1197bd95ef1fb8317db07eae53ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:12:23 +0000
Subject: [PATCH 75/76] fix: keep saturated Sentinel-2 reflectance from
 overflowing

---
 src/modules/lower-level/read-ll.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/modules/lower-level/read-ll.c b/src/modules/lower-level/read-ll.c
index 9996a4b..8ecc44d 100755
--- a/src/modules/lower-level/read-ll.c
+++ b/src/modules/lower-level/read-ll.c
@@ -397,11 +397,18 @@ float dn_scale, toa_scale;
       dn_scale  = get_brick_scale(DN,  b);
       toa_scale = get_brick_scale(TOA, b);
       
-      #pragma omp parallel shared(b, nc, dn_scale, toa_scale, dn_, toa_, meta) default(none) 
+      #pragma omp parallel private(tmp) shared(b, nc, dn_scale, toa_scale, dn_, toa_, meta) default(none) 
       {
 
         #pragma omp for schedule(static)
-        for (p=0; p<nc; p++) toa_[b][p] = (dn_[b][p] + meta->cal[b].radd) / dn_scale*toa_scale;
+        for (p=0; p<nc; p++){
+          tmp = (dn_[b][p] + meta->cal[b].radd) / dn_scale*toa_scale;
+          if (tmp < SHRT_MAX){
+            toa_[b][p] = (short)tmp;
+          } else {
+            toa_[b][p] = SHRT_MAX;
+          }
+        }
         
       }
 
-- 
2.43.0


From 6e7db00638dfcfbcc5d32cc2a5eb7f3d974ee130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:12:36 +0000
Subject: [PATCH 76/76] fix: resolution merge by regression used its own
 predictions as input

---
 src/modules/lower-level/resmerge-ll.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/modules/lower-level/resmerge-ll.c b/src/modules/lower-level/resmerge-ll.c
index 89a3ab7..75f4914 100755
--- a/src/modules/lower-level/resmerge-ll.c
+++ b/src/modules/lower-level/resmerge-ll.c
@@ -90,13 +90,14 @@ float *starfm(int nx, int ny, brick_t *QAI, float **coarse, float **fine, int r)
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 int resolution_merge_1(brick_t *TOA, brick_t *QAI){
 int b = 0, nb = 6, bands[6], green, red, bnir;
-int i, j, p, ii, jj, ni, nj, np, nx, ny;
+int i, j, p, ii, jj, ni, nj, np, nx, ny, nc;
 int r = 2, w, nw, k, nv = 4;
 gsl_matrix *X, **cov;
 gsl_vector *x, **y, **c;
 gsl_multifit_linear_workspace **work;
 double chisq, est, err;
 short **toa_ = NULL;
+short **pred_ = NULL;
 
 
   #ifdef FORCE_CLOCK
@@ -106,6 +107,7 @@ short **toa_ = NULL;
   
   nx  = get_brick_ncols(QAI);
   ny  = get_brick_nrows(QAI);
+  nc  = get_brick_ncells(QAI);
 
   if ((toa_ = get_bands_short(TOA)) == NULL) return FAILURE;
 
@@ -123,8 +125,11 @@ short **toa_ = NULL;
   // kernel size
   w = r*2+1; nw = w*w;
 
+  // predictions, must not be used for predicting the neighboring pixels
+  alloc_2D((void***)&pred_, nb, nc, sizeof(short));
 
-  #pragma omp parallel private(k,b,j,p,ii,jj,ni,nj,np,X,x,y,c,cov,work,chisq,est,err) shared(r,w,nb,nw,nv,ny,nx,QAI,toa_,bands,green,red,bnir) default(none)
+
+  #pragma omp parallel private(k,b,j,p,ii,jj,ni,nj,np,X,x,y,c,cov,work,chisq,est,err) shared(r,w,nb,nw,nv,ny,nx,QAI,toa_,pred_,bands,green,red,bnir) default(none)
   {
 
     /** initialize and allocate
@@ -208,7 +213,7 @@ short **toa_ = NULL;
 
         gsl_multifit_linear(X, y[b], c[b], cov[b], &chisq, work[b]);
         gsl_multifit_linear_est(x, c[b], cov[b], &est, &err);
-        toa_[bands[b]][p] = (short)(est*10000);
+        pred_[b][p] = (short)(est*10000);
 
       }
 
@@ -228,6 +233,14 @@ short **toa_ = NULL;
 
   }
 
+  // update toa with prediction
+  for (p=0; p<nc; p++){
+    if (get_off(QAI, p) || get_cloud(QAI, p) > 0 || get_shadow(QAI, p)) continue;
+    for (b=0; b<nb; b++) toa_[bands[b]][p] = pred_[b][p];
+  }
+
+  free_2D((void**)pred_, nb);
+
   #ifdef FORCE_DEBUG
   set_brick_filename(TOA, "TOA-RESMERGED");
   print_brick_info(TOA); set_brick_open(TOA, OPEN_CREATE); write_brick(TOA);
-- 
2.43.0

