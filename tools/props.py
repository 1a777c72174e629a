"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py).

A property with a module checks/<id lower>.py is claimed; the others are listed as not applicable with a reason."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HL = "src/modules/higher-level/"
CL = "src/modules/cross-level/"
LL = "src/modules/lower-level/"
AUX = "src/main/aux-level/"

UNIT = ("The 28 unit tests exercise string, date, table and memory helpers on single fixed values; nothing in the suite "
        "runs this part of the software. ")

P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, state=state or []))


# --- data cube, processing units, outputs ------------------------------------------------------------------------
prop("C01", "One grid: every tool maps a location to the same tile and pixel",
     "For any data cube definition (projection, origin, tile size) every location belongs to exactly one tile and one "
     "pixel of it: the tile numbers grow to the right and downwards from the origin, a location on a shared border "
     "belongs to the tile and pixel to its right / below, and pixel numbers lie inside the tile. The point locator, the "
     "grid tabulation and the corner coordinates of written images all agree with this one grid.",
     ["inputs", "configurations"], "all cube definitions (origin, tile size, resolution) and all locations, including "
     "ones left of / above the origin and exactly on tile or pixel borders",
     UNIT + "The mapping has to hold for all locations in all cubes, and the interesting locations are the borders.",
     [CL + "tile-cl.c", CL + "cube-cl.c", AUX + "force-tile-finder.c", AUX + "force-tabulate-grid.c"],
     [("tile_find", CL + "tile-cl.c"), ("tile_align", CL + "tile-cl.c"), ("read_datacube_def", CL + "cube-cl.c")],
     ["stdout of force-tile-finder", "polygons written by force-tabulate-grid", "geotransform of outputs"],
     "property-based testing against an arithmetic reference grid",
     "Random cubes and locations (one call per location) against floor arithmetic in the cube's own projection; "
     "border cases are generated on purpose. Trusts PROJ for the geographic-to-map transformation.")

prop("C02", "Results do not depend on blocks, threads or streaming",
     "The pixel values, band names, georeferencing and set of output files of a higher-level run are the same for every "
     "admissible processing block size, every number of reading/computing/writing threads, and with streaming on or off. "
     "This holds for time series analysis, best-available-pixel compositing, clear-sky observations, texture, landscape "
     "metrics that do not identify patches, machine learning, library completeness, sampling and user-defined Python functions, on one or several "
     "tiles, as long as images are not reduced in resolution with a point spread function.",
     ["schedules", "configurations", "inputs"], "all block sizes that divide the tile, all thread counts, streaming "
     "on/off, all inputs, including neighbourhood operations that reach across blocks and tiles",
     UNIT + "No test runs the block pipeline; thread interleavings and block layouts are a product space.",
     ["src/main/higher-level/force-higher-level.c", HL + "tasks-hl.c", HL + "read-ard-hl.c", CL + "brick_io-cl.cpp"],
     [("read/compute/write task teams", HL + "tasks-hl.c"), ("add_chunks", HL + "read-ard-hl.c"),
      ("write_brick block offsets", CL + "brick_io-cl.cpp")],
     ["all files below the output directory"], "metamorphic property-based testing (same data, different execution)",
     "Each case runs the same data and parameters under several execution layouts and compares complete outputs; "
     "schedules are those the OpenMP runtime produces under varied thread counts, not all interleavings.")

prop("C03", "Tiles are processed independently and exactly as requested",
     "A higher-level run writes results for exactly those tiles that lie in the requested tile ranges, are allow-listed "
     "(if an allow-list is given) and have input; every other tile stays untouched. The result of a tile is the same "
     "whether it is processed alone or with others, and the tile ranges and allow-list order do not matter.",
     ["configurations", "inputs"], "all tile ranges, allow-lists (also unsorted, with absent tiles) and populations of "
     "tiles, including negative tile numbers",
     UNIT + "Needs runs over sets of tiles; the suite has no multi-tile run.",
     [HL + "param-hl.c", CL + "tile-cl.c", HL + "tasks-hl.c", HL + "read-ard-hl.c"],
     [("tile_readlist / tile_allowlisted", CL + "tile-cl.c"), ("progress iteration over tiles", HL + "tasks-hl.c")],
     ["set of tile directories and files in the output cube"],
     "property-based testing against a set model plus per-tile differential runs",
     "Random tile populations, ranges and allow-lists; outputs compared with a set model and single-tile runs.")

prop("C04", "The processing mask excludes exactly the masked pixels",
     "With a processing mask, every output of time series analysis, compositing, clear-sky observations, texture, "
     "landscape metrics, machine learning and library completeness is nodata where the mask is 0, and where it is 1 "
     "per-pixel products (all but texture and landscape metrics) equal those of a run without a mask; samples are taken at "
     "unmasked pixels only. A tile without a mask file gets no output, and a tile whose mask has no pixel set no valid value.",
     ["inputs", "configurations"], "all masks and data, all module types",
     UNIT + "No test reads a mask.",
     [HL + "read-ard-hl.c", HL + "quality-hl.c", HL + "tsa-hl.c", HL + "level3-hl.c", HL + "cso-hl.c",
      HL + "ml-hl.c", HL + "texture-hl.c", HL + "lsm-hl.c", HL + "lib-hl.c"],
     [("read_mask", HL + "read-ard-hl.c"), ("mask tests in every pixel loop", HL)],
     ["pixel values of all outputs"], "metamorphic property-based testing (masked versus unmasked run)",
     "Random masks over random data for all listed module types; compares masked and unmasked runs pixel by pixel.")

prop("C05", "Output format options never change the data",
     "Choosing GeoTIFF, ENVI, cloud-optimised GeoTIFF or custom GDAL options, exploding bands into single files, or "
     "writing into per-product subfolders changes only how results are stored: pixel values, nodata value, band names "
     "and order, and georeferencing are the same.",
     ["configurations", "inputs"], "all output-format / explode / subfolder combinations over generated cubes and "
     "product selections", UNIT + "No test writes an image.",
     [CL + "brick_io-cl.cpp", CL + "gdalopt-cl.c"], [("write_brick", CL + "brick_io-cl.cpp"),
                                                   ("default_gdaloptions / update_gdaloptions", CL + "gdalopt-cl.c")],
     ["files below the output directory read back through GDAL"], "metamorphic property-based testing",
     "Every case runs the same analysis with several storage options and compares everything read back.")

prop("C06", "Repeating a run over earlier or interrupted results equals a fresh run",
     "A higher-level run into a directory that holds results of earlier runs (other mask, blocks, threads, format, products or inputs), of a run killed at any moment, or cut-off files "
     "yields exactly what it yields in an empty directory: no value of the earlier results survives in a file it produces. Files it does not produce stay unchanged.",
     ["histories", "crash points", "configurations"], "all sequences of earlier, interrupted and damaged runs before a run, for eight higher-level modules", UNIT + "No test runs an analysis at all, let alone twice.",
     [CL + "brick_io-cl.cpp", HL + "tasks-hl.c"], [("write_brick", CL + "brick_io-cl.cpp"), ("block loop", HL + "tasks-hl.c")],
     ["files below the output directory"], "stateful property-based testing with injected kills (fresh run as oracle)",
     "Kills at file operations of the process (not loss of power); stale lock files are removed as documented.")

prop("C07", "A run that reports success has stored all of its results",
     "If the files of the result images can no longer be opened or written from some moment on (disk full, device error, no permission), a higher-level run, a quality inflation or the Level 2 processing of an image "
     "ends with a failure status, unless all result images are complete and equal to those of an undisturbed run. A run in which every file could be written ends successfully.",
     ["faults", "crash points", "configurations"], "all moments and reasons of a lasting write failure, for eight higher-level modules, quality inflation and Level 2 processing, all storage forms",
     UNIT + "No test writes an image through the program, and none lets a write fail.",
     [CL + "brick_io-cl.cpp", HL + "tasks-hl.c", "src/main/higher-level/force-higher-level.c", "src/main/lower-level/force-l2ps.c"],
     [("write_brick", CL + "brick_io-cl.cpp"), ("output_higher_level", HL + "tasks-hl.c"), ("exit status", "src/main/higher-level/force-higher-level.c")],
     ["exit status of the programs, files below the output directory"], "property-based testing with injected write failures (undisturbed run as oracle)",
     "A drawn file operation on the result images and all later ones fail; single passing failures, short writes and failing header files are not judged, the image library does not notice them.")

# --- reading ARD -----------------------------------------------------------------------------------------------
prop("C10", "Exactly the requested acquisitions enter the analysis",
     "A higher-level run uses exactly those images whose name carries a requested sensor and the requested reflectance product, "
     "whose date lies in the inclusive date range and whose day of year lies in the inclusive day-of-year range (a range "
     "whose start is larger than its end wraps around new year), leaving out Landsat 7 after the configured date. They "
     "are used once each, in chronological order, whatever the order or presence of other files in the tile directory.",
     ["inputs", "configurations", "histories"], "all file populations and all date, day-of-year, sensor and product "
     "selections", UNIT + "Date helpers are tested on single values, never the selection itself.",
     [HL + "read-ard-hl.c", CL + "date-cl.c", HL + "param-hl.c", CL + "param-cl.c"],
     [("list_ard / list filters", HL + "read-ard-hl.c"), ("date_from_string, md2doy, doy2ce", CL + "date-cl.c")],
     ["band names and values of the time series stack"], "property-based testing against a reference selection model",
     "Populations of names with on-the-boundary dates and decoy files; selection recomputed independently.")

prop("C11", "Quality screening removes exactly the flagged observations",
     "An observation is used if and only if none of the selected quality criteria applies to its quality bit pattern, "
     "under the documented bit layout (two-bit fields match their exact state). "
     "Unselected criteria never remove anything, and images without reflectance in a pixel stay nodata there.",
     ["inputs", "configurations"], "all 15-bit quality patterns times all subsets of the 18 screening criteria",
     UNIT + "The quality bits are 2^15 patterns times 2^18 selections; no test touches them.",
     [HL + "quality-hl.c", CL + "quality-cl.c", HL + "param-hl.c"],
     [("use_this_pixel", HL + "quality-hl.c"), ("bit accessors", CL + "quality-cl.c")],
     ["nodata pattern of the time series stack, observation counts"],
     "property-based testing against a reference bit decoder",
     "Each run places thousands of bit patterns in one image under a random criterion subset; all 32768 patterns are "
     "covered across a run.")

prop("C12", "Noise screening removes and restores the documented outliers",
     "With noise screening on, the observation with the largest deviation from the line between its temporal neighbours (or the neighbouring "
     "end point of the series, if that deviates more) is removed while the deviation exceeds the upper noise threshold times the series' noise, and screened-out but existing observations closer to that line than the lower threshold "
     "times the noise are restored; observations removed as outliers are never restored. "
     "With both thresholds zero the screening is exactly the quality screening.",
     ["inputs", "configurations"], "all single-pixel time series, masks, thresholds and date spacings",
     UNIT + "The procedure is iterative over arbitrary series.",
     [HL + "quality-hl.c"], [("screen_noise", HL + "quality-hl.c")],
     ["nodata pattern of the time series stack"], "property-based testing against a reference implementation",
     "Random series with planted spikes; decisions closer than a stated tolerance to a threshold are not judged.")

prop("C13", "Sensors combine by band name and keep their own values",
     "When several sensors are requested, the analysis uses for each band name the values of that very band in every "
     "sensor's images, whatever its position in the file, and only band names common to all sensors are usable; an index "
     "that needs a band not common to all is refused. Every observation is labelled with its own sensor and date.",
     ["inputs", "configurations"], "all sensor combinations and target sensors, all requested indices",
     UNIT + "Sensor definitions are data files never read by the tests.",
     [HL + "sensor-hl.c",       HL + "index-parse-hl.c", "misc/runtime-data"],
     [("band intersection", HL + "sensor-hl.c"), ("index registry", HL + "index-parse-hl.c")],
     ["time series stack values, band labels, exit status"], "property-based testing against a name-keyed model",
     "Random sensor sets with distinct values per band and sensor; expected bands read from the sensor definition files.")

prop("C14", "Analysis at a different resolution keeps positions",
     "When the requested resolution differs from the input's, every output pixel takes the value of the input pixel at "
     "the same map location (nearest neighbour) or, when point-spread reduction is requested for coarser outputs, a "
     "weighted mean of nearby input pixels that leaves spatially constant data unchanged; quality flags are never averaged and the outputs' corner coordinates stay "
     "those of the tile.", ["inputs", "configurations"],
     "all admissible resolution ratios, block sizes and data", UNIT + "No test reads an image.",
     [HL + "read-ard-hl.c", CL + "brick_base-cl.c"], [("read_chunk", HL + "read-ard-hl.c")],
     ["time series stack"], "property-based testing against a reference resampler",
     "Integer up- and down-scaling factors; PSF mode checked for constants, bounds and locality only.")

# --- time series analysis -----------------------------------------------------------------------------------------
prop("C20", "Spectral indices follow their published formulas",
     "Every spectral index or band selected for time series analysis is, for every observation with valid reflectance, "
     "the value of its documented formula on the bands named in the index definition, in the documented scaling, with "
     "results outside the representable or defined range turned to nodata. Observations without valid data are nodata.",
     ["inputs", "configurations"], "all indices, all sensors offering the bands, all reflectance values",
     UNIT + "No index is ever evaluated by a test.",
     [HL + "index-compute-hl.c", HL + "index-parse-hl.c", "misc/runtime-data/indices.json"],
     [("index_* formulas", HL + "index-compute-hl.c"), ("index definitions", "misc/runtime-data/indices.json")],
     ["time series stack"], "property-based testing against reference formulas",
     "Formulas written from the documentation; tolerance one unit of the scaled integer for float rounding.")

prop("C21", "Spectral unmixing solves the constrained least squares problem",
     "For every observation the unmixed fraction is the solution of the least squares problem under the selected "
     "constraints (non-negativity, sum to one, optional shade normalisation), and the reported model error is the "
     "root mean square residual of that solution.",
     ["inputs", "configurations"], "all endmember sets, constraint combinations, reflectance vectors",
     UNIT + "No test calls the solver.", [HL + "index-compute-hl.c"],
     [("index_unmixing / NNLS", HL + "index-compute-hl.c")], ["time series stack and RMS product"],
     "property-based testing against an independent solver",
     "Solutions compared with an exhaustive active-set solver; tolerance stated in scaled integer units.")

prop("C22", "Interpolated series follow the requested method",
     "The interpolated series has one value per interpolation date, dates spaced by the requested interval from the start "
     "of the period. Linear interpolation lies on the line between the enclosing observations, the moving average is the "
     "mean of the observations within the half-window, and the radial-basis mode is the kernel-weighted mean with the "
     "data-density weights of the kernels; dates the method cannot serve are nodata and with no interpolation the "
     "observations pass through unchanged.",
     ["inputs", "configurations"], "all observation dates (also duplicates), gaps, values, intervals, windows, kernels",
     UNIT + "No series is interpolated by a test.", [HL + "interpolate-hl.c"],
     [("interpolate_linear / _moving / _rbf / _none", HL + "interpolate-hl.c")], ["interpolated time series product"],
     "property-based testing against reference interpolators",
     "Thousands of random series per run; one unit tolerance.")

prop("C23", "Harmonic models use the fitting period only and give forecast residuals",
     "With harmonic interpolation the values of a pixel lie on one curve of the chosen family (number of modes, trend or not), and observations "
     "that follow such a curve inside the fitting period are reproduced at every date up to rounding, whatever lies outside the fitting period. "
     "Pixels with fewer observations in the fitting period than coefficients are nodata, and the near-real-time product holds, for every "
     "acquisition after the fitting period, observation minus prediction (nodata without observation or model).",
     ["inputs", "configurations"], "all series, fitting periods, numbers of modes, trend on/off",
     UNIT + "No fit is run by a test.", [HL + "interpolate-hl.c", HL + "tsa-hl.c"],
     [("harmonic fit", HL + "interpolate-hl.c"), ("near-real-time product", HL + "tsa-hl.c")],
     ["TSI and NRT products"], "property-based testing: generated model curves as ground truth, family membership and fitting-period metamorphic test",
     "Value comparisons only at dates where the design is well conditioned; tolerance a few units.")

prop("C24", "Spectral temporal metrics are the named statistics",
     "Each spectral temporal metric band is the statistic its name says (count, mean, minimum, maximum, range, standard "
     "deviation, skewness, kurtosis, interquartile range, any quantile) of the valid values of the pixel's interpolated "
     "series and nodata when there is none; metrics requested in any order or combination give the same bands.",
     ["inputs", "configurations"], "all series, all metric lists", UNIT + "No statistic of a series is tested.",
     [HL + "stm-hl.c", CL + "stats-cl.c"], [("spectral temporal metrics", HL + "stm-hl.c"),
                                            ("one-pass moments, quantiles", CL + "stats-cl.c")],
     ["STM product"], "property-based testing against numpy statistics", "Tolerance one unit (float accumulation).")

prop("C25", "Folding aggregates each calendar bin and nothing else",
     "Folding by year, quarter, month, week or day of year gives for each bin the chosen statistic over exactly the "
     "values of the interpolated series whose date falls in that bin, and nodata for bins without values.",
     ["inputs", "configurations"], "all series, date ranges, fold types and fold units", UNIT + "Calendar helpers are "
     "tested on a few dates; folding never.", [HL + "fold-hl.c", CL + "date-cl.c"],
     [("tsa_fold", HL + "fold-hl.c")], ["FBY/FBQ/FBM/FBW/FBD products"],
     "property-based testing against a reference calendar", "Dates on a 365-day calendar as documented.")

prop("C26", "Trend products are the least squares trend of the folded series",
     "Trend products report, per pixel, the ordinary least squares line through the folded series and its significance, "
     "errors, relative and absolute change and counts; pixels with fewer than three values are nodata.",
     ["inputs", "configurations"], "all folded series, tails and confidence levels", UNIT + "No trend is fitted.",
     [HL + "trend-hl.c", CL + "stats-cl.c"], [("tsa trend", HL + "trend-hl.c")], ["TRY/TRQ/TRM/TRW/TRD products"],
     "property-based testing against a reference regression",
     "Significance judged only when the test statistic is not within tolerance of the critical value.")

prop("C27", "Change, aftereffect and trend products split at the largest loss",
     "The change product finds the largest drop between consecutive values of the folded series, reports its size, date "
     "and extent, and its three segment blocks are the trends of the whole, the part before and the part after the change.",
     ["inputs", "configurations"], "all folded series, with and without penalty", UNIT + "No change analysis is run.",
     [HL + "trend-hl.c"], [("change, aftereffect, trend analysis", HL + "trend-hl.c")], ["CAY and similar products"],
     "property-based testing against a reference model", "Unambiguous largest drops only.")

prop("C28", "Standardised series are centred or normalised per pixel",
     "Standardising a time series, interpolated series or folded series subtracts the mean over the valid values of the pixel (centre) and also divides by their "
     "standard deviation in the documented scale (normalise); nodata stays nodata and no other pixel or product changes.",
     ["inputs", "configurations"], "all series with at least two different valid values, all products that can be standardised", UNIT + "Never exercised.",
     [HL + "standardize-hl.c"], [("tsa_standardize", HL + "standardize-hl.c")], ["TSS, TSI, FB* products"],
     "property-based testing against numpy", "Tolerance one unit of the scaled integer.")

prop("C29", "Polar phenology metrics describe the seasons of the interpolated series",
     "The phenological years of a series start half a year away from its mean direction on the annual circle (static) or from the mean direction of "
     "the respective season (adaptive); within each, the start, mid and end of season are the first interpolation steps at which the "
     "cumulative value reaches the chosen thresholds and the peak is the maximum between start and end. Every reported date, length, value, "
     "amplitude, integral, rate and average vector, the polar coordinates, and the trends of the non-date metrics follow from that; years without a complete season, masked "
     "pixels and pixels without data are nodata.",
     ["inputs", "configurations"], "all seasonal series, thresholds, interpolation steps, adaptive or not, with and without processing mask", UNIT + "Never exercised.",
     [HL + "polar-hl.c"], [("polar metrics", HL + "polar-hl.c")], ["PCX/PCY, *-POL and *-TRO products"],
     "property-based testing against a reference model", "Reference computed from the interpolated series the same run writes; decisions within rounding are not judged.")

prop("C30", "Python user functions receive and return the data unchanged",
     "A user-supplied Python function is called with exactly the values (nodata where there is no usable observation or the pixel is masked), dates, "
     "sensors and band names of the images or of the time series, auxiliary products included, pixel by pixel or block by block with rows and columns in place; "
     "what it returns is written unchanged to the pixels it came from and the bands it announced, irrespective of the number of threads and of streaming.",
     ["inputs", "configurations", "schedules"], "all data, sensors, auxiliary products and masks; both entry points; pixel and block mode; thread counts",
     UNIT + "Never exercised.", [HL + "py-udf-hl.c", HL + "udf-hl.c", HL + "tsa-hl.c"], [("Python bridge", HL + "py-udf-hl.c")],
     ["PYP product"], "property-based testing with generated echo functions", "Uses functions whose result encodes their input.")

prop("C38", "R user functions receive and return the data unchanged",
     "A user-supplied R function is called with exactly the values (NA where there is no usable observation or the pixel is masked), dates, sensors and band names "
     "of the images or of the time series, auxiliary products included, pixel by pixel or block by block with rows and columns in place; what it returns is written "
     "unchanged to the pixels it came from and the bands it announced.",
     ["inputs", "configurations"], "all data, sensors, auxiliary products and masks; both entry points; pixel and block mode",
     UNIT + "Never exercised.", [HL + "r-udf-hl.c", HL + "udf-hl.c", HL + "tsa-hl.c"], [("R bridge", HL + "r-udf-hl.c")],
     ["RSP product"], "property-based testing with generated echo functions", "Pixel mode with one R process (the snowfall package is not installed).")

prop("C39", "ImproPhe refines coarse images with similar fine pixels only",
     "Every usable coarse pixel (reflectance image or annual field) is replaced by the mean of the coarse values of those pixels of the kernel whose seasonal fine reflectance is spectrally similar, "
     "weighted by spectral similarity and by fine and coarse heterogeneity. Pixels that are not usable keep the coarse value, without fine images the coarse image is copied, pixels outside the mask "
     "are nodata, and years for which there is no coarse field give no product.",
     ["inputs", "configurations"], "all fine and coarse images, gaps, clouds, masks, kernels, seasonal windows and years", UNIT + "Never exercised.",
     [HL + "improphe-hl.c", HL + "l2-improphe-hl.c", HL + "cf-improphe-hl.c", CL + "pca-cl.c"], [("improphe", HL + "improphe-hl.c"), ("pca", CL + "pca-cl.c")],
     ["IMP products"], "property-based testing against a reference prediction",
     "Pixels close to a similarity limit are judged by the range of the candidates only; one tile and block.")

# --- other higher-level modules ----------------------------------------------------------------------------------
prop("C31", "Best-available-pixel composites pick the best-scored observation",
     "Each pixel of a best-available-pixel composite carries, in all bands and in the information and score layers, one and the same observation: "
     "the one with the highest documented total score (seasonal, yearly, cloud distance, haze, correlation and view angle scores, static or phenology-adaptive targets) "
     "among the observations left after the off-season, cloudy and hazy filters, or the score-weighted mean of those when selection is off. "
     "Pixels without usable observation or outside the mask are nodata, the count layer is the number of usable observations and the quicklook shows the same composite.",
     ["inputs", "configurations"],
     "all observation sets, score weights, score shapes, target dates and multi-year settings", UNIT + "Never exercised.",
     [HL + "level3-hl.c", HL + "bap-hl.c"], [("bap_compositing / scoring", HL + "bap-hl.c")],
     ["BAP, INF, SCR, OVV products"], "property-based testing against a reference scorer",
     "Near-ties of the total score are not judged.")

prop("C32", "Clear-sky observation statistics count observations and their gaps",
     "For each time window of the date range the clear-sky products give the number of usable observations and the requested statistics (average, standard deviation, extremes, "
     "range, skewness, kurtosis, quantiles, interquartile range) of the gaps in days between consecutive usable observations, the window borders counting as observations. "
     "Windows start with the month of the first date, advance by the month step and cover every month of the range; pixels outside the mask are nodata.",
     ["inputs", "configurations"],
     "all acquisition sets, quality flags, date and day-of-year ranges, window lengths and metric lists", UNIT + "Never exercised.",
     [HL + "cso-hl.c"], [("clear_sky_observations", HL + "cso-hl.c")],
     ["CSO products"], "property-based testing against a reference implementation",
     "Standard deviation, skewness and kurtosis of a single gap are not judged; integer output, one unit of rounding.")

prop("C33", "Texture metrics are grey-scale morphology of the feature",
     "Dilation, erosion, opening, closing, gradient, tophat and blackhat outputs equal grey-scale morphology of each feature, in the order the features are "
     "given, with the configured kernel radius and number of iterations, also across block and tile borders. "
     "Pixels of missing neighbour tiles count with the nodata value, and pixels outside the mask, or with nodata when these are excluded, are nodata in the output.",
     ["inputs", "configurations"], "all features, radii, iterations, masks, nodata patterns, block and tile layouts", UNIT + "Never exercised.",
     [HL + "texture-hl.c", HL + "read-ard-hl.c", CL + "imagefuns-cl.c"], [("texture", HL + "texture-hl.c")], ["TXT products"],
     "property-based testing against reference morphology", "Kernels that fit into a block.")

prop("C34", "Landscape metrics describe the thresholded patches in the window",
     "Patch-based (effective mesh size, unique patch IDs, number of patches, weighted mean patch area, fractal dimension, edge density) and arithmetic (mean, geometric mean, standard "
     "deviation, maximum, area) landscape metrics equal their definitions on the class pixels (those satisfying the query per feature, in patches of at least the minimum "
     "size) inside the circular or square kernel around each pixel. Pixels that are nodata or outside the mask never count as class pixels, and values are "
     "given for class pixels only or for all valid pixels as requested.",
     ["inputs", "configurations"], "all features, thresholds, queries, kernels, radii, minimum patch sizes, masks", UNIT + "Never exercised.",
     [HL + "lsm-hl.c", CL + "imagefuns-cl.c"], [("landscape metrics", HL + "lsm-hl.c")], ["LSM products"],
     "property-based testing against a reference implementation with its own connected-component labelling", "Arithmetic metrics within one unit, patch metrics by flood fill.")

prop("C35", "Samples are extracted at the requested locations, once each",
     "Sampling writes, for every sample point that lies in a processed tile on a pixel inside the mask with valid features, exactly one row with the feature values of "
     "the pixel containing the point, together with its own response values and coordinates, whether the points are given in projected or geographic coordinates. "
     "Points outside, on masked or invalid pixels add no row, repeated points are repeated, and rows of the three tables stay aligned.",
     ["inputs", "configurations"], "all point sets (also exactly on pixel, block and tile borders), features, coordinate systems, block layouts", UNIT +
     "Never exercised.", [HL + "sample-hl.c", CL + "table-cl.c"], [("sampling", HL + "sample-hl.c")],
     ["feature, response and coordinate tables"], "property-based testing against a reference extraction",
     "Rows compared as a multiset: the order over blocks is not specified.")

prop("C36", "Model prediction equals evaluating the trained model",
     "For every pixel inside the mask with valid features and every model set, the prediction of a random forest or support vector machine equals an independent evaluation of the "
     "model on the pixel's features: mean (scaled), standard deviation and number of models blended until convergence for regression; mode of the models, mean class probabilities per class and "
     "margin between the two most likely classes for classification. Model sets appear as bands in the given order; other pixels are nodata unless exclusion of invalid features is off.",
     ["inputs", "configurations"], "all features, models, model sets, convergence thresholds, scales, product selections", UNIT + "Never exercised.",
     [HL + "ml-hl.c", HL + "read-aux-hl.cpp"], [("prediction", HL + "ml-hl.c"), ("model loading", HL + "read-aux-hl.cpp")], ["MLP, MLI, MLU, RFP, RFM products"],
     "property-based testing with generated model files against an independent evaluator of trees and kernels",
     "Ties between classes and the uncertainty of a single model are not judged.")

prop("C37", "Library completeness is the distance to the nearest library spectrum",
     "For every pixel and library the completeness product is the smallest mean absolute distance between the pixel's valid features and any library entry, optionally after "
     "rescaling both with the mean and standard deviation of the library; the last band is the smallest over all libraries. Pixels outside the mask, or with invalid "
     "features when these are excluded, are nodata.",
     ["inputs", "configurations"], "all libraries, features, masks and rescaling options", UNIT + "Never exercised.", [HL + "lib-hl.c", HL + "read-aux-hl.cpp"],
     [("library completeness", HL + "lib-hl.c")], ["LIB products"], "property-based testing against numpy",
     "Distances inside the 16-bit range.")

# --- parameter files ------------------------------------------------------------------------------------------------
prop("C40", "Parameter files are accepted or refused as documented",
     "A parameter file whose values all lie inside the documented ranges and lists is accepted; one in which a required parameter is missing or has no value, "
     "a number is out of range, a list has the wrong length, a keyword or logical is not in the documented list, a referenced file is missing or a documented combination "
     "rule is broken is refused before any product is written, naming a parameter at fault. Comments, blank lines, spaces, line ends and parameter order have no effect, "
     "and no value whatsoever makes the programs crash.",
     ["inputs", "configurations"], "all single and multiple mutations of valid parameter files of every higher-level module type, of Level 2 processing and of model training",
     UNIT + "String helpers only; no parameter file is parsed.",
     [CL + "param-cl.c", HL + "param-hl.c", HL + "sensor-hl.c", "src/modules/aux-level/param-train-aux.c"],
     [("parse_parameter / check_parameter", CL + "param-cl.c"), ("parse_param_higher", HL + "param-hl.c")], ["exit status, stdout, output directory"],
     "structured fuzzing of parameter files with an accept/refuse model",
     "Mutations with known verdict; part of the runs and all garbage values on an address-sanitised build.")

prop("C41", "Template parameter files list what the programs need",
     "For every module a template parameter file can be written, with and without comments, that lists exactly the parameters the module requires: filled in with the paths and sizes of a "
     "valid job it is accepted, both forms give the same results, and leaving out any listed parameter is refused by name. An existing file is replaced, and no template is written for an unknown module.",
     ["inputs", "configurations"], "all modules, both forms, all listed parameters, generated jobs", UNIT + "No template is generated.",
     [AUX + "force-parameter.c", "src/modules/aux-level/param-aux.c", HL + "param-hl.c", LL + "param-ll.c"], [("write_par_*", "src/modules/aux-level/param-aux.c")],
     ["generated file, acceptance by the module"], "differential property-based testing template versus parser",
     "Jobs are generated for all 14 modules; parameters left out are drawn from the template.")

prop("C42", "Valid work never touches memory out of bounds",
     "Running any higher-level module or model training with a valid parameter file on valid inputs never reads or writes outside allocated memory and never uses "
     "freed memory, whatever the tile and block sizes, numbers of acquisitions, features and samples, masks, thread counts and requested products.",
     ["inputs", "configurations"], "all modules over generated inputs, block sizes, masks, thread counts and product selections",
     UNIT + "Helpers only, without sanitizers.",
     [HL + "tasks-hl.c", HL + "tsa-hl.c", HL + "level3-hl.c", HL + "texture-hl.c", HL + "lsm-hl.c", HL + "ml-hl.cpp", HL + "sample-hl.c", HL + "read-ard-hl.c", CL + "alloc-cl.c"],
     [("compute_task / read_ard / write_brick", HL + "tasks-hl.c")], ["sanitizer report, signal, exit status"],
     "property-based fuzzing of whole runs on an address-sanitised build",
     "Address sanitizer (heap, stack, global, use after free); uninitialised reads are not seen.")

# --- aux tools --------------------------------------------------------------------------------------------------------
prop("C50", "Quality inflation decodes every bit field",
     "Inflating a quality image gives one band per quality field holding that field's value for every pixel, "
     "in the documented field order, with the input's size and georeferencing.",
     ["inputs"], "all 16-bit patterns, image sizes, formats", UNIT + "Never exercised.",
     ["src/main/higher-level/force-qai-inflate.c", CL + "quality-cl.c"], [("inflation", "src/main/higher-level/force-qai-inflate.c")],
     ["inflated image"], "property-based testing against a reference bit decoder", "Random and swept patterns; tens of thousands of distinct patterns per run.")

prop("C51", "Stacking keeps every band of every image in order",
     "Stacking images gives a virtual image with all bands of all inputs, grouped by band if all have the same number of bands and "
     "by image otherwise, each with its own values, nodata, name and metadata. Inputs of different size or directory, an existing output and a single input are refused without touching anything.",
     ["inputs", "configurations"], "all numbers of images and bands", UNIT + "Never exercised.", [AUX + "force-stack.c"],
     [("stacking", AUX + "force-stack.c")], ["virtual raster"], "property-based testing against a reference ordering",
     "Values identify file and band.")

prop("C52", "Metadata copy transfers names and metadata only",
     "Copying metadata gives the target exactly the source's band names and software metadata while its pixel values, nodata value and georeferencing stay as they were; images with different band counts are refused and left untouched.",
     ["inputs"], "all metadata dictionaries and band names", UNIT + "Never exercised.", [AUX + "force-mdcp.c"],
     [("copy", AUX + "force-mdcp.c")], ["target image"], "property-based testing", "Text limited to printable characters.")

prop("C53", "Histograms count every valid pixel once",
     "The histogram of an image band lists each occurring value other than nodata exactly once with its exact pixel count; an image without nodata value or without the requested band is refused.",
     ["inputs"], "all 16-bit images, bands", UNIT + "Never exercised.", [AUX + "force-hist.c"],
     [("counting", AUX + "force-hist.c")], ["histogram table"], "property-based testing against numpy",
     "Full value range including extremes.")

prop("C54", "Stratified samples honour the requested sizes and classes",
     "The stratified sample never holds more distinct pixels of a class than requested, exactly the requested number (or all pixels if fewer exist) if at least half of the class "
     "or at least 60 pixels are requested, and none of a class that is not listed or of pixels without data. Each point lies at the centre of a pixel of the class it is labelled with, and an existing sample file is not overwritten.",
     ["inputs", "schedules"], "all maps, sample size tables, random states", UNIT + "Never exercised.",
     [AUX + "force-stratified-sample.c"], [("sampling", AUX + "force-stratified-sample.c")], ["point vector"],
     "property-based testing of invariants", "The tool seeds itself from the clock: every run is a new random state.")

prop("C55", "Mosaics hold exactly the tiles' own product",
     "Mosaicking a cube gives one mosaic per product, which shows at every location the value of that product's tile image there and nodata elsewhere, carries the product's nodata value, band names and metadata, "
     "and mixes in no other product, whatever the product names, image format and mosaic directory (absolute, relative or the default one). Nothing but the mosaics is left in the mosaic directory.",
     ["inputs", "configurations"], "all tile populations, product names (also ones that contain each other), mosaic directories", UNIT + "Never exercised.",
     ["bash/force-mosaic.sh", AUX + "force-mdcp.c"], [("force-mosaic", "bash/force-mosaic.sh")], ["mosaic virtual rasters"],
     "property-based testing against an assembled array", "Product names include suffixes of each other; names without blanks.")

prop("C56", "Cubed images and processing masks keep values and grid",
     "Importing a raster or vector file into a cube writes, for every tile of the cube's grid that receives data and no other, an image with the input's value (vector: 1 or the chosen attribute) at the same location and nodata elsewhere; "
     "a second raster of the same name is merged into the first. A processing mask is 1 where the expression holds for the chosen band, 0 where it does not and nodata where the input is, in every tile that has the input.",
     ["inputs", "configurations"], "all rasters and vectors aligned with the grid, expressions, tagged and positional cube definitions, non-square tiles", UNIT + "Never exercised.",
     ["bash/force-procmask.sh", "bash/force-cube.sh", "misc/force-bash-library.sh"], [("force-procmask", "bash/force-procmask.sh"), ("force-cube", "bash/force-cube.sh")],
     ["tile images"], "property-based testing against array assembly", "Inputs aligned with the grid in the cube's projection, so that resampling cannot change a value.")

prop("C57", "Parameter expansion produces every combination once",
     "Expanding a parameter file with replacement vectors writes one file per combination of the vectors, each with all placeholders replaced by its own combination "
     "and everything else unchanged; with paired expansion the i-th values go together and vectors of different length are refused.",
     ["configurations", "inputs"], "all vectors and templates", UNIT + "Never exercised.", ["bash/force-magic-parameters.sh"],
     [("expansion", "bash/force-magic-parameters.sh")], ["generated parameter files"],
     "property-based testing against itertools", "Values limited to letters, digits and _.-/:= .")

prop("C58", "Synthetic mixtures are convex mixtures of library spectra",
     "Every synthetic feature row is a linear combination of library samples with non-negative fractions that sum to one, contains the target class, and its response is the target class's total fraction. "
     "The requested number of mixtures, iterations and target classes, the mixing complexities and their likelihoods, the class selection and likelihoods and the within-class rule are honoured, original samples are appended "
     "as 0/1 mixtures on request, and missing or contradictory parameters are refused.",
     ["inputs", "configurations", "schedules"], "all libraries, class selections, complexities, likelihoods, random states", UNIT + "Never exercised.",
     ["python/force-synthmix.py"], [("mixing", "python/force-synthmix.py")], ["mixture tables"],
     "property-based testing of invariants on decodable mixtures", "Libraries with one indicator feature per sample make all fractions observable; frequencies are judged with a Chernoff bound.")

prop("C59", "The extent of an area lists exactly the tiles it touches",
     "For an area of interest the tile extent tool writes an allow-list with the number and names of exactly those tiles the area covers at least one 10 m pixel of, and suggests the smallest tile ranges that hold them. "
     "An existing list is replaced and nothing else is left behind.",
     ["inputs", "configurations"], "all cubes, areas of one or several polygons, tiles with zero and negative numbers, allow-list locations", UNIT + "Never exercised.",
     ["bash/force-tile-extent.sh", "bash/force-cube.sh"], [("tile extent", "bash/force-tile-extent.sh")], ["allow-list", "stdout"],
     "property-based testing against interval arithmetic", "Areas drawn along pixel edges.")

prop("C65", "Virtual cubes, cube sizes and pyramids mirror the files",
     "A virtual cube holds for every matching image of the physical cube a virtual image with the same content, keeps existing files unless overwriting is requested, has the same cube definition and is refused if it had another one. "
     "The size report gives for every sensor the bytes of its files and their total, and pyramids have the requested levels and leave the images as they are.",
     ["inputs", "configurations", "histories"], "all cubes, patterns, previously existing files, option orders", UNIT + "Never exercised.",
     ["bash/force-virtual-datacube.sh", "bash/force-datacube-size.sh", "bash/force-pyramid.sh"],
     [("virtual cube", "bash/force-virtual-datacube.sh"), ("size", "bash/force-datacube-size.sh"), ("pyramid", "bash/force-pyramid.sh")], ["virtual rasters", "stdout", "overviews"],
     "property-based testing against the files", "Known sensors only; sizes compared at the printed precision.")

# --- Level 2 ------------------------------------------------------------------------------------------------------------
prop("C60", "Level 2 reflectance follows the calibration metadata",
     "With atmospheric correction off, the Level 2 reflectance of every valid pixel is the top-of-atmosphere reflectance given by the scene's own gain and offset and the solar elevation "
     "at the pixel, in the band it belongs to, whatever the order of the metadata; thermal and cirrus data never reach the reflectance product, and pixels void in any band but the cirrus band are nodata in all bands. "
     "Scenes below the requested processing tier yield nothing, and scenes with incomplete calibration metadata are refused.",
     ["inputs", "configurations"], "all digital numbers and calibration coefficients, acquisition times and places, Landsat 4-9", UNIT +
     "Never exercised.", [LL + "read-ll.c", LL + "meta-ll.c", LL + "sunview-ll.c"], [("convert_level1", LL + "read-ll.c"), ("metadata parser", LL + "meta-ll.c")],
     ["Level 2 TOA product"], "property-based testing with synthetic scenes and a reference calibration", "Sun angle recomputed independently (0.2 degrees tolerance); Landsat only.")

prop("C66", "Surface reflectance follows the given atmosphere, terrain and geometry",
     "With a given aerosol look-up table, water vapour and elevation, the corrected reflectance of every pixel is the inversion of the documented radiative transfer (single or multiple scattering) at the nearest table entry of the day, "
     "more water vapour never lowers it, the directional correction multiplies each band by the ratio of its published reflectance model at the standard sun and nadir and at the actual sun and view position, and adjacency correction stays within what the surroundings' reflectance allows. "
     "Terrain correction leaves flat terrain unchanged, flags illumination and slope by the true incidence angle, and scales slopes within the limits of direct and sky light, consistently across the bands.",
     ["inputs", "configurations"], "all reflectances, aerosol spectra, water vapour tables, elevations, slopes, aspects, sun positions, Landsat 4-9", UNIT + "Never exercised.",
     [LL + "atmo-ll.c", LL + "radtran-ll.c", LL + "brdf-ll.c", LL + "topo-ll.c", LL + "aod-ll.c", LL + "gas-ll.c", LL + "sunview-ll.c"],
     [("surface_reflectance", LL + "atmo-ll.c"), ("radiative transfer", LL + "radtran-ll.c"), ("aodfileread", LL + "aod-ll.c"), ("water_vapor_from_lut", LL + "gas-ll.c"), ("topography", LL + "topo-ll.c"), ("brdf_factor", LL + "brdf-ll.c")],
     ["Level 2 BOA, QAI, AOD, WVP products"], "property-based testing with synthetic scenes against a reference radiative transfer, and metamorphic pairs of runs",
     "The gaseous transmittance is one estimated factor per band and run; aerosol retrieval from the image is not judged; view angles come from a grid of 5 km.")

prop("C61", "Level 2 results do not depend on tiling or threads",
     "Cutting a scene into tiles of any size and grid origin, or not tiling at all, and using any number of threads yields the same pixel at the "
     "same location in every Level 2 product, with and without reprojection and radiometric correction; no pixel is lost, duplicated or shifted. "
     "Tiles without any valid pixel and tiles missing on the list of allowed tiles are not written.",
     ["configurations", "schedules", "inputs"], "all tile sizes, origins, places, thread counts, allowed tiles, resamplings", UNIT + "Never exercised.",
     [LL + "cube-ll.c", LL + "atmo-ll.c", LL + "cloud-ll.c"], [("tile_level2 / flush_level2", LL + "cube-ll.c"), ("cloud detection", LL + "cloud-ll.c")], ["Level 2 cube"],
     "metamorphic property-based testing with synthetic scenes", "Without reprojection a common shift of less than one pixel is accepted when the grid is not aligned with the scene; Landsat only.")

prop("C67", "Continental cubes follow their published grids",
     "With one of the predefined continental grids every scene is written, with the same pixel values as in a single cube with the published projection, origin and tile size of the continent, to the cube of each continent it touches, completely and to no other, next to that cube's definition. "
     "Choosing a single continent of the grid yields exactly that continent's cube, and the tile dictionary of the equidistant grid translates every tile to the name of its lower left corner.",
     ["inputs", "configurations"], "all places on land, scene sizes, resolutions, resamplings, both grids and their continents", UNIT + "Never exercised.",
     [LL + "glance7-ll.c", LL + "equi7-ll.c", LL + "cube-ll.c"], [("start_glance7cube", LL + "glance7-ll.c"), ("start_equi7cube", LL + "equi7-ll.c"), ("start_multicube", LL + "cube-ll.c")],
     ["Level 2 cubes", "datacube-definition.prj", "equi7-tile-dictionary.txt"], "differential property-based testing with synthetic scenes", "Membership in a continent is judged in large land areas and by the tile dictionary only; Landsat only.")

prop("C68", "Sentinel-2 granules give correct reflectance, quality and merged resolutions",
     "Every Sentinel-2 granule, whichever satellite, product naming, scale and band offsets it has, is written on its 10 m grid under its name and date with the reflectance its counts state, with nodata where a band is void or no detector looked, with saturated pixels flagged, with the view zenith of its angle grids, "
     "and with the same values whether or not it is cut into tiles. "
     "Merging resolutions leaves the 10 m bands, clouds and cloud shadows unchanged and gives the 20 m bands the values of the requested method, while without it they keep their values.",
     ["inputs", "configurations"], "all satellites, naming conventions, scales, offsets, places, dates, detector layouts, defects, surfaces, merge methods, threads", UNIT + "Never exercised.",
     [LL + "meta-ll.c", LL + "read-ll.c", LL + "resmerge-ll.c", LL + "sunview-ll.c", LL + "cube-ll.c"],
     [("parse_metadata_s2", LL + "meta-ll.c"), ("convert_level1", LL + "read-ll.c"), ("resolution_merge", LL + "resmerge-ll.c"), ("view_angle", LL + "sunview-ll.c")],
     ["TOA, QAI and VZN products"], "property-based testing against reference models with synthetic granules",
     "Atmospheric correction off; images are stored as GeoTIFF (no JPEG2000 writer here); 1-3 cells of the 5 km angle grid per side; the STARFM merge is judged for granules without void or saturated pixels.")

prop("C62", "Level 2 quality flags agree with the data",
     "In every Level 2 product set nodata bit, reflectance, cloud distance and haze product agree on what is nodata, saturated, void and low-sun pixels are flagged exactly where the input says so, unmistakable clouds, their shadows, cirrus, snow and water "
     "are flagged and unmistakable clear land is not, and the cloud distance is the distance to the nearest flagged pixel. "
     "Buffers grow each mask by their radius up to the image border, a stricter cloud threshold never adds clouds, images and tiles above their cover limit are not written while others are unchanged, "
     "erasing removes exactly the confident clouds from the reflectance, and the area of interest removes everything outside and nothing inside.",
     ["inputs", "configurations"], "all scenes, sun positions, buffers, thresholds, limits, areas of interest", UNIT + "Never exercised.",
     [LL + "atmo-ll.c", LL + "cloud-ll.c", LL + "read-ll.c", LL + "cube-ll.c", CL + "quality-cl.c", CL + "vector-cl.c", CL + "imagefuns-cl.c"], [("quality bits", CL + "quality-cl.c"), ("cloud detection", LL + "cloud-ll.c"), ("buffers", CL + "imagefuns-cl.c")],
     ["QAI, TOA, DST and HOT products"], "metamorphic and model-based property-based testing with synthetic scenes", "Landsat only, atmospheric correction off; buffers judged with a tolerance of one pixel.")

prop("C63", "Same-day scenes merge without losing data",
     "When scenes of the same day and sensor are written to the same tile, in any order and any number of times, each pixel holds the data of the scene that covers it; where several do, the products hold their average and the quality flags "
     "are the union (clouds, aerosol: the more severe) with valid data taking precedence over nodata. "
     "Scenes of other days or sensors stay separate, and the provenance table lists every written file with its origin and whether it was created or updated.", ["histories", "inputs"],
     "all orders, repetitions and overlaps of scenes written to one cube", UNIT + "Never exercised.",
     [CL + "brick_io-cl.cpp", CL + "quality-cl.c"], [("merge on write", CL + "brick_io-cl.cpp"), ("quality merge", CL + "quality-cl.c")], ["Level 2 cube", "provenance table"],
     "stateful property-based testing with a reference merge", "Landsat only; sequential writers; averages within one unit per merge.")

prop("C64", "The Level 2 queue processes every image once and keeps its state",
     "Batch Level 2 processing hands every queued image, unpacked if it is an archive, to the processor exactly once, marks it done or failed according to the result and removes what it unpacked; images with another state, "
     "the order of the queue and the images themselves stay unchanged, however similar their paths are and however many images finish at the same time. "
     "A killed batch leaves unfinished images queued, and the next batch processes exactly those.", ["histories", "fault_sequences", "schedules"],
     "all queues, states, archive types, numbers of parallel processes, interruptions and restarts", UNIT + "Never exercised.",
     ["bash/force-level2.sh"], [("queue handling", "bash/force-level2.sh")], ["queue file, logs, processor invocations"],
     "stateful property-based testing with a recording stand-in processor and fault injection", "The image processor and the lockfile programs are replaced by stand-ins; killed only while one image is processed.")


def claimed(p):
    return os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py"))


REASONS = {}


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], state=p["state"],
                             mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                             observe_at=p["observe"], hook_needed=None)), sort_keys=False) + "\n")
    m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[],
             notes="All checks build /repo's working tree into /verif/.build (cached by content hash) and run the "
                   "built executables on generated data in scratch directories under /tmp that they remove. No hooks.")
    for p in P:
        if claimed(p):
            m["checks"].append(dict(property=p["id"], quick_cmd="./check %s" % p["id"],
                                    thorough_cmd="./check %s" % p["id"], technique=p["technique"],
                                    level="exploration", level_note=p["note"],
                                    evidence_file="evidence/%s.json" % p["id"]))
        else:
            m["not_applicable"].append(dict(property=p["id"],
                                            reason=REASONS.get(p["id"], "check not built yet")))
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
