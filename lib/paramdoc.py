"""What the documentation says about the parameters: kind of value, range, list of valid values, number of values.

Transcribed from the commented parameter files of the documentation. Entries: (type, lo, hi, number of values or None for any, safe values).
Safe values are inside the documented range and keep a toy run small. An open range end is given by the first value that is surely inside."""
INF = None
LOGICAL = ["TRUE", "FALSE"]
STATS = ["NUM", "MIN", "Q01", "Q25", "Q50", "Q99", "MAX", "AVG", "STD", "RNG", "IQR", "SKW", "KRT"]
QAI = ("NODATA CLOUD_OPAQUE CLOUD_BUFFER CLOUD_CIRRUS CLOUD_SHADOW SNOW WATER AOD_FILL AOD_HIGH AOD_INT SUBZERO SATURATION SUN_LOW ILLUMIN_NONE "
       "ILLUMIN_POOR ILLUMIN_LOW SLOPED WVP_NONE").split()
POL = ("DEM DLM DPS DSS DMS DES DEV DAV DLV LTS LGS LGV VEM VLM VPS VSS VMS VES VEV VAV VLV VBL VGA VSA VPA VGM VGV DPY DPV IST IBL IBT IGS IRR IFR "
       "RAR RAF RMR RMF").split()

# name: (lo, hi, integer?, number of values (None: scalar, 0: any), safe values)
RANGE = {
    "ABOVE_NOISE": (0, INF, False, None, [0, 3, 0.5]), "BELOW_NOISE": (0, INF, False, None, [0, 1, 2.5]),
    "DOY_RANGE": (1, 365, True, 2, [1, 365, 100]), "X_TILE_RANGE": (-999, 9999, True, 2, []), "Y_TILE_RANGE": (-999, 9999, True, 2, []),
    "NTHREAD_READ": (1, INF, True, None, [1, 2]), "NTHREAD_WRITE": (1, INF, True, None, [1, 2]), "NTHREAD_COMPUTE": (1, INF, True, None, [1, 2]),
    "FEATURE_NODATA": (-32768, 32767, True, None, [-32768, 32767, 0]),
    # LEVEL3
    "DOY_SCORE": (0, 1, False, 3, [0.2, 0.9]), "DOY_STATIC": (1, 365, True, 3, [1, 180, 365]), "DREQ": (1, INF, False, None, [1, 500]),
    "HREQ": (-600, 600, False, None, [-600, 600, 0]), "VREQ": (1, 90, False, None, [1, 90]), "YEAR_TARGET": (1900, 2100, True, None, [1900, 2100, 2015]),
    "YEAR_NUM": (0, 100, True, None, [0, 100]), "Y_FACTOR": (0, INF, False, None, [0, 5]), "LSP_1ST_YEAR": (1900, 2100, True, None, [1900, 2100]),
    "LSP_NODATA": (-32768, 32767, True, None, [-32768, 32767]), "LSP_START": (1, 2100 * 365, True, None, [1, 2100 * 365]),
    "LSP_THRESHOLD": (0, 365, False, None, [0, 365]), "SCORE_DOY_WEIGHT": (0, 1, False, None, [0.5, 1]), "SCORE_YEAR_WEIGHT": (0, 1, False, None, [0.3, 1]),
    "SCORE_CLOUD_WEIGHT": (0, 1, False, None, []), "SCORE_HAZE_WEIGHT": (0, 1, False, None, []), "SCORE_VZEN_WEIGHT": (0, 1, False, None, []),
    "SCORE_CORREL_WEIGHT": (0, 1, False, None, [0.25, 1]),
    # TSA
    "SMA_ENDMEMBER": (0, INF, True, None, []), "MOVING_MAX": (1, 365, True, None, [1, 365]), "RBF_SIGMA": (1, 365, True, 0, [1, 365, 16]),
    "RBF_CUTOFF": (0, 1, False, None, [0.5, 1]), "HARMONIC_MODES": (1, 3, True, None, [1, 2, 3]), "INT_DAY": (1, INF, True, None, [10, 100, 365]),
    "POL_START_THRESHOLD": (0, 1, False, None, [0.01, 0.99, 0.5]), "POL_MID_THRESHOLD": (0, 1, False, None, [0.01, 0.99, 0.5]),
    "POL_END_THRESHOLD": (0, 1, False, None, [0.01, 0.99, 0.5]), "TREND_CONF": (0, 1, False, None, [0, 0.5, 1]),
    "MONTH_STEP": (1, 12, True, None, [1, 5, 12]),
    # ML, TXT, LSM
    "ML_CONVERGENCE": (0, INF, False, None, [0, 0.5]), "ML_SCALE": (0, INF, False, None, [1, 100]), "TXT_RADIUS": (0, INF, False, None, [10]),
    "TXT_ITERATION": (1, 1000, True, None, [1]), "LSM_RADIUS": (0, INF, False, None, [10]), "LSM_MIN_PATCHSIZE": (0, INF, True, None, [2, 3]),
    "LSM_THRESHOLD": (-32768, 32767, True, 0, []),
    # TRAIN
    "RESPONSE_VARIABLE": (1, INF, True, None, [1]), "PERCENT_TRAIN": (0.01, 100, False, None, [50, 99.5, 100]), "RF_NTREE": (0, INF, True, None, [2, 10]),
    "RF_OOB_ACCURACY": (0, INF, False, None, [0]), "RF_NFEATURE": (0, INF, True, None, [0, 1]), "RF_DT_MINSAMPLE": (0, INF, True, None, [1, 4]),
    "RF_DT_MAXDEPTH": (0, INF, True, None, [3, 5]), "RF_DT_REG_ACCURACY": (0, INF, False, None, [0.01, 1]), "SVM_MAXITER": (0, INF, True, None, [100]),
    "SVM_ACCURACY": (0, INF, False, None, [0.01]), "SVM_KFOLD": (1, INF, True, None, [2, 3]), "SVM_P": (0, INF, False, None, [0, 0.1]),
    "SVM_C_GRID": (0, INF, False, 3, []), "SVM_GAMMA_GRID": (0, INF, False, 3, []),
    # ImproPhe
    "SEASONAL_WINDOW": (1, 365, True, 0, []), "KERNEL_SIZE": (0, INF, False, None, [10, 30]), "KERNEL_TEXT": (0, INF, False, None, [10, 20]), "COARSE_NODATA": (-32768, 32767, True, None, [-32768, 32767]),
    "COARSE_1ST_YEAR": (1900, 2100, True, None, []), "COARSE_PREDICT_YEARS": (1900, 2100, True, 0, []),
    # LEVEL2
    "ORIGIN_LAT": (-90, 90, False, None, []), "ORIGIN_LON": (-180, 180, False, None, []), "TIER": (1, 3, True, None, [1, 2, 3]),
    "WATER_VAPOR": (0, 15, False, None, [0, 1.5, 15]), "DEM_NODATA": (-32768, 32767, True, None, [-32768, 32767]),
    "COREG_BASE_NODATA": (-32768, 32767, True, None, [-32768, 32767]), "MAX_CLOUD_COVER_FRAME": (0, 100, False, None, [100]),
    "MAX_CLOUD_COVER_TILE": (0, 100, False, None, [100]), "CLOUD_BUFFER": (0, 10000, False, None, [0, 300]), "CIRRUS_BUFFER": (0, 10000, False, None, [0, 90]),
    "SHADOW_BUFFER": (0, 10000, False, None, [0, 90]), "SNOW_BUFFER": (0, 10000, False, None, [0, 60]), "CLOUD_THRESHOLD": (0, 1, False, None, [0, 0.3, 1]),
    "SHADOW_THRESHOLD": (0, 1, False, None, [0, 0.05, 1]), "NPROC": (1, INF, True, None, [1, 4]), "NTHREAD": (1, INF, True, None, [1, 2]),
    "DELAY": (0, INF, True, None, [0, 3]), "TIMEOUT_ZIP": (0, INF, True, None, [0, 30]),
}
# name: (valid values, list?, change of the value is harmless for a toy run?)
ENUM = {
    "SCREEN_QAI": (QAI, True, True), "COMBINE_SCORES": (["ADDITIVE", "MULTIPLICATIVE"], False, True), "CSO": (STATS, True, True), "STM": (STATS, True, True),
    "POL": (POL, True, True), "FOLD_TYPE": (["MIN", "Q10", "Q25", "Q50", "Q75", "Q90", "MAX", "AVG", "STD", "RNG", "IQR", "SKW", "KRT", "NUM"], False, True),
    "INTERPOLATE": (["NONE", "LINEAR", "MOVING", "RBF", "HARMONIC"], False, False), "LSM": ("UCI MPA FDI EDD NBR EMS AVG GEO STD MAX ARE".split(), True, True),
    "LSM_KERNEL_SHAPE": (["CIRCLE", "SQUARE"], False, True), "LSM_THRESHOLD_TYPE": (["GT", "LT", "EQ"], True, False),
    "ML_METHOD": (["SVR", "SVC", "RFR", "RFC"], False, False), "OUTPUT_FORMAT": (["GTiff", "ENVI", "COG", "CUSTOM"], False, False),
    "PYTHON_TYPE": (["PIXEL", "CHUNK"], False, True), "RSTATS_TYPE": (["PIXEL", "CHUNK"], False, True), "TREND_TAIL": (["LEFT", "TWO", "RIGHT"], False, True),
    "TXT": ("DIL ERO OPN CLS GRD BHT THT".split(), True, True), "RESAMPLING": (["NN", "BL", "CC"], False, True), "DEM_RESAMPLING": (["NN", "BL", "CC"], False, True),
    "RES_MERGE": (["IMPROPHE", "REGRESSION", "STARFM", "NONE"], False, False),
}
for _n in ("STANDARDIZE_FOLD", "STANDARDIZE_POL", "STANDARDIZE_TSI", "STANDARDIZE_TSS"):
    ENUM[_n] = (["NONE", "NORMALIZE", "CENTER"], False, True)
# logical values whose change is harmless
HARMLESS = ("STREAMING OUTPUT_EXPLODE OUTPUT_SUBFOLDERS PRETTY_PROGRESS SPECTRAL_ADJUST FEATURE_EXCLUDE SELECT OFF_SEASON USE_CLOUDY USE_HAZY OUTPUT_INF "
            "OUTPUT_SCR OUTPUT_TSS OUTPUT_STM OUTPUT_FBY OUTPUT_FBQ OUTPUT_FBM OUTPUT_TRY OUTPUT_CAY HARMONIC_TREND SMA_SHD_NORM CHANGE_PENALTY LSM_ALL_PIXELS "
            "LIB_RESCALE OUTPUT_MLI RANDOM_SPLIT IMPULSE_NOISE BUFFER_NODATA ERASE_CLOUDS OUTPUT_VZN OUTPUT_HOT OUTPUT_DST").split()
LOGICALS = set(HARMLESS) | set(
    "FAIL_IF_EMPTY REDUCE_PSF USE_L2_IMPROPHE OUTPUT_BAP OUTPUT_OVV LSP_DO SMA_SUM_TO_ONE SMA_NON_NEG OUTPUT_RMS OUTPUT_TSI OUTPUT_NRT OUTPUT_FBW OUTPUT_FBD "
    "OUTPUT_TRQ OUTPUT_TRM OUTPUT_TRW OUTPUT_TRD OUTPUT_CAQ OUTPUT_CAM OUTPUT_CAW OUTPUT_CAD OUTPUT_PCT OUTPUT_POL OUTPUT_TRO OUTPUT_CAO POL_ADAPTIVE OUTPUT_PYP OUTPUT_RSP "
    "OUTPUT_MLP OUTPUT_MLU OUTPUT_RFP OUTPUT_RFM PROJECTED RF_FEATURE_IMPORTANCE DO_REPROJ DO_TILE DO_TOPO DO_ATMO DO_AOD DO_BRDF MULTI_SCATTERING "
    "ADJACENCY_EFFECT STRICT_WATER_VAPOR USE_DEM_DATABASE PARALLEL_READS OUTPUT_AOD OUTPUT_WVP".split())
# existing path needed / existing path or NULL / base name needed / base name or NULL / must not exist yet
EXIST = "DIR_LOWER DIR_HIGHER DIR_PROVENANCE DIR_MODEL DIR_LIBRARY FILE_POINTS FILE_FEATURES DIR_LEVEL2 DIR_LOG DIR_TEMP".split()
NULL_OR_EXIST = "DIR_MASK FILE_TILE FILE_OUTPUT_OPTIONS DIR_LSP FILE_ENDMEM FILE_PYTHON FILE_RSTATS FILE_AOI FILE_QUEUE DIR_WVPLUT DIR_AOD FILE_DEM DIR_COREG_BASE DIR_COARSE".split()
BASE = "FILE_LIBRARY BASE_COARSE".split()
NULL_OR_BASE = "BASE_MASK".split()
NOT_EXIST = "FILE_SAMPLE FILE_COORDINATES".split()
FIXED = {"DATE_RANGE": 2, "HARMONIC_FIT_RANGE": 2, "CHUNK_SIZE": 2, "BASE_LSP": 3, "TILE_SIZE": 2}
PATHS = set(EXIST + NULL_OR_EXIST + BASE + NULL_OR_BASE + NOT_EXIST + ["BASE_LSP", "FILE_MODEL", "INPUT_FEATURE", "FILE_RESPONSE", "FILE_LOG", "FILE_QUEUE", "FILE_AOI", "FILE_DEM", "DIR_AOD",
                                                                     "DIR_WVPLUT", "DIR_COREG_BASE"])
POSITIVE = ["RESOLUTION", "CHUNK_SIZE"]
