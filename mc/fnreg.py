"""What the library documents about its functions: SQL name -> (aggregate?, public attributes in SQL argument order).
'?' marks an optional argument, '*' a list of one or more."""

UNARY_AGG = ("APPROX_SET ARBITRARY ARRAY_AGG AVG BITWISE_AND_AGG BITWISE_OR_AGG BOOL_AND BOOL_OR CHECKSUM COUNT COUNT_IF EVERY "
             "GEOMETRIC_MEAN HISTOGRAM MAP_UNION MERGE SKEWNESS STDDEV STDDEV_POP STDDEV_SAMP SUM VARIANCE VAR_POP VAR_SAMP").split()
FUNCS = {n: (True, "value") for n in UNARY_AGG}
for n in "CORR COVAR_POP COVAR_SAMP KURTOSIS REGR_INTERCEPT REGR_SLOPE".split():
    FUNCS[n] = (True, "y x")
FUNCS.update({
    "APPROX_DISTINCT": (True, "key epsilon?"), "APPROX_MOST_FREQUENT": (True, "buckets value capacity"),
    "APPROX_PERCENTILE": (True, "value weight? percentage"), "MAP_AGG": (True, "key value"), "MULTIMAP_AGG": (True, "key value"),
    "MAX": (True, "value num_values?"), "MIN": (True, "value num_values?"),
    "MAX_BY": (True, "value max_by num_values?"), "MIN_BY": (True, "value min_by num_values?"),
    "NUMERIC_HISTOGRAM": (True, "buckets value weight?"), "QDIGEST_AGG": (True, "value weight? accuracy?"),
    "TDIGEST_AGG": (True, "value weight?"),
    "AT_TIMEZONE": (False, "value zone"), "WITH_TIMEZONE": (False, "value zone"), "CHR": (False, "number"),
    "COALESCE": (False, "values*"), "CONCAT": (False, "values*"), "CODEPOINT": (False, "string"), "DATE": (False, "value"),
    "DATE_ADD": (False, "unit value timestamp"), "DATE_DIFF": (False, "unit timestamp1 timestamp2"), "DATE_TRUNC": (False, "unit value"),
    "FROM_ISO8601_DATE": (False, "value"), "FROM_ISO8601_TIMESTAMP": (False, "value"), "FROM_ISO8601_TIMESTAMP_NANOS": (False, "value"),
    "FROM_UNIXTIME": (False, "value zone? hours? minutes?"), "FROM_UNIXTIME_NANOS": (False, "value"),
    "FROM_UTF8": (False, "binary replace?"), "HAMMING_DISTANCE": (False, "string1 string2"), "HUMAN_READABLE_SECONDS": (False, "value"),
    "IF": (False, "condition true_value false_value?"), "LAST_DAY_OF_MONTH": (False, "value"), "LENGTH": (False, "string"),
    "LEVENSHTEIN_DISTANCE": (False, "string1 string2"), "LOWER": (False, "string"), "LPAD": (False, "string size pad_string"),
    "RPAD": (False, "string size pad_string"), "LTRIM": (False, "string"), "RTRIM": (False, "string"), "LUHN_CHECK": (False, "string"),
    "REVERSE": (False, "string"), "SOUNDEX": (False, "string"), "TO_UTF8": (False, "string"), "NOW": (False, ""),
    "NULLIF": (False, "value1 value2"), "PARSE_DURATION": (False, "value"), "POWER": (False, "x p"),
    "REPLACE": (False, "string search replace?"), "TO_ISO8601": (False, "value"), "TO_MILLISECONDS": (False, "value"),
    "TO_UNIXTIME": (False, "value"), "TRY": (False, "expr"),
})
# functions with a grammar rule of their own
SPECIAL = {"LISTAGG", "NORMALIZE", "CURRENT_DATE", "CURRENT_TIME", "CURRENT_TIMESTAMP", "LOCALTIME", "LOCALTIMESTAMP",
           "CURRENT_USER", "CURRENT_CATALOG", "CURRENT_SCHEMA", "CURRENT_PATH"}


def arities(name):
    """argument counts the documented signature allows (lists: 1..3)"""
    spec = FUNCS[name][1].split()
    if name == "FROM_UNIXTIME":
        return [1, 2, 3]
    req = [a for a in spec if not a.endswith("?")]
    if any(a.endswith("*") for a in spec):
        return [2, 3]
    return list(range(len(req), len(spec) + 1))


def attrs_for(name, n):
    """public attribute of every one of n SQL arguments"""
    spec = FUNCS[name][1].split()
    if spec and spec[0].endswith("*"):
        return [("values", i) for i in range(n)]
    if name == "FROM_UNIXTIME":
        return [("value", None)] + {1: [], 2: [("zone", None)], 3: [("hours", None), ("minutes", None)]}[n]
    if name == "APPROX_PERCENTILE":
        return [(a, None) for a in (["value", "percentage"] if n == 2 else ["value", "weight", "percentage"])]
    return [(a.rstrip("?"), None) for a in spec[:n]]
