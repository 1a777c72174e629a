"""R user-defined functions: the data a function gets and returns."""
import subprocess

import udf

ID = "C38"
RULE = ("as for Python functions: a generated time series (several sensors, nodata, auxiliary products, processing mask) and a generated R function in pixel or block "
        "mode, at the UDF or the TSA entry point, whose output bands are stated functions of what it was called with; one evaluation = one output value; distinct "
        "non-trivial = output values expected not to be nodata")
TIERS = {"quick": dict(examples=500, budget=30), "thorough": dict(examples=1300, budget=75)}
ASSUMPTIONS = ["pixel mode with several R processes needs the R package snowfall, which is not installed; pixel mode runs with one computing thread"]
_home = []


def strategy(tier):
    return udf.case_("r")


def run_case(case, ctx):
    if not _home:
        _home.append(subprocess.run(["R", "RHOME"], capture_output=True, text=True).stdout.strip() or "/usr/lib/R")
    ctx.rhome = _home[0]
    return udf.run(case, ctx, "r")


minimise = udf.minimise
