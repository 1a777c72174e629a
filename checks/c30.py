"""Python user-defined functions: the data a function gets and returns."""
import udf

ID = "C30"
RULE = ("a case is a generated time series of images of one or two sensors (with nodata, auxiliary products and a processing mask) and a generated user function "
        "in pixel or block mode, at the UDF or the TSA entry point, whose output bands are stated functions of the values, dates, sensors, band names and positions "
        "it was called with; one evaluation = one output value; distinct non-trivial = output values expected not to be nodata")
TIERS = {"quick": dict(examples=700, budget=30), "thorough": dict(examples=1800, budget=70)}
ASSUMPTIONS = ["user functions return nodata where they see no data; what is written for excluded pixels otherwise is not judged here"]
NONDETERMINISTIC = False


def strategy(tier):
    return udf.case_("py")


def run_case(case, ctx):
    return udf.run(case, ctx, "py")


minimise = udf.minimise
