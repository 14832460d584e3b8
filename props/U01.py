"""Frequency detection classifies calendars as documented."""
from sa.ir import const
from .common import *

EXPLAIN = """time_series_freq is interpreted for dated series and frames of any length, date indices, undated pandas objects and every other kind of object. The
resulting decision tree is compared, case by case over its branch conditions, with the documented precedence list in spec/util.py; month,
quarter and year flags, step counts and lengths of the index are atoms, linear comparisons between them are decided exactly."""
ASSUMPTIONS = ["pandas is_month_end and similar fields, value_counts and diff are operators shared with the definition"]

F = "quantfinlib._datatypes.timeseries.time_series_freq"
T, W = dim("T", 0), dim("w", 1)
INPUTS = {
    "dated series": lambda S: S.arr("x", "series", (T,), elem="dtidx"), "dated frame": lambda S: S.arr("x", "frame", (T, W), elem="dtidx"), "date index": lambda S: S.arr("i", "dtindex", (T,)),
    "series without dates": lambda S: S.arr("x", "series", (T,), elem="float"), "frame without dates": lambda S: S.arr("x", "frame", (T, W), elem="float"), "plain index": lambda S: S.arr("j", "index", (T,)),
    "array": lambda S: S.arr("a", "ndarray", (T,)), "none": lambda S: NONE, "number": lambda S: real("r"), "text": lambda S: sym("t", "str"), "list": lambda S: S.lst([real("r")]),
}


def check(ctx):
    for name, mk in INPUTS.items():
        ctx.run("classification", f"time_series_freq [{name}]", equal, ctx, "classification", f"time_series_freq [{name}]", lambda S: S.call(F, mk(S)), lambda S: S.call("spec_util.frequency", mk(S)))
