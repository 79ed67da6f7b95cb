"""C14: truncating intervals and times of day."""
from common import *

TECHNIQUE = "value analysis of MIR: normal forms of the truncated components compared with the truncation towards zero, per partition"
NOTE = ("decides, for every interval whose hours fit 32 bits and every time of day, every unit and field type, the exact truncated "
        "value or the error condition")
ASSUMPTIONS = []
UNITS = ["Delta", "Second", "Minute", "Hour", "Day", "Week", "Month", "Quarter", "Year", "Decade", "Century", "MilliSec", "MicroSec",
         "JULIAN", "Dow", "IsoDow", "Doy", "Tz", "TzMinute", "TzHour", "Millennium", "IsoYear", "Epoch"]
STEP = {"MicroSec": 1, "MilliSec": 1000, "Second": 10 ** 6, "Minute": 6 * 10 ** 7, "Hour": 36 * 10 ** 8}
MSTEP = {"Month": 1, "Quarter": 3, "Year": 12, "Decade": 120, "Century": 1200, "Millennium": 12000}


def units(I):
    ts = I.types.values() if isinstance(I.types, dict) else I.types
    return {v["name"] for t in ts if t and t.get("k") == "adt" and t["name"].endswith("::DateUnit") for v in t["variants"]}


def run(P, c):
    J = Judge(P, c)
    b = J.need(dt("interval", "Interval", "truncate"))
    b2 = J.need(dt("time", "Time", "truncate"))
    for u in sorted(units(J.I) | set(UNITS)):
        def spec(S, st):
            v = ivar("v")
            if not S.inrange(S.tdiv(v["time"], 36 * 10 ** 8), *I32):
                return None
            if u in STEP:
                return ok(iv_(S.tdiv(v["time"], STEP[u]) * STEP[u], v["day"], v["month"]))
            if u == "Day":
                return ok(iv_(ZERO, v["day"], v["month"]))
            if u in MSTEP:
                return ok(iv_(ZERO, ZERO, S.tdiv(v["month"], MSTEP[u]) * MSTEP[u]))
            return ERR

        def tspec(S, st):
            t = tvar("t")
            if u in STEP:
                return ok(date_(T.fquo(t, STEP[u]) * STEP[u]))
            if u == "Day" or u in MSTEP:
                return ok(date_(ZERO))
            return ERR
        if b:
            J.judge("finer fields cleared", "interval to %s" % u, b,
                    lambda I: Input(I, b).interval("v").enum("Unit").enum(u).state(), spec, panics=True)
        if b2:
            J.judge("finer fields cleared", "time to %s" % u, b2,
                    lambda I: Input(I, b2).time("t").enum("Unit").enum(u).state(), tspec, panics=True)
    if b:
        J.judge("field type", "interval", b, lambda I: Input(I, b).interval("v").enum("Epoch").enum("Day").state(), lambda S, st: ERR, panics=True)
    if b2:
        J.judge("field type", "time", b2, lambda I: Input(I, b2).time("t").enum("Epoch").enum("Hour").state(), lambda S, st: ERR, panics=True)
    c.floor("units decided", sum(1 for o in c.obligations), 48)
