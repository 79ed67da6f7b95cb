"""C13: truncating timestamps and dates."""
from common import *

TECHNIQUE = "value analysis of MIR: normal forms of the truncated moment compared with the start of the period, per partition"
NOTE = ("decides, for every finite timestamp and date, every unit and field type, the exact truncated value or the error condition; "
        "the calendar functions are taken at their contract")
ASSUMPTIONS = ["date2julian, julian2date and days_of_month compute the proleptic Gregorian calendar (decided by C27)"]
UNITS = ["Delta", "Second", "Minute", "Hour", "Day", "Week", "Month", "Quarter", "Year", "Decade", "Century", "MilliSec", "MicroSec",
         "JULIAN", "Dow", "IsoDow", "Doy", "Tz", "TzMinute", "TzHour", "Millennium", "IsoYear", "Epoch"]
STEP = {"MicroSec": 1, "MilliSec": 1000, "Second": 10 ** 6, "Minute": 6 * 10 ** 7, "Hour": 36 * 10 ** 8, "Day": USECS_DAY}


def start(S, t, unit):
    """the first microsecond of the period of this unit that contains t, or None when there is no such unit"""
    if unit in STEP:
        return T.fquo(t, STEP[unit]) * STEP[unit]
    j = T.fquo(t, USECS_DAY) + EPOCH
    if unit == "Week":
        return (j - (j - T.fquo(j, 7) * 7) - EPOCH) * USECS_DAY
    y, m, d = S.civil(j)
    if unit == "Month":
        pass
    elif unit == "Quarter":
        m = T.fquo(m - 1, 3) * 3 + 1
    elif unit == "Year":
        m = K(1)
    elif unit == "Decade":
        y, m = T.fquo(y, 10) * 10, K(1)
    elif unit == "Century":
        y, m = T.fquo(y - 1, 100) * 100 + 1, K(1)
    elif unit == "Millennium":
        y, m = T.fquo(y - 1, 1000) * 1000 + 1, K(1)
    else:
        return None
    return (C.J(S.norm(y), S.norm(m), K(1)) - EPOCH) * USECS_DAY


def run(P, c):
    J = Judge(P, c)
    b = J.need(dt("timestamp", "Timestamp", "truncate"))
    b2 = J.need(dt("date", "Date", "truncate"))
    listed = [v["name"] for t in J.I.types.values() if t["k"] == "adt" and t["name"].endswith("::DateUnit") for v in t["variants"]] \
        if isinstance(J.I.types, dict) else [v["name"] for t in J.I.types if t and t.get("k") == "adt" and t["name"].endswith("::DateUnit") for v in t["variants"]]
    for u in sorted(set(listed) | set(UNITS)):
        def spec(S, st):
            r = start(S, tsvar("t"), u)
            if r is None or not S.inrange(r, MIN_TS, END_TS - 1):
                return ERR
            return ok(date_(r))

        def dspec(S, st):
            t = dvar("d") * USECS_DAY
            if not S.inrange(t, MIN_TS, END_TS - 1):
                return ERR
            r = start(S, t, u)
            if r is None or not S.inrange(r, MIN_TS, END_TS - 1):
                return ERR
            return ok(date_(T.fquo(r, USECS_DAY)))
        if u == "Week":
            # the moment as a day number and a time within the day
            day, tm = V("day", -EPOCH, (END_TS - 1) // USECS_DAY), V("tod", 0, USECS_DAY - 1)
            with C.named_years():
                if b:
                    J.judge("start of the period", "timestamp to %s" % u, b,
                            lambda I: Input(I, b).newtype(day * USECS_DAY + tm).enum("Unit").enum(u).state(),
                            lambda S, st: ok(date_(start(S, day * USECS_DAY + tm, u))), panics=True)
                if b2:
                    J.judge("start of the period", "date to %s" % u, b2, lambda I: Input(I, b2).date("d").enum("Unit").enum(u).state(), dspec, panics=True)
            continue
        if b:
            J.judge("start of the period", "timestamp to %s" % u, b, lambda I: Input(I, b).ts("t").enum("Unit").enum(u).state(), spec, panics=True)
        if b2:
            J.judge("start of the period", "date to %s" % u, b2, lambda I: Input(I, b2).date("d").enum("Unit").enum(u).state(), dspec, panics=True)
    if b:
        J.judge("field type", "timestamp", b, lambda I: Input(I, b).ts("t").enum("Epoch").enum("Day").state(), lambda S, st: ERR, panics=True)
    c.floor("units decided", sum(1 for o in c.obligations), 47)
