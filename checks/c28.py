"""C28: ISO week and ISO year."""
from common import *

TECHNIQUE = ("value analysis of MIR over named years: the extracted week and year compared with the year of the week's Thursday, "
             "per partition")
NOTE = ("decides, for every finite timestamp and date, the ISO week and ISO year (year 0 is 1 BC); a year is represented by the day number "
        "of its start and its leap indicator, so the result holds for both year lengths and every weekday of its start")
ASSUMPTIONS = ["date2julian and julian2date compute the proleptic Gregorian calendar (decided by C27)"]


def iso(S, j):
    """(year, week) by ISO 8601: the year that contains the Thursday of the week, weeks counted from its first Thursday"""
    th = T.fquo(j, 7) * 7 + 3               # day number 0 is a Monday
    y, m, d = S.civil(j)
    n = 0
    if S.ask(T.ge(C.J0(y, K(1)) - th)):
        n = -1
    elif S.ask(T.ge(th - C.J0(y + 1, K(1)) - 1)):
        n = 1
    s = C.J0(y + n, K(1))                   # the day before 1 January
    # 1 + (Thursday - first Thursday)/7
    return y + n, T.fquo(j, 7) - T.fquo(s + 4, 7) + 1


def run(P, c):
    J = Judge(P, c)
    day, tm = V("day", -EPOCH, (END_TS - 1) // USECS_DAY), V("tod", 0, USECS_DAY - 1)
    b = J.need(dt("timestamp", "Timestamp", "date_part"))
    b2 = J.need(dt("date", "Date", "date_part"))
    with C.named_years():
        for u, k in (("IsoYear", 0), ("Week", 1)):
            if b:
                J.judge("ISO 8601", "%s of timestamp" % u, b,
                        lambda I: Input(I, b).newtype(day * USECS_DAY + tm).enum("Unit").enum(u).state(),
                        lambda S, st: ok(iso(S, day + EPOCH)[k]), panics=True)

            def spec(S, st):
                t = dvar("d") * USECS_DAY
                if not S.inrange(t, MIN_TS, END_TS - 1):
                    return ERR
                return ok(iso(S, dvar("d") + EPOCH)[k])
            if b2:
                J.judge("ISO 8601", "%s of date" % u, b2, lambda I: Input(I, b2).date("d").enum("Unit").enum(u).state(), spec, panics=True)
    c.floor("fields decided", sum(1 for o in c.obligations), 4)
