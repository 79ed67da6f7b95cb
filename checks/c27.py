"""C27: the day-number calendar is the proleptic Gregorian calendar."""
from common import *

TECHNIQUE = ("interval and congruence analysis of the MIR of the two conversions, partitioned by the months of one 400-year cycle, "
             "with the number of cycles and the day of the month left symbolic")
NOTE = ("decides, for every day number of the supported range and every year, month and day, the exact result of both conversions, "
        "of the length of a month and of the weekday number; each of the 4800 partitions is one abstract run whose quotients are "
        "constants or multiples of the cycle count")
ASSUMPTIONS = []

CYCLE = 146097
BASE = -4713                # first year of the day-number scale
LAST = 2147483493           # last valid day number
YEAR_END = 5874897          # last complete year


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def length(y, m):
    return [31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def months():
    """(year, month, day number of its first day) of one cycle, counted from 2000-01-01 = 2451545"""
    n = 2451545
    for y in range(1999, BASE - 1, -1):
        n -= 366 if leap(y) else 365
    for y in range(BASE, BASE + 400):
        for m in range(1, 13):
            yield y, m, n
            n += length(y, m)


def run(P, c):
    J = Judge(P, c)
    for k in models.CALENDAR:
        J.I.models.pop(k, None)
    f = J.find("common::julian2date")
    g = J.find("common::date2julian")
    h = J.find("common::days_of_month")
    w = J.find("common::julian_to_week_day")
    for b, what in ((f, "julian2date"), (g, "date2julian"), (h, "days_of_month"), (w, "julian_to_week_day")):
        if not b:
            c.undecided("conversion", what, "function not found")
    for y, m, j0 in months():
        dim = length(y, m)
        d = V("day%d" % dim, 1, dim)
        k = V("cycles", 0, LAST // CYCLE)
        year = k * 400 + y
        day = k * CYCLE + (j0 - 1) + d
        e = V("day", 1, 31)
        name = "month %d of years %d mod 400" % (m, y % 400)
        if f:
            J.judge("day to date", name, f,
                    lambda I: Input(I, f).add(day).assume(T.ge(day)).assume(T.ge(K(LAST) - day)).state(),
                    lambda S, st: Rec({0: year, 1: K(m), 2: d}), panics=True)
        if g:
            J.judge("date to day", name, g,
                    # days after the end of the month belong to the next one
                    lambda I: Input(I, g).add(year).const(m).add(e).assume(T.ge(K(YEAR_END if m > 5 else YEAR_END + 1) - year)).state(),
                    lambda S, st: k * CYCLE + (j0 - 1) + e, panics=True)
    if h:
        for y in range(BASE, BASE + 400):
            for m in range(1, 13):
                J.judge("month length", "month %d of years %d mod 400" % (m, y % 400), h,
                        lambda I: Input(I, h).add(V("cycles", 0, LAST // CYCLE) * 400 + y).const(m).state(),
                        lambda S, st: K(length(y, m)), panics=True)
    if w:
        j = V("day number", 0, LAST)
        J.judge("weekday", "weekday number", w, lambda I: Input(I, w).add(j).state(),
                lambda S, st: j + 1 - T.fquo(j + 1, 7) * 7, panics=True)
