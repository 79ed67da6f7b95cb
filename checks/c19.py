"""C19: constructors."""
from common import *

TECHNIQUE = "value analysis of MIR: accepted components and constructed value compared with the calendar and clock rules, per partition"
NOTE = ("decides, for every combination of 32-bit integers and every floating-point number of seconds, whether a date, timestamp, time or "
        "interval is constructed and its exact value; seconds are compared as real numbers (one rounding of the product with one million "
        "is not modelled); the documented wrap of Interval::try_from_ymwd_hms is out of scope")
ASSUMPTIONS = ["date2julian computes the proleptic Gregorian calendar (decided by C27)", "floating-point products are compared as real numbers"]
SPECIAL = ("nan", "inf", "-inf")


def usecs(S, s):
    """microseconds nearest to s seconds, halves away from zero"""
    x = s.scale(10 ** 6)
    if S.ask(T.ge(x)):
        return T.ffloor(x + T.Fraction(1, 2))
    return -T.ffloor(T.Fraction(1, 2) - x)


def clock(S, h, m, s):
    """microseconds of the time of day h:m:s, or None when it does not exist"""
    if not (S.inrange(h, 0, 24) and S.inrange(m, 0, 59)):
        return None
    if not S.ask(T.ge(s)) or not S.ask(T.ge(K(60) - s)):
        return None
    if S.ask(T.eq(h - 24)) and not (S.ask(T.eq(m)) and not S.ask(T.gt(s))):
        return None
    return (h * 60 + m) * (60 * 10 ** 6) + usecs(S, s)


def day(S, y, m, d, lo, hi):
    """day number (from 2000-01-01) of the astronomical date, or None when there is no such date in the range"""
    if not (S.inrange(m, 1, 12) and S.ask(T.ge(d - 1)) and S.ask(T.ge(K(31) - d))):
        return None
    if not S.inrange(y, -4713, 5874898):
        return None
    if not S.ask(T.ge(C.DIM(S.norm(y), S.norm(m)) - d)):
        return None
    j = C.J(S.norm(y), S.norm(m), d) - EPOCH
    return j if S.inrange(j, lo, hi) else None


def run(P, c):
    J = Judge(P, c)
    y, m, d = (V(n, *I32) for n in ("y", "m", "d"))
    h, mi = V("h", *I32), V("mi", *I32)
    s = T.var("s", isint=False)
    b = J.need("date::Date::try_from_ymd")
    if b:
        def spec(S, st):
            if S.ask(T.eq(y)):
                return ERR
            r = day(S, y if S.ask(T.ge(y)) else y + 1, m, d, DATE_MIN, DATE_END - 1)
            return ERR if r is None else ok(date_(r))
        J.judge("real dates", "Date::try_from_ymd", b, lambda I: Input(I, b).int("y").int("m").int("d").state(), spec, panics=True)
    b1 = J.need("timestamp::Timestamp::try_from_ymd_hms")

    def inp(I, sp=None):
        return Input(I, b1).int("y").int("m").int("d").int("h").int("mi").float("s", sp).state()
    if b1:
        def spec(S, st):
            if not S.ask(T.ge(y - 1)):
                return ERR
            r = day(S, y, m, d, DATE_MIN, DATE_END - 1)
            if r is None:
                return ERR
            t = clock(S, h, mi, s)
            if t is None:
                return ERR
            r = r * USECS_DAY + t
            return ok(date_(r)) if S.inrange(r, MIN_TS, END_TS - 1) else ERR
        J.judge("real moments", "Timestamp::try_from_ymd_hms", b1, inp, spec, panics=True)
        for sp in SPECIAL:
            J.judge("seconds", "Timestamp::try_from_ymd_hms with %s" % sp, b1, lambda I: inp(I, sp), lambda S, st: ERR, panics=True)
    b2 = J.need("time::Time::try_from_hms")

    def inp2(I, sp=None):
        return Input(I, b2).int("h").int("mi").float("s", sp).state()
    if b2:
        def spec(S, st):
            t = clock(S, h, mi, s)
            return ERR if t is None else ok(date_(t))
        J.judge("real times", "Time::try_from_hms", b2, inp2, spec, panics=True)
        for sp in SPECIAL:
            J.judge("seconds", "Time::try_from_hms with %s" % sp, b2, lambda I: inp2(I, sp), lambda S, st: ERR, panics=True)
    b3 = J.need("interval::Interval::try_from_ymwd_hms")
    if b3:
        for sp in SPECIAL:
            J.judge("seconds", "Interval::try_from_ymwd_hms with %s" % sp, b3,
                    lambda I: Input(I, b3).int("y").int("m").int("w").int("d").int("h").int("mi").float("s", sp).state(),
                    lambda S, st: ERR, panics=True)
    c.floor("constructors decided", sum(1 for o in c.obligations), 12)
