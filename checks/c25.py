"""C25: timestamp plus interval."""
from common import *

TECHNIQUE = "value analysis of MIR: normal forms of the result compared with month/day/time addition, per partition"
NOTE = ("decides, for every finite timestamp (date) and every interval, time, date and timestamp operand, the exact result and the "
        "error condition; date2julian/julian2date/days_of_month are taken at their contract")
ASSUMPTIONS = ["date2julian, julian2date and days_of_month compute the proleptic Gregorian calendar (decided by C27)"]


def shift(S, t, v):
    """documented result of adding the interval components v to the moment t, or ERR"""
    if not S.ask(T.eq(v["month"])):
        j = T.fquo(t, USECS_DAY) + EPOCH
        tod = t - T.fquo(t, USECS_DAY) * USECS_DAY
        y, m, d = S.civil(j)
        if not S.inrange(m + v["month"], *I32):
            return ERR
        k = m - 1 + v["month"]
        ny = y + T.fquo(k, 12)
        nm = k - T.fquo(k, 12) * 12 + 1
        d = S.min(d, C.DIM(S.norm(ny), S.norm(nm)))
        t = (C.J(S.norm(ny), S.norm(nm), d) - EPOCH) * USECS_DAY + tod
        if not S.inrange(t, MIN_TS, END_TS - 1):
            return ERR
    if not S.ask(T.eq(v["day"])):
        t = t + v["day"] * USECS_DAY
        if not S.inrange(t, MIN_TS, END_TS - 1):
            return ERR
    t = t + v["time"]
    if not S.inrange(t, MIN_TS, END_TS - 1):
        return ERR
    return ok(date_(t))


def negated(S, v):
    if not (S.ask(T.ge(v["month"] - (I32[0] + 1))) and S.ask(T.ge(v["day"] - (I32[0] + 1))) and
            S.ask(T.ge(v["time"] - (I64[0] + 1)))):
        return None
    return {k: -x for k, x in v.items()}


def midnight(S, d):
    m = d * USECS_DAY
    return m if S.inrange(m, MIN_TS, END_TS - 1) else None


def run(P, c):
    J = Judge(P, c)
    b = J.need("timestamp::Timestamp::add_interval")
    if b:
        J.judge("exact", "add_interval", b, lambda I: Input(I, b).ts("t").interval("v").state(),
                lambda S, st: shift(S, tsvar("t"), ivar("v")), panics=True)
    b1 = J.need("timestamp::Timestamp::sub_interval")
    if b1:
        def spec(S, st):
            v = negated(S, ivar("v"))
            return ERR if v is None else shift(S, tsvar("t"), v)
        J.judge("exact", "sub_interval", b1, lambda I: Input(I, b1).ts("t").interval("v").state(), spec, panics=True)
    for fn, sg in (("add_time", 1), ("sub_time", -1)):
        b2 = J.need("timestamp::Timestamp::" + fn)
        if b2:
            def spec(S, st):
                t = tsvar("t") + tvar("u") * sg
                return ok(date_(t)) if S.inrange(t, MIN_TS, END_TS - 1) else ERR
            J.judge("exact", fn, b2, lambda I: Input(I, b2).ts("t").time("u").state(), spec, panics=True)
    for fn, sg in (("add_interval", 1), ("sub_interval", -1)):
        b3 = J.need("date::Date::" + fn)
        if b3:
            def spec(S, st):
                t = midnight(S, dvar("d"))
                if t is None:
                    return ERR
                v = ivar("v") if sg > 0 else negated(S, ivar("v"))
                return ERR if v is None else shift(S, t, v)
            J.judge("exact", "Date::" + fn, b3, lambda I: Input(I, b3).date("d").interval("v").state(), spec, panics=True)

    def split(S, d):
        if not S.inrange(d, *I64):
            return ERR
        q = S.tdiv(d, USECS_DAY)
        return ok(iv_(d - q * USECS_DAY, q, ZERO))
    b4 = J.need("timestamp::Timestamp::sub_timestamp")
    if b4:
        J.judge("difference", "sub_timestamp", b4, lambda I: Input(I, b4).ts("a").ts("b").state(),
                lambda S, st: split(S, tsvar("a") - tsvar("b")), panics=True)
    b5 = J.need("timestamp::Timestamp::sub_date")
    if b5:
        def spec(S, st):
            m = midnight(S, dvar("d"))
            return ERR if m is None else split(S, tsvar("a") - m)
        J.judge("difference", "sub_date", b5, lambda I: Input(I, b5).ts("a").date("d").state(), spec, panics=True)
    c.floor("timestamp operations decided", sum(1 for o in c.obligations), 8)
