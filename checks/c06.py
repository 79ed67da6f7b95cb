"""C06: date arithmetic and the date/timestamp conversions."""
from common import *

TECHNIQUE = "value analysis of MIR: affine normal forms compared with the specification per partition"
NOTE = ("decides, for every finite date, timestamp and day count, the exact result and error condition of add_days, sub_days, "
        "sub_date, add_time and both conversions; the day-number functions are taken at their contract (see C27)")
ASSUMPTIONS = ["date2julian/julian2date compute the proleptic Gregorian calendar on the supported range (decided by C27)"]


def run(P, c):
    J = Judge(P, c)

    def day_op(fn, f):
        b = J.need("date::Date::" + fn)
        if not b:
            return

        def spec(S, st):
            r = f(dvar("d"), V("n", *I32))
            return ok(date_(r)) if S.inrange(r, DATE_MIN, DATE_END - 1) else ERR
        J.judge("exact", fn, b, lambda I: Input(I, b).date("d").int("n").state(), spec, panics=True)
    day_op("add_days", lambda d, n: d + n)
    day_op("sub_days", lambda d, n: d - n)
    b = J.need("date::Date::sub_date")
    if b:
        J.judge("exact", "sub_date", b, lambda I: Input(I, b).date("a").date("b").state(),
                lambda S, st: ok(dvar("a") - dvar("b")), panics=True)
    b1 = J.need("<pgdatetime::timestamp::Timestamp as std::convert::TryFrom<pgdatetime::date::Date>>::try_from")
    if b1:
        def spec(S, st):
            r = dvar("d") * USECS_DAY
            return ok(date_(r)) if S.inrange(r, MIN_TS, END_TS - 1) else ERR
        J.judge("conversion", "date to timestamp", b1, lambda I: Input(I, b1).date("d").state(), spec, panics=True)
    b2 = J.need("<pgdatetime::date::Date as std::convert::TryFrom<pgdatetime::timestamp::Timestamp>>::try_from")
    if b2:
        J.judge("conversion", "timestamp to date", b2, lambda I: Input(I, b2).ts("t").state(),
                lambda S, st: ok(date_(T.fquo(tsvar("t"), USECS_DAY))), panics=True)
    b3 = J.need("date::Date::add_time")
    if b3:
        def spec(S, st):
            m = dvar("d") * USECS_DAY
            if not S.inrange(m, MIN_TS, END_TS - 1):
                return ERR
            r = m + tvar("u")
            return ok(date_(r)) if S.inrange(r, MIN_TS, END_TS - 1) else ERR
        J.judge("exact", "add_time", b3, lambda I: Input(I, b3).date("d").time("u").state(), spec, panics=True)
    for nm, ty, v in (("date::<impl std::convert::From<pgdatetime::date::Date> for i32>::from", 0, I32),
                      ("<pgdatetime::date::Date as std::convert::From<i32>>::from", 1, I32),
                      ("timestamp::<impl std::convert::From<pgdatetime::timestamp::Timestamp> for i64>::from", 0, I64),
                      ("<pgdatetime::timestamp::Timestamp as std::convert::From<i64>>::from", 1, I64)):
        b4 = J.find(nm)
        if b4:
            xn = "x32" if v is I32 else "x64"
            x = V(xn, *v)
            J.judge("conversion", nm, b4, lambda I: (Input(I, b4).int(xn) if ty else Input(I, b4).newtype(x)).state(),
                    lambda S, st: date_(x) if ty else x, panics=True)
    c.floor("date operations and conversions decided", sum(1 for o in c.obligations), 6)
