"""C18: time-of-day arithmetic."""
from common import *

TECHNIQUE = "value analysis of MIR: normal forms of the result compared with arithmetic modulo 24 hours, per partition"
NOTE = ("decides, for every time of day, every interval and every finite timestamp, that the result of the time-of-day operations is the "
        "exact one (reduced modulo 24 hours by the floor for the wrapping operations), and that no integer operation on the way overflows")


def tod(S, l):
    return l - T.fquo(l, USECS_DAY) * USECS_DAY


def run(P, c):
    J = Judge(P, c)
    for fn, sg in (("add_interval", 1), ("sub_interval", -1)):
        b = J.need("time::Time::" + fn)
        if b:
            J.judge("wraps", fn, b, lambda I: Input(I, b).time("t").interval("v").state(),
                    lambda S, st: date_(tod(S, tvar("t") + ivar("v")["time"] * sg)), panics=True)
    b = J.need("<pgdatetime::time::Time as std::convert::From<pgdatetime::interval::Interval>>::from")
    if b:
        J.judge("wraps", "interval to time", b, lambda I: Input(I, b).interval("v").state(),
                lambda S, st: date_(tod(S, ivar("v")["time"])), panics=True)
    b1 = J.need("time::Time::sub_time")
    if b1:
        J.judge("difference", "sub_time", b1, lambda I: Input(I, b1).time("t").time("u").state(),
                lambda S, st: iv_(tvar("t") - tvar("u"), ZERO, ZERO), panics=True)
    b2 = J.need("time::<impl std::convert::TryFrom<pgdatetime::timestamp::Timestamp> for std::option::Option<pgdatetime::time::Time>>::try_from",
                "pgdatetime::time::<impl std::convert::TryFrom<pgdatetime::timestamp::Timestamp> for std::option::Option<pgdatetime::time::Time>>::try_from")
    if b2:
        J.judge("time of day", "timestamp to time", b2, lambda I: Input(I, b2).ts("t").state(),
                lambda S, st: ok(some(date_(tod(S, tsvar("t"))))), panics=True)
        for k in ("inf", "-inf"):
            J.judge("time of day", "timestamp %s to time" % k, b2, lambda I: Input(I, b2).ts("t", k).state(),
                    lambda S, st: ok(NONE), panics=True)
    b3 = J.need("<pgdatetime::interval::Interval as std::convert::From<pgdatetime::time::Time>>::from")
    if b3:
        J.judge("time of day", "time to interval", b3, lambda I: Input(I, b3).time("t").state(),
                lambda S, st: iv_(tvar("t"), ZERO, ZERO), panics=True)
    c.floor("time operations decided", sum(1 for o in c.obligations), 8)
