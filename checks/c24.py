"""C24: age."""
from common import *

TECHNIQUE = "value analysis of MIR: normal forms of the components compared with the borrow rule, per partition of signs and borrows"
NOTE = ("decides, for all pairs of finite timestamps, the exact months, days and time of the age; "
        "days_of_month and the calendar conversion are taken at their contract")
ASSUMPTIONS = ["date2julian, julian2date and days_of_month compute the proleptic Gregorian calendar (decided by C27)"]


def parts(S, t):
    y, m, d = S.civil(T.fquo(t, USECS_DAY) + EPOCH)
    return y, m, d, t - T.fquo(t, USECS_DAY) * USECS_DAY


def run(P, c):
    J = Judge(P, c)
    b = J.need("timestamp::Timestamp::age")

    def spec(S, st):
        a, b = tsvar("a"), tsvar("b")
        neg = not S.ask(T.ge(a - b))
        l, e = (b, a) if neg else (a, b)
        ly, lm, ld, lt = parts(S, l)
        ey, em, ed, et = parts(S, e)
        months, days, time = (ly - ey) * 12 + (lm - em), ld - ed, lt - et
        if not S.ask(T.ge(time)):
            time, days = time + USECS_DAY, days - 1
        if not S.ask(T.ge(days)):
            days, months = days + C.DIM(ey, em), months - 1
        k = -1 if neg else 1
        return ok(iv_(time * k, days * k, months * k))
    if b:
        J.judge("borrows", "age", b, lambda I: Input(I, b).ts("a").ts("b").state(), spec, panics=True)
    c.floor("age decided", sum(1 for o in c.obligations), 1)
