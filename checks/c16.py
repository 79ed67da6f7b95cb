"""C16: rounding to a precision, interval field restrictions."""
from common import *

TECHNIQUE = "value analysis of MIR: normal forms of the rounded value compared with rounding half away from zero, per partition"
NOTE = ("decides the rounding applied after parsing, for every time, timestamp and interval whose microseconds are at least one second away "
        "from the ends of the 64-bit range, every precision and every combination of interval fields in the type modifier")
ASSUMPTIONS = ["parsed intervals are at least one second away from the ends of the 64-bit microsecond range (32-bit hours, minutes and "
               "seconds cannot reach them)"]
YEAR, MONTH, DAY, HOUR, MINUTE, SECOND = 4, 2, 8, 1024, 2048, 4096
FULL_RANGE, FULL_PREC = 0x7FFF, 0xFFFF
# allowed field sets -> finest field kept
RANGES = {YEAR: "Y", MONTH: "M", YEAR | MONTH: "M", DAY: "D", HOUR: "h", DAY | HOUR: "h", MINUTE: "m", DAY | HOUR | MINUTE: "m",
          HOUR | MINUTE: "m", SECOND: "s", DAY | HOUR | MINUTE | SECOND: "s", HOUR | MINUTE | SECOND: "s", MINUTE | SECOND: "s",
          FULL_RANGE: "s"}
LIM = 2 ** 63 - 1 - 10 ** 6


def rounded(S, v, p):
    n = 10 ** (6 - p)
    h = n // 2
    return T.fquo(v + h, n) * n if S.ask(T.ge(v)) else -(T.fquo(-v + h, n) * n)


def run(P, c):
    J = Judge(P, c)

    def find(name, what):
        b = J.find(name)
        if b is None:
            c.undecided("rounding", what, "no function %s: the rounding is done elsewhere" % name)
        return b
    b = find("time::Time::adjust_by_typmod", "time")
    tv = V("tl", -LIM, LIM)
    if b:
        for p in range(0, 7):
            J.judge("rounding", "time to %d digits" % p, b, lambda I: Input(I, b).newtype(tv).const(p).state(),
                    lambda S, st: date_(rounded(S, tv, p)), panics=True)
        for nm, lo, hi in (("negative", I32[0], -1), ("more than 6", 7, I32[1])):
            J.judge("no effect", "time, %s digits" % nm, b, lambda I: Input(I, b).newtype(tv).int("p" + nm, lo, hi).state(),
                    lambda S, st: date_(tv), panics=True)
    b1 = find("timestamp::Timestamp::adjust_by_typmod", "timestamp")
    if b1:
        t = tsvar("t")
        for p in range(0, 6):
            def spec(S, st):
                r = rounded(S, t, p)
                return ok(date_(r)) if S.inrange(r, MIN_TS, END_TS - 1) else ERR
            J.judge("rounding", "timestamp to %d digits" % p, b1, lambda I: Input(I, b1).ts("t").const(p).state(), spec, panics=True)
        for p in (-1, 6):
            J.judge("no effect", "timestamp, %d" % p, b1, lambda I: Input(I, b1).ts("t").const(p).state(), lambda S, st: ok(date_(t)), panics=True)
        for nm, lo, hi in (("below -1", I32[0], -2), ("more than 6", 7, I32[1])):
            J.judge("rejected", "timestamp, %s digits" % nm, b1, lambda I: Input(I, b1).ts("t").int("p" + nm, lo, hi).state(),
                    lambda S, st: ERR, panics=True)
        for kind, val in (("inf", TS_NOEND), ("-inf", TS_NOBEGIN)):
            J.judge("no effect", "timestamp %s" % kind, b1, lambda I: Input(I, b1).ts("t", kind).int("p", 0, 6).state(),
                    lambda S, st: ok(date_(K(val))), panics=True)
    b2 = find("interval::Interval::adjust_by_typmod", "interval")
    if b2:
        time = V("w.time", -LIM, LIM)
        day, mon = V("w.day", *I32), V("w.month", *I32)

        def inp(I, tm):
            i = Input(I, b2)
            ty = i.vty()
            i.add(Agg(ty, 0, [{"time": time, "day": day, "month": mon}[n] for n, _ in struct_by_types(I, ty)]))
            return i.add(tm).state()

        def cut(S, f):
            if f == "Y":
                return ZERO, ZERO, S.tdiv(mon, 12) * 12
            if f == "M":
                return ZERO, ZERO, mon
            if f == "D":
                return ZERO, day, mon
            n = {"h": 36 * 10 ** 8, "m": 6 * 10 ** 7, "s": 1}[f]
            return S.tdiv(time, n) * n, day, mon

        def res(st):
            r = st.ret
            v = vname(J.I, r) if isinstance(r, Agg) else None
            if v == "Err":
                return r
            return Agg(None, 0, [r, st.mem[("arg", 0)]])

        for rg, f in sorted(RANGES.items()):
            for p in list(range(0, 7)) + [FULL_PREC]:
                def spec(S, st):
                    t, d, m = cut(S, f)
                    if p != FULL_PREC:
                        t = rounded(S, S.norm(t), p)
                    return Rec({0: ok(None), 1: iv_(t, d, m)})
                J.judge("fields and rounding", "interval fields %s to %s" % (rg, p), b2, lambda I: inp(I, K(rg * 65536 + p)), spec, got=res, panics=True)
            J.judge("rejected", "interval fields %s, precision out of range" % rg, b2,
                    lambda I: inp(I, V("pw", 7, FULL_PREC - 1) + rg * 65536), lambda S, st: ERR, got=res, panics=True)
        # any other set of fields
        last = -1
        for rg in sorted(RANGES) + [32768]:
            if rg - 1 >= last + 1:
                lo, hi = last + 1, rg - 1
                J.judge("rejected", "interval fields %d to %d" % (lo, hi), b2,
                        lambda I: inp(I, V("rw%d" % lo, lo, hi) * 65536 + V("pf", 0, FULL_PREC)), lambda S, st: ERR, got=res, panics=True)
            last = rg
        J.judge("no effect", "interval, negative modifier", b2, lambda I: inp(I, V("neg", I32[0], -1)),
                lambda S, st: Rec({0: ok(None), 1: iv_(time, day, mon)}), got=res, panics=True)
    c.floor("roundings decided", sum(1 for o in c.obligations), 3)
