"""C15: extracting fields."""
from common import *
from c14 import UNITS, units

TECHNIQUE = "value analysis of MIR: normal forms of the extracted field compared with its definition, per partition"
NOTE = ("decides, for every finite timestamp and date, every interval whose hours fit 32 bits, every time of day, every unit and field "
        "type, the exact field or the error condition; quotients of floating-point numbers are compared as real numbers (one rounding "
        "is not modelled). ISO week and ISO year are C28")
ASSUMPTIONS = ["date2julian, julian2date and days_of_month compute the proleptic Gregorian calendar (decided by C27)",
               "floating-point products and quotients are compared as real numbers"]


def Q(n, d):
    return n.scale(T.Fraction(1, d))


def sub_day(t, u):
    """field of the time within the day"""
    s = t - T.fquo(t, 6 * 10 ** 7) * (6 * 10 ** 7)
    if u == "MicroSec":
        return s
    if u == "MilliSec":
        return Q(s, 1000)
    if u == "Second":
        return Q(s, 10 ** 6)
    if u == "Minute":
        return T.fquo(t, 6 * 10 ** 7) - T.fquo(t, 36 * 10 ** 8) * 60
    if u == "Hour":
        return T.fquo(t, 36 * 10 ** 8)
    return None


def field(S, t, u):
    """documented field of a moment, or None"""
    q = T.fquo(t, USECS_DAY)
    j = q + EPOCH
    r = sub_day(t - q * USECS_DAY, u)
    if r is not None:
        return r
    if u == "JULIAN":
        return j + Q(t - q * USECS_DAY, USECS_DAY)
    if u in ("Dow", "IsoDow"):
        k = j + 1 - T.fquo(j + 1, 7) * 7        # 0 is Sunday
        if u == "IsoDow" and S.ask(T.eq(k)):
            return K(7)
        return k
    if u not in ("Day", "Month", "Quarter", "Year", "Decade", "Century", "Millennium", "Doy"):
        return None
    y, m, d = S.civil(j)
    if u == "Day":
        return d
    if u == "Month":
        return m
    if u == "Quarter":
        return T.fquo(m - 1, 3) + 1
    if u == "Doy":
        return j - C.J(S.norm(y), K(1), K(1)) + 1
    if u == "Decade":
        return T.fquo(y, 10)
    ad = S.ask(T.ge(y - 1))
    if u == "Year":
        return y if ad else y - 1
    n = 100 if u == "Century" else 1000
    return T.fquo(y - 1, n) + (1 if ad else 0)


def run(P, c):
    J = Judge(P, c)
    J.I.rounded_casts = False           # floats as exact reals, see ASSUMPTIONS
    fs = {"timestamp": J.need(dt("timestamp", "Timestamp", "date_part")), "date": J.need(dt("date", "Date", "date_part")),
          "time": J.need(dt("time", "Time", "date_part")), "interval": J.need(dt("interval", "Interval", "date_part"))}

    def inp(kind, I, b):
        i = Input(I, b)
        return {"timestamp": lambda: i.ts("t"), "date": lambda: i.date("d"), "time": lambda: i.time("u"),
                "interval": lambda: i.interval("v")}[kind]()

    for u in sorted(units(J.I) | set(UNITS)):
        def moment(S, st):
            r = field(S, tsvar("t"), u)
            return ERR if r is None else ok(r)

        def day(S, st):
            t = dvar("d") * USECS_DAY
            if not S.inrange(t, MIN_TS, END_TS - 1):
                return ERR
            r = field(S, t, u)
            return ERR if r is None else ok(r)

        def tod(S, st):
            r = sub_day(tvar("u"), u)
            return ERR if r is None else ok(r)

        def span(S, st):
            v = ivar("v")
            t = v["time"]
            if not S.inrange(S.tdiv(t, 36 * 10 ** 8), *I32):
                return None
            q = S.tdiv(t, 6 * 10 ** 7)
            s = t - q * (6 * 10 ** 7)
            h = S.tdiv(t, 36 * 10 ** 8)
            y = S.tdiv(v["month"], 12)
            m = v["month"] - y * 12
            n = {"Decade": 10, "Century": 100, "Millennium": 1000}.get(u)
            if n:
                return ok(S.tdiv(v["month"], 12 * n))
            if u == "Quarter":
                return ok(S.tdiv(m, 3) + 1)
            r = {"MicroSec": s, "MilliSec": Q(s, 1000), "Second": Q(s, 10 ** 6), "Minute": q - h * 60, "Hour": h, "Day": v["day"],
                 "Month": m, "Year": y}.get(u)
            return ERR if r is None else ok(r)
        for kind, spec in (("timestamp", moment), ("date", day), ("time", tod), ("interval", span)):
            b = fs[kind]
            if b and not (u in ("Week", "IsoYear") and kind in ("timestamp", "date")):
                J.judge("field", "%s of %s" % (u, kind), b, lambda I: inp(kind, I, b).enum("Unit").enum(u).state(), spec, panics=True)

    def epoch(kind):
        def spec(S, st):
            if kind == "time":
                return ok(Q(tvar("u"), 10 ** 6))
            if kind == "interval":
                v = ivar("v")
                y = S.tdiv(v["month"], 12)
                return ok(Q(v["time"], 10 ** 6) + v["day"] * 86400 + (v["month"] - y * 12) * (30 * 86400) + y * (36525 * 864))
            return ERR
        return spec
    for kind, b in fs.items():
        if b:
            J.judge("epoch", kind, b, lambda I: inp(kind, I, b).enum("Epoch").enum("Epoch").state(), epoch(kind), panics=True)
            J.judge("epoch", "no other unit of " + kind, b, lambda I: inp(kind, I, b).enum("Epoch").enum("Day").state(), lambda S, st: ERR, panics=True)
    c.floor("fields decided", sum(1 for o in c.obligations), 96)
