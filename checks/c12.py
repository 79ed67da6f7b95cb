"""C12: infinities."""
from common import *

TECHNIQUE = "value analysis of MIR: every operation evaluated abstractly on the two infinities, other operands symbolic"
NOTE = ("decides, for both infinities and every value of the other operand, the result of every arithmetic, conversion, truncation, "
        "extraction and formatting operation of dates and timestamps")
CYCLIC = ["MicroSec", "MilliSec", "Second", "Minute", "Hour", "Day", "Month", "Quarter", "Week", "Dow", "IsoDow", "Doy"]
ZONE = ["Tz", "TzMinute", "TzHour"]
MONO = ["Year", "Decade", "Century", "Millennium", "JULIAN", "IsoYear", "Epoch"]


def run(P, c):
    J = Judge(P, c)
    I = J.I
    D_, T_ = "date::Date", "timestamp::Timestamp"
    dinf = {"inf": date_(K(DT_NOEND)), "-inf": date_(K(DT_NOBEGIN))}
    tinf = {"inf": date_(K(TS_NOEND)), "-inf": date_(K(TS_NOBEGIN))}
    TRY = "std::convert::TryFrom"

    def each(rule, subject, body, mk, want):
        if not body:
            return
        for k in ("inf", "-inf"):
            w = want(k)
            J.judge(rule, "%s of %s" % (subject, k), body, lambda I: mk(Input(I, body), k).state(), lambda S, st: w, panics=True)

    def unit(i, v):
        i.enum(v)
    # arithmetic leaves them alone
    arith = [(D_ + "::add_days", lambda i, k: i.date("d", k).int("n"), dinf),
             (D_ + "::sub_days", lambda i, k: i.date("d", k).int("n"), dinf),
             (D_ + "::add_interval", lambda i, k: i.date("d", k).interval("v"), tinf),
             (D_ + "::sub_interval", lambda i, k: i.date("d", k).interval("v"), None),
             (D_ + "::add_time", lambda i, k: i.date("d", k).time("u"), tinf),
             (T_ + "::add_interval", lambda i, k: i.ts("t", k).interval("v"), tinf),
             (T_ + "::sub_interval", lambda i, k: i.ts("t", k).interval("v"), None),
             (T_ + "::add_time", lambda i, k: i.ts("t", k).time("u"), tinf),
             (T_ + "::sub_time", lambda i, k: i.ts("t", k).time("u"), tinf)]
    for fn, mk, want in arith:
        b = J.need(fn)
        if not b:
            continue
        if want is not None:
            each("unchanged", fn, b, mk, lambda k: ok(want[k]))
        else:
            # an interval that cannot be negated may be refused
            for k in ("inf", "-inf"):
                def spec(S, st):
                    v = ivar("v")
                    rep = (S.ask(T.ge(v["month"] - (I32[0] + 1))) and S.ask(T.ge(v["day"] - (I32[0] + 1))) and
                           S.ask(T.ge(v["time"] - (I64[0] + 1))))
                    return ok(tinf[k]) if rep else None
                J.judge("unchanged", "%s of %s" % (fn, k), b, lambda I: mk(Input(I, b), k).state(), spec, panics=True)
    # conversions
    each("conversion", "date to timestamp", J.need("<pgdatetime::timestamp::Timestamp as %s<pgdatetime::date::Date>>::try_from" % TRY),
         lambda i, k: i.date("d", k), lambda k: ok(tinf[k]))
    each("conversion", "timestamp to date", J.need("<pgdatetime::date::Date as %s<pgdatetime::timestamp::Timestamp>>::try_from" % TRY),
         lambda i, k: i.ts("t", k), lambda k: ok(dinf[k]))
    each("conversion", "timestamp to time", J.need("time::<impl %s<pgdatetime::timestamp::Timestamp> for std::option::Option<pgdatetime::time::Time>>::try_from" % TRY),
         lambda i, k: i.ts("t", k), lambda k: ok(NONE))
    # subtraction with an infinite operand
    for fn, l, r in ((D_ + "::sub_date", "date", "date"), (T_ + "::sub_date", "ts", "date"), (T_ + "::sub_timestamp", "ts", "ts"), (T_ + "::age", "ts", "ts")):
        b = J.need(fn)
        if not b:
            continue
        for a in ("inf", "-inf", "finite"):
            for d in ("inf", "-inf", "finite"):
                if a == d == "finite":
                    continue
                J.judge("difference", "%s of %s and %s" % (fn, a, d), b,
                        lambda I: getattr(getattr(Input(I, b), l)("x", a), r)("y", d).state(), lambda S, st: ERR, panics=True)
    # classification
    for mod, ty, k1 in (("date", "Date", "date"), ("timestamp", "Timestamp", "ts")):
        for f, w in (("is_finite", False),):
            b = J.need(dt(mod, ty, f))
            if not b:
                continue
            each("classification", ty + "::" + f, b, lambda i, k: getattr(i, k1)("x", k), lambda k: w)
            J.judge("classification", ty + "::" + f + " of finite", b, lambda I: getattr(Input(I, b), k1)("x").state(),
                    lambda S, st: not w, panics=True)
    # truncation and extraction
    ut = next((i for i, t in enumerate(I.types) if t and t["k"] == "adt" and t["name"].endswith("DateUnit")), None)
    units = [v["name"] for v in I.types[ut]["variants"]]
    for mod, ty, k1 in (("date", "Date", "date"), ("timestamp", "Timestamp", "ts")):
        bt, bp = J.need(dt(mod, ty, "truncate")), J.need(dt(mod, ty, "date_part"))
        inf = dinf if ty == "Date" else tinf
        for u in units:
            if bt:
                each("truncation", "%s to %s" % (ty, u), bt, lambda i, k: getattr(i, k1)("x", k).enum("Unit").enum(u), lambda k: ok(inf[k]))
            if bp:
                if u in CYCLIC:
                    w = lambda k: ok(ZERO)
                elif u in MONO:
                    w = lambda k: ok(k)
                elif u in ZONE:
                    w = lambda k: None
                else:
                    w = lambda k: ERR
                for ft in ("Unit", "Epoch"):
                    if ft == "Epoch" and u != "Epoch":
                        continue
                    each("extraction", "%s of %s (%s)" % (u, ty, ft), bp, lambda i, k: getattr(i, k1)("x", k).enum(ft).enum(u), w)
    # text
    for mod, ty, k1 in (("date", "Date", "date"), ("timestamp", "Timestamp", "ts")):
        b = J.need("%s::%s::format" % (mod, ty))
        if not b:
            continue
        for sty in ("Postgres", "ISO", "SQL", "German", "XSD"):
            for o in ("YMD", "DMY", "MDY"):
                each("text", "%s in %s/%s" % (ty, sty, o), b, lambda i, k: getattr(i, k1)("x", k).enum(sty).enum(o),
                     lambda k: ok(Text("infinity" if k == "inf" else "-infinity")))
    c.floor("operations on infinities decided", sum(1 for o in c.obligations), 250)
