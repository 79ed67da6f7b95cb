"""C04: results are in the supported range."""
from ops import *

TECHNIQUE = "value analysis of MIR: interval bounds of every successfully returned date and timestamp, per partition"
NOTE = ("decides, for all valid operands and all component arguments, that a successful result of every public operation returning a date or "
        "timestamp (other than parsing) lies in the supported range, and is an infinity only when an operand is")
ASSUMPTIONS = ["date2julian and julian2date compute the proleptic Gregorian calendar (decided by C27)",
               "floating-point operations on finite values are exact"]
RANGE = {"pgdatetime::date::Date": (DATE_MIN, DATE_END - 1), "pgdatetime::timestamp::Timestamp": (MIN_TS, END_TS - 1)}
INFS = {"pgdatetime::date::Date": (DT_NOBEGIN, DT_NOEND), "pgdatetime::timestamp::Timestamp": (TS_NOBEGIN, TS_NOEND)}


def result_type(I, body):
    """name of T when the function returns Result<T, _>"""
    t = I.types[body["locals"][0]]
    if t["k"] != "adt" or not t["name"].endswith("Result"):
        return None
    ok_ = next((v for v in t["variants"] if v["name"] == "Ok"), None)
    if not ok_ or not ok_["fields"]:
        return None
    f = I.types[ok_["fields"][0][1]]
    return f["name"] if f["k"] == "adt" else None


def run(P, c):
    J = Judge(P, c, max_paths=60000, max_steps=20000000)
    n = 0
    for fn, args in table():
        b = J.need(fn)
        if not b:
            continue
        ty = result_type(J.I, b)
        if ty not in RANGE:
            continue
        n += 1
        for v in variants(args):
            infinite = any(k in ("inf", "-inf") and bl in ("date", "ts") for bl, k in v)

            def spec(S, st):
                r = J.I.force(S.st, S.st.ret)
                if vname(J.I, r) != "Ok":
                    return ERR
                x = J.I.force(S.st, J.I.force(S.st, r.f[0]).f[0])
                if S.inrange(x, *RANGE[ty]):
                    return None
                if infinite and any(S.ask(T.eq(x - k)) for k in INFS[ty]):
                    return None
                return ERR
            J.judge("in range", "%s %s" % (fn, label(v)), b, lambda I: build(I, b, v), spec)
    c.count("functions", n)
    c.floor("operations decided", sum(1 for o in c.obligations), 100)
    c.floor("functions returning a date or timestamp", n, 15)
