"""C20: scaling an interval by a floating-point number."""
from scaling import *

TECHNIQUE = ("value analysis of MIR: on every feasible path to a success no conversion saturates, no operation wraps and nothing is derived "
             "from NaN; no component of a success is out of its width in the exact cascade")
NOTE = ("decides, for every interval and every factor (finite, infinite, NaN), that a success contains no saturated, wrapped or NaN-derived "
        "component and nothing that is not representable, and that division by zero, NaN and infinite products are errors; floating-point numbers are "
        "treated as exact reals")
ASSUMPTIONS = ["floating-point operations on finite values are exact; constants are rounded to their format"]
LOSSY = ("satcast", "wrapcast", "wrapop", "satop")


def run(P, c):
    J = Judge(P, c, max_paths=60000, max_steps=20000000)
    J.I.rounded_casts = False           # floats as exact reals, see ASSUMPTIONS
    for f in ("mul_f64", "div_f64"):
        b = J.need("interval::Interval::" + f)
        if not b:
            continue

        def is_ok(st):
            r = J.I.force(st, st.ret)
            return vname(J.I, r) == "Ok"

        def lossy(st):
            return bool(is_ok(st) and any(e[0] in LOSSY for e in st.events))
        def parts(st):
            """[conversions that lost the value, months, days] of a success"""
            if not is_ok(st):
                return K(0)
            iv = J.I.force(st, J.I.force(st, st.ret).f[0])
            n = names(J.I, iv.ty)
            return Agg(None, 0, [K(sum(e[0] in LOSSY for e in st.events)), iv.f[n.index("month")], iv.f[n.index("day")], iv.f[n.index("time")]])

        def spec(S, st):
            if not is_ok(S.st):
                return K(0)
            m, d, t = cascade(S, ivar("v"), T.var("f", isint=False), f == "div_f64")
            # a success although a component is not representable
            got = parts(S.st).f
            out = {0: K(0)}
            for i, x, w in ((1, m, I32), (2, d, I32), (3, t, I64)):
                out[i] = got[i] if S.st.facts.equal(got[i], x) is True or S.inrange(x, *w) else x
            return Rec(out)
        J.judge("no lossy conversion", f, b, lambda I: Input(I, b).interval("v").float("f").state(), spec, got=parts,
                panics=True)
        for sp in ("nan",) + (("inf", "-inf") if f == "mul_f64" else ()):
            J.judge("not a number is rejected", "%s by %s" % (f, sp), b, lambda I: Input(I, b).interval("v").float("f", sp).state(),
                    lambda S, st: ERR, panics=True)
        if f == "div_f64":
            for sp in ("inf", "-inf"):
                J.judge("no lossy conversion", "%s by %s" % (f, sp), b, lambda I: Input(I, b).interval("v").float("f", sp).state(),
                        lambda S, st: False, got=lossy, panics=True)

            def zero(I):
                i = Input(I, b).interval("v")
                i.add(FV(ZERO))
                return i.state()
            J.judge("division by zero", f, b, zero, lambda S, st: ERR, panics=True)
    c.floor("functions and factors decided", sum(1 for o in c.obligations), 8)
