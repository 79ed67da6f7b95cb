"""C29: scaling an interval."""
from scaling import *

TECHNIQUE = "value analysis of MIR over exact numbers: normal forms of the scaled components compared with the documented cascade, per partition"
NOTE = ("decides, for every interval and every finite factor, the exact scaled components when every floating-point operation is taken as exact; "
        "the error of floating-point rounding itself is not decided")
ASSUMPTIONS = ["floating-point operations on finite values are exact; constants are rounded to their format"]


def run(P, c):
    J = Judge(P, c, max_paths=60000, max_steps=20000000)
    J.I.rounded_casts = False           # floats as exact reals, see ASSUMPTIONS
    for f in ("mul_f64", "div_f64"):
        b = J.need("interval::Interval::" + f)
        if not b:
            continue

        def spec(S, st):
            r = J.I.force(S.st, S.st.ret)
            if vname(J.I, r) != "Ok":
                return ERR
            m, d, t = cascade(S, ivar("v"), T.var("f", isint=False), f == "div_f64")
            return ok(iv_(t, d, m))
        J.judge("cascade", f, b, lambda I: Input(I, b).interval("v").float("f").state(), spec, panics=True)

        def small(I):
            i = Input(I, b).interval("v")
            v, x = ivar("v"), T.var("f", isint=False)
            i.float("f")
            for n, lim in (("month", 2 ** 30), ("day", 2 ** 30), ("time", 2 ** 62)):
                p = T.mul(v[n], x) if f == "mul_f64" else T.app("fdiv", v[n], x, isint=False)
                i.assume(T.ge(p + lim)).assume(T.ge(K(lim) - p))
            return i.state()

        def isok(st):
            return vname(J.I, J.I.force(st, st.ret)) == "Ok" or (f == "div_f64" and st.facts.decide(T.eq(T.var("f", isint=False))) is True)
        J.judge("no spurious error", f, b, small, lambda S, st: True, got=isok)
    c.floor("functions decided", sum(1 for o in c.obligations), 4)
