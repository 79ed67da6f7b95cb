"""C05: interval addition, subtraction, negation."""
from common import *

TECHNIQUE = "value analysis of MIR: affine normal forms compared with the specification per partition"
NOTE = ("decides, for every pair of intervals, the exact component results and the overflow condition of try_from add/"
        "sub/negate; trusts rustc's MIR and the standard library's checked arithmetic as interpreted from its MIR")
ASSUMPTIONS = ["core integer arithmetic behaves as its MIR says (checked_add etc. are interpreted, not modelled)"]


def run(P, c):
    J = Judge(P, c)
    ops = [("add_interval", lambda a, b: {k: a[k] + b[k] for k in a}),
           ("sub_interval", lambda a, b: {k: a[k] - b[k] for k in a})]
    for fn, f in ops:
        b = J.need("interval::Interval::" + fn)
        if not b:
            continue

        def spec(S, st):
            r = f(ivar("a"), ivar("b"))
            if not (S.inrange(r["month"], *I32) and S.inrange(r["day"], *I32) and S.inrange(r["time"], *I64)):
                return ERR
            return ok(iv_(r["time"], r["day"], r["month"]))
        J.judge("exact", fn, b, lambda I: Input(I, b).interval("a").interval("b").state(), spec, panics=True)
    b = J.need("interval::Interval::negate")
    if b:
        def spec(S, st):
            a = ivar("a")
            if not (S.ask(T.ge(a["month"] - (I32[0] + 1))) and S.ask(T.ge(a["day"] - (I32[0] + 1))) and
                    S.ask(T.ge(a["time"] - (I64[0] + 1)))):
                return ERR
            return ok(iv_(-a["time"], -a["day"], -a["month"]))
        J.judge("exact", "negate", b, lambda I: Input(I, b).interval("a").state(), spec, panics=True)
    b = J.find("<pgdatetime::interval::Interval as std::ops::Add>::add", "<interval::Interval as std::ops::Add>::add")
    if b:
        def spec(S, st):
            x, y = ivar("a"), ivar("b")
            r = {k: x[k] + y[k] for k in x}
            if not (S.inrange(r["month"], *I32) and S.inrange(r["day"], *I32) and S.inrange(r["time"], *I64)):
                return None
            return iv_(r["time"], r["day"], r["month"])
        J.judge("exact", "operator +", b, lambda I: Input(I, b).interval("a").interval("b").state(), spec)
    c.floor("interval operations decided", sum(1 for o in c.obligations if o[0] == "exact"), 4)
