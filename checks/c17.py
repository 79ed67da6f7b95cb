"""C17: justifying intervals."""
from common import *

TECHNIQUE = "value analysis of MIR: normal forms of the result compared with the unique like-signed decomposition, per partition"
NOTE = ("decides, for every interval whose carries fit their components, the exact result: the only one with the same total length, the "
        "bounds |time| < 24 h and |days| < 30, and one sign; carries that do not fit wrap (documented in the code) and are out of scope")


def trunc2(S, hi, lo, n, sign):
    """carry lo into hi in steps of n so that both are of one sign; quotients are written from the truncated one"""
    q = S.tdiv(lo, n)
    r = lo - q * n
    up = S.ask(T.ge(lo))
    if up and not sign:
        q = q if S.ask(T.eq(r)) else q + 1
    elif sign and not up:
        q = q if S.ask(T.eq(r)) else q - 1
    return S.norm(hi + q), S.norm(lo - q * n)


def sign_of(S, hi, lo, n):
    """is hi*n + lo >= 0 (> 0 when lo is negative)"""
    if S.ask(T.ge(lo)):
        return S.ask(T.ge(hi + T.fquo(lo, n)))
    return S.ask(T.ge(hi + T.fquo(lo + (n - 1), n) - 1))


def run(P, c):
    J = Judge(P, c)

    def fits(S, l):
        return S.inrange(l, *I32)

    def hours(S, st):
        v = ivar("v")
        if not fits(S, v["day"] + S.tdiv(v["time"], USECS_DAY)):
            return None
        d, t = trunc2(S, v["day"], v["time"], USECS_DAY, sign_of(S, v["day"], v["time"], USECS_DAY))
        return iv_(t, d, v["month"])

    def days(S, st):
        v = ivar("v")
        if not fits(S, v["month"] + S.tdiv(v["day"], 30)):
            return None
        m, d = trunc2(S, v["month"], v["day"], 30, sign_of(S, v["month"], v["day"], 30))
        return iv_(v["time"], d, m)

    def whole(S, st):
        v = ivar("v")
        q = v["day"] + S.tdiv(v["time"], USECS_DAY)
        if not fits(S, q) or not fits(S, v["month"] + S.tdiv(S.norm(q), 30)):
            return None
        k = S.tdiv(S.norm(q), 30)
        hi, lo = v["month"] + k, q - k * 30
        up, down = S.ask(T.ge(v["time"])), S.ask(T.ge(q))
        if up == down:
            sg = S.ask(T.ge(hi)) if up else S.ask(T.ge(hi - 1))
        elif up:
            sg = S.ask(T.ge(hi - 1)) or (S.ask(T.eq(hi)) and S.ask(T.eq(lo)))
        else:
            sg = not (S.ask(T.ge(-hi - 1)) or (S.ask(T.eq(hi)) and S.ask(T.eq(lo))))
        d, t = trunc2(S, v["day"], v["time"], USECS_DAY, sg)
        m, d = trunc2(S, v["month"], d, 30, sg)
        return iv_(t, d, m)
    for fn, spec in (("justify_hours", hours), ("justify_days", days), ("justify_interval", whole)):
        b = J.need("interval::Interval::" + fn)
        if b:
            J.judge("normal form", fn, b, lambda I: Input(I, b).interval("v").state(), spec, panics=True)
    c.floor("justify operations decided", sum(1 for o in c.obligations), 3)
