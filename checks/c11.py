"""C11: ordering, equality and hashing."""
from common import *

TECHNIQUE = "value analysis of MIR of the comparison and hash implementations, instantiated by type-checked witnesses"
NOTE = ("decides, for every pair of values of each type, ==, !=, <, <=, >, >=, cmp, partial_cmp, max and min against the "
        "order of the raw integer (which puts the infinities first and last) or, for intervals, of the exact total, and "
        "that equal values write the same words to any hasher; the operators are analysed as instantiated by a witness "
        "module that is only type-checked")
ASSUMPTIONS = ["a hasher's result depends only on the sequence of words written to it"]

MONTH = 30 * USECS_DAY


def total(n):
    a = ivar(n)
    return a["time"] + a["day"].scale(USECS_DAY) + a["month"].scale(MONTH)


RAW = {"date": I32, "time": I64, "timestamp": I64}


def key(m, n):
    return total(n) if m == "interval" else V("raw %s %s" % (m, n), *RAW[m])


def add(i, m, n):
    if m == "interval":
        return i.interval(n)
    return i.newtype(V("raw %s %s" % (m, n), *RAW[m]))


def run(P, c):
    J = Judge(P, c)
    J.I.rounded_casts = True
    n = 0
    for m in ("date", "time", "timestamp", "interval"):
        for fn in ("eq", "ne", "lt", "le", "gt", "ge", "cmp", "partial_cmp", "max", "min", "hash2"):
            b = J.find("pgdatetime::pgv_witness::%s::%s" % (m, fn))
            name = "%s %s" % (m, fn)
            if b is None:
                c.undecided("operator", name, "no witness", "the witness module does not type-check against this tree")
                continue
            n += 1

            def spec(S, st, m=m, fn=fn):
                x, y = key(m, "a"), key(m, "b")
                if fn in ("eq", "ne", "lt", "le", "gt", "ge"):
                    d = y - x
                    if fn in ("lt", "ge"):
                        return S.ask(T.ge(d - 1)) == (fn == "lt")
                    if fn in ("gt", "le"):
                        return S.ask(T.ge(-d - 1)) == (fn == "gt")
                    return (S.ask(T.ge(d)) and S.ask(T.ge(-d))) == (fn == "eq")
                if fn in ("cmp", "partial_cmp"):
                    r = "Less" if S.ask(T.ge(y - x - 1)) else "Equal" if S.ask(T.ge(y - x)) else "Greater"
                    r = ("var", r, [])
                    return some(r) if fn == "partial_cmp" else r
                if m == "interval":
                    if fn == "max":
                        w = "a" if S.ask(T.ge(x - y - 1)) else "b" if S.ask(T.ge(y - x - 1)) else None
                    else:
                        w = "a" if S.ask(T.ge(y - x - 1)) else "b" if S.ask(T.ge(x - y - 1)) else None
                    if w is None:
                        return None  # equal: either one
                    return Rec(ivar(w))
                return date_(x if S.ask(T.ge((x - y) if fn == "max" else (y - x))) else y)

            if fn == "hash2":
                def mk(I, b=b, m=m):
                    i = add(add(Input(I, b), m, "a"), m, "b")
                    d = key(m, "a") - key(m, "b")
                    i.assume(T.eq(d))
                    return i.state()

                def got(st):
                    return Agg(None, 0, words(J.I, st))

                def spec(S, st):
                    return Rec({k: ZERO for k in range(len(words(J.I, st)))})
                J.judge("operator", name, b, mk, spec, got=got, panics=True)
                continue

            def mk(I, b=b, m=m):
                return add(add(Input(I, b), m, "a"), m, "b").state()
            J.judge("operator", name, b, mk, spec, panics=True)
    c.floor("operators decided", n, 0)


def words(I, st):
    """how far the two words hashed at each position differ, counting the lengths as a word"""
    xs = [I.force(st, f) for f in I.force(st, st.ret).f]
    cnt = [st.facts.norm(I.force(st, x.f[0])) for x in xs]
    if not (cnt[0].isconst() and cnt[1].isconst()):
        raise Undecided("number of words hashed")
    out = [cnt[0] - cnt[1]]
    for i in range(int(min(cnt[0].c, cnt[1].c))):
        w = []
        for x in xs:
            arr = I.force(st, x.f[1])
            if not isinstance(arr, Arr):
                raise Undecided("words " + type(arr).__name__)
            w.append(I.force(st, arr.e[i]))
        out.append(w[0] - w[1])
    return out
