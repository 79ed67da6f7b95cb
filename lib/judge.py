"""Compares the abstract results of an entry point with a specification written over the same
normal forms, partition by partition."""
import os, random, signal, time
from fractions import Fraction
from math import floor, ceil
import terms as T
import domain as D
import calendar_fn as C
import interp
import report
import models
from interp import *
from terms import K, A, Lin, INF, ZERO, ONE


class Dead(Exception):
    pass


class Ops:
    """arithmetic helpers shared by specifications and summaries; ask decides or splits"""

    def inrange(self, l, lo, hi):
        return self.ask(T.ge(l - lo)) and self.ask(T.ge(K(hi) - l))

    def tdiv(self, n, d):
        """truncated quotient"""
        return T.fquo(n, d) if self.ask(T.ge(n)) else T.fquo(n + (d - 1), d)

    def civil(self, j):
        return C.split(self.st.facts, self.st.facts.norm(j))

    def min(self, a, b):
        return a if self.ask(T.ge(b - a)) else b

    def norm(self, l):
        return self.st.facts.norm(l)


class Spec(Ops):
    """decision oracle handed to a specification"""

    def __init__(self, st, prefix, alts):
        self.st = st
        self.prefix = prefix
        self.n = 0
        self.taken = []
        self.alts = alts

    def ask(self, c):
        if c is True or c is False:
            return c
        if c[0] == "and":
            return self.ask(c[1]) and self.ask(c[2])
        if c[0] == "or":
            return self.ask(c[1]) or self.ask(c[2])
        d = self.st.facts.decide(c)
        if d is not None:
            return d
        if self.n < len(self.prefix):
            v = self.prefix[self.n]
        else:
            v = True
            self.alts.append(tuple(self.taken) + (False,))
        self.n += 1
        self.taken.append(v)
        r = self.st.assume(c if v else T.neg(c))
        if not r:
            raise Dead()
        return v


ERR = ("err",)


def ok(v):
    return ("var", "Ok", [v])


def some(v):
    return ("var", "Some", [v])


NONE = ("var", "None", [])


class Rec(dict):
    """expected struct, by field name (or position)"""


class OneOf:
    """several documented outcomes, any of which is right"""

    def __init__(self, wants):
        self.wants = wants


class Text:
    """expected text: pieces are bytes, ('zp', value, width), ('frac', value, digits) or byte normal forms"""

    def __init__(self, *pieces):
        self.pieces = pieces


T.FUN["abs"] = abs


def absn(facts, l):
    d = facts.decide(T.ge(l))
    if d is True:
        return l
    if facts.decide(T.ge(-l)) is True:
        return -l
    return T.app("abs", l, lo=0)


def tokens(facts, pieces):
    """canonical token list of a text: byte normal forms where the width is known"""
    out = []
    for p in pieces:
        if isinstance(p, (bytes, bytearray)):
            out += [K(b) for b in p]
        elif isinstance(p, str):
            out += [K(b) for b in p.encode()]
        elif isinstance(p, Lin):
            out.append(p)
        elif p[0] == "zp":
            v, w = facts.norm(K(p[1]) if isinstance(p[1], int) else p[1]), p[2]
            lo, hi = facts.bounds(v)
            if lo == hi:
                out += [K(ord(ch)) for ch in models.zeropad(int(lo), w)]
                continue
            if lo >= 0 and hi != INF:
                a, b = models.digits_len(lo, hi, w)
                if a == b:
                    for k in range(a - 1, -1, -1):
                        out.append(T.fquo(v, 10 ** k) - T.fquo(v, 10 ** (k + 1)).scale(10) + 48)
                    # the leading digit of a number below 10^a has no higher quotient
                    out[-a] = T.fquo(v, 10 ** (a - 1)) + 48
                    continue
            if hi < 0 and lo != -INF:
                a, b = models.digits_len(lo, hi, w)
                if a == b:
                    out += [K(45)] + tokens(facts, [("zp", -v, a - 1)])
                    continue
            out.append(("zp", v, w))
        elif p[0] == "sec":
            s, fs, prec, fill = p[1:]
            out += tokens(facts, [("zp", absn(facts, s), 2 if fill else 1), ("frac", fs, prec)])
        elif p[0] == "frac":
            fs = facts.norm(p[1])
            if fs.isconst():
                t = models.seconds(0, fs.c, p[2], False)[1:]
                out += [K(ord(ch)) for ch in t]
            else:
                out.append(("frac", absn(facts, fs), p[2]))
        else:
            out.append(p)
    return out


def render(toks, env):
    s = []
    for t in toks:
        if isinstance(t, Lin):
            s.append(chr(int(T.ev(t, env))))
        elif t[0] == "zp":
            s.append(models.zeropad(int(T.ev(t[1], env)), t[2]))
        elif t[0] == "frac":
            s.append(models.seconds(0, int(T.ev(t[1], env)), t[2], False)[1:])
        else:
            raise T.NoValue("text")
    return "".join(s)


def text_of(I, st, v):
    """pieces of a text value, or None when its layout is not determined"""
    try:
        r = models.sref(I, st, v)
        val = I.getp(st, r.cell, r.path)
    except Undecided:
        return None
    f = st.facts
    if isinstance(val, (Arr, CMem)) or (isinstance(val, Buf) and not val.log):
        c = models.content(Call(I, st, None, None, None, None, None), r)
        return c
    if not isinstance(val, Buf):
        return None
    cur = r.off if r.off is not None else ZERO
    end = cur + r.len
    out = []
    log = [(w[1], w[1] + 1, w[2]) if w[0] == "b" else (w[1], w[3], w[2]) for w in val.log]
    # the usual case: every write starts where the one before it ended
    if log and log[0][0] == cur and all(log[i][1] == log[i + 1][0] for i in range(len(log) - 1)) and \
            (log[-1][1] == end or f.equal(log[-1][1], end) is True):
        for a, b, p in log:
            try:
                out.append(I.force(st, p) if not isinstance(p, tuple) else p)
            except Undecided:
                return None
            if isinstance(out[-1], tuple) and out[-1][0] not in ("zp", "sec"):
                return None
        return out
    for _ in range(400):
        if f.equal(cur, end) is True:
            return out
        hit = None
        for i in range(len(log) - 1, -1, -1):
            if f.equal(log[i][0], cur) is True:
                hit = i
                break
        if hit is None:
            if f.equal(cur, end) is False and val.base == "zero" and f.decide(T.gt(end - cur)) is True and \
                    all(f.decide(T.gt(a - cur)) is True or f.decide(T.ge(cur - b)) is True for a, b, _ in log):
                out.append(K(0))
                cur = cur + 1
                continue
            return None
        a, b, p = log[hit]
        for a2, b2, _ in log[hit + 1:]:
            if f.decide(T.ge(a2 - b)) is not True and f.decide(T.ge(a - b2)) is not True:
                return None
        if f.decide(T.ge(end - b)) is not True:
            return None
        try:
            out.append(I.force(st, p) if not isinstance(p, tuple) else p)
        except Undecided:
            return None
        if isinstance(out[-1], tuple) and out[-1][0] not in ("zp", "sec"):
            return None
        cur = b
    return None


def cmp_text(I, st, got, want, out):
    w = tokens(st.facts, want.pieces)
    g = text_of(I, st, got)
    if g is None:
        out.append((w, repr(got)[:200], None, None))
        return
    g = tokens(st.facts, g)
    e = len(g) == len(w)
    if e:
        for x, y in zip(g, w):
            if isinstance(x, Lin) and isinstance(y, Lin):
                if st.facts.equal(x, y) is not True:
                    e = False
            elif isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] and x[2] == y[2]:
                if st.facts.equal(x[1], y[1]) is not True:
                    e = False
            else:
                e = False
    if e:
        out.append((w, g, True, None))
    else:
        out.append((w, g, None, ("text", g, w)))


def tok_atoms(toks):
    s = set()
    for t in toks:
        s |= T.atoms_of(t if isinstance(t, Lin) else t[1])
    return s


def vname(I, v):
    t = I.types[v.ty]
    return t["variants"][v.v]["name"]


def compare(I, st, got, want, out):
    """append (expected, got, verdict, diff) for the leaves; verdict True/False/None"""
    if want is None:
        return
    if isinstance(want, OneOf):
        alts = []
        for w in want.wants:
            o = []
            compare(I, st, got, w, o)
            if all(x[2] is True for x in o):
                return
            alts.append(o)
        known = all(any(x[2] is not None or x[3] is not None for x in o) for o in alts)
        out.append((" or ".join(str(next(x[0] for x in o if x[2] is not True)) for o in alts),
                    next(x[1] for x in alts[0] if x[2] is not True), False if known else None,
                    ("oneof", alts, None) if known else None))
        return
    if isinstance(want, Text):
        cmp_text(I, st, got, want, out)
        return
    try:
        got = I.force(st, got)
    except Undecided as e:
        out.append(("?", repr(got), None, None))
        return
    if isinstance(want, tuple) and want and want[0] in ("err", "var"):
        name = "Err" if want[0] == "err" else want[1]
        if isinstance(got, SymE):
            # resolve when the facts pin the discriminant
            t = I.types[got.ty]
            d = I.pin(st, got.d)
            if d.isconst():
                for i, v in enumerate(t["variants"]):
                    if I.sdiscr(t, v) == d.c:
                        got = Agg(got.ty, i, [Opaque(ft, "%s.%s.%d" % (got.tag, i, j), got.kind)
                                              for j, (_, ft) in enumerate(v["fields"])])
        if not isinstance(got, Agg) or got.ty is None:
            out.append((name, repr(got), None, None))
            return
        n = vname(I, got)
        if n != name:
            out.append((name, n if n == "Err" else "%s(%s)" % (n, ", ".join(map(repr, got.f))), False, None))
            return
        if want[0] == "var":
            for g, w in zip(got.f, want[2]):
                compare(I, st, g, w, out)
        return
    if isinstance(want, Rec):
        if not isinstance(got, Agg):
            out.append((repr(want), repr(got), None, None))
            return
        if got.ty is not None and I.types[got.ty]["k"] == "adt":
            names = [n for n, _ in I.types[got.ty]["variants"][0]["fields"]]
        else:
            names = list(range(len(got.f)))
        for k, w in want.items():
            if k not in names:
                if isinstance(k, int) and k < len(got.f):
                    compare(I, st, got.f[k], w, out)
                    continue
                out.append((k, "no such field", None, None))
                continue
            compare(I, st, got.f[names.index(k)], w, out)
        return
    if isinstance(want, str):
        # float special
        if isinstance(got, FV):
            out.append((want, repr(got), got.sp == want, None))
        else:
            out.append((want, repr(got), None, None))
        return
    if isinstance(want, (bool, tuple)):
        if not isinstance(got, (bool, tuple)):
            out.append((repr(want), repr(got), None, None))
            return
        dg, dw = st.facts.decide(got), st.facts.decide(want)
        if dg is not None and dw is not None:
            out.append((want, got, dg == dw, None))
        elif got == want:
            out.append((want, got, True, None))
        else:
            out.append((repr(want), repr(got), None, ("bool", got, want)))
        return
    if isinstance(want, (int, Fraction)):
        want = K(want)
    if isinstance(want, Lin):
        if isinstance(got, FV):
            if got.sp:
                out.append((repr(want), repr(got), False, None))
                return
            got = got.l
        if not isinstance(got, Lin):
            out.append((repr(want), repr(got), None, None))
            return
        e = st.facts.equal(got, want)
        out.append((repr(want), repr(got), e, ("lin", got, want)))
        return
    raise ValueError("spec %r" % (want,))


def base_atoms(conds):
    out = set()
    for c in conds:
        for l in T.cond_lins(c):
            out |= T.atoms_of(l)
    return out


def invert(l, target, rnd):
    """assignment {atom: value} making single-atom normal form l equal target, or None"""
    if len(l.t) != 1:
        return None
    a, k = l.t[0]
    v = Fraction(target - l.c) / k
    if a.kind == "in" or a.kind == "byte":
        if a.isint and v.denominator != 1:
            return None
        return {a: v.numerator if v.denominator == 1 else v}
    if v.denominator != 1:
        return None
    if a.kind == "quo":
        d = a.key[1]
        return invert(a.key[0], int(v) * d + rnd.choice([0, d - 1, rnd.randrange(d)]), rnd)
    if a.kind == "Y":
        return invert(a.key[0], C.jd(int(v), rnd.randint(1, 12), rnd.randint(1, 28)), rnd)
    return None


def pick(rnd, lo, hi, hints, isint):
    lo2 = -10 ** 19 if lo == -INF else lo
    hi2 = 10 ** 19 if hi == INF else hi
    r = rnd.random()
    if r < 0.25:
        v = rnd.choice([lo2, hi2, lo2 + 1, hi2 - 1])
    elif r < 0.4 and hints:
        v = rnd.choice(hints) + rnd.choice([-1, 0, 0, 1])
    elif r < 0.65:
        v = rnd.choice([0, 1, -1, 2, 7, 12, 30, 365, 1000]) + rnd.randint(-3, 3)
    elif r < 0.85:
        v = int(rnd.choice([-1, 1]) * 10 ** rnd.uniform(0, 19))
    else:
        v = rnd.randint(int(floor(lo2)), int(floor(hi2))) if hi2 > lo2 else lo2
    v = min(max(v, lo2), hi2)
    if isint:
        v = int(floor(v))
    elif rnd.random() < 0.4:
        v = Fraction(v) + Fraction(rnd.randint(0, 999), 1000)
        v = min(max(v, lo2), hi2)
    return v


def nudge(rnd, a, v, env, quos):
    """v moved to where one of the quotients that a counts in changes its value"""
    num, d, k = rnd.choice(quos)
    try:
        e = dict(env)
        e[a] = v
        n = T.ev(num, e)
        if n != int(n):
            return v
        delta = rnd.choice([0, 0, d - 1, d - 1, 1, d // 2]) - int(n) % d
        return v + delta // k if delta % k == 0 else v
    except (T.NoValue, ZeroDivisionError, OverflowError, KeyError):
        return v


def witness(st, conds, final, tries=150, seed=7):
    """a valuation of the inputs satisfying the facts, conds and final(env); None when none was found.
    Only normal forms are evaluated."""
    rnd = random.Random(seed)
    allc = list(st.path) + list(conds)
    if any(T.cond_imp(c) for c in allc):
        return None
    atoms = base_atoms(allc)
    extra = getattr(final, "atoms", set())
    atoms |= extra
    base = [a for a in atoms if a.kind in ("in", "byte")]
    if any(a.kind == "unk" for a in atoms):
        return None
    hints = []
    for c in allc:
        for l in T.cond_lins(c):
            if isinstance(l.c, int):
                hints.append(-l.c)
            elif isinstance(l.c, Fraction):
                hints.append(floor(-l.c))
    cal = [a for a in atoms if a.kind in ("Y", "M", "J0", "dim") and not a.imp]
    days = {a.key[0] for a in cal if a.kind in ("Y", "M")}
    quos = {}
    for q in sorted((a for a in atoms if a.kind == "quo"), key=lambda a: a.id):
        for a, k in q.key[0].t:
            if a.kind in ("in", "byte") and a.isint and isinstance(k, int):
                quos.setdefault(a, []).append((q.key[0], q.key[1], k))
    t0 = time.time()
    for n in range(tries):
        if time.time() - t0 > WITNESS_S:
            return None
        f = st.facts.copy()
        env = {}
        bad = False
        for j in days:
            if rnd.random() < 0.8:
                y0, y1 = f.ivl(atom_of("Y", j)) if atom_of("Y", j) else (-4713, 294276)
                y0 = -4713 if y0 == -INF else y0
                y1 = 294276 if y1 == INF else y1
                if y0 > y1:
                    bad = True
                    break
                m0, m1 = f.ivl(atom_of("M", j)) if atom_of("M", j) else (1, 12)
                y = rnd.choice([y0, y1, rnd.randint(y0, y1), min(max(rnd.choice([-100, -99, -1, 0, 1, 2, 4, 5, 10, 11, 99, 100, 101,
                                1000, 1001, 1600, 1900, 1999, 2000, 2001, 2004, 2023, 2024]), y0), y1)])
                m0, m1 = int(m0), int(m1)
                m = min(max(rnd.choice([1, 2, 3, 12, rnd.randint(1, 12)]), m0), m1)
                d = rnd.choice([1, C.dim(y, m), rnd.randint(1, C.dim(y, m))])
                r = invert(j, C.jd(y, m, d), rnd)
                if r:
                    for a, v in r.items():
                        if a not in env and a.kind == "in":
                            lo, hi = f.ivl(a)
                            if lo <= v <= hi:
                                env[a] = v
                                f.add(T.eq(A(a) - v))
                                if f.dead:
                                    bad = True
        order = base[:]
        rnd.shuffle(order)
        for a in order:
            if bad:
                break
            if a in env:
                continue
            lo, hi = f.bounds(A(a))
            if lo > hi:
                bad = True
                break
            v = pick(rnd, lo, hi, hints, a.isint)
            if a in quos and rnd.random() < 0.5:
                v = nudge(rnd, a, v, env, quos[a])
                v = v if lo <= v <= hi else min(max(v, lo), hi)
            env[a] = v
            if lo != hi:
                f.add(T.eq(A(a) - v))
                if f.dead:
                    bad = True
        if bad:
            continue
        try:
            e = dict(env)
            if all(T.evc(c, e) for c in allc) and final(e):
                return env
        except (T.NoValue, ZeroDivisionError, OverflowError, KeyError):
            continue
    return None


USD = 86400000000
_YEARS = [-4713, -4712, -401, -400, -101, -100, -99, -1, 0, 1, 2, 4, 5, 10, 11, 99, 100, 101, 1000, 1001, 1600, 1900, 1999, 2000,
          2001, 2004, 2016, 2023, 2024, 294276]


class Sample(dict):
    """a valuation of the inputs, drawn input by input on demand; values of derived atoms are cached"""

    def __init__(self, n, facts):
        dict.__init__(self)
        self.rnd = random.Random(n * 7919 + 13)
        self.facts = facts
        self.seen = []

    def __contains__(self, a):
        if dict.__contains__(self, a):
            return True
        if a.kind not in ("in", "byte"):
            return False
        lo, hi = self.facts.ivl(a)
        v = self.draw(a, lo, hi)
        self[a] = min(max(v, lo), hi)
        self.seen.append((a, lo, hi))
        return True

    def moment(self, day):
        r = self.rnd
        y = r.choice(_YEARS) if r.random() < 0.6 else r.randint(-4713, 5874897 if day and r.random() < 0.3 else 294276)
        m = r.choice([1, 2, 3, 11, 12, r.randint(1, 12)])
        return C.jd(y, m, r.choice([1, C.dim(y, m), r.randint(1, C.dim(y, m))])) - 2451545

    def tod(self):
        r = self.rnd
        x = r.random()
        if x < 0.3:
            return r.choice([0, 1, USD - 1, 999999, 1000000, 59999999, 60000000, 3599999999, 3600000000])
        if x < 0.7:
            return r.randrange(24) * 3600000000 + r.choice([0, r.randrange(60)]) * 60000000 + r.choice([0, r.randrange(60)]) * 1000000 \
                + r.choice([0, 0, 500000, r.randrange(1000000)])
        return r.randrange(USD)

    def draw(self, a, lo, hi):
        r = self.rnd
        if a.isint and hi - lo > 10 ** 17:      # microseconds
            x = r.random()
            if self.seen and x < 0.35:
                b, l2, h2 = r.choice(self.seen)
                if l2 == lo and h2 == hi:
                    return self[b] + r.choice([-1, 0, 1]) * r.choice([0, 1, 10 ** 6, 6 * 10 ** 7, 36 * 10 ** 8, USD, 28 * USD, 31 * USD,
                                                                     365 * USD, r.randrange(400) * USD]) + r.choice([0, r.randint(-10 ** 7, 10 ** 7)])
            if x < 0.75:
                return self.moment(False) * USD + self.tod()
            if x < 0.9:
                return r.choice([-1, 1]) * (r.choice([0, 0, 1, 2, 29, 30, 31, 365, r.randrange(10 ** 5)]) * USD + self.tod())
        elif a.isint and hi - lo > 2 * 10 ** 9:
            x = r.random()
            if x < 0.3:
                return r.randint(-40, 40)
            if x < 0.5:
                return self.moment(True)
            if x < 0.6:
                return r.randint(-400, 400) * r.choice([1, 12, 30])
        elif a.isint and lo == 0 and 0 < hi <= USD:
            return self.tod()
        elif not a.isint and r.random() < 0.7:
            x = r.random()
            if x < 0.25:
                return r.choice([-1, 1]) + r.choice([-1, 1]) * Fraction(10) ** r.randint(-12, -1)
            if x < 0.5:
                return Fraction(r.choice([-1, 1]) * r.randint(1, 40), r.choice([1, 2, 3, 4, 7, 10]))
            return r.choice([-1, 1]) * Fraction(r.randint(1, 30)) * Fraction(10) ** r.randint(-12, 12)
        return pick(r, lo, hi, (), a.isint)


POOL = 12000


class Pool:
    """samples made when first needed"""

    def __init__(self, facts):
        self.facts = facts
        self.made = []

    def __iter__(self):
        if not self.made:
            self.made = [Sample(n, self.facts) for n in range(POOL)]
        return iter(self.made)



def sampled(pool, st, final, conds=()):
    """a valuation from the pool that follows this path and satisfies final, or None"""
    allc = list(st.path) + list(conds)
    if any(T.cond_imp(c) for c in allc):
        return None
    atoms = base_atoms(allc) | getattr(final, "atoms", set())
    if any(a.kind == "unk" for a in atoms):
        return None
    ins = sorted((a for a in atoms if a.kind in ("in", "byte")), key=lambda a: a.id)
    allc.reverse()
    for e in pool:
        try:
            for c in allc:
                if not T.evc(c, e):
                    break
            else:
                if final(e):
                    return {a: e[a] for a in ins if a in e}
        except (T.NoValue, ZeroDivisionError, OverflowError, KeyError):
            continue
    return None


def atom_of(kind, *args):
    return T._tab.get((kind,) + args)


def show_env(env):
    return ", ".join("%s=%s" % (a, v) for a, v in sorted(env.items(), key=lambda x: x[0].id))


WITNESS_S = 4           # seconds one propagating search for an example may take
OBLIGATION_S = 150      # seconds one obligation may take


class OutOfTime(BaseException):
    pass


class limit:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def late(*a):
            raise OutOfTime()
        self.old = signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


class Judge:
    def __init__(self, P, c, sums=True, **kw):
        self.P, self.c = P, c
        self.sums = sums
        self.kw = kw
        self.reset()

    def reset(self):
        self.I = interp.Interp(self.P, **self.kw)
        self.I.models = dict(models.CALENDAR)
        self.I.models.update(models.WRITERS)
        if self.sums:
            self.I.models.update(summaries.verified(self.P, self.I.models, None if self.sums is True else self.sums))

    def find(self, *names):
        """body of the function with this definition name (suffix match)"""
        for n in names:
            for b in self.P.insts:
                if b and "blocks" in b and b["local"] and (b["name"] == n or b["name"] == "pgdatetime::" + n):
                    return b
        return None

    def need(self, *names):
        b = self.find(*names)
        if b is None:
            self.c.bad("anchor", names[0], "function not found: the rule no longer sees what it decides")
        return b

    def judge(self, rule, subject, body, mk, spec, got=None, panics=False):
        """mk(I) -> initial state(s); spec(S, st) -> expected; got(st) -> value to compare (default: result)

        An obligation the analysis cannot finish (time, or a construct it does not handle) is undecided."""
        bad = self.c.unlisted()
        if bad:
            self.c.tbad = getattr(self.c, "tbad", time.time())
            if bad >= 12 or time.time() - self.c.tbad > 90:
                self.c.undecided(rule, subject, "not examined: violations were found already")
                return None
        left = report.DEADLINE - (time.time() - self.c.t0)
        if left <= 1:
            self.c.undecided(rule, subject, "out of time")
            return None
        try:
            with limit(min(left, OBLIGATION_S)):
                return self._judge(rule, subject, body, mk, spec, got, panics)
        except OutOfTime:
            self.c.undecided(rule, subject, "out of time")
        except Exception as e:      # the analysis has no answer: never an alarm
            if os.environ.get("PGV_RAISE"):
                raise
            self.c.undecided(rule, subject, "not handled: %s: %s" % (type(e).__name__, str(e)[:200]))
        return None

    def _judge(self, rule, subject, body, mk, spec, got=None, panics=False):
        I = self.I
        try:
            sts = mk(I)
        except Undecided as e:
            self.c.undecided(rule, subject, str(e))
            return None
        if isinstance(sts, State):
            sts = [sts]
        verdict = True
        why = None
        npaths = 0
        later = []
        for st0 in sts:
            self.pool = Pool(st0.facts)
            for st in I.run(st0):
                if st.status[0] == "panic":
                    if panics is True or panics and panics(st):
                        w = sampled(self.pool, st, lambda e: True)
                        if w is not None:
                            self.panic(rule, subject, st, w, body)
                            return False
                        later.append((st, None, None))
                    continue
                if st.status[0] == "lost":
                    if verdict:
                        verdict, why = None, st.status[1]
                    continue
                npaths += 1
                g = got(st) if got else st.ret
                alts = [()]
                while alts:
                    S = Spec(st.copy(), alts.pop(), alts)
                    try:
                        want = spec(S, S.st)
                    except Dead:
                        continue
                    except Undecided as e:
                        verdict, why = (None, str(e)) if verdict else (verdict, why)
                        continue
                    out = self.compared(S.st, g, want)
                    if any(o[2] is not True for o in out):
                        for exp, gt, v, diff in out:
                            w = self.differ(S.st, v, diff, True) if v is not True else None
                            if w is not None:
                                self.report(rule, subject, gt, exp, w, body)
                                return False
                        later.append((S.st, g, want))
        # the partitions the first pass left open, with everything that is known about them
        for st, g, want in later:
            f = st.facts.refreshed()
            if f.dead:
                continue
            st.facts = f
            if want is None:
                w = witness(st, [], lambda e: True)
                if w is not None:
                    self.panic(rule, subject, st, w, body)
                    return False
                verdict, why = None, "a panic could not be excluded"
                continue
            for exp, gt, v, diff in self.compared(st, g, want):
                if v is True:
                    continue
                w = self.differ(st, v, diff)
                if w is not None:
                    self.report(rule, subject, gt, exp, w, body)
                    return False
                if verdict:
                    verdict, why = None, "cannot compare %s with %s" % (str(gt)[:300], str(exp)[:300])
        if npaths == 0 and verdict is True:
            verdict, why = None, "no completed path"
        if verdict is True:
            self.c.ok(rule, subject)
            self.c.count("partitions", npaths)
        else:
            self.c.undecided(rule, subject, why)
        return verdict

    def compared(self, st, g, want):
        out = []
        try:
            compare(self.I, st, g, want, out)
        except NeedFork:
            out.append(("?", "?", None, None))
        return out

    def panic(self, rule, subject, st, w, body):
        self.c.bad(rule, subject, "panics (%s in %s) for %s" % (st.status[2], st.status[1], show_env(w)),
                   where_of(st), entry=body["name"])

    def report(self, rule, subject, gt, exp, w, body):
        self.c.bad(rule, subject, "result is %s where %s is documented, e.g. for %s"
                   % (short(gt, w), short(exp, w), show_env(w)), entry=body["name"])

    def differ(self, st, v, diff, quick=False):
        find = (lambda fin: sampled(self.pool, st, fin)) if quick else (lambda fin: witness(st, [], fin))
        if diff is None:
            if v is None:
                return None
            return find(lambda e: True)
        fin = unlike(diff)
        return fin and find(fin)


def unlike(diff):
    """predicate on concrete inputs: the two sides of a comparison differ; None when that cannot be evaluated"""
    kind, g, w = diff
    if kind == "oneof":
        alts = []
        for o in g:
            leaves = [(lambda e: True) if x[3] is None else unlike(x[3]) for x in o if x[2] is False or x[3] is not None]
            leaves = [x for x in leaves if x]
            if not leaves:
                return None
            alts.append(leaves)

        def fin(e):
            return all(any(x(e) for x in leaves) for leaves in alts)
        fin.atoms = set().union(*[getattr(x, "atoms", set()) for leaves in alts for x in leaves])
        return fin
    if kind == "lin":
        if g.imp() or w.imp():
            return None

        def fin(e):
            return T.ev(g, e) != T.ev(w, e)
        fin.atoms = T.atoms_of(g) | T.atoms_of(w)
        return fin
    if kind == "text":
        if any((t if isinstance(t, Lin) else t[1]).imp() for t in g + w):
            return None

        def fin(e):
            return render(g, e) != render(w, e)
        fin.atoms = tok_atoms(g) | tok_atoms(w)
        return fin
    if T.cond_imp(g) or T.cond_imp(w):
        return None

    def fin(e):
        return T.evc(g, e) != T.evc(w, e)
    fin.atoms = base_atoms([g, w])
    return fin


def where_of(st):
    l = st.status[3] if len(st.status) > 3 else None
    return "src/%s:%s" % (l[1], l[0]) if l else None


def short(x, env):
    if isinstance(x, list):
        try:
            return repr(render(x, dict(env)))
        except (T.NoValue, ValueError):
            pass
    s = str(x)
    return s if len(s) < 160 else s[:157] + "..."


import summaries
