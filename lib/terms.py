"""Normal forms for the value analysis: affine combinations over hash-consed atoms.

An atom is an unknown input, a floor quotient, a named function of normal forms, a product, or an
unknown produced by abstraction (`unk`).  Two program values with the same normal form are equal
for every input."""
from fractions import Fraction
from math import gcd, floor, ceil

_tab = {}
_atoms = []
INF = float("inf")


class Atom:
    __slots__ = ("id", "kind", "key", "isint", "lo", "hi", "imp", "deps")

    def __repr__(self):
        k = self.kind
        if k in ("in", "unk"):
            return ("" if k == "in" else "?") + str(self.key[0])
        if k == "quo":
            return "fl(%r / %s)" % (self.key[0], self.key[1])
        return "%s(%s)" % (k, ", ".join(map(repr, self.key)))


def atom(kind, key, isint=True, lo=-INF, hi=INF, imp=False):
    kk = (kind,) + tuple(key)
    a = _tab.get(kk)
    if a is None:
        a = Atom()
        a.id = len(_atoms)
        a.kind, a.key, a.isint, a.lo, a.hi = kind, tuple(key), isint, lo, hi
        a.imp = imp or any(isinstance(x, Lin) and x.imp() for x in key)
        _atoms.append(a)
        _tab[kk] = a
    return a


def _num(x):
    if type(x) is Fraction and x.denominator == 1:
        return x.numerator
    return x


def _merge(s, o):
    """sum of two sorted sparse vectors"""
    if not s:
        return o
    out = []
    i = j = 0
    n, m = len(s), len(o)
    while i < n and j < m:
        p, q = s[i], o[j]
        if p[0] is q[0]:
            k = p[1] + q[1]
            if k != 0:
                out.append((p[0], _num(k)))
            i += 1
            j += 1
        elif p[0].id < q[0].id:
            out.append(p)
            i += 1
        else:
            out.append(q)
            j += 1
    out.extend(s[i:])
    out.extend(o[j:])
    return tuple(out)


class Lin:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, tuple((a.id, k) for a, k in self.t)))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def isconst(self):
        return not self.t

    def __add__(self, o):
        if not isinstance(o, Lin):
            return Lin(_num(self.c + o), self.t)
        if not o.t:
            return Lin(_num(self.c + o.c), self.t)
        return Lin(_num(self.c + o.c), _merge(self.t, o.t))

    def __radd__(self, o):
        return self + o

    def __sub__(self, o):
        if not isinstance(o, Lin):
            return Lin(_num(self.c - o), self.t)
        return self + o.scale(-1)

    def __rsub__(self, o):
        return self.scale(-1) + o

    def __neg__(self):
        return self.scale(-1)

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        if k == -1:
            return Lin(-self.c, tuple([(a, -c) for a, c in self.t]))
        return Lin(_num(self.c * k), tuple([(a, _num(c * k)) for a, c in self.t]))

    def __mul__(self, k):
        if isinstance(k, Lin):
            return mul(self, k)
        return self.scale(k)

    __rmul__ = __mul__

    def imp(self):
        for a, _ in self.t:
            if a.imp:
                return True
        return False

    def isint(self):
        if type(self.c) is not int:
            return False
        for a, k in self.t:
            if not a.isint or type(k) is not int:
                return False
        return True

    def intatoms(self):
        return all(a.isint for a, _ in self.t)

    def __repr__(self):
        s = []
        for a, k in self.t:
            s.append(("%r" % a) if k == 1 else "%s*%r" % (k, a))
        if self.c or not s:
            s.append(str(self.c))
        return " + ".join(s)


def mk(c, d):
    return Lin(_num(c), tuple(sorted(((a, _num(k)) for a, k in d.items() if k != 0), key=lambda x: x[0].id)))


ZERO = Lin(0)
ONE = Lin(1)


def K(n):
    return Lin(n)


def A(a):
    return Lin(0, ((a, 1),))


def var(name, lo=-INF, hi=INF, isint=True):
    a = atom("in", (name,), isint, lo, hi)
    if (a.lo, a.hi) != (lo, hi):
        raise ValueError("input %s declared with two ranges" % name)
    return A(a)


_unk = [0]


def unk(tag, lo=-INF, hi=INF, isint=True):
    _unk[0] += 1
    return A(atom("unk", ("%s#%d" % (tag, _unk[0]),), isint, lo, hi, True))


def app(f, *args, lo=-INF, hi=INF, isint=True):
    return A(atom(f, args, isint, lo, hi))


def den(l):
    d = 1
    for x in [l.c] + [k for _, k in l.t]:
        if isinstance(x, Fraction):
            d = d * x.denominator // gcd(d, x.denominator)
    return d


def fquo(n, d):
    """floor(n/d), d > 0 integer"""
    m = den(n)
    if m != 1:
        return fquo(n.scale(m), d * m)
    if not n.intatoms():
        if not n.t:
            return K(floor(Fraction(n.c) / d))
        return A(atom("floor", (n.scale(Fraction(1, d)),)))
    if d == 1:
        return n
    out = {}
    rest = {}
    for a, k in n.t:
        r = k % d
        if r * 2 > d:
            r -= d
        q = (k - r) // d
        if q:
            out[a] = q
        if r:
            rest[a] = r
    if not rest:
        return mk(n.c // d, out)
    o = mk(0, out)
    r = mk(n.c, rest)
    g = d
    for _, k in r.t:
        g = gcd(g, k)
    if g > 1:
        return o + fquo(Lin(r.c // g, tuple((a, k // g) for a, k in r.t)), d // g)
    if r.t[0][1] < 0:
        return o - fquo(K(d - 1) - r, d)
    q = r.c // d
    r = Lin(r.c - q * d, r.t)
    o = o + q
    if len(r.t) == 1 and r.t[0][1] == 1 and r.t[0][0].kind == "quo":
        a = r.t[0][0]
        return o + fquo(a.key[0] + a.key[1] * r.c, a.key[1] * d)
    return o + A(atom("quo", (r, d)))


def ffloor(x):
    """floor of a real normal form"""
    return fquo(x, 1)


def mul(a, b):
    if not a.t:
        return b.scale(a.c)
    if not b.t:
        return a.scale(b.c)
    if a.c == 0 and len(a.t) == 1 and a.t[0][1] != 1:
        return mul(A(a.t[0][0]), b).scale(a.t[0][1])
    if b.c == 0 and len(b.t) == 1 and b.t[0][1] != 1:
        return mul(a, A(b.t[0][0])).scale(b.t[0][1])
    # distribute small sums so that products have one normal form
    if len(a.t) + (a.c != 0) > 1 and (len(a.t) + 1) * (len(b.t) + 1) <= 24:
        r = b.scale(a.c) if a.c else ZERO
        for x, k in a.t:
            r = r + mul(A(x), b).scale(k)
        return r
    if len(b.t) + (b.c != 0) > 1 and (len(a.t) + 1) * (len(b.t) + 1) <= 24:
        return mul(b, a)
    x, y = (a, b) if (repr(a) <= repr(b)) else (b, a)
    return A(atom("mul", (x, y), x.intatoms() and y.intatoms() and den(x) == 1 and den(y) == 1))


# ---- conditions ----------------------------------------------------------------------------

def ge(l):
    """l >= 0 over integers (or reals when an atom is real)"""
    if not l.t:
        return l.c >= 0
    if not l.intatoms():
        return ("gef", l)
    m = den(l)
    if m != 1:
        l = l.scale(m)
    g = 0
    for _, k in l.t:
        g = gcd(g, k)
    if g > 1:
        l = Lin(l.c // g, tuple((a, k // g) for a, k in l.t))
    return ("ge", l)


def gt(l):
    if not l.t:
        return l.c > 0
    if not l.intatoms():
        return ("gtf", l)
    m = den(l)
    if m != 1:
        l = l.scale(m)
    return ge(l - 1)


def eq(l):
    if not l.t:
        return l.c == 0
    if not l.intatoms():
        return ("eqf", l)
    m = den(l)
    if m != 1:
        l = l.scale(m)
    g = 0
    for _, k in l.t:
        g = gcd(g, k)
    if g > 1:
        if l.c % g:
            return False
        l = Lin(l.c // g, tuple((a, k // g) for a, k in l.t))
    if l.t[0][1] < 0:
        l = -l
    return ("eq", l)


def neg(c):
    if c is True or c is False:
        return not c
    k = c[0]
    if k == "ge":
        return ge(-c[1] - 1)
    if k == "eq":
        return ("ne", c[1])
    if k == "ne":
        return ("eq", c[1])
    if k == "gef":
        return ("gtf", -c[1])
    if k == "gtf":
        return ("gef", -c[1])
    if k == "eqf":
        return ("nef", c[1])
    if k == "nef":
        return ("eqf", c[1])
    if k == "and":
        return cor(neg(c[1]), neg(c[2]))
    if k == "or":
        return cand(neg(c[1]), neg(c[2]))
    raise ValueError(c)


def ne(l):
    return neg(eq(l))


def cand(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return ("and", a, b)


def cor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return ("or", a, b)


def allof(*cs):
    r = True
    for c in cs:
        r = cand(r, c)
    return r


def anyof(*cs):
    r = False
    for c in cs:
        r = cor(r, c)
    return r


def cond_lins(c):
    if c is True or c is False:
        return []
    if c[0] in ("and", "or"):
        return cond_lins(c[1]) + cond_lins(c[2])
    return [c[1]]


def cond_imp(c):
    return any(l.imp() for l in cond_lins(c))


# ---- evaluation of normal forms under a valuation (used only to tell two different normal forms
# ---- apart; never runs the program) ----------------------------------------------------------

class NoValue(Exception):
    pass


FUN = {}


def atoms_of(l, out=None):
    out = set() if out is None else out
    for a, _ in l.t:
        if a not in out:
            out.add(a)
            for x in a.key:
                if isinstance(x, Lin):
                    atoms_of(x, out)
    return out


def ev_atom(a, env):
    if a in env:
        return env[a]
    k = a.kind
    if k in ("in", "unk"):
        raise NoValue(repr(a))
    if k == "quo":
        v = ev(a.key[0], env) // a.key[1]
    elif k == "floor":
        v = floor(ev(a.key[0], env))
    elif k == "mul":
        v = ev(a.key[0], env) * ev(a.key[1], env)
    elif k == "fdiv":
        d = ev(a.key[1], env)
        if d == 0:
            raise NoValue("division by zero")
        v = Fraction(ev(a.key[0], env)) / Fraction(d)
    elif k in FUN:
        v = FUN[k](*[ev(x, env) if isinstance(x, Lin) else x for x in a.key])
        if v is None:
            raise NoValue(k)
    else:
        raise NoValue(k)
    env[a] = v
    return v


def ev(l, env):
    r = l.c
    for a, k in l.t:
        r = r + k * ev_atom(a, env)
    return r


def evc(c, env):
    if c is True or c is False:
        return c
    k = c[0]
    if k == "and":
        return evc(c[1], env) and evc(c[2], env)
    if k == "or":
        return evc(c[1], env) or evc(c[2], env)
    v = ev(c[1], env)
    if k in ("ge", "gef"):
        return v >= 0
    if k == "gtf":
        return v > 0
    if k in ("eq", "eqf"):
        return v == 0
    return v != 0
