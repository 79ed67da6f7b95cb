"""Abstract state: intervals on atoms and on linear directions, with quotient elimination."""
from fractions import Fraction
from math import gcd, floor, ceil
import terms as T
from terms import INF, Lin, K, A


def prim(l):
    """(g, direction terms) with l - l.c == g * direction; direction has coprime integer coefs and a positive lead"""
    m = 1
    for _, k in l.t:
        if isinstance(k, Fraction):
            m = m * k.denominator // gcd(m, k.denominator)
    g = 0
    ks = []
    for a, k in l.t:
        k = k * m
        k = int(k)
        ks.append((a, k))
        g = gcd(g, k)
    if ks[0][1] < 0:
        g = -g
    f = Fraction(g, m)
    return (f.numerator if f.denominator == 1 else f), tuple((a, k // g) for a, k in ks)


def _mulb(k, lo, hi):
    if k >= 0:
        return (k * lo if lo != -INF else (-INF if k else 0)), (k * hi if hi != INF else (INF if k else 0))
    return (k * hi if hi != INF else -INF), (k * lo if lo != -INF else INF)


def _pm(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


_roots = {}


def roots(a):
    """the inputs an atom is computed from"""
    r = _roots.get(a)
    if r is None:
        if a.kind in ("in", "unk"):
            r = frozenset((a,))
        else:
            r = frozenset().union(*[roots(b) for x in a.key if isinstance(x, Lin) for b, _ in x.t]) or frozenset((a,))
        _roots[a] = r
    return r


ONREFRESH = []  # hooks adding facts that are only worth their cost when a comparison fails
ONPIN = {}      # function name -> hook called when an atom of it is pinned
APPB = {}       # function name -> bounds given argument bounds


class Facts:
    """immutable-by-copy constraint store"""
    __slots__ = ("iv", "dirs", "ne", "cache", "dead", "busy")

    def __init__(self):
        self.iv = {}
        self.dirs = {}
        self.ne = frozenset()
        self.cache = {}
        self.dead = False
        self.busy = set()

    def copy(self):
        f = Facts.__new__(Facts)
        f.iv = dict(self.iv)
        f.dirs = dict(self.dirs)
        f.ne = self.ne
        f.cache = self.cache
        f.dead = self.dead
        f.busy = set()
        return f

    # -- bounds --------------------------------------------------------------------------------
    def ivl(self, a, depth=1):
        lo, hi = self.iv.get(a, (-INF, INF))
        if a.lo > lo:
            lo = a.lo
        if a.hi < hi:
            hi = a.hi
        k = a.kind
        if k in ("in", "unk"):
            return lo, hi
        key = ("a", a)
        c = self.cache.get(key)
        if c is None:
            if key in self.busy:
                return lo, hi
            self.busy.add(key)
            c = (-INF, INF)
            if k == "quo":
                l, h = self.bounds(a.key[0], 1)
                d = a.key[1]
                c = (l // d if l != -INF else l, h // d if h != INF else h)
            elif k == "floor":
                l, h = self.bounds(a.key[0], 1)
                c = (floor(l) if l != -INF else l, floor(h) if h != INF else h)
            elif k == "mul":
                l1, h1 = self.bounds(a.key[0], 1)
                l2, h2 = self.bounds(a.key[1], 1)
                ps = [_pm(l1, l2), _pm(l1, h2), _pm(h1, l2), _pm(h1, h2)]
                c = (min(ps), max(ps))
                if a.key[0] == a.key[1] and c[0] < 0:
                    c = (0, c[1])
            elif k in APPB:
                c = APPB[k](self, *a.key)
            self.busy.discard(key)
            self.cache[key] = c
        return max(lo, c[0]), min(hi, c[1])

    def base(self, l):
        lo = hi = l.c
        ts = l.t
        if len(ts) > 1 and sum(a.kind == "quo" for a, _ in ts) > 1:
            # two quotients of the same expression up to a constant differ by a known amount
            ts = list(ts)
            i = 0
            while i < len(ts):
                a, k = ts[i]
                if a.kind == "quo":
                    for j in range(i + 1, len(ts)):
                        b, k2 = ts[j]
                        if b.kind == "quo" and b.key[1] == a.key[1] and k * k2 < 0:
                            d = a.key[0] - b.key[0]
                            if d.t:
                                continue
                            m = min(abs(k), abs(k2))
                            m = m if k > 0 else -m
                            q = Fraction(d.c) / a.key[1]
                            x, y = _mulb(m, floor(q), ceil(q))
                            lo, hi = lo + x, hi + y
                            ts[i] = a, k = a, k - m
                            ts[j] = b, k2 + m
                            if k == 0:
                                break
                i += 1
            ts = [t for t in ts if t[1] != 0]
        for a, k in ts:
            x, y = self.ivl(a)
            x, y = _mulb(k, x, y)
            lo += x
            hi += y
        return lo, hi

    def bounds(self, l, depth=2):
        if not l.t:
            return l.c, l.c
        key = (l, depth)
        c = self.cache.get(key)
        if c is not None:
            return c
        if key in self.busy:
            return self.base(l)
        self.busy.add(key)
        lo, hi = self.base(l)
        g, p = prim(l)
        d = self.dirs.get(p)
        if d is not None:
            x, y = _mulb(g, d[0], d[1])
            lo, hi = max(lo, x + l.c), min(hi, y + l.c)
        parts = self.groups(l) if depth > 0 and lo < hi and len(l.t) > 1 else None
        if parts:
            # terms over disjoint inputs are bounded one group at a time
            x = y = l.c
            for q in parts:
                b = self.bounds(q, depth)
                x, y = x + b[0], y + b[1]
            lo, hi = max(lo, x), min(hi, y)
        if depth > 0 and lo < hi and len(l.t) <= 10:
            # quotient elimination: d*q = n - r, 0 <= r < d
            for a, k in l.t:
                if a.kind == "quo":
                    n, dd = a.key
                    r = n - A(a).scale(dd)
                    rl, rh = 0, dd - 1
                    if r.t:
                        gg, pp = prim(r)
                        e = self.dirs.get(pp)
                        if e is not None:
                            x, y = _mulb(gg, e[0], e[1])
                            rl, rh = max(rl, x + r.c), min(rh, y + r.c)
                    f = Fraction(k, dd) if isinstance(k, int) else k / dd
                    l2 = l - A(a).scale(k) + n.scale(f)
                    b = self.bounds(l2, depth - 1)
                    x, y = _mulb(-f, rl, rh)
                    lo, hi = max(lo, b[0] + x), min(hi, b[1] + y)
                elif a.kind == "floor":
                    # floor(n) = n - r, 0 <= r < 1
                    b = self.bounds(l - A(a).scale(k) + a.key[0].scale(k), depth - 1)
                    x, y = _mulb(-k, 0, 1)
                    lo, hi = max(lo, b[0] + x), min(hi, b[1] + y)
            qs = [(a, k) for a, k in l.t if a.kind == "quo"]
            if len(qs) > 1:
                # all quotients at once
                l2, x, y = l, 0, 0
                for a, k in qs:
                    n, dd = a.key
                    f = Fraction(k) / dd
                    l2 = l2 - A(a).scale(k) + n.scale(f)
                    u, v = _mulb(-f, 0, dd - 1)
                    x, y = x + u, y + v
                b = self.bounds(l2, depth - 1)
                lo, hi = max(lo, b[0] + x), min(hi, b[1] + y)
            if len(l.t) > 1 or l.t[0][0].kind in ("in", "unk"):
                mine = {a: k for a, k in l.t}
                for p2, (dl, dh) in self.dirs.items():
                    if p2 == p:
                        continue
                    for a, k2 in p2:
                        if a in mine:
                            f = Fraction(mine[a]) / k2
                            l2 = l - Lin(0, p2).scale(f)
                            if len(l2.t) > len(l.t) + 1:
                                continue
                            b = self.bounds(l2, depth if len(l2.t) < len(l.t) else depth - 1) if depth > 1 and len(l2.t) <= len(l.t) else self.base(l2)
                            x, y = _mulb(f, dl, dh)
                            lo, hi = max(lo, b[0] + x), min(hi, b[1] + y)
        if l.intatoms() and T.den(l) == 1:
            # only values congruent to the constant modulo the step are possible
            step = abs(g)
            if lo != -INF:
                lo = l.c + step * ceil(Fraction(lo - l.c) / step)
            if hi != INF:
                hi = l.c + step * floor(Fraction(hi - l.c) / step)
            if self.ne and lo != hi:
                if lo != -INF and self._isne(l - lo):
                    lo += step
                if hi != INF and self._isne(l - hi):
                    hi -= step
        self.busy.discard(key)
        self.cache[key] = (lo, hi)
        return lo, hi

    def groups(self, l):
        gs = []
        for a, k in l.t:
            r = roots(a)
            hit = [g for g in gs if g[0] & r]
            for g in hit:
                gs.remove(g)
                r = r | g[0]
            gs.append((r, [t for g in hit for t in g[1]] + [(a, k)]))
        if len(gs) < 2:
            return None
        out = []
        for _, ts in gs:
            q = K(0)
            for a, k in ts:
                q = q + A(a).scale(k)
            out.append(q)
        return out

    def _isne(self, l):
        c = T.eq(l)
        return c is False or (c is not True and c[1] in self.ne)

    # -- conditions ----------------------------------------------------------------------------
    def decide(self, c):
        if c is True or c is False:
            return c
        k = c[0]
        if k == "and":
            a = self.decide(c[1])
            if a is False:
                return False
            b = self.decide(c[2])
            if b is False:
                return False
            return True if a and b else None
        if k == "or":
            a = self.decide(c[1])
            if a is True:
                return True
            b = self.decide(c[2])
            if b is True:
                return True
            return False if a is False and b is False else None
        l = c[1]
        r = self.sign(k, l, *self.base(l))
        if r is None:
            r = self.sign(k, l, *self.bounds(l, 1))
        if r is None:
            r = self.sign(k, l, *self.bounds(l))
        return r

    def sign(self, k, l, lo, hi):
        if k in ("ge", "gef"):
            return True if lo >= 0 else (False if hi < 0 or (hi == 0 and self.nonzero(l)) else None)
        if k == "gtf":
            return True if lo > 0 or (lo == 0 and self.nonzero(l)) else (False if hi <= 0 else None)
        if k in ("eq", "eqf"):
            if lo == 0 and hi == 0:
                return True
            if lo > 0 or hi < 0 or self.nonzero(l):
                return False
            return None
        if k in ("ne", "nef"):
            if lo == 0 and hi == 0:
                return False
            if lo > 0 or hi < 0 or self.nonzero(l):
                return True
            return None
        raise ValueError(k)

    def nonzero(self, l):
        return bool(self.ne) and (l in self.ne or -l in self.ne)

    def _changed(self):
        self.cache = {}

    def add(self, c):
        """assume an atomic condition (or conjunction); sets .dead when contradictory"""
        if c is True:
            return
        if c is False:
            self.dead = True
            return
        k = c[0]
        if k == "and":
            self.add(c[1])
            if not self.dead:
                self.add(c[2])
            return
        if k == "or":
            a, b = self.decide(c[1]), self.decide(c[2])
            if a is False:
                self.add(c[2])
            elif b is False:
                self.add(c[1])
            return
        d = self.decide(c)
        if d is False:
            self.dead = True
            return
        if d is True and k not in ("eq",):
            return
        if k in ("ge", "gef", "gtf"):
            self._ge(c[1], 3)
            if k == "gtf" and not self.dead:
                self.ne = self.ne | {c[1]}
        elif k in ("eq", "eqf"):
            self._ge(c[1], 3)
            if not self.dead:
                self._ge(-c[1], 3)
        elif k == "nef":
            self.ne = self.ne | {c[1]}
            self._changed()
        elif k == "ne":
            lo, hi = self.bounds(c[1])
            self.ne = self.ne | {c[1]}
            self._changed()
            if lo == 0 and hi == 0:
                self.dead = True
            elif lo == 0:
                self._ge(c[1] - 1, 2)
            elif hi == 0:
                self._ge(-c[1] - 1, 2)
            elif len(c[1].t) == 1:
                a, kk = c[1].t[0]
                x, y = self.ivl(a)
                self._ge(A(a) - ceil(x) if x != -INF else K(0), 1)
                n = Lin(0, c[1].t)
                lo, hi = self.bounds(n)
                if lo == hi and lo + c[1].c == 0:
                    self.dead = True

    def _ge(self, l, fuel):
        """l >= 0"""
        if self.dead or not l.t:
            if not l.t and l.c < 0:
                self.dead = True
            return
        lo, hi = self.bounds(l, 1)
        if hi < 0:
            self.dead = True
            return
        g, p = prim(l)
        b = Fraction(-l.c) / g
        dl, dh = self.dirs.get(p, (-INF, INF))
        isint = all(a.isint for a, _ in p)
        if g > 0:
            nb = ceil(b) if isint else b
            if nb <= dl and len(p) > 1:
                return
            dl = max(dl, nb)
        else:
            nb = floor(b) if isint else b
            if nb >= dh and len(p) > 1:
                return
            dh = min(dh, nb)
        if hi == 0:
            # nothing but zero is left
            q = Fraction(-l.c) / g
            dl, dh = max(dl, q), min(dh, q)
        if dl > dh:
            self.dead = True
            return
        if len(p) > 1:
            self.dirs[p] = (dl, dh)
        self._changed()
        # refine atoms
        for a, k in l.t:
            rest = l - A(a).scale(k)
            rl, rh = self.bounds(rest, 1)
            if rh == INF:
                continue
            # k*a >= -rest >= -rh
            q = Fraction(-rh) / k
            x, y = self.ivl(a)
            if k > 0:
                n = ceil(q) if a.isint else q
                if n > x:
                    self._setiv(a, n, y, fuel)
            else:
                n = floor(q) if a.isint else q
                if n < y:
                    self._setiv(a, x, n, fuel)
            if self.dead:
                return

    def _setiv(self, a, lo, hi, fuel):
        if lo > hi:
            self.dead = True
            return
        self.iv[a] = (lo, hi)
        self._changed()
        if lo == hi and a.kind in ONPIN:
            ONPIN[a.kind](self, a, lo)
        if fuel <= 0:
            return
        if a.kind == "quo":
            n, d = a.key
            if lo != -INF:
                self._ge(n - d * lo, fuel - 1)
            if hi != INF and not self.dead:
                self._ge(K(d * hi + d - 1) - n, fuel - 1)
        elif a.kind == "floor":
            n = a.key[0]
            if lo != -INF:
                self._ge(n - lo, fuel - 1)
            if hi != INF and not self.dead:
                self._ge(K(hi + 1) - n, fuel - 1)
        if self.dead:
            return
        for p, (dl, dh) in list(self.dirs.items()):
            if any(x is a for x, _ in p):
                l = Lin(0, p)
                for b, k in p:
                    if b is a:
                        continue
                    rest = l - A(b).scale(k)
                    rl, rh = self.base(rest)
                    x, y = self.ivl(b)
                    # dl <= k*b + rest <= dh
                    lo2, hi2 = dl - rh, dh - rl
                    if k < 0:
                        lo2, hi2 = -hi2, -lo2
                    kk = abs(k)
                    n1 = x if lo2 == -INF else (ceil(Fraction(lo2) / kk) if b.isint else Fraction(lo2) / kk)
                    n2 = y if hi2 == INF else (floor(Fraction(hi2) / kk) if b.isint else Fraction(hi2) / kk)
                    if n1 > x or n2 < y:
                        self._setiv(b, max(x, n1), min(y, n2), fuel - 1)
                        if self.dead:
                            return

    def equal(self, a, b):
        """True / False / None"""
        d = a - b
        if not d.t:
            return d.c == 0
        d = self.norm(d)
        if not d.t:
            return d.c == 0
        lo, hi = self.bounds(d)
        if lo == 0 and hi == 0:
            return True
        if lo > 0 or hi < 0:
            return False
        return None

    def refreshed(self):
        """the same facts rebuilt over normalised directions; contradictions between congruent atoms show up here"""
        f = Facts()
        f.iv = dict(self.iv)
        for p, (dl, dh) in self.dirs.items():
            l = Lin(0, p)
            n = self.norm(l)
            for x in {l, n}:
                if dl != -INF:
                    f.add(T.ge(x - dl))
                if dh != INF and not f.dead:
                    f.add(T.ge(K(dh) - x))
                if f.dead:
                    return f
        for a, (lo, hi) in self.iv.items():
            n = self.norm(A(a))
            if n != A(a):
                if lo != -INF:
                    f.add(T.ge(n - lo))
                if hi != INF and not f.dead:
                    f.add(T.ge(K(hi) - n))
                if f.dead:
                    return f
        for l in self.ne:
            for x in {l, self.norm(l)}:
                f.add(T.neg(T.eq(x)))
                if f.dead:
                    return f
        for h in ONREFRESH:
            h(f)
            if f.dead:
                return f
        if len(f.dirs) > 2:
            for p, (dl, dh) in list(f.dirs.items()):
                l = Lin(0, p)
                if len(p) > 2 and ((dh != INF and f.chain(l, 4, {l}) > dh) or (dl != -INF and -f.chain(-l, 4, {-l}) < dl)):
                    f.dead = True
                    return f
        return f

    def chain(self, l, depth, seen):
        """lower bound of l by cancelling it against known directions one after the other"""
        best = self.bounds(l, 1)[0]
        if depth == 0 or not l.t:
            return best
        mine = dict(l.t)
        for p, (dl, dh) in self.dirs.items():
            tried = set()
            for a, k2 in p:
                if a not in mine:
                    continue
                f = Fraction(mine[a]) / k2
                b = dl if f > 0 else dh
                if f in tried or b in (INF, -INF):
                    continue
                tried.add(f)
                l2 = l - Lin(0, p).scale(f)
                if len(l2.t) > len(l.t) or l2 in seen:
                    continue
                r = self.chain(l2, depth - 1, seen | {l2})
                if r != -INF and r + f * b > best:
                    best = r + f * b
        return best

    def eqs(self):
        """substitutions atom -> normal form from the directions that are known exactly"""
        c = self.cache.get("eqs")
        if c is None:
            c = {}
            for p, (dl, dh) in self.dirs.items():
                if dl == dh:
                    best = None
                    for a, k in p:
                        if a.kind in ("in", "unk") and abs(k) == 1:
                            best = (a, k)
                            break
                    if best and best[0] not in c:
                        a, k = best
                        d = Fraction(dl)
                        d = d.numerator if d.denominator == 1 else d
                        c[a] = (K(d) - Lin(0, p) + A(a).scale(k)).scale(k)
            self.cache["eqs"] = c
        return c

    def subst(self, l, e):
        hit = [a for a, _ in l.t if a in e]
        if not hit:
            return l
        out = K(l.c)
        for a, k in l.t:
            out = out + (e[a] if a in e else A(a)).scale(k)
        return out

    def pinned(self, l, depth=3):
        """replace the atoms whose value is known"""
        out = K(l.c)
        for a, k in l.t:
            lo, hi = self.ivl(a)
            if lo == hi and a.isint:
                out = out + k * lo
                continue
            r = A(a)
            if a.kind == "quo" and depth > 0:
                n = self.pinned(a.key[0], depth - 1)
                if n != a.key[0]:
                    r = T.fquo(n, a.key[1])
            out = out + r.scale(k)
        return out

    def norm(self, l, fuel=2):
        """rewrite with the facts: pinned atoms become constants, congruent atoms are identified, known
        equalities are substituted (once)"""
        if not l.t:
            return l
        if self.busy:
            return self._norm(l, fuel)
        k = ("n", l, fuel)
        r = self.cache.get(k)
        if r is None:
            r = self.cache[k] = self._norm(l, fuel)
        return r

    def _norm(self, l, fuel):
        e = self.eqs()
        if e:
            l = self.subst(l, e)
            out = K(l.c)
            ch = False
            for a, k in l.t:
                if a.kind == "quo":
                    n = self.subst(a.key[0], e)
                    if n != a.key[0]:
                        ch = True
                        out = out + T.fquo(n, a.key[1]).scale(k)
                        continue
                out = out + A(a).scale(k)
            if ch:
                l = out
        out = T.ZERO
        seen = []
        keep = []
        again = False
        for a, k in l.t:
            lo, hi = self.ivl(a)
            if lo == hi and a.isint:
                out = out + k * lo
                continue
            r = None
            if a.kind == "quo":
                n = self.pinned(a.key[0])
                if n != a.key[0]:
                    r = T.fquo(n, a.key[1])
                    again = True
                for b in seen if r is None else ():
                    if b.kind == "quo" and b.key[1] == a.key[1]:
                        e = A(a) - A(b)
                        lo, hi = self.bounds(e)
                        if lo == hi:
                            r = A(b) + lo
                            break
            elif a.kind not in ("in", "unk"):
                for b in seen:
                    if b.kind == a.kind and len(b.key) == len(a.key) and all(
                            (self.equal(x, y) is True) if isinstance(x, Lin) else x == y
                            for x, y in zip(a.key, b.key)):
                        r = A(b)
                        break
                if r is None:
                    na = []
                    ch = False
                    for x in a.key:
                        if isinstance(x, Lin):
                            y = self.norm(x)
                            ch = ch or y != x
                            na.append(y)
                        else:
                            na.append(x)
                    if ch:
                        r = remake(a.kind, na)
            if r is None:
                seen.append(a)
                keep.append((a, k))
            else:
                out = out + r.scale(k)
        if len(keep) == len(l.t):
            return l
        out = out + Lin(l.c, tuple(keep))
        return self.norm(out, fuel - 1) if again and fuel > 0 else out


REMAKE = {}


def remake(kind, args):
    if kind == "quo":
        return T.fquo(*args)
    if kind == "mul":
        return T.mul(*args)
    if kind in REMAKE:
        return REMAKE[kind](*args)
    return None


def quo_facts(f):
    """bounds on a direction with one quotient of a matching coefficient, without the quotient; and the distance of
    that quotient from another one whose numerator is the rest of the direction"""
    quos = {a for p in f.dirs for a, _ in p if a.kind == "quo"} | {a for a in f.iv if a.kind == "quo"}
    for p, (lo, hi) in list(f.dirs.items()):
        qs = [(a, k) for a, k in p if a.kind == "quo" and abs(k) == a.key[1]]
        if len(qs) != 1 or len(p) > 4:
            continue
        a, k = qs[0]
        n, d = a.key
        r = tuple(x for x in p if x[0] is not a)
        rest = Lin(0, r) + (n if k > 0 else -n)
        # d*q lies between n-d+1 and n
        if hi != INF:
            f._ge(K(hi + (d - 1 if k > 0 else 0)) - rest, 1)
        if lo != -INF:
            f._ge(rest - lo + (0 if k > 0 else d - 1), 1)
        if f.dead:
            return
        r = Lin(0, r) if k < 0 else -Lin(0, r)
        l2, h2 = (lo, hi) if k < 0 else (-hi, -lo)
        for b in quos:
            if b is a or b.key[1] != d or b.key[0].t != r.t:
                continue
            c = b.key[0].c
            if h2 != INF:
                f._ge(A(a) - A(b) + floor(Fraction(h2 + c) / d), 1)
            if l2 != -INF and not f.dead:
                f._ge(A(b) - A(a) - floor(Fraction(l2 + c) / d), 1)
            if f.dead:
                return


ONREFRESH.append(quo_facts)
