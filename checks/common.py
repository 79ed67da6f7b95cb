"""Constants and symbolic inputs shared by the value checks."""
import terms as T
from terms import K, A, Lin, INF, ZERO, ONE
from interp import *
from judge import *
import calendar_fn as C

USECS_DAY = 86400000000
MIN_TS = -211813488000000000
END_TS = 9223371331200000000
I64 = (-2 ** 63, 2 ** 63 - 1)
I32 = (-2 ** 31, 2 ** 31 - 1)
EPOCH = 2451545
DATE_MIN = -EPOCH
DATE_END = 2147483494 - EPOCH
DT_NOBEGIN, DT_NOEND = I32
TS_NOBEGIN, TS_NOEND = I64


def names(I, ty):
    return [n for n, _ in I.types[ty]["variants"][0]["fields"]]


def struct_by_types(I, ty):
    return [(n, f) for n, f in I.types[ty]["variants"][0]["fields"]]


class Input:
    """builder of an entry state: arguments by kind, with assumptions"""

    def __init__(self, I, body):
        self.I, self.body = I, body
        self.conds = []
        self.args = []
        self.cells = []

    def aty(self, i):
        return self.body["locals"][i + 1]

    def add(self, v):
        i = len(self.args)
        ty = self.aty(i)
        t = self.I.types[ty]
        if t["k"] == "ref":
            cell = ("arg", i)
            self.cells.append((cell, v))
            v = Ref(cell)
        self.args.append(v)
        return self

    def vty(self):
        ty = self.aty(len(self.args))
        t = self.I.types[ty]
        return t["to"] if t["k"] == "ref" else ty

    def newtype(self, l):
        return self.add(Agg(self.vty(), 0, [l]))

    def date(self, name, kind="finite"):
        """Date by kind: finite | inf | -inf"""
        if kind == "inf":
            return self.newtype(K(DT_NOEND))
        if kind == "-inf":
            return self.newtype(K(DT_NOBEGIN))
        return self.newtype(dvar(name))

    def ts(self, name, kind="finite"):
        if kind == "inf":
            return self.newtype(K(TS_NOEND))
        if kind == "-inf":
            return self.newtype(K(TS_NOBEGIN))
        return self.newtype(tsvar(name))

    def time(self, name):
        return self.newtype(tvar(name))

    def interval(self, name, bound=None):
        ty = self.vty()
        fs = []
        for n, ft in struct_by_types(self.I, ty):
            lo, hi = self.I.rng(ft)
            fs.append(T.var("%s.%s" % (name, n), lo, hi))
        return self.add(Agg(ty, 0, fs))

    def int(self, name, lo=None, hi=None):
        a, b = self.I.rng(self.vty())
        return self.add(T.var(name, a if lo is None else lo, b if hi is None else hi))

    def const(self, n):
        return self.add(K(n))

    def enum(self, vname, fields=()):
        ty = self.vty()
        for i, v in enumerate(self.I.types[ty]["variants"]):
            if v["name"] == vname:
                return self.add(Agg(ty, i, fields))
        raise Undecided("no variant " + vname)

    def float(self, name, sp=None):
        return self.add(FV(ZERO, sp) if sp else FV(T.var(name, isint=False)))

    def state(self):
        st = self.I.start(self.body, self.args)
        for c, v in self.cells:
            st.mem[c] = v
        out = [st]
        for c in self.conds:
            nxt = []
            for s in out:
                nxt += s.assume(c)
            out = nxt
        return out

    def assume(self, c):
        self.conds.append(c)
        return self


def V(name, lo=-INF, hi=INF):
    return T.var(name, lo, hi)


def ivar(name):
    return {"time": T.var(name + ".time", *I64), "day": T.var(name + ".day", *I32), "month": T.var(name + ".month", *I32)}


def dvar(name):
    return T.var("date " + name, DATE_MIN, DATE_END - 1)


def tsvar(name):
    return T.var("timestamp " + name, MIN_TS, END_TS - 1)


def tvar(name):
    return T.var("time " + name, 0, USECS_DAY)


def date_(l):
    return Rec({0: l})


def iv_(t, d, m):
    return Rec({"time": t, "day": d, "month": m})


TRAIT = "<%s as pgdatetime::DateTime>::%s"


def dt(mod, ty, f):
    return "<pgdatetime::%s::%s as pgdatetime::DateTime>::%s" % (mod, ty, f)
