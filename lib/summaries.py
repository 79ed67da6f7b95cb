"""Procedure summaries: a helper's effect in normal form.  A summary stands in for the body at call sites
only after the body, as it is in this tree, has been compared with it for every input satisfying its
precondition; otherwise the body itself is interpreted."""
import terms as T
import calendar_fn as C
from terms import K, A, Lin, ZERO, ONE
from interp import *
import judge as JD

USECS_DAY = 86400000000
MIN_TS, END_TS = -211813488000000000, 9223371331200000000
EPOCH = 2451545
I32 = (-2 ** 31, 2 ** 31 - 1)


class NotApplicable(Exception):
    pass


class MX(JD.Ops):
    """model mode: decisions fork the abstract state at the call site"""

    def __init__(self, c):
        self.c, self.st, self.I = c, c.st, c.I

    def ask(self, cond):
        return self.I.fork(self.st, cond)

    def pre(self, cond):
        if self.st.facts.decide(cond) is not True:
            raise NotApplicable()


class VX(JD.Spec):
    """verification mode: preconditions were assumed on the initial state"""

    def pre(self, cond):
        pass


class PX(JD.Ops):
    """collects the preconditions"""

    def __init__(self, I, st):
        self.I, self.st, self.conds = I, st, []

    def pre(self, cond):
        self.conds.append(cond)

    def ask(self, cond):
        raise StopIteration


def fld(X, v, name):
    """field of a struct value or of a referenced struct"""
    I, st = X.I, X.st
    v = I.force(st, v)
    if isinstance(v, Ref):
        v = I.force(st, I.getp(st, v.cell, v.path))
    if not isinstance(v, Agg) or v.ty is None:
        raise NotApplicable()
    names = [n for n, _ in I.types[v.ty]["variants"][0]["fields"]]
    if name not in names:
        raise NotApplicable()
    return I.force(st, v.f[names.index(name)])


def isnone(X, v):
    v = X.I.force(X.st, v)
    if isinstance(v, Ref):
        v = X.I.force(X.st, X.I.getp(X.st, v.cell, v.path))
    if not (isinstance(v, Agg) and JD.vname(X.I, v) == "None"):
        raise NotApplicable()


def timestamp2time(X, dt, tz, tm, fsec, tzn, zone, isdst=-1):
    isnone(X, tz)
    X.pre(T.ge(dt - MIN_TS))
    X.pre(T.ge(K(END_TS - 1) - dt))
    q = T.fquo(dt, USECS_DAY)
    u = dt - q * USECS_DAY
    y, m, d = X.civil(q + EPOCH)
    h, mi, s = T.fquo(u, 3600000000), T.fquo(u, 60000000), T.fquo(u, 1000000)
    return JD.ok(None), {(2, "year"): y, (2, "mon"): m, (2, "mday"): d, (2, "hour"): h, (2, "min"): mi - h * 60,
                         (2, "sec"): s - mi * 60, (3, None): u - s * 1000000,
                         (2, "isdst"): None if isdst is None else K(isdst), (2, "gmtoff"): None, (2, "zone"): None, (4, None): None}


def timestamp2time_any(*a):
    return timestamp2time(*a, isdst=None)


def to_timestamp(X, tm, fsec, tz):
    isnone(X, tz)
    g = {n: fld(X, tm, n) for n in ("year", "mon", "mday", "hour", "min", "sec")}
    for n, lo, hi in (("mon", 1, 12), ("mday", 1, 31), ("hour", 0, 24), ("min", 0, 60), ("sec", 0, 60)):
        X.pre(T.ge(g[n] - lo))
        X.pre(T.ge(K(hi) - g[n]))
    X.pre(T.ge(fsec))
    X.pre(T.ge(K(1000000) - fsec))
    u = ((g["hour"] * 60 + g["min"]) * 60 + g["sec"]) * 1000000 + fsec
    y, m = X.norm(g["year"]), X.norm(g["mon"])
    r = (C.J(g["year"] if m.t else y, g["mon"] if m.t else m, g["mday"]) - EPOCH) * USECS_DAY + u
    if X.inrange(r, MIN_TS, END_TS - 1):
        return JD.ok(r), {}
    return JD.ERR, {}


def interval_to_pgtime(X, iv, tm, fsec):
    month, day, time = fld(X, iv, "month"), fld(X, iv, "day"), fld(X, iv, "time")
    y = X.tdiv(month, 12)
    h = X.tdiv(time, 3600000000)
    if not X.inrange(h, *I32):
        return JD.ERR, {k: None for k in ((1, "year"), (1, "mon"), (1, "mday"), (1, "hour"), (1, "min"), (1, "sec"), (2, None))}
    # the three quotients have the sign of time
    mi, s = X.tdiv(time, 60000000), X.tdiv(time, 1000000)
    return JD.ok(None), {(1, "year"): y, (1, "mon"): month - y * 12, (1, "mday"): day, (1, "hour"): h,
                         (1, "min"): mi - h * 60, (1, "sec"): s - mi * 60, (2, None): time - s * 1000000}


SUMMARIES = {
    # alternatives, the most precise first
    "pgdatetime::parse::timestamp2time": ([timestamp2time, timestamp2time_any], 6),
    "pgdatetime::common::PgTime::to_timestamp": ([to_timestamp], 3),
    "pgdatetime::interval::Interval::to_pgtime": ([interval_to_pgtime], 3),
}


def to_value(I, st, ty, spec, c):
    """value of type ty for a specified result"""
    t = I.types[ty]
    if spec is None:
        if t["k"] == "tuple" and not t["elems"]:
            return UNIT
        return Opaque(ty, "any#%d" % I.uniq(), "unk")
    if isinstance(spec, tuple) and spec and spec[0] in ("err", "var"):
        name = "Err" if spec[0] == "err" else spec[1]
        for i, v in enumerate(t["variants"]):
            if v["name"] == name:
                fs = [ft for _, ft in v["fields"]]
                args = spec[2] if spec[0] == "var" else [None] * len(fs)
                return Agg(ty, i, [to_value(I, st, ft, a, c) for ft, a in zip(fs, args)])
        raise NotApplicable()
    if isinstance(spec, int) and not isinstance(spec, bool):
        return K(spec)
    return spec


def mk_model(f, n):
    def m(c, *args):
        X = MX(c)
        try:
            ret, writes = f(X, *[c.I.force(c.st, a) for a in args])
        except NotApplicable:
            return BODY
        for (i, name), v in writes.items():
            r = args[i]
            if name is None:
                ty = c.I.types[c.argty(i)]["to"]
                c.I.setp(c.st, r.cell, r.path, to_value(c.I, c.st, ty, v, c))
            else:
                cur = c.I.force(c.st, c.I.getp(c.st, r.cell, r.path))
                names = c.I.types[cur.ty]["variants"][0]["fields"]
                k = [x for x, _ in names].index(name)
                fs = list(cur.f)
                fs[k] = to_value(c.I, c.st, names[k][1], v, c)
                c.I.setp(c.st, r.cell, r.path, Agg(cur.ty, 0, fs))
        return to_value(c.I, c.st, c.dty, ret, c)
    m.nargs = n
    return m


def verify(P, name, f, n, models):
    """does the body do what the summary says, for every input satisfying its precondition?"""
    body = next((b for b in P.insts if b and b["def"] == name and "blocks" in b and b["local"]), None)
    if body is None or body["argc"] != n:
        return None
    I = Interp(P)
    I.models = dict(models)
    st = I.start(body, [])
    args = []
    for i in range(n):
        v = I.force(st, st.mem[("l", 0, i + 1)])
        # option-typed references are tried with None
        if isinstance(v, Ref):
            x = I.force(st, I.getp(st, v.cell, v.path))
            if isinstance(x, SymE):
                nn = [k for k, w in enumerate(I.types[x.ty]["variants"]) if w["name"] == "None"]
                if nn:
                    x = Agg(x.ty, nn[0], ())
            st.mem[v.cell] = x
        elif isinstance(v, SymE):
            nn = [k for k, w in enumerate(I.types[v.ty]["variants"]) if w["name"] == "None"]
            if nn:
                v = Agg(v.ty, nn[0], ())
        st.mem[("l", 0, i + 1)] = v
        args.append(v)
    init = st.copy()
    px = PX(I, st)
    try:
        f(px, *args)
    except (StopIteration, RuntimeError):
        pass
    except NotApplicable:
        return False
    sts = [st]
    for c in px.conds:
        sts = [y for x in sts for y in x.assume(c)]
    paths = 0
    for s0 in sts:
        for s in I.run(s0):
            if s.status[0] != "ret":
                return False
            paths += 1
            alts = [()]
            while alts:
                X = VX(s.copy(), alts.pop(), alts)
                X.I = I
                # arguments are read in the initial memory
                fin = X.st.mem
                mem = dict(fin)
                for a in args:
                    if isinstance(a, Ref):
                        mem[a.cell] = init.mem[a.cell]
                X.st.mem = mem
                try:
                    ret, writes = f(X, *args)
                except JD.Dead:
                    continue
                except (NotApplicable, Undecided):
                    return False
                X.st.mem = fin
                out = []
                JD.compare(I, X.st, s.ret, ret, out)
                for i, a in enumerate(args):
                    ty = I.types[body["locals"][i + 1]]
                    if not isinstance(a, Ref) or not ty.get("mut"):
                        continue
                    v = I.force(X.st, I.getp(X.st, a.cell, a.path))
                    o = init.mem[a.cell]
                    if (i, None) in writes:
                        JD.compare(I, X.st, v, writes[(i, None)], out)
                    elif isinstance(v, Agg) and isinstance(o, Agg) and v.ty is not None:
                        for (nm, ft), g, w in zip(I.types[v.ty]["variants"][0]["fields"], v.f, o.f):
                            if (i, nm) in writes:
                                JD.compare(I, X.st, g, writes[(i, nm)], out)
                            else:
                                w2 = I.force(init, w)
                                g2 = I.force(X.st, g)
                                if isinstance(w2, Lin) and isinstance(g2, Lin):
                                    JD.compare(I, X.st, g2, w2, out)
                                elif repr(w2) != repr(g2):
                                    return False
                    else:
                        return False
                if any(o[2] is not True for o in out):
                    return False
    return paths > 0


def verified(P, models, names=None):
    """models of the summaries that hold on this tree"""
    if not hasattr(P, "_sums"):
        P._sums = {}
    out = {}
    for n, (fs, k) in SUMMARIES.items():
        if names is not None and n.split("::")[-1] not in names:
            continue
        if n not in P._sums:
            P._sums[n] = None
            for f in fs:
                try:
                    with JD.limit(60):
                        if verify(P, n, f, k, models):
                            P._sums[n] = f
                            break
                except (Exception, JD.OutOfTime):
                    pass
        if P._sums[n]:
            out[n] = mk_model(P._sums[n], k)
    return out
