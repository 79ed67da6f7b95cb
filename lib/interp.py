"""Trace-partitioned abstract interpretation of the crate's MIR over the domain of terms.py/domain.py.

The analysis walks the control-flow graph from a function's entry with abstract values (normal
forms), one abstract state per decision on the way, and yields the abstract state at every return
and the facts at every operation that can panic.  Unknown library code yields unknown (`unk`)
values; nothing that depends on one is ever reported as a violation."""
from fractions import Fraction
import struct
import terms as T
import domain as D
import calendar_fn as C
from terms import K, A, Lin, INF, ZERO, ONE


class NeedFork(Exception):
    def __init__(self, conds):
        self.conds = conds


class Undecided(Exception):
    """the analysis cannot follow this path"""


class Agg:
    __slots__ = ("ty", "v", "f")

    def __init__(self, ty, v, f):
        self.ty, self.v, self.f = ty, v, tuple(f)

    def __repr__(self):
        return "Agg%s.%s%r" % ("" if self.ty is None else self.ty, self.v, list(self.f))


class Arr:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)

    def __repr__(self):
        return "Arr%r" % (list(self.e[:8]),)


class Buf:
    """array or slice content of unknown or large length: base content overlaid by a write log"""
    __slots__ = ("name", "len", "elem", "base", "log")

    def __init__(self, name, ln, elem, base, log=()):
        self.name, self.len, self.elem, self.base, self.log = name, ln, elem, base, log

    def __repr__(self):
        return "Buf(%s,%r,%s,%r)" % (self.name, self.len, self.base, list(self.log))


class Ref:
    __slots__ = ("cell", "path", "off", "len")

    def __init__(self, cell, path=(), off=None, ln=None):
        self.cell, self.path, self.off, self.len = cell, path, off, ln

    def __repr__(self):
        return "&%r%s%s" % (self.cell, "".join(".%s" % (p,) for p in self.path),
                            "" if self.len is None else "[%r;+%r]" % (self.off, self.len))


class FnV:
    __slots__ = ("inst", "ty")

    def __init__(self, inst, ty):
        self.inst, self.ty = inst, ty


class FV:
    """float: real normal form, or special 'nan' | 'inf' | '-inf'.
    t: None when the float is that real; ("q", form) when it is that real rounded once, as a quotient of exact values;
    ("t", form) when it is the result of several rounded operations (form: the operations, evaluable)"""
    __slots__ = ("l", "sp", "t")

    def __init__(self, l, sp=None, t=None):
        self.l, self.sp, self.t = l, sp, t

    def ops(self):
        return self.t[1] if self.t else self.l

    def __repr__(self):
        return "F(%s)" % (self.sp or repr(self.l))


class Opaque:
    __slots__ = ("ty", "tag", "kind")

    def __init__(self, ty, tag, kind):
        self.ty, self.tag, self.kind = ty, tag, kind

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.tag)


class SymE:
    """enum value whose discriminant is the atom"""
    __slots__ = ("ty", "d", "tag", "kind")

    def __init__(self, ty, d, tag, kind):
        self.ty, self.d, self.tag, self.kind = ty, d, tag, kind

    def __repr__(self):
        return "SymE(%s)" % self.tag


class CMem:
    __slots__ = ("ty", "alloc", "off")

    def __init__(self, ty, alloc, off):
        self.ty, self.alloc, self.off = ty, alloc, off

    def __repr__(self):
        return "CMem(%s@%s+%s)" % (self.ty, self.alloc, self.off)


UNIT = Agg(None, 0, ())


def whole(v):
    """a value in full, as a key"""
    if isinstance(v, Agg):
        return ("A", v.ty, v.v, [whole(x) for x in v.f])
    if isinstance(v, Arr):
        return ("V", [whole(x) for x in v.e])
    if isinstance(v, Buf):
        return ("B", v.name, repr(v.len), [tuple(whole(x) if not isinstance(x, (str, int, tuple)) else repr(x) for x in w) for w in v.log])
    if isinstance(v, Ref):
        return ("R", v.cell, [repr(p) for p in v.path], repr(v.off), repr(v.len))
    return repr(v)


class Frame:
    __slots__ = ("body", "bb", "si", "fid", "dest", "to", "visits")

    def __init__(self, body, fid, dest, to):
        self.body, self.fid, self.dest, self.to = body, fid, dest, to
        self.bb = 0
        self.si = 0
        self.visits = {}

    def copy(self):
        f = Frame(self.body, self.fid, self.dest, self.to)
        f.bb, f.si = self.bb, self.si
        f.visits = self.visits
        return f


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


class State:
    __slots__ = ("frames", "mem", "facts", "path", "events", "ret", "nfid", "forks", "status", "loops")

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.facts = D.Facts()
        self.path = ()
        self.events = ()
        self.ret = None
        self.nfid = 0
        self.forks = 0
        self.status = None
        self.loops = {}

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.path = self.path
        s.events = self.events
        s.ret = self.ret
        s.nfid = self.nfid
        s.forks = self.forks
        s.status = self.status
        s.loops = self.loops
        return s

    def assume(self, c):
        """list of states (0..n)"""
        if c is True:
            return [self]
        if c is False:
            return []
        d = self.facts.decide(c)
        if d is True:
            return [self]
        if d is False:
            return []
        if c[0] == "or":
            out = []
            s = self.copy()
            out += s.assume(c[1])
            s = self.copy()
            for x in s.assume(T.neg(c[1])):
                out += x.assume(c[2])
            return out
        if c[0] == "and":
            out = []
            for x in self.assume(c[1]):
                out += x.assume(c[2])
            return out
        self.facts.add(c)
        if self.facts.dead:
            return []
        self.path = self.path + (c,)
        return [self]


def conds_path(st):
    return list(st.path)


T.FUN["fl/"] = lambda a, b: Fraction(float(a) / float(b)) if b else None
T.FUN["fl*"] = lambda a, b: Fraction(float(a) * float(b))
T.FUN["fl+"] = lambda a, b: Fraction(float(a) + float(b))
T.FUN["fltrunc"] = lambda a: int(a)
T.FUN["flfloor"] = lambda a: a.numerator // a.denominator if isinstance(a, Fraction) else a
T.FUN["f53"] = lambda v: Fraction(float(v))
T.FUN["f24"] = lambda v: Fraction(f32(v))


class Interp:
    def __init__(self, P, max_paths=4000, max_steps=400000, loop_limit=80):
        self.P = P
        self.types = P.types
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.loop_limit = loop_limit
        self.obl = {}        # (function, line, kind) -> [n proved, [(state, cond, operands)]]
        self.models = {}     # local function models by definition name
        self.trace_calls = set()
        self.notes = {}
        self.ty_bool = next((i for i, t in enumerate(self.types) if t and t["k"] == "bool"), None)
        self.ty_u8 = next((i for i, t in enumerate(self.types) if t and t["k"] == "int" and t["bits"] == 8 and not t["s"]), None)
        self.on_panic = None
        self.track_rounding = False     # truncating the result of several rounded operations may be one off
        self.rounded_casts = True       # an integer may lose digits in a float (False: exact reals)

    # ---- types ------------------------------------------------------------------------------
    def rng(self, ty):
        t = self.types[ty]
        if t["k"] == "int":
            b = t["bits"]
            return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t["s"] else (0, (1 << b) - 1)
        if t["k"] == "char":
            return (0, 0x10FFFF)
        if t["k"] == "bool":
            return (0, 1)
        return None

    def make(self, st, ty, tag, kind):
        """value of type ty named tag ('in': program input, 'unk': unknown)"""
        t = self.types[ty]
        k = t["k"]
        if k in ("int", "char"):
            lo, hi = self.rng(ty)
            if kind == "in":
                return T.var(tag, lo, hi)
            return T.A(T.atom("unk", (tag,), True, lo, hi, True))
        if k == "bool":
            if kind == "in":
                return T.ge(T.var(tag, 0, 1) - 1)
            return T.ge(T.A(T.atom("unk", (tag,), True, 0, 1, True)) - 1)
        if k == "float":
            if kind == "in":
                return FV(T.var(tag, isint=False))
            return FV(T.A(T.atom("unk", (tag,), False, -INF, INF, True)))
        if k == "tuple":
            return Agg(ty, 0, [Opaque(e, "%s.%d" % (tag, i), kind) for i, e in enumerate(t["elems"])])
        if k == "adt" and t["variants"] is not None:
            if t["adt"] == "struct" and t["variants"]:
                return Agg(ty, 0, [Opaque(ft, "%s.%s" % (tag, n), kind) for n, ft in t["variants"][0]["fields"]])
            if t["adt"] == "enum":
                ds = [self.sdiscr(t, v) for v in t["variants"]]
                if not ds:
                    return Opaque(ty, tag, kind)
                a = T.atom("in" if kind == "in" else "unk", (tag + "?",), True, min(ds), max(ds), kind != "in")
                return SymE(ty, T.A(a), tag, kind)
        if k == "array":
            n = t["len"]
            if n is not None and n <= 64:
                return Arr([Opaque(t["elem"], "%s[%d]" % (tag, i), kind) for i in range(n)])
            return Buf(tag, K(n) if n is not None else T.unk("len"), t["elem"], "in" if kind == "in" else "unk")
        if k in ("ref", "ptr"):
            to = self.types[t["to"]]
            cell = ("o", tag)
            if to["k"] in ("slice", "str"):
                e = to["elem"] if to["k"] == "slice" else self.ty_u8
                nm = tag + ".len"
                ln = T.var(nm, 0, 2 ** 63 - 1) if kind == "in" else T.A(T.atom("unk", (nm,), True, 0, 2 ** 63 - 1, True))
                if cell not in st.mem:
                    st.mem[cell] = Buf(tag, ln, e, "in" if kind == "in" else "unk")
                return Ref(cell, (), ZERO, ln)
            if cell not in st.mem:
                st.mem[cell] = Opaque(t["to"], tag + "*", kind)
            return Ref(cell)
        if k in ("fndef", "closure"):
            return FnV(t.get("inst"), ty) if not t.get("upvars") else Opaque(ty, tag, kind)
        return Opaque(ty, tag, kind)

    def sdiscr(self, t, v):
        d = v["discr"]
        if d >= 1 << 63:
            d -= 1 << 128 if d >= 1 << 64 else 1 << 64
        # variants of small signed enumerations are printed as unsigned of their width
        if t["name"].endswith("cmp::Ordering") and d in (255, 65535, 2 ** 32 - 1):
            return -1
        return d

    def force(self, st, v, ty=None):
        if isinstance(v, Opaque):
            t = self.types[v.ty]
            r = self.make(st, v.ty, v.tag, v.kind)
            return r
        if isinstance(v, CMem):
            return self.cforce(st, v)
        return v

    def cforce(self, st, v):
        t = self.types[v.ty]
        k = t["k"]
        al = self.P.allocs[v.alloc]
        by = self.cbytes(v.alloc)
        if k == "int":
            return K(int.from_bytes(by[v.off:v.off + t["bits"] // 8], "little", signed=bool(t["s"])))
        if k == "char":
            return K(int.from_bytes(by[v.off:v.off + 4], "little"))
        if k == "bool":
            return bool(by[v.off])
        if k == "float":
            return self.fconst(struct.unpack("<d" if t["bits"] == 64 else "<f", by[v.off:v.off + t["bits"] // 8])[0])
        if k in ("ref", "ptr"):
            return self.cref(st, v.ty, by, self.cprov(v.alloc), v.off)
        if k == "tuple":
            return Agg(v.ty, 0, [CMem(e, v.alloc, v.off + o) for e, o in zip(t["elems"], t.get("offsets") or [0] * 9)])
        if k == "array":
            return v
        if k == "adt" and t["adt"] == "struct" and t["variants"] is not None:
            return Agg(v.ty, 0, [CMem(ft, v.alloc, v.off + o) for (n, ft), o in
                                 zip(t["variants"][0]["fields"], t.get("offsets") or [0] * 99)])
        if k == "adt" and t["adt"] == "enum" and t["variants"]:
            vi = None
            if "single" in t:
                vi = t["single"]
            elif "tagsize" in t:
                o, n = v.off + t["offsets"][0], t["tagsize"]
                tag = int.from_bytes(by[o:o + n], "little")
                m = (1 << (8 * n)) - 1
                if t["niche"] is None:
                    for i, x in enumerate(t["variants"]):
                        if (x["discr"] & m) == tag:
                            vi = i
                else:
                    u, lo, hi, start = t["niche"]
                    r = (tag - int(start)) & m
                    vi = lo + r if r <= hi - lo and o not in self.cprov(v.alloc) else u
            if vi is not None:
                offs = t["voffs"][vi] if "voffs" in t else (t.get("offsets") or [])
                return Agg(v.ty, vi, [CMem(ft, v.alloc, v.off + p) for (_, ft), p in
                                      zip(t["variants"][vi]["fields"], offs)])
        self._anon = getattr(self, "_anon", 0) + 1
        return self.make(st, v.ty, "const#%d" % self._anon, "unk")

    def cbytes(self, k):
        if not hasattr(self, "_cb"):
            self._cb = {}
        if k not in self._cb:
            a = self.P.allocs[k]
            self._cb[k] = self.P.raw(a) if "bytes" in a else b""
        return self._cb[k]

    def cprov(self, k):
        a = self.P.allocs[k]
        return dict((o, p) for o, p in a.get("prov", []))

    def fconst(self, x):
        if x != x:
            return FV(ZERO, "nan")
        if x == INF:
            return FV(ZERO, "inf")
        if x == -INF:
            return FV(ZERO, "-inf")
        f = Fraction(x)
        return FV(K(f.numerator if f.denominator == 1 else f))

    def cref(self, st, ty, by, prov, off):
        t = self.types[ty]
        to = self.types[t["to"]]
        if off not in prov:
            if to["k"] in ("slice", "str"):
                cell = ("empty",)
                st.mem.setdefault(cell, Arr(()))
                return Ref(cell, (), ZERO, K(int.from_bytes(by[off + 8:off + 16], "little")))
            return Opaque(ty, "ptr", "unk")
        ak = prov[off]
        a = self.P.allocs[ak]
        base = int.from_bytes(by[off:off + 8], "little")
        if a["k"] == "fn":
            return FnV(a["inst"], ty)
        if to["k"] in ("slice", "str"):
            e = to["elem"] if to["k"] == "slice" else self.ty_u8
            n = int.from_bytes(by[off + 8:off + 16], "little")
            cell = ("alloc", ak, base, e, n)
            if cell not in st.mem:
                es = self.esize(e)
                st.mem[cell] = Arr([CMem(e, ak, base + i * es) for i in range(n)])
            return Ref(cell, (), ZERO, K(n))
        cell = ("alloc", ak, base, t["to"])
        if cell not in st.mem:
            if a["k"] in ("mem", "static") and "bytes" in a and not a.get("mut_interior"):
                st.mem[cell] = CMem(t["to"], ak, base)
            else:
                st.mem[cell] = Opaque(t["to"], "static#%d" % ak, "unk")
        return Ref(cell)

    def esize(self, e):
        t = self.types[e]
        if t["k"] == "int":
            return t["bits"] // 8
        if t["k"] == "bool":
            return 1
        if t["k"] == "char":
            return 4
        if t["k"] == "float":
            return t["bits"] // 8
        return t.get("size", 8)

    def const(self, st, c):
        ty = c["ty"]
        t = self.types[ty]
        if c.get("zst") or (t.get("size") == 0) or t["k"] in ("fndef",):
            if t["k"] == "fndef":
                return FnV(t["inst"], ty)
            if t["k"] == "closure":
                return FnV(t["inst"], ty)
            if t["k"] == "tuple":
                return UNIT
            if t["k"] == "adt" and t.get("variants"):
                if t["adt"] == "struct":
                    return Agg(ty, 0, [self.const(st, {"ty": ft, "zst": 1}) for _, ft in t["variants"][0]["fields"]])
                return Agg(ty, 0, ())
            return Opaque(ty, "zst", "unk")
        if "bytes" not in c:
            return self.make(st, ty, "const?", "unk")
        # register as an anonymous allocation
        if not hasattr(self, "_ca"):
            self._ca = {}
        key = (c["bytes"], str(c["prov"]))
        k = self._ca.get(key)
        if k is None:
            self.P.allocs.append({"k": "mem", "bytes": c["bytes"], "prov": c["prov"]})
            k = self._ca[key] = len(self.P.allocs) - 1
        return self.force(st, CMem(ty, k, 0))

    # ---- memory -----------------------------------------------------------------------------
    def local_cell(self, fr, l):
        return ("l", fr.fid, l)

    def cell(self, st, c):
        v = st.mem.get(c)
        if v is None:
            if c[0] == "l":      # a value without content is never written
                for fr in st.frames:
                    if fr.fid == c[1]:
                        t = self.types[fr.body["locals"][c[2]]]
                        if t.get("size") == 0 and t.get("single") is not None:
                            vi = [k for k, x in enumerate(t["variants"]) if not x["fields"]]
                            if len(vi) == 1 or len(t["variants"]) == 1:
                                v = Agg(fr.body["locals"][c[2]], vi[0] if len(vi) == 1 else 0, ())
                                st.mem[c] = v
                                return v
            raise Undecided("read of an unset cell %r" % (c,))
        return v

    def place_loc(self, st, fr, pl):
        """(cell, path, off, len, type): off/len set when the place is an unsized slice"""
        cell = self.local_cell(fr, pl[0])
        path = ()
        ty = fr.body["locals"][pl[0]]
        off = ln = None
        for p in pl[1]:
            k = p[0]
            if k == "*":
                v = self.force(st, self.getp(st, cell, path))
                if isinstance(v, Agg) and len(v.f) >= 1 and self.types[v.ty]["k"] == "adt" and v.ty is not None and self.types[v.ty]["name"].endswith("Box"):
                    v = self.force(st, v.f[0])
                if not isinstance(v, Ref):
                    raise Undecided("deref of %r" % (v,))
                st_t = self.types[ty]
                cell, path, off, ln = v.cell, v.path, v.off, v.len
                ty = st_t.get("to", ty)
            elif k == "f":
                path = path + (("f", p[1], p[2]),)
                ty = p[2]
                off = ln = None
            elif k == "d":
                path = path + (("d", p[1]),)
            elif k == "i":
                i = self.force(st, self.getp(st, self.local_cell(fr, p[1]), ()))
                if off is not None:
                    i = i + off
                path = path + (("i", i),)
                ty = self.types[ty].get("elem", ty)
                off = ln = None
            elif k == "c":
                if p[3]:
                    n = ln if ln is not None else K(self.types[ty]["len"])
                    i = n - p[1]
                else:
                    i = K(p[1])
                if off is not None:
                    i = i + off
                path = path + (("i", i),)
                ty = self.types[ty].get("elem", ty)
                off = ln = None
            elif k == "s":
                n = ln if ln is not None else K(self.types[ty]["len"])
                end = n - p[2] if p[3] else K(p[2])
                off = (off if off is not None else ZERO) + p[1]
                ln = end - p[1]
            else:
                raise Undecided("projection " + k)
        return cell, path, off, ln, ty

    def getp(self, st, cell, path):
        v = self.cell(st, cell)
        var = None
        for p in path:
            if p[0] == "d":
                var = p[1]
                continue
            v = self.step(st, v, p, var)
            var = None
        return v

    def step(self, st, v, p, var):
        if isinstance(v, (Opaque, CMem)):
            if not (isinstance(v, CMem) and self.types[v.ty]["k"] == "array"):
                v = self.force(st, v)
        if p[0] == "f":
            i = p[1]
            if isinstance(v, Agg):
                if var is not None and v.v != var:
                    raise Undecided("payload of another variant")
                if i >= len(v.f):
                    return Opaque(p[2], "field", "unk")
                return v.f[i]
            if isinstance(v, SymE):
                return Opaque(p[2], "%s.%s.%d" % (v.tag, var, i), v.kind)
            if isinstance(v, Opaque):
                return Opaque(p[2], "%s.%d" % (v.tag, i), v.kind)
            raise Undecided("field of %r" % (v,))
        if p[0] == "i":
            return self.index(st, v, p[1])
        raise Undecided("path %r" % (p,))

    def index(self, st, v, i):
        if isinstance(v, CMem):
            t = self.types[v.ty]
            n = t["len"]
            es = self.esize(t["elem"])
            v = Arr([CMem(t["elem"], v.alloc, v.off + k * es) for k in range(n)])
        if isinstance(v, Arr):
            i = self.pin(st, i)
            if i.isconst():
                if 0 <= i.c < len(v.e):
                    return v.e[i.c]
                raise Undecided("index out of range")
            lo, hi = st.facts.bounds(i)
            lo, hi = max(lo, 0), min(hi, len(v.e) - 1)
            if hi - lo > 40:
                e = v.e[0]
                if isinstance(e, (Opaque, CMem)):
                    return Opaque(e.ty, "elem(%r)" % (i,), "unk")
                raise Undecided("index %r of a large array" % (i,))
            raise NeedFork([T.eq(i - k) for k in range(lo, hi + 1)])
        if isinstance(v, Buf):
            r = self.buf_get(st, v, i)
            return r
        raise Undecided("index of %r" % (v,))

    def buf_get(self, st, v, i):
        for w in reversed(v.log):
            if w[0] == "b":
                e = st.facts.equal(w[1], i)
                if e is True:
                    return w[2]
                if e is False:
                    continue
            else:
                # a range: copied from elsewhere, or a printed number
                lo = st.facts.decide(T.gt(w[1] - i))
                hi = st.facts.decide(T.ge(i - w[3])) if w[3] is not None else None
                if lo is True or hi is True:
                    continue
            return self.make(st, v.elem, "buf#%s[%r]" % (v.name, i), "unk")
        if v.base == "zero":
            return ZERO
        if v.base == "in" and self.types[v.elem]["k"] == "int" and self.types[v.elem]["bits"] == 8:
            return T.app("byte", v.name, st.facts.norm(i), lo=0, hi=255)
        if v.base == "in":
            return Opaque(v.elem, "%s[%r]" % (v.name, i), "in")
        if isinstance(v.base, tuple) and v.base[0] == "fill":
            return v.base[1]
        return Opaque(v.elem, "%s[%r]" % (v.name, i), "unk")

    def pin(self, st, l):
        if l.isconst():
            return l
        lo, hi = st.facts.bounds(l)
        if lo == hi:
            return K(lo)
        return l

    def setp(self, st, cell, path, val):
        if not path:
            st.mem[cell] = val
            return
        st.mem[cell] = self.upd(st, self.cell(st, cell) if cell in st.mem else None, path, 0, val)

    def upd(self, st, v, path, k, val, var=None):
        if k == len(path):
            return val
        p = path[k]
        if p[0] == "d":
            return self.upd(st, v, path, k + 1, val, p[1])
        if isinstance(v, (Opaque, CMem)) and not (isinstance(v, CMem) and self.types[v.ty]["k"] == "array"):
            v = self.force(st, v)
        if p[0] == "f":
            if v is None:
                # first write to a field of an unset aggregate
                f = [None] * (p[1] + 1)
                f[p[1]] = self.upd(st, None, path, k + 1, val)
                return Agg(None, var or 0, [x if x is not None else Opaque(self.ty_bool, "uninit", "unk") for x in f])
            if isinstance(v, SymE) and var is not None:
                t = self.types[v.ty]["variants"][var]
                v = Agg(v.ty, var, [Opaque(ft, "%s.%s.%d" % (v.tag, var, i), v.kind) for i, (n, ft) in enumerate(t["fields"])])
            if not isinstance(v, Agg):
                raise Undecided("field write into %r" % (v,))
            f = list(v.f)
            while len(f) <= p[1]:
                f.append(Opaque(self.ty_bool, "uninit", "unk"))
            f[p[1]] = self.upd(st, f[p[1]], path, k + 1, val)
            return Agg(v.ty, v.v, f)
        if p[0] == "i":
            i = self.pin(st, p[1])
            if isinstance(v, CMem):
                t = self.types[v.ty]
                es = self.esize(t["elem"])
                v = Arr([CMem(t["elem"], v.alloc, v.off + j * es) for j in range(t["len"])])
            if isinstance(v, Arr):
                if i.isconst():
                    if not 0 <= i.c < len(v.e):
                        raise Undecided("index out of range")
                    e = list(v.e)
                    e[i.c] = self.upd(st, e[i.c], path, k + 1, val)
                    return Arr(e)
                lo, hi = st.facts.bounds(i)
                lo, hi = max(lo, 0), min(hi, len(v.e) - 1)
                if hi - lo > 40:
                    raise Undecided("write at %r" % (i,))
                raise NeedFork([T.eq(i - j) for j in range(lo, hi + 1)])
            if isinstance(v, Buf):
                if k + 1 != len(path):
                    e = self.upd(st, self.index(st, v, i), path, k + 1, val)
                    return Buf(v.name, v.len, v.elem, v.base, v.log + (("b", i, e),))
                return Buf(v.name, v.len, v.elem, v.base, v.log + (("b", i, val),))
        raise Undecided("write %r into %r" % (p, v))

    def read(self, st, fr, pl):
        cell, path, off, ln, ty = self.place_loc(st, fr, pl)
        v = self.getp(st, cell, path)
        if isinstance(v, CMem) and self.types[v.ty]["k"] == "array":
            return v
        return self.force(st, v)

    def write(self, st, fr, pl, val):
        cell, path, off, ln, ty = self.place_loc(st, fr, pl)
        self.setp(st, cell, path, val)

    def operand(self, st, fr, o):
        if "p" in o:
            return self.read(st, fr, o["p"])
        if "c" in o:
            return self.const(st, o["c"])
        return True     # runtime checks on

    def opty(self, fr, o):
        if "c" in o:
            return o["c"]["ty"]
        pl = o["p"]
        ty = fr.body["locals"][pl[0]]
        for p in pl[1]:
            if p[0] == "f":
                ty = p[2]
            elif p[0] == "*":
                ty = self.types[ty].get("to", ty)
            elif p[0] in ("i", "c"):
                ty = self.types[ty].get("elem", ty)
        return ty

    # ---- values -----------------------------------------------------------------------------
    def fork(self, st, c):
        """decide c, or ask for a fork"""
        d = st.facts.decide(c)
        if d is None:
            raise NeedFork([c, T.neg(c)])
        return d

    def boolint(self, st, c):
        """bool condition as 0/1"""
        if c is True:
            return ONE
        if c is False:
            return ZERO
        return ONE if self.fork(st, c) else ZERO

    def tdiv(self, st, n, d):
        """truncated quotient by a constant"""
        if d.isconst() and d.c != 0:
            dd = d.c
            if dd < 0:
                n, dd = -n, -dd
            if self.fork(st, T.ge(n)):
                return T.fquo(n, dd)
            return T.fquo(n + (dd - 1), dd)
        d2 = self.pin(st, d)
        if d2.isconst() and d2.c:
            return self.tdiv(st, n, d2)
        return T.unk("quo")

    def inrange(self, l, lo, hi):
        return T.cand(T.ge(l - lo), T.ge(K(hi) - l))

    def wrap(self, l, ty):
        lo, hi = self.rng(ty)
        n = hi - lo + 1
        return l - T.fquo(l - lo, n).scale(n)

    def arith(self, st, op, a, b, ty):
        """mathematical result of an integer operation (None: unknown)"""
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mul":
            a2, b2 = self.pin(st, a), self.pin(st, b)
            return T.mul(a2, b2)
        if op == "Div":
            return self.tdiv(st, a, b)
        if op == "Rem":
            q = self.tdiv(st, a, b)
            b = self.pin(st, b)
            return a - T.mul(q, b)
        return None

    def bits(self, st, op, a, b, ty):
        a, b = self.pin(st, a), self.pin(st, b)
        if a.isconst() and b.isconst():
            x, y = a.c, b.c
            r = {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op]
            return K(r)
        if op == "BitAnd":
            for x, y in ((a, b), (b, a)):
                if y.isconst() and y.c >= 0 and (y.c + 1) & y.c == 0:
                    return x - T.fquo(x, y.c + 1).scale(y.c + 1)
                if y.isconst() and y.c == 0:
                    return ZERO
                if y.isconst() and y.c > 0 and y.c & (y.c - 1) == 0:
                    # single bit
                    return (T.fquo(x, y.c) - T.fquo(x, y.c * 2).scale(2)).scale(y.c)
            for x, y in ((a, b), (b, a)):
                if y.isconst() and y.c > 0:
                    # sum of the selected bits
                    r = ZERO
                    k = 1
                    n = 0
                    while k <= y.c:
                        if y.c & k:
                            r = r + (T.fquo(x, k) - T.fquo(x, k * 2).scale(2)).scale(k)
                            n += 1
                        k *= 2
                    return r
        if op == "BitOr":
            for x, y in ((a, b), (b, a)):
                if y.isconst() and y.c == 0:
                    return x
            r = T.app("bitor", *sorted((a, b), key=repr))
            return r
        return None

    def cmpc(self, op, d):
        return {"Eq": T.eq(d), "Ne": T.ne(d), "Lt": T.gt(-d), "Le": T.ge(-d), "Gt": T.gt(d), "Ge": T.ge(d)}[op]

    def fbin(self, st, op, a, b):
        cmp = op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge")
        if a.sp == "nan" or b.sp == "nan":
            return (op == "Ne") if cmp else FV(ZERO, "nan")
        if a.sp or b.sp:
            order = {"-inf": -1, None: 0, "inf": 1}
            if cmp:
                x, y = order[a.sp], order[b.sp]
                return {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]
            if op in ("Add", "Sub"):
                y = order[b.sp] * (1 if op == "Add" else -1)
                s = order[a.sp] + y
                if order[a.sp] and y and s == 0:
                    return FV(ZERO, "nan")
                s = order[a.sp] or y
                return FV(ZERO, "inf" if s > 0 else "-inf")
            if op == "Mul":
                if a.sp and b.sp:
                    return FV(ZERO, "inf" if order[a.sp] * order[b.sp] > 0 else "-inf")
                f, i = (a, b) if b.sp else (b, a)
                if self.fork(st, T.eq(f.l)):
                    return FV(ZERO, "nan")
                s = order[i.sp] * (1 if self.fork(st, T.gt(f.l)) else -1)
                return FV(ZERO, "inf" if s > 0 else "-inf")
            if op == "Div":
                if a.sp and b.sp:
                    return FV(ZERO, "nan")
                if b.sp:
                    return FV(ZERO)
                s = order[a.sp] * (1 if self.fork(st, T.ge(b.l)) else -1)
                return FV(ZERO, "inf" if s > 0 else "-inf")
            return FV(T.unk("float", isint=False))
        if cmp:
            return self.cmpc(op, a.l - b.l)
        t = None
        if self.track_rounding and op in ("Add", "Sub", "Mul", "Div") and not (a.l.isconst() and b.l.isconst()):
            if op == "Div":
                if not (b.l.isconst() and b.l.c == 1):
                    t = ("t" if a.t or b.t else "q", T.app("fl/", a.ops(), b.ops(), isint=False))
            elif a.t or b.t:
                x = -b.ops() if op == "Sub" else b.ops()
                t = ("t", T.app("fl*" if op == "Mul" else "fl+", a.ops(), x, isint=False))
        if op == "Add":
            return FV(a.l + b.l, t=t)
        if op == "Sub":
            return FV(a.l - b.l, t=t)
        if op == "Mul":
            return FV(T.mul(a.l, b.l), t=t)
        if op == "Div":
            if b.l.isconst() and b.l.c != 0:
                return FV(a.l.scale(Fraction(1) / b.l.c), t=t)
            if self.fork(st, T.eq(b.l)):
                if self.fork(st, T.eq(a.l)):
                    return FV(ZERO, "nan")
                return FV(ZERO, "inf" if self.fork(st, T.gt(a.l)) else "-inf")
            return FV(T.app("fdiv", a.l, b.l, isint=False))
        return FV(T.unk("float", isint=False))

    def ftoi(self, st, v, ty):
        lo, hi = self.rng(ty)
        if v.sp:
            st.events += (("satcast", v.sp),)
            return {"nan": ZERO, "inf": K(hi), "-inf": K(lo)}[v.sp]
        # truncation lies in range iff lo-1 < x < hi+1
        if self.fork(st, T.ge(v.l - (hi + 1))):
            st.events += (("satcast", "high"),)
            return K(hi)
        if self.fork(st, T.ge(K(lo - 1) - v.l)):
            st.events += (("satcast", "low"),)
            return K(lo)
        return self.ftrunc(st, v.l, v.t)

    def ftrunc(self, st, l, t=None, how="fltrunc"):
        if t and t[0] == "t":
            r = T.app(how, t[1])
            st.facts.add(T.ge(r - l + 1))
            st.facts.add(T.ge(l + 1 - r))
            return r
        if how == "flfloor":
            return T.ffloor(l)
        if l.isint():
            return l
        if self.fork(st, T.ge(l)):
            return T.ffloor(l)
        return -T.ffloor(-l)

    # ---- statements -------------------------------------------------------------------------
    def rvalue(self, st, fr, r, line):
        k = r["k"]
        if k == "use":
            return self.operand(st, fr, r["o"])
        if k in ("ref", "addr", "reborrow"):
            cell, path, off, ln, ty = self.place_loc(st, fr, r["p"])
            if off is None:
                v = None
                t = self.types[ty]
                if t["k"] in ("slice", "str"):
                    raise Undecided("unsized place")
            return Ref(cell, path, off, ln)
        if k == "bin":
            return self.binop(st, fr, r, line)
        if k == "cbin":
            a, b = self.operand(st, fr, r["a"]), self.operand(st, fr, r["b"])
            ty = self.opty(fr, r["a"])
            m = self.arith(st, r["op"], a, b, ty)
            lo, hi = self.rng(ty)
            return Agg(None, 0, [m, T.neg(self.inrange(m, lo, hi))])
        if k == "un":
            v = self.operand(st, fr, r["o"])
            op = r["op"]
            if op == "Not":
                if isinstance(v, (bool, tuple)):
                    return T.neg(v)
                ty = self.opty(fr, r["o"])
                lo, hi = self.rng(ty)
                return K(-1) - v if lo < 0 else K(hi) - v
            if op == "Neg":
                if isinstance(v, FV):
                    if v.sp:
                        return FV(ZERO, {"nan": "nan", "inf": "-inf", "-inf": "inf"}[v.sp])
                    return FV(-v.l, t=(v.t[0], -v.t[1]) if v.t else None)
                ty = self.opty(fr, r["o"])
                lo, hi = self.rng(ty)
                if self.fork(st, T.ge(v - (lo + 1))):
                    return -v
                return K(lo)
            if op == "PtrMetadata":
                if isinstance(v, Ref) and v.len is not None:
                    return v.len
                raise Undecided("metadata")
        if k == "cast":
            return self.cast(st, fr, r, line)
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r["ops"]]
            a = r["agg"]
            if a == "adt":
                if r["active"] is not None:
                    return Agg(r["ty"], 0, ops)
                return Agg(r["ty"], r["variant"], ops)
            if a == "tuple":
                return Agg(None, 0, ops)
            if a == "array":
                return Arr(ops)
            if a == "closure":
                return Agg(r["ty"], 0, ops)
            raise Undecided("aggregate " + a)
        if k == "discr":
            v = self.read(st, fr, r["p"])
            return self.discr(st, v)
        if k == "len":
            cell, path, off, ln, ty = self.place_loc(st, fr, r["p"])
            if ln is not None:
                return ln
            return K(self.types[ty]["len"])
        if k == "repeat":
            v = self.operand(st, fr, r["o"])
            n = r["n"]
            if n is None:
                raise Undecided("repeat")
            if n <= 64:
                return Arr([v] * n)
            return Buf("arr%d" % st.nfid, K(n), None, "zero" if v == ZERO else ("fill", v))
        raise Undecided("rvalue " + k)

    def discr(self, st, v):
        if isinstance(v, Agg):
            if v.ty is None:
                return K(v.v)
            t = self.types[v.ty]
            return K(self.sdiscr(t, t["variants"][v.v])) if t.get("variants") else K(v.v)
        if isinstance(v, SymE):
            return v.d
        raise Undecided("discriminant of %r" % (v,))

    def tobool(self, v):
        if isinstance(v, (bool, tuple)):
            return v
        if isinstance(v, Lin):
            return T.ne(v)
        raise Undecided("bool %r" % (v,))

    def binop(self, st, fr, r, line):
        op = r["op"]
        a, b = self.operand(st, fr, r["a"]), self.operand(st, fr, r["b"])
        if isinstance(a, FV) and isinstance(b, FV):
            return self.fbin(st, op, a, b)
        if isinstance(a, (bool, tuple)) and isinstance(b, (bool, tuple)):
            if op == "BitAnd":
                return T.cand(a, b)
            if op == "BitOr":
                return T.cor(a, b)
            if op in ("Ne", "BitXor"):
                return T.cor(T.cand(a, T.neg(b)), T.cand(T.neg(a), b))
            if op == "Eq":
                return T.cor(T.cand(a, b), T.cand(T.neg(a), T.neg(b)))
            a, b = self.boolint(st, a), self.boolint(st, b)
        if not (isinstance(a, Lin) and isinstance(b, Lin)):
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return T.ge(T.unk("cmp", 0, 1) - 1)
            raise Undecided("%s of %r, %r" % (op, a, b))
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.cmpc(op, a - b)
        if op == "Cmp":
            d = a - b
            n = -1 if self.fork(st, T.gt(-d)) else (0 if self.fork(st, T.eq(d)) else 1)
            t = self.types[self.dest_ty]
            for i, v in enumerate(t["variants"]):
                if self.sdiscr(t, v) == n:
                    return Agg(self.dest_ty, i, ())
            raise Undecided("Cmp")
        ty = self.opty(fr, r["a"])
        lo, hi = self.rng(ty)
        if op in ("BitAnd", "BitOr", "BitXor"):
            v = self.bits(st, op, a, b, ty)
            return v if v is not None else self.make(st, ty, "bits#%d" % self.uniq(), "unk")
        if op.startswith("Shl") or op.startswith("Shr"):
            b = self.pin(st, b)
            if b.isconst() and 0 <= b.c < 128:
                if op.startswith("Shr"):
                    return T.fquo(a, 1 << b.c)
                m = a.scale(1 << b.c)
                if self.fork(st, self.inrange(m, lo, hi)):
                    return m
                return self.wrap(m, ty)
            return self.make(st, ty, "shift#%d" % self.uniq(), "unk")
        base = op.replace("Unchecked", "")
        m = self.arith(st, base, a, b, ty)
        if m is None:
            return self.make(st, ty, "op#%d" % self.uniq(), "unk")
        if base in ("Add", "Sub", "Mul"):
            if not self.fork(st, self.inrange(m, lo, hi)):
                st.events += (("wrapop", fr.body["name"], line),)
                return self.wrap(m, ty)
        return m

    def uniq(self):
        T._unk[0] += 1
        return T._unk[0]

    def cast(self, st, fr, r, line):
        kind = r["kind"]
        v = self.operand(st, fr, r["o"])
        ty = r["ty"]
        t = self.types[ty]
        if kind.startswith("PointerCoercion(Unsize"):
            if isinstance(v, Ref):
                to = self.types[t["to"]] if "to" in t else None
                src = self.types[self.opty(fr, r["o"])]
                st_ = self.types[src["to"]] if "to" in src else None
                if to and to["k"] == "slice" and st_ and st_["k"] == "array":
                    return Ref(v.cell, v.path, ZERO, K(st_["len"]))
            return v
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr",):
            return v
        if kind == "IntToInt":
            if isinstance(v, (bool, tuple)):
                return self.boolint(st, v)
            if isinstance(v, (Agg, SymE)):
                v = self.discr(st, v)
            if not isinstance(v, Lin):
                raise Undecided("cast of %r" % (v,))
            rg = self.rng(ty)
            if rg is None:
                raise Undecided("cast")
            lo, hi = rg
            if self.fork(st, self.inrange(v, lo, hi)):
                return v
            st.events += (("wrapcast", fr.body["name"], line),)
            # split by the multiple of the modulus when few are possible
            n = hi - lo + 1
            q = T.fquo(v - lo, n)
            a, b = st.facts.bounds(q)
            if b - a <= 3:
                for k in range(int(a), int(b)):
                    if self.fork(st, T.ge(K(lo + n * (k + 1) - 1) - v)):
                        return v - n * k
                return v - n * int(b)
            return self.wrap(v, ty)
        if kind == "IntToFloat":
            if isinstance(v, Lin):
                if v.isconst():             # rounded to the format, e.g. i64::MAX as f64 is 2^63
                    return FV(K(Fraction(f32(v.c) if self.types[ty].get("bits") == 32 else float(v.c))))
                if self.rounded_casts:
                    lo, hi = st.facts.bounds(v)
                    bits = 24 if self.types[ty].get("bits") == 32 else 53
                    if max(-lo, hi) > 2 ** bits:
                        return FV(T.app("f%d" % bits, v, isint=False))
                return FV(v)
            raise Undecided("cast")
        if kind == "FloatToInt":
            if isinstance(v, FV):
                return self.ftoi(st, v, ty)
            raise Undecided("cast")
        if kind == "FloatToFloat":
            return v
        if kind == "Transmute":
            if t["k"] in ("int", "bool", "char") and isinstance(v, Lin):
                lo, hi = self.rng(ty)
                if st.facts.decide(self.inrange(v, lo, hi)) is True:
                    return v
                return self.wrap(v, ty)
            if t["k"] == "adt" and t["adt"] == "enum" and isinstance(v, Lin):
                st.events += (("must", "transmute", T.anyof(*[T.eq(v - self.sdiscr(t, x)) for x in t["variants"]]), fr.body["name"]),)
                v = self.pin(st, v)
                if v.isconst():
                    for i, x in enumerate(t["variants"]):
                        if self.sdiscr(t, x) == v.c:
                            return Agg(ty, i, ())
                return SymE(ty, v, "transmuted", "in")
            return self.make(st, ty, "transmute#%d" % self.uniq(), "unk")
        raise Undecided("cast " + kind)

    # ---- running ----------------------------------------------------------------------------
    def start(self, inst, args):
        """state at the entry of inst; args: list of values, or None for a symbolic input"""
        st = State()
        body = self.P.insts[inst] if isinstance(inst, int) else inst
        fr = Frame(body, 0, None, None)
        st.nfid = 1
        st.frames = [fr]
        for i in range(body["argc"]):
            ty = body["locals"][i + 1]
            v = args[i] if i < len(args) and args[i] is not None else self.make(st, ty, "arg%d" % i, "in")
            st.mem[("l", 0, i + 1)] = v
        return st

    def run(self, st):
        """all final states: status 'ret' | 'panic' | 'lost'"""
        work = [st]
        done = []
        steps = 0
        while work:
            s = work.pop()
            if s.status is not None:
                done.append(s)
                continue
            while True:
                steps += 1
                if steps > self.max_steps or len(done) + len(work) > self.max_paths:
                    s.status = ("lost", "limit")
                    done.append(s)
                    for w in work:
                        w.status = ("lost", "limit")
                        done.append(w)
                    work = []
                    break
                try:
                    r = self.step1(s)
                except NeedFork as f:
                    r = []
                    for c in f.conds:
                        n = s.copy()
                        n.forks += 1
                        r += n.assume(c)
                except Undecided as u:
                    s.status = ("lost", "%s in %s" % (u, s.frames[-1].body["name"] if s.frames else "?"))
                    done.append(s)
                    break
                if r is None:
                    if s.status is not None:
                        done.append(s)
                        break
                    continue
                if not r:
                    break
                s = r[0]
                work.extend(r[1:])
                if s.status is not None:
                    done.append(s)
                    break
        return done

    def step1(self, st):
        fr = st.frames[-1]
        b = fr.body["blocks"][fr.bb]
        n = len(b["st"])
        while fr.si < n:
            s = b["st"][fr.si]
            self.stmt(st, fr, s)
            fr.si += 1
        return self.term(st, fr, b["term"])

    def stmt(self, st, fr, s):
        k = s["s"]
        if k == "=":
            self.dest_ty = self.opty(fr, {"p": s["p"]})
            v = self.rvalue(st, fr, s["r"], s["l"])
            self.write(st, fr, s["p"], v)
        elif k == "setdiscr":
            cell, path, off, ln, ty = self.place_loc(st, fr, s["p"])
            try:
                v = self.force(st, self.getp(st, cell, path))
                f = v.f if isinstance(v, Agg) else ()
            except Undecided:
                f = ()
            self.setp(st, cell, path, Agg(ty, s["v"], f))
        elif k == "assume":
            pass
        elif k == "cno":
            raise Undecided("copy_nonoverlapping")

    def seen_loop(self, st, fr, bb):
        """the loop has come back to its head with every variable unchanged"""
        live = {f.fid for f in st.frames}
        if st.frames[-1] is not fr:
            return False
        now = repr((len(st.frames), len(st.path), sorted((repr(k), whole(v)) for k, v in st.mem.items() if k[0] != "l" or k[1] in live)))
        old = st.loops.get((fr.fid, bb), ())
        if now in old:
            return True
        st.loops = dict(st.loops)
        st.loops[(fr.fid, bb)] = old + (now,)
        return False

    def goto(self, st, fr, bb):
        if bb <= fr.bb:
            fr.visits = dict(fr.visits)
            fr.visits[bb] = fr.visits.get(bb, 0) + 1
            if fr.visits[bb] > self.loop_limit:
                if self.seen_loop(st, fr, bb):
                    st.status = ("panic", fr.body["name"], "panic:loop without end", fr.body["blocks"][bb]["term"].get("l"))
                    return
                if fr.visits[bb] > self.loop_limit + 8:
                    raise Undecided("loop limit")
        fr.bb, fr.si = bb, 0

    def term(self, st, fr, t):
        k = t["t"]
        if k == "goto":
            self.goto(st, fr, t["to"])
            return None
        if k == "switch":
            v = self.operand(st, fr, t["o"])
            if isinstance(v, (bool, tuple)):
                out = []
                brs = list(t["br"]) + [[None, t["else"]]]
                rest = v
                # bool switch: value 0 is false
                m = dict((x, y) for x, y in t["br"])
                tt = m.get(1, t["else"])
                ff = m.get(0, t["else"])
                d = st.facts.decide(v)
                if d is not None:
                    self.goto(st, fr, tt if d else ff)
                    return None
                a = st.copy()
                for x in a.assume(v):
                    x.forks += 1
                    self.goto(x, x.frames[-1], tt)
                    out.append(x)
                c = st.copy()
                for x in c.assume(T.neg(v)):
                    x.forks += 1
                    self.goto(x, x.frames[-1], ff)
                    out.append(x)
                return out
            if not isinstance(v, Lin):
                raise Undecided("switch on %r" % (v,))
            v = self.pin(st, v)
            ty = self.types[self.opty(fr, t["o"])]
            br = []
            for x, to in t["br"]:
                if ty["k"] == "int" and ty["s"] and x >= 1 << (ty["bits"] - 1):
                    x -= 1 << ty["bits"]
                br.append((x, to))
            if v.isconst():
                for x, to in br:
                    if x == v.c:
                        self.goto(st, fr, to)
                        return None
                self.goto(st, fr, t["else"])
                return None
            out = []
            cur = [st]
            for x, to in br:
                c = T.eq(v - x)
                nxt = []
                for s in cur:
                    d = s.facts.decide(c)
                    if d is False:
                        nxt.append(s)
                        continue
                    y = s.copy() if d is None else s
                    for z in y.assume(c):
                        z.forks += 1
                        self.goto(z, z.frames[-1], to)
                        out.append(z)
                    if d is None:
                        nxt += s.assume(T.neg(c))
                cur = nxt
            for s in cur:
                self.goto(s, s.frames[-1], t["else"])
                out.append(s)
            return out
        if k == "return":
            v = st.mem.get(("l", fr.fid, 0), UNIT)
            st.frames.pop()
            # drop the frame's cells
            if not st.frames:
                st.ret = v
                st.status = ("ret",)
                return None
            fid = fr.fid
            top = st.frames[-1]
            self.write(st, top, fr.dest, v)
            self.goto(st, top, fr.to)
            return None
        if k == "assert":
            c = self.operand(st, fr, t["o"])
            c = self.tobool(c)
            if not t["exp"]:
                c = T.neg(c)
            m = t["msg"]
            kind = m[0] + (":" + m[1] if m[0] == "overflow" else "")
            d = st.facts.decide(c)
            self.record(st, fr, t["l"], kind, c, d)
            if d is True:
                self.goto(st, fr, t["to"])
                return None
            out = []
            p = st.copy()
            for x in p.assume(T.neg(c)):
                x.status = ("panic", fr.body["name"], kind, t["l"])
                out.append(x)
            for x in st.assume(c):
                self.goto(x, x.frames[-1], t["to"])
                out.append(x)
            out.reverse()
            return self.split_done(out)
        if k == "drop":
            self.goto(st, fr, t["to"])
            return None
        if k == "call":
            return self.call(st, fr, t)
        if k == "unreachable":
            # the compiler's exhaustiveness: no state gets here
            st.facts.dead = True
            return []
        if k in ("resume", "abort"):
            st.status = ("panic", fr.body["name"], k, None)
            return None
        raise Undecided("terminator " + k)

    def split_done(self, out):
        # finished states must not be continued: hand them back through the worklist
        return sorted(out, key=lambda s: s.status is not None)

    def record(self, st, fr, line, kind, c, d):
        key = (fr.body["name"], line[1] if line else "", line[0] if line else 0, kind)
        e = self.obl.setdefault(key, [0, []])
        if d is True:
            e[0] += 1
        else:
            e[1].append((st.path, c))

    def call(self, st, fr, t):
        f = self.operand(st, fr, t["f"])
        if not isinstance(f, FnV) or f.inst is None:
            raise Undecided("indirect call")
        inst = self.P.insts[f.inst]
        args = [self.operand(st, fr, a) for a in t["a"]]
        return self.call_inst(st, fr, inst, args, t["d"], t["to"], t)

    def call_inst(self, st, fr, inst, args, dest, to, t):
        name = inst["def"]
        if inst["kind"] == "Shim" and name.startswith("std::ops::Fn") and len(args) == 2 and len(inst["args"]) == 2:
            # calling a function item or closure through the Fn traits: the callee is in the type
            ct = self.types[inst["args"][0]]
            ci = ct.get("inst")
            tup = self.force(st, args[1])
            if ci is not None and ct["k"] in ("fndef", "closure") and isinstance(tup, Agg):
                callee = self.P.insts[ci]
                fs = [self.force(st, x) if isinstance(x, Opaque) and x.kind != "unk" else x for x in tup.f]
                if ct["k"] == "fndef":
                    return self.call_inst(st, fr, callee, fs, dest, to, t)
                me = args[0]
                if self.types[callee["locals"][1]]["k"] == "ref" and not isinstance(me, Ref):
                    cell = ("o", "closure#%d" % self.uniq())
                    st.mem[cell] = me
                    me = Ref(cell)
                return self.call_inst(st, fr, callee, [me, Agg(tup.ty, 0, fs)], dest, to, t)
        m = self.models.get(name)
        if m is not None and getattr(m, "nargs", m.__code__.co_argcount - 1) != len(args):
            m = None
        if m is None:
            m = MODELS.get(name)
        if m is None and inst.get("intrinsic"):
            m = INTRINSICS.get(inst["intrinsic"])
        if m is not None:
            ctx = Call(self, st, fr, inst, args, t, dest)
            r = m(ctx, *args)
            if isinstance(r, Tail):
                return self.call_inst(st, fr, r.inst, r.args, dest, to, t)
            if r is PANIC:
                st.status = ("panic", fr.body["name"], "panic:" + name, t["l"])
                return None
            if r is not BODY:
                if to is None:
                    st.status = ("panic", fr.body["name"], "diverges:" + name, t["l"])
                    return None
                self.write(st, fr, dest, r)
                self.goto(st, fr, to)
                return None
        if to is None or name.startswith("core::panicking") or name.startswith("std::panicking"):
            self.record(st, fr, t["l"], "panic:" + name, False, False)
            st.status = ("panic", fr.body["name"], "panic:" + name, t["l"])
            return None
        if "blocks" in inst:
            depth = len(st.frames)
            if depth > 40 or sum(1 for x in st.frames if x.body is inst) > 3:
                raise Undecided("recursion")
            if "{closure" in inst["def"] and len(args) == 2 and isinstance(args[1], Agg) and \
                    inst["argc"] - 1 == len(args[1].f) and not (inst["argc"] == 2 and self.types[inst["locals"][2]]["k"] == "tuple"):
                args = [args[0]] + list(args[1].f)
            nf = Frame(inst, st.nfid, dest, to)
            st.nfid += 1
            for i, a in enumerate(args):
                st.mem[("l", nf.fid, i + 1)] = a
            if name in self.trace_calls:
                st.events += (("call", name, tuple(args), st.path),)
            st.frames.append(nf)
            return None
        # unknown library function: its result and everything reachable through &mut is unknown
        self.notes[name] = self.notes.get(name, 0) + 1
        for a, o in zip(args, t["a"]):
            ty = self.opty(fr, o)
            tt = self.types[ty]
            if tt["k"] in ("ref", "ptr") and tt.get("mut") and isinstance(a, Ref):
                try:
                    old = self.getp(st, a.cell, a.path)
                except Undecided:
                    old = None
                if isinstance(old, Buf):
                    self.setp(st, a.cell, a.path, Buf("havoc#%d" % self.uniq(), old.len, old.elem, "unk"))
                else:
                    self.setp(st, a.cell, a.path, Opaque(tt["to"], "havoc#%d" % self.uniq(), "unk"))
        dty = self.opty(fr, {"p": dest})
        st.events += (("havoc", name),)
        self.write(st, fr, dest, Opaque(dty, "%s#%d" % (name, self.uniq()), "unk"))
        self.goto(st, fr, to)
        return None


class Tail:
    def __init__(self, inst, args):
        self.inst, self.args = inst, args


PANIC = object()
BODY = object()     # a model declines: interpret the body
MODELS = {}
INTRINSICS = {}


class Call:
    __slots__ = ("I", "st", "fr", "inst", "args", "t", "dest")

    def __init__(self, I, st, fr, inst, args, t, dest):
        self.I, self.st, self.fr, self.inst, self.args, self.t, self.dest = I, st, fr, inst, args, t, dest

    @property
    def dty(self):
        return self.I.opty(self.fr, {"p": self.dest})

    def fork(self, c):
        return self.I.fork(self.st, c)

    def variant(self, ty, name, fields=()):
        t = self.I.types[ty]
        for i, v in enumerate(t["variants"]):
            if v["name"] == name:
                return Agg(ty, i, fields)
        raise Undecided("no variant " + name)

    def some(self, v):
        return self.variant(self.dty, "Some", [v])

    def none(self):
        return self.variant(self.dty, "None")

    def fresh(self, tag):
        return Opaque(self.dty, "%s#%d" % (tag, self.I.uniq()), "unk")

    def apply(self, fty, f, args):
        """result of calling the function item or closure f of type fty; raises NeedFork when its outcome is
        not decided by the state; PANIC when it panics"""
        I, st = self.I, self.st
        t = I.types[fty]
        while t["k"] == "ref":
            if isinstance(f, Ref) and f.len is None:
                f = I.force(st, I.getp(st, f.cell, f.path))
            fty = t["to"]
            t = I.types[fty]
        if t["k"] not in ("fndef", "closure") or t.get("inst") is None:
            raise Undecided("call through %s" % t["k"])
        inst = I.P.insts[t["inst"]]
        if "blocks" not in inst:
            raise Undecided("no body: " + inst["name"])
        if len(st.frames) > 60:
            raise Undecided("recursion")
        n = st.copy()
        n.forks = st.forks
        nf = Frame(inst, n.nfid, None, None)
        n.nfid += 1
        if t["k"] == "closure":
            me = f
            if I.types[inst["locals"][1]]["k"] == "ref" and not isinstance(me, Ref):
                cell = ("o", "closure#%d" % I.uniq())
                n.mem[cell] = me
                me = Ref(cell)
            if inst["argc"] == 2 and len(args) != 1:
                args = [Agg(inst["locals"][2], 0, list(args))]
            args = [me] + list(args)
        if len(args) != inst["argc"]:
            raise Undecided("call convention of " + inst["name"])
        for i, a in enumerate(args):
            n.mem[("l", nf.fid, i + 1)] = a
        n.frames = [nf]
        base = len(st.path)
        for _ in range(20000):
            r = I.step1(n)
            if r is None:
                if n.status is None:
                    continue
            else:
                r = [x for x in r if not x.facts.dead]
                if len(r) == 1:
                    n = r[0]
                    if n.status is None:
                        continue
                elif r:
                    raise NeedFork([T.allof(*x.path[base:]) for x in r])
                else:
                    raise Undecided("no outcome of " + inst["name"])
            if n.status[0] == "ret":
                st.mem, st.facts, st.path, st.events, st.nfid = n.mem, n.facts, n.path, n.events, n.nfid
                return n.ret
            if n.status[0] == "panic":
                return PANIC
            raise Undecided("%s in %s" % (n.status[1], inst["name"]))
        raise Undecided("steps of " + inst["name"])

    def argty(self, i):
        return self.I.opty(self.fr, self.t["a"][i])


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def intrinsic(*names):
    def d(f):
        for n in names:
            INTRINSICS[n] = f
        return f
    return d
