"""Pieces shared by the checks of the string decoders: the masks, abstract tokens, and the number readers at
their contract (the readers themselves are decided digit by digit in C23)."""
from common import *
import models


def enum_codes(P, *members):
    """{variant: discriminant} of the local enumeration having these variants"""
    for t in P.types:
        if t and t["k"] == "adt" and t.get("adt") == "enum" and t["variants"]:
            d = {v["name"]: v["discr"] for v in t["variants"]}
            if all(m in d for m in members):
                return d
    return {}


class Masks:
    """bit of every token type, from the discriminants of the enumeration"""

    def __init__(self, P):
        self.tok = enum_codes(P, "MONTH", "YEAR", "DAY", "ISOTIME", "UnknownField")
        self.fld = enum_codes(P, "Zulu", "Century", "Delta", "Special")
        b = self.bit
        self.Y, self.M, self.D = b("YEAR"), b("MONTH"), b("DAY")
        self.DATE = self.Y | self.M | self.D
        self.SECS = b("SECOND") | b("MILLISECOND") | b("MICROSECOND")
        self.TIME = b("HOUR") | b("MINUTE") | self.SECS

    def bit(self, n):
        return 1 << self.tok[n]


TOK = ("tok",)


def token(I, n, name="text"):
    """(cell, slice reference) of an abstract token of n bytes"""
    if isinstance(n, bytes):
        return Arr([K(b) for b in n]), Ref(TOK, (), ZERO, K(len(n)))
    return Buf(name, n, I.ty_u8, "in"), Ref(TOK, (), ZERO, n)


def where(c, r):
    f = c.st.facts
    return "%s+%s" % (f.norm(r.off if r.off is not None else ZERO), f.norm(r.len))


def pair(c, a, b, wrapper="Ok"):
    rt = c.I.types[c.dty]
    for v in rt["variants"]:
        if v["name"] == wrapper:
            tt = v["fields"][0][1]
            return c.variant(c.dty, wrapper, [Agg(tt, 0, [a, b])])
    raise Undecided("no " + wrapper)


def err(c):
    for v in c.I.types[c.dty]["variants"]:
        if v["name"] == "Err":
            return c.variant(c.dty, "Err", [Opaque(v["fields"][0][1], "error#%d" % c.I.uniq(), "unk")])
    raise Undecided("no Err")


def number_reader(rest="any", real=False):
    """reader of a decimal number: fails, or yields a number and what is left of the text.
    rest: 'none' = the whole text is the number"""
    def f(c, s):
        r = models.sref(c.I, c.st, s)
        if not c.fork(T.ge(r.len - 1)):
            return pair(c, FV(ZERO) if real else ZERO, r)
        w = where(c, r)
        if c.fork(T.ge(V("unreadable@" + w, 0, 1) - 1)):
            return err(c)
        k = r.len
        if rest != "none":
            k = V("width@" + w, 0, 10 ** 6)
            if not c.fork(T.ge(r.len - k)):
                c.st.facts.add(T.ge(r.len - k))     # no such path
                c.st.facts.dead = True
        v = FV(T.var("real@" + w, 0, 10 ** 10, isint=False)) if real else V("number@" + w, 0 if rest == "none" else I32[0], I32[1])
        return pair(c, v, Ref(r.cell, r.path, (r.off if r.off is not None else ZERO) + k, r.len - k))
    f.nargs = 1
    return f


def num(off, ln):
    return V("number@%s+%s" % (off, ln), 0, I32[1])


def unreadable(off, ln):
    return T.ge(V("unreadable@%s+%s" % (off, ln), 0, 1) - 1)


def tm_value(I, ty, prefix="tm."):
    """(Agg of a PgTime with symbolic fields, {name: form})"""
    fs, d = [], {}
    for n, ft in I.types[ty]["variants"][0]["fields"]:
        t = I.types[ft]
        if t["k"] == "int":
            lo, hi = I.rng(ft)
            v = V(prefix + n, lo, hi)
            d[n] = v
        else:
            v = Opaque(ft, prefix + n, "in")
        fs.append(v)
    return Agg(ty, 0, fs), d


# ---- thread-local memory and whole strings ---------------------------------------------------------

def tls(contents):
    """LocalKey::with: the closure applied to this thread's value of the key.
    contents(c, key, option type, n) -> list of n memo entries"""
    def f(c, key, cl):
        st = c.st
        if not isinstance(key, Ref) or key.cell[0] != "alloc":
            raise Undecided("thread-local key")
        a = c.I.P.allocs[key.cell[1]]
        k = ("tls", c.I.P.allocs[a["prov"][0][1]].get("inst"))
        if k not in st.mem:
            rc = c.I.types[c.inst["args"][0]]
            t = c.I.types[rc["args"][0]]
            if t["k"] != "array":
                raise Undecided("thread-local value")
            st.mem[k] = Arr(contents(c, k, t["elem"], t["len"]))
        return c.apply(c.argty(1), cl, [Ref(k)])
    return f


def nothing_remembered(c, k, oty, n):
    return [c.variant(oty, "None") for _ in range(n)]


def shape(J, pat, names="d"):
    """bytes of a string: letters and separators as written, '#' any digit, '9'.. as written.
    Returns (list of forms, list of digit variables)"""
    out, ds = [], []
    for ch in pat:
        if ch == "#":
            v = T.var("%s%d" % (names, len(ds)), 48, 57)
            ds.append(v - 48)
            out.append(v)
        else:
            out.append(K(ord(ch)))
    return out, ds


STR = ("str",)


def text_arg(st, forms):
    st.mem[STR] = Arr(forms)
    return Ref(STR, (), ZERO, K(len(forms)))
