"""C09: serialization round trip."""
import types as pytypes
from common import *

TECHNIQUE = ("value analysis of MIR of the serde implementations, instantiated by a type-checked recording serializer and "
             "deserializer; agreement of text style, order and precision tracked as typestate of the written text")
NOTE = ("decides, for every value of each type, that the compact form is read back as the value written, as a sequence and "
        "as a map in any entry order, and that the readable form hands format's text unchanged to try_from_str with the "
        "style and order it was written with and full precision, returning its result unchanged; errors of either are "
        "errors of the round trip.  The text round trip itself (C26) is not decided")
ASSUMPTIONS = ["the data format hands back the integers and text it was given, of the kind it was given"]

MODS = (("date", "Date"), ("time", "Time"), ("timestamp", "Timestamp"), ("interval", "Interval"))
RAW = {"date": I32, "time": I64, "timestamp": I64}
TEXT = ("written text",)


def value(i, m):
    return i.interval("v") if m == "interval" else i.newtype(V("raw " + m, *RAW[m]))


def want(m):
    return Rec(ivar("v")) if m == "interval" else date_(V("raw " + m, *RAW[m]))


def variant(I, st, v):
    v = I.force(st, v)
    return I.types[v.ty]["variants"][v.v]["name"]


def errv(c):
    t = c.I.types[c.dty]
    for i, x in enumerate(t["variants"]):
        if x["name"] == "Err":
            return Agg(c.dty, i, [Opaque(ft, "error", "unk") for _, ft in x["fields"]])
    raise Undecided("no Err")


def install(J, m, ty, fmt_ok, parse_ok, log):
    """the text operations as recorders: format yields an opaque text remembering how it was written; try_from_str
    yields the formatted value when it is handed that very text and reads it the way it was written"""
    I = J.I

    def fmt(c, *args):
        st = c.st
        v = args[0]
        v = I.force(st, v)
        if isinstance(v, Ref):
            v = I.force(st, I.getp(st, v.cell, v.path))
        how = tuple(variant(I, st, a) for a in args[1:])
        log.add("written " + "/".join(how))
        if not fmt_ok:
            return errv(c)
        st.mem[TEXT] = Buf("text", T.var("text length", 0, 10 ** 6), I.ty_u8, "zero")
        st.events += (("written", how, v),)
        return c.variant(c.dty, "Ok", [Agg(None, 0, [Ref(TEXT, (), ZERO, T.var("text length", 0, 10 ** 6))])])

    def parse(c, s, *args):
        st = c.st
        from models import sref
        r = sref(I, st, s)
        w = [e for e in st.events if e[0] == "written"]
        if not w or r.cell != TEXT:
            return errv(c)
        if st.facts.norm(r.off) != ZERO or st.facts.norm(r.len) != st.facts.norm(T.var("text length", 0, 10 ** 6)):
            return errv(c)
        how, v = w[-1][1], w[-1][2]
        if m == "date":
            order, prec, style = args[0], None, None
        elif m == "interval":
            order, prec, style = None, args[0], args[1]
        else:
            order, prec, style = args[1], args[0], None
        if prec is not None:
            p = st.facts.norm(I.force(st, prec))
            if not p.isconst():
                raise Undecided("precision")
            if p.c != -1 and not (m != "interval" and p.c == 6):
                return errv(c)
        if style is not None and variant(I, st, style) != how[0]:
            return errv(c)
        if m in ("date", "timestamp") and variant(I, st, order) != how[1]:
            return errv(c)
        log.add("read " + "/".join(variant(I, st, a) for a in (order, style) if a is not None))
        if not parse_ok:
            return errv(c)
        return c.variant(c.dty, "Ok", [v])
    fmt.nargs = {"date": 3, "time": 2, "timestamp": 3, "interval": 2}[m]
    parse.nargs = {"date": 2, "time": 3, "timestamp": 3, "interval": 3}[m]
    I.models["pgdatetime::%s::%s::format" % (m, ty)] = fmt
    I.models["pgdatetime::%s::%s::try_from_str" % (m, ty)] = parse


def run(P, c):
    J = Judge(P, c)
    n = 0
    for m, ty in MODS:
        b = J.find("pgdatetime::pgv_witness_serde::" + m)
        if b is None:
            c.undecided("round trip", m, "no witness", "the witness module does not type-check against this tree")
            continue
        for by in range(7 if m == "interval" else 1):
            n += 1
            name = "%s compact form%s" % (m, "" if m != "interval" else " as a sequence" if by == 0 else " as a map, order %d" % by)
            J.judge("round trip", name, b, lambda I: value(Input(I, b), m).const(0).const(by).state(),
                    lambda S, st: ok(want(m)), panics=True)
        for fo, po in ((True, True), (True, False), (False, True)):
            n += 1
            log = set()
            J2 = Judge(P, c)
            install(J2, m, ty, fo, po, log)
            name = "%s readable form%s" % (m, "" if fo and po else ", %s fails" % ("parsing" if fo else "formatting"))
            J2.judge("round trip", name, b, lambda I: value(Input(I, b), m).const(1).const(0).state(),
                     lambda S, st: ok(want(m)) if fo and po else ERR, panics=True)
    c.floor("round trips decided", n, 0)
