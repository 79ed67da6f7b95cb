"""C10: unsafe operations."""
from common import *
import models

TECHNIQUE = ("inventory of unsafe operations in the type-checked program; each one's safety condition discharged by value analysis of "
             "MIR over every input of the public function that reaches it")
NOTE = ("decides, for every raw value (valid or not), style and order, that each length set on a text buffer lies within its "
        "initialised part and every byte written into it is ASCII, and for every number converted to an enumeration that it "
        "is one of its discriminants; any other unsafe operation found in the library is reported as undecided")
ASSUMPTIONS = ["julian2date may return any year, month and day, and date2julian any number; both contain no unsafe operation"]

STYLES = ["Postgres", "ISO", "SQL", "German", "XSD"]
ORDERS = ["YMD", "DMY", "MDY"]
HANDLED = ("set_len", "from_utf8_unchecked", "get_unchecked", "get_unchecked_mut", "assume_init")


def of_std(x):
    """written by the standard library itself: the body of one of its macros (thread_local!, format_args!)"""
    return bool(x.get("l")) and "/rustlib/src/rust/library/" in str(x["l"][1])


def calls(P, b):
    for bb in b["blocks"]:
        t = bb["term"]
        if t["t"] == "call" and not of_std(t) and "c" in t["f"]:
            ty = P.types[t["f"]["c"]["ty"]]
            if ty["k"] == "fndef" and ty.get("inst") is not None:
                yield P.insts[ty["inst"]]


def places(x):
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("p", "d") and isinstance(v, list) and len(v) == 2 and isinstance(v[0], int) and isinstance(v[1], list):
                yield v
            else:
                yield from places(v)
    elif isinstance(x, list):
        for v in x:
            yield from places(v)


def sites(P, b):
    """kinds of unsafe operation in this body"""
    out = set()
    for f in calls(P, b):
        if f and f.get("unsafe") and not f["def"].startswith(("std::fmt::", "core::fmt::")):     # format_args!
            out.add(f["def"].rsplit("::", 1)[1])
    for bb in b["blocks"]:
        for s in bb["st"]:
            r = s.get("r") or {}
            if of_std(s):
                continue
            if isinstance(r, dict) and r.get("k") == "cast" and r["kind"] == "Transmute":
                t = P.types[r["ty"]]
                if t["k"] not in ("int", "bool", "char", "float", "array"):
                    out.add("transmute")
                elif t["k"] in ("bool", "char"):
                    out.add("transmute to " + t["k"])
        for pl in places([s for s in bb["st"] if not of_std(s)] + ([] if of_std(bb["term"]) else [bb["term"]])):
            if pl[1] and pl[1][0][0] == "*" and P.types[b["locals"][pl[0]]]["k"] == "ptr":
                out.add("raw pointer")
    return out


def ascii_conds(I, st, text):
    """conditions under which a text is ASCII, or None where the text is unknown"""
    if text is None:
        raise Undecided("text")
    r, v = text
    v = I.force(st, v)
    if isinstance(v, Buf):
        if not (v.base == "zero" or isinstance(v.base, tuple) and v.base[0] == "fill" and isinstance(v.base[1], Lin)):
            raise Undecided("text base")
        vs = []
        for w in v.log:
            if w[0] == "b":
                vs.append(I.force(st, w[2]))
            elif w[0] == "piece" and isinstance(w[2], tuple) and w[2][0] in ("zp", "sec"):
                continue
            elif w[0] == "copy":
                raise Undecided("copied text")
            else:
                vs.append(w[2])
        if isinstance(v.base, tuple):
            vs.append(v.base[1])
    else:
        vs = models.content(Call(I, st, None, None, None, None, None), r)
        if vs is None:
            raise Undecided("text")
        if all(isinstance(x, Lin) and x.isconst() for x in vs):
            try:
                bytes(int(x.c) for x in vs).decode()
                return
            except ValueError:
                yield False
    for x in vs:
        if not isinstance(x, Lin):
            raise Undecided("text byte")
        yield T.ge(K(127) - x)
        yield T.ge(x)


def undefined(st):
    """the compiler's own debug checks for an invalid enumeration value or pointer"""
    return st.status[2] == "other"


def anything(I, b):
    st = I.start(b, [ZERO] * b["argc"])
    for i in range(b["argc"]):
        st.mem[("l", 0, i + 1)] = I.make(st, b["locals"][i + 1], "%s %d" % (b["name"], i), "in")
    return st


def run(P, c):
    seen = set()

    def raw_dates(c, j):
        return c.fresh("julian day parts")

    def judge(name, b, mk, paths=4000, exact=False):
        J = Judge(P, c, max_paths=paths)
        J.I.rounded_casts = True
        if not exact:
            J.I.models["pgdatetime::common::julian2date"] = raw_dates
            J.I.models["pgdatetime::common::date2julian"] = lambda c, y, m, d: c.fresh("julian day")

        def spec(S, st):
            for e in st.events:
                if e[0] == "must":
                    seen.add((e[3], e[1]))
                    if not S.ask(e[2]):
                        return (False, e)[0]
                elif e[0] == "utf8":
                    seen.add((e[2], "from_utf8_unchecked"))
                    for cd in ascii_conds(J.I, st, e[1]):
                        if not S.ask(cd):
                            return False
            return True
        return J.judge("unsafe operations are safe", name, b, mk, spec, got=lambda st: True, panics=undefined)

    def writers():
        for b in P.insts:
            if not b or "blocks" not in b or not b["local"]:
                continue
            n = b["name"]
            pad = "pg_ltostr_zeropad" in n
            if n.startswith("pgdatetime::common::pg_ltostr"):
                r = I64 if n.endswith("<i64>") else I32
                v = V("number " + n.rsplit("::", 1)[1], *r)
                for w in range(1, 7) if pad else (1,):
                    yield b, "%s, width %d" % (n, w), [v] + ([K(w)] if pad else []), []
            elif n == "pgdatetime::common::append_seconds":
                f = V("fraction", -999999, 999999)
                for fill in (True, False):
                    for sg, cd in (("negative", T.gt(-f)), ("zero", T.eq(f)), ("positive", T.gt(f))):
                        yield (b, "append_seconds %s, fraction %s" % ("filled" if fill else "plain", sg),
                               [V("sec", -I32[1], I32[1]), f, K(6), fill], [cd])

    def written(b, name, args, conds):
        J = Judge(P, c, max_paths=20000)
        for k in models.WRITERS:
            J.I.models.pop(k, None)

        def mk(I):
            st = I.start(b, [Ref(("arg", "buf"), (), ZERO, K(128))] + args)
            st.mem[("arg", "buf")] = Buf("buf", K(128), I.ty_u8, "zero")
            out = [st]
            for cd in conds:
                out = [s for x in out for s in x.assume(cd)]
            return out

        def spec(S, st):
            for cd in ascii_conds(J.I, st, (None, st.mem[("arg", "buf")])):
                if not S.ask(cd):
                    return False
            return True
        J.judge("bytes written are ASCII", name, b, mk, spec, got=lambda st: True, panics=undefined)

    for b, name, args, conds in writers():
        written(b, name, args, conds)

    for m, ty, r in (("date", "Date", I32), ("time", "Time", I64), ("timestamp", "Timestamp", I64), ("interval", "Interval", None)):
        b = Judge(P, c).need("%s::%s::format" % (m, ty))
        if not b:
            continue
        styles = STYLES if m != "interval" else ["Postgres", "PostgresVerbose", "SQLStandard", "ISO8601"]
        for s in styles:
            for o in ORDERS if m in ("date", "timestamp") else (None,):
                def mk(I, s=s, o=o):
                    i = Input(I, b)
                    i.interval("i") if m == "interval" else i.newtype(V("raw " + m, *r))
                    i.enum(s)
                    if o:
                        i.enum(o)
                    return i.state()
                name = "%s %s%s" % (m, s, " " + o if o else "")
                if o:
                    judge(name + ", valid values", b,
                          lambda I: (Input(I, b).date("d") if m == "date" else Input(I, b).ts("t")).enum(s).enum(o).state(), 20000, True)
                judge(name, b, mk, 20000)
    # everything else that contains an unsafe operation, on arbitrary arguments
    total = 0
    for b in P.insts:
        if not b or "blocks" not in b or not b["local"] or "pgv_witness" in b["name"]:
            continue
        k = sites(P, b)
        total += len(k)
        left = {x for x in k if (b["name"], x) not in seen}
        if left:
            judge("body of " + b["name"], b, lambda I: anything(I, b))
            for x in sorted(k):
                if (b["name"], x) not in seen:
                    c.undecided("unsafe operation", "%s in %s" % (x, b["name"]), "no argument for this operation")
    c.count("unsafe operations", total)
