"""C02: no history dependence."""
import report
from ops import *
from memory import *
import keywords

TECHNIQUE = ("effect analysis of the call graph (outside state, lasting memory), and value analysis of MIR of call pairs sharing their "
             "lasting memory, compared with the second call alone")
NOTE = ("decides that no public operation reaches a clock, environment, file, network, process, thread or random source; which "
        "memory outlives a call and which operations touch it; and, for the operations that do, that the second call of a pair returns what it "
        "returns alone: for the keyword lookups after every keyword of both tables at the same and at other positions (all keywords, "
        "their prefixes and extensions), for the string parsers over pairs of texts. Memory per position is one entry, so longer histories "
        "reduce to the last lookup (checked: what a lookup leaves behind depends on its own word only)")
ASSUMPTIONS = ["RefCell, Cell, atomics and mutexes hold what was last stored; thread-local memory starts from its initialiser on every thread"]

OUTSIDE = ("std::time::SystemTime::now", "std::time::Instant::now", "std::env::", "std::fs::", "std::net::", "std::process::", "std::io::stdin",
           "std::thread::current", "std::thread::spawn", "std::random::", "std::time::SystemTime::elapsed", "std::time::Instant::elapsed")


def callees(P, b):
    """instances called or referred to by a body"""
    def walk(x):
        if isinstance(x, dict):
            if "ty" in x and isinstance(x["ty"], int):
                t = P.types[x["ty"]]
                if t and t["k"] in ("fndef", "closure") and t.get("inst") is not None:
                    yield t["inst"]
            for v in x.values():
                yield from walk(v)
        elif isinstance(x, list):
            for v in x:
                yield from walk(v)
    out = set()
    for bb in b["blocks"]:
        out.update(walk(bb["term"]))
        for s in bb["st"]:
            out.update(walk(s))
    for l in b["locals"]:       # closures handed on by value
        t = P.types[l]
        if t and t["k"] == "closure" and t.get("inst") is not None:
            out.add(t["inst"])
    return out


def statics(P, b):
    """lasting memory a body refers to: mutable statics, and thread-local keys"""
    def walk(x):
        if isinstance(x, dict):
            for o, p in x.get("prov") or []:
                yield p
            for v in x.values():
                yield from walk(v)
        elif isinstance(x, list):
            for v in x:
                yield from walk(v)
    out = set()
    for bb in b["blocks"]:
        for p in walk([bb["term"], bb["st"]]):
            a = P.allocs[p]
            if a["k"] == "static" and a.get("mut"):
                out.add(a["name"])
        t = bb["term"]
        if t["t"] == "call" and "c" in t["f"]:
            ty = P.types[t["f"]["c"]["ty"]]
            f = P.insts[ty["inst"]] if ty["k"] == "fndef" and ty.get("inst") is not None else None
            if f and f["def"].startswith("std::thread::LocalKey::"):
                for nm in locals_of(P, bb, b):
                    out.add(nm)
    return out


def locals_of(P, bb, b):
    keys = {}
    for it in P.const_items():
        pv = it.get("value", {}).get("prov") or []
        if len(pv) == 1 and P.types[it["ty"]].get("name", "").endswith("LocalKey"):
            keys[P.allocs[pv[0][1]].get("inst")] = it["name"]

    def walk(x):
        if isinstance(x, dict):
            for o, p in x.get("prov") or []:
                a = P.allocs[p]
                pv = a.get("prov") or []
                if len(pv) == 1 and P.allocs[pv[0][1]].get("inst") in keys:
                    yield keys[P.allocs[pv[0][1]]["inst"]]
            for v in x.values():
                yield from walk(v)
        elif isinstance(x, list):
            for v in x:
                yield from walk(v)
    return set(walk([b["blocks"]]))


def graph(P):
    g = {}
    for k, b in enumerate(P.insts):
        if b and "blocks" in b:
            g[k] = callees(P, b)
    return g


def reach(P, g, k):
    """instances reachable from k, with the caller each was reached from"""
    seen, work = {k: None}, [k]
    while work:
        x = work.pop()
        for y in g.get(x, ()):
            if y not in seen:
                seen[y] = x
                work.append(y)
    return seen


def path(P, seen, k):
    out = []
    while k is not None:
        out.append(P.insts[k]["name"].replace("pgdatetime::", ""))
        k = seen[k]
    return " <- ".join(out)


def canon(I, st, v, depth=0):
    """a value with every reference followed and every unknown text dropped"""
    v = I.force(st, v)
    if depth > 12:
        return "..."
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, Lin):
        return str(st.facts.norm(v))
    if isinstance(v, FV):
        return ("f", v.sp, str(v.v) if v.sp is None else "")
    if isinstance(v, Agg):
        n = ""
        if v.ty is not None and I.types[v.ty].get("variants"):
            n = I.types[v.ty]["variants"][v.v]["name"]
        return (n,) + tuple(canon(I, st, x, depth + 1) for x in v.f)
    if isinstance(v, Ref) and v.len is None:
        return ("&", canon(I, st, I.getp(st, v.cell, v.path), depth + 1))
    return "?"


class Pairs:
    def __init__(self, P, c):
        self.P, self.c = P, c
        self.J = Judge(P, c, max_paths=300, max_steps=2000000)
        self.M = Memory(self.J)
        self.touched = set()

    def call(self, b, mk, mem=None):
        """(result, lasting memory) of one call, or None where it is not a single known path"""
        st = mk(self.J.I)
        for k, v in (mem or {}).items():
            st.mem[k] = v
        try:
            out = self.J.I.run(st)
        except (TypeError, KeyError, IndexError, AttributeError) as e:      # no answer for this call
            self.lost = [str(e)]
            return None
        self.lost = [o.status for o in out if o.status[0] == "lost"]
        out = [o for o in out if not (o.status[0] == "panic" and len(out) > 1)]
        if len(out) != 1 or out[0].status[0] == "lost":
            return None
        o = out[0]
        r = ("panic",) if o.status[0] == "panic" else canon(self.J.I, o, o.ret)
        return r, lasting(o.mem)

    def compare(self, rule, subject, b, mk, history, first):
        """the call after each history entry (label, lasting memory) returns what it returns alone"""
        alone = self.call(b, mk)
        if alone is None:
            self.c.undecided(rule, subject, "not a single path %s" % self.lost[:1])
            return
        n = 0
        for label, mem in history:
            r = self.call(b, mk, mem)
            if r is None:
                self.c.undecided(rule, "%s after %s" % (subject, label), "not a single path %s" % self.lost[:1])
            elif r[0] != alone[0]:
                self.c.bad(rule, "%s after %s" % (subject, label), "the call returns %s alone, but %s after %s"
                           % (show(alone[0]), show(r[0]), label), report.where(b, b["span"]))
                return
            else:
                n += 1
        self.c.count("pairs of calls compared", n)
        if n:
            self.c.ok(rule, "%s after %d earlier calls" % (subject, n))


def show(r):
    return str(r).replace("'", "")[:160]


def bytes_arg(I, b, field, word):
    i = Input(I, b)
    i.const(field)
    i.args.append(Ref(("tok",), (), ZERO, K(len(word))))
    st = i.state()[0]
    st.mem[("tok",)] = Arr([K(x) for x in word.encode("latin1")])
    return st


def lookup_fns(P, J):
    """the functions mapping (position, word) to a keyword's meaning that touch lasting memory"""
    out = []
    for b in P.insts:
        if b and "blocks" in b and b["local"] and b["argc"] == 2 and "{" not in b["name"]:
            t1, t2, r = (P.types[b["locals"][i]] for i in (1, 2, 0))
            if t1["k"] == "int" and t2["k"] == "ref" and P.types[t2["to"]]["k"] == "slice" and r["k"] == "tuple" and len(r["elems"]) == 2:
                a, z = (P.types[x] for x in r["elems"])
                if a["k"] == "adt" and a.get("adt") == "enum" and z["k"] == "int" and r is not t1:
                    out.append(b)
    return out


TEXTS = {
    "Date": ["2001-02-03", "69-02-03", "70-02-03", "00-02-03", "99-12-31", "4713-01-01 BC", "5874897-12-31", "Feb 3 2001", "February 3 2001", "Sunday Feb 3 2001", "Sun Feb 3 2001", "99-02-03 BC", "2001-02-03 AD", "J2451187", "y2001m02d03",
             "jan 3 99", "infinity", "epoch", "3 sept 70", "3 sep 69", "June 5 2004", "Thurs Mar 4 2004", "junk 5 2004", "2004.077"],
    "Timestamp": ["2001-02-03 04:05:06", "Feb 3 2001 04:05 PM", "2001-02-03 04:05:06.789 AM", "y2001m02d03h04mm05s06", "infinity", "epoch", "20010203T040506", "January 3 2001 11:12:13 am",
                  "Mon Jan 3 2001 11:12:13", "2001-02-03 04:05 bc", "m07 d04 y2002"],
    "Time": ["04:05:06", "04:05 PM", "040506", "04:05:06.7 am", "allballs", "12:00 am", "h04 m05 s06.5"],
    "Interval": ["1 day", "1 d", "5 m", "5 mon", "5 min", "5 mins ago", "1 year 2 mons", "1 y 2 m 3 d 4 h 5 s", "3 c", "3 dec", "1 week", "P1Y2M3DT4H5M6S", "1-2", "6 ms", "2 us ago", "2 sec",
                 "2 second", "1 decade", "2 millennia", "3 mil", "infinity 1 day", "7 junk"],
}


def parse_state(I, b, ty, text):
    i = Input(I, b)
    i.args.append(Ref(("str",), (), ZERO, K(len(text))))
    if ty == "Interval":
        i.const(-1).enum("Postgres")
    elif ty == "Date":
        i.enum("YMD")
    else:
        i.const(-1).enum("YMD")
    st = i.state()[0]
    st.mem[("str",)] = Arr([K(x) for x in text.encode()])
    return st


def values(I, ty, name):
    """sample values of a parameter type"""
    t = I.types[ty]
    if t["k"] == "ref":
        ty = t["to"]
        t = I.types[ty]
    if t["k"] == "int":
        return [K(x) for x in (3, 1, 40)]
    if t["k"] == "float":
        return [FV(K(1)), FV(K(Fraction(5, 2)))]
    if t["k"] == "bool":
        return [False, True]
    if t["k"] == "adt" and t.get("adt") == "enum" and t["variants"]:
        return [Agg(ty, i, ()) for i, v in enumerate(t["variants"]) if not v["fields"]][:24]
    if t["k"] == "adt" and t.get("variants") and t["adt"] == "struct":
        fs = t["variants"][0]["fields"]
        if all(I.types[f]["k"] == "int" for _, f in fs):
            if len(fs) == 1:
                big = I.types[fs[0][1]]["bits"] == 64
                return [Agg(ty, 0, [K(x)]) for x in ((3723000001, 86400000000 * 400 + 5000000, -86400000000 * 36600 + 7) if big else (3, 400, -36600, 40))]
            return [Agg(ty, 0, [K(a + j) for j in range(len(fs))]) for a in (1, 40, -70)]
    raise Undecided("no sample of parameter " + t.get("str", t["k"]))


def run(P, c):
    J = Judge(P, c)
    g = graph(P)
    public = [k for k, b in enumerate(P.insts) if b and "blocks" in b and b["local"] and b.get("exported")
              and "pgv_witness" not in b["name"]]
    c.floor("public operations", len(public), 60)
    own = {k: statics(P, b) for k, b in enumerate(P.insts) if b and "blocks" in b and not b["name"].startswith("std::thread::local_impl")}
    uses = {}
    for k in public:
        seen = reach(P, g, k)
        name = P.insts[k]["name"].replace("pgdatetime::", "")
        n = 0
        for f in seen:
            d = P.insts[f]["def"]
            if any(d.startswith(o) for o in OUTSIDE):
                n += 1
                c.bad("outside state", "%s reaches %s" % (name, d), "the operation reads state outside its arguments: " + path(P, seen, f))
            if P.insts[f].get("foreign"):
                n += 1
                c.undecided("outside state", "%s reaches %s" % (name, d), "foreign function")
        if not n:
            c.ok("outside state", "%s: %d functions reachable, none reads outside state" % (name, len(seen)))
        for f in seen:
            for s in own.get(f, ()):
                uses.setdefault(s, set()).add(k)
    c.subjects["lasting memory"] = {s: sorted(P.insts[k]["name"] for k in ks) for s, ks in uses.items()}
    c.count("functions in the call graph", len(g))
    c.count("lasting memory cells", len(uses))

    lookups = lookup_fns(P, J)
    gl = {k: reach(P, g, k) for k, b in enumerate(P.insts) if b in lookups}
    lookups = [(k, P.insts[k]) for k in gl if any(own.get(f) for f in gl[k])]
    jobs = []
    words = sorted({w for t in (keywords.DATE, keywords.DELTA) for w in t})
    near = sorted({w[:n] for w in words for n in range(1, len(w))} | {w + "x" for w in words} | {"zzz"})
    cells = {}
    for k, b in lookups:
        cells[k] = set().union(*[own.get(f, set()) for f in gl[k]])
    # the step: any remembered keyword, any word
    nm = lambda b: b["name"].rsplit("::", 1)[1]
    hist = {}

    def histories(k, b, field):
        if (k, field) not in hist:
            Q = Pairs(P, report.Check("C02", TECHNIQUE))
            h = []
            for w in ["zzz"] + words:
                r = Q.call(b, lambda I: bytes_arg(I, b, field, w))
                if r and w == "zzz":
                    unknown = r[0]
                if r and (w == "zzz" or r[0] != unknown or c.tier == "thorough"):     # a word not found leaves nothing behind
                    h.append((w, r[1]))
            hist[(k, field)] = h
        return hist[(k, field)]

    def lookup_job(k, b, kh, bh, fh, field, ws, only=None):
        def job():
            try:
                Q = Pairs(P, c)
                alone = Q.call(b, lambda I: bytes_arg(I, b, field, "zzz"))
                for w in ws:
                    me = Q.call(b, lambda I: bytes_arg(I, b, field, w))
                    rel = only or (c.tier != "thorough" and me and alone and me[0] == alone[0])     # words that are no keyword: related ones only
                    h = [("%s(%d, '%s')" % (nm(bh), fh, x), m) for x, m in histories(kh, bh, fh)
                         if not rel or x.startswith(w) or w.startswith(x) or x == "zzz"]
                    if h:
                        Q.compare("lookup", "%s(%d, '%s') [%s %d]" % (nm(b), field, w, nm(bh), fh), b, lambda I: bytes_arg(I, b, field, w), h, None)
            except Undecided as e:
                c.undecided("lookup", nm(b), str(e))
        return job
    for k, b in lookups:
        for f in range(0, 8):
            jobs.append(lookup_job(k, b, k, b, 3, 3, words[f::8]))
            jobs.append(lookup_job(k, b, k, b, 3, 3, near[f::8], "near"))
        for fh, fw in ((0, 0), (0, 1), (2, 1), (24, 24), (23, 24), (0, 24)):
            jobs.append(lookup_job(k, b, k, b, fh, fw, words, "near"))
        for k2, b2 in lookups:
            if k2 != k and cells[k2] & cells[k]:
                for f in range(0, 8):
                    jobs.append(lookup_job(k, b, k2, b2, 3, 3, words[f::8]))
            elif k2 != k:
                c.ok("lookup", "%s and %s share no memory" % (nm(b), nm(b2)))
    if not lookups and uses:
        c.undecided("lookup", "keyword lookups", "no function maps a position and a word to a meaning through lasting memory")

    # whole operations
    covered = {k for kl in gl.values() for k in kl}
    lookup_cells = set().union(*cells.values()) if cells else set()
    parsers = {}
    for ty in TEXTS:
        b = J.need("%s::%s::try_from_str" % (ty.lower(), ty))
        if b:
            parsers[ty] = b

    def texts_job(ty, part):
        def job():
            try:
                Q = Pairs(P, c)
                h = []
                for ty2, b2 in parsers.items():
                    for x in TEXTS[ty2]:
                        r = Q.call(b2, lambda I: parse_state(I, b2, ty2, x))
                        if r:
                            h.append(("%s '%s'" % (ty2, x), r[1]))
                for x in TEXTS[ty][part::4]:
                    b = parsers[ty]
                    Q.compare("parse", "%s '%s'" % (ty, x), b, lambda I: parse_state(I, b, ty, x), h, None)
            except Undecided as e:
                c.undecided("parse", ty, str(e))
        return job
    for ty in parsers:
        for part in range(4):
            jobs.append(texts_job(ty, part))
    # operations that newly touch memory
    pk = {k for k in public if P.insts[k] in parsers.values()}
    other = sorted({k for s, ks in uses.items() for k in ks} - pk)
    for k in other:
        jobs.append(sampled_job(P, c, k))
    report.parallel(c, jobs)
    if uses and not c.counts.get("pairs of calls compared"):
        c.undecided("anchor", "pairs of calls", "none compared although memory outlives calls")


def sampled_job(P, c, k):
    """an operation with lasting memory that is no parser: every pair of sample argument lists"""
    b = P.insts[k]
    name = b["name"].replace("pgdatetime::", "")

    def job():
        import itertools
        try:
            Q = Pairs(P, c)
            I = Q.J.I
            lists = list(itertools.product(*[values(I, b["locals"][i + 1], "") for i in range(b["argc"])]))[:60]

            def mk(vals):
                def f(I):
                    i = Input(I, b)
                    for v in vals:
                        i.add(v)
                    return i.state()[0]
                return f
            h = []
            for a in lists:
                r = Q.call(b, mk(a))
                if r:
                    h.append((str(a), r[1]))
            for a in lists:
                Q.compare("operation", "%s%s" % (name, a), b, mk(a), h, None)
        except Undecided as e:
            c.undecided("operation", name, str(e))
    return job
