"""C03: a malformed part of an input string is never silently ignored."""
from texts import *
from c22 import STAMP, CLOCK, FORMS, CLOCKS, build, stamp_spec, PARTS, span_spec
import c26

TECHNIQUE = "value analysis of MIR: every decode step made to fail on every path, and malformed texts, tokenizer to result"
ASSUMPTIONS = ["the decode steps reached by the listed text forms (evidence names the call sites)"]
NOTE = ("at every call of a decode step on every path through the documented text forms the step is made to fail, and the parse "
        "must fail; texts with a malformed token are errors for all digits; each form is accepted exactly when its date and "
        "time of day are real ones")

FAULT, SITE = ("fault",), ("fault-site",)
ISO = "parse::decode_iso8601_interval"


def kinds(I, ety):
    """(path of types to the enumeration of error kinds, variant names)"""
    t = I.types[ety]
    if t["k"] == "adt" and t.get("adt") == "enum" and {"Invalid", "Overflow"} <= {v["name"] for v in t["variants"]}:
        return [ety]
    if t["k"] == "adt" and t.get("adt") != "enum":
        for n, ft in t["variants"][0]["fields"]:
            r = kinds(I, ft)
            if r:
                return [ety] + r
    return None


def failure(c, ety, kind):
    """an error value of the given kind"""
    def mk(ty):
        t = c.I.types[ty]
        if t.get("adt") == "enum":
            for i, v in enumerate(t["variants"]):
                if v["name"] == kind:
                    return Agg(ty, i, [Opaque(ft, "message#%d" % c.I.uniq(), "in") for n, ft in v["fields"]])
        return Agg(ty, 0, [mk(ft) if kinds(c.I, ft) else Opaque(ft, "error#%d" % c.I.uniq(), "in") for n, ft in t["variants"][0]["fields"]])
    return mk(ety)


def result_steps(P):
    """local functions returning Result<_, E> with E an error kept apart from overflow and invalid text"""
    out = []
    for x in P.insts:
        if x and "blocks" in x and x["name"].startswith("pgdatetime::"):
            t = P.types[x["locals"][0]]
            if t["k"] == "adt" and t.get("adt") == "enum" and [v["name"] for v in t["variants"]] == ["Ok", "Err"]:
                e = t["variants"][1]["fields"][0][1]
                out.append((x, e))
    return out


def fault_model(X, x, ety):
    """the step fails, once on a path; the failure may not be lost"""
    name = x["def"]

    def f(c, *args):
        st = c.st
        k = st.mem.get(FAULT)
        if k is not None:
            if name.endswith(ISO) and k == "Invalid":
                st.mem[FAULT] = "retried"       # the documented retry of an interval
            return BODY
        n = st.mem.get(SITE, 0) + 1
        kind = None
        if c.fork(T.ge(V("fails.%d" % n, 0, 1) - 1)):
            kind = "Overflow" if not X.retry or c.fork(T.ge(V("overflow.%d" % n, 0, 1) - 1)) else "Invalid"
        st.mem[SITE] = n
        X.c.count("site %s -> %s" % (c.fr.body["def"], name))
        if kind is None:
            return BODY
        st.mem[FAULT] = kind
        return c.variant(c.dty, "Err", [failure(c, ety, kind)])
    f.nargs = x["argc"]
    return f


def must_fail(S, v, w):
    return ERR if S.st.mem.get(FAULT) in ("Invalid", "Overflow") else None


def real(v):
    """fields in their usual ranges"""
    lim = {"Y": (1900, 2030), "M": (1, 12), "m": (1, 12), "D": (1, 28), "h": (1, 11), "mi": (0, 59), "s": (0, 59), "j": (2000000, 2900000)}
    out = []
    for k, x in v.items():
        n = k.rstrip("0123456789")
        if n in lim:
            out += [T.ge(x - lim[n][0]), T.ge(K(lim[n][1]) - x)]
    return out


# one text of every kind the parsers know, with the fields in their usual ranges
DATES = ["{Y:4}-{M:2}-{D:2}", "{Y:4}/{M:2}/{D:2}", "{Y:4}.{M:2}.{D:2}", "{Y:4}-Jan-{D:2}", "{D:2}-Feb-{Y:4}", "Mar-{D:2}-{Y:4}",
         "{D:2}-{Y:4}-apr", "Jan {D:2}, {Y:4}", "{D:2} sept {Y:4}", "{Y:4} May {D:2}", "{Y:4}{M:2}{D:2}", "{y:2}{M:2}{D:2}", "{Y:4}.{n:3}",
         "J{j:7}", "J{j:7}.{f:3}", "julian {j:7}", "{Y:4}-{M:2}-{D:2} BC", "{Y:4}-{M:2}-{D:2} ad", "Monday {Y:4}-{M:2}-{D:2}",
         "y{Y:4}m{M:2}d{D:2}", "{Y:5}-{M:2}-{D:2}", "{M:1}/{D:1}/{Y:4}"]
CLOCK_TEXTS = ["{h:2}:{mi:2}:{s:2}", "{h:2}:{mi:2}", "{h:2}:{mi:2}:{s:2}.{f:6}", "{h:2}:{mi:2}:{s:2}.{f:8}", "{h:2}{mi:2}{s:2}",
               "{h:2}{mi:2}{s:2}.{f:3}", "{h:2}:{mi:2} PM", "{h:2}:{mi:2}:{s:2} am", "h{h:2}mm{mi:2}s{s:2}.{f:3}",
               "h{h:2}m{mi:2}s{s:2}", "t{h:2}{mi:2}{s:2}", "t{h:2}:{mi:2}", "allballs",
               "{mi:2}:{s:2}.{f:3}", "{h:2}.{f:2}", "{h:2}"]
SPANS = ["{n:2} years {m:2} mons", "{n:2} day", "-{n:2} weeks", "+{n:2} hours", "{n:2}.{f:3} years", "{n:2}.{f:2} decades", "{n:2}.{f:1} centuries",
         "{n:2}.{f:1} millennium", "{n:2}.{f:3} mons", "{n:2}.{f:3} days", "{n:2}.{f:3} weeks", "{n:2}.{f:3} hours", "{n:2}.{f:3} mins", "{n:2}.{f:3} secs",
         "{n:2}.{f:3} ms", "{n:2}.{f:3} us", ".{f:2} day", "{n:2} {h:2}:{mi:2}:{s:2}", "{n:2}-{m:1}", "-{n:2}-{m:1} {d:2} {h:2}:{mi:2}:{s:2}",
         "{h:2}:{mi:2}:{s:2}.{f:6}", "-{h:2}:{mi:2}:{s:2}", "+{h:2}:{mi:2}", "@ {n:2} years {m:2} mons ago", "{n:2} years {d:2} days ago",
         "P{n:2}Y{m:2}M{d:2}DT{h:2}H{mi:2}M{s:2}S", "P{n:2}.{f:2}Y", "P{n:2}.{f:2}M", "P{n:2}.{f:2}W", "P{n:2}.{f:2}D", "PT{n:2}.{f:2}H", "PT{n:2}.{f:2}M",
         "PT{n:2}.{f:2}S", "P-{n:2}YT-{s:2}S", "P{Y:4}-{M:2}-{D:2}T{h:2}:{mi:2}:{s:2}", "P{Y:4}{M:2}{D:2}T{h:2}{mi:2}{s:2}", "P{Y:4}-{M:2}-{D:2}",
         "P{Y:4}-{M:2}", "P{Y:4}", "P{Y:4}T{h:2}", "P{Y:4}-{M:2}T{h:2}:{mi:2}", "PT{h:2}:{mi:2}:{s:2}.{f:3}"]


def texts():
    """(type, template, order)"""
    out = []
    for d in DATES:
        for o in ("YMD", "DMY", "MDY"):
            out.append(("Date", d, o))
            out.append(("Timestamp", d, o))
        for t in CLOCK_TEXTS:
            if "{f:8}" in t and d != DATES[0]:
                continue
            out.append(("Timestamp", d + " " + t, "YMD"))
        out.append(("Date", d + " " + CLOCK_TEXTS[0], "YMD"))
    out.append(("Timestamp", DATES[0] + "T" + CLOCK_TEXTS[2], "YMD"))
    for t in CLOCK_TEXTS:
        out.append(("Time", t, "YMD"))
        out.append(("Timestamp", t + " " + DATES[0], "YMD"))
        out.append(("Time", t + " {Y:4}{M:2}{D:2}", "YMD"))
    for d in DATES:
        out.append(("Time", d + " " + CLOCK_TEXTS[0], "YMD"))
    out += [("Timestamp", t, "YMD") for t in ("infinity", "-infinity", "epoch", "now", "invalid")]
    out += [("Interval", t, "YMD") for t in SPANS]
    return out


def faults(X, P, c):
    X.retry = False
    steps = result_steps(P)
    for x, e in steps:
        if kinds(X.J.I, e):
            X.J.I.models[x["def"]] = fault_model(X, x, e)
    for ty, t, o in texts():
        X.judge("fault", ty, t, must_fail, order=o, assume=real)
    X.run()
    X.retry = True
    for t in SPANS:
        X.judge("fault", "Interval", t, must_fail, subject="Interval %r either error" % t, assume=real)
    X.run()
    seen = {k[5:] for k in c.counts if k.startswith("site ")}
    for k in list(c.counts):
        if k.startswith("site "):
            del c.counts[k]
    names = {x["def"] for x, e in steps if kinds(X.J.I, e)}
    every = edges(P, names)
    c.count("call sites made to fail", len(seen & every))
    c.count("call sites of decode steps", len(every))
    c.subjects["not reached"] = sorted(every - seen)


def edges(P, names):
    """caller -> callee for the steps called by functions reachable from the parsers"""
    by = {}
    for x in P.insts:
        if x and "blocks" in x:
            by.setdefault(x["def"], []).append(x)
    todo = [n for n in by if n.endswith("::try_from_str")]
    done, out = set(todo), set()
    while todo:
        n = todo.pop()
        for x in by[n]:
            for b in x["blocks"]:
                t = b["term"]
                if t["t"] != "call":
                    continue
                i = P.types[t["f"]["c"]["ty"]].get("inst") if "c" in t["f"] else None
                m = P.insts[i]["def"] if i is not None else None
                if m in names:
                    out.add("%s -> %s" % (n, m))
                if m in by and m not in done:
                    done.add(m)
                    todo.append(m)
    return out


# ---- texts with a part that means nothing ----------------------------------------------------------

D, TM = "{Y:4}-{M:2}-{D:2}", "{h:2}:{mi:2}:{s:2}"
# tokens that are no part of any date, time or interval
ALIEN = ["xyz", "q", "tuesdayx", "tuesd", "janx", "marchh", "zzzzzzzzzzzzzzzzzzzzzzzz", "{n:40}", "\x7f", "\u00e9", "\x01"]
STAMP_JUNK = ["-", "+", ".", "h", "s", "mm", "ago", "week", "month", "{n:3}-{m:2}", "-{n:2}", "+{n:2}:{m:2}"]
LABELS = ["y", "m", "d", "j", "t"]          # meaning nothing at the end
SPAN_JUNK = [".", "monday", "jan", "am", "bc", "t", "{n:2}:{m:2}:{k:2}:{j:2}", "{n:2}.{m:2}.{k:2}", "{n:2}/{m:2}", "{n:2}:{m:2}x", "-x", "infinity", "today"]
BROKEN_DATES = ["{Y:4}-{M:2}-", "{Y:4}--{D:2}", "{Y:4}-{M:2}", "{Y:4}-", "{Y:4}", "-{M:2}-{D:2}", "{Y:4}-{M:2}-{D:2}-{n:2}", "{Y:4}-xx-{D:2}",
                "{Y:4}-{M:2}-{D:2}x", "{Y:4}/{M:2}", "{Y:4}/{M:2}/", "{Y:4}/{M:2}/{D:2}/", "{Y:4}.{M:2}.{D:2}.{n:2}", "{Y:4}-{M:2}-{D:2}.{n:2}",
                "{Y:4}-jan", "{Y:4}-jan-", "jan-{D:2}", "jan", "jan {D:2}", "{D:2} janx {Y:4}", "{Y:4}-feb-mar", "J", "J-{j:3}", "Jx", 
                "y{Y:4}m{M:2}d", "y{Y:4}m{M:2}", "ym{M:2}d{D:2}", "y{Y:4}.{n:2}m{M:2}d{D:2}", "y{Y:4}m{M:2}.{n:2}d{D:2}", "{Y:5}", "{Y:3}{M:2}", "{n:1}", "{n:2}",
                "{n:12}-{M:2}-{D:2}", "{Y:4}-{M:2}-{n:11}", "{n:20}", "", " ", "am", "bc", "monday", "t", "y", "-infinity {Y:4}", "infinityx",
                "+infinity", "- {Y:4}-{M:2}-{D:2}", "bc {Y:4}", "ago", "week {n:2}"]
UNDATED = ["", " ", "am", "bc", "monday", "{Y:4}", "{Y:5}", "bc {Y:4}", "{n:1}", "{n:2}", "jan", "jan {D:2}", "{Y:3}{M:2}", "y{Y:4}m{M:2}"]     # with a time: see undated()
BROKEN_CLOCKS = ["{h:2}:{mi:2}:{s:2}:{n:2}", "{h:2}:{mi:2}:{s:2}.{f:2}.{g:2}", "{h:2}:xx", "{h:2}:{mi:2}:xx", "x{h:2}:{mi:2}", "{h:2}:{mi:2}x", "{h:2}:{n:11}",
                 "{h:2}:{mi:2}:{n:11}", "{n:11}:{mi:2}", "{h:2}{mi:2}{s:2}x", "{h:2}.{mi:2}:{s:2}", "{h:2}:{mi:2}:{s:2}am am", "{h:2}:{mi:2} xm", "{h:2}:{mi:2}-{s:2}",
                 "h{h:2}mm", "h{h:2}mm{mi:2}s", "h{h:2}.{f:2}mm{mi:2}s{s:2}", "h{h:2}mm{mi:2}.{f:1}s{s:2}", "hmm{mi:2}", "t", "th", "t t{h:2}:{mi:2}", "{h:2}:{mi:2} t", "t-{n:2}",
                 "h{h:2}mm{mi:2}s{s:2}x", "{h:2}:{mi:2}:{s:2}.{f:2}x", "{h:2}:{mi:2} +", "{h:2}:{mi:2} -"]
BROKEN_TIMES = BROKEN_CLOCKS + ["{n:1}", "{n:2}", "{n:3}", "{n:5}", "{n:12}", "", " ", "am", "bc", "infinity", "now", "y", "{h:2}:{mi:2} y", "{h:2}.{f:2}", "-{h:2}:{mi:2}",
                                "+{h:2}:{mi:2}", "{Y:4}-{M:2}-{D:2}", "jan", "j{j:5}", "h{h:2}", "mm{mi:2}", "s{s:2}", "h{h:2}s{s:2}", "ago", "day"]
BROKEN_SPANS = ["", " ", "year", "day {n:2}", "{n:2} year mon", "{n:2} dayx", "{n:2} xdays", "{n:2}day s", "{n:2} days ago ago", "ago", "ago {n:2} days", "{n:2} days ago {m:2}", "{n:2} ago",
                "y {n:2} day", "{h:2}:{mi:2}:{s:2} y", "{h:2}:{mi:2} hours", "y{h:2}:{mi:2}", "-{h:2}:{mi:2} y", ". day", "- day", "+ day", "{n:2}- day", "{n:2}-x", "{n:2}-{m:1}-{k:1}",
                "{n:2}--{m:1}", "{n:11} days", "-{n:12} us", "{n:30} years", "{n:2}.{f:2}.{g:2} days", "{n:2}/{m:2}", "{n:2}:{m:2}:{k:2}:{j:2}", "{n:2}:{m:2}x",
                "infinity", "-infinity", "now", "today", "epoch", "monday", "jan", "{n:2} jan", "{n:2} am", "invalid", "undefined",
                "P", "Px", "P{n:2}X", "P{n:2}Yx", "PY", "P{n:2}H", "PT{n:2}Y", "PT{n:2}D", "PT{n:2}X", "P-", "P.Y", "P-Y", "P{n:2}Y{m:2}", "P{n:11}Y", "PT{n:11}S", "P{Y:4}-", "P{Y:4}-{M:2}-",
                "P{Y:4}-{M:2}-{D:2}-", "P{Y:4}-{M:2}x", "P{Y:4}-{M:2}-{D:2}x", "P{Y:4}-x", "PT{h:2}:", "PT{h:2}:{mi:2}:", "PT{h:2}:x", "PT{h:2}:{mi:2}:{s:2}:", "PT{h:2}:{mi:2}x", "P{n:2}DT{h:2}:{mi:2}x",
                "P{Y:4}-{M:2}T{h:2}x", "p{n:2}y", " P{n:2}Y", "P {n:2}Y", "P{n:2} Y", "P+{n:2}Y", "P{n:2}YT{m:2}H ago", "{n:2} days P{m:2}Y", "PT--{n:1}S", "P{n:1}.{f:1}.{g:1}Y"]


def broken():
    for t in BROKEN_DATES:
        for o in ("YMD", "DMY", "MDY"):
            yield "Date", t, o
        yield "Timestamp", t, "YMD"
        if t not in UNDATED:
            yield "Timestamp", (t + " " + TM).strip(), "YMD"
    for t in (TM, "{h:2}:{mi:2}", "{h:2}:{mi:2} pm", "allballs", "h{h:2}mm{mi:2}s{s:2}.{f:3}", "monday " + TM):
        yield "Date", t, "YMD"
    for t in BROKEN_CLOCKS:
        yield "Timestamp", D + " " + t, "YMD"
        yield "Date", D + " " + t, "YMD"
    for t in BROKEN_TIMES:
        yield "Time", t, "YMD"
    for t in BROKEN_SPANS:
        yield "Interval", t, "YMD"
    for j in LABELS:
        for ty, t in (("Date", D), ("Date", "{D:2} Jan {Y:4}"), ("Timestamp", D + " " + TM), ("Timestamp", "{Y:4}{M:2}{D:2} " + TM + " BC"), ("Time", TM), ("Time", "{h:2}{mi:2}{s:2} am")):
            yield ty, t + " " + j, "YMD"
    for j in ALIEN + STAMP_JUNK:
        for ty, base in (("Date", [D]), ("Date", ["{D:2}", "Jan", "{Y:4}"]), ("Timestamp", [D, TM]), ("Timestamp", [D, TM, "PM"]), ("Timestamp", ["{Y:4}{M:2}{D:2}", TM, "BC"])):
            for i in range(len(base) + 1):
                yield ty, " ".join(base[:i] + [j] + base[i:]), "YMD"
        for base in ([TM], [TM, "am"], ["{h:2}{mi:2}{s:2}"]):
            for i in range(len(base) + 1):
                yield "Time", " ".join(base[:i] + [j] + base[i:]), "YMD"
    for j in ALIEN + SPAN_JUNK:
        for base in (["{a:2}", "days"], ["{a:2}", "years", "{b:2}", "mons"], ["{a:2}", "days", TM], ["@", "{a:2}", "hours", "ago"], [TM]):
            for i in range(len(base) + 1):
                yield "Interval", " ".join(base[:i] + [j] + base[i:]), "YMD"


def junk(X):
    seen = set()
    for ty, t, o in broken():
        if (ty, t, o) not in seen:
            seen.add((ty, t, o))
            X.judge("malformed", ty, t, lambda S, v, w: ERR, order=o)


def undated(X):
    """a timestamp needs a date"""
    for t in (TM, "{h:2}:{mi:2}", "allballs"):
        X.judge("undated", "Timestamp", t, lambda S, v, w: ERR)


# ---- accepted texts have passed the checks of their fields -----------------------------------------

def validated(X):
    for toks, forms, types in ((STAMP, FORMS, ("Timestamp", "Date")), (CLOCK, CLOCKS, ("Time",))):
        by = {t.name: t for t in toks}
        for f in forms:
            seq = [by[n] for n in f.split()]
            for ty in types:
                X.judge("validated", ty, build(seq), stamp_spec(seq, ty, True), subject="%s form %s" % (ty, f))
    for style, orders, t in c26.DATES:
        for w, bc in ((4, False), (7, False), (4, True)):
            for o in orders:
                tt = t % w + (" BC" if bc else "")
                X.judge("validated", "Date", tt, date_text(bc), order=o)
                if w < 7:
                    for f in ("", ".{f:3}"):
                        X.judge("validated", "Timestamp", t % w + " " + TM + f + (" BC" if bc else ""), ts_text(bc), order=o)
    for f in ("", ".{f:1}", ".{f:6}"):
        X.judge("validated", "Time", TM + f, c26.time_text)
    for p in PARTS:
        X.judge("validated", "Interval", FIELD.sub(lambda m: "{%s0:%s}" % (m.group(1), m.group(2)), p[0]), span_spec([p], False))


def run(P, c):
    X = Texts(P, c)
    junk(X)
    undated(X)
    validated(X)
    X.run()
    faults(X, P, c)
    c.floor("texts decided", sum(1 for o in c.obligations if o[2] == "holds"), 1900)
    c.floor("call sites of decode steps made to fail", c.counts.get("call sites made to fail", 0), 15)
