"""C21: parsing never panics, overflows or loops forever."""
import itertools
import report
import c03
from texts import *

TECHNIQUE = ("value analysis of MIR: every overflow, index, slice, unwrap and division assertion, and every loop, on every path of the parsers over "
             "families of texts with unconstrained characters and digits")
NOTE = ("decides, for every text of up to two ASCII characters; every sequence of up to three (thorough: four) character classes; every documented text form with any one character "
        "replaced by or extended with any ASCII character, cut short anywhere, or with a non-ASCII character anywhere; numbers of 1 to 25 digits in every place "
        "a number can stand, with every unit, sign and designator; more tokens than the 25 a text may have and texts longer than the 128 bytes of the work buffer; every "
        "style, order and precision; that no assertion can fail (overflow assertions are those of a debug build, so a wrapped value is covered) and no loop "
        "repeats its state. Texts outside these families are not covered")
ASSUMPTIONS = ["the text families listed in the evidence; floating-point arithmetic does not trap"]

TYPES = ("Date", "Time", "Timestamp", "Interval")
ORDERS = ("YMD", "DMY", "MDY")
STYLES = ("Postgres", "PostgresVerbose", "SQLStandard", "ISO8601")

DATES = ["{Y:4}-{M:2}-{D:2}", "{Y:4}.{y:3}", "Jan {D:2} {Y:4}", "{Y:4}-Jan-{D:2}", "{Y:4}{M:2}{D:2}", "J{n:7}", "y{Y:4}m{M:2}d{D:2}", "{D:2}/{M:2}/{Y:2} BC", "Sun {M:1}.{D:1}.{Y:4}"]
CLOCKS = ["{h:2}:{mi:2}:{s:2}", "{h:2}:{mi:2}:{s:2}.{f:6}", "{h:2}:{mi:2} PM", "{h:2}{mi:2}{s:2}", "{h:2}{mi:2}{s:2}.{f:3}", "h{h:2}mm{mi:2}s{s:2}.{f:2}", "allballs"]
STAMPS = ["{Y:4}-{M:2}-{D:2} {h:2}:{mi:2}:{s:2}.{f:3}", "{Y:4}{M:2}{D:2}T{h:2}{mi:2}{s:2}", "Jan {D:2} {h:2}:{mi:2} {Y:4} BC", "J{n:7}.{f:3}", "{Y:4}-{M:2}-{D:2} {h:2}:{mi:2} +{z:2}", "infinity"]
SPANS = ["{n:2} years {m:2} mons -{d:2} days {h:2}:{mi:2}:{s:2}.{f:3}", "-{n:2}-{m:2} {d:2} {h:2}:{mi:2}", "{n:2}.{f:2} days ago", "@ {n:2} weeks", "{n:2}h {m:2}m", "P{n:2}Y{m:2}M{d:2}DT{h:2}H{mi:2}M{s:2}.{f:2}S",
         "P{n:4}-{m:2}-{d:2}T{h:2}:{mi:2}:{s:2}", "P-{n:2}W", "PT{n:2}.{f:2}H", "P{n:2}{m:2}{d:2}T{h:2}{mi:2}{s:2}"]
OF = {"Date": DATES, "Time": CLOCKS, "Timestamp": STAMPS, "Interval": SPANS}

# where a number can stand, by type; W is its width
NUMBERS = {
    "Date": ["{n:W}", "-{n:W}", "+{n:W}", ".{n:W}", "{n:W}.", "{n:W}.{m:2}", "{m:2}.{n:W}", "{n:W}-{m:2}-{k:2}", "{k:4}-{n:W}-{m:2}", "{k:4}-{m:2}-{n:W}", "{k:4}.{n:W}", "J{n:W}", "J-{n:W}", "J{k:6}.{n:W}",
             "Jan {n:W}", "Jan {m:2} {n:W}", "{n:W} BC", "{n:W}-Jan-{m:2}", "y{n:W}", "m{n:W}", "d{n:W}", "{n:W}/{m:2}/{k:4}", "{n:W}.{m:2}.{k:4}", "T{n:W}", "y{k:4} d{n:W}", "{n:W}T", "{n:W} {m:2} {k:2}"],
    "Time": ["{n:W}", "{n:W}:{m:2}", "{m:2}:{n:W}", "{m:2}:{k:2}:{n:W}", "{m:2}:{k:2}:{j:2}.{n:W}", "{n:W}.{m:3}", "{m:6}.{n:W}", "T{n:W}", "h{n:W}", "h{k:2} mm{n:W}", "s{n:W}", "s{k:2}.{n:W}", "{n:W} PM", "J{n:W}", "{m:2}:{k:2}-{n:W}",
             "{m:2}:{k:2}+{n:W}", "mm{n:W}", "{m:2}:{n:W}.{k:3}", "-{n:W}"],
    "Timestamp": ["{n:W}", "{n:W}T{m:6}", "{m:8}T{n:W}", "{k:4}-{m:2}-{j:2} {n:W}:{i:2}", "{k:4}-{m:2}-{j:2} {i:2}:{n:W}", "{k:4}-{m:2}-{j:2} {i:2}:{l:2}:{n:W}", "{k:4}-{m:2}-{j:2} {i:2}:{l:2}:{p:2}.{n:W}",
                  "{n:W}-{m:2}-{j:2} {i:2}:{l:2}", "J{n:W}", "J{m:7}.{n:W}", "J{m:7} {i:2}:{n:W}", "y{n:W}m{m:2}d{j:2}h{i:2}", "{k:4}-{m:2}-{j:2} h{n:W}", "{k:4}-{m:2}-{j:2} {n:W}", "{k:4}-{m:2}-{j:2} {i:2}:{l:2} +{n:W}",
                  "{n:W}.{m:3}", "{m:8}.{n:W}", "Jan {n:W} {i:2}:{l:2} {k:4}"],
    "Interval": ["{n:W}", "-{n:W}", "{n:W}-{m:2}", "{m:2}-{n:W}", "-{m:2}-{n:W}", "{n:W}:{m:2}", "{m:2}:{n:W}", "{m:2}:{k:2}:{n:W}", "{m:2}:{k:2}:{j:2}.{n:W}", "{m:2}:{n:W}.{k:2}", "{n:W}.{m:2}", "{m:2}.{n:W}", ".{n:W}",
                 "P{n:W}", "PT{n:W}", "P{n:W}-{m:2}-{k:2}", "P{m:4}-{n:W}-{k:2}", "P{m:4}-{k:2}-{n:W}", "P{m:4}-{k:2}-{j:2}T{n:W}:{i:2}", "P{m:4}-{k:2}-{j:2}T{i:2}:{n:W}", "PT{m:2}:{k:2}:{n:W}", "P{m:2}.{n:W}Y", "P-{n:W}.{m:2}M", "-{m:2}:{n:W}",
                 "{k:2} {n:W}:{m:2}", "@ {n:W} days ago"],
}
UNITS = ["millennia", "centuries", "decades", "years", "months", "weeks", "days", "hours", "mins", "secs", "ms", "us", "quarters", "y", "m", "s", "c", "dec"]
DESIGNATORS = ["P%sY", "P%sM", "P%sW", "P%sD", "PT%sH", "PT%sM", "PT%sS"]
WIDE = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17, 18, 19, 20, 21, 25)
CLASSES = ["{d%d:1}", "a", "T", "P", " ", ".", ":", "-", "+", "/", "@", "\u00e9"]
WORDS = ["{n:1}", "+{n:1}", "{n:1}.{m:1}", "a", "jan", "@", "-", "{n:1}:{m:1}", "{n:1}-{m:1}", "{n:1}/{m:1}", "am", "y", "d{n:1}", "day", ".", "+", "{n:1} day", "ago", "T", "P", "\u00e9"]
LONG = ["{n:1}", "a", ".", "/", "-", ":", "+", "@", " ", "1a", "1.", "1-", "a.", "1:", "\u00e9", "jan-", "P1Y", "T1"]


def pieces(t):
    """a template as one piece per character: literal characters and one-digit fields"""
    out = []
    pos = 0
    for m in FIELD.finditer(t):
        out += list(t[pos:m.start()])
        out += ["{%s%d:1}" % (m.group(1), k) for k in range(int(m.group(2)))]
        pos = m.end()
    return out + list(t[pos:])


def families(deep):
    """{family: [(type, template, order or style)]}"""
    F = {}
    some = [(ty, o) for ty in TYPES for o in (STYLES if ty == "Interval" else ORDERS)]
    first = [(ty, "Postgres" if ty == "Interval" else "YMD") for ty in TYPES]
    F["any characters"] = [(ty, t, o) for ty, o in (some if deep else first) for t in ("", "{any:1}", "{any:2}")]
    n = 4 if deep else 3
    F["character classes"] = [(ty, "".join(x % k if "%" in x else x for k, x in enumerate(s)), o)
                              for ty, o in first for r in range(1, n + 1) for s in itertools.product(CLASSES, repeat=r)]
    F["one character replaced"] = [(ty, "".join(p[:i] + ["{any:1}"] + p[i + 1:]), o) for ty, o in (some if deep else first) for t in OF[ty] for p in [pieces(t)] for i in range(len(p))]
    F["one character added"] = [(ty, "".join(p[:i] + ["{any:1}"] + p[i:]), o) for ty, o in first for t in OF[ty] for p in [pieces(t)]
                                for i in (range(len(p) + 1) if deep else (0, len(p) // 2, len(p)))]
    F["cut short"] = [(ty, "".join(p[a:b]), o) for ty, o in first for t in OF[ty] for p in [pieces(t)] for a, b in [(0, i) for i in range(1, len(p))] + [(i, len(p)) for i in range(1, len(p))]]
    F["character beyond ASCII"] = [(ty, "".join(p[:i] + ["\u20ac"] + p[i + 1:]), o) for ty, o in first for t in OF[ty] for p in [pieces(t)] for i in range(len(p))]
    ws = tuple(range(1, 41)) + (60, 100) if deep else WIDE
    F["numbers"] = [(ty, t.replace("W", str(w)), o) for ty, o in (some if deep else first + [("Date", "DMY"), ("Timestamp", "MDY"), ("Interval", "SQLStandard")]) for t in NUMBERS[ty] for w in ws]
    vs = (1, 4, 8, 9, 10, 11, 16, 19, 20, 25)
    F["units"] = [("Interval", "%s{n:%d}%s %s" % (s, w, f, u), o) for u in UNITS for w in (ws if deep else vs) for s in ("", "-") for f in ("", ".{f:3}") for o in ("Postgres",)]
    F["units"] += [("Interval", ".{f:%d} %s" % (w, u), "Postgres") for u in UNITS for w in (1, 9, 20)]
    F["designators"] = [("Interval", d % ("%s{n:%d}%s" % (s, w, f)), "Postgres") for d in DESIGNATORS for w in (ws if deep else vs) for s in ("", "-") for f in ("", ".{f:3}")]
    F["sums"] = [("Interval", "{n:%d} %s {m:%d} %s%s" % (w, a, w, b, g), "Postgres") for a, b in itertools.permutations(("years", "months", "weeks", "days", "hours", "secs", "decades", "ms"), 2)
                 for w in (10, 19) for g in ("", " ago")]
    F["sums"] += [("Interval", "P%s{n:10}%sT%s{m:19}%s" % (s, a, s, b), "Postgres") for a in "YMWD" for b in "HMS" for s in ("", "-")]
    ns = (23, 24, 25, 26, 27, 50) if deep else (24, 25, 26, 30)
    F["many tokens"] = [(ty, sep.join(x.replace("n:", "n%d:" % k).replace("m:", "m%d:" % k) if deep else x.replace("{n:1}", "1").replace("{m:1}", "2") for k in range(n)), o)
                        for ty, o in first for x in WORDS for n in ns for sep in (" ",)]
    ks = (50, 60, 63, 64, 65, 99, 100, 101, 120, 124, 125, 126, 127, 128, 129, 130, 200, 256, 300) if deep else (64, 126, 127, 128, 129, 140, 256)
    F["long"] = [(ty, pre + (x.replace("{n:1}", "7") * k)[:k], o) for ty, o in first for x in LONG for k in ks for pre in ("", "1 ") if (x != "\u00e9" or k < 200) and (k < 290 or not pre)]
    F["precision"] = [(ty, t, o, p) for ty, o in first if ty != "Date" for t in OF[ty][:3] for p in range(-2, 9)]
    import keywords
    ws = sorted(set(keywords.DATE) | set(keywords.DELTA))
    for ty, o in first:
        F["keywords"] = F.get("keywords", []) + [(ty, x % w, o) for w in ws for x in (("%s", "{n:2} %s", "%s {n:4}") if deep or ty in ("Interval", "Timestamp") else ("%s {n:2}",))]
    for k in ("BROKEN_DATES", "BROKEN_CLOCKS", "BROKEN_TIMES", "BROKEN_SPANS", "UNDATED", "DATES", "CLOCK_TEXTS", "SPANS"):
        F["malformed"] = F.get("malformed", []) + [(ty, t, o) for ty, o in some for t in getattr(c03, k) if not k.endswith("SPANS") or ty == "Interval"]
    return F


def run(P, c):
    X = Texts(P, c, loop_limit=400)
    fam = families(c.tier == "thorough")
    for name, ts in fam.items():
        done = set()
        for x in ts:
            if x in done:
                continue
            done.add(x)
            ty, t, o = x[:3]
            X.judge("no panic", ty, t, lambda S, v, w: None, order=o, style=o, typmod=x[3] if len(x) > 3 else -1,
                    subject="%s: %s %r %s%s" % (name, ty, t if len(t) < 120 else t[:60] + "... (%d characters)" % len(t), o, "" if len(x) < 4 else " precision %d" % x[3]))
        c.count("texts: " + name, len(done))
    X.run()
