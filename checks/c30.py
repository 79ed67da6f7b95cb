"""C30: an interval text means the sum of its parts."""
import itertools
from fractions import Fraction as F
from texts import *
from c22 import WORTH

TECHNIQUE = "value analysis of MIR: text shapes evaluated from tokenizer to result, the digits of whole parts at once, written fractions one by one"
ASSUMPTIONS = ["fractions are taken from a list of written digits (one by one, computed in exact IEEE arithmetic); the whole parts next to "
               "them are unconstrained digits", "texts of up to seven parts"]
NOTE = ("number-and-unit parts for every documented unit word, signs, fractions, ago, unitless numbers, years-months, times of day, ISO 8601 "
        "durations in both formats, and the interval field restrictions that decide the unit of an unlabelled number")

SEC = 1000000
DAY_US = 86400 * SEC
# documented unit words (the abbreviations of the PostgreSQL manual and its unit table)
WORDS = {
    "mil": "mil mils millennia millennium",
    "century": "c cent century centuries",
    "decade": "dec decs decade decades",
    "year": "y yr yrs year years",
    "month": "mon mons month months",
    "week": "w week weeks",
    "day": "d day days",
    "hour": "h hr hrs hour hours",
    "minute": "m min mins minute minutes",
    "second": "s sec secs second seconds",
    "ms": "ms msec msecs mseconds millisecond milliseconds",
    "us": "us usec usecs useconds microsecond microseconds",
}
FRACS = ["0", "00", "1", "25", "5", "7", "75", "9", "99", "001", "333", "0001", "123456", "999999", "0000001", "0000005", "9999999"]
FEW = ["1", "5", "99", "123456", "0000005"]


def usec(x):
    """nearest microsecond counts: both when it is a tie"""
    lo = x.numerator // x.denominator
    r = x - lo
    return {lo, lo + 1} if r == F(1, 2) else {lo if r < F(1, 2) else lo + 1}


def fraction(kind, f):
    """(months, days, microseconds) a fraction 0 <= f < 1 of the unit may count for"""
    if not f:
        return {(0, 0, 0)}
    m, d, u = WORTH[kind]
    if m > 1:
        n = f * m
        t = int(n)
        return {(t, 0, 0)} | ({(t - 1, 0, 0)} if n == t else set())
    if m or d > 1:
        n = f * (30 if m else d)
        t = int(n)
        out = {(0, t, x) for x in usec((n - t) * DAY_US)}
        if n == t and t:
            out.add((0, t - 1, DAY_US))
        return out
    return {(0, 0, x) for x in usec(f * (DAY_US if d else u))}


class Part:
    """text (a template), whole(v) -> (months, days, microseconds), the possible contributions of its fraction"""
    def __init__(self, text, whole, extra=((0, 0, 0),), sign=1, ranges=()):
        self.text, self.whole, self.extra, self.sign, self.ranges = text, whole, set(extra), sign, ranges


def number(kind, width, frac=None, sign="", word=None, name="n", glue=" "):
    k = WORTH[kind]
    text = sign + ("{%s:%d}" % (name, width) if width else "") + ("." + frac if frac is not None else "")
    if word is not None:
        text += glue + word
    f = F(int(frac), 10 ** len(frac)) if frac else F(0)
    return Part(text, lambda v: tuple(v.get(name, ZERO) * x for x in k), fraction(kind, f), -1 if sign == "-" else 1)


def clock(text, sign="", secs=True, frac=None, short=False):
    """a time of day: hours, minutes and seconds (short: minutes and seconds)"""
    f = F(int(frac), 10 ** len(frac)) if frac else F(0)

    def whole(v):
        h, m, s = v.get("h", ZERO), v.get("b", ZERO), v.get("c", ZERO)
        return ZERO, ZERO, ((h * 60 + m) * 60 + s) * SEC
    return Part(sign + text + ("." + frac if frac is not None else ""), whole, {(0, 0, x) for x in usec(f * SEC)},
                -1 if sign == "-" else 1, (("b", 0, 59), ("c", 0, 60)))


def years_months(sign="", yw=2, mw=2):
    return Part(sign + "{y:%d}-{m:%d}" % (yw, mw), lambda v: (v["y"] * 12 + v["m"], ZERO, ZERO), sign=-1 if sign == "-" else 1, ranges=(("m", 0, 11),))


def join(parts, sep=" "):
    """the whole text, each part's fields renamed apart"""
    return sep.join(FIELD.sub(lambda m: "{%s%d:%s}" % (m.group(1), i, m.group(2)), p.text) for i, p in enumerate(parts))


def own(v, i):
    n = str(i)
    return {k[:-len(n)]: x for k, x in v.items() if k.endswith(n)}


def spec(parts, neg=False, cut=lambda S, t: t, reject=()):
    """the sum of the parts, or an error where the sum or a part does not fit its 32-bit or 64-bit field"""
    combos = sorted({tuple(sum(p.sign * e[k] for p, e in zip(parts, es)) for k in range(3))
                     for es in itertools.product(*[sorted(p.extra) for p in parts])})

    def sp(S, v, w):
        tot = [ZERO, ZERO, ZERO]
        for i, p in enumerate(parts):
            o = own(v, i)
            for name, lo, hi in p.ranges:
                if name in o and not S.inrange(o[name], lo, hi):
                    return ERR
            for name, x in o.items():
                if w[name + str(i)] > 9 and not S.inrange(x, 0, 2 ** 31 - (p.sign > 0)):
                    return ERR
            tot = [a + (b if p.sign > 0 else -b) for a, b in zip(tot, p.whole(o))]
        sg = -1 if neg else 1
        outs = []
        for e in combos:
            t = [(a + b) * sg for a, b in zip(tot, e)]
            if S.inrange(t[0], *I32) and S.inrange(t[1], *I32) and S.inrange(t[2], *I64):
                t = cut(S, t)
                outs.append(ok(iv_(t[2], t[1], t[0])))
            else:
                outs.append(ERR)
        return outs[0] if len(outs) == 1 else OneOf(outs)
    return sp


# type modifier of a field restriction: fields, unit of a number without a unit, finest field kept
YEAR, MONTH, DAY, HOUR, MINUTE, SECOND = 4, 2, 8, 1024, 2048, 4096
FIELDS = [
    ("YEAR", YEAR, "year"), ("MONTH", MONTH, "month"), ("YEAR TO MONTH", YEAR | MONTH, "month"), ("DAY", DAY, "day"),
    ("HOUR", HOUR, "hour"), ("DAY TO HOUR", DAY | HOUR, "hour"), ("MINUTE", MINUTE, "minute"),
    ("HOUR TO MINUTE", HOUR | MINUTE, "minute"), ("DAY TO MINUTE", DAY | HOUR | MINUTE, "minute"), ("SECOND", SECOND, "second"),
    ("MINUTE TO SECOND", MINUTE | SECOND, "second"), ("HOUR TO SECOND", HOUR | MINUTE | SECOND, "second"),
    ("DAY TO SECOND", DAY | HOUR | MINUTE | SECOND, "second"), ("any", 0x7FFF, "second"),
]


def keep(kind):
    """restriction to fields down to this unit"""
    def cut(S, t):
        m, d, u = t
        if kind == "year":
            return S.tdiv(S.norm(m), 12) * 12, ZERO, ZERO
        if kind == "month":
            return m, ZERO, ZERO
        if kind == "day":
            return m, d, ZERO
        n = WORTH[kind][2]
        return (m, d, S.tdiv(S.norm(u), n) * n) if n > SEC else (m, d, u)
    return cut


def modifier(rg, prec=0xFFFF):
    return rg << 16 | prec


ISO_DATE = [("year", "Y"), ("month", "M"), ("week", "W"), ("day", "D")]
ISO_TIME = [("hour", "H"), ("minute", "M"), ("second", "S")]


def run(P, c):
    X = Texts(P, c)
    deep = True
    deeper = c.tier == "thorough"

    def j(rule, parts, text=None, neg=False, style="Postgres", typmod=-1, cut=None, sep=" ", subject=None, tail=""):
        text = (join(parts, sep) if text is None else text) + tail
        X.judge(rule, "Interval", text, spec(parts, neg, cut or (lambda S, t: t)), style=style, typmod=typmod,
                subject=subject or "Interval %r %s%s" % (text, style, "" if typmod == -1 else " %#x" % typmod))
    fracs = FRACS
    # every unit word, with a whole number of any width
    for kind, words in WORDS.items():
        for word in words.split():
            for w in (2, 4) if not deep else range(1, 10):
                j("units", [number(kind, w, word=word)])
            j("units", [number(kind, 3, word=word, sign="-")])
            j("units", [number(kind, 3, word=word)], neg=True, tail=" ago")
            j("units", [number(kind, 3, word=word.upper())])
            j("units", [number(kind, 1, word=word)], tail=" ", subject="Interval '%s ' trailing blank" % word)
            j("units", [number(kind, 3, word=word, glue="")])
        word = words.split()[-1]
        for w in (9, 10):
            for sg in ("", "-", "+"):
                j("units", [number(kind, w, word=word, sign=sg)])
        # fractions of one
        for f in fracs:
            j("fractions", [number(kind, 3, f, word=word)])
            j("fractions", [number(kind, 2, f, word=word, sign="-")])
            j("fractions", [number(kind, 1, f, word=word)], neg=True, tail=" ago")
            if deep:
                for w in (5, 7, 9):
                    for sg in ("", "-", "+"):
                        j("fractions", [number(kind, w, f, word=word, sign=sg)])
        for f in FEW:
            j("fractions", [number(kind, 0, f, word=word)])
    # sums of parts with different units
    chain = ["year", "month", "day", "hour", "minute", "second"]
    ws = {k: WORDS[k].split()[-1] for k in WORDS}
    for a, b in itertools.permutations(list(WORDS), 2):
        if {a, b} <= {"second", "ms", "us"} and not deep:
            pass
        for sa, sb in (("", ""), ("-", ""), ("", "-"), ("-", "+")):
            j("sums", [number(a, 2, word=ws[a], sign=sa), number(b, 2, word=ws[b], sign=sb)])
        if deep or b in chain:
            for f in (FEW if deep else FEW[1:3]):
                if a not in ("second",) or b not in ("ms", "us"):
                    j("sums", [number(a, 2, f, word=ws[a]), number(b, 2, word=ws[b])])
                    j("sums", [number(a, 2, f, word=ws[a], sign="-"), number(b, 2, word=ws[b])])
    for sg in itertools.product(("", "-"), repeat=6) if deep else [("",) * 6, ("-",) * 6, ("", "-") * 3, ("-", "+", "", "-", "", "")]:
        parts = [number(k, 2, word=ws[k], sign=s) for k, s in zip(chain, sg)]
        j("sums", parts)
        j("sums", parts, neg=True, tail=" ago")
        j("sums", list(reversed(parts)))
    # times of day, with days (labelled or not), years-months
    times = [clock("{h:2}:{b:2}"), clock("{h:2}:{b:2}:{c:2}"), clock("{h:2}:{b:2}:{c:2}", frac="5"), clock("{h:1}:{b:1}:{c:1}"),
             clock("{h:3}:{b:2}:{c:2}", frac="123456"), clock("{h:2}:{b:2}:{c:2}", frac="999999"), clock("{h:4}:{b:2}:{c:2}")]
    for n, t in enumerate(times):
        frac = t.text.split(".")[1] if "." in t.text else None
        base = t.text.split(".")[0]
        for sg in ("", "-", "+"):
            t = clock(base, sg, frac=frac)
            j("times", [t])
            j("times", [t], neg=True, tail=" ago")
            for sd in ("", "-", "+"):
                for word in ("day", None):
                    j("times", [number("day", 2, sign=sd, word=word), t])
            j("times", [number("month", 2, word="mons"), number("day", 2), t])
            j("times", [number("year", 2, word="years", sign="-"), number("month", 2, word="mons"), number("day", 2), t])
            if not deep and n > 2:
                continue
            for k in ("year", "month", "week", "day"):
                j("times", [number(k, 2, word=ws[k], sign="-"), t])
                j("times", [number(k, 2, word=ws[k]), t], neg=True, tail=" ago")
                j("times", [t, number(k, 2, word=ws[k])])
    for sg in ("", "-", "+"):
        for yw, mw in ((2, 2), (1, 1), (4, 2), (9, 2)):
            j("years-months", [years_months(sg, yw, mw)])
        j("years-months", [years_months(sg)], neg=True, tail=" ago")
        for st in ("", "-", "+"):
            t = clock("{h:2}:{b:2}:{c:2}", st)
            for sd in ("", "-", "+"):
                j("years-months", [years_months(sg), number("day", 2, sign=sd), t])
    # numbers without a unit
    for sg in ("", "-", "+"):
        for name, rg, kind in FIELDS:
            for w in (1, 3, 6) if deep else (2,):
                tm = modifier(rg)
                j("unitless", [number(kind, w, sign=sg)], typmod=tm, cut=keep(kind), subject="Interval '%s{n:%d}' %s" % (sg, w, name))
                for f in (FRACS if deep else FEW):
                    j("unitless", [number(kind, w, f, sign=sg)], typmod=tm, cut=keep(kind),
                      subject="Interval '%s{n:%d}.%s' %s" % (sg, w, f, name))
        j("unitless", [number("second", 3, sign=sg)])
        j("unitless", [number("day", 2, sign=sg), number("hour", 2, word="hours")])
        for f in FRACS:
            j("unitless", [number("second", 2, f, sign=sg)])
    # restricted fields drop what is finer; a two-part time is minutes and seconds where the restriction says so
    for name, rg, kind in FIELDS:
        tm = modifier(rg)
        full = [years_months(), number("day", 2), clock("{h:2}:{b:2}:{c:2}")]
        j("restricted", full, typmod=tm, cut=keep(kind), subject="Interval years-months days time, " + name)
        neg = [years_months("-"), number("day", 2, sign="-"), clock("{h:2}:{b:2}:{c:2}", "-")]
        j("restricted", neg, typmod=tm, cut=keep(kind), subject="Interval negative years-months days time, " + name)
        for sg in ("", "-"):
            for t in ("{h:2}:{b:2}", "{b:2}:{c:2}"):
                if (t[1] == "b") == (rg == MINUTE | SECOND):
                    p = clock(t, sg)
                    p.ranges = (("b", 0, 59), ("c", 0, 60))
                    j("restricted", [p], typmod=tm, cut=keep(kind), subject="Interval %r %s" % (sg + t, name))
            j("restricted", [clock("{h:2}:{b:2}:{c:2}", sg, frac="75")], typmod=tm, cut=keep(kind),
              subject="Interval '%s{h:2}:{b:2}:{c:2}.75' %s" % (sg, name))
    # the verbose style's leading @
    for kind in WORDS:
        for word in (ws[kind], ws[kind].upper()):
            for sg in ("", "-"):
                j("units", [number(kind, 3, word=word, sign=sg)], "@ " + join([number(kind, 3, word=word, sign=sg)]))
                j("units", [number(kind, 2, word=word, sign=sg)], "@ " + join([number(kind, 2, word=word, sign=sg)]), neg=True, tail=" ago")
    for sg in itertools.product(("", "-"), repeat=6):
        parts = [number(k, 2, "75" if k == "second" else None, word=ws[k], sign=s) for k, s in zip(chain, sg)]
        j("sums", parts, "@ " + join(parts))
        j("sums", parts, "@ " + join(parts), neg=True, tail=" ago")
    # a precision rounds the seconds, ties away from zero
    for p in range(7):
        for f in FRACS + (["50", "55", "005", "45", "555555", "949999", "995"] if deeper else ["55", "995"]):
            if len(f) > 6:
                continue
            n = int(f.ljust(6, "0"))
            q = 10 ** (6 - p)
            n = (2 * n + q) // (2 * q) * q
            for sg in ("", "-", "+"):
                for base in (clock("{h:2}:{b:2}:{c:2}", sg, frac=f), number("second", 2, f, word="secs", sign=sg), number("second", 3, f, sign=sg)):
                    base.extra = {(0, 0, n)}
                    for rg in (0x7FFF, DAY | HOUR | MINUTE | SECOND, SECOND) if deeper else (0x7FFF, MINUTE | SECOND):
                        j("precision", [base], typmod=modifier(rg, p))
                base = number("second", 2, f, word="secs", sign=sg)
                base.extra = {(0, 0, n)}
                j("precision", [number("day", 2, word="days"), base], typmod=modifier(0x7FFF, p), neg=True, tail=" ago")
    if deeper:
        for sel in itertools.permutations(list(WORDS), 3):
            for sg in itertools.product(("", "-"), repeat=3):
                j("sums", [number(k, 2, word=ws[k], sign=s) for k, s in zip(sel, sg)])
                j("sums", [number(k, 1, word=ws[k].upper(), sign=s) for k, s in zip(sel, sg)], neg=True, tail=" ago")
            for n in range(3):
                for f in FEW:
                    if {"ms", "us"} & set(sel) and sel[n] == "second":     # a fraction of a second counts as milli- and microseconds
                        continue
                    j("sums", [number(k, 2, f if i == n else None, word=ws[k]) for i, k in enumerate(sel)])
        for kind, words in WORDS.items():
            for word in words.split():
                for f in FRACS:
                    for sg in ("", "-"):
                        j("fractions", [number(kind, 2, f, word=word.capitalize(), sign=sg, glue="")])
                        j("fractions", [number(kind, 4, f, word=word, sign=sg)], tail="  ", subject="Interval '%s{n:4}.%s %s  '" % (sg, f, word))
    # the SQL style's leading sign
    for parts in ([number("day", 2), clock("{h:2}:{b:2}:{c:2}")], [years_months(), number("day", 2), clock("{h:2}:{b:2}:{c:2}", frac="5")],
                  [number("year", 2, word="years"), number("month", 2, word="mons")], [number("day", 2, "5", word="days"), number("month", 2, word="mons")],
                  [years_months()], [clock("{h:2}:{b:2}:{c:2}", frac="25")], [number("hour", 2, word="hours"), number("second", 2, "5", word="secs")]):
        text = join(parts)
        j("leading sign", parts, "-" + text, neg=True, style="SQLStandard")
        j("leading sign", parts, "+" + text, style="SQLStandard")
        j("leading sign", parts, text, style="SQLStandard")
        if len(parts) > 1:
            for style in ("Postgres", "PostgresVerbose", "ISO8601", "SQLStandard"):
                mixed = []
                for i, p in enumerate(parts):
                    sg = "-" if i == 0 else "+" if i == len(parts) - 1 and style == "SQLStandard" else ""
                    mixed.append(Part(sg + p.text, p.whole, p.extra, -1 if sg == "-" else 1, p.ranges))
                j("leading sign", mixed, style=style)
    # ISO 8601 durations
    for group, lead in ((ISO_DATE, "P"), (ISO_TIME, "PT")):
        for kind, letter in group:
            for sg in ("", "-"):
                for w in (1, 4, 9) + ((2, 3, 5, 6, 7, 8) if deep else ()):
                    p = number(kind, w, sign=sg, word=letter, glue="")
                    j("durations", [p], lead + join([p]))
                for f in (FRACS if deep else FEW):
                    p = number(kind, 2, f, sign=sg, word=letter, glue="")
                    j("durations", [p], lead + join([p]))
                    p = number(kind, 0, f, sign=sg, word=letter, glue="")
                    if sg == "":
                        j("durations", [p], lead + join([p]))
    for sgs in itertools.product(("", "-"), repeat=3):
        for n, sel in enumerate(itertools.combinations(ISO_DATE + ISO_TIME, 3) if deep else
                                [(ISO_DATE[0], ISO_DATE[3], ISO_TIME[0]), (ISO_DATE[1], ISO_DATE[2], ISO_DATE[3]), tuple(ISO_TIME),
                                 (ISO_DATE[1], ISO_TIME[1], ISO_TIME[2]), (ISO_DATE[0], ISO_DATE[1], ISO_TIME[2])]):
            for f in (None, "5"):
                parts = [number(k, 2, f if i == 2 else None, sign=s, word=l, glue="") for i, ((k, l), s) in enumerate(zip(sel, sgs))]
                text, t = "P", False
                for i, ((k, l), p) in enumerate(zip(sel, parts)):
                    if (k, l) in ISO_TIME and not t:
                        text, t = text + "T", True
                    text += FIELD.sub(lambda m: "{%s%d:%s}" % (m.group(1), i, m.group(2)), p.text)
                j("durations", parts, text)
    alt = Part("", lambda v: (v["y"] * 12 + v["m"], v["d"], ((v["h"] * 60 + v["b"]) * 60 + v["c"]) * SEC))
    for text, extra in (("P{y0:4}-{m0:2}-{d0:2}T{h0:2}:{b0:2}:{c0:2}", None), ("P{y0:4}{m0:2}{d0:2}T{h0:2}{b0:2}{c0:2}", None),
                        ("P{y0:4}-{m0:2}-{d0:2}T{h0:2}:{b0:2}:{c0:2}.5", "5"), ("P{y0:4}{m0:2}{d0:2}T{h0:2}{b0:2}{c0:2}.25", "25"),
                        ("P{y0:2}-{m0:1}-{d0:3}T{h0:3}:{b0:2}:{c0:2}", None), ("P{y0:4}-{m0:2}-{d0:2}T{h0:2}{b0:2}{c0:2}", None),
                        ("P{y0:4}{m0:2}{d0:2}T{h0:2}:{b0:2}:{c0:2}", None), ("P{y0:4}-{m0:2}-{d0:2}", None), ("P{y0:4}{m0:2}{d0:2}", None),
                        ("PT{h0:2}:{b0:2}:{c0:2}", None), ("PT{h0:2}{b0:2}{c0:2}", None), ("PT{h0:2}:{b0:2}", None), ("P{y0:4}-{m0:2}", None),
                        ("P{y0:4}-{m0:2}-{d0:2}T{h0:2}:{b0:2}", None), ("P{y0:4}-{m0:2}T{h0:2}:{b0:2}:{c0:2}.000001", "000001"),
                        ("P{y0:4}-{m0:2}-{d0:2}T{h0:2}", None), ("P{y0:4}-{m0:2}-{d0:2}T{h0:2}H{b0:2}M{c0:2}S", None)):
        a = Part("", lambda v, a=alt: tuple(a.whole({k: v.get(k, ZERO) for k in "ymdhbc"})),
                 {(0, 0, x) for x in usec(F(int(extra or 0), 10 ** len(extra or "0")) * SEC)})
        j("durations", [a], text)
    X.run()
    c.floor("interval texts decided", sum(1 for o in c.obligations if o[2] == "holds"), 100)
