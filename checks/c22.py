"""C22: a component given twice is rejected, never overwritten."""
import itertools
from texts import *

TECHNIQUE = "value analysis of MIR: token sequences evaluated from tokenizer to result, all digit values at once"
ASSUMPTIONS = ["sequences of up to three (quick) or four (thorough, times and intervals) tokens, each of one fixed width"]
NOTE = ("every sequence of date and time tokens (dates, run-together numbers, Julian days, labelled fields, times, "
        "AM/PM, eras, weekdays, month names, zone words, reserved words) and of interval tokens is evaluated; a field "
        "supplied twice must make the parse fail, and an accepted text must have the value its tokens say")

Y, M, D, H, MI, S_, TZ, MER, ERA, DOW = "Y M D h mi s tz mer era dow".split()
DATE, TIME = {Y, M, D}, {H, MI, S_}


class Unclear(Exception):
    pass


class Tok:
    def __init__(self, name, text, take, glue=" "):
        self.name, self.text, self.take, self.glue = name, text, take, glue


def fixed(fields, **consts):
    """a token supplying these fields: each is read from its digits or has a fixed value"""
    def take(S, seen, g, v):
        for f in fields:
            if f not in seen:
                g[f] = consts.get(f, v.get(f, ZERO))
        return set(fields)
    return take


def two(take):
    def f(S, seen, g, v):
        r = take(S, seen, g, v)
        if Y in r and not (r & seen):
            g["two"] = True
        return r
    return f


def run_together(S, seen, g, v):
    if not DATE <= seen:
        if DATE & seen and TIME & seen:
            raise Unclear           # read as a single number
        r = set(DATE)
        if not r & seen:
            g.update({Y: v["a"], M: v["b"], D: v["c"], "two": True})
        return r
    r = set(TIME)
    if not r & seen:
        g.update({H: v["a"], MI: v["b"], S_: v["c"]})
    return r


def only_time(S, seen, g, v):
    r = set(TIME)
    if not r & seen:
        g.update({H: v["a"], MI: v["b"], S_: v.get("c", ZERO)})
    return r


def month_label(S, seen, g, v):
    if M in seen and H in seen:         # h04 m05: minutes
        if MI not in seen:
            g[MI] = v["m"]
        return {MI}
    if M not in seen:
        g[M] = v["m"]
    return {M}


def month_name(n):
    def take(S, seen, g, v):
        r = {M}
        if M in seen and not g.get("text") and D not in seen and S.inrange(g[M], 1, 31):
            g[D] = g[M]             # the numeric month was the day
            r = {D}
        elif M in seen:
            return r
        g[M], g["text"] = K(n), True
        return r
    return take


def julian(S, seen, g, v):
    if not DATE & seen:
        g["j"] = v["j"]
    return set(DATE)


def marker(S, seen, g, v):
    if not DATE <= seen:
        raise Bad
    return set()


STAMP = [
    Tok("date", "{Y:4}-{M:2}-{D:2}", fixed((Y, M, D))),
    Tok("date8", "{Y:4}{M:2}{D:2}", fixed((Y, M, D))),
    Tok("run6", "{a:2}{b:2}{c:2}", run_together),
    Tok("julian", "J{j:7}", julian),
    Tok("y", "y{Y:4}", fixed((Y,))),
    Tok("m", "m{m:2}", month_label),
    Tok("d", "d{D:2}", fixed((D,))),
    Tok("h", "h{h:2}", fixed((H,))),
    Tok("mm", "mm{mi:2}", fixed((MI,))),
    Tok("s", "s{s:2}", fixed((S_,))),
    Tok("s.f", "s{s:2}.{f:3}", lambda S, seen, g, v: (S_ not in seen and g.update({S_: v["s"], "f": v["f"] * 1000})) or {S_}),
    Tok("time", "{h:2}:{mi:2}:{s:2}", fixed((H, MI, S_))),
    Tok("hm", "{h:2}:{mi:2}", fixed((H, MI, S_))),
    Tok("am", "am", fixed((MER,), mer="am")),
    Tok("PM", "PM", fixed((MER,), mer="pm")),
    Tok("bc", "bc", fixed((ERA,), era="bc")),
    Tok("AD", "AD", fixed((ERA,), era="ad")),
    Tok("Mon", "Mon", fixed((DOW,))),
    Tok("friday", "friday", fixed((DOW,))),
    Tok("Jan", "Jan", month_name(1)),
    Tok("sept", "sept", month_name(9)),
    Tok("allballs", "allballs", fixed((H, MI, S_, TZ))),
    Tok("z", "zulu", fixed((H, MI, S_, TZ))),
]
CLOCK = [
    Tok("run6", "{a:2}{b:2}{c:2}", only_time),
    Tok("run4", "{a:2}{b:2}", only_time),
    Tok("h", "h{h:2}", fixed((H,))),
    Tok("mm", "mm{mi:2}", fixed((MI,))),
    Tok("s", "s{s:2}", fixed((S_,))),
    Tok("s.f", "s{s:2}.{f:3}", lambda S, seen, g, v: (S_ not in seen and g.update({S_: v["s"], "f": v["f"] * 1000})) or {S_}),
    Tok("time", "{h:2}:{mi:2}:{s:2}", fixed((H, MI, S_))),
    Tok("hm", "{h:2}:{mi:2}", fixed((H, MI, S_))),
    Tok("am", "am", fixed((MER,), mer="am")),
    Tok("PM", "PM", fixed((MER,), mer="pm")),
    Tok("bc", "bc", fixed((ERA,), era="bc")),
    Tok("AD", "AD", fixed((ERA,), era="ad")),
    Tok("allballs", "allballs", fixed((H, MI, S_, TZ))),
]
UNITS = {"year": "year", "yr": "year", "mon": "month", "months": "month", "day": "day", "d": "day", "weeks": "week",
         "hour": "hour", "hrs": "hour", "min": "minute", "m": "minute", "sec": "second", "s": "second",
         "ms": "ms", "us": "us", "decades": "decade", "century": "century", "millennium": "mil"}
# months, days, microseconds of one of each
WORTH = {"year": (12, 0, 0), "month": (1, 0, 0), "day": (0, 1, 0), "week": (0, 7, 0), "hour": (0, 0, 3600000000),
         "minute": (0, 0, 60000000), "second": (0, 0, 1000000), "ms": (0, 0, 1000), "us": (0, 0, 1),
         "decade": (120, 0, 0), "century": (1200, 0, 0), "mil": (12000, 0, 0)}


def build(seq):
    """(template, [values of each token's fields -> the token's own names])"""
    parts = []
    for i, t in enumerate(seq):
        parts.append(FIELD.sub(lambda m: "{%s%d:%s}" % (m.group(1), i, m.group(2)), t.text))
    return " ".join(parts)


def own(v, i):
    n = str(i)
    return {k[:-len(n)]: x for k, x in v.items() if k.endswith(n)}


def clock_value(S, g):
    h, mi, s, f = (g.get(k, ZERO) for k in (H, MI, S_, "f"))
    if "mer" in g:
        if not S.inrange(h, 0, 12):
            raise Bad
        twelve = S.ask(T.eq(h - 12))
        if g["mer"] == "am":
            h = ZERO if twelve else h
        elif not twelve:
            h = h + 12
    return day_time(S, h, mi, s, f)


def stamp_spec(seq, ty, must=False):
    def spec(S, v, w):
        try:
            seen, g = set(), {}
            for i, t in enumerate(seq):
                r = t.take(S, seen, g, own(v, i))
                if r & seen:
                    raise Bad
                seen |= r
            if ty == "Time":
                if not TIME <= seen:
                    raise Bad
                if S.verdict == "Err" and not must:
                    return ERR
                return ok(Rec({0: clock_value(S, g)}))
            if not DATE <= seen:
                if ty == "Timestamp" and TIME <= seen:
                    return None                     # C03's finding
                raise Bad
            if S.verdict == "Err" and not must:
                return ERR
            if "j" in g:
                j = g["j"]
            elif g.get("era") == "bc":
                j = civil_day(S, g[Y], g[M], g[D], True)
            else:
                y = two_digit(S, g[Y]) if g.get("two") else g[Y]
                j = civil_day(S, y, g[M], g[D])
            t = clock_value(S, g)
            return date_result(S, j) if ty == "Date" else ts_result(S, j, t)
        except Unclear:
            return None
        except Bad:
            return ERR
    return spec


# documented forms, which must be accepted
FORMS = ["y m d", "y m d h mm s", "y m d h m s", "y m d h m s.f", "y m d hm", "d m y time", "time d m y", "date time PM", "date hm am",
         "date time AD", "date time bc", "date bc", "date8 time", "date8 run6", "run6 run6", "julian time", "julian hm PM",
         "y Jan d", "y d sept", "Mon y Jan d", "friday y m d time", "date allballs", "date PM", "date h mm s", "julian"]
CLOCKS = ["time", "hm", "run6", "run4", "h mm s.f", "time am", "hm PM", "run4 am", "run6 PM", "am time", "allballs"]


def run(P, c):
    X = Texts(P, c)
    deep = c.tier == "thorough"
    by = {t.name: t for t in STAMP}
    for f in FORMS:
        seq = [by[n] for n in f.split()]
        X.judge("fields", "Timestamp", build(seq), stamp_spec(seq, "Timestamp", True), subject="Timestamp form " + f)
        if f[0] == "y" and all(len(n) <= 3 and n[0] not in "JMhs" for n in f.split()[1:]) or f.startswith("y m d h "):
            X.judge("fields", "Timestamp", build(seq).replace(" ", ""), stamp_spec(seq, "Timestamp", True), subject="Timestamp form joined " + f)
    by = {t.name: t for t in CLOCK}
    for f in CLOCKS:
        seq = [by[n] for n in f.split()]
        X.judge("fields", "Time", build(seq), stamp_spec(seq, "Time", True), subject="Time form " + f)
    for n in (1, 2, 3):
        for seq in itertools.product(STAMP, repeat=n):
            names = [t.name for t in seq]
            if n == 3 and not deep and not keep(names):
                continue
            t = build(seq)
            if not dated(names) and ({"time", "hm", "allballs", "z"} & set(names) or {"h", "mm", "s.f"} <= set(names)):
                X.judge("fields", "Date", t, stamp_spec(seq, "Date"))
                continue                            # C03's finding: a timestamp without a date
            if {"run6", "date8"} & set(names) and {"y", "m", "d", "Jan", "sept"} & set(names) and {"time", "hm", "allballs", "z"} & set(names):
                continue                            # the digits are read as a single number, or the date is incomplete
            X.judge("fields", "Timestamp", t, stamp_spec(seq, "Timestamp"))
            if n < 3:
                X.judge("fields", "Date", t, stamp_spec(seq, "Date"))
    for n in (1, 2, 3) + ((4,) if deep else ()):
        for seq in itertools.product(CLOCK, repeat=n):
            X.judge("fields", "Time", build(seq), stamp_spec(seq, "Time"))
    spans(X, deep)
    X.run()
    c.floor("token sequences decided", sum(1 for o in c.obligations if o[0] in ("fields", "units") and o[2] == "holds"), 5500)


def keep(names):
    """three tokens: those with a whole date or a whole labelled part somewhere"""
    return names[0] in ("date", "julian", "y", "date8") or names[2] in ("date", "run6", "y")


def dated(names):
    n = set(names)
    return bool({"date", "date8", "run6", "julian"} & n or {"y", "d"} <= n and {"m", "Jan", "sept"} & n)


def unit(name, frac=0):
    """number and unit: (text, masks taken, (months, days, microseconds) of the digits)"""
    kind = UNITS[name]
    k = WORTH[kind]
    text = "{n:2}" + (".{f:%d}" % frac if frac else "") + " " + name
    taken = {"second", "ms", "us"} if kind == "second" and frac else {kind}
    if frac and kind == "second":
        return text, taken, lambda v: (ZERO, ZERO, v["n"] * 1000000 + v["f"] * 10 ** (6 - frac))
    return text, taken, lambda v: tuple(v["n"] * x for x in k)


PARTS = [unit(n) for n in UNITS] + [unit("sec", 3), unit("s", 6)] + [
    ("{n:2}:{b:2}:{c:2}", {"hour", "minute", "second", "ms", "us"},
     lambda v: (ZERO, ZERO, ((v["n"] * 60 + v["b"]) * 60 + v["c"]) * 1000000)),
    ("{n:2}:{b:2}", {"hour", "minute", "second", "ms", "us"}, lambda v: (ZERO, ZERO, (v["n"] * 60 + v["b"]) * 60000000)),
]


def span_spec(seq, ago):
    def spec(S, v, w):
        seen, tot = set(), [ZERO, ZERO, ZERO]
        for i, (text, taken, val) in enumerate(seq):
            o = own(v, i)
            if "f" in o and S.ask(T.eq(o["f"])):
                taken = {"second"}          # no subseconds given
            if taken & seen:
                return ERR
            seen |= taken
            if "b" in o and not S.inrange(o["b"], 0, 59) or "c" in o and not S.inrange(o["c"], 0, 60):
                return ERR
            tot = [a + b for a, b in zip(tot, val(o))]
        if ago:
            tot = [-x for x in tot]
        return ok(iv_(tot[2], tot[1], tot[0]))
    return spec


def spans(X, deep):
    for n in (1, 2) + ((3,) if deep else ()):
        for seq in itertools.product(PARTS, repeat=n):
            for ago in (False, True):
                if n == 3 and ago:
                    continue
                t = " ".join(FIELD.sub(lambda m: "{%s%d:%s}" % (m.group(1), i, m.group(2)), p[0]) for i, p in enumerate(seq))
                X.judge("units", "Interval", t + (" ago" if ago else ""), span_spec(seq, ago))
