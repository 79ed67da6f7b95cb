"""C26: formatting and parsing are inverse."""
from texts import *
from c08 import MON, WDAY

TECHNIQUE = "value analysis of MIR: the parser evaluated on every text shape the formatters produce, all digits symbolic"
NOTE = ("decides, for every text the formatters can write (their layouts are decided in C08), with every digit symbolic, that the parser "
        "yields exactly the value written, and an error for a text of that form denoting no valid value")
ASSUMPTIONS = ["the layout of formatted text is the one C08 decides", "date2julian and julian2date are inverse (C27)",
               "every number width with the other fields narrow, and all widest together; not every combination of widths",
               "f64 rounding errors in the readers of fractions stay below half a microsecond (values are below 1e8 seconds)"]


FRACS = ["", ".{f:1}", ".{f:2}", ".{f:3}", ".{f:4}", ".{f:5}", ".{f:6}"]
YMD = ["YMD", "DMY", "MDY"]
DATES = [("ISO", YMD, "{Y:%d}-{M:2}-{D:2}"), ("SQL", ["DMY"], "{D:2}/{M:2}/{Y:%d}"), ("SQL", ["MDY"], "{M:2}/{D:2}/{Y:%d}"),
         ("German", ["DMY"], "{D:2}.{M:2}.{Y:%d}")]
PGDATES = [("Postgres", ["MDY"], "{M:2}.{D:2}.{Y:%d}"), ("Postgres", ["DMY"], "{D:2}-{M:2}.{Y:%d}")]


def run(P, c):
    X = Texts(P, c)
    for style, orders, t in DATES + PGDATES:
        for w, bc in ((4, False), (5, False), (6, False), (7, False), (4, True)):
            for o in orders:
                tt = t % w + (" BC" if bc else "")
                X.judge("date", "Date", tt, date_text(bc), order=o)
                if style == "Postgres":
                    continue
                for sep in (" ", "T") if style == "ISO" else (" ",):
                    for f in FRACS:
                        if w == 7 or f not in ("", ".{f:6}") and (w, bc) != (4, False):
                            continue
                        X.judge("timestamp", "Timestamp", t % w + sep + "{h:2}:{mi:2}:{s:2}" + f + (" BC" if bc else ""), ts_text(bc), order=o)
    # Postgres timestamps carry names
    for mi, mn in enumerate(MON):
        if not mi:
            continue
        for o, t in (("DMY", "{D:2} %s" % mn.decode()), ("MDY", "%s {D:2}" % mn.decode())):
            for w, bc in ((4, False), (5, False), (6, False), (4, True)):
                for f in FRACS if mi in (2, 5) and not bc and w == 4 else (FRACS[0], FRACS[6]):
                    wd = WDAY[mi % 7].decode()
                    X.judge("timestamp", "Timestamp", wd + " " + t + " {h:2}:{mi:2}:{s:2}" + f + " {Y:%d}" % w + (" BC" if bc else ""), month(mi, bc), order=o)
    for wd in WDAY:
        X.judge("timestamp", "Timestamp", wd.decode() + " {D:2} Mar {h:2}:{mi:2}:{s:2} {Y:4}", month(3, False), order="DMY")
    for f in FRACS:
        for o in YMD:
            X.judge("time", "Time", "{h:2}:{mi:2}:{s:2}" + f, time_text, order=o)
    for o in YMD:
        for t, v in (("infinity", (DT_NOEND, TS_NOEND)), ("-infinity", (DT_NOBEGIN, TS_NOBEGIN))):
            X.judge("special", "Date", t, lambda S, f, w, v=v: ok(date_(K(v[0]))), order=o)
            X.judge("special", "Timestamp", t, lambda S, f, w, v=v: ok(date_(K(v[1]))), order=o)
    intervals(X)
    X.run()
    c.floor("text shapes decided", sum(1 for o in c.obligations if o[2] == "holds"), 1500)


def month(m, bc):
    g = ts_text(bc)
    return lambda S, v, w: g(S, dict(v, M=K(m)), dict(w, Y=4))


# ---- intervals ----------------------------------------------------------------------------------

def fld(n, w, one=False):
    return "1" if one else "{%s:%d}" % (n, w)


def compose(style, mon, day, time, W, f, shows="hms", one=()):
    """the text of C08's layout; mon, day, time: sign of the component (0: absent); mon = (sign, fields shown)"""
    sm, show = mon
    y, mo, d = (fld(k, W[k], k in one) for k in "YMD")
    unit = lambda k, u: u if k in one else u + "s"
    hms = "{h:%d}:{mi:2}:{s:2}" % max(W["h"], 1 if style == "SQLStandard" else 2) + f
    neg = lambda s: "-" if s < 0 else ""
    if style == "Postgres":
        p, before = [], False
        for s, v, u in ((sm if "Y" in show else 0, y, unit("Y", "year")), (sm if "M" in show else 0, mo, unit("M", "mon")), (day, d, unit("D", "day"))):
            if s:
                p.append(("-" if s < 0 else "+" if before else "") + v + " " + u)
                before = s < 0
        if time:
            p.append(("-" if time < 0 else "+" if before else "") + hms)
        elif not p:
            return "00:00:00"
        return " ".join(p)
    if style == "SQLStandard":
        sg = {sm, day, time} - {0}
        if not sg:
            return "0"
        tod = hms if time else "0:00:00"
        y, mo, d = (y if "Y" in show else "0"), (mo if "M" in show else "0"), d if day else "0"
        if len(sg) == 2 or sm and (day or time):
            c = lambda x: "-" if x < 0 else "+"
            return "%s%s-%s %s%s %s%s" % (c(sm), y, mo, c(day), d, c(time), tod)
        lead = "-" if -1 in sg else ""
        if sm:
            return lead + y + "-" + mo
        return lead + (d + " " if day else "") + tod
    if style == "ISO8601":
        if not (sm or day or time):
            return "PT0S"
        p = "P"
        for s, v, u in ((sm if "Y" in show else 0, y, "Y"), (sm if "M" in show else 0, mo, "M"), (day, d, "D")):
            if s:
                p += neg(s) + v + u
        if time:
            n = neg(time)
            p += "T"
            if "h" in shows:
                p += n + fld("h", W["h"], "h" in one) + "H"
            if "m" in shows:
                p += n + fld("mi", W["mi"], "mi" in one) + "M"
            if "s" in shows:
                p += n + fld("s", W["s"], "s" in one) + f + "S"
        return p
    ago, p = None, "@"
    for s, v, u in ((sm if "Y" in show else 0, y, unit("Y", "year")), (sm if "M" in show else 0, mo, unit("M", "mon")), (day, d, unit("D", "day")),
                    (time if "h" in shows else 0, fld("h", W["h"], "h" in one), unit("h", "hour")),
                    (time if "m" in shows else 0, fld("mi", W["mi"], "mi" in one), unit("mi", "min")),
                    (time if "s" in shows else 0, fld("s", W["s"], "s" in one) + f, "secs" if f else unit("s", "sec"))):
        if s:
            if ago is None:
                ago = s < 0
            p += " " + ("-" if (s < 0) != ago else "") + v + " " + u
    return p + (" 0" if ago is None else " ago" if ago else "")


def iv_spec(mon, day, time, one=()):
    def spec(S, v, w):
        g = lambda k: K(1) if k in one else v.get(k, ZERO)
        m = (g("Y") * 12 + g("M")) * mon[0]
        d = g("D") * day
        t = (((g("h") * 60 + g("mi")) * 60 + g("s")) * 1000000 + frac(v, w)) * time
        for k in ("Y", "h", "D"):
            if k in v and not S.ask(T.ge(K(2 ** 31 - 1) - v[k])):
                # -2147483648 years, days or hours: an error or exact; further out: an error
                if S.ask(T.gt(v[k] - 2 ** 31)) or S.verdict == "Err":
                    return ERR
        if not (S.inrange(m, *I32) and S.inrange(d, *I32) and S.inrange(t, *I64)):
            return ERR
        return ok(iv_(t, d, m))
    return spec


def shown(vals):
    out = []
    for k, hi in (("M", 11), ("mi", 59), ("s", 59)):
        if k in vals:
            out.append(T.ge(K(hi) - vals[k]))
    return out


SIGNS = (0, 1, -1)
STYLES = ("Postgres", "PostgresVerbose", "SQLStandard", "ISO8601")


def intervals(X):
    small = {"Y": 2, "M": 1, "D": 2, "h": 2, "mi": 2, "s": 2}
    big = {"Y": 9, "M": 2, "D": 10, "h": 10, "mi": 2, "s": 2}
    months = [(0, "")] + [(s, sh) for s in (1, -1) for sh in ("Y", "M", "YM")]
    seen = set()

    def go(style, mon, day, time, W, f, shows="hms", one=()):
        t = compose(style, mon, day, time, W, f, shows, one)
        if (style, t) not in seen:
            seen.add((style, t))
            X.judge("interval", "Interval", t, iv_spec(mon, day, time, one), style=style, assume=shown)
    for style in STYLES:
        for mon in months:
            for day in SIGNS:
                for time in SIGNS:
                    for W in (small, big):
                        go(style, mon, day, time, W, "")
                        if time:
                            go(style, mon, day, time, W, ".{f:6}")
        for a in (1, -1):
            # every number of fraction digits and every width
            for f in FRACS[1:]:
                go(style, (0, ""), 0, a, small, f)
                go(style, (1, "YM"), 1, a, small, f)
            for n in range(1, 11):
                for k in "YDh":
                    W = dict(small, **{k: n})
                    if n < 10 or k != "Y":
                        go(style, (a if k == "Y" else 0, "Y" if k == "Y" else ""), a if k == "D" else 0, a if k == "h" else 0, W, "")
            # units of one, and times of day without some of their fields
            for one in ("Y", "M", "D", "YMD"):
                for b in SIGNS:
                    go(style, (a, "YM"), a, b, small, "", one=tuple(one))
            if style in ("ISO8601", "PostgresVerbose"):
                for shows in ("h", "m", "s", "hm", "hs", "ms"):
                    for f in ("", ".{f:6}") if "s" in shows else ("",):
                        for b in SIGNS:
                            go(style, (0, ""), b, a, small, f, shows)
                            go(style, (b, "M"), 0, a, dict(small, mi=1, s=1), f, shows)
                for one in (("h",), ("mi",), ("s",)):
                    go(style, (0, ""), 0, a, small, "", one=one)
