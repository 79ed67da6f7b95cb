"""C08: layout of the text every value is formatted to."""
from common import *

TECHNIQUE = ("value analysis of MIR: the byte buffer each formatting method returns, as a sequence of literal bytes, padded decimal "
             "numbers and fractions over the inputs, compared with the layout of every style; the number writers are decided digit by digit")
NOTE = ("decides, for all valid values, every style and field order, the exact returned text; "
        "and, for the writers of numbers, the text of every i64 at the widths used and of every fraction")
ASSUMPTIONS = ["date2julian and julian2date compute the proleptic Gregorian calendar (decided by C27)"]

STYLES = ["Postgres", "ISO", "SQL", "German", "XSD"]
ORDERS = ["YMD", "DMY", "MDY"]
MON = [b"", b"Jan", b"Feb", b"Mar", b"Apr", b"May", b"Jun", b"Jul", b"Aug", b"Sep", b"Oct", b"Nov", b"Dec"]
WDAY = [b"Sun", b"Mon", b"Tue", b"Wed", b"Thu", b"Fri", b"Sat"]


def zp(v, w=2):
    return ("zp", v, w)


def day_pieces(S, j, style, order):
    """(date part, suffix) of the day with this julian number; the Postgres timestamp style is separate"""
    y, m, d = S.civil(j)
    bc = not S.ask(T.gt(y))
    yy = zp(K(1) - y if bc else y, 4)
    suffix = [b" BC"] if bc else []
    if style in ("ISO", "XSD"):
        p = [yy, b"-", zp(m), b"-", zp(d)]
    elif style == "SQL":
        p = ([zp(d), b"/", zp(m)] if order == "DMY" else [zp(m), b"/", zp(d)]) + [b"/", yy]
    elif style == "German":
        p = [zp(d), b".", zp(m), b".", yy]
    else:
        # day and month are separated by '-' when the day leads, by '.' otherwise (fixed by the test suite)
        p = ([zp(d), b"-", zp(m)] if order == "DMY" else [zp(m), b".", zp(d)]) + [b".", yy]
    return p, suffix, yy, m, d


def hms(t):
    """hours, minutes, seconds, microseconds of a non-negative time"""
    h = T.fquo(t, 3600000000)
    mi = T.fquo(t, 60000000)
    s = T.fquo(t, 1000000)
    return h, mi - h * 60, s - mi * 60, t - s * 1000000


def clock(t):
    h, m, s, f = hms(t)
    return [zp(h), b":", zp(m), b":", zp(s), ("frac", f, 6)]


def pick_const(S, v, lo, hi):
    for k in range(lo, hi):
        if S.ask(T.eq(v - k)):
            return k
    return hi


def date_spec(style, order):
    def spec(S, st):
        p, suf, _, _, _ = day_pieces(S, dvar("d") + EPOCH, style, order)
        return ok(Text(*(p + suf)))
    return spec


def ts_spec(style, order):
    def spec(S, st):
        t = tsvar("t")
        day = T.fquo(t, USECS_DAY)
        j = day + EPOCH
        p, suf, yy, m, d = day_pieces(S, j, style, order)
        tod = clock(t - day * USECS_DAY)
        if style == "Postgres":
            w = j + 1
            w = w - T.fquo(w, 7) * 7
            wn = WDAY[pick_const(S, w, 0, 6)]
            mn = MON[pick_const(S, m, 1, 12)]
            p = [wn, b" "] + ([zp(d), b" ", mn] if order == "DMY" else [mn, b" ", zp(d)]) + [b" "] + tod + [b" ", yy]
        else:
            p = p + [b"T" if style == "XSD" else b" "] + tod
        return ok(Text(*(p + suf)))
    return spec


def parts(S):
    """the displayed fields of the interval, each with the sign of its component, and the signs"""
    iv = ivar("i")
    sm, sd, st = (sgn(S, iv[k]) for k in ("month", "day", "time"))

    def q(v, d, s):
        return T.fquo(v, d) if s >= 0 else T.fquo(v + (d - 1), d)
    m, t = iv["month"], iv["time"]
    y = q(m, 12, sm)
    h, mi, s = (q(t, d, st) for d in (3600000000, 60000000, 1000000))
    return (y, m - y * 12, iv["day"], h, mi - h * 60, s - mi * 60, t - s * 1000000), (sm, sd, st)


def sgn(S, v):
    if S.ask(T.eq(v)):
        return 0
    return 1 if S.ask(T.gt(v)) else -1


def mag(v, s):
    return v if s >= 0 else -v


def interval_spec(style):
    def spec(S, st):
        (y, mo, d, h, mi, s, f), (sm, sd, stm) = parts(S)
        # hours beyond an i32 cannot be shown
        if not S.inrange(h, *I32):
            return ERR
        ay, amo, ad = mag(y, sm), mag(mo, sm), mag(d, sd)
        ah, ami, as_, af = (mag(x, stm) for x in (h, mi, s, f))
        frac = ("frac", af, 6)
        if style == "SQLStandard":
            signs = {sm, sd, stm} - {0}
            if not signs:
                return ok(Text(b"0"))
            tod = [zp(ah, 1), b":", zp(ami), b":", zp(as_), frac]
            if len(signs) == 2 or (sm and (sd or stm)):
                sig = lambda x: b"-" if x < 0 else b"+"
                return ok(Text(sig(sm), zp(ay, 1), b"-", zp(amo, 1), b" ", sig(sd), zp(ad, 1), b" ", sig(stm), *tod))
            lead = [b"-"] if -1 in signs else []
            if sm:
                return ok(Text(*(lead + [zp(ay, 1), b"-", zp(amo, 1)])))
            if sd:
                return ok(Text(*(lead + [zp(ad, 1), b" "] + tod)))
            return ok(Text(*(lead + tod)))
        if style == "ISO8601":
            if not (sm or sd or stm):
                return ok(Text(b"PT0S"))
            p = [b"P"]

            def part(v, unit):
                if not S.ask(T.eq(v)):
                    p.extend([zp(v, 1), unit])
            part(y, b"Y")
            part(mo, b"M")
            part(d, b"D")
            if stm:
                p.append(b"T")
                part(h, b"H")
                part(mi, b"M")
                if not (S.ask(T.eq(s)) and S.ask(T.eq(f))):
                    p.extend(([b"-"] if stm < 0 else []) + [zp(as_, 1), frac, b"S"])
            return ok(Text(*p))
        if style == "Postgres":
            p = []
            before = False
            for v, sg, unit in ((y, sm, b" year"), (mo, sm, b" mon"), (d, sd, b" day")):
                if sg == 0 or S.ask(T.eq(v)):
                    continue
                if p:
                    p.append(b" ")
                if before and sg > 0:
                    p.append(b"+")
                p += [zp(v, 1), unit]
                if not S.ask(T.eq(v - 1)):
                    p.append(b"s")
                before = sg < 0
            if not p or stm:
                if p:
                    p.append(b" ")
                if stm < 0:
                    p.append(b"-")
                elif before:
                    p.append(b"+")
                p += [zp(ah), b":", zp(ami), b":", zp(as_), frac]
            return ok(Text(*p))
        # verbose: the sign of the first field shown is given by "ago", later fields are relative to it
        p = [b"@"]
        ago = None
        for v, sg, unit in ((y, sm, b" year"), (mo, sm, b" mon"), (d, sd, b" day"), (h, stm, b" hour"), (mi, stm, b" min")):
            if sg == 0 or S.ask(T.eq(v)):
                continue
            if ago is None:
                ago = sg < 0
            v = -v if ago else v
            p += [b" ", zp(v, 1), unit]
            if not S.ask(T.eq(v - 1)):
                p.append(b"s")
        if stm and not (S.ask(T.eq(s)) and S.ask(T.eq(f))):
            if ago is None:
                ago = stm < 0
            p.append(b" ")
            if (stm < 0) != ago:
                p.append(b"-")
            p += [zp(as_, 1), frac, b" sec"]
            if not (S.ask(T.eq(as_ - 1)) and S.ask(T.eq(f))):
                p.append(b"s")
        if ago is None:
            p.append(b" 0")
        if ago:
            p.append(b" ago")
        return ok(Text(*p))
    return spec


def run(P, c):
    writers(P, c)
    J = Judge(P, c, max_paths=20000)
    b = J.need("date::Date::format")
    if b:
        for s in STYLES:
            for o in ORDERS:
                J.judge("layout", "date %s %s" % (s, o), b,
                        lambda I: Input(I, b).date("d").enum(s).enum(o).state(), date_spec(s, o), panics=True)
    b1 = J.need("time::Time::format")
    if b1:
        for s in STYLES:
            J.judge("layout", "time %s" % s, b1, lambda I: Input(I, b1).time("tod").enum(s).state(),
                    lambda S, st: ok(Text(*clock(tvar("tod")))), panics=True)
    b2 = J.need("timestamp::Timestamp::format")
    if b2:
        for s in STYLES:
            for o in ORDERS:
                J.judge("layout", "timestamp %s %s" % (s, o), b2,
                        lambda I: Input(I, b2).ts("t").enum(s).enum(o).state(), ts_spec(s, o), panics=True)
    b3 = J.need("interval::Interval::format")
    if b3:
        tv, dv, mv = ivar("i")["time"], ivar("i")["day"], ivar("i")["month"]
        for s in ("Postgres", "PostgresVerbose", "SQLStandard", "ISO8601"):
            for tn, tc in (("negative", T.gt(-tv)), ("zero", T.eq(tv)), ("positive", T.gt(tv))):
                J.judge("layout", "interval %s, time %s" % (s, tn), b3,
                        lambda I: Input(I, b3).interval("i").enum(s).assume(tc).state(), interval_spec(s), panics=True)
    c.floor("formatting methods decided", sum(1 for o in c.obligations if o[0] == "layout"), 40)


def writers(P, c):
    """the bodies of the number writers, whose contract the layouts above use"""
    J = Judge(P, c, max_paths=20000)
    for k in models.WRITERS:
        J.I.models.pop(k, None)

    def case(body, name, args, conds, spec):
        def mk(I):
            st = I.start(body, [Ref(("arg", "buf"), (), ZERO, K(128))] + args)
            st.mem[("arg", "buf")] = Buf("buf", K(128), I.ty_u8, "zero")
            out = [st]
            for cd in conds:
                out = [s for x in out for s in x.assume(cd)]
            return out
        J.judge("writer", name, body, mk, lambda S, st: Text(*spec(S)),
                got=lambda st: Ref(("arg", "buf"), (), ZERO, st.ret), panics=True)

    for b in P.insts:
        if not b or "blocks" not in b:
            continue
        n = b["name"]
        if n.startswith("pgdatetime::common::pg_ltostr"):
            ty = n.rsplit("::", 1)[1].strip("<>")
            r = I64 if ty == "i64" else I32
            v = V("number " + ty, *r)
            pad = "zeropad" in n
            for w in range(1, 7) if pad else (1,):
                for sg, cd in (("negative", T.gt(-v)), ("zero", T.eq(v)), ("positive", T.gt(v))):
                    case(b, "%s, width %d, %s" % (n, w, sg), [v] + ([K(w)] if pad else []), [cd], lambda S: [digits(S, v, w)])
        elif n == "pgdatetime::common::append_seconds":
            s, f = V("sec", -I32[1], I32[1]), V("fraction", -999999, 999999)
            for fill in (True, False):
                for sg, cd in (("negative", T.gt(-f)), ("zero", T.eq(f)), ("positive", T.gt(f))):
                    case(b, "append_seconds %s, fraction %s" % ("filled" if fill else "plain", sg), [s, f, K(6), fill], [cd],
                         lambda S: seconds(S, s, f, fill))


def digits(S, v, w):
    """v in at least w columns: asks for the number of digits"""
    lo, hi = S.st.facts.bounds(v)
    neg = hi < 0
    a = -v if neg else v
    k = 1
    while k < 19 and not S.ask(T.gt(K(10 ** k) - a)):
        k += 1
    return zp(v, max(w, k + neg))


def seconds(S, s, f, fill):
    a = s if S.ask(T.ge(s)) else -s
    p = [digits(S, a, 2 if fill else 1)]
    if S.ask(T.eq(f)):
        return p
    v = f if S.ask(T.gt(f)) else -f
    z = 0
    while z < 5 and S.ask(T.eq(T.fquo(v, 10 ** z) - T.fquo(v, 10 ** (z + 1)) * 10)):
        z += 1
    return p + [b".", ("zp", T.fquo(v, 10 ** z), 6 - z)]
