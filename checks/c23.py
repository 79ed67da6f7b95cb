"""C23: the field a number of a date fills, the order, and the year rules."""
from texts import *
from c08 import MON

TECHNIQUE = "value analysis of MIR: the field filled and its value, per partition of fields already seen, order and width"
ASSUMPTIONS = ["whole dates: three numbers of up to 5, 3 and 5 digits, or a named month with two numbers of up to 4; "
               "the decision function itself is taken for every width"]
NOTE = ("decode_number is decided for every combination of fields seen, order, month name and number width; whole "
        "date strings are evaluated from tokenizer to result, all digit values of a shape at once, against an "
        "independent reading of PostgreSQL's rules")
ORDERS = ("YMD", "DMY", "MDY")


def run(P, c):
    J = Judge(P, c)
    M = Masks(P)
    numbers(J, M)
    X = Texts(P, c)
    dates(X)
    X.run()
    c.floor("date shapes decided", sum(1 for o in c.obligations if o[0] == "text" and o[2] == "holds"), 1300)


def numbers(J, M):
    c = J.c
    b = J.find("parse::decode_number")
    rd = J.find("parse::str2i32")
    if b is None or rd is None:
        c.undecided("number", "decode_number", "function not found")
        return
    J.I.models[rd["name"]] = number_reader("none")
    names = {}

    def mk(order, text, F, n):
        def f(I):
            i = Input(I, b)
            buf, ref = token(I, n)
            i.args.append(ref)
            i.add(text)
            i.const(F)
            i.int("t_mask")
            tm, d = tm_value(I, i.vty())
            names.update(d)
            i.add(tm)
            i.int("fsec")
            two = T.ge(V("two", 0, 1) - 1)
            i.add(two)
            i.enum(order)
            st = i.state()
            for s in st:
                s.mem[TOK] = buf
            return st
        return f

    def res(st):
        if vname(J.I, st.ret) == "Err":
            return st.ret
        return Agg(None, 0, [st.ret, st.mem[("arg", 3)], st.mem[("arg", 4)], st.mem[("arg", 6)]])

    extra = (0, M.TIME | M.bit("DOW"))
    for F in (0, M.Y, M.M, M.D, M.Y | M.M, M.Y | M.D, M.M | M.D):
        for order in ORDERS:
            for text in (False, True):
                for n in (1, 2, 3, 4, 5, None):
                    ln = K(n) if n else V("width", 6, 128)
                    val = num(0, J.I.start and ln)
                    def spec(S, st):
                        two = T.ge(V("two", 0, 1) - 1)
                        w = Rec(names)
                        if S.ask(unreadable(0, S.norm(ln))):
                            return ERR
                        v = num(0, S.norm(ln))
                        wide = n is None or n >= 3
                        if n == 3 and F == M.Y and S.inrange(v, 1, 366):
                            return Rec({0: ok(None), 1: K(M.bit("DOY") | M.M | M.D), 2: Rec(dict(names, yday=v)), 3: two})
                        def fill(f, mask, **kw):
                            return Rec({0: ok(None), 1: K(mask), 2: Rec(dict(names, **{f: v})), 3: kw.get("two", two)})
                        def year():
                            return fill("year", M.Y, two=not wide)
                        if F == 0:
                            if wide or order == "YMD":
                                return year()
                            return fill("mday", M.D) if order == "DMY" else fill("mon", M.M)
                        if F == M.Y:
                            return fill("mon", M.M)
                        if F == M.M:
                            if text and (wide or order == "YMD"):
                                return year()
                            return fill("mday", M.D)
                        if F == M.Y | M.M:
                            if text and wide and S.ask(two):
                                return Rec({0: ok(None), 1: K(M.D), 2: Rec(dict(names, mday=names["year"], year=v)), 3: False})
                            return fill("mday", M.D)
                        if F == M.D:
                            return fill("mon", M.M)
                        if F == M.M | M.D:
                            return year()
                        return ERR
                    for x in extra:
                        if x and n not in (2, 3):
                            continue
                        J.judge("number", "fields seen %x, %s%s, %s digits%s" % (F, order, ", month name" if text else "", n or "6+", ", other fields" if x else ""),
                                b, mk(order, text, F | x, ln), spec, got=res, panics=True)


# ---- whole dates --------------------------------------------------------------------------------

def assign(S, v, w, seq, order, delimited):
    """(year, month, day, year has two digits) that the numbers and month name of a date mean; Bad when none.
    seq: field names of numbers in written order, or the number of a named month"""
    got, text, two = {}, False, False
    if delimited:       # the month name is recognised first
        for t in seq:
            if isinstance(t, int):
                if "M" in got:
                    raise Bad
                got["M"], text = K(t), True
    for t in seq:
        F = frozenset(got)
        if isinstance(t, int):
            if delimited:
                continue
            if "M" in F and not text and "D" not in F and S.inrange(got["M"], 1, 31):
                got["D"] = got["M"]
            elif "M" in F:
                raise Bad
            got["M"], text = K(t), True
            continue
        n, k = v[t], w[t]
        wide = k >= 3
        if k == 3 and F == {"Y"} and S.inrange(n, 1, 366):
            y = year_value(S, got["Y"], two)
            got["doy"] = n
            got["M"] = got["D"] = None
        elif not F:
            f = "Y" if wide or order == "YMD" else "D" if order == "DMY" else "M"
            got[f] = n
            two = f == "Y" and not wide
        elif F == {"Y"} or F == {"D"}:
            got["M"] = n
        elif F == {"M"}:
            if text and (wide or order == "YMD"):
                got["Y"], two = n, not wide
            else:
                got["D"] = n
        elif F == {"Y", "M"}:
            if text and wide and two:
                got["D"], got["Y"], two = got["Y"], n, False
            else:
                got["D"] = n
        elif F == {"M", "D"}:
            got["Y"], two = n, not wide
        else:
            raise Bad
    if not {"Y", "M", "D"} <= set(got):
        raise Bad
    return got, two


def year_value(S, y, two):
    if two:
        return two_digit(S, y)
    if not S.ask(T.gt(y)):
        raise Bad
    return y


def by_order(seq, order, delimited, bc=None, day=False):
    def julian(S, v, w):
        got, two = assign(S, v, w, seq, order, delimited)
        y = got["Y"]
        if bc:
            if not S.ask(T.gt(y)):
                raise Bad
            y = K(1) - y
        else:
            y = year_value(S, y, two)
        if "doy" in got:
            # a day beyond the end of the year is a day of the next one
            return C.J(y, K(1), K(1)) + got["doy"] - 1
        if not S.inrange(got["M"], 1, 12) or not S.ask(T.gt(got["D"])) or not S.ask(T.ge(C.DIM(y, got["M"]) - got["D"])):
            raise Bad
        return C.J(y, got["M"], got["D"])

    def spec(S, v, w):
        try:
            return date_result(S, julian(S, v, w))
        except Bad:
            return ERR
    return julian if day else spec


def dates(X):
    W = (1, 2, 3, 4, 5)
    for order in ORDERS:
        for a in W:
            for b in (1, 2, 3):
                for d in W:
                    seq = ("a", "b", "d")
                    for sep in "-/." if (a, b, d) in ((2, 2, 2), (4, 2, 2), (2, 2, 4), (1, 1, 1)) else "-":
                        if sep == "." and b == 3:
                            continue
                        X.judge("text", "Date", "{a:%d}%s{b:%d}%s{d:%d}" % (a, sep, b, sep, d), by_order(seq, order, True), order=order)
        for m in range(1, 13):
            mn = MON[m].decode()
            for a in (1, 2, 3, 4):
                for b in (1, 2, 3, 4):
                    if m not in (2, 9, 12) and (a, b) not in ((2, 2), (4, 2), (2, 4)):
                        continue
                    for t, seq in (("{a:%d}-%s-{b:%d}" % (a, mn, b), ("a", m, "b")), ("%s-{a:%d}-{b:%d}" % (mn, a, b), (m, "a", "b"))):
                        X.judge("text", "Date", t, by_order(seq, order, True), order=order)
                    for t, seq in (("{a:%d} %s {b:%d}" % (a, mn, b), ("a", m, "b")), ("%s {a:%d} {b:%d}" % (mn, a, b), (m, "a", "b"))):
                        X.judge("text", "Date", t, by_order(seq, order, False), order=order)
        for a, b, d in ((2, 2, 4), (4, 2, 2), (2, 2, 2), (1, 1, 1), (3, 1, 1), (1, 1, 3)):
            X.judge("text", "Date", "{a:%d} {b:%d} {d:%d}" % (a, b, d), by_order(("a", "b", "d"), order, False), order=order)
            for era in ("BC", "AD", "B.C.", "A.D."):
                if "." not in era:
                    X.judge("text", "Date", "{a:%d}-{b:%d}-{d:%d} %s" % (a, b, d, era), by_order(("a", "b", "d"), order, True, bc=era[0] == "B"), order=order)
        for a in (1, 2, 3, 4, 5):
            X.judge("text", "Date", "{a:%d}-{b:3}" % a, by_order(("a", "b"), order, True), order=order)
            X.judge("text", "Date", "{a:%d}.{b:3}" % a, by_order(("a", "b"), order, True), order=order)
        for y in (1, 2, 3, 4, 5, 6, 7):
            if y > 1:
                X.judge("text", "Date", "{Y:%d}{M:2}{D:2}" % y, date_text(), order=order)
            for era in ("BC", "AD", "bc", "ad"):
                X.judge("text", "Date", "{Y:%d}-{M:2}-{D:2} %s" % (max(y, 3), era), era_text(era in ("BC", "bc")), order=order)
                if y > 3:
                    X.judge("text", "Timestamp", "{Y:%d}-{M:2}-{D:2} {h:2}:{mi:2} %s" % (y, era), era_text(era in ("BC", "bc"), True), order=order)
        for w in (1, 5, 6, 7, 8, 9):
            for j in ("J", "j", "Julian ", "jd"):
                X.judge("text", "Date", j + "{j:%d}" % w, lambda S, v, w: date_result(S, v["j"]), order=order)
        for a, b, d in ((2, 2, 2), (2, 2, 4), (4, 2, 2), (1, 1, 1)):
            for sep in "-/":
                t = "{a:%d}%s{b:%d}%s{d:%d}" % (a, sep, b, sep, d)
                X.judge("text", "Timestamp", t + " {h:2}:{mi:2}:{s:2}", with_clock(by_order(("a", "b", "d"), order, True, day=True)), order=order)


def era_text(bc, clock=False):
    def spec(S, v, w):
        try:
            j = civil_day(S, v["Y"], v["M"], v["D"], bc)
            return ts_result(S, j, clock_of(S, v, w)) if clock else date_result(S, j)
        except Bad:
            return ERR
    return spec


def with_clock(day):
    def spec(S, v, w):
        try:
            return ts_result(S, day(S, v, w), clock_of(S, v, w))
        except Bad:
            return ERR
    return spec
