"""Whole strings: a text shape is a template of literal characters and decimal fields "{Y:4}" whose digits are
unconstrained; the parser is evaluated on it once for all digit values, tokenizer to result."""
import re
import report
from parsing import *

FIELD = re.compile(r"\{(\w+):(\d+)\}")


def compile_template(t, pre=""):
    """(bytes as forms, {field: value form}, {field: width})"""
    forms, vals, widths = [], {}, {}
    pos = 0

    def lit(s):
        forms.extend(K(b) for b in s.encode())
    for m in FIELD.finditer(t):
        lit(t[pos:m.start()])
        pos = m.end()
        n, w = m.group(1), int(m.group(2))
        if n.startswith("any"):      # unconstrained ASCII characters
            forms.extend(T.var("%s%s.%d" % (pre, n, k), 0, 127) for k in range(w))
            continue
        v = ZERO
        for k in range(w):
            d = T.var("%s%s.%d" % (pre, n, k), 48, 57)
            forms.append(d)
            v = v * 10 + (d - 48)
        vals[n], widths[n] = v, w
    lit(t[pos:])
    return forms, vals, widths


class Texts:
    def __init__(self, P, c, caches=nothing_remembered, **kw):
        kw.setdefault("max_paths", 20000)
        kw.setdefault("max_steps", 3000000)
        self.P, self.c = P, c
        self.J = J = Judge(P, c, **kw)
        J.I.track_rounding = True
        J.I.models["std::thread::LocalKey::<T>::with"] = tls(caches)
        self.jobs = []
        self.bodies = {}
        for ty in ("Date", "Time", "Timestamp", "Interval"):
            self.bodies[ty] = J.need("%s::%s::try_from_str" % (ty.lower(), ty))

    def judge(self, rule, ty, template, spec, order="YMD", typmod=-1, assume=(), subject=None, style="Postgres"):
        """spec(S, fields, widths) -> expected result"""
        b = self.bodies[ty]
        if b is None:
            return
        forms, vals, widths = compile_template(template)

        def mk(I):
            i = Input(I, b)
            i.args.append(Ref(STR, (), ZERO, K(len(forms))))
            if ty == "Interval":
                i.const(typmod).enum(style)
            elif ty == "Date":
                i.enum(order)
            else:
                i.const(typmod).enum(order)
            for a in assume(vals) if callable(assume) else assume:
                i.assume(a)
            sts = i.state()
            for s in sts:
                s.mem[STR] = Arr(forms)
            return sts
        def sp(S, st):
            S.verdict = vname(self.J.I, self.J.I.force(st, st.ret))
            return spec(S, vals, widths)
        self.jobs.append(lambda: self.J.judge(
            rule, subject or "%s %r %s" % (ty, template, style if ty == "Interval" else order), b, mk,
            sp, panics=True))

    def run(self):
        """decides the shapes queued so far"""
        jobs, self.jobs = self.jobs, []
        report.parallel(self.c, jobs)


class Bad(Exception):
    pass


def civil_day(S, y, m, d, bc=False):
    """julian number of a written day; raises Bad when there is no such day"""
    if not S.ask(T.gt(y)):
        raise Bad
    y = K(1) - y if bc else y
    if not S.inrange(m, 1, 12) or not S.ask(T.gt(d)) or not S.ask(T.ge(C.DIM(y, m) - d)):
        raise Bad
    return C.J(y, m, d)


def two_digit(S, y):
    if S.ask(T.ge(K(69) - y)):
        return y + 2000
    return y + 1900


def year_of(S, v, widths):
    return two_digit(S, v["Y"]) if widths["Y"] <= 2 else v["Y"]


def day_time(S, h, mi, s, f=ZERO):
    """microseconds since midnight of a written time of day; Bad when it is not one"""
    if not (S.inrange(h, 0, 24) and S.inrange(mi, 0, 59) and S.inrange(s, 0, 60)):
        raise Bad
    t = ((h * 60 + mi) * 60 + s) * 1000000 + f
    if not S.ask(T.ge(K(23) - h)) and not S.ask(T.ge(K(24 * 3600000000) - t)):
        raise Bad
    return t


def frac(v, widths, k="f"):
    return v[k] * 10 ** (6 - widths[k]) if k in v else ZERO


def clock_of(S, v, w):
    return day_time(S, v.get("h", ZERO), v.get("mi", ZERO), v.get("s", ZERO), frac(v, w))


def date_result(S, j):
    if not S.inrange(j, 0, DATE_END + EPOCH - 1):
        return ERR
    return ok(date_(j - EPOCH))


def ts_result(S, j, tod):
    t = (j - EPOCH) * USECS_DAY + tod
    if not S.inrange(t, MIN_TS, END_TS - 1):
        return ERR
    return ok(Rec({0: t}))


def date_text(bc=False):
    def spec(S, v, w):
        try:
            return date_result(S, civil_day(S, v["Y"] if bc else year_of(S, v, w), v["M"], v["D"], bc))
        except Bad:
            return ERR
    return spec


def ts_text(bc=False):
    def spec(S, v, w):
        try:
            j = civil_day(S, v["Y"] if bc else year_of(S, v, w), v["M"], v["D"], bc)
            return ts_result(S, j, clock_of(S, v, w))
        except Bad:
            return ERR
    return spec


def time_text(S, v, w):
    try:
        return ok(Rec({0: clock_of(S, v, w)}))
    except Bad:
        return ERR
