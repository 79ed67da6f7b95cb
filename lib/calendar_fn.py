"""The calendar functions as named functions of normal forms (the bodies are decided under C27/C28-like
rules; everything else treats them as these functions)."""
import terms as T
import domain as D
from terms import K, A, Lin, INF


def jd(y, m, d):
    """Gregorian day number (Julian day), any integer year, month 1..12"""
    a = (14 - m) // 12
    yy = y + 4800 - a
    mm = m + 12 * a - 3
    return d + (153 * mm + 2) // 5 + 365 * yy + yy // 4 - yy // 100 + yy // 400 - 32045


def civil(j):
    a = j + 32044
    b = (4 * a + 3) // 146097
    c = a - 146097 * b // 4
    d = (4 * c + 3) // 1461
    e = c - 1461 * d // 4
    m = (5 * e + 2) // 153
    return (100 * b + d - 4800 + m // 10, m + 3 - 12 * (m // 10), e - (153 * m + 2) // 5 + 1)


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def dim(y, m):
    if not 1 <= m <= 12:
        return None
    return [31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


T.FUN["J0"] = lambda y, m: jd(y, m, 0) if 1 <= m <= 12 else None
T.FUN["Y"] = lambda j: civil(j)[0]
T.FUN["M"] = lambda j: civil(j)[1]
T.FUN["dim"] = dim
T.FUN["ystart"] = lambda j: jd(civil(j)[0], 1, 0)
T.FUN["leap"] = lambda y: int(leap(y))


def J(y, m, d):
    return J0(y, m) + d


_CUM = {3: -275, 4: -244, 5: -214, 6: -183, 7: -153, 8: -122, 9: -91, 10: -61, 11: -30, 12: 0}


def J0(y, m):
    """day number of day zero of month m of year y; explicit when the month is known"""
    if not m.t and 1 <= m.c <= 12:
        if not y.t:
            return K(jd(y.c, m.c, 0))
        if NAMED[0] and len(y.t) == 1 and y.t[0][1] == 1 and y.t[0][0].kind == "Y" and -1 <= y.c <= 1:
            # in terms of the start of the known day's year and leap indicators
            s = T.app("ystart", y.t[0][0].key[0])
            if y.c == 1:
                s = s + 365 + T.app("leap", y - 1, lo=0, hi=1)
            elif y.c == -1:
                s = s - 365 - T.app("leap", y, lo=0, hi=1)
            s = s + (_CUM0[m.c])
            return s + T.app("leap", y, lo=0, hi=1) if m.c > 2 else s
        if m.c <= 2:
            return J0(y - 1, K(12)) + 31 * m.c
        return y.scale(365) + T.fquo(y, 4) - T.fquo(y, 100) + T.fquo(y, 400) + (_C12 + _CUM[m.c])
    return T.app("J0", y, m)


_C12 = jd(0, 12, 0)


NAMED = [False]
_CUM0 = {m: jd(2001, m, 0) - jd(2001, 1, 0) for m in range(1, 13)}


class named_years:
    """within this context the starts of the years around a known day are kept as names with their leap
    indicators instead of being expanded"""

    def __enter__(self):
        NAMED[0] = True

    def __exit__(self, *a):
        NAMED[0] = False


def Y(j):
    return K(civil(j.c)[0]) if not j.t else T.app("Y", j)


def M(j):
    return K(civil(j.c)[1]) if not j.t else T.app("M", j, lo=1, hi=12)


def Dd(j):
    return K(civil(j.c)[2]) if not j.t else j - J0(Y(j), M(j))


def split(facts, j):
    """(year, month, day) of day number j, with the calendar facts recorded"""
    y, m, d = Y(j), M(j), Dd(j)
    if j.t:
        facts.add(T.ge(d - 1))
        facts.add(T.ge(K(31) - d))
        facts.add(T.ge(DIM(y, m) - d))
    return y, m, d


def _pinned(facts, a, lo):
    """month atom a of a day number is now the constant lo"""
    j = a.key[0]
    y = Y(j)
    d = j - J0(y, K(lo))
    facts.add(T.ge(d - 1))
    facts.add(T.ge(DIM(y, K(lo)) - d))
    facts.add(T.ge(K(31) - d))


D.ONPIN["M"] = _pinned


def _pinned_y(facts, a, lo):
    """year atom a of a day number is now the constant lo"""
    j = a.key[0]
    if NAMED[0]:
        s = T.app("ystart", j)
        facts.add(T.ge(s - jd(int(lo), 1, 0)))
        facts.add(T.ge(K(jd(int(lo), 1, 0)) - s))
    facts.add(T.ge(j - jd(int(lo), 1, 1)))
    facts.add(T.ge(K(jd(int(lo) + 1, 1, 0)) - j))


D.ONPIN["Y"] = _pinned_y


def year_facts(facts, y):
    """y is the year of a known day: the day lies in that year"""
    for a, k in y.t:
        if k == 1 and a.kind == "Y" and len(y.t) == 1:
            j = a.key[0]
            facts.add(T.ge(j - J0(A(a), K(1)) - 1))
            facts.add(T.ge(J0(A(a) + 1, K(1)) - j))


def month_facts(facts):
    """days of a month range lie between the starts of the months"""
    seen = set()
    for p in list(facts.dirs):
        for a, _ in p:
            collect(a, seen)
    for a in list(facts.iv):
        collect(a, seen)
    for a in seen:
        j = a.key[0]
        y = facts.norm(Y(j))
        lo, hi = facts.ivl(a)
        lo, hi = int(lo), int(hi)
        if lo > hi:
            continue
        facts.add(T.ge(j - J0(y, K(lo)) - 1))
        facts.add(T.ge((J0(y, K(hi + 1)) if hi < 12 else J0(y + 1, K(1))) - j))
        if facts.dead:
            return


def collect(a, out):
    if a.kind == "M":
        out.add(a)
    for x in a.key:
        if isinstance(x, Lin):
            for b, _ in x.t:
                collect(b, out)


D.ONREFRESH.append(month_facts)


def DIM(y, m):
    if not y.t and not m.t and 1 <= m.c <= 12:
        return K(dim(y.c, m.c))
    if not m.t and 1 <= m.c <= 12 and m.c != 2:
        return K(dim(2001, m.c))
    return T.app("dim", y, m, lo=28, hi=31)


def _by(f, j):
    lo, hi = f.bounds(j)
    return (civil(int(lo))[0] if lo != -INF else lo, civil(int(hi))[0] if hi != INF else hi)


def _bj(f, y, m):
    yl, yh = f.bounds(y)
    ml, mh = f.bounds(m)
    ml = int(min(max(ml, 1), 12))
    mh = int(min(max(mh, 1), 12))
    return (jd(int(yl), ml, 0) if yl != -INF else -INF, jd(int(yh), mh, 0) if yh != INF else INF)


def _bm(f, j):
    return (1, 12)


def _bdim(f, y, m):
    ml, mh = f.bounds(m)
    if ml == mh and 1 <= ml <= 12:
        yl, yh = f.bounds(y)
        if ml != 2:
            return (dim(2001, int(ml)),) * 2
        if yl == yh:
            return (dim(int(yl), 2),) * 2
        return (28, 29)
    return (28, 31)


def _bys(f, j):
    lo, hi = f.bounds(j)
    return (jd(civil(int(lo))[0], 1, 0) if lo != -INF else lo, jd(civil(int(hi))[0], 1, 0) if hi != INF else hi)


D.APPB["ystart"] = _bys
D.REMAKE["ystart"] = lambda j: T.app("ystart", j) if j.t else K(jd(civil(j.c)[0], 1, 0))
D.APPB["leap"] = lambda f, y: (0, 1)
D.REMAKE["leap"] = lambda y: T.app("leap", y, lo=0, hi=1) if y.t else K(int(leap(y.c)))
D.APPB["Y"] = _by
D.APPB["J0"] = _bj
D.APPB["dim"] = _bdim
D.REMAKE["J0"] = J0
D.REMAKE["Y"] = Y
D.REMAKE["M"] = M
D.REMAKE["dim"] = DIM
