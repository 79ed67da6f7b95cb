"""The documented cascade of scaling an interval, over exact numbers (shared by C20 and C29)."""
from common import *


def trunc(S, x):
    return T.ffloor(x) if S.ask(T.ge(x)) else -T.ffloor(-x)


def rnd(S, x):
    """nearest integer, ties away from zero"""
    return T.ffloor(x + Fraction(1, 2)) if S.ask(T.ge(x)) else -T.ffloor(-x + Fraction(1, 2))


def rnd6(S, x):
    return rnd(S, x.scale(10 ** 6)).scale(Fraction(1, 10 ** 6))


def cascade(S, v, f, div):
    """(month, day, time): whole months; the fraction of a month in days of a 30-day month; the fraction of a day as time"""
    def by(x):
        return T.app("fdiv", x, f, isint=False) if div else T.mul(x, f)
    m, d = by(v["month"]), by(v["day"])
    mi, di = trunc(S, m), trunc(S, d)
    md = rnd6(S, (m - mi).scale(30))
    mdi = trunc(S, md)
    sec = rnd6(S, (d - di + md - mdi).scale(86400))
    extra = trunc(S, sec.scale(Fraction(1, 86400)))
    sec = sec - extra.scale(86400)
    t = rnd(S, by(v["time"]) + sec.scale(10 ** 6))
    return mi, di + extra + mdi, t
