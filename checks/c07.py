"""C07: operations on valid values never panic."""
from ops import *

TECHNIQUE = ("value analysis of MIR: every overflow, division, index and unwrap assertion on every path of every public operation shown "
             "unreachable for valid values")
NOTE = ("decides every arithmetic, conversion, truncation, extraction, construction, comparison and formatting operation for all valid values; "
        "overflow assertions are those of a debug build, so a wrap in a release build is covered")
ASSUMPTIONS = ["date2julian and julian2date compute the proleptic Gregorian calendar (decided by C27)",
               "floating-point operations on finite values are exact"]


def run(P, c):
    J = Judge(P, c, max_paths=60000, max_steps=20000000)
    for fn, args in table():
        b = J.need(fn)
        if not b:
            continue
        for v in variants(args):
            J.judge("no panic", "%s %s" % (fn, label(v)), b, lambda I: build(I, b, v), lambda S, st: ZERO, got=lambda st: ZERO, panics=True)
    c.floor("operations decided", sum(1 for o in c.obligations), 300)
