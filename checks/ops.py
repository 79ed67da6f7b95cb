"""The public operations that do not parse text: (subject, function, inputs). Shared by C04 and C07."""
from common import *

KINDS = ("finite", "inf", "-inf")
STYLES = ("Postgres", "ISO", "SQL", "German", "XSD")
ORDERS = ("YMD", "DMY", "MDY")
ISTYLES = ("Postgres", "PostgresVerbose", "SQLStandard", "ISO8601")
UNITS = ["Delta", "Second", "Minute", "Hour", "Day", "Week", "Month", "Quarter", "Year", "Decade", "Century", "MilliSec", "MicroSec",
         "JULIAN", "Dow", "IsoDow", "Doy", "Tz", "TzMinute", "TzHour", "Millennium", "IsoYear", "Epoch"]
D, TS, TM, IV = "date::Date", "timestamp::Timestamp", "time::Time", "interval::Interval"
CONV = "std::convert::"
P_ = "pgdatetime::"


def table():
    """(function, [argument specifications]); d/ts: date, timestamp of every kind, t time, v interval, n integer, f float, u field and unit"""
    out = []
    for ty, k in ((D, "d"), (TS, "ts"), (TM, "t"), (IV, "v")):
        mod, short = ty.split("::")
        for f in ("date_part", "truncate"):
            out.append((dt(mod, short, f), [k, "F", "U"]))
        out.append((dt(mod, short, "is_finite"), [k]))
        if k in ("d", "ts"):
            out.append((dt(mod, short, "is_infinite"), [k]))
    out += [(D + "::try_from_ymd", ["n", "n", "n"]), (D + "::add_days", ["d", "n"]), (D + "::sub_days", ["d", "n"]),
            (D + "::add_interval", ["d", "v"]), (D + "::sub_interval", ["d", "v"]), (D + "::add_time", ["d", "t"]),
            (D + "::sub_date", ["d", "d"]), (D + "::format", ["d", "S", "O"]),
            ("<pgdatetime::date::Date as %sTryFrom<pgdatetime::timestamp::Timestamp>>::try_from" % CONV, ["ts"]),
            ("<pgdatetime::timestamp::Timestamp as %sTryFrom<pgdatetime::date::Date>>::try_from" % CONV, ["d"]),
            (TS + "::try_from_ymd_hms", ["n", "n", "n", "n", "n", "f"]), (TS + "::add_interval", ["ts", "v"]),
            (TS + "::sub_interval", ["ts", "v"]), (TS + "::add_time", ["ts", "t"]), (TS + "::sub_time", ["ts", "t"]),
            (TS + "::sub_date", ["ts", "d"]), (TS + "::sub_timestamp", ["ts", "ts"]), (TS + "::age", ["ts", "ts"]),
            (TS + "::format", ["ts", "S", "O"]),
            ("time::<impl %sTryFrom<pgdatetime::timestamp::Timestamp> for std::option::Option<pgdatetime::time::Time>>::try_from" % CONV, ["ts"]),
            (TM + "::try_from_hms", ["n", "n", "f"]), (TM + "::add_interval", ["t", "v"]), (TM + "::sub_interval", ["t", "v"]),
            (TM + "::sub_time", ["t", "t"]), (TM + "::format", ["t", "S"]),
            ("<pgdatetime::time::Time as %sFrom<pgdatetime::interval::Interval>>::from" % CONV, ["v"]),
            ("<pgdatetime::interval::Interval as %sFrom<pgdatetime::time::Time>>::from" % CONV, ["t"]),
            ("interval::<impl %sFrom<pgdatetime::interval::Interval> for i128>::from" % CONV, ["v"]),
            (IV + "::try_from_ymwd_hms", ["n", "n", "n", "n", "n", "n", "f"]), (IV + "::add_interval", ["v", "v"]),
            (IV + "::sub_interval", ["v", "v"]), (IV + "::negate", ["v"]), (IV + "::justify_hours", ["v"]),
            (IV + "::justify_days", ["v"]), (IV + "::justify_interval", ["v"]), (IV + "::mul_f64", ["v", "f"]),
            (IV + "::div_f64", ["v", "f"]), (IV + "::format", ["v", "IS"]),
            ("<pgdatetime::interval::Interval as std::cmp::Ord>::cmp", ["v", "v"]),
            ("<pgdatetime::interval::Interval as std::cmp::PartialOrd>::partial_cmp", ["v", "v"]),
            ("<pgdatetime::interval::Interval as std::cmp::PartialEq>::eq", ["v", "v"])]
    return out


ALT = {"d": [("date", "finite"), ("date", "inf"), ("date", "-inf")], "ts": [("ts", "finite"), ("ts", "inf"), ("ts", "-inf")],
       "t": [("time", "")], "v": [("interval", "")], "n": [("int", "")],
       "f": [("float", None), ("float", "nan"), ("float", "inf"), ("float", "-inf")],
       "F": [("enum", "Unit"), ("enum", "Epoch")], "U": [("enum", u) for u in UNITS], "S": [("enum", s) for s in STYLES],
       "O": [("enum", o) for o in ORDERS], "IS": [("enum", s) for s in ISTYLES]}


def variants(args):
    """all combinations of argument alternatives: list of [(builder, kind)]"""
    out = [[]]
    for a in args:
        out = [x + [y] for x in out for y in ALT[a]]
    # the unit is irrelevant to the epoch selector except for a few representatives
    return [v for v in out if not (("enum", "Epoch") in v[:-1] and v[-1][1] not in ("Epoch", "Day", "Second") and "U" in args)]


def label(v):
    return "/".join(str(k) for _, k in v if k not in ("", None, "finite"))


def build(I, body, v):
    i = Input(I, body)
    for n, (b, k) in enumerate(v):
        nm = "%s%d" % ("abcdefgh"[n], len(v))
        if b in ("date", "ts"):
            getattr(i, b)("%s.%s" % (b, nm), k)
        elif b == "enum":
            i.enum(k)
        elif b == "float":
            i.float("x." + nm, k)
        elif b == "int":
            i.int("%s.i" % nm)
        else:
            getattr(i, b)("%s.%s" % (b, nm))
    return i.state()
