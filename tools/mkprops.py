"""writes properties.jsonl (run by hand after editing)"""
import json, os
P = []
def p(i, title, st, over, q, why, files, mech, obs, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": obs, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": q},
              "why_tests_cant": why, "anchors": a})
I = ["inputs"]

p("C01", "Every documented date/time keyword is recognised, with its documented meaning",
  "Each keyword of PostgreSQL's date/time input vocabulary that the library covers (month and weekday names and abbreviations, am/pm, ad/bc, special values, field labels, zone abbreviations, interval units with their plurals, 'ago') is found and carries exactly the meaning PostgreSQL documents, and no other word is accepted as a keyword. A word is looked up by its first ten characters.",
  I, "all words", "343 table entries; the tests look up a few dozen words, and a lookup that depends on sort order fails only for particular keys.",
  ["src/token.rs"], [("keyword tables", "src/token.rs DATE_TOKEN_TABLE, DELTA_TOKEN_TABLE"), ("lookup", "src/token.rs date_token_binary_search, search_date_token, search_delta_token"), ("field codes", "src/token.rs TokenType, TokenField")],
  ["Date::try_from_str", "Timestamp::try_from_str", "Interval::try_from_str"])
p("C02", "Results depend only on the arguments, never on earlier calls",
  "Every operation returns the same result for the same arguments, whatever was parsed, formatted or computed before, on this or on another thread. The lookup memory kept between calls can change how fast a keyword is found but never which meaning it gets, and no operation reads the clock, the environment or any other outside state.",
  ["histories", "inputs", "schedules"], "all sequences of operations on all threads", "A stale or shared memo answers wrongly only after a particular earlier string; the tests never compare a parse with and without history.",
  ["src/parse.rs", "src/token.rs"], [("memo check", "src/parse.rs decode_special, decode_units: full-key comparison before the memo is used")],
  ["Date::try_from_str", "Interval::try_from_str"], [("DATE_CACHE", "per-position memo of the last date keyword", "src/parse.rs"), ("DELTA_CACHE", "per-position memo of the last interval keyword", "src/parse.rs")])
p("C03", "A malformed part of an input string is never silently ignored",
  "When any step of decoding a string fails, the whole parse fails: no failure is dropped, replaced by a success or retried as something else, except that an interval not in the general syntax may be tried as an ISO 8601 duration. A token that is no part of a date, time or interval, a label or unit without its value, a number without digits, and a string lacking the date or the time of day its type needs are errors. Every date, time or timestamp that parses successfully has passed the calendar validation of its date part, and its time of day the range checks.",
  I, "all input strings", "There are hundreds of decode-failure sites; a dropped failure shows only for a string malformed in exactly that place.",
  ["src/parse.rs", "src/date.rs", "src/time.rs", "src/timestamp.rs", "src/interval.rs"], [("error propagation", "src/parse.rs every Result-returning decode step"), ("validation", "src/common.rs PgTime::validate_date, called from decode_date_time and decode_time_only")],
  ["Date::try_from_str", "Time::try_from_str", "Timestamp::try_from_str", "Interval::try_from_str"])
p("C04", "Checked operations only return dates and timestamps in the supported range",
  "Every date returned by a fallible operation on valid values is an infinity or lies from 4714-11-24 BC to 5874897-12-31, and every timestamp is an infinity or lies from 4714-11-24 BC to 294276-12-31 23:59:59.999999. A result outside the range is reported as an error instead.",
  I, "all valid dates, timestamps, intervals, times and all component arguments of the constructors", "The bounds are two points in a 64-bit space; only values within one step of them can cross.",
  ["src/date.rs", "src/timestamp.rs", "src/common.rs"], [("range checks", "src/date.rs is_valid_date; src/timestamp.rs is_valid_timestamp; src/common.rs is_valid_julian")],
  ["Date::add_days", "Date::sub_days", "Date::add_interval", "Date::add_time", "Timestamp::add_interval", "Timestamp::try_from_ymd_hms", "Timestamp::truncate", "TryFrom<Date> for Timestamp", "TryFrom<Timestamp> for Date"])
p("C05", "Interval addition, subtraction and negation are exact or an error",
  "Adding or subtracting two intervals adds or subtracts their months, days and microseconds independently and exactly, and negating an interval negates all three. If any component does not fit, the operation reports overflow; no component wraps, saturates or leaks into another.",
  I, "all pairs of intervals", "Overflow appears only within one operation of the 32/64-bit limits, and a swapped component only when the components differ.",
  ["src/interval.rs"], [("checked component arithmetic", "src/interval.rs add_interval, sub_interval, negate")],
  ["Interval::add_interval", "Interval::sub_interval", "Interval::negate", "Interval + Interval"])
p("C06", "Date arithmetic and date/timestamp conversion are exact or an error",
  "Adding or subtracting days to a finite date moves it by exactly that many days, the difference of two finite dates is exactly their distance in days, and a finite date converts to the timestamp of its midnight. Results that are not representable are reported as errors.",
  I, "all valid dates and all day counts", "Exactness over 2^31 dates times 2^32 day counts; the tests try a handful near today.",
  ["src/date.rs", "src/timestamp.rs"], [("checked arithmetic", "src/date.rs add_days, sub_days, sub_date; src/timestamp.rs TryFrom<Date> for Timestamp")],
  ["Date::add_days", "Date::sub_days", "Date::sub_date", "Timestamp::try_from(Date)"])
p("C07", "Operations on valid values never panic or overflow",
  "No arithmetic, comparison, conversion, truncation, field extraction, formatting or construction on valid dates, times, timestamps and intervals panics, overflows an integer, divides by zero or indexes out of bounds: what cannot be computed is an error. The only exception is the '+' operator on intervals, which is documented as unchecked.",
  I, "all valid values and all component arguments, in debug and release builds", "Overflows hide at the ends of 32- and 64-bit ranges and in rare branches; release builds wrap silently.",
  ["src/date.rs", "src/time.rs", "src/timestamp.rs", "src/interval.rs", "src/common.rs"], [("guards and checked arithmetic", "every public non-parsing operation")],
  ["all public methods except try_from_str"])
p("C08", "Formatting produces the documented layout for every value",
  "For every valid value and every style and field order, the text consists of the documented components in the documented order with the documented separators: two-digit zero-padded month, day, hour, minute and second, year padded to four digits and shown as a positive year with ' BC' for years before 1 AD, and fractional seconds only when non-zero. The text is ASCII and formatting never fails for a valid value except an interval whose hours do not fit.",
  I, "all valid values, styles and orders", "The layout differs per style, order, era and sign of every component; the tests print a few values.",
  ["src/date.rs", "src/time.rs", "src/timestamp.rs", "src/interval.rs", "src/common.rs"], [("writers", "src/date.rs format_date; src/time.rs format_time; src/timestamp.rs format_date_time; src/interval.rs format_interval; src/common.rs pg_ltostr, pg_ltostr_zeropad, append_seconds")],
  ["Date::format", "Time::format", "Timestamp::format", "Interval::format"])
p("C09", "What serialization writes is what deserialization reads",
  "For each of the four types, in human-readable and in binary form, the writer and the reader agree on the data-format kind, on the text style, field order and precision, and on the name, order and type of every component, and every raw component is carried unchanged. Reader and writer choose between the two forms by the same test.",
  I, "all values and all serde formats", "The tests go through one JSON and one binary format; self-describing, sequence and map formats take other visitor paths.",
  ["src/serde.rs"], [("Serialize / Deserialize", "src/serde.rs")], ["Serialize", "Deserialize"])
p("C10", "Unsafe code never creates an invalid value",
  "No operation reads uninitialised memory, builds text that is not UTF-8, or converts a number into an enumeration value that does not exist. Every unsafe operation in the library is covered by an argument that holds for every input.",
  I, "all inputs", "Undefined behaviour is usually invisible to tests: an uninitialised buffer or a bad discriminant works until the compiler changes.",
  ["src/date.rs", "src/time.rs", "src/timestamp.rs", "src/interval.rs", "src/token.rs"], [("unsafe blocks", "String::from_utf8_unchecked, Vec::set_len, transmute")],
  ["all public functions"])
p("C11", "Ordering, equality and hashing agree and follow elapsed time",
  "Dates, times and timestamps are ordered by time with minus infinity first and infinity last, and intervals are ordered by their total length, counting a month as 30 days and a day as 24 hours, without overflow. Two values are equal exactly when neither is less than the other, and equal values hash alike.",
  I, "all pairs of values", "Totality, consistency and freedom from overflow quantify over all pairs; the tests compare a few.",
  ["src/interval.rs", "src/date.rs", "src/time.rs", "src/timestamp.rs"], [("comparison", "src/interval.rs From<Interval> for i128, PartialEq, Ord, PartialOrd, Hash; derived impls elsewhere")],
  ["Ord", "PartialOrd", "Eq", "Hash"])
p("C12", "Infinite dates and timestamps behave as infinities everywhere",
  "Infinity and minus infinity are unchanged by adding or subtracting days, times and intervals and by truncation, convert to the same infinity of the other type, and print as 'infinity' and '-infinity'. A difference or age with an infinite operand is an error, and extraction yields the signed infinity for fields that grow forever and zero for cyclic ones.",
  I, "both infinities combined with every other operand, unit and style", "Each operation needs its own guard; a missing one computes garbage from the extreme number that stands for infinity.",
  ["src/date.rs", "src/timestamp.rs"], [("guards", "is_infinite tests in every operation"), ("reserved values", "src/date.rs DATE_BEGIN_VAL/DATE_END_VAL; src/timestamp.rs DATE_TIME_BEGIN_VAL/DATE_TIME_END_VAL")],
  ["Date", "Timestamp"])
p("C13", "Truncating a timestamp clears exactly the finer fields",
  "Truncating a finite timestamp or date to a unit keeps every coarser field and the unit itself, resets every finer field to its first value, and for quarter, decade, century and millennium moves the year or month to the start of the period containing it, in both eras. A week truncates to the Monday of its ISO week, and the result is never a partially truncated value.",
  I, "all finite timestamps and dates, all units", "Era boundaries, ISO years and the cascade over a dozen units; the tests truncate a few AD values.",
  ["src/timestamp.rs", "src/common.rs", "src/date.rs"], [("field truncation", "src/common.rs PgTime::truncate_*; src/timestamp.rs DateTime::truncate")],
  ["Timestamp::truncate", "Date::truncate"])
p("C14", "Truncating a time or interval clears exactly the finer fields",
  "Truncating an interval or a time of day to a unit keeps the unit and every coarser component unchanged and zeroes every finer one, towards zero for negative intervals, with decades, centuries, millennia and quarters truncated to whole multiples. Units that do not apply are an error. (An interval whose whole hours do not fit 32 bits may be an error.)",
  I, "all intervals, times and units", "The unit cascade combined with signs; the tests use one positive interval.",
  ["src/interval.rs", "src/time.rs", "src/common.rs"], [("field truncation", "src/common.rs PgTime::truncate_*; src/interval.rs to_pgtime, from_pgtime, DateTime::truncate")],
  ["Interval::truncate", "Time::truncate"])
p("C15", "Field extraction returns the documented field for every unit",
  "For each type, each unit and each finite value, extraction returns that field of the value by its documented definition (seconds with fraction, quarter from month, BC years without a year zero, decade, century and millennium in both eras, day of year, weekday numbering, Julian day, epoch), or an error for units the type does not have. Timestamps and dates give the same answer for the same moment.",
  I, "all values of the four types, all 23 units, both field types", "Four types times 46 unit selections, with era- and sign-dependent formulas; the tests sample one value each.",
  ["src/timestamp.rs", "src/interval.rs", "src/time.rs", "src/date.rs"], [("extraction", "DateTime::date_part of each type")], ["date_part"])
p("C16", "Rounding to a precision moves a value by at most half a step, away on ties",
  "Parsing with a fractional-second precision rounds to the nearest multiple of that step, ties away from zero, symmetrically for negative values, and leaves infinities and full-precision values alone. Interval field restrictions zero exactly the fields finer than the last one allowed, and precisions out of range are an error for timestamps and intervals and have no effect for times.",
  I, "all values and all type modifiers", "Ties, negatives and the seven scales interact; table entries are used one at a time.",
  ["src/timestamp.rs", "src/time.rs", "src/interval.rs"], [("rounding", "adjust_by_typmod of each type and the scale/offset tables")], ["try_from_str with a type modifier"])
p("C17", "Justifying an interval keeps its length and normalises its signs",
  "Justifying hours, days or the whole interval preserves the total length (with 24-hour days and 30-day months) and, when the carry fits, brings hours below 24, days below 30 and gives the affected components the same sign. A component that is not being justified is unchanged.",
  I, "all intervals whose carries are representable", "The sign cases form a product over three components; the tests use a few.",
  ["src/interval.rs"], [("justification", "src/interval.rs justify_hours, justify_days, justify_interval")], ["Interval::justify_hours", "Interval::justify_days", "Interval::justify_interval"])
p("C18", "Time-of-day arithmetic wraps exactly at 24 hours",
  "Adding or subtracting an interval to a time of day, and converting an interval to a time, gives a time from 00:00:00 up to but excluding 24:00:00 that differs from the exact result by a whole number of days, and depends only on the time component of the interval. The difference of two times is exactly their distance, and converting a finite timestamp to a time gives its time of day.",
  I, "all times, all intervals, all finite timestamps", "Wrap-around for negative and huge intervals, near the 64-bit limits, is not sampled.",
  ["src/time.rs"], [("modular arithmetic", "src/time.rs add_interval, sub_interval, sub_time, From<Interval>, TryFrom<Timestamp>")], ["Time::add_interval", "Time::sub_interval", "Time::sub_time", "Time::from(Interval)", "Option<Time>::try_from(Timestamp)"])
p("C19", "Constructors accept exactly the real calendar dates and times of day",
  "Building a date or timestamp from components succeeds exactly when month, day (by the Gregorian leap-year rule), hour, minute and second are in range, the year is not zero and the result is in the supported range; a negative year means BC for dates and is an error for timestamps. NaN or out-of-range seconds are always an error, and 24:00:00 is the only accepted time with hour 24.",
  I, "all integer and floating-point component tuples", "Six independent components, including NaN and extreme integers; the tests try a dozen tuples.",
  ["src/date.rs", "src/time.rs", "src/timestamp.rs", "src/common.rs"], [("validation", "src/common.rs validate_date, days_of_month, year_is_leap; src/date.rs try_from_ymd; src/time.rs try_from_hms; src/timestamp.rs try_from_ymd_hms")],
  ["Date::try_from_ymd", "Time::try_from_hms", "Timestamp::try_from_ymd_hms"])
p("C20", "Scaling an interval reports every overflow",
  "Multiplying or dividing an interval by a floating-point number never returns a saturated, wrapped or NaN-derived component: NaN or infinite intermediate results, components beyond their width, and division by zero are errors.",
  I, "all intervals and all floating-point factors including NaN and infinities", "Saturating casts turn overflow into plausible values silently; the tests use small factors.",
  ["src/interval.rs"], [("range checks before casts", "src/interval.rs mul_f64, div_f64")], ["Interval::mul_f64", "Interval::div_f64"])
p("C21", "Parsing never panics or overflows, whatever the input",
  "No input string of any length or content makes a parse panic, index out of bounds, overflow an integer or loop forever. A value too large for its field is an error, never a wrapped value.",
  I, "all strings, type modifiers, orders and styles", "The input space is all strings; debug builds panic and release builds wrap on a digit string nobody tried.",
  ["src/parse.rs", "src/common.rs", "src/token.rs"], [("bounds and overflow guards", "src/parse.rs")], ["try_from_str of each type"])
p("C22", "A component given twice is rejected, never overwritten",
  "In a date, time, timestamp or interval string every field (year, month, day, hour, minute, second, zone, era, meridiem, interval unit) may be given once. A second token supplying a field already supplied makes the parse an error, in whatever order the tokens come; text giving each field once in a documented form is accepted and has the value its parts say. (The designators of ISO 8601 durations are the exception: repeated ones add up.)",
  I, "all token sequences", "The conflict matrix is quadratic in token kinds and depends on their order; the tests check a few pairs.",
  ["src/parse.rs"], [("mask bookkeeping", "src/parse.rs check_mask_set in decode_date_time, decode_time_only, decode_interval; decode_date")], ["try_from_str of each type"],
  [("f_mask", "fields already supplied", "src/parse.rs"), ("t_mask", "fields supplied by the current token", "src/parse.rs")])
p("C23", "Ambiguous numeric dates are read in the requested order, years by fixed rules",
  "A plain number in a date fills the field determined by the fields already seen, the requested order, the number's width and whether a month name was given, as documented for PostgreSQL. One- and two-digit years mean 1970 to 2069, BC years count back from 1 BC, and year zero and years below it are rejected.",
  I, "all numbers, orders and field states", "The decision depends on the product of field state, order and width; the tests sample it.",
  ["src/parse.rs", "src/common.rs"], [("decision", "src/parse.rs decode_number; src/common.rs validate_date")], ["Date::try_from_str", "Timestamp::try_from_str"])
p("C24", "Age is a normalised difference with one sign",
  "The age between two finite timestamps is the field-by-field difference with borrows propagated: its components all have the sign of the difference, months are less than a year's worth beyond whole years, and exchanging the arguments of equal-length months negates it. Days are borrowed from the length of the month of the earlier timestamp.",
  I, "all pairs of valid finite timestamps", "Borrow chains over six fields in both directions; the tests use a few pairs.",
  ["src/timestamp.rs"], [("borrow propagation", "src/timestamp.rs age")], ["Timestamp::age"])
p("C25", "Adding an interval to a timestamp applies months, days and time in turn, exactly",
  "Adding an interval to a finite timestamp first moves the calendar month by the month count, clipping the day to the length of the new month and keeping the time of day, then moves by whole calendar days, then adds the microseconds exactly. Subtracting adds the negated interval, adding or subtracting a time moves by exactly that time, and the difference of two timestamps is their exact distance split into whole days and a remainder.",
  I, "all finite timestamps and all intervals", "Month-end clipping, era and sign cases and the order of the steps; the tests try a few combinations.",
  ["src/timestamp.rs", "src/date.rs", "src/common.rs"], [("stepwise addition", "src/timestamp.rs add_interval, sub_interval, add_time, sub_time, sub_timestamp, sub_date; src/date.rs add_interval, add_time, sub_interval")],
  ["Timestamp::add_interval", "Timestamp::sub_timestamp", "Date::add_interval", "Date::add_time"])
p("C26", "Formatting and parsing are inverse",
  "Every valid date, time, timestamp or interval formatted in a style that carries all its fields, and read with the field order it was written in, parses back to the same value; intervals showing a number of -2147483648 years, days or hours may be rejected instead. A text of such a form that denotes no valid value is rejected.",
  I, "all valid values, styles and orders", "Two 64-bit computations over a value space of 2^64 (intervals: 2^128) must be inverse; the tests read back a few texts.",
  ["src/parse.rs", "src/timestamp.rs", "src/date.rs", "src/interval.rs"], [("formatters and parsers", "format, try_from_str")], ["format", "try_from_str"])
p("C27", "Calendar conversion is the exact proleptic Gregorian calendar",
  "Converting a day number to year, month and day and back is the identity over the whole supported range, and consecutive day numbers are consecutive calendar days.",
  I, "2^31 day numbers", "The tests convert a few dates.",
  ["src/common.rs"], [("conversion", "src/common.rs date2julian, julian2date")], ["Date", "Timestamp"])
p("C28", "ISO week and ISO year numbers are exact",
  "Extracting the week and the ISO year of a finite date or timestamp follows ISO 8601: weeks start on Monday, week 1 is the week containing January 4th, a day in a week belonging to the neighbouring year takes that year's number and week, and years before 1 AD are numbered as BC years without a year zero.",
  I, "all finite dates and timestamps", "The answer depends on the weekday of January 4th of three neighbouring years; the tests sample a few year ends.",
  ["src/common.rs"], [("week arithmetic", "src/common.rs date_to_iso_week, date_to_iso_year")], ["date_part Week, IsoYear"])
p("C29", "Scaling an interval cascades fractions down, never up",
  "Apart from floating-point rounding, multiplying or dividing an interval by a finite number scales months, days and time separately, keeps the whole part of the months (towards zero), turns the remaining fraction of a month into days of a 30-day month and the remaining fraction of a day into time, so that the total length is the scaled length to the microsecond. Nothing is carried from a finer component into a coarser one except whole days produced by the month's fraction, and a result well inside the component widths is not an error.",
  I, "all intervals and all finite factors", "Signs, fractions and carries of three components interact; the tests use a few factors.",
  ["src/interval.rs", "src/common.rs"], [("cascade", "src/interval.rs mul_f64, div_f64; src/common.rs timestamp_round")], ["Interval::mul_f64", "Interval::div_f64"])
p("C30", "An interval text means the sum of its parts",
  "An interval string made of numbers with unit words, years-months, days and times of day, or of ISO 8601 designators, has exactly the value of its parts added up, each with its own sign; 'ago', and a leading minus in the SQL standard style when no other sign is written, reverse the sign of the whole. Fractions go down: of a year or more to whole months (truncated, as computed in double precision), of a month to days of a 30-day month and time, of a week or a day to days and time, of smaller units to the nearest microsecond. A number without a unit takes the finest field allowed by the type modifier (seconds when there is none), or days when it comes before a time or an hours part. A fraction spilling into the time of day next to a written time of day, and one spilling into a finer part under a leading minus, are as in PostgreSQL and not covered.",
  I, "all numbers, unit words, signs, fractions, styles and field restrictions", "The value of a text depends on the order, sign, unit, fraction, style and type modifier together; the tests read a few dozen texts.",
  ["src/parse.rs", "src/token.rs", "src/interval.rs"], [("decoding", "src/parse.rs decode_interval, decode_interval_number_field, decode_iso8601_interval, adjust_fract_seconds, adjust_fract_days, decode_units")],
  ["Interval::try_from_str"])
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
