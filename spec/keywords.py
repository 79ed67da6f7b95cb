"""The date/time input vocabulary, as documented: PostgreSQL's manual (appendix "Date/Time Key
Words") and the built-in zone abbreviations of its date/time tables, grouped here by meaning.  A value
is stated as what it means (month number, weekday, UTC offset in seconds, era ...)."""


def words(**kw):
    return {v: k for k, vs in kw.items() for v in vs.split()}


MONTHS = dict(january=1, jan=1, february=2, feb=2, march=3, mar=3, april=4, apr=4, may=5, june=6, jun=6, july=7,
              jul=7, august=8, aug=8, september=9, sep=9, sept=9, october=10, oct=10, november=11, nov=11,
              december=12, dec=12)
WEEKDAYS = dict(sunday=0, sun=0, monday=1, mon=1, tuesday=2, tue=2, tues=2, wednesday=3, wed=3, weds=3, thursday=4,
                thu=4, thur=4, thurs=4, friday=5, fri=5, saturday=6, sat=6)

H = 3600


def _off(text):
    d = {}
    for line in text.split("\n"):
        line = line.split()
        if not line:
            continue
        sign = -1 if line[0][0] == "-" else 1
        hh, mm = line[0][1:].split(":")
        for w in line[1:]:
            d[w] = sign * (int(hh) * 3600 + int(mm) * 60)
    return d


STANDARD_ZONES = _off("""
-12:00 fjt idlw
-11:00 nt nut
-10:00 ahst cat hst that tkt
-09:30 mart
-09:00 gamt yst
-08:00 pst
-07:00 mst
-06:00 cst east galt zp6
-05:00 act cot est pet zp5
-04:00 ast bot clt gyt pyt vet zp4
-03:30 nft nst
-03:00 art bra gft uyt wgt
-02:00 fkt
-01:00 azot egt set wat
+00:00 gmt ut utc wet z zulu
+01:00 cet dnt fst met mewt mez nor swt
+02:00 bdst eet ist
+03:00 bt eat msk
+03:30 irt it
+04:00 amt azt get mut
+04:30 aft
+05:00 iot kgt mvt pkt tft tjt tmt uzt yekt
+05:45 npt
+06:00 almt bdt btt lkt mawt novt omst
+06:30 mmt
+07:00 almst cvt cxt davt ict javt wast
+07:30 jt
+08:00 awst bnt bort cct hkt irkt krat myt pht ulat wst
+08:30 mt
+09:00 jayt jst kst pwt yakt
+09:30 cast sast
+10:00 aest ddut gst ligt mpt pgt truk vlat yapt
+10:30 lhst
+11:00 magt nct pont vut
+12:00 anat ckt gilt idle kost mht nzst nzt pett tvt wakt wft
+12:45 chast
+13:00 phot tot
+14:00 lint
""")

DAYLIGHT_ZONES = _off("""
-13:00 fjst
-09:00 akst hdt
-08:00 akdt ydt
-07:00 pdt
-06:00 mdt
-05:00 cdt easst
-04:00 acst edt
-03:00 adt awt clst fkst pyst
-02:30 ndt
-02:00 pmdt uyst wgst
+00:00 azost egst
+01:00 bst west wetdst
+02:00 cest cetdst fwt mest metdst sst
+03:00 eest eetdst
+04:00 msd ret sct
+05:00 amst azst gest
+06:00 kgst uzst yekst
+07:00 krast novst omsst
+08:00 wadt
+09:00 awsst irkst ulast wdt
+10:00 kdt yakst
+10:30 acsst cadt sadt
+11:00 aesst lhdt vlast
+12:00 magst
+13:00 anast nzdt petst
+13:45 chadt
""")

# word -> (class, meaning)
DATE = {}
for _w, _m in MONTHS.items():
    DATE[_w] = ("MONTH", _m)
for _w, _m in WEEKDAYS.items():
    DATE[_w] = ("DOW", _m)
for _w, _m in STANDARD_ZONES.items():
    DATE[_w] = ("TZ", _m)
for _w, _m in DAYLIGHT_ZONES.items():
    DATE[_w] = ("DTZ", _m)
DATE.update({"am": ("AMPM", 0), "pm": ("AMPM", 1), "ad": ("ADBC", 0), "bc": ("ADBC", 1),
             "dst": ("DTZMOD", H), "at": ("IgnoreDtf", 0), "on": ("IgnoreDtf", 0), "t": ("ISOTIME", "Time")})
for _w, _m in {"-infinity": "Early", "infinity": "Late", "now": "Now", "today": "Today", "tomorrow": "Tomorrow",
               "yesterday": "Yesterday", "epoch": "Epoch", "allballs": "Zulu", "invalid": "Invalid",
               "undefined": "Invalid", "current": "Current"}.items():
    DATE[_w] = ("RESERV", _m)
for _w, _m in {"y": "Year", "m": "Month", "d": "Day", "h": "Hour", "mm": "Minute", "s": "Second", "j": "Julian",
               "jd": "Julian", "julian": "Julian", "dow": "Dow", "doy": "Doy", "isodow": "Isodow"}.items():
    DATE[_w] = ("UNITS", _m)

DELTA = {"@": ("IgnoreDtf", 0), "ago": ("AGO", 0), "invalid": ("RESERV", "Invalid"),
         "undefined": ("RESERV", "Invalid")}
for _u, _ws in {
        "Century": "c cent century centuries", "Decade": "dec decs decade decades",
        "Millennium": "mil mils millennium millennia", "Year": "y yr yrs year years",
        "Quarter": "qtr quarter", "Month": "mon mons month months", "Week": "w week weeks", "Day": "d day days",
        "Hour": "h hr hrs hour hours", "Minute": "m min mins minute minutes",
        "Second": "s sec secs second seconds",
        "Millisec": "ms msec msecs msecond mseconds millisecon",
        "Microsec": "us usec usecs usecond useconds microsecon",
        "Tz": "timezone", "TzHour": "timezone_h", "TzMinute": "timezone_m"}.items():
    for _w in _ws.split():
        DELTA[_w] = ("UNITS", _u)

# words longer than ten characters, and the entry their first ten characters must reach
LONG = {"milliseconds": "Millisec", "millisecond": "Millisec", "microsecond": "Microsec",
        "microseconds": "Microsec", "timezone_hour": "TzHour", "timezone_minute": "TzMinute",
        "millenniums": "Millennium"}
