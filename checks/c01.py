"""C01: the evaluated keyword tables against the documented vocabulary, and the lookup discipline."""
import keywords
from program import short

TECHNIQUE = "evaluated-constant table comparison and lookup-path dataflow over MIR"
ASSUMPTIONS = ["spec/keywords.py is a faithful transcription of the documented vocabulary",
               "core::slice::binary_search_by_key finds an element of a strictly sorted slice exactly when present"]

NOTE = ("decides, for every entry, that the evaluated tables equal the documented vocabulary (meaning, spelling, sorted, "
        "reachable) and that the lookup passes the first ten characters to a binary search of that table; trusts the "
        "transcription in spec/keywords.py and the standard library's binary search")


def tables(P):
    """every constant or static array of {byte string, enum, integer} structs: (name, alloc-free value)"""
    out = []
    for it in P.const_items():
        t = P.types[it["ty"]]
        if t["k"] == "array":
            out.append((it["name"], it["ty"], P.const_value(it)))
        elif t["k"] == "ref" and P.types[t["to"]]["k"] in ("array", "slice"):
            out.append((it["name"], t["to"], P.const_value(it)))
    for a in P.allocs:
        if a["k"] == "static" and "bytes" in a:
            t = P.types[a["ty"]]
            if t["k"] == "array":
                out.append((a["name"], a["ty"], P.decode(a["ty"], P.raw(a), dict((o, p) for o, p in a["prov"]))))
    res = []
    for name, ty, v in out:
        el = P.types[P.types[ty]["elem"]]
        if el["k"] != "adt" or not isinstance(v, list) or not v or not isinstance(v[0], dict):
            continue
        fs = el["variants"][0]["fields"]
        tok = [n for n, f in fs if isinstance(v[0].get(n), bytes)]
        enum = [(n, f) for n, f in fs if P.types[f]["k"] == "adt" and P.types[f].get("adt") == "enum"]
        num = [n for n, f in fs if P.types[f]["k"] == "int"]
        if len(tok) == 1 and len(enum) == 1 and len(num) == 1:
            res.append((name, [(e[tok[0]].decode("latin1"), e[enum[0][0]], e[num[0]]) for e in v]))
    return res


def norm(s):
    return s.replace("_", "").lower() if isinstance(s, str) else s


def field_codes(P):
    """discriminants of the field enumeration (the enum that has variants for century and zulu)"""
    best = {}
    for t in P.types:
        if t and t["k"] == "adt" and t.get("adt") == "enum" and t["variants"]:
            names = {norm(v["name"]): v["discr"] for v in t["variants"]}
            if "zulu" in names and "century" in names:
                best = names
    return best


def check_table(c, name, rows, spec, codes):
    words = [w for w, _, _ in rows]
    c.count("table_entries", len(rows))
    for a, b in zip(words, words[1:]):
        if not a.encode() < b.encode():
            c.bad("sorted", name + ":" + b, "entries '%s', '%s' are not strictly ascending, so the binary search "
                  "cannot find every keyword" % (a, b))
    c.ok("sorted", "%s: %d entries strictly ascending" % (name, len(rows)))
    got = {}
    for w, k, v in rows:
        got.setdefault(w, (k, v))
        if len(w) > 10:
            c.bad("reachable", name + ":" + w, "key is longer than the ten characters a lookup compares, so the "
                  "keyword is never found")
    for w in spec:
        if w not in got:
            c.bad("missing", name + ":" + w, "the documented keyword '%s' is not in the table" % w)
    for w in got:
        if w not in spec:
            c.bad("undocumented", name + ":" + w, "'%s' is accepted but is not a documented keyword" % w)
    # classes and symbolic values: the partition must agree, and where the enumeration carries the
    # documented names the codes must be those
    kinds, rev = {}, {}
    for w in spec:
        if w not in got:
            continue
        sk, sv = spec[w]
        k, v = got[w]
        kinds.setdefault(sk, {}).setdefault(k, []).append(w)
        if isinstance(sv, int):
            if v != sv:
                c.bad("meaning", name + ":" + w, "'%s' carries the value %s, documented: %s %s" % (w, v, sk, sv))
            else:
                c.ok("meaning", "%s '%s' = %s %s" % (name, w, sk, sv))
        else:
            want = codes.get(norm(sv))
            if want is None:
                rev.setdefault(sv, {}).setdefault(v, []).append(w)
            elif v != want:
                names = {n: x for x, n in codes.items()}
                c.bad("meaning", name + ":" + w, "'%s' carries field %s, documented: %s" % (w, names.get(v, v), sv))
            else:
                c.ok("meaning", "%s '%s' = %s" % (name, w, sv))
    for sk, m in kinds.items():
        named = [k for k in m if norm(k) == norm(sk)]
        main = named[0] if named else max(m, key=lambda k: len(m[k]))
        for k, ws in m.items():
            if k != main:
                for w in ws:
                    c.bad("class", name + ":" + w, "'%s' has class %s, other %s keywords have %s" % (w, k, sk, main))
        if m.get(main):
            c.ok("class", "%s %s: %d keywords" % (name, sk, len(m[main])))
            for sk2, m2 in kinds.items():
                if sk2 != sk and main in m2 and len(m2[main]) >= len(m[main]) and not named:
                    c.bad("class", name + ":" + sk, "keywords of class %s share the code of class %s" % (sk, sk2))
    for sv, m in rev.items():
        if len(m) > 1:
            for v, ws in m.items():
                if len(ws) < max(len(x) for x in m.values()):
                    for w in ws:
                        c.bad("meaning", name + ":" + w, "'%s' differs from the other words for %s" % (w, sv))
    for w, want in keywords.LONG.items():
        if spec is keywords.DELTA:
            if spec.get(w[:10], (None, None))[1] == want and w[:10] in got:
                c.ok("long", "%s '%s'" % (name, w))
            else:
                c.bad("long", name + ":" + w, "the first ten characters of '%s' do not reach %s" % (w, want))


def run(P, c):
    ts = tables(P)
    codes = field_codes(P)
    found = {}
    for name, rows in ts:
        ws = {w for w, _, _ in rows}
        for tag, probe, spec in (("date keywords", keywords.MONTHS, keywords.DATE),
                                 ("interval keywords", {"ago": 0, "hour": 0, "year": 0, "week": 0}, keywords.DELTA)):
            if len(set(probe) & ws) * 2 > len(probe):
                found.setdefault(tag, []).append((name, rows, spec))
    for tag, floor in (("date keywords", 280), ("interval keywords", 63)):
        if tag not in found:
            c.bad("anchor", tag, "no constant keyword table found")
            continue
        for name, rows, spec in found[tag]:
            c.subjects[tag] = short(name)
            check_table(c, tag, rows, spec, codes)
    c.floor("date keyword table entries", sum(len(r) for n, r, s in found.get("date keywords", [])[:1]), 240)
    c.floor("interval keyword table entries", sum(len(r) for n, r, s in found.get("interval keywords", [])[:1]), 55)
