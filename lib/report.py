"""Findings, known findings, evidence and exit status, shared by every check."""
import json, os, pickle, sys, time, traceback

from program import VERIF, Program, ToolError, dump, REPO

KNOWN = os.path.join(VERIF, "known_findings.json")
EVID = os.path.join(VERIF, "evidence")
DEADLINE = 780       # seconds after which the remaining obligations are left undecided


class Check:
    """one property's run: collects obligations and violations, writes the evidence, exits"""

    def __init__(self, pid, technique, level="other"):
        self.pid = pid
        self.technique = technique
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.violations = []     # (key, message, where)
        self.obligations = []    # (rule, subject, verdict)
        self.counts = {}
        self.assumptions = []
        self.notes = []
        self.subjects = {}
        self.known = {}
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                for e in json.load(f).get("findings", []):
                    if e.get("property") == pid and e.get("status") == "known":
                        self.known[e["key"]] = e

    def unlisted(self):
        return sum(1 for v in self.violations if v["key"] not in self.known)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ok(self, rule, subject):
        self.obligations.append((rule, subject, "holds"))

    def bad(self, rule, subject, why, where=None, entry=None):
        key = "%s|%s" % (rule, subject)
        self.obligations.append((rule, subject, "VIOLATED"))
        self.violations.append({"key": key, "rule": rule, "subject": subject, "why": why,
                                "where": where, "entry": entry})

    def undecided(self, rule, subject, why):
        self.obligations.append((rule, subject, "undecided: " + why))

    def floor(self, what, got, want):
        """fail closed: a rule that sees fewer sites than were counted by hand is not quiet"""
        if got < want and any(o[2].startswith("undecided") for o in self.obligations):
            self.undecided("anchor", what, "only %d instances decided, %d expected: see the undecided ones" % (got, want))
        elif got < want:
            self.bad("anchor", what, "only %d instances found, at least %d expected: the rule no longer sees "
                     "what it decides" % (got, want))
        else:
            self.ok("anchor", "%s: %d (floor %d)" % (what, got, want))

    def finish(self):
        known = self.known
        seen, new, kn = set(), [], []
        for v in self.violations:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            (kn if v["key"] in known else new).append(v)
        for v in kn:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, known[v["key"]].get("what", v["key"])))
        holds = sum(1 for o in self.obligations if o[2] == "holds")
        und = [o for o in self.obligations if o[2].startswith("undecided")]
        cov = {"explanation": "%s. %d obligations: %d hold, %d violated, %d undecided (reported, not counted as holding)."
               % (self.technique, len(self.obligations), holds, len(seen), len(und)),
               "obligations": len(self.obligations), "discharged": holds,
               "rules": {}, "subjects": self.subjects}
        for r, s, verdict in self.obligations:
            e = cov["rules"].setdefault(r, {"holds": 0, "violated": 0, "undecided": 0, "sites": []})
            e["holds" if verdict == "holds" else ("violated" if verdict == "VIOLATED" else "undecided")] += 1
            if len(e["sites"]) < 400:
                e["sites"].append("%s -- %s" % (s, verdict))
        for k, n in self.counts.items():
            cov[k] = n
        cov["undecided"] = ["%s|%s %s" % o for o in und]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3),
              "violations": len(new)}
        if new:
            cov["reported"] = [{"id": v["key"], "description": v["why"], "where": v["where"]} for v in new]
        if kn:
            cov["known"] = [v["key"] for v in kn]
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d hold, %d known findings, %d new violations, %d undecided (%.1fs)"
              % (self.pid, len(self.obligations), holds, len(kn), len(new), len(und), time.time() - self.t0))
        if not new:
            return 0
        rd = os.path.join(EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, self.pid + ".json")
        with open(rp, "w") as f:
            json.dump({"property": self.pid, "technique": self.technique,
                       "reproduce": "cd %s && ./run.sh %s" % (VERIF, self.pid), "violations": new}, f, indent=1)
        for v in new[:20]:
            print("  [%s] %s: %s%s%s" % (v["rule"], v["subject"], v["why"],
                                         " at %s" % v["where"] if v["where"] else "",
                                         " via %s" % v["entry"] if v["entry"] else ""))
        print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        return 1


def parallel(check, jobs, workers=None):
    """runs jobs (functions without arguments, each adding to check) in forked workers and collects what they found"""
    n = min(workers or os.cpu_count() or 1, 8, len(jobs))
    if n <= 1 or os.environ.get("PGV_SERIAL"):
        for j in jobs:
            j()
        return
    sys.stdout.flush()
    sys.stderr.flush()
    procs = []
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                check.violations, check.obligations, check.counts = [], [], {}
                for j in jobs[w::n]:
                    j()
                with os.fdopen(wr, "wb") as f:
                    pickle.dump((check.violations, check.obligations, check.counts), f)
                sys.stdout.flush()
            except BaseException:
                traceback.print_exc()
                code = 1
            os._exit(code)
        os.close(wr)
        procs.append((pid, r, len(jobs[w::n])))
    for pid, r, k in procs:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            v, o, cn = pickle.loads(data)
        except Exception:
            check.undecided("analysis", "%d obligations of a worker" % k, "the worker did not finish")
            continue
        check.violations += v
        check.obligations += o
        for a, b in cn.items():
            check.count(a, b)


def where(body, line):
    """file:line (for the report only; never part of a key)"""
    if not line:
        return None
    return "src/%s:%s" % (line[1], line[0])


def load():
    if os.environ.get("PGV_DUMP"):      # development only
        with open(os.environ["PGV_DUMP"]) as f:
            return Program(json.load(f))
    return Program(dump())
