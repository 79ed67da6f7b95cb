"""development tool: makes /verif/seeded/<id>/ from a description and confirms it in a scratch copy.

usage: plant.py FILE.py [id ...]   (FILE.py defines SEEDS: id -> dict(prop, edits=[(file, old, new)], needs, breaks, demo))
"""
import importlib.util, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seedwork"
ENV = dict(os.environ, CARGO_TARGET_DIR=S + "/target", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never",
           CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="")
DEMO = """#!/bin/bash
# exit 0: the property holds in the demonstrated case
D="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
rustc --edition 2018 -A warnings -o "$T/demo" "$D/demo.rs" --extern pgdatetime="$PWD/target/debug/libpgdatetime.rlib" -L "$PWD/target/debug/deps" || exit 3
timeout 100 "$T/demo"
"""
PRE = "use pgdatetime::*;\nuse std::convert::TryFrom;\n"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, env=ENV, **k)


def tests():
    r = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8", cwd=S)
    ok = set(l.split()[1] for l in r.stdout.splitlines() if l.startswith("test ") and l.endswith("... ok"))
    want = set(x.split("::", 1)[1] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return r, sorted(want - ok)


def main():
    spec = importlib.util.spec_from_file_location("seeds", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ids = sys.argv[2:] or list(m.SEEDS)
    if os.path.exists(S):
        shutil.rmtree(S)
    subprocess.run(["cp", "-a", "/repo", S], check=True)
    for i in ids:
        s = m.SEEDS[i]
        out = os.path.join(VERIF, "seeded", i)
        sh("git checkout -q -- .", cwd=S)
        w = "/tmp/seedwork.demo"
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        open(w + "/demo.rs", "w").write(PRE + s["demo"])
        open(w + "/demo.sh", "w").write(DEMO)
        os.chmod(w + "/demo.sh", 0o755)
        sh("cargo build --workspace --offline", cwd=S)
        a = sh("bash %s/demo.sh" % w, cwd=S)
        if a.returncode:
            print(i, "DEMO FAILS ON CLEAN TREE", a.stdout[-500:], a.stderr[-800:])
            continue
        bad = False
        for f, old, new in s["edits"]:
            p = os.path.join(S, "src", f)
            t = open(p).read()
            if t.count(old) != 1:
                print(i, "EDIT MATCHES", t.count(old), "TIMES:", old[:80])
                bad = True
                break
            open(p, "w").write(t.replace(old, new))
        if bad:
            continue
        b = sh("cargo build --workspace --offline", cwd=S)
        if b.returncode:
            print(i, "DOES NOT BUILD", b.stderr[-800:])
            continue
        r, miss = tests()
        if miss:
            print(i, "TESTS CATCH IT", miss)
            continue
        d = sh("bash %s/demo.sh" % w, cwd=S)
        if d.returncode in (0, 3):
            print(i, "DEMO DOES NOT FAIL", d.returncode, d.stdout[-300:], d.stderr[-600:])
            continue
        diff = subprocess.run(["git", "diff"], cwd=S, capture_output=True, text=True).stdout
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        shutil.copy(w + "/demo.rs", out)
        shutil.copy(w + "/demo.sh", out)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        print(i, "planted:", (d.stderr.strip().splitlines() or [""])[1:2] or d.stdout[:200])
    shutil.rmtree(S)


main()
