"""Front end: type-checks /repo's current working tree with the nightly compiler, and loads the
MIR, types, evaluated constants and impl list the driver (driver/main.rs) dumps.  Nothing of the
crate is executed."""
import atexit, fcntl, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PGV_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CRATE = "pgdatetime"


class ToolError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin"
    e.pop("RUSTUP_TOOLCHAIN", None)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def _run(cmd, env, what, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("%s failed:\n%s" % (what, p.stdout[-4000:]))
    return p.stdout


def sysroot():
    return _run(["rustc", "+nightly", "--print", "sysroot"], _env(), "rustc --print sysroot").strip()


def build_driver():
    """compile the driver into .build (once; under a lock)"""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "driver", "main.rs")
    out = os.path.join(BUILD, "mirdump")
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not (os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src)):
            tmp = out + ".new"
            _run(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", tmp], _env(), "driver build", cwd=BUILD)
            os.rename(tmp, out)
    return out


def dump(repo=REPO):
    """dump the crate at `repo`; returns the parsed JSON.  Works on a scratch copy of the sources so
    that nothing is written into the repository."""
    drv = build_driver()
    scratch = tempfile.mkdtemp(prefix="pgv-")
    atexit.register(shutil.rmtree, scratch, True)
    try:
        cp = os.path.join(scratch, "crate")
        os.mkdir(cp)
        for n in sorted(os.listdir(repo)):
            if n in ("target", ".git"):
                continue
            s = os.path.join(repo, n)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(cp, n))
            else:
                shutil.copy2(s, cp)
        env = _env()
        env["CARGO_TARGET_DIR"] = os.path.join(scratch, "target")
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
        env["RUSTFLAGS"] = "-Zalways-encode-mir"    # so that serde's default methods are visible
        env["MIRDUMP_CRATE"] = CRATE
        out = os.path.join(scratch, "mir.json")
        env["MIRDUMP_OUT"] = out
        cmd = ["cargo", "+nightly", "check", "--features", "serde", "--offline", "--lib"]
        # instantiate the crate's generic code; without the witnesses when they do not fit this tree
        lib = os.path.join(cp, "src", "lib.rs")
        if os.path.exists(lib):
            with open(lib) as f:
                plain = f.read()
            wit = {"pgv_witness": "witness.rs", "pgv_witness_serde": "witness_serde.rs"}
            for m, n in wit.items():
                shutil.copy2(os.path.join(VERIF, "driver", n), os.path.join(cp, "src", m + ".rs"))
            for ms in (list(wit), ["pgv_witness"], ["pgv_witness_serde"]):
                with open(lib, "w") as f:
                    f.write(plain + "".join("\n#[allow(missing_docs)]\npub mod %s;\n" % m for m in ms))
                try:
                    _run(cmd, env, "type check", cwd=cp)
                except ToolError:
                    if os.path.exists(out):
                        os.remove(out)
                    if os.environ.get("PGV_RAISE"):
                        raise
                    continue
                break
            else:
                with open(lib, "w") as f:
                    f.write(plain)
        if not os.path.exists(out):
            _run(cmd, env, "type check", cwd=cp)
        if not os.path.exists(out):
            raise ToolError("driver produced no dump")
        with open(out) as f:
            return json.load(f)
    finally:
        shutil.rmtree(scratch, True)


class Program:
    def __init__(self, d):
        self.d = d
        self.items = d["items"]
        self.generics = d["generics"]
        self.impls = d["impls"]
        self.insts = d["insts"]
        self.types = d["types"]
        self.allocs = d["allocs"]
        for t in self.types:
            if t and t["k"] == "array" and t["len"] is None and t.get("size") and self.types[t["elem"]]:
                es = self.types[t["elem"]].get("size") or (8 if self.types[t["elem"]]["k"] in ("ref", "ptr") else 0)
                if self.types[t["elem"]]["k"] == "int":
                    es = self.types[t["elem"]]["bits"] // 8
                if es:
                    t["len"] = t["size"] // es
        self.by_item = {}
        for it in self.items:
            self.by_item.setdefault(it["name"], it)
        for i, b in enumerate(self.insts):
            if b is not None:
                b["id"] = i

    # -- constants ---------------------------------------------------------------------------
    def raw(self, val):
        return bytes.fromhex(val["bytes"].replace("--", "00"))

    def const_items(self):
        return [it for it in self.items if it["kind"].startswith("Const") and "value" in it]

    def decode(self, ty, by, prov, off=0):
        """decode an evaluated constant into Python values (structs -> dict, enums -> variant name,
        slices/str -> bytes / list)"""
        t = self.types[ty]
        k = t["k"]
        if k == "int":
            return int.from_bytes(by[off:off + t["bits"] // 8], "little", signed=bool(t["s"]))
        if k == "bool":
            return bool(by[off])
        if k == "float":
            import struct
            return struct.unpack("<d" if t["bits"] == 64 else "<f", by[off:off + t["bits"] // 8])[0]
        if k == "array":
            es = self.types[t["elem"]].get("size", 1)
            n = t["len"] if t["len"] is not None else (len(by) - off) // max(es, 1)
            return [self.decode(t["elem"], by, prov, off + i * es) for i in range(n)]
        if k in ("ref", "ptr"):
            to = self.types[t["to"]]
            if off not in prov:
                if t.get("size") == 16 and int.from_bytes(by[off + 8:off + 16], "little") == 0:
                    return b"" if to["k"] in ("str", "slice") else None
                return None
            a = self.allocs[prov[off]]
            if a["k"] != "mem":
                return None
            base = int.from_bytes(by[off:off + 8], "little")
            aby = self.raw(a)
            apv = dict((o, p) for o, p in a["prov"])
            if to["k"] == "str":
                n = int.from_bytes(by[off + 8:off + 16], "little")
                return aby[base:base + n]
            if to["k"] == "slice":
                n = int.from_bytes(by[off + 8:off + 16], "little")
                e = self.types[to["elem"]]
                if e["k"] == "int" and e["bits"] == 8 and not e["s"]:
                    return aby[base:base + n]
                return [self.decode(to["elem"], aby, apv, base + i * e.get("size", 1)) for i in range(n)]
            return self.decode(t["to"], aby, apv, base)
        if k == "tuple":
            offs = t.get("offsets") or []
            return tuple(self.decode(e, by, prov, off + o) for e, o in zip(t["elems"], offs))
        if k == "adt" and t["adt"] == "struct" and t["variants"]:
            offs = t.get("offsets") or []
            return {n: self.decode(ft, by, prov, off + o) for (n, ft), o in zip(t["variants"][0]["fields"], offs)}
        if k == "adt" and t["adt"] == "enum" and t["variants"] and all(not v["fields"] for v in t["variants"]):
            n = int.from_bytes(by[off:off + t["size"]], "little")
            bits = t["size"] * 8
            for v in t["variants"]:
                if (v["discr"] & ((1 << bits) - 1)) == n:
                    return v["name"]
            return ("bad-discriminant", n)
        return None

    def const_value(self, it):
        v = it["value"]
        return self.decode(it["ty"], self.raw(v), dict((o, k) for o, k in v["prov"]))

    # -- functions ---------------------------------------------------------------------------
    def local_bodies(self):
        return [b for b in self.insts if b and b["local"] and "blocks" in b]

    def callee(self, body, term):
        """inst of a call terminator (None if through a pointer / polymorphic)"""
        f = term["f"]
        if "c" not in f:
            return None
        t = self.types[f["c"]["ty"]]
        if t["k"] == "fndef" and t["inst"] is not None:
            return self.insts[t["inst"]]
        return None

    def callee_name(self, body, term):
        f = term["f"]
        if "c" not in f:
            return None
        t = self.types[f["c"]["ty"]]
        if t["k"] == "fndef":
            if t["inst"] is not None:
                return self.insts[t["inst"]]["def"]
            return t["name"]
        return None


def short(name):
    return name.replace("pgdatetime::", "")
