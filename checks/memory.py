"""Memory that outlives a call: thread-local keys and statics with interior mutability. Their cells are ordinary
memory of the analysis, initialised from the evaluated initialiser, and can be carried from one call to the next."""
from common import *
import models

WRAP = ("RefCell", "Cell", "UnsafeCell", "Mutex", "RwLock", "Atomic")
ONCE = ("OnceLock", "OnceCell", "LazyLock", "LazyCell")


def wrapper(I, ty):
    t = I.types[ty]
    if t["k"] == "adt" and t.get("args"):
        n = t["name"].rsplit("::", 1)[-1]
        if n in WRAP or n.startswith("Atomic") or n in ONCE:
            return n
    return None


def inside(I, ty, alloc, off):
    """content of a wrapper at this place of a constant"""
    t = I.types[ty]
    n = wrapper(I, ty)
    if n in ONCE:
        return Agg(None, 0, ())
    o = (t.get("offsets") or [0])[-1]
    return CMem(t["args"][0], alloc, off + o)


def place(c, r):
    """reference to the content of the wrapper r refers to"""
    if not isinstance(r, Ref):
        raise Undecided("memory")
    I, st = c.I, c.st
    v = I.getp(st, r.cell, r.path)
    if isinstance(v, CMem) and wrapper(I, v.ty):
        I.setp(st, r.cell, r.path, inside(I, v.ty, v.alloc, v.off))
    return r


def load(c, r):
    r = place(c, r)
    return c.I.getp(c.st, r.cell, r.path)


def store(c, r, v):
    r = place(c, r)
    c.I.setp(c.st, r.cell, r.path, v)


class Memory:
    def __init__(self, J):
        self.J, self.I, self.P = J, J.I, J.P
        self.init = {}
        m = J.I.models
        LK = "std::thread::LocalKey::<T>::"
        m[LK + "with"] = lambda c, k, f: c.apply(c.argty(1), f, [self.cell(c, k)])

        def tried(c, k, f):
            v = c.apply(c.argty(1), f, [self.cell(c, k)])
            return v if v is PANIC else c.variant(c.dty, "Ok", [v])
        m[LK + "try_with"] = tried
        for R in ("std::thread::LocalKey::<std::cell::RefCell<T>>::", "std::thread::LocalKey::<std::cell::Cell<T>>::"):
            m[R + "with_borrow"] = m[R + "with_borrow_mut"] = m[LK + "with"]
            m[R + "get"] = lambda c, k: load(c, self.cell(c, k))
            m[R + "set"] = self.setter(lambda c, k: self.cell(c, k))
            m[R + "replace"] = self.swapper(lambda c, k: self.cell(c, k))
        for R in ("std::cell::RefCell::<T>::", "std::cell::Cell::<T>::"):
            m[R + "get"] = lambda c, r: load(c, r)
            m[R + "set"] = self.setter(lambda c, r: r)
            m[R + "replace"] = self.swapper(lambda c, r: r)
        for n in ("borrow", "borrow_mut"):
            m["std::cell::RefCell::<T>::" + n] = lambda c, r: Agg(None, 0, [place(c, r)])
        for n in ("std::cell::RefCell::<T>::new", "std::cell::Cell::<T>::new", "std::sync::Mutex::<T>::new", "std::sync::RwLock::<T>::new"):
            m[n] = lambda c, v: v
        for n in ("std::sync::Mutex::<T>::lock", "std::sync::RwLock::<T>::read", "std::sync::RwLock::<T>::write"):
            m[n] = lambda c, r: c.variant(c.dty, "Ok", [Agg(None, 0, [place(c, r)])])
        for g in ("std::sync::MutexGuard<'_, T>", "std::sync::RwLockReadGuard<'_, T>", "std::sync::RwLockWriteGuard<'_, T>"):
            for t, f in (("Deref", "deref"), ("DerefMut", "deref_mut")):
                m["<%s as std::ops::%s>::%s" % (g, t, f)] = models.m_rderef
        for a in ("i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize", "bool"):
            A_ = "std::sync::atomic::Atomic::<%s>::" % a
            m[A_ + "load"] = lambda c, r, o: load(c, r)
            m[A_ + "store"] = lambda c, r, v, o: self.set3(c, r, v)
            m[A_ + "swap"] = lambda c, r, v, o: self.old(c, r, lambda x: v)
            m[A_ + "fetch_add"] = lambda c, r, v, o: self.old(c, r, lambda x: x + v)
            m[A_ + "fetch_sub"] = lambda c, r, v, o: self.old(c, r, lambda x: x - v)
        for O in ("std::sync::OnceLock::<T>::", "std::cell::OnceCell::<T>::"):
            m[O + "get_or_init"] = self.once

    def setter(self, at):
        def f(c, k, v):
            store(c, at(c, k), v)
            return UNIT
        return f

    def set3(self, c, r, v):
        store(c, r, v)
        return UNIT

    def swapper(self, at):
        return lambda c, k, v: self.old(c, at(c, k), lambda x: v)

    def old(self, c, r, f):
        v = c.I.force(c.st, load(c, r))
        store(c, r, f(v))
        return v

    def once(self, c, r, f):
        v = load(c, r)
        if not isinstance(v, Agg) or v.ty is not None:
            raise Undecided("once")
        if not v.f:
            x = c.apply(c.argty(1), f, [])
            if x is PANIC:
                return PANIC
            store(c, r, Agg(None, 0, [x]))
        Ref(r.cell, tuple(r.path) + (("f", 0, None),))

    # ---- thread-local keys

    def cell(self, c, key):
        if not isinstance(key, Ref) or key.cell[0] != "alloc":
            raise Undecided("thread-local key")
        a = self.P.allocs[key.cell[1]]
        f = self.P.allocs[a["prov"][0][1]].get("inst")
        name = self.keyname(f)
        k = ("tls", name)
        if k not in c.st.mem:
            if name not in self.init:
                self.init[name] = self.initial(name, c.inst["args"][0])
            v, mem = self.init[name]
            for x, y in mem.items():
                c.st.mem.setdefault(x, y)
            c.st.mem[k] = v
        return Ref(k)

    def keyname(self, f):
        """the thread_local item whose accessor is this function"""
        for it in self.P.const_items():
            pv = it.get("value", {}).get("prov") or []
            if len(pv) == 1 and self.P.allocs[pv[0][1]].get("inst") == f:
                return it["name"]
        raise Undecided("thread-local key")

    def initial(self, name, ty):
        I = self.I
        save = getattr(I, "dest_ty", None)
        try:
            b = self.J.find(name + "::__rust_std_internal_init_fn")
            if b:
                st = I.start(b, [Opaque(b["locals"][i + 1], "none", "unk") for i in range(b["argc"])])
                out = I.run(st)
                if len(out) == 1 and out[0].status[0] == "ret":
                    return out[0].ret, {k: v for k, v in out[0].mem.items() if k[0] == "alloc"}
                raise Undecided("initial value of " + name)
            for it in self.P.const_items():
                if it["name"] == name + "::__RUST_STD_INTERNAL_INIT" and "value" in it:
                    v = it["value"]
                    self.P.allocs.append({"k": "mem", "bytes": v["bytes"], "prov": v["prov"]})
                    k = len(self.P.allocs) - 1
                    return (inside(I, ty, k, 0) if wrapper(I, ty) else CMem(ty, k, 0)), {}
        finally:
            I.dest_ty = save
        raise Undecided("initial value of " + name)


def lasting(mem):
    """what a call leaves behind for the next one"""
    return {k: v for k, v in mem.items() if k[0] not in ("l", "arg", "str", "tok", "empty")}
