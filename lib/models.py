"""Transfer functions for library code without MIR, and for the calendar functions."""
import terms as T
import domain as D
import calendar_fn as C
from terms import K, A, Lin, INF, ZERO, ONE
from interp import *
from interp import MODELS, INTRINSICS, model, intrinsic
from fractions import Fraction


def sref(I, st, v):
    """slice reference: (ref, offset, length)"""
    if isinstance(v, Opaque):
        v = I.force(st, v)
    if isinstance(v, Ref):
        if v.len is not None:
            return v
        inner = I.force(st, I.getp(st, v.cell, v.path))
        if isinstance(inner, Ref):
            return sref(I, st, inner)
        if isinstance(inner, Arr):
            return Ref(v.cell, v.path, ZERO, K(len(inner.e)))
        if isinstance(inner, Buf):
            return Ref(v.cell, v.path, ZERO, inner.len)
        if isinstance(inner, Agg) and inner.f and isinstance(inner.f[0], Ref):
            return sref(I, st, inner.f[0])
    if isinstance(v, Agg) and v.f and isinstance(v.f[0], Ref):
        return sref(I, st, v.f[0])
    raise Undecided("not a slice: %r" % (v,))


def need(c, cond, kind):
    """obligation: cond, else the library panics"""
    d = c.st.facts.decide(cond)
    if d is None:
        raise NeedFork([cond, T.neg(cond)])
    c.I.record(c.st, c.fr, c.t["l"], kind, cond, d)
    return d


S = "core::slice::<impl [T]>::"


@model(S + "len", "core::str::<impl str>::len")
def m_len(c, s):
    return sref(c.I, c.st, s).len


@model(S + "is_empty", "core::str::<impl str>::is_empty")
def m_empty(c, s):
    return T.eq(sref(c.I, c.st, s).len)


def elem(r, i):
    return Ref(r.cell, r.path + (("i", (r.off if r.off is not None else ZERO) + i),))


@model(S + "first")
def m_first(c, s):
    r = sref(c.I, c.st, s)
    if c.fork(T.ge(r.len - 1)):
        return c.some(elem(r, ZERO))
    return c.none()


@model(S + "last")
def m_last(c, s):
    r = sref(c.I, c.st, s)
    if c.fork(T.ge(r.len - 1)):
        return c.some(elem(r, r.len - 1))
    return c.none()


def rangeof(c, r, idx):
    """(start, end) of a range index value, or None for a plain index"""
    if isinstance(idx, Lin):
        return None
    if not isinstance(idx, Agg):
        idx = c.I.force(c.st, idx)
    if not isinstance(idx, Agg):
        raise Undecided("index %r" % (idx,))
    n = c.I.types[idx.ty]["name"] if idx.ty is not None else "?"
    f = [c.I.force(c.st, x) for x in idx.f]
    n = n.split("::")[-1]
    if n == "Range":
        return f[0], f[1]
    if n == "RangeFrom":
        return f[0], r.len
    if n == "RangeTo":
        return ZERO, f[0]
    if n == "RangeFull":
        return ZERO, r.len
    if n == "RangeToInclusive":
        return ZERO, f[0] + 1
    if n == "RangeInclusive":
        return f[0], f[1] + 1
    raise Undecided("range " + n)


@model(S + "get", S + "get_mut")
def m_get(c, s, i):
    r = sref(c.I, c.st, s)
    q = rangeof(c, r, i)
    if q is None:
        if c.fork(T.gt(r.len - i)):
            return c.some(elem(r, i))
        return c.none()
    a, b = q
    if c.fork(T.ge(b - a)) and c.fork(T.ge(r.len - b)):
        return c.some(Ref(r.cell, r.path, r.off + a, b - a))
    return c.none()


@model("core::slice::index::<impl std::ops::Index<I> for [T]>::index",
       "core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut")
def m_index(c, s, i):
    r = sref(c.I, c.st, s)
    q = rangeof(c, r, i)
    if q is None:
        if not need(c, T.allof(T.ge(i), T.gt(r.len - i)), "bounds"):
            return PANIC
        return elem(r, i)
    a, b = q
    if not need(c, T.ge(b - a), "slice-order"):
        return PANIC
    if not need(c, T.ge(r.len - b), "slice-end"):
        return PANIC
    return Ref(r.cell, r.path, (r.off if r.off is not None else ZERO) + a, b - a)


def content(c, r):
    """elements of a slice when its length is a constant: list of values"""
    n = c.I.pin(c.st, r.len)
    if not n.isconst() or n.c > 300:
        return None
    v = c.I.getp(c.st, r.cell, r.path)
    v = v if not isinstance(v, Opaque) else c.I.force(c.st, v)
    off = c.I.pin(c.st, r.off if r.off is not None else ZERO)
    if isinstance(v, CMem) and off.isconst() and c.I.types[v.ty]["k"] == "array":
        t = c.I.types[v.ty]
        es = c.I.types[t["elem"]]["size"]
        return [c.I.force(c.st, CMem(t["elem"], v.alloc, v.off + k * es)) for k in range(off.c, off.c + n.c)]
    if isinstance(v, Arr) and off.isconst():
        return [c.I.force(c.st, e) for e in v.e[off.c:off.c + n.c]]
    if isinstance(v, Buf):
        return [c.I.force(c.st, c.I.buf_get(c.st, v, off + k)) for k in range(n.c)]
    return None


@model(S + "copy_from_slice", S + "clone_from_slice")
def m_copy(c, d, s):
    d, s = sref(c.I, c.st, d), sref(c.I, c.st, s)
    if not need(c, T.eq(d.len - s.len), "copy-length"):
        return PANIC
    put(c, d, content(c, s), s)
    return UNIT


def put(c, d, elems, src):
    v = c.I.getp(c.st, d.cell, d.path)
    v = c.I.force(c.st, v) if isinstance(v, Opaque) else v
    if isinstance(v, Arr):
        off = c.I.pin(c.st, d.off)
        if off.isconst() and elems is not None:
            e = list(v.e)
            e[off.c:off.c + len(elems)] = elems
            c.I.setp(c.st, d.cell, d.path, Arr(e))
            return
        raise Undecided("copy into array")
    if isinstance(v, Buf):
        if elems is not None:
            w = tuple(("b", d.off + k, x) for k, x in enumerate(elems))
        else:
            w = (("copy", d.off, (src.cell, src.path, src.off), d.off + d.len),)
        c.I.setp(c.st, d.cell, d.path, Buf(v.name, v.len, v.elem, v.base, v.log + w))
        return
    raise Undecided("copy into %r" % (v,))


@model(S + "swap")
def m_swap(c, s, a, b):
    r = sref(c.I, c.st, s)
    if not need(c, T.gt(r.len - a), "bounds"):
        return PANIC
    if not need(c, T.gt(r.len - b), "bounds"):
        return PANIC
    pa, pb = r.path + (("i", r.off + a),), r.path + (("i", r.off + b),)
    x = c.I.getp(c.st, r.cell, pa)
    y = c.I.getp(c.st, r.cell, pb)
    c.I.setp(c.st, r.cell, pa, y)
    c.I.setp(c.st, r.cell, pb, x)
    return UNIT


@model(S + "split_at_mut", S + "split_at")
def m_split(c, s, n):
    r = sref(c.I, c.st, s)
    if not need(c, T.ge(r.len - n), "split"):
        return PANIC
    off = r.off if r.off is not None else ZERO
    return Agg(None, 0, [Ref(r.cell, r.path, off, n), Ref(r.cell, r.path, off + n, r.len - n)])


@model(S + "iter", S + "iter_mut", "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
       "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter")
def m_iter(c, s):
    r = sref(c.I, c.st, s)
    return Agg(None, 0, [r, ZERO, r.len])


def itself(c, it):
    v = c.I.force(c.st, c.I.getp(c.st, it.cell, it.path))
    if not (isinstance(v, Agg) and len(v.f) == 3 and isinstance(v.f[0], Ref)):
        raise Undecided("iterator %r" % (v,))
    return v


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::next",
       "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next")
def m_next(c, it):
    v = itself(c, it)
    r, pos, end = v.f
    if c.fork(T.gt(end - pos)):
        c.I.setp(c.st, it.cell, it.path, Agg(None, 0, [r, pos + 1, end]))
        return c.some(elem(r, pos))
    return c.none()


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::nth")
def m_nth(c, it, n):
    v = itself(c, it)
    r, pos, end = v.f
    if c.fork(T.gt(end - pos - n)):
        c.I.setp(c.st, it.cell, it.path, Agg(None, 0, [r, pos + n + 1, end]))
        return c.some(elem(r, pos + n))
    c.I.setp(c.st, it.cell, it.path, Agg(None, 0, [r, end, end]))
    return c.none()


def elems_of(c, it):
    """(ref, first, one past the last) of a slice iterator over a known number of elements, or None"""
    if isinstance(it, Ref) and it.len is None:
        it = c.I.force(c.st, c.I.getp(c.st, it.cell, it.path))
    if not (isinstance(it, Agg) and it.ty is None and len(it.f) == 3 and isinstance(it.f[0], Ref)):
        return None
    r, pos, end = it.f
    n = c.I.pin(c.st, end - pos)
    if not n.isconst() or not 0 <= n.c <= 300:
        return None
    return r, pos, int(n.c)


def truth(c, v):
    v = c.I.tobool(v)
    d = c.st.facts.decide(v)
    if d is None:
        raise NeedFork([v, T.neg(v)])
    return d


def by_ref(c, x):
    cell = ("o", "item#%d" % c.I.uniq())
    c.st.mem[cell] = x
    return Ref(cell)


@model("std::iter::Iterator::take_while")
def m_tw(c, it, f):
    e = elems_of(c, it)
    if e is None:
        return BODY
    r, pos, n = e
    k = 0
    while k < n:
        v = c.apply(c.argty(1), f, [by_ref(c, elem(r, pos + k))])
        if v is PANIC:
            return PANIC
        if not truth(c, v):
            break
        k += 1
    return Agg(None, 0, [Agg(None, 0, [r, pos, pos + k]), False, f, K(k)])      # iterator, exhausted, predicate; decided


@model("std::iter::Iterator::count")
def m_count(c, it):
    if isinstance(it, Agg) and len(it.f) == 4 and it.ty is None and isinstance(it.f[3], Lin):
        return it.f[3]
    return BODY


ITER = "<std::slice::Iter<'a, T> as std::iter::Iterator>::"


@model(ITER + "count", "<std::slice::Iter<'_, T> as std::iter::ExactSizeIterator>::len", "<std::slice::Iter<'a, T> as std::iter::ExactSizeIterator>::len",
       "std::iter::ExactSizeIterator::len")
def m_iterlen(c, it):
    v = it
    if isinstance(v, Ref) and v.len is None:
        v = c.I.force(c.st, c.I.getp(c.st, v.cell, v.path))
    if isinstance(v, Agg) and v.ty is None and len(v.f) == 3 and isinstance(v.f[0], Ref):
        return v.f[2] - v.f[1]
    return BODY


@model(ITER + "size_hint")
def m_sizehint(c, it):
    v = itself(c, it)
    n = v.f[2] - v.f[1]
    t = c.I.types[c.dty]["elems"][1] if "elems" in c.I.types[c.dty] else None
    if t is None:
        return c.fresh("size_hint")
    return Agg(None, 0, [n, c.variant(t, "Some", [n])])


@model(ITER + "last")
def m_iterlast(c, v):
    r, pos, end = v.f
    if c.fork(T.gt(end - pos)):
        return c.some(elem(r, end - 1))
    return c.none()


for _n in ("<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::", "<std::slice::IterMut<'a, T> as std::iter::DoubleEndedIterator>::"):
    @model(_n + "next_back")
    def m_nextback(c, it):
        v = itself(c, it)
        r, pos, end = v.f
        if c.fork(T.gt(end - pos)):
            c.I.setp(c.st, it.cell, it.path, Agg(None, 0, [r, pos, end - 1]))
            return c.some(elem(r, end - 1))
        return c.none()

    @model(_n + "nth_back")
    def m_nthback(c, it, n):
        v = itself(c, it)
        r, pos, end = v.f
        if c.fork(T.gt(end - pos - n)):
            c.I.setp(c.st, it.cell, it.path, Agg(None, 0, [r, pos, end - n - 1]))
            return c.some(elem(r, end - n - 1))
        c.I.setp(c.st, it.cell, it.path, Agg(None, 0, [r, pos, pos]))
        return c.none()


@model("std::slice::Iter::<'a, T>::as_slice")
def m_asslice(c, it):
    r, pos, end = itself(c, it).f
    return Ref(r.cell, r.path, (r.off if r.off is not None else ZERO) + pos, end - pos)


def _part(c, r, a, b):
    return Ref(r.cell, r.path, (r.off if r.off is not None else ZERO) + a, b - a)


def _splitter(last):
    def g(c, s):
        r = sref(c.I, c.st, s)
        t = c.I.types[c.dty]
        some = next(v for v in t["variants"] if v["name"] == "Some")
        if c.fork(T.ge(r.len - 1)):
            if last:
                return c.some(Agg(some["fields"][0][1], 0, [elem(r, r.len - 1), _part(c, r, ZERO, r.len - 1)]))
            return c.some(Agg(some["fields"][0][1], 0, [elem(r, ZERO), _part(c, r, K(1), r.len)]))
        return c.none()
    return g


for _n, _l in (("split_first", False), ("split_last", True), ("split_first_mut", False), ("split_last_mut", True)):
    MODELS[S + _n] = _splitter(_l)


@model(S + "strip_prefix", S + "strip_suffix")
def m_strip(c, s, n):
    r = sref(c.I, c.st, s)
    name = c.inst["def"] if hasattr(c, "inst") else ""
    x, y = content(c, r), content(c, sref(c.I, c.st, n))
    if x is None or y is None or not all(isinstance(e, Lin) for e in x + y):
        return c.fresh("strip")
    k = len(y)
    if k > len(x):
        return c.none()
    end = name.endswith("suffix")
    part = x[len(x) - k:] if end else x[:k]
    for p, q in zip(part, y):
        if not c.fork(T.eq(p - q)):
            return c.none()
    return c.some(_part(c, r, ZERO, K(len(x) - k)) if end else _part(c, r, K(k), K(len(x))))


@model(S + "reverse")
def m_reverse(c, s):
    r = sref(c.I, c.st, s)
    e = content(c, r)
    if e is None:
        raise Undecided("reverse")
    put(c, r, list(reversed(e)), r)
    return UNIT


@model(S + "fill")
def m_fill(c, s, x):
    r = sref(c.I, c.st, s)
    e = content(c, r)
    if e is None:
        raise Undecided("fill")
    put(c, r, [x] * len(e), r)
    return UNIT


def _fold(c, it, init, f):
    e = elems_of(c, it)
    if e is None:
        return c.fresh("fold")
    r, pos, n = e
    acc = init
    for k in range(n):
        acc = c.apply(c.argty(2), f, [acc, elem(r, pos + k)])
        if acc is PANIC:
            return PANIC
    return acc


def _search(kind):
    def g(c, it, f):
        e = elems_of(c, it)
        if e is None:
            return c.fresh(kind)
        r, pos, n = e
        for k in range(n - 1, -1, -1) if kind == "rposition" else range(n):
            x = elem(r, pos + k)
            v = c.apply(c.argty(1), f, [by_ref(c, x) if kind == "find" else x])
            if v is PANIC:
                return PANIC
            v = truth(c, v)
            if kind == "all":
                if not v:
                    return False
            elif v:
                return True if kind == "any" else c.some(x if kind == "find" else K(k))
        return {"all": True, "any": False}.get(kind, None) if kind in ("all", "any") else c.none()
    return g


for _n in ("<std::slice::Iter<'a, T> as std::iter::Iterator>::", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::"):
    MODELS[_n + "fold"] = _fold
    for _k in ("find", "position", "any", "all", "rposition"):
        MODELS[_n + _k] = _search(_k)


def lower(c, b):
    b = c.I.pin(c.st, b)
    if c.fork(T.allof(T.ge(b - 65), T.ge(K(90) - b))):
        return b + 32
    return b


@model("std::slice::<impl [u8]>::to_ascii_lowercase")
def m_lower(c, s):
    e = content(c, sref(c.I, c.st, s))
    if e is None or not all(isinstance(x, Lin) for x in e):
        return c.fresh("lowercase")
    cell = ("h", c.st.nfid, c.I.uniq())
    c.st.mem[cell] = Arr([lower(c, x) for x in e])
    return Agg(None, 0, [Ref(cell, (), ZERO, K(len(e)))])


@model("core::slice::ascii::<impl [u8]>::make_ascii_lowercase")
def m_mklower(c, s):
    r = sref(c.I, c.st, s)
    e = content(c, r)
    if e is None or not all(isinstance(x, Lin) for x in e):
        v = c.I.getp(c.st, r.cell, r.path)
        n = v.len if isinstance(v, Buf) else K(len(v.e)) if isinstance(v, Arr) else r.len
        c.I.setp(c.st, r.cell, r.path, Buf("lower#%d" % c.I.uniq(), n, c.I.ty_u8, "unk"))
        return UNIT
    put(c, r, [lower(c, x) for x in e], r)
    return UNIT


def compared(c, a, b):
    """-1, 0, 1 of two byte slices, or None"""
    x, y = content(c, sref(c.I, c.st, a)), content(c, sref(c.I, c.st, b))
    if x is None or y is None or not all(isinstance(e, Lin) for e in x + y):
        return None
    for p, q in zip(x, y):
        if not c.fork(T.eq(p - q)):
            return 1 if c.fork(T.gt(p - q)) else -1
    return (len(x) > len(y)) - (len(x) < len(y))


@model("core::slice::<impl [T]>::binary_search_by_key")
def m_bsearch(c, s, key, f):
    r = sref(c.I, c.st, s)
    n = c.I.pin(c.st, r.len)
    if not n.isconst():
        return c.fresh("binary_search")
    k = c.I.force(c.st, c.I.getp(c.st, key.cell, key.path)) if isinstance(key, Ref) and key.len is None else key
    if content(c, sref(c.I, c.st, k)) is None:
        return c.fresh("binary_search")
    lo, hi = 0, int(n.c)
    while lo < hi:
        mid = (lo + hi) // 2
        v = c.apply(c.argty(2), f, [elem(r, K(mid))])
        if v is PANIC:
            return PANIC
        o = compared(c, v, k)
        if o is None:
            return c.fresh("binary_search")
        if o == 0:
            return c.variant(c.dty, "Ok", [K(mid)])
        if o < 0:
            lo = mid + 1
        else:
            hi = mid
    return c.variant(c.dty, "Err", [K(lo)])


# ---- thread-local memory -----------------------------------------------------------------------

@model("std::cell::RefCell::<T>::borrow_mut", "std::cell::RefCell::<T>::borrow")
def m_borrow(c, r):
    return Agg(None, 0, [r])


@model("<std::cell::RefMut<'_, T> as std::ops::DerefMut>::deref_mut", "<std::cell::RefMut<'_, T> as std::ops::Deref>::deref",
       "<std::cell::Ref<'_, T> as std::ops::Deref>::deref")
def m_rderef(c, r):
    v = c.I.force(c.st, c.I.getp(c.st, r.cell, r.path)) if isinstance(r, Ref) else r
    return v.f[0] if isinstance(v, Agg) and v.ty is None and len(v.f) == 1 else c.fresh("deref")


@model("core::str::<impl str>::as_bytes", "<std::string::String as std::ops::Deref>::deref",
       "std::string::String::as_bytes", "std::string::String::as_str")
def m_bytes(c, s):
    return sref(c.I, c.st, s)


@model("core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq", "core::str::traits::<impl std::cmp::PartialEq for str>::eq")
def m_sliceeq(c, a, b):
    x, y = sref(c.I, c.st, a), sref(c.I, c.st, b)
    if not c.fork(T.eq(x.len - y.len)):
        return False
    if x.cell == y.cell and x.path == y.path and c.st.facts.equal(x.off if x.off is not None else ZERO,
                                                                  y.off if y.off is not None else ZERO) is True:
        return True
    cx, cy = content(c, x), content(c, y)
    if cx is not None and cy is not None and all(isinstance(e, Lin) for e in cx + cy):
        return T.allof(*[T.eq(p - q) for p, q in zip(cx, cy)])
    return T.ge(T.unk("sliceeq", 0, 1) - 1)


def _edge(c, s, n, end):
    x, y = content(c, sref(c.I, c.st, s)), content(c, sref(c.I, c.st, n))
    if x is None or y is None or not all(isinstance(e, Lin) for e in x + y):
        return c.fresh("edge")
    if len(y) > len(x):
        return False
    x = x[len(x) - len(y):] if end else x[:len(y)]
    return T.allof(*[T.eq(p - q) for p, q in zip(x, y)]) if y else True


@model(S + "starts_with")
def m_starts(c, s, n):
    return _edge(c, s, n, False)


@model(S + "ends_with")
def m_ends(c, s, n):
    return _edge(c, s, n, True)


def _lower(c, p):
    if c.fork(T.allof(T.ge(p - 65), T.ge(90 - p))):
        return p + 32
    return p


@model("core::slice::ascii::<impl [u8]>::eq_ignore_ascii_case")
def m_eqic(c, a, b):
    x, y = content(c, sref(c.I, c.st, a)), content(c, sref(c.I, c.st, b))
    if x is None or y is None or not all(isinstance(e, Lin) for e in x + y):
        return c.fresh("eq_ignore_ascii_case")
    if len(x) != len(y):
        return False
    for p, q in zip(x, y):
        if not c.fork(T.eq(_lower(c, p) - _lower(c, q))):
            return False
    return True


@model(S + "contains")
def m_contains(c, s, x):
    xs = content(c, sref(c.I, c.st, s))
    v = c.I.force(c.st, c.I.getp(c.st, x.cell, x.path)) if isinstance(x, Ref) and x.len is None else x
    if xs is None or not isinstance(v, Lin) or not all(isinstance(e, Lin) for e in xs):
        return c.fresh("contains")
    for e in xs:
        if c.fork(T.eq(e - v)):
            return True
    return False


@model(S + "binary_search_by")
def m_bsby(c, s, f):
    r = sref(c.I, c.st, s)
    n = c.I.pin(c.st, r.len)
    if not n.isconst():
        return c.fresh("binary_search")
    lo, hi = 0, int(n.c)
    while lo < hi:
        mid = (lo + hi) // 2
        v = c.apply(c.argty(1), f, [elem(r, K(mid))])
        if v is PANIC:
            return PANIC
        v = c.I.force(c.st, v)
        if not (isinstance(v, Agg) and v.ty is not None and c.I.types[v.ty].get("variants")):
            return c.fresh("binary_search")
        o = c.I.types[v.ty]["variants"][v.v]["name"]
        if o == "Equal":
            return c.variant(c.dty, "Ok", [K(mid)])
        if o == "Less":
            lo = mid + 1
        else:
            hi = mid
    return c.variant(c.dty, "Err", [K(lo)])


@model("core::slice::cmp::<impl std::cmp::Ord for [T]>::cmp")
def m_slicecmp(c, a, b):
    o = compared(c, a, b)
    if o is None:
        return c.fresh("cmp")
    return c.variant(c.dty, {-1: "Less", 0: "Equal", 1: "Greater"}[o])


# ---- vectors and strings ---------------------------------------------------------------------

@model("std::vec::from_elem")
def m_fromelem(c, e, n):
    cell = ("h", c.st.nfid, c.I.uniq())
    c.st.mem[cell] = Buf("vec", n, c.I.ty_u8, "zero" if e == ZERO else ("fill", e))
    return Agg(None, 0, [Ref(cell, (), ZERO, n)])


def vec(c, v):
    x = c.I.force(c.st, c.I.getp(c.st, v.cell, v.path)) if isinstance(v, Ref) else v
    if isinstance(x, Agg) and x.f and isinstance(x.f[0], Ref):
        return x
    raise Undecided("vector %r" % (x,))


@model("std::vec::Vec::<T, A>::as_mut_slice", "std::vec::Vec::<T, A>::as_slice",
       "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref",
       "<std::vec::Vec<T, A> as std::ops::Deref>::deref", "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut")
def m_vslice(c, v):
    return vec(c, v).f[0]


@model("std::vec::Vec::<T, A>::len")
def m_vlen(c, v):
    return vec(c, v).f[0].len


@model("std::vec::Vec::<T, A>::set_len")
def m_setlen(c, v, n):
    r = vec(c, v).f[0]
    c.st.events += (("must", "set_len", T.ge(r.len - n), c.fr.body["name"]),)
    c.I.setp(c.st, v.cell, v.path, Agg(None, 0, [Ref(r.cell, r.path, r.off, n)]))
    return UNIT


@model("std::vec::Vec::<T, A>::truncate")
def m_trunc(c, v, n):
    r = vec(c, v).f[0]
    if c.fork(T.ge(r.len - n)):
        c.I.setp(c.st, v.cell, v.path, Agg(None, 0, [Ref(r.cell, r.path, r.off, n)]))
    return UNIT


@model("std::string::String::from_utf8_unchecked")
def m_utf8(c, v):
    try:
        r = sref(c.I, c.st, v)
        text = (r, c.I.getp(c.st, r.cell, r.path))
    except Undecided:
        text = None
    c.st.events += (("utf8", text, c.fr.body["name"]),)
    return v


@model("std::str::from_utf8_unchecked", "core::str::from_utf8_unchecked", "std::str::from_utf8_unchecked_mut")
def m_utf8s(c, v):
    return m_utf8(c, v)


@model(S + "get_unchecked", S + "get_unchecked_mut")
def m_getun(c, s, i):
    r = sref(c.I, c.st, s)
    if not isinstance(i, Lin):
        raise Undecided("unchecked range")
    c.st.events += (("must", "get_unchecked", T.allof(T.ge(i), T.gt(r.len - i)), c.fr.body["name"]),)
    return Ref(r.cell, r.path + (("i", (r.off if r.off is not None else ZERO) + i),))


@model("std::mem::MaybeUninit::<T>::uninit")
def m_uninit(c):
    return Opaque(c.dty, "uninit#%d" % c.I.uniq(), "unk")


@model("std::mem::MaybeUninit::<T>::assume_init")
def m_assume(c, v):
    if isinstance(v, Opaque) and str(v.tag).startswith("uninit#") and \
            "MaybeUninit" not in c.I.types[c.I.types[c.dty].get("elem", c.dty)].get("name", ""):
        c.st.events += (("must", "assume_init", False, c.fr.body["name"]),)
    return c.fresh("uninitialised")


@model("std::vec::Vec::<T>::with_capacity")
def m_withcap(c, n):
    cell = ("h", c.st.nfid, c.I.uniq())
    c.st.mem[cell] = Buf("vec", n, c.I.ty_u8, "unk")
    return Agg(None, 0, [Ref(cell, (), ZERO, ZERO)])


@model("<T as std::string::ToString>::to_string", "<str as std::string::ToString>::to_string",
       "<&str as std::string::ToString>::to_string", "<std::string::String as std::clone::Clone>::clone",
       "std::str::<impl std::borrow::ToOwned for str>::to_owned",
       "<std::string::String as std::convert::From<&str>>::from")
def m_tostring(c, s):
    try:
        r = sref(c.I, c.st, s)
    except Undecided:
        return c.fresh("string")
    return Agg(None, 0, [r])


@model("<std::vec::Vec<T> as std::convert::From<&[T]>>::from", "std::slice::<impl [T]>::to_vec",
       "std::slice::<impl std::borrow::ToOwned for [T]>::to_owned")
def m_tovec(c, s):
    r = sref(c.I, c.st, s)
    return Agg(None, 0, [r])


# ---- writers of decimal text (their bodies are decided by C08; callers see these pieces) ------

def digits_len(lo, hi, w):
    """bounds of the printed length of a number in [lo, hi], padded to width w"""
    if lo == -INF or hi == INF:
        return w, 20
    n = [len(str(abs(int(x)))) + (1 if x < 0 else 0) for x in (lo, hi)]
    lo2 = 1 if lo <= 9 and hi >= -9 else min(n)
    return max(w, lo2), max(w, max(n))


def _blen(f, v, w):
    lo, hi = f.bounds(v)
    return digits_len(lo, hi, int(w.c))


D.APPB["plen"] = _blen
T.FUN["plen"] = lambda v, w: len(zeropad(v, w))


def zeropad(v, w):
    """text of v in at least w columns, zero padded"""
    s = str(abs(v))
    return s.rjust(w, "0") if v >= 0 else "-" + s.rjust(w - 1, "0")


def _bslen(f, s, fs, p, fill):
    lo, hi = f.bounds(s)
    m = max(abs(lo), abs(hi)) if lo != -INF and hi != INF else 10 ** 19
    return (1, max(2, len(str(int(m)))) + 1 + max(int(p.c), 10))


D.APPB["slen"] = _bslen


def seconds(s, fs, p, fill):
    t = str(abs(s)).rjust(2, "0") if fill else str(abs(s))
    if fs:
        t += ("." + str(abs(fs)).rjust(p, "0")).rstrip("0")
    return t


T.FUN["slen"] = lambda s, fs, p, fill: len(seconds(s, fs, p, fill))


def write_piece(c, s, piece, ln):
    r = sref(c.I, c.st, s)
    off = r.off if r.off is not None else ZERO
    if not need(c, T.ge(r.len - ln), "bounds"):
        return PANIC
    v = c.I.force(c.st, c.I.getp(c.st, r.cell, r.path))
    if not isinstance(v, Buf):
        raise Undecided("number written into %r" % (v,))
    c.I.setp(c.st, r.cell, r.path, Buf(v.name, v.len, v.elem, v.base, v.log + (("piece", off, piece, off + ln),)))
    return ln


def mt_zeropad(c, s, v, w):
    w = c.I.pin(c.st, w)
    v = c.I.pin(c.st, v)
    if not w.isconst() or not 1 <= w.c <= 6:      # the widths C08 decides
        raise Undecided("width")
    lo, hi = c.st.facts.bounds(v)
    a, b = digits_len(lo, hi, w.c)
    ln = K(a) if a == b else T.app("plen", v, w)
    return write_piece(c, s, ("zp", v, w.c), ln)


def mt_ltostr(c, s, v):
    v = c.I.pin(c.st, v)
    lo, hi = c.st.facts.bounds(v)
    a, b = digits_len(lo, hi, 1)
    ln = K(a) if a == b else T.app("plen", v, ONE)
    return write_piece(c, s, ("zp", v, 1), ln)


def mt_seconds(c, s, sec, fsec, prec, fill):
    fill = c.fork(fill) if not isinstance(fill, bool) else fill
    prec = c.I.pin(c.st, prec)
    sec, fsec = c.I.pin(c.st, sec), c.I.pin(c.st, fsec)
    if not prec.isconst() or prec.c != 6:
        raise Undecided("precision")
    # the contract is established for these ranges
    m = 10 ** prec.c
    if not c.fork(T.allof(T.gt(K(m) - fsec), T.gt(fsec + m), T.ge(sec + I32MAX), T.ge(K(I32MAX) - sec))):
        raise Undecided("fraction wider than its precision")
    ln = T.app("slen", sec, fsec, prec, ONE if fill else ZERO)
    return write_piece(c, s, ("sec", sec, fsec, prec.c, fill), ln)


I32MAX = 2 ** 31 - 1
WRITERS = {"pgdatetime::common::pg_ltostr_zeropad": mt_zeropad,
           "pgdatetime::common::pg_ltostr": mt_ltostr,
           "pgdatetime::common::append_seconds": mt_seconds}


@model("std::vec::Vec::<T>::new", "std::string::String::new", "std::fmt::format",
       "core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_display",
       "core::fmt::rt::Argument::<'_>::new_lower_hex", "std::fmt::Arguments::<'a>::from_str",
       "std::fmt::Arguments::<'a>::new", "std::fmt::Arguments::<'a>::new_v1", "std::fmt::Arguments::<'a>::new_const")
def m_pure(c, *a):
    return c.fresh("text")


@model("std::hint::must_use", "std::hint::black_box")
def m_id(c, v):
    return v


# ---- numbers ---------------------------------------------------------------------------------

@intrinsic("cold_path")
def i_cold(c, *a):
    return UNIT


@intrinsic("is_val_statically_known")
def i_known(c, *a):
    return False


@intrinsic("integer_max")
@model("std::intrinsics::integer_max")
def i_max(c, a, b):
    return a if c.fork(T.ge(a - b)) else b


@intrinsic("integer_min")
@model("std::intrinsics::integer_min")
def i_min(c, a, b):
    return a if c.fork(T.ge(b - a)) else b


@intrinsic("floor", "floorf64")
def i_floor(c, v):
    return v if v.sp else FV(c.I.ftrunc(c.st, v.l, v.t, "flfloor"))


@intrinsic("ceil", "ceilf64")
def i_ceil(c, v):
    return v if v.sp else FV(-T.ffloor(-v.l))


@intrinsic("trunc", "truncf64")
def i_trunc(c, v):
    return v if v.sp else FV(c.I.ftrunc(c.st, v.l, v.t))


@intrinsic("round", "roundf64")
def i_round(c, v):
    if v.sp:
        return v
    if v.l.isint():
        return FV(v.l)
    h = Fraction(1, 2)
    if c.fork(T.ge(v.l)):
        return FV(T.ffloor(v.l + h))
    return FV(-T.ffloor(-v.l + h))


@intrinsic("round_ties_even", "rintf64")
def i_rint(c, v):
    if v.sp or v.l.isint():
        return v
    return FV(T.app("rint", v.l))


T.FUN["rint"] = lambda x: round(Fraction(x))


@intrinsic("fabs", "fabsf64")
def i_fabs(c, v):
    if v.sp:
        return FV(ZERO, "nan" if v.sp == "nan" else "inf")
    return FV(v.l, t=v.t) if c.fork(T.ge(v.l)) else FV(-v.l, t=(v.t[0], -v.t[1]) if v.t else None)


for _n, _f in (("floor", i_floor), ("ceil", i_ceil), ("trunc", i_trunc), ("round", i_round), ("abs", i_fabs)):
    MODELS["core::f64::<impl f64>::" + _n] = _f
    MODELS["std::f64::<impl f64>::" + _n] = _f


@model("core::f64::<impl f64>::is_nan")
def m_isnan(c, v):
    return v.sp == "nan"


@model("core::f64::<impl f64>::is_infinite")
def m_isinf(c, v):
    return v.sp in ("inf", "-inf")


@model("core::f64::<impl f64>::is_finite")
def m_isfin(c, v):
    return v.sp is None


def _pow(c, b, e, checked, wrapping=False):
    I, st = c.I, c.st
    b, e = I.pin(st, b), I.pin(st, e)
    if not e.isconst():
        lo, hi = st.facts.bounds(e)
        if hi - lo <= 24:
            raise NeedFork([T.eq(e - k) for k in range(int(lo), int(hi) + 1)])
        return None
    if b.isconst():
        return K(b.c ** e.c)
    r = ONE
    for _ in range(e.c):
        r = T.mul(r, b)
    return r


def mk_pow(bits, signed):
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)

    def pow_(c, b, e):
        r = _pow(c, b, e, False)
        if r is None:
            return c.fresh("pow")
        if not need(c, T.allof(T.ge(r - lo), T.ge(K(hi) - r)), "overflow:pow"):
            return PANIC
        return r

    def checked(c, b, e):
        r = _pow(c, b, e, True)
        if r is None:
            return c.fresh("pow")
        if c.fork(T.allof(T.ge(r - lo), T.ge(K(hi) - r))):
            return c.some(r)
        return c.none()
    return pow_, checked


for _b in (8, 16, 32, 64, 128):
    for _s in (True, False):
        p, q = mk_pow(_b, _s)
        MODELS["core::num::<impl %s%d>::pow" % ("i" if _s else "u", _b)] = p
        MODELS["core::num::<impl %s%d>::checked_pow" % ("i" if _s else "u", _b)] = q


def mk_euclid(rem):
    def f(c, a, b):
        b = c.I.pin(c.st, b)
        if not b.isconst() or b.c <= 0:
            return c.fresh("euclid")
        q = T.fquo(a, b.c)
        return a - q.scale(b.c) if rem else q
    return f


def mk_wrapping(op):
    def f(c, a, b):
        m = c.I.arith(c.st, op, a, b, c.dty)
        if m is None:
            return c.fresh("wrapping")
        lo, hi = c.I.rng(c.dty)
        if c.fork(T.allof(T.ge(m - lo), T.ge(K(hi) - m))):
            return m
        c.st.events += (("wrapop", c.fr.body["name"], c.t["l"]),)
        return c.I.wrap(m, c.dty)
    return f


def mk_sat(op):
    def f(c, a, b):
        m = c.I.arith(c.st, op, a, b, c.dty)
        lo, hi = c.I.rng(c.dty)
        if c.fork(T.gt(K(lo) - m)):
            c.st.events += (("satop", "low"),)
            return K(lo)
        if c.fork(T.gt(m - hi)):
            c.st.events += (("satop", "high"),)
            return K(hi)
        return m
    return f


def m_unsigned_abs(c, a):
    return a if c.fork(T.ge(a)) else -a


for _t in ("i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"):
    n = "core::num::<impl %s>::" % _t
    MODELS[n + "rem_euclid"] = mk_euclid(True)
    MODELS[n + "div_euclid"] = mk_euclid(False)
    for _o in ("Add", "Sub", "Mul"):
        MODELS[n + "wrapping_" + _o.lower()] = mk_wrapping(_o)
        MODELS[n + "saturating_" + _o.lower()] = mk_sat(_o)
    MODELS[n + "unsigned_abs"] = m_unsigned_abs


def m_wneg(c, a):
    lo, hi = c.I.rng(c.dty)
    return -a if c.fork(T.ge(a - (lo + 1))) else K(lo)


for _t in ("i8", "i16", "i32", "i64", "i128", "isize"):
    MODELS["core::num::<impl %s>::wrapping_neg" % _t] = m_wneg


# ---- calendar --------------------------------------------------------------------------------

def date2julian(c, y, m, d):
    # C27 decides the body for these years, months and days; for any other what the body makes of it
    if not c.fork(T.allof(T.ge(m - 1), T.ge(K(12) - m), T.ge(d - 1), T.ge(K(31) - d), T.ge(y + 4713), T.ge(K(5874898) - y),
                          ("or", T.ge(K(5874897) - y), T.ge(K(5) - m)))):
        return BODY
    m = c.I.pin(c.st, m)
    if m.isconst():
        C.year_facts(c.st.facts, y)
        y = c.I.pin(c.st, y)
    return C.J(y, m, d)


def julian2date(c, j):
    if not c.fork(T.ge(j)):
        return Agg(None, 0, [T.unk("y", -2 ** 31, 2 ** 31 - 1), T.unk("m", -2 ** 31, 2 ** 31 - 1),
                             T.unk("d", -2 ** 31, 2 ** 31 - 1)])
    return Agg(None, 0, C.split(c.st.facts, c.st.facts.norm(j)))


def days_of_month(c, y, m):
    if not need(c, T.allof(T.ge(m - 1), T.ge(K(12) - m)), "bounds"):
        return PANIC
    return C.DIM(c.I.pin(c.st, y), c.I.pin(c.st, m))


CALENDAR = {"pgdatetime::common::date2julian": date2julian,
            "pgdatetime::common::julian2date": julian2date,
            "pgdatetime::common::days_of_month": days_of_month}
