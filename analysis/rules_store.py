"""Stores: bounded reads and writes, address translation, compaction, opening, deletion, error propagation."""
from fw import *
import bdd
from rules_tree import okleaves, fields
from rules_gen import su

DISK = "<store::disk::DiskStore as store::Store>::"
LC = "<store::level_cache::LevelCacheStore as store::Store>::"
MM = "<store::mmap::MmapStore as store::Store>::"
VEC = "<store::vec::VecStore as store::Store>::"
DI = "store::disk::DiskStore::"
LI = "store::level_cache::LevelCacheStore::"
KX = mk("arg", 81, "k")


def tidy(t):
    """filedata tokens dropped, slices of file regions flattened, failed-branch markers removed"""
    t = elen(t)
    m = {}
    for x in subterms(t):
        if x.op == "ite" and x.a[0].op == "is" and x.a[0].a[1] == "Ok" and (not resolved(x.a[2]) and x.a[2].op != "ite"):
            m[x] = x.a[1]
    if m:
        t = subst(t, m)
        return tidy(t) if any(x.op == "ite" and not resolved(x) for x in subterms(t)) and m else _fd(t)
    return _fd(t)


def _fd(t):
    m = {}
    for x in subterms(t):
        if x.op == "app" and x.a[0] == "filedata":
            m[x] = app("FD", x.a[1], x.a[2], x.a[3])
        elif x.op == "app" and x.a[0] in ("mut2", "mut3") and isinstance(x.a[1], T) and x.a[1].op == "res" and x.a[1].a[0] == "PTR":
            a = callargs(x.a[1])
            m[x] = app("EXT", a[0], a[1], a[2], a[4])
    t = subst(t, m) if m else t
    m = {}
    for x in subterms(t):
        if x.op == "len" and x.a[0].op == "app" and x.a[0].a[0] == "EXT":
            m[x] = sub(x.a[0].a[3], x.a[0].a[2])
    t = subst(t, m) if m else t
    m = {}
    for x in subterms(t):
        if x.op == "slice" and x.a[0].op == "app" and x.a[0].a[0] == "FD":
            f = x.a[0]
            m[x] = app("FD", f.a[1], add(f.a[2], x.a[1]), sub(x.a[2], x.a[1]))
    return subst(t, m) if m else t


def norm(lits):
    """a path's literals, each simplified under the others"""
    L = [elen(l) for l in lits]
    for _ in range(2):
        for i in range(len(L)):
            l = L[i]
            L = [x if j == i or x in (l, bnot(l)) else engine.under(x, l) for j, x in enumerate(L)]
    return [l for l in L if l is not TRUE]


def under_all(t, lits):
    t = elen(t)
    L = norm(lits)
    for _ in range(2):
        for l in L:
            t = engine.under(t, l)
    return tidy(t)


def truth(v, L):
    """the value of a boolean term on a path, when the path determines it"""
    if v is TRUE or v is FALSE:
        return v
    b = bdd.TRUE
    for l in L:
        b = bdd.AND(b, bdd.of(l))
    try:
        o = bdd.of(v)
    except Exception:
        return v
    if bdd.AND(b, bdd.NOT(o)) is bdd.FALSE:
        return TRUE
    if bdd.AND(b, o) is bdd.FALSE:
        return FALSE
    return v


def pathlits(lits):
    return [elen(l) for l in lits]


def cmpl(lits):
    """the comparisons among a path's literals"""
    return [l for l in lits if pos(l).op in ("ge0", "eq0", "eq", "is", "ite") and not contains(l, lambda x: x.op in ("res", "mu"))]


def feasible(facts):
    n = 0
    for v in eqv.valuations([f for f in facts], 1):
        return True
    return False


READS = [("read_at", 1), ("read_into", 1), ("read_range", 2), ("read_range_into", 2)]


def rng(run, nm):
    """(start element, end element) requested"""
    a = run.args
    if nm in ("read_at", "read_into"):
        return a[1], add(a[1], num(1))
    if nm == "read_range":
        return fld(a[1], "start"), fld(a[1], "end")
    return a[1], a[2]


def result(run, nm, lits, v):
    """value delivered to the caller"""
    if nm.endswith("into"):
        return under_all(run.final(len(run.args) - 1), lits)
    return under_all(v, lits)


INV = "assumed store state: element length = byte_len; see constructors (C18, C13)"


def C08(R, A):
    R.rule("in-range", "a read succeeds only if the whole requested range lies below the store's element count")
    R.rule("source", "a successful read returns exactly the bytes of the requested elements, at their own offset, in order")
    R.rule("accessor", "len, is_empty and last report the store's element count and its last element")
    for P, nm, K in stores_with(A, R, READS, skip=((MM, "read_range_into"), (VEC, "read_range_into"))):
        R.part(bounded_read, A, P, nm)
    R.part(raw_disk, A)
    R.part(store_accessors, A)


def stores_with(A, R, names, stores=(DISK, LC, MM, VEC), skip=()):
    for P in stores:
        for n in names:
            nm = n[0] if isinstance(n, tuple) else n
            if (P, nm) in skip:
                continue
            K = P + nm
            if not A.has(K):
                R.missing(K)
                continue
            yield P, nm, K


def bounded_read(R, A, P, nm):
    K = P + nm
    run = A.run(K)
    S = run.args[0]
    site = short_fn(K)
    s, e = rng(run, nm)
    n = 0
    for lits, v in okleaves(run):
        if not resolved(v) and nm in ("read_at", "read_range") and not calls_in(v, "Element::from_slice"):
            continue
        n += 1
        L = pathlits(lits)
        if P != VEC:
            size = fld(S, "len")
            c = cmpl(L)
            R.holds("in-range", site, c, ge0(sub(mul(BL, size), mul(BL, e))), "the end of the range is checked against the element count", run)
        got = result(run, nm, lits, v)
        if P == LC:
            continue   # address translation: C10
        content(R, run, site, nm, P, S, s, e, got, L)
    if not n:
        R.bad("in-range", site, "no read ever succeeds")


def src(P, S, off, n):
    if P == DISK:
        return app("FD", fld(S, "file"), off, n)
    if P == MM:
        return vslice(some(fld(S, "map")), off, add(off, n))
    return None


def content(R, run, site, nm, P, S, s, e, got, L, src=src):
    c = cmpl(L) + [ge0(s), ge0(sub(sub(e, s), num(1)))]
    if P == VEC:
        v = fld(S, "0")
        if nm == "read_at":
            return R.same("source", site, got, elem(v, s), c, "element read")
        if nm == "read_into":
            return R.same("source", site, got, mk("bytes", elem(v, s), BL), c, "bytes read")
        return R.same("source", site, got, vslice(v, s, e), c, "elements read")
    off = mul(BL, s)
    if nm == "read_at":
        return R.same("source", site, got, app("Element::from_slice", src(P, S, off, BL)), c, "element read")
    if nm == "read_range":
        R.same("source", site + "/count", vlen(got), sub(e, s), c, "number of elements returned")
        k = [ge0(KX), ge0(sub(sub(sub(e, s), num(1)), KX))]
        g = tidy(elem(got, KX))
        return R.same("source", site, g, app("Element::from_slice", src(P, S, mul(BL, add(s, KX)), BL)), c + k, "k-th element returned")
    if nm == "read_into":
        w = src(P, S, off, BL)
    else:
        w = src(P, S, off, mul(BL, sub(e, s)))
    if P == MM and not isinstance(got, type(None)):
        return R.same("source", site, got, w, c, "bytes read")
    R.same("source", site, got, w, c, "bytes read")


def raw_disk(R, A):
    for nm in ("store_read_range", "store_read_into"):
        K = DI + nm
        if not A.has(K):
            R.missing(K)
            continue
        run = A.run(K)
        S, s, e = run.args[:3]
        for lits, v in okleaves(run):
            got = result(run, nm, lits, v)
            c = cmpl(pathlits(lits)) + [ge0(s), ge0(sub(e, s))]
            R.same("source", short_fn(K), got, app("FD", fld(S, "file"), s, sub(e, s)), c, "bytes read")


def store_accessors(R, A):
    for P in (DISK, LC, MM):
        for nm in ("len", "is_empty"):
            K = P + nm
            if not A.has(K):
                R.missing(K)
                continue
            run = A.run(K)
            ln = fld(run.args[0], "len")
            R.same("accessor", short_fn(K), run.ret, ln if nm == "len" else eq_typed(ln, num(0), True), [], nm)
    for nm in ("len", "is_empty"):
        K = VEC + nm
        if not A.has(K):
            R.missing(K)
            continue
        run = A.run(K)
        ln = vlen(fld(run.args[0], "0"))
        R.same("accessor", short_fn(K), run.ret, ln if nm == "len" else eq_typed(ln, num(0), True), [], nm)
    K = "store::Store::last"
    if not A.has(K):
        return R.missing(K)
    run = A.run(K)
    S = run.args[0]
    for lits, v in okleaves(run):
        c = v.a[0] if v.op == "fld" and v.a[1] == "Ok" else v
        if iscall(c, "Store::read_at"):
            a = callargs(c)
            R.same("accessor", "Store::last", a[1], sub(app("Store::len", S), num(1)), lits, "index of the last element")
        else:
            R.und("accessor", "Store::last", clip(show(v)))


# ---------------------------------------------------------------- C10
def C10(R, A):
    R.rule("translate", "a level-cache read takes base-layer bytes from the external source (if set) at the same offset, or from the front of the file, and cached bytes from where compaction put them")
    R.rule("discarded", "a range touching the discarded rows is refused")
    R.rule("external", "the external source is read at the configured offset for exactly the requested range")
    for nm in ("read_at", "read_into", "read_range", "read_range_into"):
        if not A.has(LC + nm):
            R.missing(LC + nm)
            continue
        R.part(lc_read, A, nm)
    for nm in ("store_read_range", "store_read_into"):
        if not A.has(LI + nm):
            R.missing(LI + nm)
            continue
        R.part(lc_read, A, nm)
    R.part(external, A)


def lc_read(R, A, nm):
    raw = nm.startswith("store_")
    K = (LI if raw else LC) + nm
    run = A.run(K)
    S = run.args[0]
    site = short_fn(K)
    if raw:
        so, eo = run.args[1], run.args[2]
    else:
        s, e = rng(run, nm)
        so, eo = mul(BL, s), mul(BL, e)
    dw = mul(BL, fld(S, "data_width"))
    cis = fld(S, "cache_index_start")
    rd = fld(S, "reader")
    has = is_variant(rd, "Some")
    inv = [ge0(sub(cis, dw)), ge0(so), ge0(sub(sub(eo, so), num(1))), ge0(dw), ge0(sub(BL, num(1)))]
    n = 0
    for lits, v in okleaves(run):
        L = pathlits(lits)
        c = cmpl(L) + inv
        if not feasible(c):
            continue
        n += 1
        # nothing from the discarded rows
        okrange = ite(ge0(sub(dw, eo)), TRUE, ite(ge0(sub(so, cis)), TRUE, ite(ge0(sub(dw, cis)), bnot(has), FALSE)))
        R.holds("discarded", site, c, okrange, "ranges overlapping discarded rows are refused", run)
        got = result(run, nm.replace("store_", ""), lits, v)
        ro = fld(some(rd), "offset")

        def src(P, S_, off, n_):
            lo = app("EXT", fld(some(rd), "read_fn"), add(ro, off), add(ro, add(off, n_)), fld(some(rd), "source"))
            fo = ite(ge0(sub(off, cis)), ite(has, sub(off, cis), add(sub(off, cis), dw)), off)
            f = app("FD", fld(S, "file"), fo, n_)
            return ite(ge0(sub(off, dw)), f, ite(has, lo, f))
        if raw:
            want = src(LC, S, so, sub(eo, so))
            R.same("translate", site, got, want, c, "bytes delivered")
        else:
            lc_content(R, run, site, nm, S, s, e, got, c, src)
    if not n:
        R.bad("translate", site, "no read ever succeeds")


def lc_content(R, run, site, nm, S, s, e, got, c, src):
    if nm == "read_range":
        R.same("translate", site + "/count", vlen(got), sub(e, s), c, "number of elements returned")
        # the whole range comes from one contiguous block
        k = [ge0(KX), ge0(sub(sub(sub(e, s), num(1)), KX))]
        g = tidy(elem(got, KX))
        b = src(LC, S, mul(BL, s), mul(BL, sub(e, s)))
        lo, hi = mul(BL, KX), mul(BL, add(KX, num(1)))

        def part(t):
            if t.op == "ite":
                return ite(t.a[0], part(t.a[1]), part(t.a[2]))
            return tidy(vslice(t, lo, hi))
        R.same("translate", site, g, app("Element::from_slice", part(b)), c + k, "k-th element returned")
        return
    if nm == "read_at":
        return R.same("translate", site, got, app("Element::from_slice", src(LC, S, mul(BL, s), BL)), c, "element delivered")
    n_ = BL if nm == "read_into" else mul(BL, sub(e, s))
    R.same("translate", site, got, src(LC, S, mul(BL, s), n_), c, "bytes delivered")


def external(R, A):
    K = "store::ExternalReader::read"
    if not A.has(K):
        return R.missing(K)
    run = A.run(K)
    S, s, e, buf = run.args
    o = fld(S, "offset")
    ev = run.calls("PTR")
    for x in ev:
        for j, (g, w) in enumerate(zip(x.args, (fld(S, "read_fn"), add(s, o), add(e, o)))):
            R.same("external", short_fn(K) + "/%d" % j, g, w, x.facts, "argument of the external read")
        R.same("external", short_fn(K) + "/source", x.args[-1], fld(S, "source"), x.facts, "source read")
    if not ev:
        R.und("external", short_fn(K), "no external call recognised")
    # the reader built from a replica configuration
    cl = [k for k in A.c.fns if k.startswith("store::ExternalReader::new_from_config::{closure")]
    for k in cl:
        r = A.run(k)
        a = r.args[-4:]
        for x in r.calls("io:read_exact_at"):
            R.same("external", "replica reader/offset", x.args[1], a[0], x.facts, "file offset read")
            R.same("external", "replica reader/length", vlen(x.args[2]), sub(a[1], a[0]), x.facts, "number of bytes read")


# ---------------------------------------------------------------- C09
WRITES = ["write_at", "copy_from_slice", "push"]


def C09(R, A):
    R.rule("place", "a write stores exactly the given bytes at the byte offset of the given element index")
    R.rule("bounds", "a write to a file backed store is refused unless it fits the store's size")
    R.rule("length", "after a successful write the element count covers the written elements and never shrinks")
    R.rule("append", "push writes directly after the last element")
    R.rule("others", "a write leaves every other element as it was")
    R.rule("whole", "bytes that are not a whole number of elements are refused")
    R.rule("initial", "a store created from data holds exactly that data from element 0 on")
    for P, nm, K in stores_with(A, R, WRITES):
        R.part(store_write, A, P, nm)
    for P in (DISK, LC):
        K = (DI if P == DISK else LI) + "store_copy_from_slice"
        if not A.has(K):
            R.missing(K)
            continue
        R.part(store_write, A, P, "store_copy_from_slice")
    for P in (DISK, LC, MM, VEC):
        for nm in ("new_from_slice", "new_from_slice_with_config"):
            if not A.has(P + nm):
                R.missing(P + nm)
                continue
            R.part(from_slice, A, P, nm)
            if P != VEC:
                R.part(whole, A, P, nm)
        R.part(whole, A, P, "copy_from_slice")


def whole(R, A, P, nm):
    """a buffer that ends within an element is refused"""
    if not A.has(P + nm):
        return
    run = A.run(P + nm)
    buf = [a for a in run.args if a.op == "arg" and a.a[1] in ("buf", "data")]
    if len(buf) != 1:
        i = {"copy_from_slice": 1, "new_from_slice": 1, "new_from_slice_with_config": 2}[nm]
        buf = [run.args[i]]
    n = vlen(buf[0])
    inv_ = [ge0(sub(BL, num(1)))]
    if nm == "copy_from_slice" and P in (DISK, LC):
        inv_.append(eq_typed(fld(run.args[0], "elem_len"), BL, True))
    k = 0
    for lits, v in run.leaves():
        if v.op == "agg" and v.a[1] == "Err":
            continue
        if v.op != "agg" and any(l.op == "not" and l.a[0].op == "is" and l.a[0].a[1] == "Ok" and l.a[0].a[0] is v for l in lits):
            continue
        k += 1
        R.holds("whole", short_fn(P + nm), [l for l in lits] + inv_, eq_typed(n, mul(BL, div(n, BL)), True), "the bytes supplied are a whole number of elements", run)
    if not k:
        R.und("whole", short_fn(P + nm), "no success recognised")


def target(P, nm, run):
    """(first element, number of elements, data bytes or None, element or None, byte offset)"""
    a = run.args
    if nm == "write_at":
        return a[2], num(1), None, a[1]
    if nm == "copy_from_slice":
        return a[2], div(vlen(a[1]), BL), a[1], None
    if nm == "push":
        n = vlen(fld(a[0], "0")) if P == VEC else fld(a[0], "len")
        return n, num(1), None, a[1]
    return None, None, a[2], None


def store_write(R, A, P, nm):
    raw = nm == "store_copy_from_slice"
    K = (DI if P == DISK else LI) + nm if raw else P + nm
    run = A.run(K)
    S = run.args[0]
    site = short_fn(K)
    e, n, buf, el = target(P, nm, run)
    off = run.args[1] if raw else mul(BL, e)
    data = buf if buf is not None else mk("bytes", el, BL)
    size = vlen(data) if buf is not None else BL
    if P in (DISK, LC):
        ws = run.calls("io:write_all_at")
        for w in ws:
            c = [elen(f) for f in w.facts]
            R.same("place", site + "/file", w.args[0], fld(S, "file"), c, "file written")
            R.same("append" if nm == "push" else "place", site + "/offset", elen(w.args[1]), off, c, "byte offset of the write")
            R.same("place", site + "/data", elen(w.args[2]), data, c, "bytes written")
            R.holds("bounds", site, c, ge0(sub(fld(S, "store_size"), add(off, size))), "the write is checked against the size of the store", run)
        if not ws:
            R.bad("place", site, "nothing is written") if run.trusted else R.und("place", site, "no write recognised")
    k = 0
    for lits, v in okleaves(run):
        if v.op == "agg" and v.a[1] == "Err":
            continue
        L = pathlits(lits)
        c = cmpl(L)
        if P == MM:
            c = [l for l in norm(L) if pos(l).op in ("ge0", "eq0")]
        F = under_all(run.final(0), L)
        k += 1
        if P in (DISK, LC):
            oks = [l for l in L if l.op == "is" and l.a[1] == "Ok" and iscall(l.a[0], "positioned_io::WriteAt::write_all_at")]
            if not oks:
                wc = [l for l in run.events if l.kind == "call" and l.name == "io:write_all_at"]
                if wc and resolved(run.ret) and run.trusted:
                    R.bad("place", site + "/done", "the call can succeed without having written anything: path " + clip(" & ".join(show(l) for l in L)))
                else:
                    R.und("place", site + "/done", "write success not tied to the result")
            else:
                R.ok("place", site + "/done")
            got = tidy(fld(F, "len"))
            want = fld(S, "len") if raw else mk("max", fld(S, "len"), add(e, n))
            R.same("length", site, got, want, c + [ge0(fld(S, "len"))], "element count after the write")
        elif P == MM:
            got = tidy(fld(F, "len"))
            R.same("length", site, got, mk("max", fld(S, "len"), add(e, n)), c, "element count after the write")
            mem_region(R, site, some(fld(F, "map")), off, data, size, c)
            if nm == "push":
                mx = some(fld(F, "map"))
                while mx.op == "upd":
                    mx = mx.a[0]
                R.holds("bounds", site, c, ge0(sub(vlen(mx), add(off, size))), "the appended element is checked against the size of the mapping", run)
        else:
            v0 = fld(S, "0")
            got = fld(F, "0")
            ln = vlen(v0)
            R.same("length", site, vlen(got), mk("max", ln, add(e, n)), c, "element count after the write")
            old = ite(ge0(sub(sub(ln, KX), num(1))), elem(v0, KX), mk("default", "E"))
            new = el if el is not None else app("Element::from_slice", vslice(buf, mul(BL, sub(KX, e)), mul(BL, add(sub(KX, e), num(1)))))
            inr = [ge0(sub(KX, e)), ge0(sub(sub(add(e, n), KX), num(1)))]
            g = elem(got, KX)
            R.same("append" if nm == "push" else "place", site, g, new, c + inr, "element written")
            if nm != "push":
                R.same("others", site + "/below", g, elem(v0, KX), c + [ge0(KX), ge0(sub(sub(e, KX), num(1))), ge0(sub(sub(ln, KX), num(1)))], "elements before the written ones")
                R.same("others", site + "/above", g, elem(v0, KX), c + [ge0(sub(KX, add(e, n))), ge0(sub(sub(ln, KX), num(1)))], "elements after the written ones")
            else:
                R.same("others", site, g, elem(v0, KX), c + [ge0(KX), ge0(sub(sub(ln, KX), num(1)))], "elements already stored")
    if not k:
        R.bad("place", site, "no write ever succeeds")


def mem_region(R, site, m, off, data, size, c):
    """memory map m: exactly [off, off+size) holds data, the rest as in the map it started from"""
    base = m
    while base.op == "upd":
        base = base.a[0]
    if m is base:
        if resolved(m):
            return R.bad("place", site, "nothing is written to the mapping")
        return R.und("place", site, clip(show(m)))
    g = elem(m, KX)
    R.same("place", site, g, elem(data, sub(KX, off)), c + [ge0(sub(KX, off)), ge0(sub(sub(add(off, size), KX), num(1)))], "byte written")
    if off is not num(0):
        R.same("others", site + "/below", g, elem(base, KX), c + [ge0(KX), ge0(sub(sub(off, KX), num(1)))], "bytes before the written ones")
    R.same("others", site + "/above", g, elem(base, KX), c + [ge0(sub(KX, add(off, size)))], "bytes after the written ones")


class Fields(object):
    def __init__(self, v):
        self.v = v

    def __getitem__(self, n):
        return fld(self.v, n)


def from_slice(R, A, P, nm):
    K = P + nm
    run = A.run(K)
    names = run.args
    data = names[1] if nm == "new_from_slice" else names[2]
    site = short_fn(K)
    n = 0
    for w in run.calls("io:write_all_at"):
        c = [elen(f) for f in w.facts]
        R.same("initial", site + "/offset", elen(w.args[1]), num(0), c, "byte offset of the initial data")
        R.same("initial", site + "/data", elen(w.args[2]), data, c, "initial bytes")
    for lits, v in okleaves(run):
        v = under_all(v, pathlits(lits))
        L = pathlits(lits)
        c = cmpl(L)
        f = Fields(v)
        if P == VEC:
            got = f["0"]
            R.same("initial", site + "/count", vlen(got), div(vlen(data), BL), c, "number of elements")
            R.same("initial", site, elem(got, KX), app("Element::from_slice", vslice(data, mul(BL, KX), mul(BL, add(KX, num(1))))), c + [ge0(KX), ge0(sub(sub(div(vlen(data), BL), KX), num(1)))], "k-th element")
            n += 1
            continue
        if truth(f["loaded_from_disk"], L) is TRUE:
            R.ok("initial", site + "/loaded")
            continue
        n += 1
        R.same("length", site, tidy(f["len"]), div(vlen(data), BL), c, "element count of the new store")
        R.holds("initial", site + "/multiple", c, eq_typed(sub(vlen(data), mul(BL, div(vlen(data), BL))), num(0), True), "data that is not a whole number of elements is refused", run)
        if P == MM:
            mem_region(R, site, some(f["map"]), num(0), data, vlen(data), c)
        else:
            ok_ = [l for l in L if l.op == "is" and l.a[1] == "Ok" and iscall(l.a[0], "positioned_io::WriteAt::write_all_at")]
            if ok_:
                w = callargs(ok_[-1].a[0])
                R.same("initial", site + "/file", w[0], f["file"], c, "file the data is written to")
            elif run.trusted:
                R.bad("initial", site, "the store is returned without its data having been written")
            else:
                R.und("initial", site, "no write recognised")
    if not n:
        R.bad("initial", site, "no store is ever created")


# ---------------------------------------------------------------- C11
def seqok(lits, suffix, run=None):
    """successful calls of a function on a path"""
    r = [l.a[0] for l in lits if l.op == "is" and l.a[1] == "Ok" and l.a[0].op in ("app", "res") and l.a[0].a[0].split("::")[-1] == suffix]
    if run is None or not r:
        return r
    b = bdd.TRUE
    for l in lits:
        b = bdd.AND(b, bdd.of(l))
    out = []
    for x in r:
        ev = [e for e in run.events if e.ret is not None and (e.ret is x or under_all(e.ret, lits) is x)]
        if not ev or any(bdd.AND(b, e.pc) is not bdd.FALSE for e in ev):
            out.append(x)
    return out


def seekpos(run, f, lits):
    """offset a file handle was positioned at (0 for a fresh handle), None if not recognised"""
    out = None
    for e in run.calls("io:seek"):
        if under_all(e.args[0], lits) is not f and e.args[0] is not f:
            continue
        x = under_all(e.args[1], lits)
        if x.op == "agg" and x.a[1] == "Start":
            if out is not None and out is not x.a[3][0]:
                return None
            out = x.a[3][0]
        else:
            return None
    if out is None and f.op in ("fld",) and f.a[1] == "Ok" and iscall(f.a[0], "std::fs::OpenOptions::open"):
        return num(0)
    return out


def C11(R, A):
    R.rule("refuse", "nothing is moved unless the cached part is non-empty and smaller than the store")
    R.rule("source", "the rows kept are the last ones: the copy starts at the end of the store minus their size")
    R.rule("target", "they are moved directly behind the base layer (or to the front where the base layer lives elsewhere)")
    R.rule("complete", "the file is only shortened once exactly the kept bytes have been copied")
    R.rule("size", "the file ends directly behind the rows moved")
    R.rule("length", "afterwards the element count is that of the shortened file")
    R.rule("durable", "success is reported only after the shortened file has been synced and its size verified")
    R.rule("handle", "the store continues on the compacted file, opened without truncating it")
    R.rule("other", "stores that cannot be compacted are left as they are")
    R.rule("delegate", "compacting a tree compacts its store with the tree's own arity")
    K = DISK + "compact"
    if A.has(K):
        R.part(compact_disk, A, K)
    else:
        R.missing(K)
    K = LI + "front_truncate"
    if A.has(K):
        R.part(front_trunc, A, K)
    else:
        R.missing(K)
    for K, f in ((LC + "compact", compact_lc), (MM + "compact", compact_mm), (MM + "reinit", reinit_mm), (VEC + "compact", compact_vec), ("merkle::MerkleTree::compact", compact_tree)):
        if not A.has(K):
            R.missing(K)
            continue
        R.part(f, A, K)


def moved(R, A, run, site, want_src, want_dst, want_n, want_size, S, pathterm, sync=True, guard=()):
    """one file region moved to another place of the same file, which is then cut behind it"""
    copies = run.calls("io:copy")
    if not copies:
        R.und("source", site, "no file copy recognised")
        return
    n = 0
    for lits, v in okleaves(run):
        L = norm(lits)
        c = [l for l in L if pos(l).op in ("ge0", "eq0", "is") and not mus(l)]
        if not feasible(c):
            continue
        n += 1
        cp, sl, sy = seqok(L, "copy", run), seqok(L, "set_len", run), seqok(L, "sync_all", run)
        ev = [under_all(e.args[0], L) for e in copies]
        if not cp:
            R.bad("complete", site + "/copy", "success is possible without the kept rows having been copied") if run.trusted and resolved(run.ret) else R.und("complete", site, "copy not found on path")
            continue
        a = callargs(cp[-1])
        rd, wr = a[-2], a[-1]
        sp, dp = seekpos(run, rd, L), seekpos(run, wr, L)
        if sp is None:
            R.und("source", site, "reader position not recognised")
        else:
            R.same("source", site, sp, under_all(want_src, L), c, "start of the bytes copied")
        if dp is None:
            R.und("target", site, "writer position not recognised")
        else:
            R.same("target", site, dp, under_all(want_dst, L), c, "place the bytes are copied to")
        for nm, f in (("reader", rd), ("writer", wr)):
            o = f.a[0] if f.op == "fld" else f
            if iscall(o, "std::fs::OpenOptions::open"):
                oo, pth = callargs(o)[-2:]
                if fld(oo, "truncate") is not FALSE or fld(oo, "create_new") is TRUE:
                    R.bad("handle", site + "/" + nm, "the file is opened with %s" % clip(show(oo)))
                else:
                    R.ok("handle", site + "/" + nm)
                R.same("handle", site + "/" + nm + "/path", pth, pathterm, c, "file opened")
            else:
                R.und("handle", site + "/" + nm, clip(show(f)))
        R.same("complete", site, ok(cp[-1]), under_all(want_n, L), c, "number of bytes copied when success is reported")
        if not sl:
            R.bad("size", site, "success is possible without cutting the file") if run.trusted else R.und("size", site, "no cut recognised")
        for x in sl:
            a = callargs(x)
            R.same("size", site, a[-1], under_all(want_size, L), c, "new file size")
            R.same("handle", site + "/cut", a[-2], wr, c, "file that is cut")
        if sync:
            if sy:
                R.ok("durable", site)
            elif run.trusted:
                R.bad("durable", site, "success is reported without syncing the file")
            else:
                R.und("durable", site, "sync not recognised")
        F = under_all(run.final(0), L)
        R.same("handle", site + "/store", fld(F, "file"), wr, c, "file the store continues on")
        yield L, c, F
    for e in run.calls("io:set_len"):
        g = norm(e.facts)
        if not [l for l in g if l.op == "is" and l.a[0].op in ("app", "res") and l.a[0].a[0].endswith("io::copy")]:
            if run.trusted:
                R.bad("complete", site + "/order", "the file is cut before the rows to keep have been copied")
            else:
                R.und("complete", site + "/order", "order of copy and cut")
        else:
            cp = [l.a[0] for l in g if l.op == "is" and l.a[1] == "Ok" and l.a[0].op in ("app", "res") and l.a[0].a[0].endswith("io::copy")]
            for x in cp:
                R.same("complete", site + "/before-cut", ok(x), under_all(want_n, g), g, "number of bytes copied when the file is cut")
    for e in run.calls("io:set_len") if sync else []:
        if seqok(norm(e.facts), "sync_all", run):
            R.bad("durable", site + "/order", "the file is synced before it is cut, so the cut itself is not durable when success is reported")
        else:
            R.ok("durable", site + "/order")
    for e in copies:
        g = norm(e.facts)
        for q, msg in guard:
            R.holds("refuse", site, g, under_all(q, g), msg, run)
    if not n:
        R.bad("complete", site, "it never succeeds")


def compact_disk(R, A, K):
    run = A.run(K, ("self", "branches", "config", "version"))
    S, br, cf, ver = run.args
    site = short_fn(K)
    leafs = ok(app("merkle::get_merkle_tree_leafs", fld(S, "len"), br))
    cs = mul(BL, ok(app("merkle::get_merkle_tree_cache_size", leafs, br, fld(cf, "rows_to_discard"))))
    dw = mul(BL, leafs)
    v1 = eq_typed(ver, num(1), True)
    keep = ite(v1, add(dw, cs), cs)
    pth = app("store::StoreConfig::data_path", fld(cf, "path"), fld(cf, "id"))
    guard = [(bnot(eq_typed(cs, num(0), True)), "an empty cached part is refused"),
             (ge0(sub(sub(mul(BL, fld(S, "len")), cs), num(1))), "a cached part as large as the store is refused")]
    for L, c, F in moved(R, A, run, site, sub(fld(S, "store_size"), cs), ite(v1, dw, num(0)), cs, keep, S, pth, True, guard):
        R.same("length", site, tidy(fld(F, "len")), under_all(div(keep, BL), L), c, "element count after compaction")
        md = seqok(L, "metadata", run)
        if md:
            m = app("metalen", ok(md[-1]))
            R.holds("durable", site + "/verified", c, eq_typed(m, under_all(keep, L), True), "the size found on disk is verified", run)
        elif run.trusted:
            R.bad("durable", site + "/verified", "success is reported without checking the size found on disk")
        else:
            R.und("durable", site + "/verified", "no metadata read")


def front_trunc(R, A, K):
    run = A.run(K, ("self", "config", "n"))
    S, cf, n = run.args
    site = short_fn(K)
    md = [e for e in run.calls("io:metadata")]
    if not md:
        return R.und("source", site, "file size not read from metadata")
    size = app("metalen", ok(mk("bot")))
    pth = app("store::StoreConfig::data_path", fld(cf, "path"), fld(cf, "id"))
    m = [x for x in subterms(run.ret) if x.op == "app" and x.a[0] == "metalen"]
    if not m:
        return R.und("source", site, "file size not used")
    size = m[0]
    keep = sub(size, mul(BL, n))
    for L, c, F in moved(R, A, run, site, mul(BL, n), num(0), keep, keep, S, pth, False, [(ge0(keep), "cutting more than the file holds is refused")]):
        R.same("length", site, tidy(fld(F, "len")), fld(S, "len"), c, "element count (logical) is unchanged")


def compact_lc(R, A, K):
    run = A.run(K)
    site = short_fn(K)
    bad = [e for e in run.events if e.kind == "call" and e.name.startswith("io:") and e.name not in ("io:metadata", "io:sync_all")]
    if bad and run.trusted:
        return R.bad("other", site, "an already compacted store is modified (%s)" % bad[0].name)
    for lits, v in okleaves(run):
        return R.und("other", site, "can succeed: " + clip(show(v)))
    R.ok("other", site)


def compact_mm(R, A, K):
    run = A.run(K)
    S = run.args[0]
    site = short_fn(K)
    for lits, v in okleaves(run):
        L = norm(lits)
        F = under_all(run.final(0), L)
        for f in ("file", "len"):
            R.same("other", site + "/" + f, fld(F, f), fld(S, f), L, "field " + f)
        R.same("other", site + "/mapped", is_variant(fld(F, "map"), "Some"), FALSE, L, "the mapping is released")
        R.same("other", site + "/result", under_all(v, L), under_all(is_variant(fld(S, "map"), "Some"), L), L, "whether a mapping was released")
    if [e for e in run.events if e.kind == "call" and e.name.startswith("io:")]:
        R.und("other", site, "touches the file")


def reinit_mm(R, A, K):
    run = A.run(K)
    S = run.args[0]
    site = short_fn(K)
    n = 0
    for lits, v in okleaves(run):
        L = norm(lits)
        F = under_all(run.final(0), L)
        n += 1
        for f in ("file", "len"):
            R.same("other", site + "/" + f, fld(F, f), fld(S, f), L, "field " + f)
        mp = seqok(L, "map_mut", run)
        if mp:
            R.same("other", site + "/mapping", some(fld(F, "map")), ok(mp[-1]), L, "the mapping installed")
            R.same("other", site + "/source", callargs(mp[-1])[-1], fld(S, "file"), L, "the file that is mapped")
        else:
            R.und("other", site, "mapping not recognised")
    if not n:
        R.bad("other", site, "it never succeeds")


def compact_vec(R, A, K):
    run = A.run(K)
    S = run.args[0]
    for lits, v in okleaves(run):
        R.same("other", short_fn(K), fld(under_all(run.final(0), norm(lits)), "0"), fld(S, "0"), lits, "stored elements")


def compact_tree(R, A, K):
    from rules_gen import BASE, kind
    run = A.run(K, ("self", "config", "version"))
    S, cf, ver = run.args
    site = short_fn(K)
    ev = run.calls("Store::compact")
    for e in ev:
        st = projs(fld(S, "data"), (("d", "BaseTree"), ("f", "0")))
        for g, w, m in zip(e.args, (st, BASE, cf, ver), ("store", "arity", "configuration", "version")):
            R.same("delegate", site + "/" + m, g, w, e.facts, m + " passed to the store")
    if not ev:
        R.und("delegate", site, "no delegation recognised")
    for lits, v in okleaves(run):
        if v.op == "agg" and v.a[1] == "Err":
            continue
        k = kind(S, lits)
        if k in ("SubTree", "TopTree"):
            R.bad("delegate", site + "/compound", "compaction of a tree without a store reports success")
        elif k == "BaseTree":
            R.ok("delegate", site + "/base")
