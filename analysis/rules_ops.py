"""C25: operations of a tree and of a store reach their own backing data."""
from fw import *
from rules_tree import M, BASE
from rules_store import norm
import bdd
from rules_err import retpcs
from rules_store import feasible

STORES = {"DiskStore": "<store::disk::DiskStore as store::Store>::", "LevelCacheStore": "<store::level_cache::LevelCacheStore as store::Store>::",
          "MmapStore": "<store::mmap::MmapStore as store::Store>::", "VecStore": "<store::vec::VecStore as store::Store>::"}
PLAIN = "BaseTree"


def own(self):
    """the store a plain tree holds"""
    return projs(fld(self, "data"), (("d", PLAIN), ("f", "0")))


def plain(self):
    return is_variant(fld(self, "data"), PLAIN)


def C25(R, A):
    R.rule("data", "data() is the store of a plain tree and nothing for a compound tree")
    R.rule("delete", "deleting a tree deletes the files its configuration names, through the store type of the tree")
    R.rule("reinit", "reinit re-maps the tree's own store; compound trees refuse it")
    R.rule("sync", "sync of a file backed store returns after the operating system accepted the data of its own file")
    R.rule("flag", "loaded_from_disk reports what was recorded when the store was opened")
    R.part(data, A)
    R.part(delete, A)
    R.part(reinit, A)
    for n in ("DiskStore", "LevelCacheStore"):
        R.part(sync, A, n)
    for n in STORES:
        R.part(flag, A, n)


def split(run, self, R, rule, site):
    """leaves for plain and for compound trees"""
    p = bdd.of(plain(self))
    for lits, v in run.leaves():
        b = bdd.TRUE
        for l in lits:
            b = bdd.AND(b, bdd.of(l))
        if bdd.AND(b, p) is not bdd.FALSE:
            yield True, lits + (plain(self),) if isinstance(lits, tuple) else list(lits) + [plain(self)], v
        if bdd.AND(b, bdd.NOT(p)) is not bdd.FALSE:
            yield False, list(lits) + [bnot(plain(self))], v


def strip(v):
    while v.op == "ref" and not v.a[1] and v.a[0].op in ("V", "H"):
        v = v.a[0].a[0]
    return v


def performed(R, run, rule, site, ev, what, only=None):
    """every successful way to return went through one of the calls"""
    did = bdd.FALSE
    for e in ev:
        did = bdd.OR(did, e.pc)
    n = 0
    for lits, v, b in retpcs(run):
        if only is not None:
            b = bdd.AND(b, bdd.of(only))
        b = bdd.AND(b, bdd.NOT(did))
        if b is bdd.FALSE:
            n += 1
            continue
        L = list(lits) + [a if p else bnot(a) for a, p in bdd.units(b)]
        if not feasible(norm(L)):
            continue
        if run.trusted or ev:
            R.bad(rule, site, "success is reported without " + what)
        else:
            R.und(rule, site, clip(show(v)))
        return False
    if n:
        R.ok(rule, site)
    return True


def data(R, A):
    K = M + "data"
    if not A.has(K):
        return R.missing(K)
    run = A.run(K, ("self",))
    site = short_fn(K)
    want = own(run.args[0])
    for isp, lits, v in split(run, run.args[0], R, "data", site):
        if v.op != "agg":
            R.und("data", site, clip(show(v)))
        elif isp:
            if v.a[1] != "Some":
                R.bad("data", site, "a plain tree hands out no store")
                continue
            got = run.eng.deep(run.st, v.a[3][0]) if hasattr(run.eng, "deep") else v.a[3][0]
            R.same("data", site, got, want, [], "store handed out")
        elif v.a[1] == "None":
            R.ok("data", site + "/compound")
        else:
            R.bad("data", site, "a compound tree hands out %s" % clip(show(v)))


def delete(R, A):
    K = M + "delete"
    if not A.has(K):
        return R.missing(K)
    run = A.run(K, ("self", "config"))
    site = short_fn(K)
    ev = run.calls("Store::delete")
    performed(R, run, "delete", site, ev, "deleting the store's files")
    for e in ev:
        R.same("delete", site + "/config", e.args[0], run.args[1], [], "configuration deleted")


def reinit(R, A):
    K = M + "reinit"
    if not A.has(K):
        return R.missing(K)
    run = A.run(K, ("self",))
    site = short_fn(K)
    ev = run.calls("Store::reinit")
    p = plain(run.args[0])
    performed(R, run, "reinit", site, ev, "re-initialising the store", p)
    for e in ev:
        R.same("reinit", site + "/store", e.args[0], own(run.args[0]), [p], "store re-initialised")
    for isp, lits, v in split(run, run.args[0], R, "reinit", site):
        if isp:
            continue
        elif v.op == "agg" and v.a[1] == "Err":
            R.ok("reinit", site + "/compound")
        elif v.op == "agg":
            R.bad("reinit", site, "a compound tree reports success")
        else:
            R.und("reinit", site, clip(show(v)))


def sync(R, A, n):
    K = STORES[n] + "sync"
    site = short_fn(K)
    if not A.has(K):
        return R.bad("sync", site, "the store inherits the sync that does nothing")
    run = A.run(K, ("self",))
    ev = run.calls("io:sync_all") + run.calls("io:sync_data")
    f = fld(run.args[0], "file")
    if performed(R, run, "sync", site, ev, "syncing the file"):
        for e in ev:
            R.same("sync", site + "/file", e.args[0], f, [], "file synced")


def flag(R, A, n):
    K = STORES[n] + "loaded_from_disk"
    if not A.has(K):
        return R.missing(K)
    run = A.run(K, ("self",))
    site = short_fn(K)
    want = FALSE if n == "VecStore" else fld(run.args[0], "loaded_from_disk")
    for lits, v in run.leaves():
        if same(v, want, norm(lits)) in ("id", "eq"):
            R.ok("flag", site)
        elif v is TRUE or v is FALSE:
            e = same(v, want, norm(lits))
            R.bad("flag", site, "reports %s whatever was recorded" % show(v)) if isinstance(e, tuple) else R.und("flag", site, clip(show(v)))
        else:
            R.same("flag", site, v, want, norm(lits), "flag reported")


# ----------------------------------------------------------------- elements
def C26(R, A):
    R.rule("length", "byte_len of an array element is the length of the array")
    R.rule("from", "from_slice returns exactly the bytes given and accepts no other length")
    R.rule("to", "copy_to_slice fills the buffer with exactly the element's bytes")
    n = 0
    for k in sorted(A.c.fns):
        if k.startswith("<[") and k.endswith("as merkle::Element>::copy_to_slice"):
            n += 1
            R.part(element, A, k.rsplit("::", 1)[0] + "::")
    if not n:
        R.missing("<[u8; 32] as merkle::Element>")


def element(R, A, P):
    f = A.c.fns[P + "copy_to_slice"]
    s = A.c.tys(f["locals"][1][0])
    N = None
    if "; " in s:
        x = s.rsplit("; ", 1)[1].rstrip("]").replace("_usize", "")
        N = int(x) if x.isdigit() else None
    if N is None:
        return R.und("length", short_fn(P), "array of unknown length " + s)
    n = num(N)
    run = A.run(P + "byte_len")
    for lits, v in run.leaves():
        R.same("length", short_fn(P + "byte_len"), v, n, norm(lits), "length reported")
    K = P + "from_slice"
    run = A.run(K, ("bytes",))
    b = run.args[0]
    for lits, v in run.leaves():
        F = norm(lits) + list(run.st.facts)
        fit = eq_typed(vlen(b), n, True)
        R.holds("from", short_fn(K) + "/accepts", F, fit, "only %d bytes are accepted" % N, run)
        each(R, "from", short_fn(K), lambda k: (elem(v, k), elem(b, k)), F + [fit], N, "of the element")
    K = P + "copy_to_slice"
    run = A.run(K, ("self", "bytes"))
    S, o = run.args
    for lits, v in run.leaves():
        out = run.final(1)
        each(R, "to", short_fn(K), lambda k: (elem(out, k), elem(S, k)), norm(lits) + [eq_typed(vlen(o), n, True), eq_typed(vlen(S), n, True)], N, "of the buffer")


def each(R, rule, site, pair, F, N, what):
    """every byte separately: partial copies differ at particular positions only"""
    for k in range(N):
        got, want = pair(num(k))
        r = same(got, want, F)
        if r not in ("id", "eq"):
            return R.same(rule, site, got, want, F, "byte %d %s" % (k, what))
    R.ok(rule, site)
