"""C12: failures of storage operations reach the caller."""
import bdd
from fw import *
from rules_store import norm, under_all, feasible

RES = "std::result::Result"
SKIPNAMES = GEOM


def roots(A):
    """every public function or trait method of the crate that returns a Result"""
    for k, f in A.c.fns.items():
        if "{" in k or "test" in k.split("::")[0] or not f.get("blocks"):
            continue
        if not (f.get("vis") == "Public" or f.get("in_trait") or " as " in k):
            continue
        ty = A.c.types[f["locals"][0][0]]
        if ty.get("k") == "adt" and ty.get("n") == RES:
            yield k


def storage(A, e):
    """is this event a fallible storage operation (a system call, a store operation, an external read, or a construction built on them)?"""
    if e.kind != "call" or e.ret is None or e.dty != RES:
        return False
    if e.name.startswith("io:") or e.name in ("PTR", "open", "mmap", "mmap_full"):
        return True
    n = e.name.split("::")[-1]
    if e.name.startswith("store::Store::") or e.name.startswith("Store::"):
        return True
    if e.name in A.c.fns and n not in SKIPNAMES:
        return True
    return e.name.startswith("std::fs::") or e.name.startswith("std::io::") or "tempfile" in e.name


def okvar(r):
    return bdd.of(is_variant(r, "Ok"))


def retpcs(run):
    """[(condition, value)] of the successful ways to return"""
    out = []
    base = run.st.pc if run.st is not None else bdd.FALSE
    for lits, v in run.leaves():
        if v.op == "agg" and v.a[1] == "Err":
            continue
        b = base
        for l in lits:
            b = bdd.AND(b, bdd.of(l))
        if v.op != "agg":
            b = bdd.AND(b, okvar(v))
        out.append((lits, v, b))
    return out


def escapes(run, e, r):
    """ways a failure of r can be followed by something other than failing: list of text"""
    p = bdd.AND(e.pc, bdd.NOT(okvar(r)))
    loops = [x.a[0] for x in e.loops]
    return chase(run, p, loops, r)


def chase(run, p, loops, r):
    if p is bdd.FALSE:
        return []
    if not loops:
        bad = []
        for lits, v, b in retpcs(run):
            x = bdd.AND(p, b)
            if x is bdd.FALSE:
                continue
            bad.append(("return", lits, v, x))
        return bad
    lid = loops[-1]
    li = run.loops.get(lid)
    if li is None:
        return [("loop", None, None, None)]
    out = []
    if li.back is not None:
        x = bdd.AND(p, li.back.pc)
        if x is not bdd.FALSE:
            out.append(("next iteration", None, None, x))
    for j, pc in enumerate(getattr(li, "xpc", [])):
        x = bdd.AND(p, pc)
        if x is bdd.FALSE:
            continue
        combo = li.xcombo[j] if j < len(li.xcombo) else bdd.TRUE
        q = bdd.AND(bdd.AND(combo, li.entry.pc), bdd.NOT(okvar(r)))
        out += chase(run, q, loops[:-1], r)
    return out


def lits_of(b, n=40):
    return [a if pol else bnot(a) for a, pol in bdd.units(b)]


def fallback_open(run, e, x):
    """a failed read-write open of an existing file, followed by a successful read-only open of the same path"""
    if e.name != "open" or x is None:
        return False
    o, p = e.args[0], e.args[-1]
    if fld(o, "create") is TRUE or fld(o, "create_new") is TRUE or fld(o, "truncate") is TRUE:
        return False
    for q in run.calls("open"):
        if q is e or q.args[-1] is not p or fld(q.args[0], "write") is not FALSE:
            continue
        if bdd.AND(x, bdd.NOT(okvar(q.ret))) is bdd.FALSE:
            return True
    return False


def swallowed_by_unknown(run, r):
    """is r handed to something the analysis has no model of?"""
    for e in run.events:
        if e.kind == "call" and e.ret is not None and e.name in run.eng.unknown and any(contains(a, lambda t: t is r) for a in e.args):
            return True
    return False


def geom_infeasible(x):
    """is the condition contradictory on its arithmetic literals?"""
    L = [l for l in lits_of(x) if pos(l).op in ("ge0", "eq0")]
    return bool(L) and not feasible(norm(L))


def C12(R, A):
    R.rule("surface", "whenever a file operation, store operation, external read or construction step fails, the operation that performed it returns an error on every path: no iteration continues and no success is returned after it")
    R.rule("no-panic", "such a failure is returned, not turned into a panic")
    ks = list(roots(A))
    for must in ("store::Store::sync", "merkle::MerkleTree::delete", "merkle::MerkleTree::compact", "<store::disk::DiskStore as store::Store>::sync",
                 "<store::disk::DiskStore as store::Store>::write_at", "<store::level_cache::LevelCacheStore as store::Store>::sync"):
        if must not in ks:
            R.missing(must)
    for k in ks:
        R.part(surface, A, k)


def surface(R, A, K):
    run = A.run(K)
    if run.st is None:
        return
    site0 = short_fn(K)
    for e in run.events:
        if not storage(A, e):
            continue
        r = e.ret
        site = site0 + "/" + short_fn(e.name) + ("" if e.fn == K else " in " + short_fn(e.fn))
        okv = okvar(r)
        p = bdd.AND(e.pc, bdd.NOT(okv))
        esc = [w for w in escapes(run, e, r) if not fallback_open(run, e, w[3]) and not (w[3] is not None and geom_infeasible(w[3]))]
        if not esc:
            R.ok("surface", site, "path conditions: every return and iteration after the call entails its success")
        elif swallowed_by_unknown(run, r):
            R.und("surface", site, "the result is handed to a function the analysis has no model of")
        else:
            w = esc[0]
            wit = None
            if w[1] is not None:
                wit = {"returned": clip(show(w[2])), "although": clip("!(" + show(r) + " is Ok)"), "path": [clip(show(l), 160) for l in w[1]]}
            R.bad("surface", site, "a failure of %s does not make %s fail: the %s is reached all the same" % (short_fn(e.name), site0, "successful " + w[0] if w[0] == "return" else w[0]), wit, e.sp)
        panic_on(R, run, e, r, p, site, site0)


def panic_on(R, run, e, r, p, site, site0):
    lit = is_variant(r, "Ok")
    for q in run.panics():
        if q.loops[:len(e.loops)] != e.loops:
            continue
        x = bdd.AND(p, q.pc)
        if x is bdd.FALSE:
            continue
        if q.name in ("unwrap:Result", "unwrap:Option"):
            c = is_variant(q.args[0], "Ok" if q.name.endswith("Result") else "Some")
            if not contains(c, lambda t: t is lit):
                continue
            if bdd.AND(x, bdd.NOT(bdd.of(c))) is bdd.FALSE or bdd.AND(bdd.AND(q.pc, bdd.of(lit)), bdd.NOT(bdd.of(c))) is not bdd.FALSE:
                continue
        elif bdd.AND(bdd.AND(e.pc, bdd.of(lit)), q.pc) is not bdd.FALSE:
            continue
        return R.bad("no-panic", site, "a failure of %s makes %s panic instead of returning the error" % (short_fn(e.name), site0), None, q.sp)
    R.ok("no-panic", site)
