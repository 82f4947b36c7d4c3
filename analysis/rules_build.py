"""Tree construction: layer layout, parallel layer hashing, heights."""
from fw import *

BUILDS = ["store::Store::build", "store::Store::build_small_tree",
          "<store::disk::DiskStore as store::Store>::build", "<store::level_cache::LevelCacheStore as store::Store>::build"]
LAYERS = ["store::Store::process_layer", "<store::disk::DiskStore as store::Store>::process_layer",
          "<store::level_cache::LevelCacheStore as store::Store>::process_layer"]
READS = ("read_range", "read_range_internal", "read_at", "read_at_internal", "front_truncate")
U = mk("tysym", "U")
FT = "store::level_cache::LevelCacheStore::front_truncate"


def arity(run):
    """the branching factor symbol of this function"""
    return U


def at0(li, t):
    m = {mu: c[0] for mu, c in li.cells.items()}
    m[mk("idx", li.header)] = num(0)
    return subst(t, m)


def peel(run, li, e, facts):
    """drop an 'if first iteration' special case that agrees with the general case"""
    idx = mk("idx", li.header)
    for _ in range(4):
        hit = None
        for x in subterms(e):
            if x.op == "ite" and x.a[0].op == "eq0" and contains(x.a[0], lambda y: y is idx) and not mus(x.a[0]):
                z = at0(li, x.a[0])
                if z is TRUE:
                    a, b = at0(li, x.a[1]), at0(li, x.a[2])
                    f0 = [f for f in facts if not contains(f, lambda y: y is idx or y in li.cells)]
                    r = same(a, b, f0)
                    if r in ("id", "eq"):
                        hit = (x, x.a[2])
                        break
        if hit is None:
            return e
        e = subst(e, {hit[0]: hit[1]})
    return e


def rounds(R, rule, site, li, got, want, facts, first, text):
    """equal in the first round and in every later one"""
    idx = mk("idx", li.header)
    if same(got, want, facts) not in ("id", "eq"):
        a = same(at0(li, got), at0(li, want), [x for x in (at0(li, f) for f in first) if x is not TRUE])
        b = same(got, want, facts + [ge0(sub(idx, num(1)))])
        if a in ("id", "eq") and b in ("id", "eq"):
            return R.ok(rule, site)
    R.same(rule, site, got, want, facts, text)


def innermost(run, e):
    """the LoopInfo of the innermost loop an event is in"""
    for l in reversed(e.loops):
        li = run.loops.get(l.a[0]) if l.op == "idx" else None
        if li is not None:
            return li
    return None


def outer(run, e):
    for l in e.loops:
        li = run.loops.get(l.a[0]) if l.op == "idx" else None
        if li is not None:
            return li
    return None


class Layout(object):
    """per-level quantities of a build loop, identified by their role in the hashing call"""
    pass


def recs(R, rule, site, run, li, mu, what, init, nxt, facts):
    c = li.cells.get(mu)
    if c is None:
        R.und(rule, site, "%s is not a loop cell: %s" % (what, clip(show(mu))))
        return False
    f0 = [f for f in facts if not contains(f, lambda y: y in li.cells or y.op == "idx")]
    a = R.same(rule, site + "/" + what + " at level 0", c[0], init, f0, "%s of the first level" % what)
    b = R.same(rule, site + "/" + what + " per level", c[1], nxt, facts, "%s of the next level" % what)
    return a and b


def C15(R, A):
    R.rule("width", "level 0 has `leafs` nodes and every next level has width/branches nodes")
    R.rule("offsets", "each level is read where it was written and its parents are written directly after it")
    R.rule("levels", "a root is only returned when the number of levels hashed matches the declared row count")
    R.rule("length", "the recorded length counts every node written; the finished tree has exactly the expected node count")
    R.rule("arity", "every layer is processed with the arity the tree is built with")
    R.rule("root", "the value returned as root is the last node of the finished tree")
    R.rule("precond", "building requires a power-of-two arity and a store holding exactly the leafs")
    R.rule("small", "the small tree path reads each level completely, hashes consecutive groups of `branches` nodes and stores the results in order")
    for K in BUILDS:
        if not A.has(K):
            R.missing(K)
            continue
        build(R, A, K)


def arities(R, run, site, callee, want, what, rule="arity"):
    """type arguments of the calls to the layer functions"""
    for e in run.events:
        if e.name.split("::")[-1] != callee or e.kind not in ("call", "inline") or not e.tys:
            continue
        u = e.tys[-1]
        if u == ("param", want):
            R.ok(rule, site + "/" + callee)
        elif u[0] in ("param", "adt"):
            R.bad(rule, site + "/" + callee, "%s with arity %s, required %s" % (what, u[1], want), None, e.sp)
        else:
            R.und(rule, site + "/" + callee, str(u)[:80])


def build(R, A, K):
    small = K.endswith("build_small_tree")
    names = ("self", "leafs", "row_count") if small else ("self", "leafs", "row_count", "config")
    run = A.run(K, names, opaque=READS + (("last",) if K.startswith("store::Store") else ()))
    site = short_fn(K)
    S, LEAFS, RC = run.args[:3]
    lc = "LevelCache" in K
    for callee in ("process_layer", "build_small_tree"):
        arities(R, run, site, callee, U.a[0], "a layer is processed")
    if small:
        evs = run.calls("Store::read_range")
    else:
        evs = run.calls("Store::process_layer")
    if not evs:
        return R.und("offsets", site, "no layer processing call found")
    if len(evs) > 1:
        return R.und("offsets", site, "several layer processing calls")
    e = evs[0]
    facts = list(e.facts)
    if small:
        # callers (the build methods) guarantee the store holds exactly the leafs
        facts.append(eq_typed(app("Store::len", S), LEAFS, True))
    li = innermost(run, e)
    if li is None:
        return R.und("offsets", site, "layer processing is not in a loop")
    if lc:
        cfg = some(run.args[3])
        br = arity(run)
        cs = ok(app("merkle::get_merkle_tree_cache_size", LEAFS, br, fld(cfg, "rows_to_discard")))
        tl = ok(app("merkle::get_merkle_tree_len", LEAFS, br))
        cis = sub(tl, cs)
        facts.append(ge0(cis))
    idx = mk("idx", li.header)
    if small:
        rng = e.args[1]
        rs = fld(rng, "start")
        wd = sub(fld(rng, "end"), rs)
        level = None
    else:
        _, wd, level, rs, ws = e.args[:5]
    rs = peel(run, li, rs, facts)
    wd = peel(run, li, wd, facts)
    # role: width
    W = wd if wd.op == "mu" else None
    if W is None:
        cs = [m for m in li.cells if m in subterms(wd)]
        return R.und("width", site, "layer width %s is not a loop cell" % clip(show(wd)))
    br = arity(run)
    if not recs(R, "width", site, run, li, W, "width", LEAFS, div(W, br), facts):
        return
    if not small:
        R.same("levels", site + "/level", level, idx, facts, "level number passed to the hashing step")
    # one level per width above one
    shapes = [ge0(sub(W, num(1))), eq_typed(app("npow2", W), W, True)]
    if any(contains(l, lambda x: x is W) for l in facts):
        R.holds("levels", site + "/more", facts + shapes, ge0(sub(W, num(2))), "a level is hashed only while it has more than one node", run)
    else:
        R.und("levels", site + "/more", "the loop does not look at the width")
    # role: position of the level
    cand = [m for m in li.cells if m is not W and m in set(subterms(rs))]
    P = rs if rs.op == "mu" else None
    if P is None and lc:
        for m in cand:
            if li.cells[m][0] is num(0):
                P = m
    if P is None:
        if rs.op == "int" and resolved(rs):
            return R.bad("offsets", site, "every level is read from position %s" % show(rs))
        return R.und("offsets", site, "read position %s is not recognised" % clip(show(rs)))
    okp = recs(R, "offsets", site, run, li, P, "position", num(0), add(P, W), facts)
    if lc:
        before = lt(P, cis)
        wrs = ite(before, num(0), sub(P, cis))
        wws = ite(before, W, sub(add(P, W), cis))
        fx = facts + [ge0(cis)]
        # at least the base level is below the cache
        first = fx + [ge0(sub(cis, LEAFS)), ge0(sub(LEAFS, num(2)))]
        rounds(R, "offsets", site + "/read", li, rs, wrs, fx, first, "position the level is read from")
        ws = peel(run, li, ws, fx)
        rounds(R, "offsets", site + "/write", li, ws, wws, fx, first, "position the parents are written to")
    elif not small:
        ws = peel(run, li, ws, facts)
        R.same("offsets", site + "/write", ws, add(P, W), facts, "position the parents are written to")
    if small:
        small_body(R, run, site, li, e, W, P, br, facts)
    # finished tree
    selfmu = e.args[0]
    oks = 0
    for lits, v in run.leaves():
        if v.op == "agg" and v.a[1] == "Err":
            continue
        if iscall(v, "Store::build_small_tree"):
            a = callargs(v)
            R.same("small", site + "/delegate leafs", a[1], LEAFS, lits)
            R.same("small", site + "/delegate rows", a[2], RC, lits)
            precond(R, run, site, S, LEAFS, lits, False)
            continue
        oks += 1
        fx = [l for l in lits]
        R.holds("levels", site + "/rows", fx, eq_typed(RC, add(idx, num(1)), True), "the number of levels must match the declared row count", run)
        for n_, (t_, s_) in enumerate(li.exits):
            x_ = mk("exit", li.header, n_)
            if bnot(x_) in fx or (x_ not in fx and any(mk("exit", li.header, m_) in fx for m_ in range(len(li.exits)))):
                continue
            gs = [l for l in s_.facts if l.op != "exit" and not (l.op == "not" and l.a[0].op == "exit")]
            if any(pos(l).op == "is" and contains(l, lambda x: x is W) for l in gs):
                continue
            gs = [l for l in gs if contains(l, lambda x: x is W)]
            if gs:
                R.holds("levels", site + "/done", gs + shapes, eq_typed(W, num(1), True), "hashing stops only at the level of the root", run)
            else:
                R.und("levels", site + "/done", "the loop does not look at the width")
        if not small:
            precond(R, run, site, S, LEAFS, lits, True)
        if "DiskStore" in K or lc:
            want = ok(app("merkle::get_merkle_tree_len", LEAFS, br))
            ln = fld(selfmu, "len")
            got = add(ln, num(1)) if lc else ln
            R.holds("length", site + "/total", fx, eq_typed(got, want, True), "the finished tree has the expected number of nodes", run)
        # root value
        if iscall(v, "Store::last"):
            x = callargs(v)[0]
            if x is selfmu or (x.op == "mu" and x in li.cells):
                R.ok("root", site)
            else:
                R.und("root", site, clip(show(v)))
        else:
            rd = [t for t in subterms(v) if t.op in ("app", "res") and any(t.a[0].endswith(n) for n in ("::read_at", "read_at_internal"))]
            if len(rd) == 1 or iscall(v, FT.replace("front_truncate", "read_at_internal")):
                t = rd[0]
                i = callargs(t)[1]
                if lc:
                    w = sub(sub(fld(selfmu, "len"), cis), num(0))
                else:
                    w = sub(fld(selfmu, "len"), num(1))
                R.same("root", site, i, w, fx, "index of the node returned as root")
            elif contains(v, lambda x: x.op == "filedata") or contains(v, lambda x: x.op == "app" and x.a[0] == "filedata"):
                R.und("root", site, "read inlined")
            else:
                R.und("root", site, clip(show(v)))
    if not oks:
        R.bad("root", site, "no path of the build returns a root")
    # store length while building
    if "DiskStore" in K or lc:
        c = li.cells.get(selfmu)
        if c is None:
            R.und("length", site, "store is not a loop cell")
        else:
            nx = keeps_len(R, A, K, fld(c[1], "len"))
            if lc:
                R.same("length", site + "/per level", nx, add(P, W), facts + [ge0(cis)], "recorded length after a level")
                ft(R, run, site, li, c[1], P, W, cis, cfg, facts)
            else:
                R.same("length", site + "/per level", nx, add(fld(selfmu, "len"), div(W, br)), facts, "recorded length after a level")


def keeps_len(R, A, K, t):
    """hashing a layer does not change the recorded length: checked on process_layer itself"""
    k = K[:-len("build")] + "process_layer"
    if not A.has(k):
        return t
    r = A.run(k, ("self", "width", "level", "read_start", "write_start"), opaque=READS)
    f = r.final(0)
    if f is None or fld(f, "len") is not fld(r.args[0], "len"):
        return t
    m = {}
    for x in subterms(t):
        if x.op == "fld" and x.a[2] == "len" and x.a[0].op == "app" and x.a[0].a[0] == "mut0:Store::process_layer":
            m[x] = fld(x.a[0].a[1], "len")
    return subst(t, m) if m else t


def ft(R, run, site, li, nx, P, W, cis, cfg, facts):
    R.rule("front-truncate", "levels below the cached region, and only those, are dropped from the front, exactly their width")
    evs = run.calls(FT)
    if not evs:
        return R.und("front-truncate", site, "no front truncation call")
    for e in evs:
        R.same("front-truncate", site + "/width", e.args[2], W, e.facts, "number of nodes dropped")
        R.holds("front-truncate", site + "/below cache", list(e.facts), lt(P, cis), "only levels below the cached region are dropped", run)
    c1 = engine.under(nx, lt(P, cis))
    for l, v in leaves(c1):
        if not contains(v, lambda x: x.op == "app" and x.a[0].startswith("mut0:") and x.a[0].endswith("front_truncate")):
            r = holds(list(facts) + list(l), bnot(lt(P, cis)))
            if r not in ("proved", "eq"):
                if resolved(v) and isinstance(r, tuple):
                    R.bad("front-truncate", site + "/always", "a level below the cached region may stay in the file (%s)" % clip("; ".join(show(x) for x in l)), r[1])
                else:
                    R.und("front-truncate", site, "condition not resolved")
                return
    R.ok("front-truncate", site + "/always")


def precond(R, run, site, S, LEAFS, lits, full):
    br = arity(run)
    p2 = eq_typed(app("npow2", br), br, True)
    R.holds("precond", site + "/arity", lits, p2, "the arity is a power of two", run)
    ln = [l for l in lits if l.op == "eq0" and contains(l, lambda x: x is LEAFS) and (contains(l, lambda x: x is fld(S, "len")) or contains(l, lambda x: iscall(x, "Store::len")))]
    n = app("Store::len", S) if any(contains(l, lambda x: iscall(x, "Store::len")) for l in ln) else fld(S, "len")
    R.holds("precond", site + "/leafs", lits, eq_typed(n, LEAFS, True), "the store holds exactly the leafs", run)


def small_body(R, run, site, li, e, W, P, br, facts):
    idx = mk("idx", li.header)
    data = ok(app("Store::read_range", *e.args))
    hs = run.calls("Algorithm::multi_node")
    ws = run.calls("Store::write_at")
    if not hs or not ws:
        return R.und("small", site, "hash or write call not found")
    for w in ws:
        il = innermost(run, w)
        if il is None or il is li:
            R.und("small", site, "write is not in an inner loop")
            continue
        j = mk("idx", il.header)
        pos_ = peel(run, li, w.args[2], facts)
        R.same("small", site + "/write position", pos_, add(add(P, W), j), list(w.facts), "position parent j is written to")
        node = w.args[1]
        if not iscall(node, "Algorithm::multi_node"):
            R.und("small", site, "node written is " + clip(show(node)))
            continue
        a = callargs(node)
        group(R, "small", site + "/group", a[1], data, j, br, list(w.facts))
        n = vlen(data)
        fin = [f for t, s in il.exits for f in s.facts if f.op == "ge0" and contains(f, lambda x: x is j) and f is not ge0(j)]
        want = ge0(sub(j, div(add(n, sub(br, num(1))), br)))
        if any(same(f, want, [ge0(j), ge0(sub(br, num(2)))]) in ("id", "eq") for f in fin):
            R.ok("small", site + "/all parents")
        else:
            R.und("small", site + "/all parents", "loop bound not recognised")


def group(R, rule, site, got, data, j, br, facts):
    want = mk("slice", data, mul(br, j), mmin(add(mul(br, j), br), vlen(data)))
    R.same(rule, site, got, want, facts, "nodes hashed into parent j")


# ------------------------------------------------------------------ C14
def C14(R, A):
    R.rule("partition", "the parallel tasks read consecutive, non-overlapping chunks that together cover the whole level")
    R.rule("aligned", "chunk size is a multiple of the arity, so no group of siblings is split between tasks")
    R.rule("parents", "task i hashes its chunk in consecutive groups of `branches`, at the level's height, and produces all its parents in order")
    R.rule("target", "task i writes its parents at the i-th chunk of the next level: write_start + i*chunk/branches, and exactly that many")
    R.rule("count", "the number of bytes written by a task is checked against its chunk before it is written")
    for K in LAYERS:
        if not A.has(K):
            R.missing(K)
            continue
        layer(R, A, K)


def chunk_step(start, rs, idx):
    """start = rs + C*idx -> C"""
    d = poly_of(sub(start, rs))
    if len(d) == 1:
        (m, c), = d.items()
        if m == (idx,):
            return c
    return None


def layer(R, A, K):
    run = A.run(K, ("self", "width", "level", "read_start", "write_start"), opaque=READS)
    site = short_fn(K)
    S, W, LV, RS, WS = run.args
    hs = run.calls("Algorithm::multi_node")
    if not hs:
        return R.und("parents", site, "no hashing call")
    br = arity(run)
    rd = [e for e in run.events if e.kind == "call" and last(e.name) in ("read_range", "read_range_internal")]
    if len(rd) != 1:
        return R.und("partition", site, "%d reads" % len(rd))
    rd = rd[0]
    li = innermost(run, rd)
    if li is None:
        return R.und("partition", site, "read outside the parallel loop")
    idx = mk("idx", li.header)
    rng = rd.args[1]
    st, en = fld(rng, "start"), fld(rng, "end")
    C = chunk_step(st, RS, idx)
    if C is None:
        # not chunked by a constant
        if resolved(st) and not contains(st, lambda x: x is idx):
            return R.bad("partition", site, "every task reads from %s" % clip(show(st)))
        sts = poly_of(sub(st, RS))
        if all(idx in m or True for m in sts) and resolved(st):
            R.same("partition", site + "/start", st, add(RS, mul(num(4096), idx)), rd.facts, "start of task i's chunk")
        return
    facts = list(rd.facts)
    # the facts contain the iteration bound of the task sequence
    want_end = add(st, mmin(num(C), sub(W, mul(num(C), idx))))
    R.same("partition", site + "/end", en, want_end, facts, "end of task i's chunk")
    # all chunks are visited
    fin = [f for t, s in li.exits for f in s.facts if contains(f, lambda x: x is idx) and f.op == "ge0" and f is not ge0(idx)]
    want = ge0(sub(mul(num(C), idx), W))
    fine = [f for t, s in li.exits for f in s.facts if contains(f, lambda x: x is idx) and f is not ge0(idx)]
    if any(same(f, want, [ge0(idx)]) in ("id", "eq") for f in fin) or \
            any(f.op == "ite" and contains(f, lambda x: x is want.a[0] or x is ge0(sub(sub(W, mul(num(C), idx)), num(1)))) for f in fine):
        R.ok("partition", site + "/cover")
    elif fin and all(f.op == "ge0" for f in fin) and all(resolved(f) for f in fin) and run.trusted and not any(f is ge0(sub(sub(W, mul(num(C), idx)), num(1))) for f in fin):
        R.bad("partition", site + "/cover", "tasks stop when %s; the level ends at %s" % (clip(show(fin[0])), clip(show(want))))
    else:
        R.und("partition", site + "/cover", "task bound not recognised")
    R.holds("aligned", site, facts, eq_typed(sub(num(C), mul(br, div(num(C), br))), num(0), True), "chunk size must be a multiple of the arity", run)
    data = ok(app(rd.name, *rd.args))
    dcands = [x for x in subterms(hs[0].args[1]) if x.op == "fld" and x.a[1] == "Ok" and x.a[0].op in ("app", "res") and last(x.a[0].a[0]) in ("read_range", "read_range_internal")]
    if dcands:
        data = dcands[0]
    # parents
    for h in hs:
        il = innermost(run, h)
        if il is None or il is li:
            R.und("parents", site, "hashing not in an inner loop")
            continue
        j = mk("idx", il.header)
        group(R, "parents", site + "/group", h.args[1], data, j, br, list(h.facts))
        R.same("parents", site + "/height", h.args[2], LV, h.facts, "height passed to the hash")
    n = div(add(vlen(data), sub(br, num(1))), br)
    per = div(num(C), br)
    ncopies = 0
    # default implementation: copy_from_slice into the store
    for e in run.calls("Store::copy_from_slice"):
        ncopies += 1
        target_src(R, site, e.args[1], data, n, br, LV, e)
        f = list(e.facts)
        R.same("target", site + "/position", e.args[2], add(WS, mul(per, idx)), f, "position task i writes its parents to")
        R.holds("count", site, f, eq_typed(vlen(e.args[1]), mul(BL, div(mmin(num(C), sub(W, mul(num(C), idx))), br)), True), "the bytes written match the chunk", run)
    for e in run.calls("slice::copy_from_slice"):
        d = e.args[0]
        if d.op != "slice" or d.a[0].op != "mu":
            if not contains(d, lambda x: x.op == "mmap" or (x.op == "app" and x.a[0] == "mmap")) and not mus(d):
                continue
            R.und("target", site, "destination " + clip(show(d)))
            continue
        rec = run.rec(d.a[0])
        mm = rec[0] if rec else None
        ncopies += 1
        if mm is None or not (mm.op in ("mmap", "app")):
            R.und("target", site, "destination is not the mapped region")
            continue
        off = [a for a in mm.a if isinstance(a, T)]
        if len(off) >= 3:
            R.same("target", site + "/map offset", elen(off[1]), mul(BL, WS), [], "file offset of the mapped next level")
        R.same("target", site + "/position", elen(d.a[1]), mul(BL, mul(per, idx)), list(e.facts), "offset in the mapped region task i writes to")
        target_src(R, site, e.args[1], data, n, br, LV, e)
        R.holds("count", site, list(e.facts), eq_typed(vlen(e.args[1]), mul(BL, div(mmin(num(C), sub(W, mul(num(C), idx))), br)), True), "the bytes written match the chunk", run)
    if not ncopies:
        R.und("target", site, "no write found")


def target_src(R, site, src, data, n, br, LV, e):
    if src.op != "vtabx":
        return R.und("parents", site, "bytes written: " + clip(show(src)))
    cnt, bv, body = src.a[0], src.a[1], src.a[2]
    R.same("parents", site + "/number", cnt, n, [ge0(sub(br, num(2)))], "number of parents written by a task")
    if body.op == "bytes" and iscall(body.a[0], "Algorithm::multi_node"):
        a = callargs(body.a[0])
        group(R, "parents", site + "/written", a[1], data, bv, br, [])
    else:
        R.und("parents", site, "written item " + clip(show(body)))
