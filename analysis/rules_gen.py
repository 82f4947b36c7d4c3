"""Proof generation: sibling paths, compound routing, cached proofs, level tags."""
import eqv
from fw import *
import rules_tree as RT
from rules_tree import M, QL, okleaves, fields
from rules_proof import spliced, b01, lastof

BASE = mk("tysym", "BaseTreeArity")
SUBA = mk("tysym", "SubTreeArity")
TOPA = mk("tysym", "TopTreeArity")
KK = mk("arg", 80, "k")
LEN = "merkle::get_merkle_tree_len"
LEAFS = "merkle::get_merkle_tree_leafs"
CACHE = "merkle::get_merkle_tree_cache_size"
ROWS = "merkle::get_merkle_tree_row_count"
DEFR = "store::StoreConfig::default_rows_to_discard"


def store_of(S):
    return projs(fld(S, "data"), (("d", "BaseTree"), ("f", "0")))


def trees_of(S, var):
    return projs(fld(S, "data"), (("d", var), ("f", "0")))


def isproof(v):
    return v.op == "agg" and v.a[0].endswith("Proof")


def kind(S, lits):
    d = fld(S, "data")
    b, u = mk("is", d, "BaseTree"), mk("is", d, "SubTree")
    if b in lits:
        return "BaseTree"
    if bnot(b) in lits or u in lits:
        return "SubTree" if u in lits else "TopTree" if bnot(u) in lits else None
    return None


def seqtail(nx, L):
    """nx = L ++ X -> X as a term, or None"""
    if nx.op == "vext" and nx.a[0] is L:
        return nx.a[1]
    return None


def starts(li, terms, init, facts, skip=()):
    """loop variables among `terms` whose initial value is `init` (strongest identification available)"""
    ms = [m for m in li.cells if m in terms and m not in skip]
    for f in (lambda x: su(x, facts) is init or x is init,
              lambda x: same(su(x, facts), init, []) in ("id", "eq"),
              lambda x: same(su(x, facts), init, facts) in ("id", "eq")):
        c = [m for m in ms if f(li.cells[m][0])]
        if c:
            return c
    return []


def pick(R, run, li, terms, init, want, site, role, facts):
    """the loop variable playing a role: identified by its initial value, its step must be as required"""
    for c in (starts(li, terms, init, facts),):
        good = [m for m in c if same(li.cells[m][1], want(m), []) in ("id", "eq")]
        if good:
            if len(good) > 1 and any(li.cells[m][0] is not li.cells[good[0]][0] for m in good):
                return None
            R.ok("recurrence", site + "/" + role)
            return good[0]
    return None


def su(t, lits):
    for l in lits:
        if l.op == "is" or (l.op == "not" and l.a[0].op == "is"):
            t = engine.under(t, l)
    return t


def closure(run, li, ts):
    """loop variables the terms depend on, through their recurrences"""
    seen = set()
    todo = [m for t in ts for m in mus(t) if m in li.cells]
    while todo:
        m = todo.pop()
        if m in seen:
            continue
        seen.add(m)
        todo += [x for x in mus(li.cells[m][1]) if x in li.cells]
    return seen


def walk(R, run, S, I, lits, pf, site, reads):
    """the upward walk of a base proof; reads(K, J, Base, extra) -> spec of the K-th sibling"""
    f = fields(pf)
    st = store_of(S)
    lem = f["lemma"]
    if lem.op == "vpush" and lem.a[0].op == "mu":
        L, last = lem.a
    else:
        if mus(lem) or not resolved(lem):
            return R.und("siblings", site, "lemma has an unrecognised form " + clip(show(lem)))
        return R.bad("siblings", site, "the proof's lemma %s is not leaf, siblings per level, root" % clip(show(lem)))
    R.same("root-last", site, last, fld(S, "root"), lits, "last lemma entry")
    li = run.loop_of(L)
    init, nx, _ = li.cells[L]
    leaf = ok(app("Store::read_at", st, I))
    R.same("leaf-first", site, init, mk("vpush", mk("vnew"), leaf), lits, "first lemma entry")
    P = f["path"]
    X = seqtail(nx, L)
    if X is None:
        if resolved(nx) and nx is not L:
            R.und("siblings", site, "lemma step " + clip(show(nx)))
        else:
            R.und("siblings", site, "lemma step")
        return
    pn = li.cells[P][1] if P in li.cells else None
    deps = closure(run, li, [X] + ([pn] if pn is not None else []))
    leafs = fld(S, "leafs")
    J = pick(R, run, li, deps, I, lambda m: div(m, BASE), site, "index", lits)
    W = pick(R, run, li, deps, leafs, lambda m: div(m, BASE), site, "width", lits)
    Bs = pick(R, run, li, deps, num(0), lambda m: add(m, W), site, "base", lits) if W is not None else None
    # unrecognised recurrences: by initial value
    for name, got, ini, want in (("index", J, I, lambda m: div(m, BASE)), ("width", W, leafs, lambda m: div(m, BASE)), ("base", Bs, num(0), (lambda m: add(m, W)) if W is not None else None)):
        if got is None and want is not None:
            c = starts(li, deps, ini, lits, (L, P))
            if len(c) == 1:
                facts = [ge0(c[0]), ge0(sub(BASE, num(2)))]
                R.same("recurrence", site + "/" + name, li.cells[c[0]][1], want(c[0]), facts, "step of the %s up one level" % name)
            else:
                R.und("recurrence", site + "/" + name, "no single loop variable starts at " + show(ini))
    if J is None or W is None or Bs is None:
        return
    facts = [ge0(KK), ge0(sub(sub(BASE, num(2)), KK)), ge0(sub(BASE, num(2))), ge0(J), ge0(Bs), ge0(W)]
    R.same("siblings", site + "/count", vlen(X), sub(BASE, num(1)), facts, "number of siblings added per level")
    reads(R, run, site, elem(X, KK), J, Bs, li, deps, facts, lits)
    if pn is None:
        R.und("path", site, "path " + clip(show(P)))
    else:
        R.same("path", site + "/start", li.cells[P][0], mk("vnew"), lits, "initial path")
        R.same("path", site, pn, mk("vpush", P, sub(J, mul(BASE, div(J, BASE)))), [ge0(J)], "path entry added per level")
    # number of levels
    good = False
    for t, s in li.exits:
        for x in s.facts:
            if x.op == "ge0" and same(x, ge0(sub(add(Bs, num(1)), app("Store::len", st))), []) in ("id", "eq"):
                good = True
            if x.op == "ge0" and same(x, ge0(sub(add(Bs, num(1)), fld(S, "len"))), []) in ("id", "eq"):
                good = True
            if x.op == "ge0" and same(x, ge0(sub(add(mk("idx", li.header), num(1)), fld(S, "row_count"))), []) in ("id", "eq"):
                good = True
            if x.op == "ge0" and same(x, ge0(sub(num(1), W)), []) in ("id", "eq"):
                good = True
    if good:
        R.ok("levels", site)
    else:
        R.und("levels", site, "loop bound not recognised")
    none = mk("agg", "Option", "None", (), ())
    if f["sub_tree_proof"].op == "agg" and f["sub_tree_proof"].a[1] == "None":
        R.ok("plain", site)
    elif f["sub_tree_proof"].op == "agg":
        R.bad("plain", site, "a base proof carries a nested proof")
    else:
        R.und("plain", site, "nested proof " + clip(show(f["sub_tree_proof"])))
    for n in ("top_layer_nodes", "sub_tree_layer_nodes"):
        R.same("plain", site + "/" + n, f[n], num(0), lits, "layer arity of a base proof")


def sibling_pos(J, Bs):
    r = sub(J, mul(BASE, div(J, BASE)))
    return add(Bs, add(mul(BASE, div(J, BASE)), add(KK, b01(ge0(sub(KK, r))))))


def plain_reads(S):
    st = store_of(S)

    def f(R, run, site, got, J, Bs, li, deps, facts, lits):
        want = ok(app("Store::read_at", st, sibling_pos(J, Bs)))
        R.same("siblings", site, got, want, facts, "k-th sibling at a level")
    return f


def C05(R, A):
    R.rule("leaf-first", "the first lemma entry is the leaf at the requested index")
    R.rule("recurrence", "going up one level divides index and width by the arity and moves the base by the width just left")
    R.rule("siblings", "each level contributes exactly the arity-1 other nodes of the group holding the current node, in order")
    R.rule("path", "the path entry of a level is the node's position inside its group")
    R.rule("root-last", "the last lemma entry is the tree's root")
    R.rule("levels", "the walk ends exactly at the root")
    R.rule("plain", "a base tree's proof has no nested proof and no layer arities")
    K = M + "gen_proof"
    if not A.has(K):
        return R.missing(K)
    run = A.run(K, ("self", "i"), opaque=("proof::Proof::validate",))
    S, I = run.args
    n = 0
    for lits, v in okleaves(run):
        if kind(S, lits) != "BaseTree":
            continue
        site = "MerkleTree::gen_proof"
        if not isproof(v):
            if not resolved(v):
                continue
            R.und("siblings", site, "result " + clip(show(v)))
            continue
        n += 1
        walk(R, run, S, I, lits, v, site, plain_reads(S))
    if not n and not R.unds:
        R.bad("siblings", "MerkleTree::gen_proof", "no proof is ever produced for a base tree")
    R.part(proof_new, A)


def proof_new(R, A):
    """Proof::new keeps what it is given"""
    R.rule("proof-new", "a constructed proof holds the nested proof, lemma and path it was given and the layer arities of its type")
    K = "proof::Proof::new"
    if not A.has(K):
        return R.missing(K)
    run = A.run(K, ("sub_tree_proof", "lemma", "path"))
    n = 0
    for lits, v in okleaves(run):
        if not isproof(v):
            R.und("proof-new", "Proof::new", clip(show(v)))
            continue
        n += 1
        f = fields(v)
        for nm, a in zip(("sub_tree_proof", "lemma", "path"), run.args):
            R.same("proof-new", "Proof::new/" + nm, f[nm], a, lits, nm + " kept by the proof")
        tl = [k for k in ("top_layer_nodes", "sub_tree_layer_nodes")]
        for nm, ty in (("top_layer_nodes", "TopLayerArity"), ("sub_tree_layer_nodes", "SubTreeArity")):
            R.same("proof-new", "Proof::new/" + nm, f[nm], mk("tysym", ty), lits, nm + " kept by the proof")
    for K, nm in (("proof::Proof::top_layer_nodes", "top_layer_nodes"), ("proof::Proof::sub_layer_nodes", "sub_tree_layer_nodes")):
        if not A.has(K):
            R.missing(K)
            continue
        r = A.run(K, ("self",))
        R.same("proof-new", short_fn(K), r.eng.deep(r.st, r.ret), fld(r.args[0], nm), [], nm)


# ---------------------------------------------------------------- C06
def uniform(t, S, trees, ar):
    """sub trees have equal leaf counts q and the compound tree arity*q (checked at construction)"""
    m = {}
    for x in subterms(t):
        if x.op == "fld" and x.a[1] == "" and x.a[2] == "leafs" and x.a[0].op == "elem" and x.a[0].a[0] is trees:
            m[x] = QL
    m[fld(S, "leafs")] = mul(ar, QL)
    m[vlen(trees)] = ar
    # innermost first: indices contain the measures themselves
    for _ in range(4):
        t2 = subst(t, m)
        if t2 is t:
            break
        t = t2
        m = {x: QL for x in subterms(t) if x.op == "fld" and x.a[1] == "" and x.a[2] == "leafs" and x.a[0].op == "elem" and x.a[0].a[0] is trees}
        m[fld(S, "leafs")] = mul(ar, QL)
        m[vlen(trees)] = ar
    return t


def C06(R, A):
    R.rule("route", "leaf i of a compound tree is leaf i mod q of sub tree i div q, q being the leafs per sub tree")
    R.rule("compound-lemma", "a compound proof lists the roots of all other sub trees in order, then the tree's root")
    R.rule("compound-path", "the path of a compound proof is the index of the sub tree holding the leaf")
    R.rule("compound-arity", "a compound proof records the arities of its layers")
    for nm, extra in (("gen_proof", 0), ("gen_cached_proof", 1), ("read_at", 0)):
        R.part(route, A, nm, extra)
    R.part(delegates, A)


def route(R, A, nm, extra):
    K = M + nm
    if not A.has(K):
        return R.missing(K)
    op = ("gen_proof_with_partial_tree", "build_partial_tree")
    run = A.run(K, ("self", "i") + (("rows",) if extra else ()), opaque=op)
    S, I = run.args[:2]
    seen = set()
    for lits, v in okleaves(run):
        k = kind(S, lits)
        if k not in ("SubTree", "TopTree"):
            continue
        site = "MerkleTree::%s/%s" % (nm, k)
        ar = SUBA if k == "SubTree" else TOPA
        trees = trees_of(S, k)
        U = lambda t: uniform(t, S, trees, ar)
        facts = [U(x) for x in lits if x.op in ("ge0", "eq", "eq0") and not mus(x)] + [ge0(I), ge0(sub(QL, num(1))), ge0(sub(ar, num(1))), ge0(sub(sub(mul(ar, QL), I), num(1)))]
        facts = [x for x in facts if not calls_in(x, K)]
        want_tree = elem(trees, div(I, QL))
        want_leaf = sub(I, mul(QL, div(I, QL)))
        inner = None
        if nm == "read_at":
            c = v
            if c.op == "fld" and c.a[1] == "Ok":
                c = c.a[0]
            if iscall(c, K):
                inner = callargs(c)
        elif isproof(v):
            f = fields(v)
            sp = f["sub_tree_proof"]
            if sp.op == "agg" and sp.a[1] == "Some" and sp.a[3][0].op == "fld" and iscall(sp.a[3][0].a[0], K):
                inner = callargs(sp.a[3][0].a[0])
            elif sp.op == "agg" and sp.a[1] == "None":
                R.bad("route", site, "a compound proof is produced without a nested proof")
        if inner is None:
            if not resolved(v):
                continue
            if nm == "read_at" and run.trusted and not mus(v):
                R.bad("route", site, "leaf %s is not read from a sub tree" % clip(show(v)))
            else:
                R.und("route", site, "not a delegation to a sub tree: " + clip(show(v)))
            continue
        seen.add(k)
        R.same("route", site + "/tree", U(inner[0]), want_tree, facts, "sub tree the leaf is looked up in")
        R.same("route", site + "/leaf", U(inner[1]), want_leaf, facts, "leaf index inside the sub tree")
        if extra:
            R.same("route", site + "/rows", inner[2], run.args[2], facts, "rows_to_discard handed to the sub tree")
        if nm == "read_at":
            continue
        q = div(I, QL)
        want = mk("vpush", mk("vtab", sub(ar, num(1)), BVX, fld(elem(trees, add(BVX, b01(ge0(sub(BVX, q))))), "root")), fld(S, "root"))
        R.same("compound-lemma", site, U(f["lemma"]), want, facts, "lemma of a compound proof")
        R.same("compound-path", site, U(f["path"]), mk("vpush", mk("vnew"), q), facts, "path of a compound proof")
        R.same("compound-arity", site + "/top", f["top_layer_nodes"], TOPA, lits, "top layer arity recorded")
        R.same("compound-arity", site + "/sub", f["sub_tree_layer_nodes"], SUBA, lits, "sub tree layer arity recorded")
    for k in ("SubTree", "TopTree"):
        if k not in seen and not R.unds:
            R.bad("route", "MerkleTree::%s/%s" % (nm, k), "no successful case for this kind of compound tree")


BVX = mk("bv", "route")


def delegates(R, A):
    """reads on a base tree go to its store with the caller's arguments"""
    R.rule("delegate", "reads on a base tree are served by its store for exactly the range requested")
    for nm, args in (("read_at", 1), ("read_range", 2), ("read_range_into", 3), ("read_into", 2)):
        K = M + nm
        if not A.has(K):
            R.missing(K)
            continue
        run = A.run(K)
        S = run.args[0]
        st = store_of(S)
        site = "MerkleTree::" + nm
        want = list(run.args[1:])
        evs = [e for e in run.events if e.kind == "call" and e.name.startswith("Store::read")]
        if not evs:
            R.bad("delegate", site, "the tree's store is never read") if run.trusted else R.und("delegate", site, "no store read recognised")
            continue
        for e in evs:
            if e.args[0] is not st:
                R.bad("delegate", site, "reads from %s" % clip(show(e.args[0]))) if resolved(e.args[0]) else R.und("delegate", site, "store")
                continue
            if e.name != "Store::" + nm:
                if nm in ("read_range",) and e.name == "Store::read_at":
                    R.und("delegate", site, "served by " + e.name)
                    continue
                R.und("delegate", site, "served by " + e.name)
                continue
            if nm == "read_range":
                r = e.args[1]
                if r.op == "agg" and len(r.a[3]) >= 2:
                    for j in (0, 1):
                        R.same("delegate", site + "/%d" % j, r.a[3][j], want[j], e.facts, "bound of the range read")
                else:
                    R.und("delegate", site, "range " + clip(show(r)))
                continue
            for j, w in enumerate(want):
                g = e.args[1 + j]
                if nm.endswith("into") and j == len(want) - 1:
                    continue
                R.same("delegate", site + "/%d" % j, g, w, e.facts, "argument of the store read")


# ---------------------------------------------------------------- C07
def C07(R, A):
    R.rule("range", "a successful leaf lookup or proof implies the index is below the tree's leaf count")
    for nm in ("gen_proof", "gen_cached_proof", "read_at"):
        R.part(inrange, A, nm)


def inrange(R, A, nm):
    K = M + nm
    if not A.has(K):
        return R.missing(K)
    run = A.run(K, ("self", "i") + (("rows",) if nm == "gen_cached_proof" else ()))
    S, I = run.args[:2]
    goal = ge0(sub(sub(fld(S, "leafs"), I), num(1)))
    n = 0
    for lits, v in okleaves(run):
        if not resolved(v) and not isproof(v):
            continue
        k = kind(S, lits) or "?"
        site = "MerkleTree::%s/%s" % (nm, k)
        if nm == "read_at" and k == "BaseTree":
            c = v.a[0] if v.op == "fld" else v
            if iscall(c, "Store::read_at"):
                R.ok("range", site, "delegated to the bounded store")
                n += 1
            continue
        n += 1
        cmp_ = [x for x in lits if x.op in ("ge0", "eq0", "eq") and not contains(x, lambda y: y.op in ("mu", "res")) and not contains(x, lambda y: iscall(y, K))]
        R.holds("range", site, cmp_, goal, "index checked against the leaf count", run)
    if not n:
        R.bad("range", "MerkleTree::" + nm, "no successful case")


# ---------------------------------------------------------------- C22
def C22(R, A):
    R.rule("segment", "the rebuilt segment is the aligned block of leafs under the cached node above the requested leaf")
    R.rule("partial", "the partial tree is built from exactly that block")
    R.rule("rows", "rows to discard: the caller's value capped by the default, or the default")
    R.rule("cached-siblings", "siblings in the data row and the cached rows come from the store, discarded rows from the partial tree at the same node")
    R.rule("recurrence", "going up one level divides index, widths and segment offset by the arity and moves both bases by the widths just left")
    R.rule("leaf-first", "the first lemma entry is the leaf at the requested index")
    R.rule("root-last", "the last lemma entry is the tree's root")
    R.rule("path", "the path entry of a level is the node's position inside its group")
    K = M + "gen_cached_proof"
    if not A.has(K):
        return R.missing(K)
    run = A.run(K, ("self", "i", "rows"), opaque=("proof::Proof::validate",))
    S, I, RW = run.args
    st = store_of(S)
    leafs = fld(S, "leafs")
    D = app(DEFR, leafs, BASE)
    RD = ite(is_variant(RW, "Some"), mk_min(D, some(RW)), D)
    CS = ok(app(CACHE, leafs, BASE, RD))
    CL = ok(app(LEAFS, CS, BASE))
    CIS = sub(ok(app(LEN, leafs, BASE)), CS)
    SW0 = div(leafs, CL)
    SS0 = mul(SW0, div(I, SW0))
    site = "MerkleTree::gen_cached_proof"
    seg = [e for e in run.events if e.kind == "call" and e.name == "Store::read_range_into"]
    for e in seg:
        if e.args[0] is not st:
            R.bad("segment", site, "the segment is read from " + clip(show(e.args[0]))) if resolved(e.args[0]) else R.und("segment", site, "store")
            continue
        fc = e.facts
        R.same("segment", site + "/start", e.args[1], SS0, fc, "start of the segment read")
        R.same("segment", site + "/end", e.args[2], add(SS0, SW0), fc, "end of the segment read")
        R.same("segment", site + "/buffer", vlen(e.args[3]), mul(SW0, BL), fc, "size of the segment buffer")
    if not seg:
        R.und("segment", site, "no segment read recognised")
    for e in run.calls("Store::build"):
        R.same("partial", site + "/leafs", e.args[1], SW0, e.facts, "leafs of the partial tree")
        partial_rows(R, run, site, S, e, SW0)
        d = e.args[0]
        src = [x for x in subterms(d) if iscall(x, "mut3:Store::read_range_into")]
        if src:
            buf = src[0]
            v = fld(d, "0")
            n = vlen(v)
            R.same("partial", site + "/count", n, div(vlen(buf), BL), e.facts, "number of leafs in the partial tree")
            x = elem(v, KK)
            if iscall(x, "Element::from_slice"):
                b = callargs(x)[0]
                if True:
                    R.same("partial", site + "/leaf", b, subseq(buf, mul(KK, BL), BL), [ge0(KK), ge0(sub(sub(div(vlen(buf), BL), KK), num(1)))] + list(e.facts), "bytes of the k-th leaf of the partial tree")
            else:
                R.und("partial", site + "/leaf", clip(show(x)))
        elif resolved(d) and run.trusted:
            R.bad("partial", site, "the partial tree is built from %s, not from the segment read" % clip(show(d)))
        else:
            R.und("partial", site, clip(show(d)))
    n = 0
    for lits, v in okleaves(run):
        if kind(S, lits) != "BaseTree":
            continue
        if not isproof(v):
            if resolved(v):
                R.und("cached-siblings", site, "result " + clip(show(v)))
            continue
        n += 1
        walk(R, run, S, I, lits, v, site, partial_reads(S, CIS, SW0, SS0))
    if not n and not R.unds:
        R.bad("cached-siblings", site, "no proof is ever produced for a base tree")


def subseq(v, start, n):
    return vslice(v, start, add(start, n))


def mk_min(a, b):
    return mmin(a, b)


def assume_ok(t):
    """t on the executions where every fallible call it depends on succeeded"""
    for c in list(engine.ite_conds(t)):
        for x in subterms(c):
            if x.op == "is" and x.a[1] == "Ok" and x.a[0].op in ("app", "res"):
                t = engine.under(t, x)
    return t


def partial_rows(R, run, site, S, e, SW0):
    """the row count the partial tree is built with is that of a tree over its leafs"""
    t = e.args[2]
    lf = [x for x in subterms(SW0) if x.op == "fld" and x.a[1] == "Ok" and iscall(x.a[0], LEAFS)]
    if len(set(lf)) != 1 or not resolved(t) or not run.trusted:
        return R.und("partial", site + "/rows", clip(show(t)))
    n = 0
    for b in (2, 4, 8, 16):
        for h in range(1, 7):
            for c in range(0, h + 1):
                over = {BASE: num(b), fld(S, "leafs"): num(b ** h), fld(S, "row_count"): num(h + 1), lf[0]: num(b ** c)}
                try:
                    for x in sorted([x for x in subterms(t) if iscall(x, ROWS)], key=lambda x: x.id):
                        w = eqv.Val(n, dict(over)).go(callargs(x)[0])
                        k = [k for k in range(0, 8) if b ** k == w]
                        if not k:
                            return R.und("partial", site + "/rows", clip(show(x)))
                        over[x] = num(k[0] + 1)
                    got = eqv.Val(n, dict(over)).go(t)
                except eqv.Un:
                    return R.und("partial", site + "/rows", clip(show(t)))
                n += 1
                if got != h - c + 1:
                    return R.bad("partial", site + "/rows", "the partial tree is built with row count %s" % clip(show(t)), {"branches": b, "leafs": b ** h, "cached leafs": b ** c, "got": got, "want": h - c + 1}, e.sp)
    R.ok("partial", site + "/rows", "%d shapes" % n)


def partial_reads(S, CIS, SW0, SS0):
    st = store_of(S)

    def f(R, run, site, got, J, Bs, li, deps, facts, lits):
        m = {}
        for x in subterms(got):
            if x.op == "fld" and x.a[1] == "Ok" and iscall(x.a[0], "Store::read_at") and callargs(x.a[0])[0] is st:
                m[x] = app("MAIN", callargs(x.a[0])[1])
            elif x.op == "elem" and contains(x.a[0], lambda y: iscall(y, "mut0:Store::build")):
                m[x] = app("PARTIAL", x.a[1])
        g = assume_ok(subst(got, m))
        pos = sibling_pos(J, Bs)
        SWm = pick(R, run, li, deps, SW0, lambda x: div(x, BASE), site, "segment width", lits)
        SSm = pick(R, run, li, deps, SS0, lambda x: div(x, BASE), site, "segment offset", lits)
        PB = pick(R, run, li, deps, num(0), lambda x: add(x, SWm), site, "partial base", lits) if SWm is not None else None
        leafs = fld(S, "leafs")
        cs = [y for y in lits if y.op == "is" and not mus(y)]
        base = list(facts) + cs + [ge0(sub(CIS, leafs))]
        R.same("cached-siblings", site + "/cached", g, app("MAIN", pos), base + [ge0(sub(pos, CIS)), ge0(sub(pos, leafs))], "sibling inside the cached rows")
        if SSm is None or PB is None:
            for name, ini, got_, w in (("segment width", SW0, SWm, lambda x: div(x, BASE)), ("segment offset", SS0, SSm, lambda x: div(x, BASE)), ("partial base", num(0), PB, (lambda x: add(x, SWm)) if SWm is not None else None)):
                if got_ is None and w is not None:
                    c = starts(li, deps, ini, lits, (J, Bs))
                    if len(c) == 1:
                        R.same("recurrence", site + "/" + name, li.cells[c[0]][1], w(c[0]), [ge0(c[0]), ge0(sub(BASE, num(2)))], "step of the %s up one level" % name)
                    else:
                        R.und("recurrence", site + "/" + name, "no single loop variable starts at " + clip(show(ini)))
            return
        p = app("PARTIAL", sub(add(PB, sub(pos, Bs)), SSm))
        base += [ge0(PB), ge0(SSm), ge0(sub(sub(pos, Bs), SSm))]
        R.same("cached-siblings", site + "/discarded", g, p, base + [ge0(sub(sub(CIS, pos), num(1))), ge0(sub(pos, leafs))], "sibling inside the discarded rows")
        lo = base + [ge0(sub(sub(leafs, pos), num(1)))]
        r1 = same(g, app("MAIN", pos), lo)
        r2 = same(g, p, lo)
        if r1 in ("id", "eq") or r2 in ("id", "eq"):
            R.ok("cached-siblings", site + "/data row")
        elif isinstance(r1, tuple) and isinstance(r2, tuple):
            R.bad("cached-siblings", site + "/data row", "a sibling leaf is read from the wrong place: %s" % clip(show(g)), r1[1])
        else:
            R.und("cached-siblings", site + "/data row", clip(show(g)))
    return f


# ---------------------------------------------------------------- C04
def C04(R, A):
    R.rule("layer", "a layer's nodes are tagged with the level its caller passed")
    R.rule("build", "building tags the k-th level above the leafs with k, counting from 0")
    R.rule("verify", "verification tags the k-th level above the leaf with k, counting from 0")
    R.rule("compound", "the node above sub trees carries the same tag when built and when verified")
    import rules_build as RB
    for K in RB.LAYERS:
        if not A.has(K):
            R.missing(K)
            continue
        R.part(h_layer, A, K)
    for K in RB.BUILDS:
        if not A.has(K):
            R.missing(K)
            continue
        R.part(h_build, A, K)
    R.part(h_verify, A)
    for nm in ("from_trees", "from_sub_trees", "from_sub_trees_as_trees"):
        R.part(h_compound, A, nm)


def level_is(R, run, rule, site, h, idx, facts, msg):
    ms = [m for m in mus(h)]
    if ms:
        for m in ms:
            rec = run.rec(m)
            if h is m and rec is not None and same(rec[1], add(m, num(1)), []) in ("id", "eq") and rec[0].op == "int":
                return R.ok(rule, site) if rec[0] is num(0) else R.bad(rule, site, "%s starts at %s instead of 0" % (msg, show(rec[0])))
        return R.und(rule, site, "tag " + clip(show(h)))
    R.same(rule, site, h, idx, list(facts) + [ge0(idx)], msg)


def h_layer(R, A, K):
    import rules_build as RB
    run = A.run(K, None, opaque=RB.READS)
    lv = [a for a in run.args if a.a[1] == "level"]
    lv = lv[0] if lv else run.args[2]
    ev = run.calls("Algorithm::multi_node")
    for e in ev:
        R.same("layer", short_fn(K), e.args[2], lv, e.facts, "tag of the nodes of a layer")
    if not ev:
        R.und("layer", short_fn(K), "no node hash recognised")


def h_build(R, A, K):
    import rules_build as RB
    run = A.run(K, None, opaque=RB.READS)
    site = short_fn(K)
    n = 0
    for e in run.calls("Store::process_layer"):
        li = RB.outer(run, e)
        if li is None:
            R.und("build", site, "layer outside a loop")
            continue
        n += 1
        level_is(R, run, "build", site, e.args[2], mk("idx", li.header), e.facts, "level passed for the k-th layer")
    for e in run.calls("Algorithm::multi_node"):
        li = RB.outer(run, e)
        if li is None:
            R.und("build", site, "node hash outside a loop")
            continue
        n += 1
        level_is(R, run, "build", site, e.args[2], mk("idx", li.header), e.facts, "tag of the k-th layer")
    if not n:
        R.und("build", site, "no layer recognised")


def h_verify(R, A):
    import rules_build as RB
    for nm in ("validate",):
        K = "proof::Proof::" + nm
        if not A.has(K):
            return R.missing(K)
        run = A.run(K, ("self",))
        nb = nc = 0
        for e in run.calls("Algorithm::multi_node"):
            if e.loops:
                li = RB.outer(run, e)
                nb += 1
                level_is(R, run, "verify", "Proof::" + nm, e.args[2], mk("idx", li.header), e.facts, "tag of the k-th recomputed level")
            else:
                nc += 1
                R.same("compound", "Proof::" + nm, e.args[2], num(1), e.facts, "tag of the recomputed compound node")
        if not nb:
            R.und("verify", "Proof::" + nm, "no recomputed level recognised")
        if not nc:
            R.und("compound", "Proof::" + nm, "no recomputed compound node recognised")


def h_compound(R, A, nm):
    K = M + nm
    if not A.has(K):
        return R.missing(K)
    run = A.run(K)
    ev = run.calls("Algorithm::multi_node")
    for e in ev:
        R.same("compound", "MerkleTree::" + nm, e.args[2], num(1), e.facts, "tag of the compound root")
    if not ev:
        R.und("compound", "MerkleTree::" + nm, "no node hash recognised")
