"""Proof acceptance, hashing discipline and proof generation."""
from fw import *

B = mk("tysym", "BaseTreeArity")
BV = mk("bv", "spec")
HD = None


def b01(c):
    return ite(c, num(1), num(0))


def fresh(t):
    return t.op == "default"


def sub_of(self):
    return some(fld(self, "sub_tree_proof"))


def lemma(self):
    return fld(self, "lemma")


def path(self):
    return fld(self, "path")


def lastof(v):
    return elem(v, sub(vlen(v), num(1)))


def spliced(n, p, x, f):
    """[ f(0).., x at p, ..f(n-2) ] of length n"""
    return mk("vtab", n, BV, ite(eq_typed(BV, p, True), x, f(sub(BV, b01(lt(p, BV))))))


def acc_lits(lits, b):
    return list(lits) + ([b] if b is not TRUE else [])


def falsy(b, lits):
    return b is FALSE or bnot(b) in lits


# ---------------------------------------------------------------- C01
def C01(R, A):
    R.rule("accept-root", "every Ok(true) of Proof::validate is guarded by recomputed-root == last lemma entry")
    R.rule("accept-sub", "a compound proof is accepted only if its nested proof validates")
    R.rule("compound-nodes", "the nodes hashed for a compound layer are the sibling roots with the nested proof's root spliced in at path[0]")
    R.rule("base-chain", "the running hash starts at the leaf and absorbs, per level, exactly the next branches-1 siblings with itself at path[level]")
    R.rule("base-all", "all siblings are consumed before the comparison; short lemmas are rejected")
    R.rule("with-data", "validate_with_data accepts only if the hashed data equals the proof's item and the proof validates")
    R.rule("accessors", "item()/root() return the leaf and the root of the proof")
    K = "proof::Proof::validate"
    if not A.has(K):
        return R.missing(K)
    run = A.run(K, ("self",))
    S = run.args[0]
    nacc = 0
    for lits, v in run.leaves():
        if v.op != "agg":
            if iscall(v, K) or v.op in ("phi", "bot", "undef"):
                R.und("accept-root", "Proof::validate", "returns " + clip(show(v)))
                if iscall(v, K):
                    R.bad("accept-root", "Proof::validate", "acceptance is delegated to %s without comparing this layer's root" % clip(show(v)))
            continue
        if v.a[1] != "Ok":
            continue
        b = v.a[3][0]
        if falsy(b, lits):
            continue
        nacc += 1
        check_accept(R, run, S, lits, b, "Proof::validate")
    if nacc < 2:
        R.bad("accept-root", "Proof::validate", "fewer than two accepting cases (base and compound proofs) remain in validate: proofs of one kind can never be accepted")
    with_data(R, A)
    accessors(R, A)


def check_accept(R, run, S, lits, b, site):
    L = lemma(S)
    cands = []
    if b.op == "eq":
        cands.append(b)
    cands += [l for l in lits if l.op == "eq"]
    if not cands:
        if not resolved(b):
            return R.und("accept-root", site, "result not resolved " + clip(show(b)))
        return R.bad("accept-root", site, "accepts (%s) without comparing a recomputed root against the proof's root; conditions: %s" % (clip(show(b)), clip("; ".join(show(l) for l in lits))))
    root = lastof(L)
    hs = []
    for e in cands:
        for x, y in ((e.a[0], e.a[1]), (e.a[1], e.a[0])):
            if same(x, root, lits) in ("id", "eq"):
                hs.append(y)
    if not hs:
        if all(resolved(e) for e in cands):
            return R.bad("accept-root", site, "the accepting comparison %s does not involve the proof's root" % clip(show(cands[0])))
        return R.und("accept-root", site, "comparison not resolved")
    R.ok("accept-root", site)
    h = hs[0]
    compound = fld(S, "sub_tree_proof")
    if is_variant(compound, "Some") in lits:
        okl = [l for l in acc_lits(lits, b) if l.op == "fld" and l.a[1] == "Ok" and iscall(l.a[0], "proof::Proof::validate") and callargs(l.a[0])[0] is sub_of(S)]
        if not okl:
            R.bad("accept-sub", site, "a compound proof is accepted although its nested proof was not required to validate; conditions: %s" % clip("; ".join(show(l) for l in lits)))
        else:
            R.ok("accept-sub", site)
        if not iscall(h, "Algorithm::multi_node"):
            if resolved(h) and not mus(h):
                R.bad("compound-nodes", site, "compound root compared with %s, not with a recomputed node" % clip(show(h)))
            else:
                R.und("compound-nodes", site, "recomputed node not resolved: " + clip(show(h)))
            return
        nodes = callargs(h)[1]
        n = ite(eq_typed(fld(S, "top_layer_nodes"), num(0), True), fld(S, "sub_tree_layer_nodes"), fld(S, "top_layer_nodes"))
        n = eqv_under(n, lits)
        p = elem(path(S), num(0))
        want = spliced(n, p, lastof(lemma(sub_of(S))), lambda k: elem(L, k))
        lits = list(lits) + [ge0(p)]
        if mus(nodes):
            R.und("compound-nodes", site, "nodes not in closed form")
            if holds(lits, lt(p, n)) not in ("proved", "eq"):
                R.und("compound-slot", site, "nodes not in closed form")
                return
        else:
            R.same("compound-nodes", site, nodes, want, lits, "nodes hashed for the compound layer")
        R.holds("compound-slot", site, lits, lt(p, n), "the nested root's slot lies inside the layer", run)
        return
    # base proof
    if h.op != "mu":
        if iscall(h, "Algorithm::multi_node") or not resolved(h):
            return R.und("base-chain", site, "recomputed root has an unrecognised form " + clip(show(h)))
        return R.bad("base-chain", site, "the proof's root is compared with %s, which is not recomputed from the lemma" % clip(show(h)))
    li = run.loop_of(h)
    init, nx, _ = li.cells[h]
    idx = mk("idx", li.header)
    R.same("base-chain", site + "/start", init, elem(L, num(0)), lits, "starting value of the running hash")
    if not iscall(nx, "Algorithm::multi_node"):
        if nx is h or (resolved(nx) and not contains(nx, lambda x: iscall(x, "Algorithm::multi_node"))):
            return R.bad("base-chain", site, "the running hash is not recomputed per level (next value %s)" % clip(show(nx)))
        return R.und("base-chain", site, "next value " + clip(show(nx)))
    nodes = callargs(nx)[1]
    want = spliced(B, elem(path(S), idx), h, lambda k: elem(L, add(num(1), add(mul(idx, sub(B, num(1))), k))))
    facts = [ge0(idx)] + [f for f in lits if f.op != "exit"]
    if [m for m in mus(nodes) if m is not h]:
        R.und("base-chain", site, "nodes not in closed form " + clip(show(nodes)))
    else:
        R.same("base-chain", site + "/nodes", nodes, want, facts, "nodes hashed at level k")
    # loop runs over the whole lemma
    ex = [s for t, s in li.exits]
    size = vlen(L)
    good = False
    seen = []
    for t, s in li.exits:
        for f in s.facts:
            if f.op == "ge0" and contains(f, lambda x: x is idx) and contains(f, lambda x: x is size):
                seen.append(f)
                want = ge0(sub(add(num(1), mul(idx, sub(B, num(1)))), sub(size, num(1))))
                r = same(f, want, [ge0(idx), ge0(sub(B, num(2))), ge0(sub(size, num(2)))])
                if r in ("id", "eq"):
                    good = True
    if good:
        R.ok("base-all", site)
    elif seen:
        R.bad("base-all", site, "the level loop stops when %s; all siblings 1..len-1 must be consumed" % clip(show(seen[0])))
    else:
        R.und("base-all", site, "loop bound not recognised")
    R.holds("base-all", site + "/short", [l for l in lits if l.op != "exit"], ge0(sub(size, num(2))), "a lemma shorter than leaf+root is rejected", run)


def eqv_under(t, lits):
    for l in lits:
        t = engine.under(t, l)
    return t


def with_data(R, A):
    K = "proof::Proof::validate_with_data"
    if not A.has(K):
        return R.missing(K)
    run = A.run(K, ("self", "leaf_data"), opaque=("proof::Proof::validate", "proof::Proof::item"))
    S, D = run.args
    site = "Proof::validate_with_data"
    n = 0
    for lits, v in run.leaves():
        if v.op == "agg" and v.a[1] != "Ok":
            continue
        if v.op == "agg":
            b = v.a[3][0]
            if falsy(b, lits):
                continue
            vals = [l for l in lits if l.op == "fld" and l.a[1] == "Ok" and iscall(l.a[0], "proof::Proof::validate")]
            if b.op == "fld" and b.a[1] == "Ok" and iscall(b.a[0], "proof::Proof::validate"):
                vals.append(b)
            if not vals:
                if resolved(b):
                    R.bad("with-data", site, "accepts data although the proof itself was not required to validate")
                else:
                    R.und("with-data", site, "result not resolved")
                continue
            call = vals[0].a[0]
        elif iscall(v, "proof::Proof::validate"):
            call = v
            b = TRUE
        else:
            R.und("with-data", site, "result " + clip(show(v)))
            continue
        n += 1
        if callargs(call)[0] is not S:
            R.bad("with-data", site, "validates %s instead of this proof" % clip(show(callargs(call)[0])))
            continue
        want_leaf = None
        okc = False
        eqs = [l for l in acc_lits(lits, b) if l.op == "eq"]
        for e in eqs:
            for x, y in ((e.a[0], e.a[1]), (e.a[1], e.a[0])):
                if iscall(y, "proof::Proof::item") and callargs(y)[0] is S and iscall(x, "Algorithm::leaf"):
                    h0, data = callargs(x)
                    if fresh(h0) and iscall(data, "Algorithm::hash") and iscall(callargs(data)[0], "mut1:Hashable::hash") \
                            and callargs(callargs(data)[0])[0] is D and fresh(callargs(callargs(data)[0])[1]):
                        okc = True
        if okc:
            R.ok("with-data", site)
        elif not eqs:
            R.bad("with-data", site, "accepts without comparing the hash of the supplied data with the proof's leaf")
        elif all(resolved(e) for e in eqs) and run.trusted:
            R.bad("with-data", site, "the comparison %s is not leaf-hash(data) == leaf of the proof" % clip(show(eqs[0])))
        else:
            R.und("with-data", site, "comparison not resolved")
    if not n:
        R.bad("with-data", site, "no accepting case: valid data can never be accepted")


def accessors(R, A):
    for K, want in (("proof::Proof::root", lambda S: lastof(lemma(S))),
                    ("proof::Proof::item", None), ("proof::Proof::lemma", lambda S: lemma(S)), ("proof::Proof::path", lambda S: path(S))):
        if not A.has(K):
            R.missing(K)
            continue
        run = A.run(K, ("self",))
        S = run.args[0]
        got = deref(run, run.ret)
        if want is not None:
            R.same("accessors", short_fn(K), got, want(S), [])
            continue
        spec = ite(is_variant(fld(S, "sub_tree_proof"), "Some"), app("proof::Proof::item", sub_of(S)), elem(lemma(S), num(0)))
        R.same("accessors", short_fn(K), got, spec, [], "leaf returned by item()")


def deref(run, v):
    return run.eng.deep(run.st, v) if run.st is not None else v
