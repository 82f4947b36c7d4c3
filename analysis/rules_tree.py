"""Tree construction invariants, index routing, accessors."""
from fw import *
import rules_build as RB

BASE = mk("tysym", "BaseTreeArity")
SUBA = mk("tysym", "SubTreeArity")
TOPA = mk("tysym", "TopTreeArity")
M = "merkle::MerkleTree::"
PI = "<merkle::MerkleTree as merkle::FromIndexedParallelIterator>::"
TLEN = "merkle::get_merkle_tree_len"
ROWS = "merkle::get_merkle_tree_row_count"
VALID = "merkle::is_merkle_tree_size_valid"


def fields(v):
    return dict(zip(v.a[2], v.a[3]))


def istree(v):
    return v.op == "agg" and v.a[0].endswith("MerkleTree")


def okleaves(run):
    for lits, v in run.leaves():
        if v.op == "agg" and v.a[1] == "Err":
            continue
        if v.op == "agg" and v.a[1] == "Ok":
            yield lits, v.a[3][0]
        else:
            yield lits, v


def tlen(L, a=BASE):
    return ok(app(TLEN, L, a))


def base_tree(R, site, v, facts, run, guards=True, partial=False):
    """an instantiated base tree describes exactly the store it holds"""
    f = fields(v)
    L = f["leafs"]
    R.same("len", site, f["len"], tlen(L), facts, "recorded node count")
    d = f["data"]
    if d.op != "agg" or d.a[1] != "BaseTree":
        if d.op == "agg":
            R.bad("store", site, "a base tree is built with %s data" % d.a[1])
        else:
            R.und("store", site, clip(show(d)))
        return None
    st = d.a[3][0]
    root = f["root"]
    rc = f["row_count"]
    good = False
    pre = None
    for t in subterms(root):
        if iscall(t, "Store::build"):
            pre = t
            break
    if root.op == "fld" and root.a[1] == "Ok":
        c = root.a[0]
        if iscall(c, "Store::build"):
            a = callargs(c)
            if st is mk("app", "mut0:Store::build", *a):
                R.ok("root", site, "root returned by the build of the held store")
            elif resolved(st):
                R.bad("root", site, "the root was built from %s, but the tree holds %s" % (clip(show(a[0])), clip(show(st))))
            else:
                R.und("root", site, "store not resolved")
            R.same("leafs", site + "/built", a[1], L, facts, "leaf count the tree was built with")
            R.same("rows", site + "/built", a[2], rc, facts, "row count the tree was built with")
            good = True
        elif iscall(c, "Store::read_at"):
            a = callargs(c)
            if a[0] is not st:
                R.bad("root", site, "the root is read from %s, but the tree holds %s" % (clip(show(a[0])), clip(show(st)))) if resolved(a[0]) and resolved(st) else R.und("root", site, "store")
            else:
                R.same("root", site, lens(a[1], st, tlen(L)), lens(sub(app("Store::len", st), num(1)), st, tlen(L)), facts, "index the root is read from")
            good = True
        elif iscall(c, "Store::last"):
            a = callargs(c)
            if a[0] is st:
                R.ok("root", site)
            else:
                R.bad("root", site, "the root is read from another store: " + clip(show(a[0])))
            good = True
    if not good:
        if resolved(root) and run.trusted:
            R.bad("root", site, "the root is %s, neither built nor read from the tree's store" % clip(show(root)))
        else:
            R.und("root", site, clip(show(root)))
    if not (partial and rc.op == "arg"):
        R.same("rows", site, rc, app(ROWS, L, BASE), facts, "recorded row count")
    return st


def lens(t, st, n):
    """the store holds exactly n elements (checked where the store is created)"""
    return subst(t, {app("Store::len", st): n})


def origin(st):
    """the creation call of a store value, through builds and population"""
    t = st
    while t.op == "app" and isinstance(t.a[0], str) and t.a[0].startswith("mut0:"):
        t = t.a[1]
    if t.op == "fld" and t.a[1] == "Ok":
        t = t.a[0]
    return t


def size_guard(R, run, site, L, facts, msg="the number of leafs forms a valid tree"):
    g = app(VALID, L, BASE)
    if g in facts:
        return R.ok("guard", site)
    p2 = eq_typed(app("npow2", L), L, True)
    if holds(facts, p2) in ("proved", "eq") and holds(facts, ge0(sub(L, num(2)))) in ("proved", "eq"):
        return R.ok("guard", site)
    if run.trusted and resolved(L):
        return R.bad("guard", site, "%s is not required before the tree is returned (leafs = %s)" % (msg, clip(show(L))))
    R.und("guard", site, "guard not recognised")


def C13(R, A):
    R.rule("len", "a tree's recorded node count is the tree length of its leaf count")
    R.rule("rows", "a tree's recorded row count is derived from its leaf count (compound: one more than its sub trees)")
    R.rule("leafs", "a tree's recorded leaf count is the number of leafs supplied (compound: the sum over its sub trees)")
    R.rule("root", "a tree's root is the one built or stored in the very store the tree holds (compound: the hash of all sub tree roots in order)")
    R.rule("store", "the store of a tree is created with the tree's size from the data supplied")
    R.rule("arity", "a base tree is built with the arity of its type")
    R.rule("guard", "malformed sizes / shapes are rejected before a tree is returned")
    R.rule("accessor", "len, leafs, root, row_count and is_empty report the recorded values")
    ctors_base(R, A)
    ctors_compound(R, A)
    ctors_multi(R, A)
    accessors(R, A)


def ctors_base(R, A):
    POP = ("populate_data", "populate_data_par")
    spec = [
        (M + "from_data_store", ("data", "leafs"), "leafs", None),
        (M + "from_tree_slice", ("data", "leafs"), "leafs", "slice"),
        (M + "from_tree_slice_with_config", ("data", "leafs", "config"), "leafs", "slice"),
        (M + "from_byte_slice", ("leafs",), "bytes", "bytes"),
        (M + "from_byte_slice_with_config", ("leafs", "config"), "bytes", "bytes"),
        (M + "try_from_iter", ("into",), "iter", "iter"),
        (M + "try_from_iter_with_config", ("into", "config"), "iter", "iter"),
        (PI + "from_par_iter", ("into",), "iter", "iter"),
        (PI + "from_par_iter_with_config", ("into", "config"), "iter", "iter"),
        (M + "build_partial_tree", ("data", "leafs", "row_count"), "leafs", "partial"),
    ]
    for K, names, how, src in spec:
        if not A.has(K):
            R.missing(K)
            continue
        run = A.run(K, names, opaque=POP)
        site = short_fn(K)
        arg = dict(zip(names, run.args))
        n = 0
        for lits, v in okleaves(run):
            if not istree(v):
                R.und("len", site, "result " + clip(show(v)))
                continue
            n += 1
            f = fields(v)
            L = f["leafs"]
            want = arg["leafs"] if how == "leafs" else div(vlen(arg["leafs"]), BL) if how == "bytes" else None
            if want is None:
                # iterators: the announced number of items
                want = vlen(arg["into"])
            R.same("leafs", site, L, want, lits, "recorded leaf count")
            st = base_tree(R, site, v, lits, run, partial=src == "partial")
            if src in (None, "slice"):
                for a_ in (SUBA, TOPA):
                    R.holds("guard", site + "/plain", lits, eq0(a_), "a tree with further layers is not made from the data of one store (%s)" % show(a_), run)
            size_guard(R, run, site, L, lits)
            if st is None:
                continue
            o = origin(st)
            cfg = arg.get("config")
            if src in ("slice", "bytes", "iter"):
                created(R, site, o, st, tlen(L), arg, src, cfg, lits, run)
            if src == "slice":
                R.holds("guard", site + "/data length", lits, eq_typed(div(vlen(arg["data"]), BL), tlen(L), True), "the data supplied has the length of the whole tree", run)
            if src == "bytes":
                R.holds("guard", site + "/data length", lits, eq_typed(vlen(arg["leafs"]), mul(BL, div(vlen(arg["leafs"]), BL)), True), "the data supplied is a whole number of elements", run)
            if src is None:
                R.holds("guard", site + "/store length", lits, eq_typed(app("Store::len", arg["data"]), tlen(L), True), "the store holds exactly the whole tree", run)
                if st is arg["data"]:
                    R.ok("store", site)
                else:
                    R.bad("store", site, "the tree holds %s instead of the store supplied" % clip(show(st)))
        RB.arities(R, run, site, "build", "BaseTreeArity", "the tree is built")
        if not n and not R.unds:
            R.bad("guard", site, "constructor never returns a tree")


def created(R, site, o, st, size, arg, src, cfg, facts, run):
    if not (o.op in ("app", "res") and o.a[0].startswith("Store::new")):
        return R.und("store", site, "store comes from " + clip(show(o)))
    a = callargs(o)
    R.same("store", site + "/size", a[0], size, facts, "size the store is created with")
    nm = o.a[0]
    want_cfg = nm.endswith("_with_config")
    if cfg is not None:
        if not want_cfg:
            R.bad("store", site + "/config", "the supplied configuration is ignored (%s)" % nm)
        else:
            R.same("store", site + "/config", a[-1], cfg, facts, "configuration the store is created with")
            R.same("store", site + "/arity", a[1], BASE, facts, "arity the store is created with")
    data = arg.get("data") if src == "slice" else arg.get("leafs") if src == "bytes" else None
    if data is not None:
        if "from_slice" not in nm:
            return R.und("store", site + "/data", nm)
        d = a[2] if want_cfg else a[1]
        R.same("store", site + "/data", d, data, facts, "data the store is created from")


def rounds_of(li, n, facts):
    """True: the loop makes exactly n rounds; False: another number; None: not known"""
    idx = mk("idx", li.header)
    if len(li.exits) != 1 or n is None:
        return None
    fs = [f for f in li.exits[0][1].facts if contains(f, lambda x: x is idx) and f is not ge0(idx)]
    for f in fs:
        if f.op == "ge0":
            m = sub(idx, f.a[0])
            if not contains(m, lambda x: x is idx) and same(m, n, facts) in ("id", "eq"):
                return True
    # leaves after fewer rounds, or does not after n
    if not fs or not all(resolved(f) for f in fs):
        return None
    end = TRUE
    for f in fs:
        end = ite(f, end, FALSE)
    r = same(ite(end, num(1), num(0)), ite(ge0(sub(idx, n)), num(1), num(0)),
             list(facts) + [ge0(idx), ge0(sub(n, idx))])
    return True if r in ("id", "eq") else False if isinstance(r, tuple) else None


def is_sum(run, t, n, f, facts=(), start=0):
    """t = start + sum over i < n of f(i)"""
    rec = run.rec(t) if t.op == "mu" else None
    if rec is None:
        return None
    li = run.loop_of(t)
    idx = mk("idx", li.header)
    if rec[0] is not num(start) and same(rec[0], num(start), []) not in ("id", "eq"):
        return False if rec[0].op == "int" else None
    step = sub(rec[1], t)
    r = same(step, f(idx), [])
    if r in ("id", "eq"):
        return rounds_of(li, n, facts)
    return False if isinstance(r, tuple) and resolved(step) else None


def compound(R, run, site, v, lits, trees, n, arity, variant, one_more=True):
    f = fields(v)
    d = f["data"]
    if d.op == "agg" and d.a[1] == variant:
        R.same("store", site, d.a[3][0], trees, lits, "sub trees held")
    elif d.op == "agg":
        R.bad("store", site, "compound tree holds %s data, required %s" % (d.a[1], variant))
    else:
        R.und("store", site, clip(show(d)))
    if n is not None and arity is not None:
        R.holds("guard", site + "/arity", lits, eq_typed(n, arity, True), "the number of sub trees equals the arity", run)
    L = f["leafs"]
    r = is_sum(run, L, n, lambda i: fld(elem(trees, i), "leafs"), lits)
    if r:
        R.ok("leafs", site)
    elif L.op != "mu" and same(uni(L, trees), mul(n, QL), lits) in ("id", "eq"):
        R.ok("leafs", site)
    elif r is False:
        R.bad("leafs", site, "the leaf count is not the sum of the sub trees' leaf counts: adds %s per tree" % clip(show(sub(run.rec(L)[1], L))))
    elif L.op != "mu" and resolved(L) and isinstance(same(uni(L, trees), mul(n, QL), lits), tuple):
        R.bad("leafs", site, "the leaf count is %s" % clip(show(L)))
    else:
        R.und("leafs", site, clip(show(L)))
    R.same("rows", site, uni(f["row_count"], trees), add(QR, num(1)), lits, "row count of the compound tree")
    N = f["len"]
    ln = lambda i: uni(treelen(elem(trees, i)), trees)
    if N.op == "mu" or mus(N):
        base = [m for m in mus(N)]
        if len(base) == 1:
            # 1 + sum
            off = sub(N, base[0])
            init = run.rec(base[0])[0] if run.rec(base[0]) else num(0)
            init = init if init.op == "int" else num(0)
            off = add(off, init)
            rr = is_sum(run, base[0], n, lambda i: treelen(elem(trees, i)), lits, init.a[0])
            if off is num(1) and rr:
                R.ok("len", site)
            elif rr is True and off.op == "int":
                R.bad("len", site, "the node count is the sum of the sub trees' counts plus %s; exactly the root is added" % show(off))
            elif rr is False:
                R.bad("len", site, "the node count does not sum the sub trees' node counts")
            else:
                R.und("len", site, clip(show(N)))
        else:
            R.und("len", site, clip(show(N)))
    else:
        R.same("len", site, uni(N, trees), add(mul(n, QN), num(1)), lits, "node count of the compound tree")
    r = f["root"]
    if iscall(r, "Algorithm::multi_node"):
        a = callargs(r)
        BVs = mk("bv", "roots")
        want = mk("vtab", n, BVs, fld(elem(trees, BVs), "root"))
        R.same("root", site, a[1], want, lits, "nodes hashed into the compound root")
    elif resolved(r) and run.trusted and not mus(r):
        R.bad("root", site, "the root is %s, not the hash of the sub tree roots" % clip(show(r)))
    else:
        R.und("root", site, clip(show(r)))


QL = mk("arg", 90, "leafs per sub tree")
QN = mk("arg", 91, "nodes per sub tree")
QR = mk("arg", 92, "rows per sub tree")


def treelen(t):
    return ite(is_variant(fld(t, "data"), "BaseTree"), app("Store::len", projs(fld(t, "data"), (("d", "BaseTree"), ("f", "0")))), fld(t, "len"))


def uni(t, trees):
    """all sub trees have the same shape (checked by 'guard'): replace their measures by one symbol"""
    m = {}

    def tree_at(x):
        return x.op == "elem" and x.a[0] is trees
    base = None
    for x in subterms(t):
        if x.op == "fld" and x.a[1] == "" and x.a[2] in ("leafs", "len", "row_count"):
            if tree_at(x.a[0]) or (trees.op == "vtab" and base_of(trees, x.a[0])):
                m[x] = {"leafs": QL, "len": QN, "row_count": QR}[x.a[2]]
        if iscall(x, "Store::len"):
            a = callargs(x)[0]
            if a.op == "fld" and a.a[1] == "BaseTree" and a.a[0].op == "fld" and a.a[0].a[2] == "data" and (tree_at(a.a[0].a[0]) or (trees.op == "vtab" and base_of(trees, a.a[0].a[0]))):
                m[x] = QN
        if x.op == "ite" and x.a[0].op == "is" and x.a[0].a[1] == "BaseTree":
            pass
    t = subst(t, m) if m else t
    # both spellings of the length agree
    m2 = {}
    for x in subterms(t):
        if x.op == "ite" and x.a[1] is x.a[2]:
            m2[x] = x.a[1]
    return subst(t, m2) if m2 else t


def base_of(trees, x):
    """x is the body of the vtab at some index"""
    import rules_proof
    b = trees.a[2]
    if x.op != b.op:
        return False
    if x is b:
        return True
    return x.op in ("fld", "app") and show(x)[:30] == show(b)[:30]


def ctors_compound(R, A):
    for K, arity, var in ((M + "from_trees", SUBA, "SubTree"), (M + "from_sub_trees", TOPA, "TopTree")):
        if not A.has(K):
            R.missing(K)
            continue
        run = A.run(K, ("trees",))
        site = short_fn(K)
        T_ = run.args[0]
        n = 0
        for lits, v in okleaves(run):
            if not istree(v):
                R.und("len", site, clip(show(v)))
                continue
            n += 1
            compound(R, run, site, v, lits, T_, vlen(T_), arity, var)
            R.holds("guard", site + "/layer", lits, bnot(eq0(arity)), "the layer has an arity", run)
            shape_guards(R, run, site, lits, T_)
        if not n and not R.unds:
            R.bad("guard", site, "constructor never returns a tree")
    K = M + "from_sub_trees_as_trees"
    if not A.has(K):
        return R.missing(K)
    run = A.run(K, ("trees",), opaque=("from_trees", "from_sub_trees"))
    site = short_fn(K)
    T_ = run.args[0]
    for lits, v in okleaves(run):
        if iscall(v, M + "from_sub_trees"):
            sub_ = callargs(v)[0]
        elif istree(v):
            d = fields(v)["data"]
            if d.op != "agg" or d.a[1] != "TopTree":
                R.und("store", site, clip(show(d)))
                continue
            sub_ = d.a[3][0]
            if sub_.op == "vtab":
                compound(R, run, site, v, lits, sub_, sub_.a[0], None, "TopTree")
        else:
            R.und("store", site, clip(show(v)))
            continue
        R.holds("guard", site + "/layer", lits, bnot(eq0(TOPA)), "the top layer has an arity", run)
        R.holds("guard", site + "/count", lits, eq_typed(vlen(T_), mul(TOPA, SUBA), True), "the number of trees equals the product of the arities", run)
        shape_guards(R, run, site, lits, T_)
        grouping(R, run, site, sub_, T_)


def shape_guards(R, run, site, lits, trees):
    """all sub trees are required to have the same shape"""
    alls = [l for l in lits if l.op == "all"]
    for what in ("row_count", "len"):
        good = None
        for l in alls:
            n, bv, body = l.a
            x = uni1(body, trees)
            if body.op == "eq0" and n is vlen(trees):
                e1 = elem(trees, bv)
                e0 = elem(trees, num(0))
                w = (lambda t: fld(t, what)) if what != "len" else treelen
                want = eq_typed(w(e1), w(e0), True)
                if body is want or same(body, want, []) in ("id", "eq"):
                    good = True
        lp = loop_compares(run, trees, what, lits)
        if good or lp == "all":
            R.ok("guard", site + "/equal " + what)
        elif lp == "some" and run.trusted:
            R.bad("guard", site + "/equal " + what, "not every sub tree's %s is compared with the first one's" % what)
        elif run.trusted and not any(not resolved(l) for l in lits) and not loops_guard(run, trees, what):
            R.bad("guard", site + "/equal " + what, "sub trees with different %s are not rejected" % what)
        else:
            R.und("guard", site + "/equal " + what, "not recognised")


def uni1(b, t):
    return b


def loop_compares(run, trees, what, lits):
    """a loop over the trees, left early at one that differs from the first, was run to its end"""
    w = (lambda t: fld(t, what)) if what != "len" else treelen
    for li in run.loops.values():
        idx = mk("idx", li.header)
        for c in (0, 1, 2, 3, 4):
            differ = bnot(eq_typed(w(elem(trees, add(idx, num(c)))), w(elem(trees, num(0))), True))
            out = [j for j, (t, s) in enumerate(li.exits) if differ in s.facts]
            done = [j for j, (t, s) in enumerate(li.exits) if any(
                f.op == "ge0" and same(f, ge0(sub(add(idx, num(c)), vlen(trees))), [ge0(idx)]) in ("id", "eq") for f in s.facts if contains(f, lambda x: x is idx))
                and not any(differ is f for f in s.facts)]
            if out and any(mk("exit", li.header, j) in lits for j in done):
                return "all" if c < 2 else "some"
    return None


def loops_guard(run, trees, what):
    """an explicit loop comparing the field exists (form not recognised)"""
    for li in run.loops.values():
        idx = mk("idx", li.header)
        for t, s in li.exits:
            for f in s.facts:
                if contains(f, lambda x: x.op == "elem" and x.a[0] is trees and contains(x.a[1], lambda y: y is idx)) and contains(f, lambda x: (x.op == "fld" and x.a[2] == what) or (what == "len" and iscall(x, "Store::len"))):
                    return True
    return False


def grouping(R, run, site, sub_, T_):
    """sub tree k holds trees k*arity .. (k+1)*arity in order"""
    R.rule("grouping", "flat sub trees are grouped into consecutive runs, order preserved")
    if sub_.op != "vtab":
        return R.und("grouping", site, clip(show(sub_)))
    n, bv, body = sub_.a
    calls = [x for x in subterms(body) if iscall(x, M + "from_trees")]
    if len(calls) != 1:
        return R.und("grouping", site, clip(show(body)))
    g = callargs(calls[0])[0]
    want = mk("slice", T_, mul(SUBA, bv), add(mul(SUBA, bv), SUBA))
    if g.op == "slice" and not mus(g):
        return R.same("grouping", site, g, want, [ge0(bv)], "trees grouped into sub tree k")
    # split_off from the back, then reversed
    if g.op == "elem" and g.a[0].op == "mu":
        V = g.a[0]
        li = run.loop_of(V)
        c = li.cells[V]
        if c[0].op == "vnew" and c[1].op == "vpush" and c[1].a[0] is V:
            p = c[1].a[1]
            if p.op == "slice" and p.a[0].op == "mu":
                X = p.a[0]
                cx = li.cells.get(X)
                if cx and cx[0] is T_ and cx[1].op == "slice" and cx[1].a[0] is X:
                    nx = vlen(X)
                    a = same(p.a[1], sub(nx, SUBA), []) in ("id", "eq") and same(p.a[2], nx, []) in ("id", "eq")
                    b = same(cx[1].a[1], num(0), []) in ("id", "eq") and same(cx[1].a[2], sub(nx, SUBA), []) in ("id", "eq")
                    rev = same(g.a[1], sub(sub(vlen(V), num(1)), bv), []) in ("id", "eq")
                    if a and b and rev:
                        return R.ok("grouping", site)
                    if a and b:
                        if same(g.a[1], bv, []) in ("id", "eq"):
                            return R.bad("grouping", site, "groups split off from the back are not put back in order")
                    elif resolved(g) and resolved(p) and run.trusted:
                        return R.bad("grouping", site, "groups are %s of the remaining trees %s" % (clip(show(p)), clip(show(cx[1]))))
    R.und("grouping", site, clip(show(g)))


def ctors_multi(R, A):
    """constructors that build one base tree per input, in order"""
    R.rule("order", "tree i of a compound tree is made from input i (data, store, configuration, replica offset)")
    OP = ("from_trees", "from_sub_trees", "new_from_disk_with_reader", "new_from_config")
    spec = [
        (M + "from_slices", ("tree_data", "leafs"), "slice"),
        (M + "from_slices_with_configs", ("tree_data", "leafs", "configs"), "slice"),
        (M + "from_stores", ("leafs", "stores"), "store"),
        (M + "from_store_configs", ("leafs", "configs"), "config"),
    ]
    for K, names, src in spec:
        if not A.has(K):
            R.missing(K)
            continue
        run = A.run(K, names, opaque=OP)
        site = short_fn(K)
        arg = dict(zip(names, run.args))
        lead = arg.get("tree_data") or arg.get("stores") or arg.get("configs")
        for lits, v in okleaves(run):
            x = v
            if x.op == "fld" and x.a[1] == "Ok":
                x = x.a[0]
            if not iscall(x, M + "from_trees"):
                R.und("order", site, clip(show(v)))
                continue
            t = callargs(x)[0]
            if t.op != "vtab":
                R.und("order", site, "trees not in closed form " + clip(show(t)))
                continue
            n, bv, body = t.a
            R.same("order", site + "/count", n, vlen(lead), lits, "number of sub trees")
            if not istree(body):
                R.und("order", site, clip(show(body)))
                continue
            facts = [ge0(bv)]
            f = fields(body)
            R.same("leafs", site, f["leafs"], arg["leafs"], facts, "recorded leaf count")
            st = base_tree(R, site, body, facts, run)
            if st is None:
                continue
            if src == "store":
                R.same("order", site, st, elem(arg["stores"], bv), facts, "store of sub tree i")
                continue
            a = {"data": elem(arg["tree_data"], bv)} if src == "slice" else {}
            cfg = elem(arg["configs"], bv) if "configs" in arg else None
            created(R, site, origin(st), st, tlen(arg["leafs"]), a, src, cfg, facts, run)


def accessors(R, A):
    def st(S):
        return projs(fld(S, "data"), (("d", "BaseTree"), ("f", "0")))
    base = lambda S: is_variant(fld(S, "data"), "BaseTree")
    spec = [("len", lambda S: ite(base(S), app("Store::len", st(S)), fld(S, "len"))),
            ("leafs", lambda S: fld(S, "leafs")), ("root", lambda S: fld(S, "root")), ("row_count", lambda S: fld(S, "row_count"))]
    for m, w in spec:
        K = M + m
        if not A.has(K):
            R.missing(K)
            continue
        run = A.run(K, ("self",))
        S = run.args[0]
        got = run.eng.deep(run.st, run.ret)
        want = w(S)
        if m == "len":
            # the recorded length and the store's length are the same number
            got = subst(got, {app("Store::len", st(S)): fld(S, "len")})
            want = fld(S, "len")
        R.same("accessor", short_fn(K), got, want, [], "%s()" % m)
    K = M + "is_empty"
    if not A.has(K):
        return R.missing(K)
    run = A.run(K, ("self",))
    S = run.args[0]
    got = run.eng.deep(run.st, run.ret)
    got = subst(got, {app("Store::len", st(S)): fld(S, "len"), app("Store::is_empty", st(S)): eq_typed(fld(S, "len"), num(0), True)})
    R.same("accessor", short_fn(K), got, eq_typed(fld(S, "len"), num(0), True), [], "is_empty()")
