"""C27: a request inside the documented limits is refused only because something below it failed."""
import bdd
import eqv
from fw import *
from rules_tree import M, BASE
from rules_gen import SUBA, TOPA, trees_of
from rules_open import D, LC, MM, DI, LI, datapath, handles, touches, strip
from rules_tree import okleaves
from rules_store import under_all

CACHE = "merkle::get_merkle_tree_cache_size"
LEN, LEAFS, SIZEOK = "merkle::get_merkle_tree_len", "merkle::get_merkle_tree_leafs", "merkle::is_merkle_tree_size_valid"
VEC = "<store::vec::VecStore as store::Store>::"
ST = "store::Store::"
OPEN = ("mu", "phi", "undef", "bot", "item", "all", "exit", "seq")


def ge(a, b):
    return ge0(sub(a, b))


def eq(a, b):
    return eq0(sub(a, b))


def p2(x):
    return eq_typed(mk("app", "npow2", x), x, True)


class Q(object):
    """arguments of a run by name"""

    def __init__(self, run, fn):
        self.run = run
        self.by = {}
        self.strict = False
        self.metalen = None
        for i, a in enumerate(run.args):
            self.by[i] = a
            if a.op == "arg" and isinstance(a.a[1], str):
                self.by[a.a[1]] = a

    def __getitem__(self, k):
        return self.by[k]


def esz(P, S):
    return BL if P in (MM, VEC) else fld(S, "elem_len")


def inv(P, S):
    """state of a store between calls"""
    out = []
    if P in (D, LC, DI, LI):
        out += [eq(fld(S, "elem_len"), BL)]
    if P in (MM,):
        out += [mk("is", fld(S, "map"), "Some"), ge(vlen(some(fld(S, "map"))), mul(BL, fld(S, "len")))]
    return out + [ge(BL, num(1))]


def reads(P, nm):
    def v(q):
        S = q[0]
        E = esz(P, S)
        if nm in ("read_at", "read_into"):
            s, e = q[1], add(q[1], num(1))
        elif nm == "read_range":
            s, e = fld(q[1], "start"), fld(q[1], "end")
        else:
            s, e = q[1], q[2]
        f = inv(P, S) + [ge(e, add(s, num(1)))]
        if P != VEC:
            f += [ge(fld(S, "len"), e), ge(s, num(0))]
        if nm.endswith("into"):
            f += [eq(vlen(q[len(q.run.args) - 1]), mul(E, sub(e, s)))]
        if P == LC:
            W, C = fld(S, "data_width"), fld(S, "cache_index_start")
            f += [BOR(ge(W, e), ge(mul(E, s), C))]
        return f
    return v


def BOR(a, b):
    return ite(a, TRUE, b)


def rawread(q):
    S, s, e = q[0], q[1], q[2]
    f = inv(DI, S) + [ge(e, add(s, num(1)))]
    if len(q.run.args) > 3:
        f += [eq(vlen(q[3]), sub(e, s))]
    return f


def lcraw(q):
    S, s, e = q[0], q[1], q[2]
    f = rawread(q)
    return f + [BOR(ge(mul(fld(S, "data_width"), fld(S, "elem_len")), e), ge(s, fld(S, "cache_index_start")))]


def copyin(P):
    def v(q):
        S, buf, s = q[0], q[1], q[2]
        E = esz(P, S)
        f = inv(P, S)
        n = vlen(buf)
        f += [eq(n, mul(E, div(n, E)))]
        if P in (D, LC):
            f += [ge(fld(S, "store_size"), add(n, mul(E, s)))]
        if P == MM:
            f += [ge(vlen(some(fld(S, "map"))), add(n, mul(E, s)))]
        return f
    return v


def rawcopy(q):
    return [ge(fld(q[0], "store_size"), add(q[1], vlen(q[2])))] + inv(DI, q[0])


def pushv(P):
    def v(q):
        S = q[0]
        if P == MM:
            return inv(P, S) + [ge(vlen(some(fld(S, "map"))), mul(BL, add(fld(S, "len"), num(1))))]
        return inv(P, S) + ([ge(fld(S, "store_size"), mul(fld(S, "elem_len"), add(fld(S, "len"), num(1))))] if P in (D, LC) else [])
    return v


def reopen(P):
    def v(q):
        q.strict = True
        cfg = q["config"]
        f = [app("exists", datapath(cfg)), ge(BL, num(1))]
        if P == LC:
            return f + [p2(q["branches"]), ge(q["branches"], num(2))]
        q.metalen = mul(q["size"], BL)
        return f
    return v


def compactv(q):
    q.strict = True
    S = q[0]
    n = fld(S, "len")
    cache = ok(app(CACHE, ok(app(LEAFS, n, q["branches"])), q["branches"], fld(q["config"], "rows_to_discard")))
    return inv(D, S) + [ge(n, add(cache, num(1))), ge(cache, num(1))]


def truncv(q):
    q.strict = True
    q.metalen = add(mul(q["len"], BL), mk("arg", 82, "bytes behind"))
    return [ge(BL, num(1)), ge(mk("arg", 82, "bytes behind"), num(0))]


def buildv(P):
    def v(q):
        S = q[0]
        lf = q["leafs"]
        U = mk("tysym", "U")
        n = fld(S, "len") if P in (D, LC) else app("Store::len", S)
        f = [p2(U), ge(U, num(2)), p2(lf), ge(lf, num(2)), eq(lf, mul(num(2), div(lf, num(2)))), eq(n, lf)]
        if P == LC:
            f += [mk("is", q["config"], "Some")]
        return f + inv(P, S)
    return v


def fresh(q):
    return [ge(BL, num(1))]


def fromslice(q):
    n = vlen(q["data"])
    return [eq(n, mul(BL, div(n, BL))), ge(BL, num(1)), ge(mul(BL, q["size"]), n)]


def treeinv(S):
    """one list of facts per kind of tree"""
    d = fld(S, "data")
    b, u = mk("is", d, "BaseTree"), mk("is", d, "SubTree")
    lf = fld(S, "leafs")
    out = [[b, eq0(SUBA), eq0(TOPA), p2(lf)]]
    for var, ar, f in (("SubTree", SUBA, [bnot(b), u, bnot(eq0(SUBA)), eq0(TOPA)]), ("TopTree", TOPA, [bnot(b), bnot(u), bnot(eq0(SUBA)), bnot(eq0(TOPA))])):
        ts = trees_of(S, var)
        # every sub tree is as large as the first (C13)
        out.append(f + [eq(vlen(ts), ar), eq(lf, mul(ar, EACH)), ge(EACH, num(1))])
    return [x + [p2(BASE), ge(BASE, num(2))] for x in out]


EACH = mk("arg", 81, "leafs per sub tree")


def conj(*xs):
    r = TRUE
    for x in reversed(xs):
        r = ite(x, r, FALSE)
    return r


def leafidx(q):
    S = q[0]
    return [x + [ge(fld(S, "leafs"), add(q["i"], num(1)))] for x in treeinv(S)]


def baseop(q):
    return treeinv(q[0])[:1]


def plain(*extra):
    def v(q):
        f = [p2(BASE), ge(BASE, num(2)), eq0(SUBA), eq0(TOPA), ge(BL, num(1))]
        for x in extra:
            f += x(q)
        return f
    return v


def seqlen(nm, unit=None):
    def v(q):
        if nm not in q.by:
            return []
        n = vlen(q[nm])
        if unit is None:
            return [ge(n, num(2)), p2(n)]
        k = div(n, unit)
        return [eq(n, mul(unit, k)), ge(k, num(2)), p2(k)]
    return v


def treesize(n):
    def v(q):
        lf = q["leafs"]
        return [p2(lf), ge(lf, num(2)), eq(ok(app(LEN, lf, BASE)), n(q)), app(SIZEOK, lf, BASE)]
    return v


def proofnew(q):
    lm = vlen(q["lemma"])
    need = app("merkle::get_merkle_proof_lemma_len", add(num(1), vlen(q["path"])), BASE)
    return [eq(lm, need), ge(lm, num(3)), ge(vlen(q["path"]), num(1))]


def prooval(q):
    """a proof as the library makes it"""
    S = q[0]
    sp = mk("is", fld(S, "sub_tree_proof"), "Some")
    sub_, top = fld(S, "sub_tree_layer_nodes"), fld(S, "top_layer_nodes")
    lm, path = fld(S, "lemma"), fld(S, "path")
    out = [[bnot(sp), eq0(sub_), eq0(top), ge(BASE, num(2)), ge(vlen(path), num(1)), eq(vlen(lm), add(num(2), mul(sub(BASE, num(1)), vlen(path))))]]
    for n, f in ((sub_, [eq0(top)]), (top, [ge(top, num(1))])):
        out.append(f + [sp, ge(sub_, num(1)), eq(vlen(path), num(1)), ge(n, add(elem(path, num(0)), num(1))), eq(vlen(lm), n),
                        ge(vlen(fld(some(fld(S, "sub_tree_proof")), "lemma")), num(3))])
    return out


def group(var, arity, top):
    """a list of alike trees, as many as the arity"""
    def v(q):
        t = q["trees"]
        n = vlen(t)
        return [bnot(eq0(SUBA)), bnot(eq0(TOPA)) if top else eq0(TOPA), eq(n, arity), ge(n, num(1)), p2(BASE), ge(BASE, num(2))]
    return v


def table():
    T = []
    for P in (D, LC, MM):
        for nm in ("read_at", "read_into", "read_range", "read_range_into"):
            if (P, nm) != (MM, "read_range_into"):
                T.append((P + nm, reads(P, nm)))
        T.append((P + "copy_from_slice", copyin(P)))
        T.append((P + "new_from_slice", fromslice))
        T.append((P + "new_from_slice_with_config", fromslice))
        T.append((P + "push", pushv(P)))
        T.append((P + "new_from_disk", reopen(P)))
        T.append((P + "new", fresh))
        T.append((P + "new_with_config", fresh))
        if P != MM:
            T.append((P + "build", buildv(P)))
    T.append((LI + "read_range_internal", reads(LC, "read_range")))
    T.append((LI + "read_at_internal", reads(LC, "read_at")))
    T.append((D + "compact", compactv))
    T.append((LI + "front_truncate", truncv))
    for nm in ("build", "build_small_tree"):
        T.append((ST + nm, buildv(ST)))
    T.append((VEC + "copy_from_slice", copyin(VEC)))
    T.append((DI + "store_copy_from_slice", rawcopy))
    T.append((LI + "store_copy_from_slice", rawcopy))
    for nm in ("store_read_range", "store_read_into"):
        T.append((DI + nm, rawread))
        T.append((LI + nm, lcraw))
    for nm in ("gen_proof", "gen_cached_proof", "read_at"):
        T.append((M + nm, leafidx))
    for nm in ("compact", "reinit", "set_external_reader_path"):
        T.append((M + nm, baseop))
    for nm in ("from_byte_slice", "from_byte_slice_with_config"):
        T.append((M + nm, plain(seqlen("leafs", BL))))
    for nm in ("new_with_config", "new", "from_data", "from_data_with_config"):
        T.append((M + nm, plain(seqlen("data"))))
    T.append((M + "try_from_iter_with_config", plain(seqlen("into"))))
    T.append((M + "try_from_iter", plain(seqlen("into"))))
    T.append(("<merkle::MerkleTree as merkle::FromIndexedParallelIterator>::from_par_iter_with_config", plain(seqlen("into"))))
    T.append((M + "from_data_store", plain(treesize(lambda q: app("Store::len", q["data"])))))
    for nm in ("from_tree_slice", "from_tree_slice_with_config"):
        T.append((M + nm, plain(treesize(lambda q: div(vlen(q["data"]), BL)), lambda q: [eq(vlen(q["data"]), mul(BL, div(vlen(q["data"]), BL)))])))
    T.append((M + "from_trees", group("SubTree", SUBA, False)))
    T.append((M + "from_sub_trees", group("TopTree", TOPA, True)))
    T.append(("proof::Proof::new", proofnew))
    T.append(("proof::Proof::validate", prooval))
    return T


def failed(l):
    """the literal says that something below failed"""
    if l.op == "not" and l.a[0].op == "is" and l.a[0].a[1] in ("Ok",):
        x = l.a[0].a[0]
        return contains(x, lambda y: y.op in ("app", "res"))
    return False


def stored(x):
    """a value some operation left behind"""
    return x.op == "res" or (x.op == "app" and isinstance(x.a[0], str) and x.a[0].startswith("mut"))


def moved(x):
    """how much an operation reports to have moved"""
    return x.op == "res" and isinstance(x.a[0], str) and x.a[0].split("::")[-1].rstrip("!") in ("copy", "read", "write", "seek")


def C27(R, A):
    R.rule("guard", "a refusal that is not handed up from a failed operation is reached only by requests outside the documented limits")
    R.rule("panic", "no panic is reached by a request inside the documented limits")
    R.rule("access", "files are opened with the access that is then used, and created when they do not exist")
    R.rule("mapped", "a memory mapped store maps its own file")
    for K, v in table():
        R.part(guard, A, K, v)
    for k in touches(A):
        R.part(access, A, k)
    R.part(kept, A, D + "compact")
    for nm in ("new", "new_from_slice", "new_from_disk", "new_with_config", "new_from_slice_with_config", "reinit"):
        R.part(mapped, A, MM + nm)


def alternatives(V, q):
    f = V(q)
    return f if f and isinstance(f[0], list) else [f]


def shape(ls, q):
    """what the shape functions deliver on success (C24)"""
    know = []
    for x in set(y for l in ls for y in subterms(l)):
        if x.op != "app":
            continue
        if x.a[0] == LEAFS:
            know += [p2(ok(x)), ge(ok(x), num(1))]
            for y in subterms(x.a[1]):
                # the cached leafs are a row of the tree
                if y.op == "app" and y.a[0] == CACHE:
                    know.append(ge(y.a[1], ok(x)))
        elif x.a[0] == "metalen" and q.metalen is not None:
            know.append(eq(x, q.metalen))
        elif x.a[0] == SIZEOK:
            know.append(x)
        elif x.a[0] == CACHE:
            know.append(ge(ok(app(LEN, x.a[1], x.a[2])), add(ok(x), num(1))))
    for x in set(y for l in ls for y in subterms(l)):
        if x.op == "fld" and x.a[-1] == "leafs" and x.a[0].op == "elem":
            know.append(eq(x, EACH))
    return know


def guard(R, A, K, V):
    if not A.has(K):
        return R.missing(K)
    run = A.run(K)
    q = Q(run, A.c.fns[K])
    site = short_fn(K)
    n = und = 0
    for lits, v in run.leaves():
        if not (v.op == "agg" and v.a[1] == "Err"):
            continue
        L = [elen(l) for l in lits]
        if any(failed(l) for l in L):
            continue
        n += 1
        und += reach(R, run, q, "guard", site, alternatives(V, q), L, "a valid request is refused")
    k = 0
    for e in run.panics():
        for need in e.need or ():
            k += 1
            und += reach(R, run, q, "panic", site, alternatives(V, q), [elen(l) for l in e.facts] + [bnot(elen(need))], "a valid request panics (%s)" % e.name, e.sp)
    R.ok("guard", site, "%d refusals, %d possible panics, %d depend on loops or stored data" % (n, k, und))


def settle(L):
    """literals with conditional parts decided by the other literals"""
    out = []
    for l in L:
        if l.op not in ("is", "eq0") and not (l.op == "not" and l.a[0].op in ("is",)) and contains(l, lambda x: x.op == "ite"):
            for m in L:
                if m is not l:
                    l = engine.under(l, m)
        out.append(l)
    return out


def reach(R, run, q, rule, site, alts, L, msg, sp=None):
    """can a valid request meet all of L?"""
    L = settle(L)
    flat = [l for l in L if not contains(l, lambda x: x.op in OPEN)]
    rest = len(flat) < len(L)
    und = 0
    for facts in alts:
        know = facts + shape(flat, q)
        if any(bnot(f) in L for f in facts):
            R.ok(rule, site, "other kind")
            continue
        if any(prove(know + [x for x in flat if x is not l], bnot(l)) for l in flat):
            R.ok(rule, site, "proved")
            continue
        w = None
        for va in eqv.valuations(know + flat, 1, tries=4000):
            w = va
            break
        if w is None:
            R.ok(rule, site, "no valid request meets it")
        elif rest or any(contains(l, stored if not q.strict else moved) for l in flat):
            und += 1
        elif not run.trusted:
            R.und(rule, site, "uninterpreted callees %s" % list(run.eng.unknown)[:3])
        else:
            R.bad(rule, site, "%s when %s" % (msg, clip(" and ".join(show(l) for l in flat[::-1]), 500)),
                  eqv.witness(w, flat, know, True, True), sp)
    return und


WRITING = ("io:set_len", "io:write_all_at", "io:write_at", "io:write_all", "mmap_full")
READING = ("io:read_exact_at", "io:read_at", "io:read_exact", "io:read")


def access(R, A, k):
    """files are opened with the access that is used"""
    run = A.run(k)
    site = short_fn(k)
    for e in run.events:
        if e.kind != "call" or e.pc is bdd.FALSE:
            continue
        need = []
        if e.name in WRITING:
            need = [(e.args[0], "write")] + ([(e.args[0], "read")] if e.name == "mmap_full" else [])
        elif e.name in READING:
            need = [(e.args[0], "read")]
        elif e.name == "io:copy":
            need = [(e.args[0], "read"), (e.args[-1], "write")]
        for h, mode in need:
            for b, kind_, o, p in handles(h, e.pc):
                if kind_ != "open":
                    continue
                f = fld(o, mode)
                if f is TRUE or mode == "write" and fld(o, "append") is TRUE:
                    R.ok("access", site)
                elif f is FALSE and run.trusted:
                    R.bad("access", site, "%s on a file opened without %s access" % (e.name, mode), None, e.sp)
                else:
                    R.und("access", site, clip(show(o)))
        if e.name == "open":
            o, p = e.args[0], strip(e.args[-1])
            b = bdd.AND(e.pc, bdd.of(mk("app", "exists", p)))
            fl = {n: fld(o, n) for n in ("read", "write", "append", "create", "create_new")}
            if any(x not in (TRUE, FALSE) for x in fl.values()):
                R.und("access", site, clip(show(o)))
            elif not (fl["read"] is TRUE or fl["write"] is TRUE or fl["append"] is TRUE):
                R.bad("access", site, "opens a file with no access at all", None, e.sp)
            elif b is bdd.FALSE and not (fl["create"] is TRUE or fl["create_new"] is TRUE):
                R.bad("access", site, "opens a file known not to exist without creating it", None, e.sp)
            elif (fl["create"] is TRUE or fl["create_new"] is TRUE) and not (fl["write"] is TRUE or fl["append"] is TRUE):
                R.bad("access", site, "creates a file without write access", None, e.sp)
            elif fl["create_new"] is TRUE and bdd.AND(e.pc, bdd.NOT(bdd.of(mk("app", "exists", p)))) is bdd.FALSE:
                R.bad("access", site, "insists on creating a file known to exist", None, e.sp)
            else:
                R.ok("access", site)


def branches_of(t, b):
    """the values a conditional term takes where b holds"""
    if b is bdd.FALSE:
        return []
    if t.op != "ite":
        return [t]
    c = bdd.of(t.a[0])
    return branches_of(t.a[1], bdd.AND(b, c)) + branches_of(t.a[2], bdd.AND(b, bdd.NOT(c)))


def kept(R, A, k):
    """the handle a store keeps after compaction can be read and written"""
    if not A.has(k):
        return R.missing(k)
    run = A.run(k)
    site = short_fn(k)
    f = run.final(0)
    if f is None:
        return
    for lits, v in run.leaves():
        if v.op == "agg" and v.a[1] == "Err":
            continue
        pc = TRUE
        b = bdd.TRUE
        for l in lits:
            b = bdd.AND(b, bdd.of(l))
        todo = []
        for x in branches_of(fld(f, "file"), b):
            for w in handles(x, b) if not contains(x, lambda y: y.op == "ite") else ():
                todo.append(w)
        for bb, kind_, o, p in todo:
            if kind_ != "open":
                continue
            for mode in ("read", "write"):
                m = fld(o, mode)
                if m is TRUE:
                    R.ok("access", site + "/kept")
                elif m is FALSE:
                    R.bad("access", site + "/kept", "the store keeps a file opened without %s access" % mode)
                else:
                    R.und("access", site + "/kept", clip(show(o)))


def mapped(R, A, k):
    """a memory mapped store maps its own file"""
    if not A.has(k):
        return R.missing(k)
    run = A.run(k)
    site = short_fn(k)
    for lits, v in okleaves(run):
        x = run.final(0) if k.endswith("::reinit") else v
        if x is None or not (k.endswith("::reinit") or x.op == "agg"):
            continue
        m = under_all(fld(x, "map"), lits)
        f = under_all(fld(x, "file"), lits)
        if m.op == "agg" and m.a[1] == "None":
            R.bad("mapped", site, "the store is left without a mapping")
            continue
        maps = [y for y in subterms(m) if y.op == "res" and "MmapMut::map" in str(y.a[0])]
        if maps:
            h = callargs(maps[-1])[-1]
            if strip(under_all(h, lits)) is strip(f):
                R.ok("mapped", site)
            elif resolved(h) and resolved(f) and run.trusted:
                R.bad("mapped", site, "maps %s, required the store's own file %s" % (clip(show(h)), clip(show(f))))
            else:
                R.und("mapped", site, clip(show(h)))
        else:
            R.und("mapped", site, clip(show(m)))
