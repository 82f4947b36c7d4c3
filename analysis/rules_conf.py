"""C21: configurations, replicas and external sources are paired with the sub tree they belong to."""
import bdd
from fw import *
from rules_store import norm, KX
from rules_tree import okleaves, M, SUBA, TOPA, BASE

ER = "store::ExternalReader::"
LI = "store::level_cache::LevelCacheStore::"


def facts_of(lits):
    return [l for l in lits if pos(l).op in ("ge0", "eq0", "eq", "ite")]


def C21(R, A):
    R.rule("pair", "sub tree k is opened from configuration k with the reader made for replica offset k")
    R.rule("split", "group k receives the k-th of equally long consecutive runs of the configurations and offsets")
    R.rule("all", "lists whose lengths do not fit are refused; no configuration is left out")
    R.rule("reader", "a reader opens the path given, read-only, starts at the offset of its index and returns exactly the bytes asked for")
    R.rule("config", "a configuration holds the values it was made from")
    R.rule("attach", "a source is attached to the store of a plain tree and nothing else changes; compound trees refuse it")
    R.part(pair, A)
    R.part(split, A, "from_sub_tree_store_configs", "from_store_configs", False)
    R.part(split, A, "from_sub_tree_store_configs_and_replica", "from_store_configs_and_replica", True)
    R.part(slices, A)
    R.part(readers, A)
    R.part(configs, A)
    R.part(attach, A)


def okof(x):
    """the call whose success value this is"""
    while x.op == "fld" or x.op == "vfld":
        x = x.a[0]
    return x


def pair(R, A):
    K = M + "from_store_configs_and_replica"
    if not A.has(K):
        return R.missing(K)
    run = A.run(K, ("leafs", "configs", "replica_config"), opaque=("from_trees", "from_data_store", "new_from_disk_with_reader", "new_from_config"))
    leafs, cfgs, rep = run.args
    site = short_fn(K)
    n = 0
    for lits, v in okleaves(run):
        x = okof(v)
        if not iscall(x, M + "from_trees"):
            R.und("pair", site, clip(show(v)))
            continue
        t = callargs(x)[0]
        if t.op != "vtab":
            R.und("pair", site, clip(show(t)))
            continue
        n += 1
        c, bv, body = t.a
        F = facts_of(lits) + [ge0(bv), ge0(sub(sub(vlen(cfgs), bv), num(1)))]
        R.same("pair", site + "/count", c, vlen(cfgs), facts_of(lits), "number of sub trees")
        R.holds("all", site, facts_of(lits), eq_typed(vlen(cfgs), vlen(fld(rep, "offsets")), True), "as many offsets as configurations", run)
        d = okof(body)
        if not iscall(d, M + "from_data_store"):
            R.und("pair", site, clip(show(body)))
            continue
        st, lf = callargs(d)[:2]
        R.same("pair", site + "/leafs", lf, leafs, F, "leafs of sub tree k")
        o = okof(st)
        if not iscall(o, LI + "new_from_disk_with_reader"):
            R.und("pair", site, clip(show(st)))
            continue
        size, br, cfg, rd = callargs(o)
        R.same("pair", site + "/branches", br, BASE, F, "arity of sub tree k")
        R.same("pair", site + "/config", cfg, elem(cfgs, bv), F, "configuration of sub tree k")
        r = okof(rd)
        if iscall(r, ER + "new_from_config"):
            rc, ix = callargs(r)
            for f in ("path", "offsets"):
                R.same("pair", site + "/replica." + f, fld(rc, f), fld(rep, f), F, "replica the reader is made for")
            R.same("pair", site + "/offset", ix, bv, F, "replica offset of sub tree k")
        else:
            R.und("pair", site, "reader " + clip(show(rd)))
        sz = okof(size)
        if sz.op in ("app", "res") and sz.a[0].split("::")[-1] == "get_merkle_tree_len":
            a = callargs(sz)
            R.same("pair", site + "/size", a[0], leafs, F, "leaf count the size is computed from")
            R.same("pair", site + "/size-arity", a[1], BASE, F, "arity the size is computed from")
        else:
            R.und("pair", site, "size " + clip(show(size)))
    if not n:
        R.und("pair", site, "no tree recognised")


def split(R, A, name, inner, replica):
    K = M + name
    if not A.has(K):
        return R.missing(K)
    run = A.run(K, ("leafs", "configs") + (("replica_config",) if replica else ()), opaque=("from_sub_trees", inner))
    leafs, cfgs = run.args[:2]
    rep = run.args[2] if replica else None
    site = short_fn(K)
    n = 0
    for lits, v in okleaves(run):
        x = okof(v)
        if not iscall(x, M + "from_sub_trees"):
            R.und("split", site, clip(show(v)))
            continue
        t = callargs(x)[0]
        if t.op != "vtab":
            R.und("split", site, clip(show(t)))
            continue
        n += 1
        c, bv, body = t.a
        P = facts_of(lits)
        q = div(vlen(cfgs), TOPA)
        pos_ = [ge0(sub(TOPA, num(1)))]
        R.same("split", site + "/groups", c, TOPA, P, "number of groups")
        R.holds("all", site, P + pos_, eq_typed(vlen(cfgs), mul(TOPA, q), True), "every configuration belongs to a group", run)
        if replica:
            R.holds("all", site + "/offsets", P, eq_typed(vlen(cfgs), vlen(fld(rep, "offsets")), True), "as many offsets as configurations", run)
        d = okof(body)
        if not iscall(d, M + inner):
            R.und("split", site, clip(show(body)))
            continue
        a = callargs(d)
        F = P + pos_ + [ge0(bv), ge0(sub(sub(TOPA, bv), num(1))), ge0(q), ge0(KX), ge0(sub(sub(q, KX), num(1)))]
        R.same("split", site + "/leafs", a[0], leafs, F, "leafs per sub tree")
        parts = [("configs", a[1], cfgs)]
        if replica:
            R.same("split", site + "/path", fld(a[2], "path"), fld(rep, "path"), F, "replica path")
            parts.append(("offsets", fld(a[2], "offsets"), fld(rep, "offsets")))
        for nm, got, src in parts:
            R.same("split", site + "/%s-len" % nm, vlen(got), q, F, "length of group k")
            R.same("split", site + "/%s" % nm, elem(got, KX), elem(src, add(mul(q, bv), KX)), F, "j-th member of group k")
    if not n:
        R.und("split", site, "no tree recognised")


def slices(R, A):
    K = M + "from_slices_with_configs"
    if not A.has(K):
        return R.missing(K)
    run = A.run(K, ("tree_data", "leafs", "configs"), opaque=("from_trees",))
    site = short_fn(K)
    td, leafs, cfgs = run.args
    for lits, v in okleaves(run):
        R.holds("all", site, facts_of(lits), eq_typed(vlen(td), vlen(cfgs), True), "as many configurations as data slices", run)


def opened(R, run, site, src, path, lits):
    o = okof(src)
    if not iscall(o, "std::fs::OpenOptions::open") and not iscall(o, "std::fs::File::open"):
        return R.und("reader", site, "source " + clip(show(src)))
    a = callargs(o)
    R.same("reader", site + "/path", a[-1], path, [], "file opened as source")
    if iscall(o, "std::fs::OpenOptions::open"):
        for f in ("write", "append", "truncate", "create", "create_new"):
            w = fld(a[0], f)
            if w is FALSE:
                R.ok("reader", site + "/" + f)
            elif w is TRUE:
                R.bad("reader", site + "/" + f, "the source is opened with %s" % f)
            else:
                R.und("reader", site + "/" + f, clip(show(w)))


def readfn(R, A, site, fn):
    """the callback of a reader reads exactly bytes start..end of its source"""
    if fn.op == "clo":
        k = fn.a[0]
        skip = 1
    elif fn.op in ("fnv", "fn", "fndef") or fn.op == "const":
        k, skip = str(fn.a[0]), 0
    else:
        return R.und("reader", site, "callback " + clip(show(fn)))
    if not A.has(k):
        return R.und("reader", site, "callback " + clip(show(fn)))
    run = A.run(k)
    a = run.args[skip:]
    if len(a) != 4:
        return R.und("reader", site, "callback with %d parameters" % len(a))
    s, e, buf, src = a
    n = sub(e, s)
    for lits, v in okleaves(run):
        F = facts_of(lits) + [ge0(n), ge0(s)]
        R.same("reader", site + "/count", v, n, F, "number of bytes reported as read")
        rs = [c for c in run.calls("io:read_exact_at")]
        oth = [c for c in run.events if c.kind == "call" and c.name.startswith("io:") and c.name not in ("io:read_exact_at", "io:metadata")]
        if oth and not rs:
            R.bad("reader", site, "%s may deliver fewer bytes than requested" % oth[0].name) if all(o.name in ("io:read", "io:read_at") for o in oth) else R.und("reader", site, oth[0].name)
            continue
        if len(rs) != 1 or oth:
            R.und("reader", site, "reads not recognised")
            continue
        R.same("reader", site + "/source", rs[0].args[0], src, F, "file read from")
        R.same("reader", site + "/offset", rs[0].args[1], s, F, "offset read from")
        f = run.final(buf.a[0])
        f = under(f, lits)
        g = elem(f, KX)
        R.same("reader", site + "/length", vlen(rs[0].args[2]), n, F, "number of bytes read")
        b = rs[0].args[2]
        if b.op == "slice" and b.a[0] is buf:
            R.same("reader", site + "/place", b.a[1], num(0), F, "place in the buffer the bytes are put")
        elif b is buf:
            R.ok("reader", site + "/place")
        else:
            R.und("reader", site + "/place", clip(show(b)))


def under(t, L):
    import engine
    for l in L:
        t = engine.under(t, l)
    return t


def readers(R, A):
    K = ER + "new_from_config"
    fns = {}
    if not A.has(K):
        R.missing(K)
    else:
        run = A.run(K, ("replica_config", "index"))
        site = short_fn(K)
        rc, ix = run.args
        n = 0
        for lits, v in okleaves(run):
            n += 1
            R.same("reader", site + "/index", fld(v, "offset"), elem(fld(rc, "offsets"), ix), facts_of(lits), "offset of the reader")
            opened(R, run, site, fld(v, "source"), fld(rc, "path"), lits)
            fns[fld(v, "read_fn")] = site
        if not n:
            R.und("reader", site, "no reader recognised")
    K = ER + "new_from_path"
    if not A.has(K):
        R.missing(K)
    else:
        run = A.run(K, ("path",))
        site = short_fn(K)
        for lits, v in okleaves(run):
            R.same("reader", site + "/index", fld(v, "offset"), num(0), facts_of(lits), "offset of the reader")
            opened(R, run, site, fld(v, "source"), run.args[0], lits)
            fns.setdefault(fld(v, "read_fn"), site)
    for f, site in sorted(fns.items(), key=lambda x: x[1]):
        R.part(readfn, A, site + "/read", f)


def configs(R, A):
    for K, names, want in (
            ("store::StoreConfig::new", ("path", "id", "rows_to_discard"), lambda p, i, r: {"path": p, "id": i, "rows_to_discard": r, "size": NONE}),
            ("store::ReplicaConfig::new", ("path", "offsets"), lambda p, o: {"path": p, "offsets": o}),
            ("store::StoreConfig::from_config", ("config", "id", "size"), lambda c, i, s: {
                "path": fld(c, "path"), "id": i, "rows_to_discard": fld(c, "rows_to_discard")})):
        if not A.has(K):
            R.missing(K)
            continue
        run = A.run(K, names)
        site = short_fn(K)
        for lits, v in run.leaves():
            for f, w in sorted(want(*run.args).items()):
                R.same("config", site + "/" + f, fld(v, f), w, facts_of(lits), "field %s" % f)
            if K.endswith("from_config"):
                c, i, s = run.args
                g = fld(v, "size")
                R.same("config", site + "/size", under(g, [is_variant(s, "Some")]), SOME(some(s)) , [], "size when one is given") if under(g, [is_variant(s, "Some")]) is not s else R.ok("config", site + "/size")
                R.same("config", site + "/size-default", under(g, [bnot(is_variant(s, "Some"))]), fld(c, "size"), [], "size when none is given")
    K = "<store::ReplicaConfig as std::convert::From>::from"
    if not A.has(K):
        return R.missing(K)
    run = A.run(K, ("path",))
    for lits, v in run.leaves():
        R.same("config", short_fn(K) + "/path", fld(v, "path"), run.args[0], [], "path")
        R.same("config", short_fn(K) + "/count", vlen(fld(v, "offsets")), num(1), [], "number of offsets")
        R.same("config", short_fn(K) + "/offset", elem(fld(v, "offsets"), num(0)), num(0), [], "offset of the only source")


def attach(R, A):
    K = LI + "set_external_reader"
    if not A.has(K):
        R.missing(K)
    else:
        run = A.run(K, ("self", "reader"))
        for lits, v in okleaves(run):
            f = under(run.final(0), lits)
            R.same("attach", short_fn(K), f, setproj(run.args[0], (("f", "reader"),), SOME(run.args[1])), facts_of(lits), "store after attaching a reader")
    K = M + "set_external_reader_path"
    if not A.has(K):
        return R.missing(K)
    run = A.run(K, ("self", "path"))
    S = run.args[0]
    site = short_fn(K)
    n = 0
    for lits, v in okleaves(run):
        n += 1
        R.holds("attach", site + "/plain", lits, is_variant(fld(S, "data"), "BaseTree"), "only plain trees accept a source", run)
        f = under(run.final(0), lits)
        p = (("f", "data"), ("d", "BaseTree"), ("f", "0"))
        st = projs(f, p)
        rd = fld(st, "reader")
        R.same("attach", site + "/rest", f, setproj(S, p + (("f", "reader"),), rd), facts_of(lits), "everything but the reader stays as it was")
        if rd.op != "agg" or rd.a[1] != "Some":
            R.und("attach", site, "reader " + clip(show(rd)))
            continue
        r = some(rd)
        R.same("attach", site + "/offset", fld(r, "offset"), num(0), facts_of(lits), "offset of the reader")
        o = okof(fld(r, "source"))
        if iscall(o, "std::fs::OpenOptions::open") or iscall(o, "std::fs::File::open"):
            R.same("attach", site + "/path", callargs(o)[-1], run.args[1], facts_of(lits), "source attached")
        else:
            R.und("attach", site, "source " + clip(show(o)))
    if not n:
        R.und("attach", site, "no success path recognised")
