"""C17: files are opened, created and deleted without touching other or existing data; C18: what a reopened store is."""
import bdd
from fw import *
from rules_store import norm, under_all, feasible
from rules_tree import okleaves, fields, M, PI
from rules_err import okvar, retpcs
from rules_pop import splitall, cond

D, LC, MM = ("<store::disk::DiskStore as store::Store>::", "<store::level_cache::LevelCacheStore as store::Store>::",
             "<store::mmap::MmapStore as store::Store>::")
DI, LI = "store::disk::DiskStore::", "store::level_cache::LevelCacheStore::"
STORES = ("DiskStore", "LevelCacheStore", "MmapStore")
OPENS = ("std::fs::OpenOptions::open", "std::fs::File::open", "std::fs::File::create", "std::fs::File::create_new")
DP = "store::StoreConfig::data_path"
WRITES = ("io:set_len", "io:write_all_at", "io:write_all_at_unix", "io:write_at", "io:write_all", "io:copy", "slice::copy_from_slice")
PATHFX = {"rename", "remove_dir", "remove_dir_all", "write", "copy", "hard_link", "set_permissions", "remove_file", "create_dir", "create_dir_all"}


def datapath(cfg):
    return app(DP, fld(cfg, "path"), fld(cfg, "id"))


def funcs(A):
    """every function of the crate's own code that is not a closure or test"""
    for k, f in sorted(A.c.fns.items()):
        if "{" in k or "test" in k.split("::")[0] or not f.get("blocks"):
            continue
        yield k, f


def touches(A):
    """functions from which a path based file operation can be reached without passing another function first"""
    names = set(OPENS) | {"std::fs::" + n for n in PATHFX} | {"std::fs::OpenOptions::truncate"}
    out = []
    for k, f in funcs(A):
        hit = False
        for kk in [k] + [c for c in A.c.fns if c.startswith(k + "::{closure")]:
            for b in A.c.fns[kk]["blocks"]:
                t = b[-1] if isinstance(b, list) else b.get("t")
                s = str(t)
                if any(n in s for n in names):
                    hit = True
        if hit:
            out.append(k)
    return out


def store_ctor(A, k, f):
    """does the function produce a store?"""
    ty = A.c.types[f["locals"][0][0]]
    return any(s in str(ty.get("s", "")) for s in STORES) and "Result<" in str(ty.get("s", ""))


def handles(t, pc):
    """the ways a file handle can have come about: [(condition, kind, options, path)]"""
    out = []
    for ls, x in splitall(t, pc):
        b = bdd.AND(pc, cond(ls))
        if b is bdd.FALSE:
            continue
        c = [y for y in subterms(x) if y.op == "res" and y.a[0] in OPENS]
        tmp = [y for y in subterms(x) if y.op in ("res", "app") and "tempfile" in str(y.a[0])]
        if c:
            a = callargs(c[-1] if len(c) == 1 else outer(c))
            out.append((b, "open", a[-2], a[-1]))
        elif tmp:
            out.append((b, "temp", None, None))
        else:
            out.append((b, "other", x, None))
    return out


def outer(cs):
    for c in cs:
        if not any(c is not d and contains(d, lambda y: y is c) for d in cs):
            return c
    return cs[-1]


def C17(R, A):
    R.rule("own-file", "every file opened, created or removed on behalf of a configuration is that configuration's own data file")
    R.rule("name", "the data file lies in the configuration's directory and its name contains the identifier unchanged")
    R.rule("no-clobber", "a file is never truncated on opening, and one that is created did not exist before")
    R.rule("existing", "constructing a store over an existing file does not write to, resize or remove it")
    R.rule("fallback", "an existing file is opened as it is, read-only if it cannot be opened for writing")
    R.rule("reuse", "a tree constructed over existing data neither stores leafs nor rebuilds")
    R.rule("delete", "deleting removes the configuration's data file, and nothing else ever removes a file")
    if A.has(DP):
        R.part(name, A)
    else:
        R.missing(DP)
    ks = touches(A)
    if not ks:
        R.und("own-file", "crate", "no function that opens files found")
    anchors = [D + "new_with_config", D + "new_from_disk", D + "new_from_slice_with_config", LC + "new_with_config", LC + "new_from_disk",
               LC + "new_from_slice_with_config", MM + "new_with_config", MM + "new_from_disk", MM + "new_from_slice_with_config",
               DI + "new_from_disk_with_path", LI + "new_from_disk_with_reader", D + "compact", D + "delete", LC + "delete"]
    for k in anchors:
        if not A.has(k):
            R.missing(k)
        elif k not in ks:
            ks.append(k)
    for k in ks:
        R.part(files, A, k)
    for k in (D + "delete", LC + "delete"):
        if A.has(k):
            R.part(delete, A, k)
    R.part(tree_delete, A)
    for k in trees(A):
        R.part(reuse, A, k)


def name(R, A):
    run = A.run(DP, ("path", "id"))
    path, id_ = run.args
    for lits, v in run.leaves():
        site = "StoreConfig::data_path"
        p, f = joined(v)
        drop = [x for x in subterms(v) if x.op in ("app", "res") and str(x.a[0]).split("::")[-1] in ("with_extension", "set_extension", "with_file_name", "set_file_name")]
        if drop:
            R.bad("name", site + "/id", "the identifier is cut at its last dot: %s, so two configurations can share one file" % clip(show(v)))
            continue
        if p is None:
            R.und("name", site, clip(show(v)))
            continue
        if contains(p, lambda x: x is path) and (p is path):
            R.ok("name", site + "/directory")
        elif run.trusted:
            R.bad("name", site + "/directory", "the data file is placed in %s, required the configuration's path" % clip(show(p)))
        else:
            R.und("name", site + "/directory", clip(show(p)))
        pieces = template(f)
        if pieces is None:
            R.und("name", site + "/id", clip(show(f)))
            continue
        disp = [x for x in pieces if not isinstance(x, str)]
        whole = [x for x in disp if x is id_]
        if len(whole) == 1:
            R.ok("name", site + "/id")
        elif run.trusted and not any(contains(x, lambda y: y is id_) for x in disp):
            R.bad("name", site + "/id", "the file name does not contain the identifier: " + clip(show(f)))
        elif run.trusted:
            R.bad("name", site + "/id", "the file name contains only a function of the identifier: " + clip(str([x if isinstance(x, str) else show(x) for x in pieces])))
        else:
            R.und("name", site + "/id", clip(show(f)))
        if all(isinstance(x, str) or x is id_ or x.op == "int" for x in pieces):
            got = "".join(x if isinstance(x, str) else ("<id>" if x is id_ else "<%s>" % show(x)) for x in pieces)
            if got == "sc-<2>-data-<id>.dat" or got == "sc-02-data-<id>.dat":
                R.ok("name", site + "/format")
            else:
                R.bad("name", site + "/format", "data files are named %s, so files written before are not found (sc-02-data-<id>.dat)" % got)
        else:
            R.und("name", site + "/format", str(len(pieces)))


def joined(v):
    """(directory, file name) of a path"""
    if v.op == "app" and v.a[0] == "path_join":
        return v.a[1], v.a[2]
    return None, None


def template(f):
    """pieces of a formatted string: literals and displayed terms"""
    while f.op == "app" and f.a[0] in ("fmt::format", "std::fmt::format", "alloc::fmt::format", "format"):
        f = f.a[1]
    f = f if f.op != "app" or "from_str" not in str(f.a[0]) else f
    if not (f.op == "app" and str(f.a[0]).endswith("Arguments::new") and len(f.a) == 3 and f.a[1].op in ("const", "arr") and f.a[2].op == "arr"):
        return None
    args = []
    for x in f.a[2].a[0]:
        if not (x.op == "app" and str(x.a[0]).endswith("new_display")):
            return None
        args.append(x.a[1])
    if f.a[1].op == "arr":
        if not all(x.op == "int" and 0 <= x.a[0] < 256 for x in f.a[1].a[0]):
            return None
        raw = bytes(x.a[0] for x in f.a[1].a[0])
    else:
        raw = str(f.a[1].a[0])
        if not raw.startswith('b"'):
            return None
        try:
            raw = eval(raw)
        except Exception:
            return None
    out, i, k = [], 0, 0
    while i < len(raw):
        b = raw[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(raw[i:i + b].decode("latin1"))
            i += b
        elif b >= 0xc0:
            i += (4 if b & 1 else 0) + (2 if b & 2 else 0) + (2 if b & 4 else 0)
            if b & 8:
                k = raw[i] | raw[i + 1] << 8
                i += 2
            if k >= len(args):
                return None
            out.append(args[k])
            k += 1
        else:
            return None
    return out if i == len(raw) else None


def own(p, run):
    """is the path the data file of one configuration, or a path the caller passed?"""
    if p.op == "app" and p.a[0] == DP:
        x, y = p.a[1], p.a[2]
        if x.op == "fld" and y.op == "fld" and x.a[0] is y.a[0] and x.a[2] == "path" and y.a[2] == "id":
            return True
        # a configuration built on the spot
        return None if not (x.op == "fld" and y.op == "fld") else False
    if p.op == "arg":
        return True
    return None


def strip(p):
    while p.op == "app" and p.a[0] in ("Path::to_path_buf", "std::path::Path::to_path_buf") or p.op == "ref":
        p = p.a[1] if p.op == "app" else p.a[0]
    return p


def files(R, A, k):
    run = A.run(k)
    f = A.c.fns[k]
    site = short_fn(k)
    ctor = store_ctor(A, k, f)
    reader = k.startswith("store::ExternalReader") or "ReplicaConfig" in k
    for e in run.events:
        if e.kind != "call" or e.pc is bdd.FALSE:
            continue
        if e.name == "open":
            o, p = e.args[0], strip(e.args[-1])
            for ls, q in splitall(p, e.pc):
                q = strip(q)
                w = own(q, run)
                if w:
                    R.ok("own-file", site)
                elif reader:
                    R.ok("own-file", site + "/external")
                elif w is False or q.op in ("app", "fld", "int") and run.trusted and not q.a[0] == DP:
                    R.bad("own-file", site, "opens %s, required the data file of the configuration" % clip(show(q)))
                else:
                    R.und("own-file", site, clip(show(q)))
                ex = mk("app", "exists", q)
                flags = {n: fld(o, n) for n in ("truncate", "create", "create_new", "write", "append")}
                if any(v not in (TRUE, FALSE) for v in flags.values()):
                    R.und("no-clobber", site, clip(show(o)))
                    continue
                mayexist = bdd.AND(e.pc, bdd.of(ex)) is not bdd.FALSE
                if flags["create_new"] is TRUE:
                    R.ok("no-clobber", site)
                elif flags["truncate"] is TRUE and mayexist:
                    R.bad("no-clobber", site, "opens an existing file with truncation")
                elif flags["create"] is TRUE and mayexist:
                    R.bad("no-clobber", site, "creates the file without making sure that it did not exist")
                else:
                    R.ok("no-clobber", site)
        elif e.name.split("::")[-1] in PATHFX and e.name.startswith("std::fs::") or e.name == "io:remove_file":
            n = e.name.split("::")[-1].replace("io:", "")
            if n == "remove_file" and site.endswith("::delete"):
                continue
            if n == "remove_file":
                R.bad("delete", site, "removes the file %s" % clip(show(e.args[0])))
            elif n in ("rename", "write", "copy", "remove_dir", "remove_dir_all", "hard_link", "set_permissions"):
                R.bad("own-file", site + "/" + n, "calls %s on %s" % (e.name, clip(show(e.args[0]))))
            else:
                R.und("own-file", site + "/" + n, clip(show(e.args[0])))
        elif ctor and e.name in WRITES:
            tgt_ = e.args[-1] if e.name == "io:copy" else e.args[0]
            if e.name == "slice::copy_from_slice" and not contains(tgt_, lambda y: y.op == "res" and ("mmap" in str(y.a[0]).lower())):
                continue
            for b, kind, o, p in handles(tgt_, e.pc):
                if kind == "temp":
                    R.ok("existing", site)
                elif kind == "open":
                    if fld(o, "create_new") is TRUE:
                        R.ok("existing", site)
                    elif bdd.AND(b, bdd.of(mk("app", "exists", strip(p)))) is bdd.FALSE:
                        R.ok("existing", site)
                    elif run.trusted:
                        R.bad("existing", site, "%s is applied to a file that already existed" % e.name)
                    else:
                        R.und("existing", site, e.name)
                else:
                    R.und("existing", site, "handle " + clip(show(o)))
    if ctor:
        fallback(R, A, run, site)


def fallback(R, A, run, site):
    """a read-only handle is only used where opening for writing failed"""
    for lits, v in okleaves(run):
        L = norm(lits)
        x = under_all(v, L)
        if x.op != "agg" or "file" not in x.a[2]:
            continue
        h = fld(x, "file")
        for b, kind, o, p in handles(h, cond(lits)):
            if kind != "open":
                continue
            if fld(o, "read") is not TRUE:
                R.bad("fallback", site + "/readable", "the store's file is opened without read access")
                continue
            if fld(o, "write") is TRUE:
                R.ok("fallback", site)
                continue
            tried = [e for e in run.calls("open") if e.args[-1] is p and fld(e.args[0], "write") is TRUE]
            if any(bdd.AND(b, okvar(e.ret)) is bdd.FALSE for e in tried):
                R.ok("fallback", site)
            elif run.trusted:
                R.bad("fallback", site, "the file is opened read-only although it could be opened for writing")
            else:
                R.und("fallback", site, clip(show(o)))


def delete(R, A, k):
    run = A.run(k, ("config",))
    site = short_fn(k)
    want = datapath(run.args[0])
    rm = run.calls("io:remove_file")
    if not rm:
        if run.trusted:
            R.bad("delete", site, "the data file is not removed")
        else:
            R.und("delete", site, "no removal recognised")
        return
    for e in rm:
        R.same("delete", site + "/path", strip(e.args[0]), want, [], "file removed")
    for lits, v, b in retpcs(run):
        if any(bdd.AND(b, bdd.NOT(okvar(e.ret))) is bdd.FALSE for e in rm):
            R.ok("delete", site)
        elif run.trusted:
            R.bad("delete", site, "success is reported although the file was not removed")
        else:
            R.und("delete", site, "result")


def tree_delete(R, A):
    k = "merkle::MerkleTree::delete"
    if not A.has(k):
        return R.missing(k)
    run = A.run(k)
    site = "MerkleTree::delete"
    ev = run.calls("Store::delete")
    cfg = [a for a in run.args if a.op == "arg" and a.a[1] == "config"] or [run.args[-1]]
    if not ev:
        return R.und("delete", site, "no call to Store::delete")
    for e in ev:
        R.same("delete", site + "/config", e.args[-1], cfg[0], [], "configuration whose data is deleted")


MUT = ("Store::build", "Store::copy_from_slice", "Store::write_at", "Store::push", "Store::compact", "Store::delete")
MAKE = ("Store::new_with_config", "Store::new_from_slice_with_config")


def trees(A):
    """tree constructors that make a store from a configuration"""
    for k, f in funcs(A):
        if k.startswith("merkle::") or "merkle::MerkleTree" in k:
            ty = str(A.c.types[f["locals"][0][0]].get("s", ""))
            if "Result<" in ty and "MerkleTree<" in ty:
                yield k


def reuse(R, A, k):
    run = A.run(k)
    site = short_fn(k)
    made = [e for e in run.events if e.kind == "call" and e.name in MAKE]
    for m in made:
        s = ok(m.ret)
        lo = app("Store::loaded_from_disk", s)
        use = 0
        for e in run.events:
            if e.kind != "call" or e.name not in MUT or not e.args:
                continue
            if not contains(e.args[0], lambda y: y is s) and not any(run.rec(y) is not None and contains(run.rec(y)[0], lambda z: z is s) for y in mus(e.args[0])):
                continue
            use += 1
            b = bdd.AND(e.pc, bdd.of(lo))
            if e.loops:
                li = run.loops.get(e.loops[0].a[0])
                if li is not None and li.entry is not None:
                    b = bdd.AND(b, li.entry.pc)
            if b is bdd.FALSE:
                R.ok("reuse", site + "/" + e.name)
            elif e.name != "Store::build" and bdd.AND(b, bdd.of(app("Store::is_empty", s))) is not bdd.FALSE and bdd.AND(b, bdd.NOT(bdd.of(app("Store::is_empty", s)))) is bdd.FALSE:
                R.ok("reuse", site + "/" + e.name)
            elif run.trusted:
                R.bad("reuse", site + "/" + e.name, "%s is applied to a store that was loaded from existing data" % e.name)
            else:
                R.und("reuse", site + "/" + e.name, "uninterpreted callees")
        if not use:
            R.ok("reuse", site)


# ---------------------------------------------------------------- C18
def C18(R, A):
    R.rule("size", "a store is opened only if the file has exactly the size the configuration calls for")
    R.rule("fields", "the store produced describes its file: element count, element size, cached region, size and origin")
    R.rule("shape", "a level cache is opened only for a leaf count that is a power of two")
    R.rule("consistent", "the consistency checks compare the file's actual size with the expected one")
    R.rule("fresh", "a new store is empty and its file has room for all elements")
    for k, names, f in ((D + "new_from_disk", ("size", "branches", "config"), disk_open), (DI + "new_from_disk_with_path", ("size", "data_path"), disk_open),
                        (MM + "new_from_disk", ("size", "branches", "config"), disk_open),
                        (LC + "new_from_disk", ("store_range", "branches", "config"), lc_open),
                        (LI + "new_from_disk_with_reader", ("store_range", "branches", "config", "reader"), lc_open),
                        (D + "new", ("size",), fresh_store), (D + "new_with_config", ("size", "branches", "config"), fresh_store),
                        (MM + "new", ("size",), fresh_store), (MM + "new_with_config", ("size", "branches", "config"), fresh_store),
                        (LC + "new", ("size",), fresh_store), (LC + "new_with_config", ("size", "branches", "config"), fresh_store),
                        (DI + "is_consistent", ("store_range", "branches", "config"), consistent),
                        (LI + "is_consistent", ("store_range", "branches", "config"), consistent),
                        (LI + "is_consistent_v1", ("store_range", "branches", "config"), consistent)):
        if not A.has(k):
            R.missing(k)
            continue
        R.part(f, A, k, names)
    for k in (D + "new_with_config", LC + "new_with_config", MM + "new_with_config"):
        if A.has(k):
            R.part(reopen, A, k)


def metas(run, L):
    """(file handle, size term) for every file whose metadata was read"""
    out = []
    for e in run.calls("io:metadata"):
        if e.ret is None:
            continue
        out.append((under_all(e.args[0], L), under_all(app("metalen", ok(e.ret)), L)))
    return out


def cfacts(L):
    return [l for l in L if pos(l).op in ("ge0", "eq0", "eq", "is", "ite")]


def fieldset(R, site, v, want, c, L):
    for n, w in want.items():
        if n not in v.a[2]:
            continue
        g = fld(v, n)
        if w in (TRUE, FALSE):
            if g is w:
                R.ok("fields", site + "/" + n)
            elif g in (TRUE, FALSE):
                R.bad("fields", site + "/" + n, "%s is %s, required %s" % (n, show(g), show(w)))
            else:
                R.same("fields", site + "/" + n, g, w, c, n)
            continue
        R.same("fields", site + "/" + n, g, under_all(w, L), c, n)


def disk_open(R, A, k, names):
    run = A.run(k, names)
    size = run.args[0]
    site = short_fn(k)
    n = 0
    for lits, v in okleaves(run):
        L = norm(lits)
        v = under_all(v, L)
        c = cfacts(L)
        if v.op != "agg":
            R.und("fields", site, clip(show(v)))
            continue
        if not feasible([x for x in c if not contains(x, lambda y: y.op == "res")]):
            continue
        n += 1
        h = fld(v, "file")
        ms = [s for f, s in metas(run, L) if f is h]
        if not ms:
            if run.trusted:
                R.bad("size", site, "the size of the file opened is not looked at")
            else:
                R.und("size", site, "no metadata recognised")
            continue
        R.holds("size", site, L, eq_typed(ms[0], mul(size, BL), True), "file size is size * element size", run)
        fieldset(R, site, v, {"len": size, "elem_len": BL, "loaded_from_disk": TRUE, "store_size": mul(size, BL)}, [x for x in c] + [eq_typed(ms[0], mul(size, BL), True)], L)
    if not n:
        R.und("size", site, "no successful opening recognised")


def width(run, leafs):
    return eq_typed(leafs, mk("npow2", leafs), True)


def lcterms(run):
    rng, br, cfg = run.args[:3]
    leafs = ok(app("merkle::get_merkle_tree_leafs", rng, br))
    cache = mul(ok(app("merkle::get_merkle_tree_cache_size", leafs, br, fld(cfg, "rows_to_discard"))), BL)
    return rng, leafs, cache


def npow2(t):
    return app("npow2", t)


def shape(R, run, site, L, leafs):
    """every opening that succeeds has established that the leaf count is a
    power of two"""
    lit = [l for l in L if contains(l, lambda y: y is leafs) and pos(l).op in ("ge0", "eq0", "eq", "app", "ite")]
    if not lit and run.trusted:
        R.bad("shape", site, "a leaf count that is not a power of two is accepted")
        return
    R.holds("shape", site, L, eq_typed(leafs, npow2(leafs), True), "the leaf count is a power of two", run)


def lc_open(R, A, k, names):
    run = A.run(k, names)
    rng, leafs, cache = lcterms(run)
    site = short_fn(k)
    reader = "reader" in names
    n = 0
    for lits, v in okleaves(run):
        L = norm(lits)
        v = under_all(v, L)
        c = cfacts(L)
        if v.op != "agg":
            R.und("fields", site, clip(show(v)))
            continue
        n += 1
        h = fld(v, "file")
        ms = [s for f, s in metas(run, L) if f is h]
        if not ms:
            R.bad("size", site, "the size of the file opened is not looked at") if run.trusted else R.und("size", site, "no metadata recognised")
            continue
        shape(R, run, site, L, leafs)
        want = {"len": rng, "elem_len": BL, "data_width": leafs, "cache_index_start": sub(mul(rng, BL), cache), "store_size": ms[0]}
        if reader:
            R.holds("size", site, L, eq_typed(ms[0], cache, True), "the file holds exactly the cached rows", run)
        else:
            want["loaded_from_disk"] = TRUE
        fieldset(R, site, v, want, c, L)
        rd = fld(v, "reader")
        if reader:
            R.same("fields", site + "/reader", rd, SOME(run.args[3]), c, "reader of the discarded rows")
    if not n:
        R.und("size", site, "no successful opening recognised")


def consistent(R, A, k, names):
    run = A.run(k, names)
    rng, leafs, cache = lcterms(run)
    site = short_fn(k)
    cfg = run.args[2]
    if "DiskStore" in k:
        want = mul(rng, BL)
    elif k.endswith("_v1"):
        want = add(mul(leafs, BL), cache)
    else:
        want = cache
    n = 0
    for lits, v in okleaves(run):
        L = norm(lits)
        v = under_all(v, L)
        op = [e for e in run.calls("open")]
        ms = [(f, s) for f, s in metas(run, L)]
        if not ms:
            R.und("consistent", site, "no metadata recognised")
            continue
        n += 1
        f, s = ms[0]
        hs = handles(f, cond(lits))
        for b, kind, o, p in hs:
            if kind == "open":
                R.same("consistent", site + "/file", strip(p), datapath(cfg), [], "file whose size is checked")
                if fld(o, "write") is TRUE and fld(o, "truncate") is TRUE:
                    R.bad("consistent", site + "/file", "the file is truncated")
            else:
                R.und("consistent", site + "/file", kind)
        if "DiskStore" not in k:
            shape(R, run, site, L, leafs)
        R.same("consistent", site, v, eq_typed(s, under_all(want, L), True), cfacts(L), "answer")
    if not n:
        R.und("consistent", site, "no answer recognised")


def fresh_store(R, A, k, names):
    run = A.run(k, names)
    size = run.args[0]
    site = short_fn(k)
    n = 0
    for lits, v in okleaves(run):
        L = norm(lits)
        if any(l.op == "app" and l.a[0] == "exists" for l in L):
            continue
        v = under_all(v, L)
        if v.op != "agg":
            R.und("fresh", site, clip(show(v)))
            continue
        n += 1
        c = cfacts(L)
        R.same("fresh", site + "/len", fld(v, "len"), num(0), c, "element count of a new store")
        want = {"elem_len": BL, "loaded_from_disk": FALSE, "store_size": mul(size, BL)}
        if "LevelCacheStore" in k:
            if "config" in names:
                rng, leafs, cache = lcterms(run)
                want.update({"data_width": leafs, "cache_index_start": sub(mul(rng, BL), cache)})
                shape(R, run, site, L, leafs)
            else:
                want.update({"data_width": size, "cache_index_start": num(0)})
            R.same("fields", site + "/reader", fld(v, "reader"), NONE, c, "reader")
        fieldset(R, site, v, want, c, L)
        h = fld(v, "file")
        sl = [l.a[0] for l in L if l.op == "is" and l.a[1] == "Ok" and iscall(l.a[0], "std::fs::File::set_len")]
        if not sl:
            R.bad("fresh", site + "/room", "the new file is not given its size") if run.trusted else R.und("fresh", site + "/room", "no set_len recognised")
            continue
        a = [under_all(x, L) for x in callargs(sl[-1])]
        R.same("fresh", site + "/room", a[-1], mul(size, BL), c, "size of the new file")
        tmp = [y for y in subterms(h) if y.op in ("res", "app") and "tempfile" in str(y.a[0]) and str(y.a[0]).endswith("::new")]
        if a[-2] is h or any(contains(a[-2], lambda y: y is x) for x in tmp) or contains(h, lambda y: y is a[-2]) or contains(a[-2], lambda y: y is h) or (h.op == "fld" and contains(a[-2], lambda y: y is root_res(h))):
            R.ok("fresh", site + "/file")
        else:
            R.und("fresh", site + "/file", clip(show(a[-2]) + " vs " + show(h)))
    if not n:
        R.und("fresh", site, "no successful construction recognised")


def root_res(t):
    while t.op == "fld":
        t = t.a[0]
    return t


def reopen(R, A, k):
    """where the file exists the store must be opened from it, with the caller's geometry"""
    run = A.run(k, ("size", "branches", "config"), opaque=("new_from_disk",))
    site = short_fn(k)
    cfg = run.args[2]
    ex = app("exists", datapath(cfg))
    n = 0
    for lits, v in okleaves(run):
        L = norm(lits)
        if ex not in L:
            continue
        n += 1
        v = under_all(v, L)
        src = [x for x in subterms(v) if x.op == "app" and str(x.a[0]).endswith("new_from_disk")]
        if not src:
            if run.trusted and resolved(v):
                R.bad("fresh", site + "/reopen", "an existing file is not loaded") if v.op == "agg" else R.und("fresh", site + "/reopen", clip(show(v)))
            else:
                R.und("fresh", site + "/reopen", clip(show(v)))
            continue
        for i, nm in enumerate(("size", "branches", "config")):
            R.same("fields", site + "/reopen/" + nm, src[0].a[1 + i], run.args[i], [], nm + " used to open the existing file")
    if not n:
        R.und("fresh", site + "/reopen", "no path for existing files recognised")
