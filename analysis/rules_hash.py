"""Hash input discipline: domain separation, completeness, fresh hasher, Hashable impls."""
from fw import *


def chunks(t):
    """byte string term -> list of pieces"""
    if t.op == "arr":
        return [("lit",) + tuple(t.a[0])]
    if t.op == "vext":
        return chunks(t.a[0]) + chunks(t.a[1])
    if t.op == "vpush":
        return chunks(t.a[0]) + [("lit", t.a[1])]
    if t.op == "vnew":
        return []
    if t.op == "vrep" and t.a[1].op == "int" and t.a[1].a[0] <= 64:
        return [("lit",) + (t.a[0],) * t.a[1].a[0]]
    return [("data", t)]


class Unrec(Exception):
    pass


WR = {"write_u8", "write_u16", "write_u32", "write_u64", "write_usize", "write_u128",
      "write_i8", "write_i16", "write_i32", "write_i64", "write_isize", "write_i128"}


def stream(run, t, stop):
    """what was fed into a hasher state, oldest first"""
    if t is stop:
        return []
    if t.op == "default":
        if stop is not None and stop.op == "default":
            return []
        return [("reset",)]
    if t.op == "app" and t.a[0] == "mut0:Hasher::write":
        return stream(run, t.a[1], stop) + chunks(t.a[2])
    if t.op == "app" and t.a[0].startswith("mut0:Hasher::write_"):
        return stream(run, t.a[1], stop) + [(t.a[0][len("mut0:Hasher::"):], t.a[2])]
    if t.op == "app" and t.a[0] == "mut1:Hashable::hash":
        return stream(run, t.a[2], stop) + [("hashable", t.a[1])]
    if t.op == "app" and t.a[0] == "mut1:Hashable::hash_slice":
        return stream(run, t.a[2], stop) + [("slice", t.a[1])]
    if t.op == "app" and t.a[0] == "mut0:Algorithm::hash":
        return stream(run, t.a[1], stop) + [("finish",)]
    if t.op == "mu":
        li = run.loop_of(t)
        if li is None:
            raise Unrec("loop")
        init, nx, _ = li.cells[t]
        return stream(run, init, stop) + unroll(run, li, tuple(stream(run, nx, t)))
    if t.op == "ite":
        return [("ite", t.a[0], tuple(stream(run, t.a[1], stop)), tuple(stream(run, t.a[2], stop)))]
    raise Unrec(clip(show(t)))


def unroll(run, li, body):
    """a loop over the elements of an array written out is the sequence of its rounds"""
    idx = mk("idx", li.header)
    for a in {y.a[0] for x in body for t in x[1:] if isinstance(t, T) for y in subterms(t) if y.op == "elem" and y.a[1] is idx and y.a[0].op == "arr"}:
        if len(a.a[0]) <= 16 and loop_over(run, li, a):
            return [(x[0],) + tuple(subst(t, {idx: num(i)}) if isinstance(t, T) else t for t in x[1:]) for i in range(len(a.a[0])) for x in body]
    return [("loop", li, body)]


def mergelits(s):
    out = []
    for x in s:
        if x[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = out[-1] + x[1:]
        elif x == ("lit",):
            continue
        else:
            out.append(x)
    return out


def bytes_of(t, el):
    """t is the whole byte view of el"""
    return t is el or (t.op == "bytes" and t.a[0] is el) or (t.op == "app" and t.a[0] == "rawslice" and t.a[1] is el)


def desc(s):
    out = []
    for x in s:
        if x[0] == "loop":
            out.append("for each i: [%s]" % desc(x[2]))
        elif x[0] == "ite":
            out.append("if %s {%s} else {%s}" % (clip(show(x[1]), 80), desc(x[2]), desc(x[3])))
        else:
            out.append("%s %s" % (x[0], ", ".join(show(y) if isinstance(y, T) else str(y) for y in x[1:])))
    return "; ".join(out)


def loop_over(run, li, vec):
    """loop visits each index of vec exactly once, in order"""
    idx = mk("idx", li.header)
    n = vlen(vec)
    want = ge0(sub(idx, n))
    got = []
    for t, s in li.exits:
        for f in s.facts:
            if contains(f, lambda x: x is idx) and f is not ge0(idx):
                got.append(f)
    if len(li.exits) == 1 and want in got:
        return True
    if len(li.exits) == 1 and any(same(g, want, [ge0(idx)]) in ("id", "eq") for g in got if g.op == "ge0"):
        return True
    return False


def eqstream(run, got, want, is_el):
    """want: list of ("lit",..) / ("el", term) / ("all", vec)"""
    got = mergelits(got)
    # flatten literal/element
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if w[0] == "lit":
            if g != w:
                return False
        elif w[0] == "el":
            if g[0] != "data" or not bytes_of(g[1], w[1]):
                return False
        elif w[0] == "all":
            if g[0] != "loop":
                return False
            li = g[1]
            idx = mk("idx", li.header)
            body = mergelits(g[2])
            if len(body) != 1 or body[0][0] != "data" or not bytes_of(body[0][1], elem(w[1], idx)):
                return False
            if not loop_over(run, li, w[1]):
                return False
    return True


def delegated(run, A, v, want):
    """node made by multi_node of exactly its children"""
    if not iscall(v, "Algorithm::multi_node") or not A.has("hash::Algorithm::multi_node"):
        return False
    h, ns = callargs(v)[:2]
    return h is run.args[0] and ns.op == "arr" and [("el", x) for x in ns.a[0]] == want[1:] and want[0] == ("lit", num(1))


def C02(R, A):
    R.rule("leaf-input", "default leaf hashing feeds the leaf prefix 0x00, then the whole leaf, then finishes")
    R.rule("node-input", "default interior hashing feeds the prefix 0x01, then every child completely, in order, then finishes")
    R.rule("prefix-distinct", "leaf and interior prefixes differ")
    spec = [("hash::Algorithm::leaf", ("self", "leaf"), lambda a: [("lit", num(0)), ("el", a[1])], "leaf-input"),
            ("hash::Algorithm::node", ("self", "left", "right", "height"), lambda a: [("lit", num(1)), ("el", a[1]), ("el", a[2])], "node-input"),
            ("hash::Algorithm::multi_node", ("self", "nodes", "height"), lambda a: [("lit", num(1)), ("all", a[1])], "node-input")]
    pref = {}
    for K, names, want, rule in spec:
        if not A.has(K):
            R.missing(K)
            continue
        run = A.run(K, names)
        site = short_fn(K)
        lv = run.leaves()
        for lits, v in lv:
            if not iscall(v, "Algorithm::hash"):
                if delegated(run, A, v, want(run.args)):
                    R.ok(rule, site, "by the default multi_node")
                    continue
                if v.op in ("phi", "undef", "bot") or run.eng.unknown:
                    R.und(rule, site, "result " + clip(show(v)))
                else:
                    R.bad(rule, site, "the result %s is not the digest of the data written%s" % (clip(show(v)), " when " + clip("; ".join(show(l) for l in lits)) if lits else ""))
                continue
            try:
                got = stream(run, callargs(v)[0], run.args[0])
            except Unrec as u:
                R.und(rule, site, "hasher state not recognised: %s" % u)
                continue
            got = mergelits(got)
            if got and got[0][0] == "lit":
                pref.setdefault(site, got[0][1:])
            w = want(run.args)
            if eqstream(run, got, w, None):
                R.ok(rule, site)
            else:
                known = not run.eng.unknown and not contains_unres(got)
                m = "hash input is [%s]%s" % (clip(desc(got), 500), " when " + clip("; ".join(show(l) for l in lits)) if lits else "")
                if known:
                    R.bad(rule, site, m)
                else:
                    R.und(rule, site, m)
    lp, np = pref.get("hash::Algorithm::leaf"), [v for k, v in pref.items() if k != "hash::Algorithm::leaf"]
    if lp and any(lp == x for x in np):
        R.bad("prefix-distinct", "hash::Algorithm", "leaf and interior nodes are hashed with the same prefix %s" % show(lp[0]))
    K = "hash::Algorithm::reset"
    if not A.has(K):
        return R.missing(K)
    run = A.run(K, ("self",))
    f = run.final(0)
    R.rule("reset", "the default reset returns the hasher to its initial state")
    if f is not None and f.op == "default":
        R.ok("reset", K)
    elif f is not None and resolved(f) and not run.eng.unknown:
        R.bad("reset", K, "after reset the hasher state is %s" % clip(show(f)))
    else:
        R.und("reset", K, "state not resolved")


def contains_unres(s):
    for x in s:
        if x[0] == "loop":
            if contains_unres(x[2]):
                return True
        elif x[0] == "ite":
            if contains_unres(x[2]) or contains_unres(x[3]):
                return True
        else:
            for y in x[1:]:
                if isinstance(y, T) and not resolved(y):
                    return True
    return False


# ------------------------------------------------------------------ Hashable
INTS = {"u8": "write_u8", "u16": "write_u16", "u32": "write_u32", "u64": "write_u64", "usize": "write_usize", "u128": "write_u128",
        "i8": "write_i8", "i16": "write_i16", "i32": "write_i32", "i64": "write_i64", "isize": "write_isize", "i128": "write_i128"}


def C23(R, A):
    R.rule("feed", "hashing a value of a built-in type feeds exactly its complete contents once, components in declaration order")
    R.rule("feed-slice", "hashing a slice feeds every element / all its bytes, in order")
    todo = []
    for ty, m in INTS.items():
        todo.append((ty, [(m, "self")]))
    todo.append(("bool", [("write_u8", "bool")]))
    todo.append(("char", [("write_u32", "self")]))
    for ty in ("str", "std::string::String", "std::vec::Vec", "[T; N]"):
        todo.append((ty, [("data", "self")]))
    names = "ABCDEFGHIJKL"
    for n in range(0, 13):
        todo.append(("(%s)" % ",".join(names[:n]), [("hashable", i) for i in range(n)]))
    todo.append(("&T", [("hashable", "self")]))
    todo.append(("&mut T", [("hashable", "self")]))
    todo.append(("[T]", [("slice", "self")]))
    for ty, want in todo:
        K = "<%s as hash::Hashable>::hash" % ty
        if not A.has(K):
            R.missing(K)
            continue
        run = A.run(K, ("self", "state"))
        feed(R, run, K, "feed", [exp(run, w) for w in want])
    for K in list(INTS) + ["[T; N]"]:
        k = "<%s as hash::Hashable>::hash_slice" % K
        if not A.has(k):
            # falls back to the default method, which feeds element by element
            R.ok("feed-slice", k, "default method")
            continue
        run = A.run(k, ("data", "state"))
        D, S = run.args
        try:
            got = mergelits(stream(run, run.final(1), S))
        except Unrec as u:
            R.und("feed-slice", k, str(u))
            continue
        if len(got) == 1 and got[0][0] == "data":
            x = got[0][1]
            if x.op == "app" and x.a[0] == "rawslice" and x.a[1] is D:
                size = num(models.SIZES[K]) if K in INTS else mk("tysym", "const:N")
                if x.a[2] is mul(vlen(D), size) or same(x.a[2], mul(vlen(D), size), []) in ("id", "eq"):
                    R.ok("feed-slice", k)
                elif resolved(x):
                    R.bad("feed-slice", k, "feeds %s bytes of the slice, which holds len * size_of::<%s>() bytes" % (clip(show(x.a[2])), K))
                else:
                    R.und("feed-slice", k, clip(show(x)))
                continue
        if len(got) == 1 and got[0][0] == "loop":
            li = got[0][1]
            idx = mk("idx", li.header)
            b = mergelits(got[0][2])
            if len(b) == 1 and b[0][0] == INTS.get(K) and b[0][1] is elem(D, idx) or b and b[0] == ("hashable", elem(D, idx)):
                if loop_over(run, li, D):
                    R.ok("feed-slice", k)
                    continue
        if run.eng.unknown or contains_unres(got):
            R.und("feed-slice", k, desc(got))
        elif not got:
            R.bad("feed-slice", k, "a slice contributes nothing to the hash")
        else:
            R.und("feed-slice", k, desc(got))
    k = "hash::Hashable::hash_slice"
    if not A.has(k):
        return R.missing(k)
    run = A.run(k, ("data", "state"))
    D, S = run.args
    try:
        got = mergelits(stream(run, run.final(1), S))
    except Unrec as u:
        return R.und("feed-slice", k, str(u))
    if len(got) == 1 and got[0][0] == "loop" and mergelits(got[0][2]) == [("hashable", elem(D, mk("idx", got[0][1].header)))] and loop_over(run, got[0][1], D):
        R.ok("feed-slice", k)
    elif run.eng.unknown or contains_unres(got):
        R.und("feed-slice", k, desc(got))
    else:
        R.bad("feed-slice", k, "feeds [%s] instead of every element in order" % clip(desc(got), 400))
    for ty in ("*const T", "*mut T"):
        K = "<%s as hash::Hashable>::hash" % ty
        if not A.has(K):
            R.missing(K)
            continue
        run = A.run(K, ("self", "state"))
        try:
            got = stream(run, run.final(1), run.args[1])
        except Unrec as u:
            R.und("feed", K, str(u))
            continue
        def cnt(s):
            m = [x for x in s if x[0] == "ite"]
            if m:
                return min(cnt(m[0][2]), cnt(m[0][3]))
            return len(s)
        if cnt(got) >= 1:
            R.ok("feed", K)
        else:
            R.bad("feed", K, "some pointer values contribute nothing to the hash")


def exp(run, w):
    S = run.args[0]
    if w[1] == "self":
        return (w[0], S)
    if w[1] == "bool":
        return (w[0], ite(S, num(1), num(0)))
    return (w[0], fld(S, str(w[1])))


def feed(R, run, K, rule, want):
    try:
        got = mergelits(stream(run, run.final(1), run.args[1]))
    except Unrec as u:
        return R.und(rule, K, str(u))
    ok = len(got) == len(want)
    if ok:
        for g, w in zip(got, want):
            if w[0] == "data":
                ok = ok and g[0] == "data" and bytes_of(g[1], w[1]) or (g[0] in ("slice",) and g[1] is w[1])
            elif w[0] == "slice":
                ok = ok and (g[0] in ("slice", "hashable") and g[1] is w[1] or g[0] == "loop" and loop_over(run, g[1], w[1]) and mergelits(g[2]) == [("hashable", elem(w[1], mk("idx", g[1].header)))])
            else:
                ok = ok and g[0] == w[0] and (g[1] is w[1] or same(g[1], w[1], []) in ("id", "eq"))
    if ok:
        return R.ok(rule, K)
    if run.eng.unknown or contains_unres(got):
        return R.und(rule, K, desc(got))
    R.bad(rule, K, "feeds [%s] into the hasher, required [%s]" % (clip(desc(got), 300), clip(desc(want), 300)))


# ------------------------------------------------------------------ fresh hasher
def hbase(run, t, seen=()):
    """possible origins of a hasher state before the data hashed here was fed; 'used' marks earlier digests"""
    if t in seen:
        return set()
    if t.op == "default":
        return {("default",)}
    if t.op == "arg":
        return {("arg", t.a[1])}
    if t.op == "app" and isinstance(t.a[0], str) and t.a[0].startswith("mut"):
        n = t.a[0].split(":", 1)[1]
        i = int(t.a[0][3:t.a[0].index(":")])
        inner = hbase(run, t.a[1 + i], seen)
        if n in ("Algorithm::hash", "Algorithm::leaf", "Algorithm::node", "Algorithm::multi_node"):
            return {("used", n)} | {x for x in inner if x[0] == "arg"}
        return inner
    if t.op == "ite":
        return hbase(run, t.a[1], seen) | hbase(run, t.a[2], seen)
    if t.op == "mu":
        r = run.rec(t)
        if r is None:
            return {("?", show(t))}
        return hbase(run, r[0], seen + (t,)) | hbase(run, r[1], seen + (t,))
    return {("?", clip(show(t), 80))}


HASHCALLS = ("Algorithm::leaf", "Algorithm::node", "Algorithm::multi_node", "Algorithm::hash")


def pure_default(run, t, seen=()):
    if t.op == "default":
        return True
    if t.op == "ite":
        return pure_default(run, t.a[1], seen) and pure_default(run, t.a[2], seen)
    return False


def roots(A):
    for k, fn in sorted(A.c.fns.items()):
        if "{closure" in k or "::tests::" in k or k.startswith("test_legacy") or "serde" in k or "fmt::Debug" in k:
            continue
        yield k


def C03(R, A):
    R.rule("fresh", "every leaf / node digest is computed by a hasher in its initial state (new, default or reset) before its input is fed")
    seen = {}
    found = set()
    for k in roots(A):
        if k.startswith("hash::Algorithm::"):
            continue
        run = A.run(k)
        for e in run.calls(*HASHCALLS):
            recv = e.args[0]
            bs = hbase(run, recv)
            site = "%s -> %s" % (short_fn(k), e.name)
            if any(b[0] == "arg" for b in bs):
                continue
            found.add(k)
            if e.name != "Algorithm::hash":
                # nothing may have been fed to the hasher either
                if not pure_default(run, recv) and bs <= {("default",)}:
                    bs = {("fed", "data written before the node was hashed")}
            bad = [b for b in bs if b[0] in ("used", "fed")]
            unk = [b for b in bs if b[0] == "?"]
            if bad:
                R.bad("fresh", site, "the hasher may already have absorbed other data when this digest is computed (%s): state %s" % (bad[0][1], clip(show(recv))), sp=e.sp)
            elif unk:
                R.und("fresh", site, "hasher origin not recognised " + unk[0][1])
            else:
                R.ok("fresh", site)
    if not found:
        R.bad("anchor", "hashing", "no digest computation found in the crate")
