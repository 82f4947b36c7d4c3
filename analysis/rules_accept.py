"""C28: a proof whose hashes agree is not turned down."""
from fw import *
from rules_proof import lemma, path, sub_of, lastof, falsy, B
from rules_valid import prooval, alternatives, reach, Q, failed, OPEN

VAL = "proof::Proof::validate"


def tofalse(b):
    """the ways a truth value comes out false"""
    if b is FALSE:
        return [[]]
    if b is TRUE:
        return []
    if b.op == "ite":
        return [[b.a[0]] + x for x in tofalse(b.a[1])] + [[bnot(b.a[0])] + x for x in tofalse(b.a[2])]
    return [[bnot(b)]]


def totrue(b):
    if b is TRUE:
        return [[]]
    if b is FALSE:
        return []
    if b.op == "ite":
        return [[b.a[0]] + x for x in totrue(b.a[1])] + [[bnot(b.a[0])] + x for x in totrue(b.a[2])]
    return [[b]]


def answers(run, R, site):
    for lits, v in run.leaves():
        if v.op == "agg":
            if v.a[1] == "Ok":
                yield lits, v.a[3][0]
        elif not iscall(v, VAL):
            R.und("reject", site, "answer " + clip(show(v)))


def consistent(L):
    s = set(L)
    return not any(bnot(l) in s for l in L)


def asked(call):
    """the literal says: the nested validation answered true"""
    return lambda l: l.op == "fld" and l.a[1] == "Ok" and iscall(l.a[0], VAL) and callargs(l.a[0])[0] is call


def C28(R, A):
    R.rule("reject", "every way validate answers false, and every way it fails, is a disagreeing hash, a nested proof turned down, a failure of the nested proof, or not a proof of the library's shape")
    R.rule("reject-data", "validate_with_data answers false only if the data hash to another leaf or the proof is turned down")
    R.part(base, A)
    R.part(data, A)


def base(R, A):
    if not A.has(VAL):
        return R.missing(VAL)
    run = A.run(VAL, ("self",), opaque=("proof::Proof::item",))
    S = run.args[0]
    q = Q(run, A.c.fns[VAL])
    site = "Proof::validate"
    alts = alternatives(prooval, q)
    root = lastof(lemma(S))
    nested = asked(sub_of(S))
    ans = list(answers(run, R, site))
    cmp_ = set()
    for lits, b in ans:
        for x in totrue(b):
            L = list(lits) + x
            if consistent(L):
                cmp_ |= set(l for l in L if l.op == "eq" and any(same(y, root, [m for m in lits if m.op != "exit"]) in ("id", "eq") for y in l.a))
    n = und = 0
    for lits, b in ans:
        for x in tofalse(b):
            L = list(lits) + x
            if not consistent(L):
                continue
            if any(bnot(l) in cmp_ or (l.op == "not" and nested(l.a[0])) or failed(l) for l in L):
                R.ok("reject", site)
                continue
            for M_ in exits(run, L):
                n += 1
                M_ = [elen(l) for l in M_]
                und += reach(R, run, q, "reject", site, [a + slots(S, M_, a) for a in alts], M_, "a proof whose hashes agree is turned down")
    R.ok("reject", site, "%d ways to answer false on other grounds, %d undecided" % (n, und))


def slots(S, L, facts):
    """positions on the path of a plain proof lie inside their groups"""
    p = path(S)
    if is_variant(fld(S, "sub_tree_proof"), "Some") in facts:
        return []
    out = []
    for x in set(y for l in L for y in subterms(l)):
        if x.op == "elem" and x.a[0] is p:
            out.append(lt(x, B))
    return out


def exits(run, L):
    """replace 'left that loop by another exit' by what holds at each such exit"""
    neg = {}
    for l in L:
        x = l.a[0] if l.op == "not" else l
        if x.op == "exit" and x.a[0] in run.loops:
            neg.setdefault(x.a[0], {})[x.a[1]] = l.op != "not"
    res = [[l for l in L if (l.a[0] if l.op == "not" else l).op != "exit"]]
    for lid, d in sorted(neg.items(), key=lambda z: str(z[0])):
        li = run.loops[lid]
        yes = [j for j, v in d.items() if v]
        js = yes[:1] or [j for j in range(len(li.exits)) if j not in d]
        nxt = []
        for r in res:
            for j in js:
                nxt.append(r + [f for f in li.exits[j][1].facts if f not in r and (f.a[0] if f.op == "not" else f).op != "exit"])
        res = nxt
    return [r for r in res if consistent(r)]


def data(R, A):
    K = "proof::Proof::validate_with_data"
    if not A.has(K):
        return R.missing(K)
    run = A.run(K, ("self", "leaf_data"), opaque=(VAL, "proof::Proof::item"))
    S, D = run.args
    site = "Proof::validate_with_data"
    mine = asked(S)
    ans = list(answers(run, R, site))

    def leafcmp(l):
        return l.op == "eq" and any(iscall(y, "Algorithm::leaf") for y in l.a) and any(iscall(y, "proof::Proof::item") for y in l.a)
    for lits, b in ans:
        for x in tofalse(b):
            L = list(lits) + x
            if not consistent(L):
                continue
            if any(l.op == "not" and (leafcmp(l.a[0]) or mine(l.a[0])) or failed(l) for l in L):
                R.ok("reject-data", site)
            elif any(contains(l, lambda y: y.op in OPEN or y.op == "exit") for l in L) or not run.trusted:
                R.und("reject-data", site, clip("; ".join(show(l) for l in L)))
            else:
                R.bad("reject-data", site, "data that hash to the leaf of a valid proof are turned down when %s" % clip("; ".join(show(l) for l in L) or "anything"))
    for lits, v in run.leaves():
        if v.op == "agg" and v.a[1] == "Err" and not any(failed(l) for l in lits) and run.trusted and \
                not any(contains(l, lambda y: y.op in OPEN or y.op == "exit") for l in lits):
            R.bad("reject-data", site, "fails though nothing below failed, when %s" % clip("; ".join(show(l) for l in lits)))
