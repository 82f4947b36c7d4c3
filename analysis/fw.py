"""Rule framework: analysis cache, obligations, verdicts."""
import time
from mir import Crate
from terms import *
import engine
import bdd
import models
import eqv
from eqv import same, holds, BL, resolved, prove
from util import *

GEOM = {"get_merkle_tree_len", "get_merkle_tree_leafs", "get_merkle_tree_cache_size",
        "get_merkle_tree_row_count", "is_merkle_tree_size_valid", "get_merkle_proof_lemma_len"}
BASE_OPAQUE = GEOM | {"default_rows_to_discard", "data_path", "build", "process_layer", "build_small_tree"}


def last(key):
    return key.split("::")[-1]


class Run(object):
    def __init__(self, key, eng, st, ret, args):
        self.key, self.eng, self.st, self.ret, self.args = key, eng, st, ret, args
        self.events = eng.events
        self.loops = eng.loops
        self._leaves = None

    @property
    def trusted(self):
        """no callee in the analysed region was left uninterpreted"""
        return not self.eng.unknown

    def leaves(self):
        if self._leaves is None:
            self._leaves = self.implied(leaves(self.ret)) if self.ret is not None else []
        return self._leaves

    def implied(self, ls):
        """each leaf with every literal its path condition entails; impossible leaves dropped"""
        out = []
        base = self.st.pc if self.st is not None else bdd.TRUE
        for lits, v in ls:
            b = base
            for l in lits:
                b = bdd.AND(b, bdd.of(l))
            if b is bdd.FALSE:
                continue
            for b in ([b] if v.op == "agg" and v.a[1] == "Err" else self.byeffects(b)):
                L, have, w = list(lits), set(lits), v
                for a, pol in sorted(bdd.units(b), key=lambda x: x[0].id):
                    l = a if pol else bnot(a)
                    if l not in have and not contains(l, lambda x: x.op == "exit"):
                        L.append(l)
                        w = engine.under(w, l)
                out.append((L, w))
        return out

    def byeffects(self, b):
        """split a path condition by which of the file effects have happened"""
        bs = [b]
        for e in self.events:
            if e.kind == "call" and not e.loops and (e.name.startswith("io:") or e.name == "open"):
                nb = []
                for x in bs:
                    y, z = bdd.AND(x, e.pc), bdd.AND(x, bdd.NOT(e.pc))
                    nb += [q for q in (y, z) if q is not bdd.FALSE]
                if len(nb) > 16:
                    break
                bs = nb
        return bs

    def calls(self, *names, **kw):
        kinds = kw.get("kinds", ("call",))
        return [e for e in self.events if e.kind in kinds and e.name in names]

    def panics(self):
        return [e for e in self.events if e.kind == "panic"]

    def final(self, i):
        """value behind the i-th argument at return"""
        if self.st is None:
            return None
        return self.eng.deep(self.st, self.eng.load(self.st, self.args[i]))

    def rec(self, mu):
        """(init, next, header form) of a loop-carried cell"""
        for li in self.loops.values():
            if mu in li.cells:
                return li.cells[mu]
        return None

    def loop_of(self, mu):
        for li in self.loops.values():
            if mu in li.cells:
                return li
        return None


class Analysis(object):
    def __init__(self, path):
        self.c = Crate(path)
        self.cache = {}
        self.nfun = set()
        self.nev = 0

    def has(self, key):
        return key in self.c.fns

    def run(self, key, names=None, opaque=(), transparent=(), env=None):
        ck = (key, tuple(names or ()), frozenset(opaque), frozenset(transparent), tuple(sorted((env or {}).items())))
        r = self.cache.get(ck)
        if r is not None:
            return r
        fn = self.c.fns[key]
        op = (BASE_OPAQUE | set(opaque)) - set(transparent)

        def isop(k, eng):
            l = last(k)
            if l in GEOM and not (k.startswith("merkle::") and k.count("::") == 1):
                return False
            return l in op or k in op
        e = engine.Engine(self.c, isop, models.Models())
        args = []
        for i in range(fn["argc"]):
            n = names[i] if names and i < len(names) else (fn["locals"][i + 1][1] or "a%d" % i)
            args.append(mk("arg", i, n))
        e0 = {x: ("param", y) for x, y in self.c.gnenv.get(key, {}).items()}
        e0.update(env or {})
        st, v = e.run_root(key, args=list(args), env=e0)
        r = Run(key, e, st, v, args)
        self.cache[ck] = r
        self.nfun |= e.funcs_seen
        self.nev += len(e.events)
        return r


class Report(object):
    def __init__(self, prop):
        self.prop = prop
        self.oks = []
        self.bads = []
        self.unds = []
        self.rules = {}

    def part(self, fn, *a, **k):
        """run one group of obligations; an internal failure leaves only that group undecided"""
        try:
            return fn(self, *a, **k)
        except Exception:
            import traceback
            self.und("internal", getattr(fn, "__name__", "?"), traceback.format_exc()[-800:])

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, site, how="", n=1):
        self.oks.append((rule, site, how))

    def bad(self, rule, site, msg, witness=None, sp=None):
        self.bads.append({"key": "%s|%s|%s" % (self.prop, rule, site), "rule": rule, "site": site,
                          "what": msg, "witness": witness, "span": sp})

    def und(self, rule, site, why):
        self.unds.append((rule, site, why))

    def missing(self, key):
        if key.rsplit("::", 1)[-1] in PRIVATE:
            # free to be inlined or reshaped
            return self.und("anchor", key, "private helper no longer exists")
        self.bad("anchor", key, "public item `%s` this property is anchored at was not found in the compiled crate" % key)

    def same(self, rule, site, got, want, facts=(), msg="", run=None, sp=None):
        """got must be the value want"""
        if got is None:
            self.und(rule, site, "value not recovered")
            return False
        r = same(got, want, facts)
        if r in ("id", "eq"):
            self.ok(rule, site, r)
            return True
        if isinstance(r, tuple):
            if not resolved(got) or stray(got, want, facts) or unmodelled(got, want):
                self.und(rule, site, "differs, but value not fully resolved: " + show(got)[:200])
                return False
            self.bad(rule, site, "%s: code computes %s, required %s" % (msg or "value", clip(show(got)), clip(show(want))), r[1], sp)
            return False
        self.und(rule, site, "no decision for " + clip(show(got)))
        return False

    def holds(self, rule, site, facts, goal, msg="", run=None, sp=None):
        r = holds(list(facts), goal)
        if r in ("proved", "eq"):
            self.ok(rule, site, r)
            return True
        if isinstance(r, tuple):
            if run is not None and not run.trusted:
                self.und(rule, site, "uninterpreted callees %s" % list(run.eng.unknown)[:3])
                return False
            if not resolved(goal):
                self.und(rule, site, "goal not resolved " + clip(show(goal)))
                return False
            self.bad(rule, site, "%s: %s is not established" % (msg or "guard", clip(show(goal))), r[1], sp)
            return False
        self.und(rule, site, "no decision for " + clip(show(goal)))
        return False


PRIVATE = {"build_partial_tree", "populate_data_par", "gen_sub_tree_proof", "gen_cached_top_tree_proof", "gen_cached_sub_tree_proof",
           "validate_sub_tree_proof", "store_read_range_internal", "read_range_internal", "read_at_internal", "is_readable", "set_len"}


def stray(got, want, facts):
    """a loop counter or loop-carried cell in got that neither the requirement
    nor the assumptions speak of: the loop that computes it was not summarised"""
    seen = set()
    for t in [want] + list(facts):
        seen.update(x for x in subterms(t) if x.op in ("idx", "mu"))
    return any(x.op in ("idx", "mu") and x not in seen for x in subterms(got))


def unmodelled(got, want):
    """results of callees nothing is known about, which may be what is required"""
    def of(t):
        return set(x for x in subterms(t) if x.op == "res" and x.a[0] in models.UNKNOWN)
    return bool(of(got) - of(want))


def clip(s, n=300):
    return s if len(s) <= n else s[:n] + "..."


# ------------------------------------------------------------ term helpers
def iscall(t, name, n=None):
    return t.op in ("app", "res") and t.a[0] == name


def callargs(t):
    return list(t.a[1:]) if t.op == "app" else list(t.a[3:])


def calls_in(t, name):
    return [x for x in subterms(t) if iscall(x, name)]


def mus(t):
    return [x for x in subterms(t) if x.op == "mu"]


def elen(t):
    """elem_len fields are the element byte length (checked by the constructors' rule)"""
    m = {}
    for x in subterms(t):
        if x.op == "fld" and x.a[2] == "elem_len":
            m[x] = BL
    return subst(t, m) if m else t


def flit(facts):
    return [f for f in facts]


def pos(l):
    return l.a[0] if l.op == "not" else l


def short_fn(k):
    return k.replace("store::disk::", "").replace("store::level_cache::", "").replace("store::mmap::", "").replace("store::vec::", "").replace("store::Store", "Store").replace("merkle::MerkleTree", "MerkleTree").replace("proof::Proof", "Proof")
