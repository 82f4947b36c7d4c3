"""C19: lock discipline of the parallel builders.

A forward dataflow over each function's control-flow graph computes which
locals may hold a lock guard; every call made while one is held is looked up in
the call graph for operations that can block."""
from fw import *

GUARD = ("RwLockReadGuard", "RwLockWriteGuard", "MutexGuard")
ACQ = {"read", "write", "lock"}
# parallel adaptors that only describe work
LAZY = {"par_iter", "into_par_iter", "par_iter_mut", "par_chunks", "par_chunks_mut", "par_chunks_exact", "par_windows", "par_bridge", "map", "filter",
        "filter_map", "flat_map", "flat_map_iter", "enumerate", "zip", "zip_eq", "chunks", "step_by", "rev", "skip", "take", "cloned", "copied", "inspect",
        "with_min_len", "with_max_len", "chain", "map_with", "map_init", "by_exponential_blocks", "fold", "fold_with", "len", "opt_len",
        "current_num_threads", "current_thread_index", "max_num_threads", "interleave"}
WAIT = {"std::thread::JoinHandle::join", "std::thread::scope", "std::sync::Condvar::wait", "std::sync::Condvar::wait_while", "std::sync::Barrier::wait",
        "std::sync::mpsc::Receiver::recv", "std::sync::mpsc::SyncSender::send", "std::thread::park", "std::sync::mpsc::Receiver::iter"}


def names(f):
    return [x for x in (f.get("res"), f.get("def")) if x]


def is_acq(f):
    return any(n.startswith("std::sync::") and ("RwLock" in n or "Mutex" in n) and n.rsplit("::", 1)[-1] in ACQ or n.startswith("parking_lot") and n.rsplit("::", 1)[-1] in ACQ for n in names(f))


def is_par(f):
    for n in names(f):
        if n.lstrip("<").startswith(("rayon::", "rayon_core::")) or " as rayon::" in n:
            return n.rsplit("::", 1)[-1] not in LAZY
    return False


def is_wait(f):
    return any(n in WAIT for n in names(f))


class Graph(object):
    def __init__(self, c):
        self.c = c
        self.out = {}
        self.why = {}
        self.methods = {}
        for k in c.fns:
            if k.startswith("<") and " as " in k and ">::" in k:
                tr, m = k[1:].split(" as ", 1)[1].rsplit(">::", 1) if "{" not in k.rsplit(">::", 1)[-1] else (None, None)
                if tr:
                    self.methods.setdefault((tr.split("<")[0], m), []).append(k)

    def callees(self, f):
        r = []
        for n in names(f):
            if n in self.c.fns:
                r.append(n)
        if not f.get("res") and f.get("trait"):
            m = f["def"].rsplit("::", 1)[-1]
            r += self.methods.get((f["trait"].split("<")[0], m), [])
        return r

    def edges(self, k):
        """local functions reached from k, closures it creates included"""
        if k in self.out:
            return self.out[k]
        es = []
        for b in self.c.fns[k]["blocks"]:
            if b.get("cleanup"):
                continue
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure" and s[2][1][1] in self.c.fns:
                    es.append(s[2][1][1])
            t = b["t"]
            if t["k"] == "call" and isinstance(t.get("f"), dict):
                es += self.callees(t["f"])
        self.out[k] = es
        return es

    def blocking(self, k):
        """a path from k to an operation that can block, or None"""
        if k in self.why:
            return self.why[k]
        self.why[k] = None
        seen = {k: None}
        work = [k]
        while work:
            x = work.pop()
            for b in self.c.fns[x]["blocks"]:
                t = b["t"]
                if b.get("cleanup") or t["k"] != "call" or not isinstance(t.get("f"), dict):
                    continue
                w = classify(t["f"])
                if w:
                    p = []
                    while x is not None:
                        p.append(short_fn(x))
                        x = seen[x]
                    self.why[k] = " -> ".join(reversed(p)) + ", which " + w
                    return self.why[k]
            for y in self.edges(x):
                if y not in seen:
                    seen[y] = x
                    work.append(y)
        return None


def classify(f):
    if is_acq(f):
        return "takes a lock (%s)" % names(f)[-1]
    if is_par(f):
        return "runs parallel work (%s)" % names(f)[-1]
    if is_wait(f):
        return "waits for another thread (%s)" % names(f)[-1]
    return None


def guards(c, f):
    g = set()
    for i, l in enumerate(f["locals"]):
        s = c.tys(l[0])
        if any(x in s for x in GUARD) and not s.startswith("&") and "fn(" not in s and "{closure" not in s:
            g.add(i)
    return g


def moved(o, out):
    if isinstance(o, (list, tuple)):
        if len(o) == 2 and o[0] == "m" and isinstance(o[1], (list, tuple)):
            out.append(o[1][0])
            return
        for x in o:
            moved(x, out)


def closures(c, ty):
    t = c.ty(ty)
    s = t.get("s", "") if isinstance(t, dict) else ""
    if "closure" not in s:
        return []
    return [x for x in walk(t, c) if x in c.fns]


def walk(t, c, d=0):
    out = []
    if isinstance(t, str):
        out.append(t)
    elif isinstance(t, dict):
        for v in t.values():
            out += walk(v, c, d)
    elif isinstance(t, (list, tuple)):
        for v in t:
            out += walk(v, c, d)
    return out


def succ(t):
    r = []
    for k in ("t", "o"):
        if isinstance(t.get(k), int):
            r.append(t[k])
    if t["k"] == "switch":
        r += [x[1] for x in t["v"]]
    return r


def held_calls(c, f, gs):
    """(call terminator, block, locals that may hold a guard) for calls made while one is held"""
    n = len(f["blocks"])
    inn = [None] * n
    inn[0] = frozenset(i for i in gs if 0 < i <= f["argc"])
    work = [0]
    seen = {}
    while work:
        b = work.pop()
        h = set(inn[b])
        bl = f["blocks"][b]
        for s in bl["s"]:
            if s[0] == "=":
                m = []
                moved(s[2], m)
                h -= {x for x in m if x in gs}
                if s[1][0] in gs and s[2][0] in ("use", "agg", "cast") and (any(x in gs for x in m)):
                    h.add(s[1][0])
            elif s[0] == "dead":
                h.discard(s[1])
        t = bl["t"]
        if t["k"] == "drop":
            if not t["p"][1]:
                h.discard(t["p"][0])
        elif t["k"] == "call":
            m = []
            moved(t.get("a", []), m)
            mg = {x for x in m if x in h}
            h -= mg
            seen[b] = (t, frozenset(h), frozenset(mg))
            if t["d"][0] in gs:
                h.add(t["d"][0])
        for s2 in succ(t):
            if f["blocks"][s2].get("cleanup"):
                continue
            new = frozenset(h) | (inn[s2] or frozenset())
            if inn[s2] is None or new != inn[s2]:
                inn[s2] = new
                work.append(s2)
    return seen


def C19(R, A):
    R.rule("held", "while a thread holds a lock it takes no lock, waits for no thread and runs no parallel work, through any store implementation")
    R.rule("released", "no guard escapes being released")
    c = A.c
    G = Graph(c)
    locks = 0
    for k in sorted(c.fns):
        f = c.fns[k]
        gs = guards(c, f)
        if not gs:
            continue
        site = short_fn(k)
        for b, (t, h, mg) in sorted(held_calls(c, f, gs).items()):
            fn = t.get("f")
            if not isinstance(fn, dict):
                if h:
                    R.und("held", site, "call through a value")
                continue
            nm = fn.get("def") or fn.get("res")
            if is_acq(fn):
                locks += 1
            if mg and any(n in ("std::mem::forget", "std::mem::ManuallyDrop::new", "std::boxed::Box::leak") for n in names(fn)):
                R.bad("released", site, "%s keeps the guard from being released" % nm, None, f["blocks"][b]["sp"])
                continue
            if not h:
                continue
            w = classify(fn)
            if w:
                R.bad("held", site + "/" + nm, "%s while it holds a lock" % w, None, f["blocks"][b]["sp"])
                continue
            bad = None
            # a closure handed over may run before the call returns
            clos = [y for a in t.get("at", []) for y in closures(c, a)]
            for y in G.callees(fn) + clos:
                bad = G.blocking(y)
                if bad:
                    break
            if bad:
                R.bad("held", site + "/" + nm, "calls %s while it holds a lock" % bad, None, f["blocks"][b]["sp"])
            else:
                R.ok("held", site + "/" + nm)
    R.ok("released", "crate", "%d functions, %d acquisitions" % (len(c.fns), locks))
