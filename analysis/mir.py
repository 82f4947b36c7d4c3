"""Loading and pretty-printing of the extracted MIR."""
import json
import os
import re
import terms


def sig(d, f):
    g = f.get("gn") or []
    if not g:
        return [d["types"][l[0]]["s"] for l in f["locals"][: f["argc"] + 1]]
    pat = re.compile(r"\b(%s)\b" % "|".join(map(re.escape, g)))
    return [pat.sub(lambda m: "$%d" % g.index(m.group(1)), d["types"][l[0]]["s"]) for l in f["locals"][: f["argc"] + 1]]


def inventory(d):
    fns = {k: sig(d, f) for k, f in d["fns"].items() if "{" not in k and not k.startswith("<") and "serde" not in k}
    fields = {}
    for k, a in d["adts"].items():
        if a.get("local") and "serde" not in k:
            fields[k] = [[v["n"], f["n"], d["types"][f["t"]]["s"]] for v in a["v"] for f in v["f"] if not f["n"].isdigit()]
    gn = {k: f.get("gn") or [] for k, f in d["fns"].items() if "{" not in k and "serde" not in k and f.get("gn")}
    enums = {k: [v["n"] for v in a["v"]] for k, a in d["adts"].items() if a.get("local") and a.get("kind") == "enum" and "serde" not in k}
    return {"fns": fns, "fields": fields, "gn": gn, "enums": enums}


def variants(d, base):
    """renamed variants of an enum, by position"""
    cur = inventory(d)["enums"]
    every = [v["n"] for a in d["adts"].values() for v in a["v"]]
    ren = {}
    for k, b in base.get("enums", {}).items():
        c = cur.get(k)
        if c is None or len(c) != len(b):
            continue
        for x, y in zip(c, b):
            if x != y and x not in b and y not in c and every.count(x) == 1:
                ren[x] = y
    if not ren:
        return

    def go(x):
        if isinstance(x, list):
            if len(x) == 3 and x[0] == "d" and x[1] in ren and isinstance(x[2], int):
                x[1] = ren[x[1]]
                return
            if len(x) > 3 and x[0] == "adt" and isinstance(x[2], int) and isinstance(x[3], str):
                x[3] = ren.get(x[3], x[3])
            for y in x:
                if isinstance(y, (list, dict)):
                    go(y)
        elif isinstance(x, dict):
            for y in x.values():
                if isinstance(y, (list, dict)):
                    go(y)
    go(d["fns"])
    for a in d["adts"].values():
        for v in a["v"]:
            v["n"] = ren.get(v["n"], v["n"])


def generics(d, base):
    """renamed type parameters, by position: {function: {today's name: known name}}"""
    out = {}
    for k, b in base.get("gn", {}).items():
        f = d["fns"].get(k)
        g = (f or {}).get("gn") or []
        if len(g) == len(b) and g != b:
            m = {x: y for x, y in zip(g, b) if x != y and y not in g and x not in b}
            if m:
                out[k] = m
    return out


def moved(d, base):
    """types and functions that now live in another module"""
    def once(gone, new, key):
        out = {}
        for k in gone:
            c = [x for x in new if x.rsplit("::", 1)[-1] == k.rsplit("::", 1)[-1] and key(x, k)]
            if len(c) == 1 and sum(g.rsplit("::", 1)[-1] == k.rsplit("::", 1)[-1] for g in gone) == 1:
                out[c[0]] = k
        return out

    def apply(d, m):
        txt = json.dumps(d)
        for a, b in sorted(m.items(), key=lambda x: -len(x[0])):
            txt = re.sub(r"(?<![\w:])" + re.escape(a) + r"(?!\w)", lambda _: b, txt)
        return json.loads(txt)
    adts = {k for k, a in d["adts"].items() if a.get("local") and "serde" not in k}
    m = once([k for k in base["fields"] if k not in adts], [k for k in adts if k not in base["fields"]], lambda x, k: True)
    if m:
        d = apply(d, m)
    cur = inventory(d)
    top = lambda k: len(k.split("::")) > 1 and k.split("::")[-2][:1].islower()
    m = once([k for k in base["fns"] if k not in cur["fns"] and top(k)], [k for k in cur["fns"] if k not in base["fns"] and top(k)],
             lambda x, k: cur["fns"][x] == base["fns"][k])
    return apply(d, m) if m else d


def canon(d):
    """give renamed private items the names the rules know them by: a known item
    that is gone and an unknown one of the same kind, place and type are taken
    to be the same"""
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "names.json")
    if not os.path.exists(p):
        return d
    with open(p) as f:
        base = json.load(f)
    d = moved(d, base)
    variants(d, base)
    cur = inventory(d)
    d["gnenv"] = {}
    names = {}
    every = {}
    for k, fs in cur["fields"].items():
        for v, n, t in fs:
            every.setdefault(n, set()).add(k)
    for k, fs in base["fields"].items():
        c = cur["fields"].get(k)
        if c is None:
            continue
        gone = [x for x in fs if (x[0], x[1]) not in {(y[0], y[1]) for y in c}]
        new = [y for y in c if (y[0], y[1]) not in {(x[0], x[1]) for x in fs}]
        for v, n, t in gone:
            same_ = [y for y in new if y[0] == v and y[2] == t]
            peers = [x for x in gone if x[0] == v and x[2] == t]
            if len(same_) == len(peers):
                names.setdefault(same_[peers.index([v, n, t])][1], {}).setdefault(n, set()).add(k)
    ren = {}
    for n, to in names.items():
        if len(to) == 1:
            (o, ks), = to.items()
            if every[n] <= ks:
                ren[n] = o
    if ren:
        rename_fields(d, ren)
    # functions
    cur = inventory(d)
    gone = [k for k in base["fns"] if k not in cur["fns"]]
    new = [k for k in cur["fns"] if k not in base["fns"]]
    fr = {}
    for k in gone:
        par = k.rsplit("::", 1)[0]
        peers = [x for x in gone if x.rsplit("::", 1)[0] == par and base["fns"][x] == base["fns"][k]]
        cand = [x for x in new if x.rsplit("::", 1)[0] == par and cur["fns"][x] == base["fns"][k]]
        if len(peers) == 1 and len(cand) == 1:
            fr[cand[0]] = k
    if fr:
        txt = json.dumps(d)
        for a, b in fr.items():
            txt = re.sub(re.escape(json.dumps(a)[1:-1]) + r'(?=[":{])', lambda m: json.dumps(b)[1:-1], txt)
        d = json.loads(txt)
    d["gnenv"] = generics(d, base)
    return d


def rename_fields(d, ren):
    def go(x):
        if isinstance(x, list):
            if len(x) == 3 and x[0] == "f" and x[1] in ren and isinstance(x[2], int):
                x[1] = ren[x[1]]
                return
            if len(x) > 4 and x[0] == "adt" and isinstance(x[4], list):
                x[4] = [ren.get(n, n) if isinstance(n, str) else n for n in x[4]]
            for y in x:
                if isinstance(y, (list, dict)):
                    go(y)
        elif isinstance(x, dict):
            for y in x.values():
                if isinstance(y, (list, dict)):
                    go(y)
    go(d["fns"])
    for a in d["adts"].values():
        for v in a["v"]:
            for f in v["f"]:
                f["n"] = ren.get(f["n"], f["n"])


class Crate:
    def __init__(self, path):
        with open(path) as f:
            d = canon(json.load(f))
        self.fns = d["fns"]
        self.types = d["types"]
        self.adts = d["adts"]
        self.consts = d["consts"]
        self.impls = d["impls"]
        self.gnenv = d.get("gnenv", {})
        for k, f in self.fns.items():
            f["key"] = k
        for k, a in self.adts.items():
            if len(a["v"]) > 1 and k.split("::")[0] in ("merkle", "store", "proof", "hash") and "serde" not in k:
                names = [v["n"] for v in a["v"]]
                for n in names:
                    terms.CHAIN[n] = names

    def ty(self, i):
        return self.types[i] if isinstance(i, int) else i

    def tys(self, i):
        return self.types[i]["s"] if isinstance(i, int) else str(i)


def fmt_place(p):
    s = "_%d" % p[0]
    for e in p[1]:
        if e == "*":
            s = "(*%s)" % s
        elif e[0] == "f":
            s += ".%s" % e[1]
        elif e[0] == "i":
            s += "[_%d]" % e[1]
        elif e[0] == "d":
            s += " as %s" % e[1]
        else:
            s += str(e)
    return s


def fmt_op(c, o):
    if o[0] in ("c", "m"):
        return fmt_place(o[1])
    if o[0] == "k":
        k = o[1]
        if "v" in k:
            return str(k["v"])
        if "fn" in k:
            return "fn:" + k["fn"]["def"]
        return str({x: y for x, y in k.items() if x != "ty"})
    return str(o)


def fmt_rv(c, r):
    if r[0] == "use":
        return fmt_op(c, r[1])
    if r[0] == "ref":
        return "&%s%s" % ("mut " if r[1] else "", fmt_place(r[2]))
    if r[0] == "bin":
        return "%s(%s, %s)" % (r[1], fmt_op(c, r[2]), fmt_op(c, r[3]))
    if r[0] == "un":
        return "%s(%s)" % (r[1], fmt_op(c, r[2]))
    if r[0] == "cast":
        return "%s as %s {%s}" % (fmt_op(c, r[2]), c.tys(r[3]), r[1])
    if r[0] == "discr":
        return "discr(%s)" % fmt_place(r[1])
    if r[0] == "agg":
        return "%s(%s)" % (r[1][:4], ", ".join(fmt_op(c, x) for x in r[2]))
    return str(r)


def dump_fn(c, f):
    print("fn", f["key"], f["sp"])
    for i, l in enumerate(f["locals"]):
        print("   _%d: %s  %s" % (i, c.tys(l[0]), l[1] or ""))
    for i, b in enumerate(f["blocks"]):
        if b["cleanup"]:
            continue
        print(" bb%d:  // %s" % (i, b["sp"]))
        for s in b["s"]:
            if s[0] == "=":
                print("    %s = %s" % (fmt_place(s[1]), fmt_rv(c, s[2])))
            else:
                print("    ", s)
        t = b["t"]
        if t["k"] == "call":
            f_ = t["f"]
            nm = f_.get("res") or f_.get("def") or str(f_)
            print("    %s = CALL %s [%s](%s) -> %s" % (fmt_place(t["d"]), nm, ",".join(c.tys(x) if isinstance(x, int) else str(x) for x in f_.get("args", [])), ", ".join(fmt_op(c, a) for a in t["a"]), t["t"]))
        elif t["k"] == "switch":
            print("    switch %s %s else %s" % (fmt_op(c, t["d"]), t["v"], t["o"]))
        else:
            print("    ", {k: v for k, v in t.items()})


if __name__ == "__main__":
    import sys
    c = Crate(sys.argv[1])
    for k, f in c.fns.items():
        if sys.argv[2] in k:
            dump_fn(c, f)
