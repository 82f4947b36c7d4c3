"""Decide one property on the current source of /repo.
usage: check.py PROPERTY MIR.json"""
import json, os, signal, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)


class Timeout(BaseException):
    pass


def known():
    out = {}
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                key, _, what = line[7:].partition(" :: ")
                out[key.strip()] = what.strip()
    return out


def main():
    prop, path = sys.argv[1], sys.argv[2]
    t0 = float(os.environ.get("VERIF_T0") or time.time())
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import eqv
    eqv.configure(seed, tier)
    from fw import Analysis, Report, clip
    import rules
    A = Analysis(path)
    R = Report(prop)

    def alarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(600)
    try:
        rules.ALL[prop](R, A)
    except Timeout:
        R.und("time", prop, "analysis budget exhausted")
    except Exception:
        R.und("internal", prop, traceback.format_exc()[-1500:])
    signal.alarm(0)
    kn = known()
    new, old, seen = [], [], set()
    for b in R.bads:
        if b["key"] in seen:
            continue
        seen.add(b["key"])
        (old if b["key"] in kn else new).append(b)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    evp = os.path.join(ROOT, "evidence", prop + ".json")
    rep = os.path.join(ROOT, "evidence", prop + ".violations.json")
    if os.path.exists(rep):
        os.unlink(rep)
    per = {}
    for r, s, h in R.oks:
        per[r] = per.get(r, 0) + 1
    samples = []
    done = set()
    for r, s, h in R.oks:
        if r not in done:
            done.add(r)
            samples.append({"rule": r, "site": s, "decided_by": h or "syntactic match on the value graph"})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis of the MIR of /repo's working tree, as rustc's borrow-checked intermediate representation: "
                           "every function reached from the listed roots is translated to gated value-number terms (loops stay as "
                           "recurrences, nothing is executed); each obligation compares what a call site, return value or recurrence "
                           "is with what the rule requires. 'undecided' obligations are reported here and claim nothing.",
            "obligations": len(R.oks) + len(R.bads) + len(R.unds),
            "discharged": len(R.oks),
            "undecided": len(R.unds),
            "rules": R.rules,
            "decided_per_rule": per,
            "samples": samples[:40],
            "roots_analysed": sorted({k[0] for k in A.cache}),
            "functions_traversed": len(A.nfun),
            "functions_in_crate": len(A.c.fns),
            "call_sites_and_effects_classified": A.nev,
            "undecided_list": [{"rule": r, "site": s, "why": clip(w, 400)} for r, s, w in R.unds][:50],
        },
        "assumptions": ASSUME,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    json.dump(ev, open(evp, "w"), indent=1, default=str)
    for b in old:
        print("KNOWN-FINDING: property=%s %s" % (prop, kn[b["key"]]))
    if new:
        json.dump(new, open(rep, "w"), indent=1, default=str)
        for b in new:
            print("  [%s] %s: %s" % (b["rule"], b["site"], b["what"]))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    print("%s: %d obligations discharged, %d undecided, no violation" % (prop, len(R.oks), len(R.unds)))
    return 0


ASSUME = [
    "rustc's MIR is a faithful rendering of the source; only the default cargo features and 64-bit targets are analysed",
    "models of std, rayon, memmap2, positioned-io and anyhow functions describe their documented behaviour",
    "arithmetic is exact (debug/overflow-checked semantics); an overflow panics rather than wraps",
    "Element/Algorithm implementations supplied by callers are deterministic and honour byte_len",
]

if __name__ == "__main__":
    sys.exit(main())
