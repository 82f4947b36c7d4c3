import sys, time
from fw import *
import importlib
def go(props, path='/tmp/w/mir.json'):
    A = Analysis(path)
    import rules
    for p in props or sorted(rules.ALL):
        t=time.time()
        R = Report(p)
        rules.ALL[p](R, A)
        print("==", p, "ok", len(R.oks), "bad", len(R.bads), "und", len(R.unds), "%.1fs" % (time.time()-t))
        for b in R.bads: print("   BAD", b["rule"], b["site"], b["what"][:700], b["witness"])
        for u in R.unds: print("   UND", [x[:260] for x in u])
        if '-v' in sys.argv:
            for u in R.oks: print("   ok", [x[:200] for x in u])
if __name__=="__main__":
    go([a for a in sys.argv[1:] if a[0]=='C'], ([a for a in sys.argv[1:] if a.endswith('.json')] or ['/tmp/w/mir.json'])[0])
