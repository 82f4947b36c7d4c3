import sys, time
from mir import Crate
from terms import *
import engine, models
GEOM = {"get_merkle_tree_len","get_merkle_tree_leafs","get_merkle_tree_cache_size","get_merkle_tree_row_count","is_merkle_tree_size_valid","get_merkle_proof_lemma_len"}
def opaque(key, eng):
    last = key.split("::")[-1]
    if key.startswith("merkle::") and last in GEOM and key.count("::")==1: return True
    if last in ("default_rows_to_discard","data_path"): return True
    if last in ("build","process_layer","build_small_tree") : return True
    return False
def S(t,n=3000):
    x=show(t); return x if len(x)<n else x[:n]+" ...[%d]"%len(x)
if __name__=="__main__":
    c=Crate('/tmp/w/mir.json')
    for key in [k for k in c.fns if sys.argv[1] in k and '::tests::' not in k and 'test_legacy' not in k and '{closure' not in k]:
        e=engine.Engine(c,opaque,models.Models())
        t0=time.time()
        st,v=e.run_root(key)
        hp=v is not None and contains(v,lambda x:x.op=="phi")
        print("=====",key,"%.2fs"%(time.time()-t0),"events",len(e.events),"unknown",e.unknown,"PHI" if hp else "", len(show(v)) if v is not None else "")
        if '-q' in sys.argv: continue
        print("RET",S(v) if v is not None else None)
        if '-e' in sys.argv:
            for ev in e.events:
                if ev.kind!='inline': print("  ",ev.kind,ev.name,"|",", ".join(S(a,400) for a in ev.args),"|",ev.sp)
        if '-l' in sys.argv:
            for l,i in e.loops.items():
                print("LOOP",l[-60:])
                for mu,(a,b,t) in i.cells.items(): print("    ",show(mu),"@",show(mu.a[1]),mu.a[2],"init",S(a,200)," next ",S(b,400)," form ",S(t,200))
        if '-f' in sys.argv and st:
            for f in st.facts: print("  F",S(f,300))
