import sys
from fw import *
A=Analysis('/tmp/w/mir.json')
def S(t,n=1500):
    x=show(t); return x if len(x)<n else x[:n]+" ...[%d]"%len(x)
for k in A.c.fns:
    if not (sys.argv[1]==k or sys.argv[1] in k and sys.argv[1].endswith(last(k))) or '::tests::' in k or 'test_legacy' in k: continue
    op=[a[1:] for a in sys.argv[2:] if a[0]=='+']; tr=[a[2:] for a in sys.argv[2:] if a[:2]=='-t']
    r=A.run(k,None,op,tr)
    print("=====",k,[show(a) for a in r.args],r.eng.unknown)
    print("LEAVES")
    for l,v in r.leaves(): print("   ",[S(x,140) for x in l],"=>",S(v))
    for e in r.events:
        if e.kind in('inline',) or 'fmt' in e.name or 'log::' in e.name: continue
        print("  ",e.kind,e.name,"|",", ".join(S(a,300) for a in e.args),"|",e.sp, "loops",[show(x) for x in e.loops])
        if '-f' in sys.argv: 
            for f in e.facts: print("        F",S(f,150))
    for l,i in r.loops.items():
        print("LOOP",l[-60:], show(mk("idx",l)))
        for mu,(a,b,t) in i.cells.items(): print("    ",show(mu),"init",S(a,200)," next ",S(b,400)," form ",S(t,200))
        for t,s in i.exits: print("     EXIT",[S(f,120) for f in s.facts if contains(f,lambda x:x.op in('idx','exit') and x.a[0]==l)])
