"""oscillation debugging: dh.py KEY opaque..."""
import sys;sys.path[:0]=['/verif','/verif/tools']
import dbg
from engine import core
from engine.core import *
def sg(g): return ' & '.join(show(x[0])[-90:]+'='+str(x[1]) for x in g)
old=Engine.dbg_heads
def dh(self,a,b,rounds):
    if rounds<28: return
    print('ROUND',rounds,len(a),len(b))
    for k in b:
        if k not in a: print(' newkey'); continue
        for c in b[k].store:
            x,y=a[k].store.get(c),b[k].store.get(c)
            if x is y: continue
            if x and y and x[0]==y[0]=='S' and x[2] and y[2] and x[2][-1][0]==y[2][-1][0]=='each':
                A,B=set(x[2][-1][2]),set(y[2][-1][2])
                print(rounds,'cell',str(c)[:60],'pieces',len(x[2]),len(y[2]),'alts',len(A),len(B),len(A-B),len(B-A), 'src same',x[2][-1][1] is y[2][-1][1])
                for z in list(A-B)[:1]: print('  -G',sg(z[0])[-700:],'\n  -D',show(z[1]) if isinstance(z[1],T) else [show(q)[:300] for q in z[1]])
                for z in list(B-A)[:1]: print('  +G',sg(z[0])[-700:],'\n  +D',[show(q)[:300] for q in z[1]])
            else:
                for d in (tdiff(x,y) if x and y else [('-','-')])[:2]: print(rounds,'cell',str(c)[:60],'\n  ',d[0][:300],'\n  ',d[1][:300])
        for f in set(a[k].facts)|set(b[k].facts):
            if a[k].facts.get(f)!=b[k].facts.get(f): print('fact',show(f)[:200],a[k].facts.get(f),b[k].facts.get(f))
Engine.dbg_heads=dh
core.DEBUG=True
P=dbg.load()
op={}
a=sys.argv[1:]
for x in a[1:]:
    for k in P.find(x): op[k]=None
e=Engine(P,opaque=op)
k=a[0] if a[0] in P.bodies else P.find(a[0])[0]
try: o=e.run(k); print('ok',len(o),len(e.sink),e.steps)
except Abort as x: print('ABORT',x)
