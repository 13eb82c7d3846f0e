"""oscillation debugging of a rule: dhr.py C09 [rule function]"""
import sys;sys.path[:0]=['/verif','/verif/tools']
import dbg
from engine import core
from engine.core import *
def sg(g): return ' & '.join(show(x[0])[-90:]+'='+str(x[1]) for x in g)
old=Engine.dbg_heads
def dh(self,a,b,rounds):
    if rounds<28: return
    print('ROUND',rounds,len(a),len(b))
    for k in b:
        if k not in a: print(' newkey'); continue
        for c in b[k].store:
            x,y=a[k].store.get(c),b[k].store.get(c)
            if x is y: continue
            if x and y and x[0]==y[0]=='S' and x[2] and y[2] and x[2][-1][0]==y[2][-1][0]=='each':
                A,B=set(x[2][-1][2]),set(y[2][-1][2])
                print(rounds,'cell',str(c)[:60],'pieces',len(x[2]),len(y[2]),'alts',len(A),len(B),len(A-B),len(B-A), 'src same',x[2][-1][1] is y[2][-1][1])
                for lab,X in (('-',A-B),('+',B-A)):
                    for z in sorted(X,key=str_key)[:2]:
                        print('  '+lab+'G',sg(z[0])[-700:]); print('  '+lab+'D',[show(q)[:300] for q in z[1]])
            else:
                for d in (tdiff(x,y) if x and y else [('-','-')])[:2]: print(rounds,'cell',str(c)[:60],'\n  ',d[0][:300],'\n  ',d[1][:300])
        for f in set(a[k].facts)|set(b[k].facts):
            if a[k].facts.get(f)!=b[k].facts.get(f): print('fact',show(f)[:200],a[k].facts.get(f),b[k].facts.get(f))
Engine.dbg_heads=dh
core.DEBUG=True
import checks.rules
from checks import base
P=dbg.load()
R=base.Run(sys.argv[1],'quick',P)
for f,s in base.RULES[sys.argv[1]]:
    if len(sys.argv)>2 and f.__name__!=sys.argv[2]: continue
    R.cur=f.__name__
    try: f(R)
    except base.Undecided as x: print('UNDECIDED',x)
for o in R.obs:
    if o[2]!='ok': print(o)
