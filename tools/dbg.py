#!/usr/bin/env python3
"""Print the abstract outcomes of one function: dbg.py SUBSTR [opaque SUBSTR...]"""
import sys, os, json, time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V); sys.path.insert(0,V+'/tools')
import facts
from engine.core import *
def load(fresh=False):
    if fresh: return Program(facts.extract())
    return Program({c: json.load(open(f'{facts.BUILD}/facts/{c}.json')) for c in facts.CRATES})
if __name__=='__main__':
    P=load('--fresh' in sys.argv)
    a=[x for x in sys.argv[1:] if not x.startswith('--')]
    ks=[k for k in P.bodies if k==a[0]] or P.find(a[0])
    if len(ks)!=1: print(ks); sys.exit(1)
    op={}
    for x in a[1:]:
        for k in P.find(x): op[k]=None
    e=Engine(P,opaque=op)
    t=time.time()
    outs=e.run(ks[0])
    for s,v in outs:
        print('== RET',show(e.freeze(s,v)))
        print('   FACTS',show_facts(s.facts))
        print('   LOG',show(e.freeze(s,s.store[LOG])))
        for c,x in s.store.items():
            if c!=LOG: print('   ',c,'=',show(e.freeze(s,x)))
    for k,s,i in e.sink:
        print('==',k,i[1:] if k=='panic' else show(i[2]),e.where(i[0])[:200])
        print('   FACTS',show_facts(s.facts))
        print('   LOG',show(e.freeze(s,s.store[LOG])))
    print('steps',e.steps,'funcs',len(e.funcs),'unmodelled',e.unmodelled,'%.1fs'%(time.time()-t))
