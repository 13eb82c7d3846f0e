import sys;sys.path[:0]=['/verif','/verif/tools']
import engine.lib as L
from engine.core import *
o=L.pick_elem
def pe(eng,st,src):
    try: return o(eng,st,src)
    except Abort:
        print('SRC',show(src)[:300]); print('CUR',[[show(e)[:60] for e in c] for c in st.cur])
        for c,v in st.store.items():
            l=[e for e in L.live_elems(v) if e[1] is src] if isinstance(v,T) else 0
            if l: print(str(c)[:80],len(l),show(v)[:1500])
        raise
L.pick_elem=pe
import dbg
P=dbg.load()
op={}
a=sys.argv[1:]
for x in a[1:]:
    for k in P.find(x): op[k]=None
e=Engine(P,opaque=op); 
k=a[0] if a[0] in P.bodies else P.find(a[0])[0]
try: e.run(k)
except Abort as x: print(x)
