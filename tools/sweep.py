import sys,os,time,traceback
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0]=[V,V+'/tools']
import dbg
from engine.core import *
P=dbg.load()
skip=('Debug','Clone','PartialEq','clap','serde','assert_fields','Default>','#promoted','PartialOrd')
for k in sorted(P.bodies):
    if any(x in k for x in skip) or 'closure' in k: continue
    if P.bodies[k].get('kind','fn')!='fn': continue
    if sys.argv[1:] and not any(a in k for a in sys.argv[1:]): continue
    e=Engine(P,budget=60000); t=time.time()
    try:
        o=e.run(k); r='outs %d sinks %d'%(len(o),len(e.sink))
    except Abort as x: r='ABORT '+str(x)[:200]
    except RecursionError as x: r='RECURSION'
    except Exception as x: r='EXC '+repr(x)[:200]+' '+str(traceback.extract_tb(sys.exc_info()[2])[-1])[:100]
    print('%.1fs %6d %s: %s | unm %s'%(time.time()-t,e.steps,k[-90:],r,str(sorted(e.unmodelled))[:300]))
