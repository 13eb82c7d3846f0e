#!/usr/bin/env python3
"""Pretty-print extracted MIR bodies whose key contains all given substrings."""
import json,sys,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def pl(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e[0]=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.'+str(e[4] if len(e)>4 else e[1])
        elif e[0]=='d': s+='@'+str(e[2] if len(e)>2 else e[1])
        elif e[0]=='i': s+='[_%d]'%e[1]
        else: s+=str(e)
    return s
def op(o):
    if o[0] in('cp','mv'): return pl(o[1])
    k=o[1]
    if k[0]=='fn':
        f=k[1]; return 'fn '+f['path']+('<'+','.join(f['args'])+'>' if f['args'] else '')+(' =>'+f.get('key',f.get('rpath','')) if 'key' in f or 'rpath' in f else '')+(' aux='+f['aux'] if 'aux' in f else '')
    return str(k)
def rv(r):
    if r[0]=='use': return op(r[1])
    if r[0] in('ref','reb'): return ('&mut ' if r[2] else '&')+pl(r[1])
    if r[0]=='bin': return '%s(%s, %s)'%(r[1],op(r[2]),op(r[3]))
    if r[0]=='un': return '%s(%s)'%(r[1],op(r[2]))
    if r[0]=='discr': return 'discr(%s: %s)'%(pl(r[1]),r[2])
    if r[0]=='cast': return 'cast[%s](%s: %s -> %s)'%(r[1],op(r[2]),r[4],r[3])
    if r[0]=='agg': return 'agg %s %s(%s)'%(r[1],'::'.join(r[3:5]) if r[1]=='adt' else (r[3] if len(r)>3 else ''),', '.join(op(x) for x in r[2]))
    return str(r)
def pp(b):
    print('##',b['kind'],b['key'],'argc',b['argc'],b['loc'])
    for i,t in enumerate(b['locals']): print('   _%d: %s'%(i,t))
    print('   names',', '.join('%s=%s'%(n,pl(p)) for n,p in b['names']))
    for i,(st,t) in enumerate(b['blocks']):
        if t[0]=='cleanup': continue
        print(' bb%d:'%i)
        for x in st:
            if x[0]=='=': print('    %s = %s'%(pl(x[1]),rv(x[2])))
            elif x[0]=='setd': print('    setd',pl(x[1]),x[2])
        if t[0]=='call': print('    %s = CALL %s(%s) -> bb%s   %s'%(pl(t[3]),op(t[1]),', '.join(op(a) for a in t[2]),t[4],t[5]))
        elif t[0]=='switch': print('    switch %s : %s %s else bb%s'%(op(t[1]),t[4],t[2],t[3]))
        elif t[0]=='assert': print('    assert %s==%s %s -> bb%s'%(op(t[1]),t[2],t[4],t[3]))
        else: print('   ',t[0],t[1:])
if __name__=='__main__':
    for f in glob.glob(os.environ.get('BK_BUILD',V+'/build')+'/facts/*.json'):
        d=json.load(open(f))
        for b in d['bodies']:
            if b['crate']==d['crate'] and all(a in b['key'] for a in sys.argv[1:]): pp(b)
