"""Abstract interpreter over the extracted MIR.

A forward dataflow analysis with trace partitioning.  The abstract state maps
cells (locals of the inlined frames, heap cells) to values; values are terms of
a free term algebra over the entry point's inputs and the calls of library
functions, structures, references, and *sequences* - words of a regular
language of pushed items, which stand for strings, vectors and the event log.
Branch conditions are kept as facts.  Loops are solved by fixpoint iteration
with widening: what one iteration appends to a sequence becomes an `each`
piece (a Kleene star labelled with the iterated collection and with the guard
of every alternative), other changed values become opaque.  No path condition
is handed to a solver; contradicting facts prune a branch syntactically.
"""
import json, re, sys
import os
sys.setrecursionlimit(20000)
DEBUG = bool(os.environ.get('BKDBG'))

# ---------------------------------------------------------------- terms

_intern = {}
_ctr = [0]


class T(tuple):
    """Hash-consed term: equality is identity."""
    def __hash__(self):
        return self.n

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


def mk(*a):
    t = _intern.get(a)
    if t is None:
        t = tuple.__new__(T, a)
        _ctr[0] += 1
        t.n = _ctr[0]
        t._at = None
        _intern[a] = t
    return t


def atoms(t):
    """The free loop variables and opaque values of t: ('elem'..), ('new'..),
    ('phi'..) sub-terms; an `each` piece binds the elements of its loop."""
    if not isinstance(t, tuple):
        return frozenset()
    if isinstance(t, T):
        if t._at is not None:
            return t._at
        s = set()
        if t and t[0] == 'each':
            for x in t[2]:
                s |= atoms(x)
            s -= set(binders(t))
            for e in binders(t):
                s |= atoms(e[1])
            t._at = frozenset(s)
            return t._at
        if t and t[0] in ('elem', 'new', 'phi'):
            s.add(t)
        for x in t:
            if isinstance(x, tuple):
                s |= atoms(x)
        t._at = frozenset(s)
        return t._at
    s = set()
    for x in t:
        if isinstance(x, tuple):
            s |= atoms(x)
    return frozenset(s)


def binders(p):
    """The elements bound by an `each` piece."""
    b = p[1]
    if b[0] == 'elem':
        return (b,)
    if b[0] == 'elems':
        return b[1]
    return ()


def each_src(p):
    return p[1][1] if p[1][0] == 'elem' else p[1]


def subst(t, m, memo=None):
    """Replace sub-terms by the dict m."""
    if memo is None:
        memo = {}
    if not isinstance(t, tuple):
        return t
    if isinstance(t, T):
        if t in m:
            return m[t]
        r = memo.get(t)
        if r is None and t and t[0] == 'each':
            m2 = m
            bs = binders(t)
            if any(b in m for b in bs):
                m2 = {k: v for k, v in m.items() if k not in bs}
            if len(bs) == 1 and any(bs[0] in atoms(v) for v in m2.values()):
                # avoid capture
                n = bs[0][2] + 1
                while any(mk('elem', bs[0][1], n) in atoms(v) for v in m2.values()) or mk('elem', bs[0][1], n) in atoms(t[2]):
                    n += 1
                m2 = dict(m2)
                m2[bs[0]] = mk('elem', bs[0][1], n)
                nb = mk('elem', subst(bs[0][1], m), n)
            elif len(bs) == 1:
                nb = mk('elem', subst(bs[0][1], m), bs[0][2])
                if nb is not bs[0]:
                    m2 = dict(m2)
                    m2[bs[0]] = nb
            else:
                nb = t[1]
            r = mk('each', nb, subst(t[2], m2), t[3], t[4]) if m2 else t
            memo[t] = r
            return r
        if r is None:
            a = tuple(subst(x, m, memo) for x in t)
            if all(x is y for x, y in zip(a, t)):
                r = t
            elif a[0] == 'iter' and len(a) < 4:
                r = mk(*a)
            elif a[0] == 'S':
                r = seq(a[1], a[2])
            elif a[0] == 'app':
                r = mkapp(a[1], *a[2:])
            elif a[0] == 'fld':
                r = getf(a[1], a[2], a[3])
            else:
                r = mk(*a)
            memo[t] = r
        return r
    return tuple(subst(x, m, memo) for x in t)


UNIT = mk('tup', ())
TRUE = mk('bool', True)
FALSE = mk('bool', False)
TOP = mk('top')


def INT(n):
    return mk('int', n)


def STR(s):
    return mk('str', s)


def BOOL(b):
    return TRUE if b else FALSE


def adt(name, variant, *fields):
    """fields: (fieldname, value) pairs"""
    return mk('adt', name, variant, tuple(mk(*f) for f in fields))


OPT = 'std::option::Option'
RES = 'std::result::Result'
CF = 'std::ops::control_flow::ControlFlow'
ORD = 'std::cmp::Ordering'
NONE = adt(OPT, 'None')


def SOME(v):
    return adt(OPT, 'Some', ('0', v))


def OK(v):
    return adt(RES, 'Ok', ('0', v))


def ERR(v):
    return adt(RES, 'Err', ('0', v))


def one(v):
    return mk('one', v)


def mkapp(name, *args):
    return mk('app', name, *args)


def is_strlike(t):
    return t[0] in ('str',) or (t[0] == 'S' and t[1] == 'str')


def seq(kind, pieces):
    """Normalised sequence value. kind 'str': pieces are string terms or each;
    kind 'vec': one(v) / all(term) / each."""
    out = []
    for p in pieces:
        if kind == 'str':
            if p[0] == 'S' and p[1] == 'str':
                ps = p[2]
            elif p[0] == 'char':
                ps = (STR(chr(p[1])),)
            else:
                ps = (p,)
            for q in ps:
                if q[0] == 'str':
                    if q[1] == '':
                        continue
                    if out and out[-1][0] == 'str':
                        out[-1] = STR(out[-1][1] + q[1])
                        continue
                out.append(q)
        else:
            if p[0] == 'all':
                t = p[1]
                if t[0] == 'S' and t[1] != 'str':
                    out.extend(t[2])
                    continue
            out.append(p)
    if kind == 'str':
        if not out:
            return STR('')
        if len(out) == 1 and out[0][0] != 'each':
            return out[0]
    elif len(out) == 1 and out[0][0] == 'all' and kind == 'vec':
        return out[0][1]
    return mk('S', kind, tuple(out))


def pieces_of(v, kind):
    """The pieces of a value seen as a sequence of the given kind."""
    if v[0] == 'S':
        return v[2]
    if kind == 'str':
        return () if v is STR('') else (v,)
    if v[0] == 'arr':
        return tuple(one(x) for x in v[1])
    return (mk('all', v),)


EMPTYVEC = mk('S', 'vec', ())


def getf(v, variant, name):
    """Field projection of a value."""
    k = v[0]
    if k == 'adt':
        for f in v[3]:
            if f[0] == name:
                return f[1]
        return TOP
    if k == 'tup':
        i = int(name)
        return v[1][i] if i < len(v[1]) else TOP
    if k == 'clo':
        return v[2][int(name)]
    if k == 'upd':
        for kk, x in v[2]:
            if kk == (variant, name):
                return x
        return getf(v[1], variant, name)
    if k == 'top':
        return TOP
    return mk('fld', v, variant, name)


def setf(v, variant, name, x):
    k = v[0]
    if k == 'adt':
        fs = []
        hit = False
        for f in v[3]:
            if f[0] == name:
                fs.append(mk(name, x))
                hit = True
            else:
                fs.append(f)
        if not hit:
            fs.append(mk(name, x))
        return mk('adt', v[1], v[2], tuple(fs))
    if k == 'tup':
        l = list(v[1])
        i = int(name)
        while len(l) <= i:
            l.append(TOP)
        l[i] = x
        return mk('tup', tuple(l))
    if k == 'clo':
        l = list(v[2])
        l[int(name)] = x
        return mk('clo', v[1], tuple(l))
    base, us = (v[1], dict(v[2])) if k == 'upd' else (v, {})
    if getf(base, variant, name) is x:
        us.pop((variant, name), None)
    else:
        us[(variant, name)] = x
    if not us:
        return base
    return mk('upd', base, tuple(sorted(us.items(), key=lambda z: (str(z[0]),))))


_canon_re = re.compile(r'\b(core|alloc)::')
_life = re.compile(r"'[a-z_]\w*(, )?")


PROM = re.compile(r'#promoted\d+$')


def canon(s):
    if s is None:
        return None
    return _canon_re.sub('std::', s)


# ---------------------------------------------------------------- facts

class Program:
    def __init__(self, data):
        self.bodies = {}
        self.adts = {}
        for crate in ('bulloak', 'bulloak_foundry', 'bulloak_syntax'):
            d = data[crate]
            for b in d['bodies']:
                k = canon(b['key'])
                own = b['crate'] == crate
                if own or k not in self.bodies:
                    b['key'] = k
                    b['path'] = canon(b['path'])
                    self.bodies[k] = b
            for a in d['adts']:
                n = canon(a['name'])
                if n not in self.adts or a['variants']:
                    self.adts[n] = a
        for n, vs in ((OPT, ['None', 'Some']), (RES, ['Ok', 'Err']), (CF, ['Continue', 'Break'])):
            if n not in self.adts or not self.adts[n]['variants']:
                self.adts[n] = {'enum': True, 'ws': False, 'variants': [
                    {'n': v, 'd': i, 'f': ['0'] if v != 'None' else []} for i, v in enumerate(vs)]}
        self.adts[ORD] = {'enum': True, 'ws': False, 'variants': [
            {'n': v, 'd': d, 'f': []} for v, d in (('Less', -1), ('Equal', 0), ('Greater', 1))]}
        self._prep = {}

    def variants(self, name):
        a = self.adts.get(name)
        return [v['n'] for v in a['variants']] if a and a['enum'] else None

    def find(self, *subs, kind='fn'):
        return [k for k, b in self.bodies.items() if b['kind'] == kind and all(x in k for x in subs)]

    def prep(self, key):
        p = self._prep.get(key)
        if p is None:
            p = self._prep[key] = Prep(self.bodies[key])
        return p


class Prep:
    """Control-flow structure of one body: loop nest in topological order."""
    def __init__(self, b):
        self.b = b
        bl = b['blocks']
        self.succ = []
        for st, t in bl:
            k = t[0]
            if k == 'goto':
                s = [t[1]]
            elif k == 'switch':
                s = [x[1] for x in t[2]] + [t[3]]
            elif k == 'drop':
                s = [t[1]]
            elif k == 'call':
                s = [t[4]] if t[4] is not None else []
            elif k == 'assert':
                s = [t[3]]
            else:
                s = []
            self.succ.append([x for x in dict.fromkeys(s) if bl[x][1][0] != 'cleanup'])
        reach = []
        seen = set()
        stack = [0]
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            reach.append(x)
            stack.extend(self.succ[x])
        self.order = self.wto(sorted(seen), {0})
        self.loopblocks = {}
        self.collect(self.order)

    def collect(self, els):
        out = set()
        for e in els:
            if isinstance(e, int):
                out.add(e)
            else:
                s = {e[1]} | self.collect(e[2])
                self.loopblocks[e[1]] = s
                out |= s
        return out

    def wto(self, nodes, entries):
        ns = set(nodes)
        # Tarjan over ns
        index = {}
        low = {}
        onst = set()
        st = []
        sccs = []
        ctr = [0]

        def strong(v):
            work = [(v, iter([w for w in self.succ[v] if w in ns]))]
            index[v] = low[v] = ctr[0]; ctr[0] += 1
            st.append(v); onst.add(v)
            while work:
                u, it = work[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = low[w] = ctr[0]; ctr[0] += 1
                        st.append(w); onst.add(w)
                        work.append((w, iter([x for x in self.succ[w] if x in ns])))
                        adv = True
                        break
                    elif w in onst:
                        low[u] = min(low[u], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == index[u]:
                    c = []
                    while True:
                        w = st.pop(); onst.discard(w)
                        c.append(w)
                        if w == u:
                            break
                    sccs.append(c)
        for v in sorted(ns):
            if v not in index:
                strong(v)
        sccs.reverse()  # topological order
        out = []
        for c in sccs:
            if len(c) == 1 and c[0] not in self.succ[c[0]]:
                out.append(c[0])
                continue
            cs = set(c)
            # head: entered from outside
            ent = [x for x in c if x in entries]
            for u in range(len(self.succ)):
                if u not in cs:
                    for w in self.succ[u]:
                        if w in cs and w not in ent:
                            ent.append(w)
            ent = [x for x in ent if x in cs]
            head = min(ent) if ent else min(c)
            rest = [x for x in c if x != head]
            sub = self.wto_no_head(rest, head)
            out.append(('loop', head, sub))
        return out

    def wto_no_head(self, rest, head):
        return self.wto(rest, {w for w in self.succ[head] if w in rest})


# ---------------------------------------------------------------- state

class State:
    __slots__ = ('store', 'facts', 'ts', 'cur', 'active', 'fresh')

    def __init__(self):
        self.store = {}
        self.facts = {}
        self.ts = ()
        self.cur = ()      # stack of tuples: sources advanced in the current iteration of each open loop
        self.active = ()   # sources of the enclosing loops
        self.fresh = ((),)  # stack of tuples of terms created in the current iteration

    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.ts = self.ts
        s.cur = self.cur
        s.active = self.active
        s.fresh = self.fresh
        return s

    def key(self):
        return (frozenset(self.store.items()), frozenset(self.facts.items()), self.ts, self.cur, self.active)

    def tsget(self, k, d=None):
        for a, b in self.ts:
            if a == k:
                return b
        return d

    def tsset(self, k, v):
        d = dict(self.ts)
        d[k] = v
        self.ts = tuple(sorted(d.items()))


LOG = 'LOG'


def merge_same(states):
    seen = {}
    out = []
    for s in states:
        k = s.key()
        if k not in seen:
            seen[k] = s
            out.append(s)
    return out


def atoms_ctr(st):
    """the values of a state that are a counter that was not tested"""
    return {v for v in st.store.values() if isinstance(v, T) and v[0] == 'ctr'}


class Abort(Exception):
    """The analysis met something it cannot handle (fail closed)."""


class NotCounted(Abort):
    pass


def body_ty(p, key, local):
    b = p.bodies.get(key)
    t = b['locals'] if b else ()
    t = t[local] if local < len(t) else ''
    return t if isinstance(t, str) else ''


class Engine:
    MAXSTATES = 3000

    def __init__(self, prog, opaque=(), pure=None, keyfn=None, on_event=None, eager=(), inline_display=(), budget=400000,
                 noinline=None, rec_keep=False):
        self.p = prog
        self.opaque = dict(opaque) if isinstance(opaque, dict) else {k: None for k in opaque}
        self.keyfn = keyfn or (lambda st: ())
        self.on_event_cb = on_event
        self.eager = set(eager)
        self.inline_display = set(inline_display)
        self.noinline = noinline or (lambda k: False)
        self.sink = []          # terminal outcomes: (kind, state, info)
        self.early = []
        self.notes = []         # observations of the rule at stable states
        self.ctxs = {}
        self.ctxinfo = {}
        self.stack = []         # inlined keys
        self.steps = 0
        self.budget = budget
        self.funcs = set()      # functions analysed
        self.sites = set()      # call sites analysed
        self.unmodelled = {}
        self.statecount = 0
        self.rec_keep = rec_keep
        self.loops = 0
        self.fuse = True
        self.map_events = False
        self.overflow = False
        self.outofbounds = False     # indices and slices out of bounds are panics
        from . import lib
        self.lib = lib

    # ---- contexts -------------------------------------------------
    def ctx(self, parent, site, key):
        k = (parent, site, key)
        c = self.ctxs.get(k)
        if c is None:
            c = self.ctxs[k] = len(self.ctxs) + 1
            self.ctxinfo[c] = k
        return c

    def where(self, c):
        """Human-readable call path of a context."""
        out = []
        while c in self.ctxinfo:
            par, site, key = self.ctxinfo[c]
            out.append(f'{key} ({site})')
            c = par
        return ' <- '.join(out)

    # ---- events ---------------------------------------------------
    def event(self, st, *ev):
        e = mk('ev', *ev)
        lg = st.store.get(LOG, EMPTYVEC)
        st.store[LOG] = seq('vec', pieces_of(lg, 'vec') + (one(e),))
        if self.on_event_cb:
            self.on_event_cb(self, st, e)

    def note(self, x):
        """Record an observation; those of fixpoint rounds that are not the last are dropped."""
        self.notes.append(x)

    def new(self, st, ctx, site, name, *args):
        t = mk('new', name, ctx, site, *args)
        # a re-executed site yields a new value: forget what was known
        self.kill(st, t)
        st.fresh = st.fresh[:-1] + (st.fresh[-1] + (t,),)
        return t

    def kill(self, st, t):
        bad = [f for f in st.facts if t in atoms(f)]
        for f in bad:
            del st.facts[f]

    def fresh(self, st, t):
        if t not in st.fresh[-1]:
            st.fresh = st.fresh[:-1] + (st.fresh[-1] + (t,),)

    # ---- places ---------------------------------------------------
    def resolve(self, st, frame, place):
        """place -> ('cell', cell, path) or ('val', value) when it goes through
        a transparent reference."""
        cell = (frame, place[0])
        path = ()
        val = None
        variant = None
        transp = False
        for e in place[1]:
            k = e[0]
            if k == '*':
                v = self.read(st, cell, path) if val is None else val
                if v[0] == 'ref':
                    cell, path, val = v[1], v[2], None
                    transp = False
                else:
                    if val is None:
                        # transparent: keep the location when it holds the value
                        transp = True
                    else:
                        val = v
                variant = None
                continue
            if k == 'd':
                variant = e[2] if len(e) > 2 else str(e[1])
                continue
            if k == 'f':
                if len(e) > 4:
                    an = canon(e[2])
                    if an in ('std::boxed::Box', 'std::ptr::unique::Unique', 'std::ptr::non_null::NonNull',
                              'std::mem::maybe_uninit::MaybeUninit', 'std::mem::manually_drop::ManuallyDrop',
                              'std::mem::maybe_dangling::MaybeDangling', 'std::boxed::BoxRaw', 'std::ptr::NonNull'):
                        if not (an == 'std::boxed::Box' and e[4] == '1'):
                            continue
                    info = self.p.adts.get(an)
                    vr = e[3] if (info and info['enum']) else None
                    pe = ('f', vr, e[4])
                else:
                    pe = ('f', None, str(e[1]))
                variant = None
            elif k == 'i':
                pe = ('e', self.read(st, (frame, e[1]), ()))
            elif k == 'ci':
                pe = ('e', INT(e[1]) if not e[2] else mk('fromend', e[1]))
            elif k == 'ss':
                pe = ('ss', e[1], e[2], e[3])
            else:
                raise Abort(f'projection {e}')
            if val is not None:
                val = self.step(st, val, pe)
            else:
                # through a value that is itself a reference held in a field
                path = path + (pe,)
        if val is not None:
            return ('val', val)
        return ('cell', cell, path, transp)

    def step(self, st, v, pe):
        while v[0] == 'ref':
            v = self.read(st, v[1], v[2])
        if pe[0] == 'f':
            return getf(v, pe[1], pe[2])
        if pe[0] == 'e':
            return self.index(st, v, pe[1])
        return mkapp('subslice', self.freeze(st, v), INT(pe[1]), INT(pe[2]))

    def read(self, st, cell, path):
        v = st.store.get(cell)
        if v is None:
            if isinstance(cell, tuple) and cell and cell[0] == 'ment':
                v = mkapp('mapget', cell[2])
            else:
                v = TOP
        for pe in path:
            if v[0] == 'ref':
                v = self.read(st, v[1], v[2])
            v = self.step(st, v, pe)
        return v

    def write(self, st, cell, path, x):
        if not path:
            st.store[cell] = x
        else:
            v = st.store.get(cell, TOP)
            st.store[cell] = self.put(st, v, path, x)
        if self.map_events == 'puts' and isinstance(cell, tuple) and cell[0] == 'ment':
            self.event(st, 'mapput', cell[2], self.freeze(st, st.store[cell]))

    def put(self, st, v, path, x):
        if not path:
            return x
        if v[0] == 'ref':
            self.write(st, v[1], v[2] + path, x)
            return v
        pe = path[0]
        if pe[0] == 'f':
            if v[0] == 'top':
                if pe[2].isdigit() and pe[1] is None:
                    v = UNIT
                else:
                    v = mk('adt', '?', pe[1], ())
            old = getf(v, pe[1], pe[2])
            return setf(v, pe[1], pe[2], self.put(st, old, path[1:], x))
        if pe[0] == 'e':
            old = self.index(st, v, pe[1])
            if old[0] == 'ref':
                self.write(st, old[1], old[2] + path[1:], x)
                return v
            nv = self.put(st, old, path[1:], x)
            if v[0] == 'arr' and pe[1][0] == 'int' and 0 <= pe[1][1] < len(v[1]):
                l = list(v[1]); l[pe[1][1]] = nv
                return mk('arr', tuple(l))
            if v[0] == 'S' and pe[1][0] == 'int':
                i = pe[1][1]
                if i < len(v[2]) and all(p[0] == 'one' for p in v[2][:i + 1]):
                    l = list(v[2]); l[i] = one(nv)
                    return seq(v[1], l)
            return mkapp('setidx', self.freeze(st, v), self.freeze(st, pe[1]), self.freeze(st, nv))
        return mkapp('havoc', v)

    def index(self, st, v, i):
        while v[0] == 'ref':
            v = self.read(st, v[1], v[2])
        while i[0] == 'ref':
            i = self.read(st, i[1], i[2])
        if i[0] == 'int':
            if v[0] == 'arr' and i[1] < len(v[1]):
                return v[1][i[1]]
            if v[0] == 'S':
                n = i[1]
                if n < len(v[2]) and all(p[0] == 'one' for p in v[2][:n + 1]):
                    return v[2][n][1]
        f = self.freeze(st, v)
        if i[0] == 'app' and i[1] == 'posin' and i[2] is f:
            return i[3]
        # v[i] for i iterating over 0..len(v): the current element
        if i[0] == 'elem' and i[1][0] == 'range' and i[1][1] is INT(0):
            up = i[1][2]
            if up is mkapp('len', f) or up[0] == 'inf':
                return mk('elem', f, i[2])
        return mkapp('nth', f, self.freeze(st, i))

    def load(self, st, frame, place):
        r = self.resolve(st, frame, place)
        if r[0] == 'val':
            return r[1]
        return self.read(st, r[1], r[2])

    def deref(self, st, v):
        n = 0
        while v[0] == 'ref':
            v = self.read(st, v[1], v[2])
            n += 1
            if n > 50:
                raise Abort('cyclic references')
        return v

    def freeze(self, st, v, memo=None):
        """The value with references replaced by what they refer to, and the
        sequences of loops in progress made finite."""
        if v[0] == 'ref':
            return self.freeze(st, self.deref(st, v))
        if not self.needs_freeze(v):
            return v
        k = v[0]
        if k == 'adt':
            return mk('adt', v[1], v[2], tuple(mk(f[0], self.freeze(st, f[1])) for f in v[3]))
        if k in ('tup', 'arr'):
            return mk(k, tuple(self.freeze(st, x) for x in v[1]))
        if k == 'clo':
            return mk('clo', v[1], tuple(self.freeze(st, x) for x in v[2]))
        if k == 'S':
            ps = []
            for p in v[2]:
                if p[0] == 'each':
                    if p[4] in st.active:
                        ps.append(mk('loopseq', p[4]))
                    else:
                        ps.append(mk('each', p[1], tuple((g, tuple(self.freeze_piece(st, q) for q in d)) for g, d in p[2]), p[3], p[4]))
                else:
                    ps.append(self.freeze_piece(st, p))
            return seq(v[1], ps)
        if k == 'iter':
            return mk('iter', self.freeze(st, v[1]), tuple((s[0],) + tuple(self.freeze(st, x) if isinstance(x, T) else x for x in s[1:]) for s in v[2]), v[3])
        if k == 'upd':
            return mk('upd', self.freeze(st, v[1]), tuple((a, self.freeze(st, b)) for a, b in v[2]))
        return v

    def freeze_piece(self, st, p):
        if p[0] in ('one', 'all'):
            return mk(p[0], self.freeze(st, p[1]))
        return self.freeze(st, p)

    def needs_freeze(self, v):
        r = getattr(v, '_nf', None)
        if r is None:
            r = self._nf(v)
            if isinstance(v, T):
                v._nf = r
        return r

    def _nf(self, v):
        if not isinstance(v, tuple):
            return False
        if v and v[0] in ('ref', 'each') and isinstance(v, T):
            return True
        return any(self.needs_freeze(x) if isinstance(x, T) else self._nf(x) for x in v if isinstance(x, tuple))

    # ---- operands -------------------------------------------------
    def operand(self, st, frame, o, key):
        if o[0] in ('cp', 'mv'):
            return self.load(st, frame, o[1])
        return self.const(st, frame, o[1], key)

    def const(self, st, frame, c, key):
        k = c[0]
        if k == 'b':
            return BOOL(c[1])
        if k == 'n':
            return INT(c[1])
        if k == 'c':
            return mk('char', c[1])
        if k == 's':
            return STR(c[1])
        if k == 'u':
            return UNIT
        if k == 'bytes':
            return mk('bytes', tuple(c[1]))
        if k == 'arr':
            return mk('arr', tuple(self.const(st, frame, x, key) for x in c[1]))
        if k == 'fn':
            return mk('fn', FnRef.get(c[1]))
        if k == 'closure':
            return mk('clo', canon(c[1]), ())
        if k in ('promoted', 'item'):
            kk = PROM.sub('', key) + c[1] if k == 'promoted' else canon(c[1])
            if kk in self.p.bodies:
                return self.consteval(st, kk)
            return mk('const', kk)
        if k == 'static':
            return mk('static', canon(c[1]))
        if k == 'zst':
            n = canon(c[2]) if c[2] else None
            a = self.p.adts.get(n)
            if a and not a['enum']:
                return mk('adt', n, a['variants'][0]['n'] if a['variants'] else n.split('::')[-1], ())
            return mk('const', canon(c[1]))
        return mk('const', canon(str(c[1])))

    def consteval(self, st, kk):
        s2 = State()
        s2.cur, s2.active, s2.fresh = st.cur, st.active, st.fresh
        saved, snotes = self.sink, self.notes
        self.sink, self.notes = [], []
        try:
            outs = self.call_body(s2, kk, [], self.ctx(0, 'const', kk))
        finally:
            self.sink, self.notes = saved, snotes
        if len(outs) != 1:
            return mk('const', kk)
        return self.freeze(outs[0][0], outs[0][1])

    # ---- booleans -------------------------------------------------
    def truth(self, st, t):
        """True / False / None"""
        k = t[0]
        if k == 'bool':
            return t[1]
        if k == 'not':
            r = self.truth(st, t[1])
            return None if r is None else not r
        r = st.facts.get(t)
        if r is not None:
            return r
        if k == 'app':
            n = t[1]
            if n == 'eq':
                return self.eqval(st, t[2], t[3])
            if n == 'isvar':
                vs = self.variants_of(st, t[2])
                if vs is None:
                    return None
                pos, names = vs
                if pos:
                    if t[3] not in names:
                        return False
                    if len(names) == 1:
                        return True
                elif t[3] in names:
                    return False
                return None
            if n == 'lt':
                return self.ltval(st, t[2], t[3])
            if n == 'empty':
                return self.emptyval(st, t[2])
        return None

    def bounds(self, st, t):
        facts = st.facts if st is not None else {}
        if t[0] == 'int':
            return t[1], t[1]
        if t[0] == 'iv':
            return t[1], t[2]
        if t[0] == 'app' and t[1] in ('len', 'count'):
            if facts.get(mkapp('empty', t[2])) is False:
                return 1, None
            return 0, None
        if t[0] == 'app' and t[1] == 'plus' and t[3][0] == 'int':
            lo, hi = self.bounds(st, t[2])
            return (None if lo is None else lo + t[3][1]), (None if hi is None else hi + t[3][1])
        return None, None

    def ltval(self, st, a, b):
        if a is b:
            return False
        la, ha = self.bounds(st, a)
        lb, hb = self.bounds(st, b)
        if ha is not None and lb is not None and ha < lb:
            return True
        if la is not None and hb is not None and la >= hb:
            return False
        if st is not None and st.facts.get(mkapp('lt', b, a)) is True:
            return False
        return None

    def eqval(self, st, a, b):
        if a is b:
            return True
        ka, kb = a[0], b[0]
        if ka == kb and ka in ('int', 'str', 'char', 'bool'):
            return False
        if ka == 'adt' and kb == 'adt':
            if a[2] != b[2]:
                return False
            fa, fb = dict(a[3]), dict(b[3])
            r = True
            for n in fa:
                x = self.eqval(st, fa[n], fb.get(n, TOP))
                if x is False:
                    return False
                if x is None:
                    r = None
            return r
        if ka == 'tup' and kb == 'tup' and len(a[1]) == len(b[1]):
            r = True
            for x, y in zip(a[1], b[1]):
                z = self.eqval(st, x, y)
                if z is False:
                    return False
                if z is None:
                    r = None
            return r
        la, ha = self.bounds(st, a)
        lb, hb = self.bounds(st, b)
        if None not in (la, hb) and la > hb or None not in (ha, lb) and ha < lb:
            return False
        for x, y in ((a, b), (b, a)):
            if y[0] in ('str', 'int', 'char'):
                # x known equal to another constant
                kn = st.facts.get(mk('known', x))
                if kn is not None:
                    return kn is y
        if is_strlike(a) and is_strlike(b):
            # literal prefixes disagree
            pa = a[1] if ka == 'str' else (a[2][0][1] if a[2] and a[2][0][0] == 'str' else '')
            pb = b[1] if kb == 'str' else (b[2][0][1] if b[2] and b[2][0][0] == 'str' else '')
            n = min(len(pa), len(pb))
            if pa[:n] != pb[:n]:
                return False
        return st.facts.get(mkapp('eq', *sorted((a, b), key=lambda z: z.n)))

    def emptyval(self, st, s):
        """Is the sequence empty?"""
        if s[0] == 'str':
            return s[1] == ''
        if s[0] == 'arr':
            return not s[1]
        r = st.facts.get(mkapp('empty', s))
        if r is not None:
            return r
        if s[0] == 'S':
            res = True
            for p in s[2]:
                if p[0] == 'one' or (s[1] == 'str' and p[0] == 'str'):
                    return False
                if p[0] == 'each':
                    if p[3]:
                        return False
                    if any(self.delta_nonempty(d) is not False for g, d in p[2]):
                        res = None
                    if all(self.delta_nonempty(d) for g, d in p[2]) and p[2] and self.emptyval(st, each_src(p)) is False \
                            and st.facts.get(mkapp('exhausted', each_src(p), p[4])):
                        return False
                elif p[0] == 'all':
                    r = self.emptyval(st, p[1])
                    if r is False:
                        return False
                    if r is None:
                        res = None
                elif p[0] == 'loopseq':
                    res = None
                elif s[1] == 'str':
                    r = self.emptyval(st, p)
                    if r is False:
                        return False
                    if r is None:
                        res = None
            return res
        if s[0] == 'app':
            n = s[1]
            if n in ('chars', 'bytes'):
                return self.emptyval(st, s[2])
        return None

    def delta_nonempty(self, d):
        """True: certainly non-empty, False: certainly empty, None: unknown"""
        if not d:
            return False
        for p in d:
            if p[0] == 'one' or (p[0] == 'str' and p[1] != ''):
                return True
            if p[0] == 'each' and p[3]:
                return True
        return None

    def variants_of(self, st, t):
        """(True, names) positive knowledge or (False, names) excluded."""
        if t[0] == 'adt':
            return True, (t[2],)
        if t[0] == 'upd':
            t = t[1]
        r = st.facts.get(mk('variant', t))
        if r is None:
            q = t[2] if t[0] == 'app' and t[1] in ('nth', 'getidx') else t[1] if t[0] == 'elem' else None
            if q is not None and q[0] == 'S' and q[1] == 'vec':
                names = self.item_variants(q[2])
                if names:
                    return True, tuple(sorted(names))
        return r

    def item_variants(self, pieces):
        """The variants the items of a sequence can have, None when unknown"""
        out = set()
        for p in pieces:
            if p[0] == 'one':
                if p[1][0] != 'adt' or p[1][1] not in self.p.adts or not self.p.adts[p[1][1]].get('enum'):
                    return None
                out.add(p[1][2])
            elif p[0] == 'each':
                for g, d in p[2]:
                    r = self.item_variants(d)
                    if r is None:
                        return None
                    out |= r
            else:
                return None
        return out

    def assume(self, st, t, val):
        """Add the fact; False when it contradicts the state."""
        r = self.truth(st, t)
        if r is not None:
            return r == val
        k = t[0]
        if k == 'not':
            return self.assume(st, t[1], not val)
        if k == 'app':
            n = t[1]
            if n == 'isvar':
                return self.assume_variant(st, t[2], t[3], val)
            if n == 'eq' and val:
                for x, y in ((t[2], t[3]), (t[3], t[2])):
                    if y[0] in ('str', 'int', 'char'):
                        st.facts[mk('known', x)] = y
                if t[2][0] == 'app' and t[2][1] == 'len' and t[3] is INT(0):
                    if not self.assume(st, mkapp('empty', t[2][2]), True):
                        return False
        st.facts[t] = val
        return True

    def assume_variant(self, st, t, name, val, adtname=None):
        if t[0] == 'adt':
            return (t[2] == name) == val
        if t[0] == 'upd':
            t = t[1]
        k = mk('variant', t)
        cur = self.variants_of(st, t)
        if val:
            if cur is not None:
                pos, names = cur
                if pos:
                    if name not in names:
                        return False
                elif name in names:
                    return False
            st.facts[k] = (True, (name,))
            return self.variant_implies(st, t, name)
        if cur is None:
            st.facts[k] = (False, (name,))
        else:
            pos, names = cur
            if pos:
                rest = tuple(x for x in names if x != name)
                if not rest:
                    return False
                st.facts[k] = (True, rest)
            else:
                st.facts[k] = (False, tuple(sorted(set(names) | {name})))
        return True

    def variant_implies(self, st, t, name):
        """Facts implied by knowing the variant of a library result."""
        if t[0] == 'app':
            n = t[1]
            if n in ('first', 'last') and len(t) == 3:
                return self.assume(st, mkapp('empty', t[2]), name == 'None')
            if n == 'getidx':
                s, i = t[2], t[3]
                return self.assume(st, mkapp('lt', i, mkapp('len', s)), name == 'Some')
        return True

    def refine(self, st, v, adtname):
        """Split a value of enum type into its possible variants:
        list of (state, adt value or term with known variant, variant)."""
        v = self.deref(st, v)
        if v[0] == 'adt':
            return [(st, v[2])]
        names = self.p.variants(adtname)
        if names is None:
            raise Abort(f'unknown enum {adtname}')
        out = []
        for n in names:
            s2 = st.copy()
            if self.assume_variant(s2, v, n, True):
                out.append((s2, n))
        return out

    # ---- function bodies ------------------------------------------
    def call_body(self, st, key, args, ctx):
        b = self.p.bodies[key]
        pr = self.p.prep(key)
        self.funcs.add(key)
        if len(self.stack) > 60:
            raise Abort('call depth')
        self.stack.append(key)
        try:
            st = st.copy()
            argc = b['argc']
            if b['spread'] is not None:
                pass
            for i in range(argc):
                st.store[(ctx, i + 1)] = args[i] if i < len(args) else TOP
            inbox = {0: [st]}
            rets = []
            self.run_elems(pr, pr.order, inbox, ctx, key, rets)
            out = []
            for s in rets:
                v = s.store.get((ctx, 0), UNIT)
                if b['kind'] != 'fn':
                    v = self.freeze(s, v)
                s.store = {c: x for c, x in s.store.items() if not (isinstance(c, tuple) and c[0] == ctx)}
                s.store[('ret',)] = v
                out.append(s)
            out = merge_same(out)
            res = []
            for s in out:
                v = s.store.pop(('ret',))
                res.append((s, v))
            return res
        finally:
            self.stack.pop()

    def run_elems(self, pr, elems, inbox, ctx, key, rets):
        for e in elems:
            if isinstance(e, int):
                sts = inbox.pop(e, None)
                if not sts:
                    continue
                if len(sts) > 1:
                    sts = merge_same(sts)
                if len(sts) > self.MAXSTATES:
                    raise Abort(f'too many states in {key} bb{e}')
                for s in sts:
                    for succ, s2 in self.transfer(s, pr, e, ctx, key):
                        if succ == 'ret':
                            rets.append(s2)
                        else:
                            inbox.setdefault(succ, []).append(s2)
            else:
                _, head, sub = e
                sts = inbox.pop(head, None)
                if not sts:
                    continue
                blocks = pr.loopblocks[head]

                def body(h):
                    backs, exits = [], []
                    ib = {}
                    r2 = []

                    def put(succ, s2):
                        if succ == 'ret':
                            exits.append(('ret', s2))
                        elif succ == head or succ == 'reject':
                            backs.append(s2)
                        elif succ in blocks:
                            ib.setdefault(succ, []).append(s2)
                        else:
                            exits.append((succ, s2))
                    for succ, s2 in self.transfer(h, pr, head, ctx, key):
                        put(succ, s2)
                    # run the rest of the loop
                    ib2 = ib
                    self.run_loop_rest(pr, sub, ib2, ctx, key, put, blocks, head)
                    return backs, exits
                for tag, s in self.fix_loop(merge_same(sts), body, mk('L', ctx, head)):
                    if tag == 'ret':
                        rets.append(s)
                    else:
                        inbox.setdefault(tag, []).append(s)

    def run_loop_rest(self, pr, elems, inbox, ctx, key, put, blocks, head):
        for e in elems:
            if isinstance(e, int):
                sts = inbox.pop(e, None)
                if not sts:
                    continue
                sts = merge_same(sts)
                if len(sts) > self.MAXSTATES:
                    raise Abort(f'too many states in {key} bb{e}')
                for s in sts:
                    for succ, s2 in self.transfer(s, pr, e, ctx, key):
                        if succ != 'ret' and succ != head and succ in blocks:
                            inbox.setdefault(succ, []).append(s2)
                        else:
                            put(succ, s2)
            else:
                _, h2, sub = e
                sts = inbox.pop(h2, None)
                if not sts:
                    continue
                bl2 = pr.loopblocks[h2]

                def body(h, h2=h2, sub=sub, bl2=bl2):
                    backs, exits = [], []
                    ib = {}

                    def put2(succ, s2):
                        if succ == 'ret':
                            exits.append(('ret', s2))
                        elif succ == h2 or succ == 'reject':
                            backs.append(s2)
                        elif succ in bl2:
                            ib.setdefault(succ, []).append(s2)
                        else:
                            exits.append((succ, s2))
                    for succ, s2 in self.transfer(h, pr, h2, ctx, key):
                        put2(succ, s2)
                    self.run_loop_rest(pr, sub, ib, ctx, key, put2, bl2, h2)
                    return backs, exits
                for tag, s in self.fix_loop(merge_same(sts), body, mk('L', ctx, h2)):
                    if tag != 'ret' and tag != head and tag in blocks:
                        inbox.setdefault(tag, []).append(s)
                    else:
                        put(tag, s)

    # ---- loops ----------------------------------------------------
    def fix_loop(self, entries, body, site):
        """Fixpoint over the loop `body`, a function from a head state to
        (back-edge states, [(exit tag, state)]).  Returns the exits."""
        entries = merge_same(entries)
        if 1 < len(entries) <= self.SPLIT:
            out = []
            for e in entries:
                out.extend(self.fix_loop1([e], body, site))
            return out
        return self.fix_loop1(entries, body, site)

    SPLIT = 24

    def shape(self, v):
        """The discrete part of a value, on which loop states are partitioned."""
        k = v[0]
        if k == 'bool':
            return v
        if k == 'int':
            return mk('sgn', (v[1] > 0) - (v[1] < 0))
        if k == 'iv' or (k == 'app' and v[1] == 'plus'):
            lo, hi = self.bounds(None, v)
            if lo is not None and lo > 0:
                return mk('sgn', 1)
            return None
        if k == 'adt':
            if not v[3]:
                return mk('shape', v[2])
            return mk('shape', v[2], tuple(self.shape(f[1]) for f in v[3]))
        if k == 'tup':
            if not v[1]:
                return None
            return mk('shape', tuple(self.shape(x) for x in v[1]))
        return None

    def fix_loop1(self, entries, body, site):
        self.loops += 1

        def enter(h):
            s = h.copy()
            s.cur = s.cur + ((),)
            s.active = s.active + (site,)
            s.fresh = s.fresh + ((),)
            return s

        def leave(s):
            s.cur = s.cur[:-1]
            s.active = s.active[:-1]
            fr = s.fresh[-1]
            s.fresh = s.fresh[:-1]
            for t in fr:
                self.fresh(s, t)
            return s
        saved, snotes = self.sink, self.notes
        # 1. dry run: which iterators are advanced by the loop
        self.sink, self.notes = [], []
        entries = [e.copy() for e in entries]
        cand = None
        try:
            unroll = True
            anyadv = False
            todo = []
            for e in entries:
                b, x = body(enter(e))
                adv = set()
                one = {c for c, v in e.store.items() if v is INT(0) and b and all(s.store.get(c) is INT(1) for s in b)}
                cand = one if cand is None else cand & one
                for s in b:
                    for c, v in e.store.items():
                        v2 = s.store.get(c)
                        if v2 is not None and v2 is not v:
                            self.iter_advanced(v, v2, c, (), adv)
                if not b:
                    adv = {}
                elif not adv:
                    unroll = False
                for c, path in adv:
                    anyadv = True
                    it = self.read(e, c, path)
                    if not (it[0] == 'iter' and it[3] != 'L' and self.lib.concrete(it[1])):
                        unroll = False
                todo.append((e, adv))
        finally:
            self.sink, self.notes = saved, snotes
        if unroll:
            return self.unroll(entries, body, site, enter, leave)
        for e, adv in todo:
            for c, path in adv:
                self.write(e, c, path, self.loopmode(e, self.read(e, c, path)))
        body = self.induction(entries, cand, body, enter, site)
        shaped = set()
        for attempt in range(8):
            r = self.fix_loop2(entries, body, site, enter, leave, shaped)
            if r is not None:
                return r
        raise Abort('loop shapes do not stabilise')

    def unroll(self, entries, body, site, enter, leave):
        exits = []
        frontier = entries
        n = 0
        while frontier:
            n += 1
            if n > 40:
                raise Abort('unrolling does not end')
            nxt = []
            for h in frontier:
                k = len(self.sink)
                b, x = body(enter(h))
                for o in self.sink[k:]:
                    leave(o[1])
                exits.extend((tag, leave(s)) for tag, s in x)
                nxt.extend(leave(s) for s in b)
            frontier = merge_same(nxt)
        return exits

    def induction(self, entries, cand, body, enter, site):
        """A loop that counts, from 0 and by 1, through the positions of a sequence visits its elements: the counter
        becomes a symbol that stands for an element where it is tested against the length."""
        for c in sorted(cand or (), key=str):
            ctr = mk('ctr', site, str(c))

            def counting(h, c=c, ctr=ctr):
                b, x = body(h)
                for s in b:
                    v = s.store.get(c)
                    e = s.cur[-1][-1] if s.cur[-1] else None
                    if v is ctr:
                        continue  # not an element after all
                    w = v[2] if v[0] == 'app' and v[1] == 'plus' and v[3] is INT(1) else None
                    if w is None or e is None or not (w[0] == 'app' and w[1] == 'posin' or w[0] == 'elem' and w is mk('elem', mk('range', INT(0), mkapp('len', e[1])), e[2])):
                        raise NotCounted()
                    s.store[c] = ctr
                return b, x
            saved = self.sink, self.notes
            self.sink, self.notes = [], []
            try:
                some = False
                for e in entries:
                    e = e.copy()
                    e.store[c] = ctr
                    if len(enter(e).cur[-1]):
                        raise NotCounted()
                    b, x = counting(enter(e))
                    some |= bool(b)
                    if any(ctr in atoms_ctr(s) for t, s in x) or not some:
                        raise NotCounted()
            except NotCounted:
                continue
            finally:
                self.sink, self.notes = saved
            for e in entries:
                e.store[c] = ctr
            return counting
        return body

    def lkey(self, s, shaped):
        sh = tuple(sorted(((str(c), self.shape(s.store[c])) for c in shaped if c in s.store), key=lambda z: z[0])) if shaped else ()
        return (s.ts, self.keyfn(s), sh)

    record_loops = False
    record_folds = False

    def fold(self, init, heads, backs, site):
        """What one turn of the loop makes of every value it changes: ('fold', site, element, {location: (value before
        the loop, name of the value at the head)}, ((guards, {location: value after the turn}), ..))."""
        if len(init) != 1 or len(heads) != 1 or not backs:
            return
        es = {s.cur[-1] for k, h, s in backs}
        if len(es) != 1 or len(next(iter(es))) != 1:
            return
        (i0,), (h0,) = init.values(), heads.values()
        locs = {}

        def leaves(v, c, path):
            if v[0] in ('phi', 'iv') and v[-3] is site:
                locs[(c, path)] = v
            elif v[0] == 'S' and v[2] and v[2][-1][0] == 'each' and v[2][-1][4] is site:
                locs[(c, path)] = v
            elif v[0] == 'adt':
                vr = v[2] if (self.p.adts.get(v[1]) or {}).get('enum') else None
                for n, x in v[3]:
                    leaves(x, c, path + (('f', vr, n),))
            elif v[0] == 'tup':
                for i, x in enumerate(v[1]):
                    leaves(x, c, path + (('f', None, str(i)),))
            elif v[0] == 'upd':
                for kk, x in v[2]:
                    leaves(x, c, path + (('f',) + kk,))
        for c, v in h0.store.items():
            if c != LOG:
                leaves(v, c, ())
        b0 = backs[0][1].copy()
        b0.active = backs[0][2].active
        out = {}
        for (c, path), v in locs.items():
            if c not in i0.store:
                continue
            out[(c, path)] = (self.freeze(i0, self.read(i0, c, path)), self.freeze(b0, v))
        trans = []
        for k, h, s in backs:
            trans.append((self.new_guards(h, s, s.fresh[-1]), {l: self.freeze(s, self.read(s, *l)) for l in out if l[0] in s.store}))
        self.notes.append(('fold', site, next(iter(es))[0], out, tuple(trans)))

    def fix_loop2(self, entries, body, site, enter, leave, shaped):
        saved, snotes = self.sink, self.notes
        heads = {}
        for e in entries:
            k = self.lkey(e, shaped)
            heads[k] = self.join(heads[k], e, site) if k in heads else e
        init = dict(heads)
        rounds = 0
        try:
            while True:
                rounds += 1
                if rounds > 30:
                    raise Abort('loop does not stabilise ' + self.where(site[1]))
                self.sink, self.notes = [], []
                exits = []
                backs = []  # (fromkey, headstate, state)
                for k, h in heads.items():
                    b, x = body(enter(h))
                    exits.extend(x)
                    for s in b:
                        backs.append((k, h, s))
                grew = False
                if len(shaped) < 8:
                    for k, h, s in backs:
                        for c, v in h.store.items():
                            if c in shaped or c == LOG:
                                continue
                            v2 = s.store.get(c)
                            if v2 is not None and v2 is not v:
                                a, b2 = self.shape(v), self.shape(v2)
                                if a is not None and b2 is not None and a is not b2:
                                    shaped.add(c)
                                    grew = True
                if grew:
                    return None
                new = self.generalise(init, heads, backs, site, rounds, shaped)
                if len(new) > 64:
                    raise Abort('too many loop head states ' + self.where(site[1]))
                if self.same_heads(new, heads):
                    sink = self.sink
                    for o in sink:
                        leave(o[1])
                    saved.extend(sink)
                    if self.record_loops:
                        self.notes.extend(('trans', site, h, s) for k, h, s in backs)
                    if self.record_folds:
                        self.fold(init, heads, backs, site)
                    self.quantify(exits, backs, site)
                    snotes.extend(self.notes)
                    return [(tag, leave(s)) for tag, s in exits]
                if DEBUG and rounds == int(os.environ.get("BKROUND", "25")):
                    self.dbg_heads(heads, new, rounds)
                heads = new
        finally:
            self.sink, self.notes = saved, snotes

    def quantify(self, exits, backs, site):
        """A loop that can be left early and was not: what held of every element it visited.
        forall(src, alternatives) with one tuple of guards per way back to the head, about elem(src, -1).
        When it was left early: exists(src, the facts known of the element it stopped at)."""
        es = {s.cur[-1] for k, h, s in backs}
        if len(es) == 1 and len(next(iter(es))) == 1:
            e = next(iter(es))[0]
            if e[0] == 'elem' and any(s.cur[-1] == (e,) and s.facts.get(mkapp('exhausted', e[1], site)) is not True for tag, s in exits):
                self.early.append((site, e[1]))
        if len(exits) < 2 and not self.sink:
            return
        if len(es) != 1 or len(next(iter(es))) != 1:
            return
        e = next(iter(es))[0]
        if e[0] != 'elem':
            return
        alts = set()
        q = mk('elem', e[1], -1)
        m = {e: q}
        if e[1][0] == 'app' and e[1][1] in ('zip', 'char_indices'):
            # what its items are made of
            for x in (mkapp('chars', e[1][2]),) if e[1][1] == 'char_indices' else e[1][2:4]:
                m[mk('elem', x, e[2])] = mk('elem', x, -1)
        for k, h, s in backs:
            g = self.new_guards(h, s, s.fresh[-1])
            if not g:
                return
            alts.add(subst(g, m))
        f = mkapp('forall', e[1], mk('alts', tuple(sorted(alts, key=str_key))))
        ex = mkapp('exhausted', e[1], site)
        for tag, s in exits:
            if s.facts.get(ex) is True:
                s.facts[f] = True
            elif s.cur[-1] == (e,):
                g = tuple(sorted((mk(x, v) for x, v in s.facts.items() if any(y in atoms(x) for y in m) and x[0] != 'known'), key=str_key))
                if g:
                    s.facts[mkapp('exists', e[1], mk('alts', (subst(g, m),)))] = True

    def dbg_heads(self, a, b, rounds):
        if set(a) != set(b):
            print('ROUND', rounds, 'keys', len(a), len(b))
        for k in b:
            if k not in a:
                continue
            for c in set(a[k].store) | set(b[k].store):
                x, y = a[k].store.get(c), b[k].store.get(c)
                if x is not y:
                    if x is None or y is None:
                        print('ROUND', rounds, 'cell', str(c)[:100], 'old', x and show(x)[:200], 'new', y and show(y)[:200])
                        continue
                    for d in tdiff(x, y)[:3]:
                        print('ROUND', rounds, 'cell', str(c)[:100], '\n   old', d[0][:500], '\n   new', d[1][:500])
            fa, fb = a[k].facts, b[k].facts
            for f in set(fa) | set(fb):
                if fa.get(f) != fb.get(f):
                    print('ROUND', rounds, 'fact', show(f)[:300], fa.get(f), fb.get(f))

    def iter_advanced(self, v, v2, cell, path, out):
        if v[0] == 'iter' and v2[0] == 'iter':
            if v[3] != 'L' and v is not v2:
                out.add((cell, path))
            return
        if v[0] == v2[0] == 'adt' and v[2] == v2[2]:
            d2 = dict(v2[3])
            for f in v[3]:
                if f[0] in d2 and f[1] is not d2[f[0]]:
                    self.iter_advanced(f[1], d2[f[0]], cell, path + (('f', None, f[0]),), out)
        if v[0] == v2[0] == 'tup' and len(v[1]) == len(v2[1]):
            for i, (a, b) in enumerate(zip(v[1], v2[1])):
                if a is not b:
                    self.iter_advanced(a, b, cell, path + (('f', None, str(i)),), out)
        if v[0] == v2[0] == 'clo':
            for i, (a, b) in enumerate(zip(v[2], v2[2])):
                if a is not b:
                    self.iter_advanced(a, b, cell, path + (('f', None, str(i)),), out)

    def loopmode(self, st, it):
        if it[0] != 'iter':
            return it
        src = self.lib.iter_src(self, st, it)
        return mk('iter', src, it[2], 'L')

    def same_heads(self, a, b):
        if set(a) != set(b):
            return False
        for k in a:
            if a[k].store != b[k].store or a[k].facts != b[k].facts:
                return False
        return True

    def generalise(self, init, heads, backs, site, rounds, shaped=()):
        # sequences changed in this loop, by (cell, path)
        tracked = set()
        for k, h, s in backs:
            for c, v in h.store.items():
                v2 = s.store.get(c)
                if v2 is not None and v2 is not v:
                    self.find_seq_deltas(v, v2, c, (), tracked)
        # deltas
        trans = []  # (fromkey, tokey, state, {loc: delta}, guards, src)
        for k, h, s in backs:
            s = s.copy()
            src = s.cur[-1]
            fresh = s.fresh[-1]
            guards = self.new_guards(h, s, fresh)
            s.cur, s.active, s.fresh = s.cur[:-1], s.active[:-1], s.fresh[:-1]
            deltas = {}
            for (c, path) in tracked:
                v = self.read(h, c, path) if c in h.store else None
                v2 = self.read(s, c, path) if c in s.store else None
                if v is None or v2 is None:
                    deltas[(c, path)] = None
                    continue
                deltas[(c, path)] = self.seq_delta(v, v2)
            tk = self.lkey(s, shaped)
            trans.append((k, tk, h, s, deltas, guards, src, fresh))
        # sequences for which a delta is not a suffix are not tracked
        bad = {loc for t in trans for loc, d in t[4].items() if d is None}
        locs = [l for l in sorted(tracked, key=str) if l not in bad]
        # alternatives per key (closure over the key graph)
        keys = set(init) | {t[1] for t in trans}
        alts = {k: {} for k in keys}   # key -> {loc: dict(alt->None)}
        srcs = set(t[6] for t in trans)
        srcset = {x[0] for x in srcs if len(x) == 1}
        if len(srcset) == 1 and all(len(x) == 1 for x in srcs):
            src = next(iter(srcset))
        else:
            es = {e for x in srcs for e in x}
            src = mk('elems', tuple(sorted(es, key=str_key)), site) if es else mk('loop', site)
        changed = True
        while changed:
            changed = False
            for (k, tk, h, s, deltas, guards, _, _) in trans:
                for loc in locs:
                    d = alts[tk].setdefault(loc, {})
                    new = dict(alts[k].get(loc, {})) if k in alts else {}
                    new[(guards, deltas[loc])] = None
                    for a in new:
                        if a not in d:
                            d[a] = None
                            changed = True
        mins = {}
        for k in keys:
            for loc in locs:
                mins[(k, loc)] = 0 if k in init else 1
        changed = True
        while changed:
            changed = False
            for k in keys:
                if k in init:
                    continue
                for loc in locs:
                    if mins[(k, loc)]:
                        ok = all(mins.get((t[0], loc), 0) or self.delta_nonempty(t[4][loc]) for t in trans if t[1] == k)
                        if not ok:
                            mins[(k, loc)] = 0
                            changed = True
        new = {}
        for k, e in init.items():
            e2 = e.copy()
            for loc in locs:
                self.install(e2, e, loc, src, alts[k].get(loc, {}), mins[(k, loc)], site)
            new[k] = e2
        inits = list(init.values())
        for (k, tk, h, s, deltas, guards, _, fresh) in trans:
            b = s
            for loc in locs:
                # base = entry value of the sequence: h minus the each piece
                c, path = loc
                base = self.base_of(h, loc, site)
                self.write(b, c, path, base)
                self.install(b, b, loc, src, alts[tk].get(loc, {}), mins[(tk, loc)], site)
            # drop cells that do not exist at the head, forget per-iteration terms
            fs = set(fresh)
            st2 = {}
            for c, v in b.store.items():
                if c not in h.store:
                    if not (isinstance(c, tuple) and c and c[0] in ('ment', 'heap')) or (atoms(c) & fs):
                        continue
                st2[c] = v
            b.store = st2
            b.facts = {f: v for f, v in b.facts.items() if not (atoms(f) & fs) and not self.mentions_site(f, site)}
            fa = {}
            scrub = {}
            for c, v in list(b.store.items()):
                if c in h.store and h.store[c] is v:
                    continue
                b.store[c] = self.scrub(b, h, v, fs, site, c, (), [l for l in locs if l[0] == c])
            cur = new.get(tk)
            new[tk] = b if cur is None else self.join(cur, b, site, rounds)
        # keep iterating monotonically: join with the previous heads
        for k in list(new):
            if k in heads and rounds > 1:
                new[k] = self.join(heads[k], new[k], site, rounds, prefer_new=set(locs))
        for k in heads:
            if k not in new:
                new[k] = heads[k]
        for s in new.values():
            d = len(next(iter(init.values())).cur)
        return new

    def mentions_site(self, f, site):
        for a in atoms(f):
            if a[0] == 'phi' and a[1] is site:
                return True
        return False

    def base_of(self, h, loc, site):
        v = self.read(h, loc[0], loc[1])
        if v[0] == 'S' and v[2] and v[2][-1][0] == 'each' and v[2][-1][4] is site:
            return seq(v[1], v[2][:-1])
        return v

    def install(self, st, base_st, loc, src, alts, mn, site):
        c, path = loc
        v = self.base_of(base_st, loc, site)
        if not alts:
            self.write(st, c, path, v)
            return
        if not any(d for g, d in alts):
            # nothing is ever appended
            self.write(st, c, path, v)
            return
        kind = v[1] if v[0] == 'S' else ('str' if v[0] == 'str' else self.seqkind(alts))
        al = tuple(sorted(alts, key=lambda a: (str_key(a))))
        piece = mk('each', src, al, mn, site)
        self.write(st, c, path, seq(kind, pieces_of(v, kind) + (piece,)))

    def seqkind(self, alts):
        for g, d in alts:
            for p in d:
                return 'vec' if p[0] in ('one', 'all') else 'str'
        return 'vec'

    def find_seq_deltas(self, v, v2, cell, path, out):
        d = self.seq_delta(v, v2)
        if d:
            out.add((cell, path))
            return
        if v[0] == v2[0] == 'adt' and v[2] == v2[2]:
            d2 = dict(v2[3])
            for f in v[3]:
                if f[0] in d2 and f[1] is not d2[f[0]]:
                    vr = v[2] if (self.p.adts.get(v[1]) or {}).get('enum') else None
                    self.find_seq_deltas(f[1], d2[f[0]], cell, path + (('f', vr, f[0]),), out)
        elif v[0] == v2[0] == 'tup' and len(v[1]) == len(v2[1]):
            for i, (a, b) in enumerate(zip(v[1], v2[1])):
                if a is not b:
                    self.find_seq_deltas(a, b, cell, path + (('f', None, str(i)),), out)
        elif v2[0] == 'upd':
            b0 = v[1] if v[0] == 'upd' else v
            if v2[1] is b0:
                for (vr, n), x in v2[2]:
                    o = getf(v, vr, n)
                    if o is not x:
                        self.find_seq_deltas(o, x, cell, path + (('f', vr, n),), out)

    def seq_delta(self, v, v2):
        """pieces appended by v2 to v, () when equal, None when not an extension"""
        if v is v2:
            return ()
        if v2[0] == 'S':
            kind = v2[1]
            if v[0] == 'S' and v[1] != kind:
                return None
        elif v2[0] == 'str' and v[0] == 'str':
            if v2[1].startswith(v[1]):
                return (STR(v2[1][len(v[1]):]),)
            return None
        elif v is EMPTYVEC and v2[0] in ('app', 'fld', 'sym', 'elem'):
            kind = 'vec'
        elif v is STR('') and v2[0] in ('app', 'fld', 'sym', 'elem'):
            kind = 'str'
        else:
            return None
        if v[0] not in ('S', 'str') and kind == 'str' and not (v2[2] and v2[2][0] is v):
            return None
        p, p2 = pieces_of(v, kind), pieces_of(v2, kind)
        n = len(p)
        if len(p2) >= n and p2[:n] == p:
            return p2[n:]
        if kind == 'str' and n and len(p2) >= n and p2[:n - 1] == p[:n - 1] and p[n - 1][0] == 'str' and p2[n - 1][0] == 'str' \
                and p2[n - 1][1].startswith(p[n - 1][1]):
            return (STR(p2[n - 1][1][len(p[n - 1][1]):]),) + p2[n:]
        return None

    def new_guards(self, h, s, fresh):
        out = []
        srcs = [e[1] for e in s.cur[-1] if e[0] == 'elem'] if s.cur else ()
        for f, v in s.facts.items():
            if h.facts.get(f) == v:
                continue
            if f[0] == 'app' and f[1] == 'empty' and v is False and f[2] in srcs:
                continue
            if f[0] == 'known' or (f[0] == 'app' and f[1] == 'exhausted'):
                continue
            out.append(mk(f, v if isinstance(v, (bool, tuple)) else v))
        out.sort(key=lambda t: t.n)
        return tuple(out)

    def scrub(self, b, h, v, fs, site, c, path, locs):
        """Replace per-iteration values in non-sequence positions by phi."""
        if not isinstance(v, T) or not (atoms(v) & fs):
            return v
        if (c, path) in locs:
            return v
        if v[0] == 'S':
            if c == LOG and path == ():
                return v
            if c not in h.store:
                return v
        if v[0] == 'adt':
            vr = v[2] if (self.p.adts.get(v[1]) or {}).get('enum') else None
            return mk('adt', v[1], v[2], tuple(mk(f[0], self.scrub(b, h, f[1], fs, site, c, path + (('f', vr, f[0]),), locs)) for f in v[3]))
        if v[0] == 'tup':
            return mk('tup', tuple(self.scrub(b, h, x, fs, site, c, path + (('f', None, str(i)),), locs) for i, x in enumerate(v[1])))
        if v[0] == 'clo':
            return mk('clo', v[1], tuple(self.scrub(b, h, x, fs, site, c, path + (('f', None, str(i)),), locs) for i, x in enumerate(v[2])))
        if v[0] == 'upd':
            return mk('upd', self.scrub(b, h, v[1], fs, site, c, path, locs),
                      tuple((k, self.scrub(b, h, x, fs, site, c, path + (('f',) + k,), locs)) for k, x in v[2]))
        if isinstance(c, tuple) and c and c[0] == 'ment':
            return v
        return mk('phi', site, self.cellname(c), path)

    def cellname(self, c):
        return c

    def join(self, a, b, site, rounds=1, prefer_new=()):
        s = a.copy()
        st = {}
        for c, v in a.store.items():
            w = b.store.get(c)
            if w is None:
                if isinstance(c, tuple) and c and c[0] in ('ment', 'heap'):
                    st[c] = v
                continue
            st[c] = v if v is w else self.joinv(v, w, site, c, (), rounds, prefer_new)
        for c, v in b.store.items():
            if c not in a.store and isinstance(c, tuple) and c and c[0] in ('ment', 'heap'):
                st[c] = v
        s.store = st
        fx = {}
        for f, v in a.facts.items():
            w = b.facts.get(f)
            if w == v:
                fx[f] = v
            elif w is not None and f[0] == 'variant':
                if v[0] and w[0]:
                    fx[f] = (True, tuple(sorted(set(v[1]) | set(w[1]))))
        # facts about values that became opaque
        s.facts = fx
        return s

    def joinv(self, v, w, site, c, path, rounds, prefer_new):
        if v is w:
            return v
        if (c, path) in prefer_new:
            return w
        if v[0] == 'adt' and w[0] == 'adt' and v[2] == w[2] and len(v[3]) == len(w[3]):
            vr = v[2] if (self.p.adts.get(v[1]) or {}).get('enum') else None
            dw = dict(w[3])
            return mk('adt', v[1], v[2], tuple(mk(f[0], self.joinv(f[1], dw.get(f[0], TOP), site, c, path + (('f', vr, f[0]),), rounds, prefer_new)) for f in v[3]))
        if v[0] == 'tup' and w[0] == 'tup' and len(v[1]) == len(w[1]):
            return mk('tup', tuple(self.joinv(x, y, site, c, path + (('f', None, str(i)),), rounds, prefer_new) for i, (x, y) in enumerate(zip(v[1], w[1]))))
        if v[0] == 'clo' and w[0] == 'clo' and v[1] == w[1]:
            return mk('clo', v[1], tuple(self.joinv(x, y, site, c, path + (('f', None, str(i)),), rounds, prefer_new) for i, (x, y) in enumerate(zip(v[2], w[2]))))
        if v[0] == 'upd' or w[0] == 'upd':
            bv = v[1] if v[0] == 'upd' else v
            bw = w[1] if w[0] == 'upd' else w
            if bv is bw:
                ks = {}
                for z in (v, w):
                    if z[0] == 'upd':
                        for k, _ in z[2]:
                            ks[k] = None
                r = bv
                for k in ks:
                    r = setf(r, k[0], k[1], self.joinv(getf(v, *k), getf(w, *k), site, c, path + (('f',) + k,), rounds, prefer_new))
                return r
        ia, ib = self.ivof(v), self.ivof(w)
        if ia and ib:
            lo = min(ia[0], ib[0])
            hi = None if ia[1] is None or ib[1] is None else max(ia[1], ib[1])
            if rounds > 3:
                hi = None
                if ib[0] < ia[0]:
                    lo = 0 if ib[0] >= 0 else None
            if lo is not None:
                return mk('iv', lo, hi, site, self.cellname(c), path)
        if v[0] == 'phi' and v[1] is site:
            return v
        if w[0] == 'phi' and w[1] is site:
            return w
        if v[0] == 'S' and w[0] == 'S' and v[1] == w[1]:
            r = self.join_seq(v, w, site)
            if r is not None:
                return r
        return mk('phi', site, self.cellname(c), path)

    def ivof(self, v):
        if v[0] == 'int':
            return v[1], v[1]
        if v[0] == 'iv':
            return v[1], v[2]
        if v[0] == 'app' and v[1] == 'plus' and v[2][0] == 'iv' and v[3][0] == 'int':
            a, b = v[2][1], v[2][2]
            return a + v[3][1], None if b is None else b + v[3][1]
        if v[0] == 'app' and v[1] == 'add2':
            return None
        return None

    def join_seq(self, v, w, site):
        p, q = v[2], w[2]
        n = 0
        while n < len(p) and n < len(q) and p[n] is q[n]:
            n += 1
        rp, rq = p[n:], q[n:]
        if any(x[0] == 'each' and x[4] is site for x in rp + rq) and (len(rp) <= 1 and len(rq) <= 1):
            # this loop's own piece: union of the alternatives
            ex = [x for x in rp + rq if x[0] == 'each']
            if all(x[0] == 'each' for x in rp + rq):
                al = {}
                for x in ex:
                    for a in x[2]:
                        al[a] = None
                mn = 1 if len(ex) == 2 and all(x[3] for x in ex) else 0
                return seq(v[1], p[:n] + (mk('each', ex[0][1], tuple(sorted(al, key=str_key)), mn, site),))
        mn = 1 if self.delta_nonempty(rp) and self.delta_nonempty(rq) else 0
        return seq(v[1], p[:n] + (mk('each', mk('join', site), tuple(sorted({((), rp): 0, ((), rq): 0}, key=str_key)), mn, mk('J', site)),))

    # ---- statements -----------------------------------------------
    def transfer(self, st, pr, bi, ctx, key):
        """Successor states of one basic block."""
        self.steps += 1
        self.statecount += 1
        if self.steps > self.budget:
            raise Abort('step budget exceeded in ' + key)
        blk = pr.b['blocks'][bi]
        st = st.copy()
        for s in blk[0]:
            k = s[0]
            if k == '=':
                v = self.rvalue(st, ctx, s[2], key)
                if self.overflow and s[2][0] == 'bin' and s[2][1] == 'SubWithOverflow' and not s[1][1] and body_ty(self.p, key, s[1][0]).startswith('(u') and v[0] == 'tup':
                    # an unsigned difference that would be below zero panics
                    a, b = (self.freeze(st, self.operand(st, ctx, x, key)) for x in s[2][2:4])
                    v = mk('tup', (v[1][0], self.ltterm(st, a, b)))
                self.assign(st, ctx, s[1], v)
            elif k == 'setd':
                r = self.resolve(st, ctx, s[1])
                if r[0] == 'cell':
                    self.write(st, r[1], r[2], mk('adt', '?', s[2], ()))
            elif k in ('dead',):
                st.store.pop((ctx, s[1]), None)
        t = blk[1]
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'ret':
            return [('ret', st)]
        if k == 'unreach':
            return []
        if k == 'drop':
            return [(t[1], st)]
        if k == 'switch':
            return self.switch(st, ctx, t, key)
        if k == 'assert':
            c = self.operand(st, ctx, t[1], key)
            s2 = st.copy()
            if self.overflow and t[2] is False and self.freeze(st, c) is not FALSE:
                s3 = st.copy()
                if self.assume(s3, self.freeze(st, c), True):
                    self.panic(s3, ctx, t[5], 'assert ' + t[4])
            if self.assume(s2, self.freeze(st, c), t[2]):
                return [(t[3], s2)]
            self.panic(st, ctx, t[5], 'assert ' + t[4])
            return []
        if k == 'call':
            return self.call(st, ctx, t, key, bi)
        if k == 'cleanup' or k == 'other':
            return []
        raise Abort(f'terminator {k}')

    def panic(self, st, ctx, loc, what):
        self.sink.append(('panic', st.copy(), (ctx, loc, what)))

    def assign(self, st, ctx, place, v):
        r = self.resolve(st, ctx, place)
        if r[0] == 'cell':
            self.write(st, r[1], r[2], v)
        # a write through an opaque reference is lost: the callee's own view

    def rvalue(self, st, ctx, r, key):
        k = r[0]
        if k == 'use':
            return self.operand(st, ctx, r[1], key)
        if k in ('ref', 'reb'):
            q = self.resolve(st, ctx, r[1])
            if q[0] == 'val':
                return q[1]
            if q[3] and not r[2]:
                # a shared borrow through a reference that stands for its referent
                return self.read(st, q[1], q[2])
            return mk('ref', q[1], q[2])
        if k == 'discr':
            v = self.load(st, ctx, r[1])
            v = self.deref(st, v)
            return mk('discr', v, canon(r[2]) if r[2] else None)
        if k == 'agg':
            vals = [self.operand(st, ctx, o, key) for o in r[2]]
            if r[1] == 'adt':
                return mk('adt', canon(r[3]), r[4], tuple(mk(n, v) for n, v in zip(r[5], vals)))
            if r[1] == 'tuple':
                return mk('tup', tuple(vals))
            if r[1] == 'array':
                return mk('arr', tuple(vals))
            if r[1] == 'closure':
                return mk('clo', canon(r[3]), tuple(vals))
            return TOP
        if k == 'cast':
            v = self.operand(st, ctx, r[2], key)
            if 'IntToInt' in r[1] and v[0] not in ('int',):
                fv = self.freeze(st, v)
                if fv[0] in ('char', 'bool'):
                    return INT(int(fv[1]))
                return fv
            return v
        if k == 'bin':
            return self.binop(st, r[1], self.operand(st, ctx, r[2], key), self.operand(st, ctx, r[3], key))
        if k == 'un':
            v = self.freeze(st, self.operand(st, ctx, r[2], key))
            if r[1] == 'Not':
                if v[0] == 'bool':
                    return BOOL(not v[1])
                if v[0] == 'not':
                    return v[1]
                return mk('not', v)
            if r[1] == 'Neg':
                return INT(-v[1]) if v[0] == 'int' else mkapp('neg', v)
            if r[1] == 'PtrMetadata':
                return self.lib.length(self, st, v)
            return mkapp(r[1], v)
        if k == 'rep':
            return mkapp('repeat', self.freeze(st, self.operand(st, ctx, r[1], key)))
        raise Abort(f'rvalue {r[:2]}')

    def binop(self, st, op, a, b):
        a, b = self.freeze(st, a), self.freeze(st, b)
        chk = op.endswith('WithOverflow')
        o = op.replace('WithOverflow', '').replace('Unchecked', '')
        if o in ('Eq', 'Ne'):
            r = self.eqterm(st, a, b)
            return r if o == 'Eq' else self.negate(r)
        if o == 'Lt':
            return self.ltterm(st, a, b)
        if o == 'Gt':
            return self.ltterm(st, b, a)
        if o == 'Le':
            return self.negate(self.ltterm(st, b, a))
        if o == 'Ge':
            return self.negate(self.ltterm(st, a, b))
        if o == 'Add':
            r = self.addterm(a, b)
        elif o == 'Sub':
            if b[0] == 'int':
                r = self.addterm(a, INT(-b[1]))
            elif a is b:
                r = INT(0)
            else:
                r = mkapp('sub', a, b)
        elif o == 'Mul' and a[0] == 'int' and b[0] == 'int':
            r = INT(a[1] * b[1])
        elif o in ('BitAnd', 'BitOr', 'BitXor') and (a[0] == 'bool' or b[0] == 'bool' or a[0] in ('not',)):
            r = self.boolop(o, a, b)
        else:
            r = mkapp(o.lower(), a, b)
        if chk:
            return mk('tup', (r, FALSE))
        return r

    def boolop(self, o, a, b):
        if a[0] != 'bool':
            a, b = b, a
        if a[0] == 'bool':
            if o == 'BitAnd':
                return b if a[1] else FALSE
            if o == 'BitOr':
                return TRUE if a[1] else b
            return self.negate(b) if a[1] else b
        return mkapp(o.lower(), a, b)

    def addterm(self, a, b):
        if a[0] == 'int' and b[0] == 'int':
            return INT(a[1] + b[1])
        if a[0] == 'int':
            a, b = b, a
        if b[0] == 'int':
            if b[1] == 0:
                return a
            if a[0] == 'app' and a[1] == 'plus':
                return self.addterm(a[2], INT(a[3][1] + b[1]))
            return mkapp('plus', a, b)
        x, y = sorted((a, b), key=lambda z: z.n)
        return mkapp('add2', x, y)

    def negate(self, t):
        if t[0] == 'bool':
            return BOOL(not t[1])
        if t[0] == 'not':
            return t[1]
        return mk('not', t)

    def eqterm(self, st, a, b):
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if x[0] == 'ctr' and self.lib.counted(y) is not None:
                return self.negate(mkapp('more', x, y))
            if y is TRUE:
                return x
            if y is FALSE:
                return self.negate(x)
        # discriminants
        if a[0] == 'discr' and b[0] == 'discr':
            x, y = a[1], b[1]
            if y[0] == 'adt' and x[0] != 'adt':
                return mkapp('isvar', x, y[2])
            if x[0] == 'adt' and y[0] != 'adt':
                return mkapp('isvar', y, x[2])
            if x[0] == 'adt' and y[0] == 'adt':
                return BOOL(x[2] == y[2])
        for x, y in ((a, b), (b, a)):
            if x[0] == 'discr' and y[0] == 'int':
                n = self.dname(x, y[1])
                if n is not None:
                    if x[1][0] == 'adt':
                        return BOOL(x[1][2] == n)
                    return mkapp('isvar', x[1], n)
            # unit-like enum constants: compare the variant
            if y[0] == 'adt' and not y[3] and x[0] not in ('adt',) and self.p.variants(y[1]):
                return mkapp('isvar', x, y[2])
        r = self.eqval(st, a, b)
        if r is not None:
            return BOOL(r)
        for x, y in ((a, b), (b, a)):
            if y is STR(''):
                return self.empty_term(st, x)
            if y is INT(0) and x[0] == 'app' and x[1] == 'len':
                return self.empty_term(st, x[2])
        if a[0] == 'adt' and b[0] == 'adt' and a[2] == b[2]:
            # of one undecided field: that field's
            fb = dict(b[3])
            d = [(x, fb[n]) for n, x in a[3] if n in fb and self.eqval(st, x, fb[n]) is not True]
            if len(d) == 1 and len(fb) == len(a[3]):
                return self.eqterm(st, *d[0])
        return mkapp('eq', *sorted((a, b), key=lambda z: z.n))

    def dname(self, d, val):
        a = self.p.adts.get(d[2])
        if not a:
            return None
        for v in a['variants']:
            if v['d'] == val:
                return v['n']
        return None

    def empty_term(self, st, x):
        r = self.emptyval(st, x)
        if r is not None:
            return BOOL(r)
        if x[0] == 'S':
            ps = [p for p in x[2]]
            if len(ps) == 1 and ps[0][0] == 'all':
                return self.empty_term(st, ps[0][1])
        if x[0] == 'app' and x[1] in ('chars', 'bytes'):
            return self.empty_term(st, x[2])
        return mkapp('empty', x)

    def ltterm(self, st, a, b):
        r = self.ltval(st, a, b)
        if r is not None:
            return BOOL(r)
        if a[0] == 'ctr' and self.lib.counted(b) is not None:
            return mkapp('more', a, b)
        # len > 0  /  len >= 1  /  len < 1
        if b[0] == 'app' and b[1] == 'len' and a is INT(0):
            return self.negate(self.empty_term(st, b[2]))
        if a[0] == 'app' and a[1] == 'len' and b is INT(1):
            return self.empty_term(st, a[2])
        if a[0] == 'int' and b[0] == 'app' and b[1] == 'plus':
            return self.ltterm(st, INT(a[1] - b[3][1]), b[2])
        if b[0] == 'int' and a[0] == 'app' and a[1] == 'plus':
            return self.ltterm(st, a[2], INT(b[1] - a[3][1]))
        return mkapp('lt', a, b)

    def switch(self, st, ctx, t, key):
        v = self.operand(st, ctx, t[1], key)
        v = self.freeze(st, v)
        out = []
        w, pos = (v[1], False) if v[0] == 'not' else (v, True)
        if w[0] == 'app' and w[1] == 'more' and t[4] == 'bool':
            return [('reject' if b is None else t[3] if b is pos else t[2][0][1], s) for s, b in self.lib.more(self, st, w[2], w[3])]
        if v[0] == 'discr':
            x, an = v[1], v[2]
            a = self.p.adts.get(an)
            if a is None or not a['variants']:
                raise Abort(f'switch on unknown enum {an} in {key}')
            by = {w['d']: w['n'] for w in a['variants']}
            if x[0] == 'adt':
                dv = [w['d'] for w in a['variants'] if w['n'] == x[2]]
                for val, tgt in t[2]:
                    if dv and val == dv[0]:
                        return [(tgt, st)]
                return [(t[3], st)]
            rest = st.copy()
            ok = True
            for val, tgt in t[2]:
                n = by.get(val)
                if n is None:
                    continue
                s2 = st.copy()
                if self.assume_variant(s2, x, n, True):
                    out.append((tgt, s2))
                if ok:
                    ok = self.assume_variant(rest, x, n, False)
            if ok:
                # which variants remain?
                cur = rest.facts.get(mk('variant', x if x[0] != 'upd' else x[1]))
                left = [n for n in by.values() if not (cur and ((not cur[0] and n in cur[1]) or (cur[0] and n not in cur[1])))]
                if len(left) == 1:
                    if self.assume_variant(rest, x, left[0], True):
                        out.append((t[3], rest))
                elif left:
                    out.append((t[3], rest))
            return out
        if v[0] in ('bool', 'int', 'char'):
            n = int(v[1])
            for val, tgt in t[2]:
                if val == n:
                    return [(tgt, st)]
            return [(t[3], st)]
        if t[4] == 'bool':
            fs = st.copy()
            if self.assume(fs, v, False):
                out.append((t[2][0][1], fs))
            if self.assume(st, v, True):
                out.append((t[3], st))
            return out
        # integer / char switch
        rest = st.copy()
        ok = True
        for val, tgt in t[2]:
            c = mk('char', val) if t[4] == 'char' else INT(val)
            e = self.eqterm(st, v, c)
            s2 = st.copy()
            if self.assume(s2, e, True):
                out.append((tgt, s2))
            if ok:
                ok = self.assume(rest, self.eqterm(rest, v, c), False)
        if ok:
            out.append((t[3], rest))
        return out

    # ---- calls ----------------------------------------------------
    def call(self, st, ctx, t, key, bi):
        f = self.operand(st, ctx, t[1], key)
        args = [self.operand(st, ctx, a, key) for a in t[2]]
        self.sites.add((key, t[5]))
        site = mk('site', bi, t[5])
        outs = self.apply(st, f, args, ctx, site, canon(t[6]))
        res = []
        for s, v in outs:
            if t[4] is None:
                continue
            if v is self.lib.REJECT:
                res.append(('reject', s))
                continue
            self.assign(s, ctx, t[3], v)
            res.append((t[4], s))
        return res

    def apply(self, st, f, args, ctx, site, rty=''):
        """Call a function value: [(state, result)]"""
        fref = f
        f = self.deref(st, f)
        if f[0] == 'fn':
            return self.call_fn(st, f[1].o, args, ctx, site, rty)
        if f[0] == 'clo':
            while fref[0] == 'ref':
                c = self.read(st, fref[1], fref[2])
                if c[0] != 'ref':
                    break
                fref = c
            return self.call_closure(st, f, args, ctx, site, fref if fref[0] == 'ref' and fref[1][0] == 'ms' else None)
        # an unknown function value
        return [(st, mkapp('callval', self.freeze(st, f), *[self.freeze(st, a) for a in args]))]

    def call_closure(self, st, f, args, ctx, site, fref=None):
        key = f[1]
        b = self.p.bodies.get(key)
        if b is None:
            raise Abort(f'no body for closure {key}')
        c = self.ctx(ctx, site, key)
        selfty = b['locals'][1]
        if selfty.startswith('&'):
            if fref is None:
                cell = ('t', c, 'clo')
                st = st.copy()
                st.store[cell] = f
                a0 = mk('ref', cell, ())
            else:
                a0 = fref
        else:
            a0 = f
        # closures take their arguments untupled in MIR (rust-call is spread by the body)
        return self.inline(st, key, [a0] + list(args), c, site)

    def inline(self, st, key, args, c, site):
        if self.stack.count(key) >= 1:
            return self.recursive(st, key, args, c, site)
        return self.call_body(st, key, args, c)

    def recursive(self, st, key, args, c, site):
        fr = [self.freeze(st, a) for a in args]
        st = st.copy()
        r = mkapp('rec:' + key, *fr)
        self.event(st, 'rec', key, mk('tup', tuple(fr)))
        if not self.rec_keep:
            self.havoc_args(st, args, c, site)
        return [(st, r)]

    def havoc_args(self, st, args, c, site):
        b = None
        for a in args:
            if a[0] == 'ref':
                self.havoc_ref(st, a, c, site, set())

    def havoc_ref(self, st, a, c, site, seen):
        if a in seen:
            return
        seen.add(a)
        v = self.read(st, a[1], a[2])
        if v[0] == 'ref':
            self.havoc_ref(st, v, c, site, seen)
            return
        self.write(st, a[1], a[2], self.havocv(st, v, c, site, a, seen))

    def havocv(self, st, v, c, site, a, seen):
        if v[0] == 'adt':
            return mk('adt', v[1], v[2], tuple(mk(f[0], self.havocv(st, f[1], c, site, mk(a, f[0]), seen)) for f in v[3]))
        if v[0] == 'ref':
            self.havoc_ref(st, v, c, site, seen)
            return v
        t = self.new(st, c, site, 'havoc', a)
        return t

    def call_fn(self, st, o, args, ctx, site, rty=''):
        key = canon(o.get('key'))
        path = canon(o['path'])
        # repository functions treated as boundaries by the rule
        for cand in (key, path):
            if cand in self.opaque:
                h = self.opaque[cand]
                if h is not None and not isinstance(h, str):
                    r = h(self, st, cand, args, ctx, site, rty)
                    if r is not None:
                        return r
                    continue
                return self.boundary(st, cand, args, ctx, site, rty)
        m = self.lib.lookup(path, o)
        if m is not None:
            if self.outofbounds:
                for t in self.lib.panics_when(self, st, path, args, o):
                    s = st.copy()
                    if self.assume(s, t, True):
                        self.panic(s, ctx, site[2], 'out of bounds in ' + path.split('::')[-1])
                    st = st.copy()
                    if not self.assume(st, t, False):
                        return []
            r = m(self, st, args, ctx, site, o, rty)
            if r is not None:
                return r
        if key is not None and key in self.p.bodies:
            if self.noinline(key):
                return self.boundary(st, key, args, ctx, site, rty)
            return self.inline(st, key, args, self.ctx(ctx, site, key), site)
        return self.unknown(st, o, path, args, ctx, site, rty)

    def boundary(self, st, name, args, ctx, site, rty):
        """An uninterpreted call: a function of the values of its arguments."""
        fr = [self.freeze(st, a) for a in args]
        st = st.copy()
        t = mkapp(name, *fr)
        self.event(st, 'call', name, mk('tup', tuple(fr)), t)
        b = self.p.bodies.get(name)
        if b is not None and self.opaque.get(name) != 'pure':
            for i, a in enumerate(args[:b['argc']]):
                if a[0] == 'ref' and canon(b['locals'][i + 1]).startswith('&mut'):
                    self.havoc_ref(st, a, ctx, site, set())
        return self.result(st, t, rty)

    def result(self, st, t, rty):
        if rty.startswith('std::result::Result<'):
            out = []
            for vn, mkv in (('Ok', OK), ('Err', ERR)):
                s2 = st.copy()
                if self.assume_variant(s2, t, vn, True):
                    self.event(s2, 'outcome', t, vn)
                    out.append((s2, mkv(getf(t, vn, '0'))))
            return out
        return [(st, t)]

    def unknown(self, st, o, path, args, ctx, site, rty):
        self.unmodelled[path] = self.unmodelled.get(path, 0) + 1
        fr = [self.freeze(st, a) for a in args]
        st = st.copy()
        # unknown code may write through the mutable references it is given
        for a in args:
            if a[0] == 'ref' and self.lib.mut_receiver(path):
                self.havoc_ref(st, a, ctx, site, set())
        t = mkapp(path, *fr)
        if '&mut' in ' '.join(o.get('args', ())):
            pass
        return [(st, t)]

    # ---- entry ----------------------------------------------------
    def run(self, key, args=None, st=None, names=None):
        b = self.p.bodies.get(key)
        if b is None:
            raise Abort(f'entry point {key} not found')
        st = st.copy() if st is not None else State()
        st.store.setdefault(LOG, EMPTYVEC)
        if args is None:
            args = []
            for i in range(b['argc']):
                ty = canon(b['locals'][i + 1])
                tab = ARGNAMES.get(key)
                nm = names[i] if names else tab[i] if tab and len(tab) == b['argc'] else self.argname(b, i + 1)
                args.append(self.symarg(st, nm, ty))
        outs = self.call_body(st, key, args, self.ctx(0, 'entry', key))
        return outs

    def argname(self, b, i):
        for n, p in b['names']:
            if p[0] == i and not p[1]:
                return n
        return f'arg{i}'

    def symarg(self, st, nm, ty):
        if ty.startswith('&') and 'str' not in ty.split(' ')[-1:]:
            cell = ('arg', nm)
            st.store[cell] = mk('sym', nm)
            return mk('ref', cell, ())
        return mk('sym', nm)


# what the checks call the parameters of the functions they analyse, whatever the source calls them
try:
    ARGNAMES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'argnames.json')))
except OSError:
    ARGNAMES = {}


def str_key(x):
    """Deterministic order on nested tuples of terms."""
    if isinstance(x, T):
        return (1, x.n)
    if isinstance(x, tuple):
        return (2, tuple(str_key(y) for y in x))
    return (0, str(x))


class FnRef:
    tab = {}

    def __init__(self, o, k):
        self.o = o
        self.k = k

    def __repr__(self):
        return 'Fn(' + self.k + ')'

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return self is o

    @staticmethod
    def get(o):
        k = canon(o['path']) + '<' + ','.join(o.get('args', ())) + '>' + (o.get('key') or '')
        r = FnRef.tab.get(k)
        if r is None:
            r = FnRef.tab[k] = FnRef(o, k)
        return r


# ---------------------------------------------------------------- printing

def show(t, d=0):
    if d > 40:
        return '...'
    if isinstance(t, FnRef):
        return t.k.split('<')[0]
    if not isinstance(t, tuple):
        return str(t)
    if isinstance(t, T) and t and isinstance(t[0], tuple):
        return show(t[0], d + 1) + '=' + (','.join(t[1][1]) if isinstance(t[1], tuple) and not isinstance(t[1], T) and t[1] and t[1][0] is True else show(t[1], d + 1)) if len(t) == 2 else '(' + ', '.join(show(x, d + 1) for x in t) + ')'
    if not isinstance(t, T):
        return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
    if not t:
        return '()'
    k = t[0]
    if k == 'str':
        return repr(t[1])
    if k == 'char':
        return "'" + chr(t[1]) + "'"
    if k in ('int', 'bool'):
        return str(t[1])
    if k == 'sym':
        return t[1]
    if k == 'tup':
        return '(' + ', '.join(show(x, d + 1) for x in t[1]) + ')'
    if k == 'arr':
        return '[' + ', '.join(show(x, d + 1) for x in t[1]) + ']'
    if k == 'adt':
        n = t[1].split('::')[-1]
        fs = ', '.join(f'{f[0]}: {show(f[1], d+1)}' if not f[0].isdigit() else show(f[1], d + 1) for f in t[3])
        return (f'{n}::{t[2]}' if n != t[2] else n) + (f'({fs})' if fs else '')
    if k == 'fld':
        return f'{show(t[1], d+1)}.{t[2]+"#" if t[2] else ""}{t[3]}'
    if k == 'app':
        return f'{t[1]}({", ".join(show(x, d+1) for x in t[2:])})'
    if k == 'S':
        return f'{t[1]}[' + ' ++ '.join(show(x, d + 1) for x in t[2]) + ']'
    if k == 'one':
        return show(t[1], d + 1)
    if k == 'all':
        return f'*{show(t[1], d+1)}'
    if k == 'elem':
        return f'elem{t[2] or ""}<{show(t[1], d+1)}>'
    if k == 'each':
        return f'EACH{"+" if t[3] else ""}[{show(t[1], d+1)}]{{' + ' | '.join(
            ('when ' + ' & '.join(show(x, d + 1) for x in g) + ' => ' if g else '') + ' ++ '.join(show(x, d + 1) for x in dl) for g, dl in t[2]) + '}'
    if k == 'not':
        return '!' + show(t[1], d + 1)
    if k == 'variant':
        return f'variant({show(t[1], d+1)})'
    if k == 'clo':
        return f'closure<{t[1].split("::")[-2:]}>'
    if k == 'phi':
        return f'phi{t.n}'
    if k == 'new':
        return f'new<{t[1]}#{t.n}>'
    if k == 'ev':
        return 'ev:' + ', '.join(show(x, d + 1) for x in t[1:])
    if k == 'fn':
        return show(t[1])
    return f'<{k} ' + ' '.join(show(x, d + 1) for x in t[1:]) + '>'


def tdiff(a, b):
    """smallest differing subterms (debugging aid)"""
    if a is b or a == b:
        return []
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and (not isinstance(a[0], str) or a[0] == b[0]):
        out = []
        for x, y in zip(a, b):
            out += tdiff(x, y)
        return out
    return [(show(a) if isinstance(a, T) else str(a), show(b) if isinstance(b, T) else str(b))]


def show_facts(facts):
    return '; '.join(f'{show(f)}={v if not isinstance(v, T) else show(v)}' for f, v in sorted(facts.items(), key=lambda z: z[0].n) if f[0] != 'known')
