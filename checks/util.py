"""Queries over abstract outcomes."""
from engine.core import *


def walk(pieces, guards=None, path=()):
    """Every event of a log with the guards it lies under and the enclosing
    (each piece, alternative index) path."""
    guards = guards or {}
    for p in pieces:
        if p[0] == 'one' and p[1][0] == 'ev':
            yield p[1][1:], guards, path
        elif p[0] == 'each':
            for i, (g, d) in enumerate(p[2]):
                g2 = dict(guards)
                for x in g:
                    g2[x[0]] = x[1]
                yield from walk(d, g2, path + ((p, i),))


def eaches(pieces, path=()):
    for p in pieces:
        if p[0] == 'each':
            yield p, path
            for i, (g, d) in enumerate(p[2]):
                yield from eaches(d, path + ((p, i),))


def mentions(t, x):
    """x occurs in t as a sub-term"""
    if t is x:
        return True
    if isinstance(t, tuple):
        return any(mentions(y, x) for y in t if isinstance(y, tuple))
    return False


def find_terms(t, pred, out=None):
    if out is None:
        out = []
    if isinstance(t, tuple):
        if isinstance(t, T) and t and pred(t):
            if t not in out:
                out.append(t)
        for y in t:
            if isinstance(y, tuple):
                find_terms(y, pred, out)
    return out


def fact_true(facts, name, val=True):
    """Is a field of that name known to be val"""
    for f, v in facts.items():
        if f[0] == 'fld' and f[-1] == name and v is val:
            return True
    return False


def variant_is(facts, t, name):
    v = facts.get(mk('variant', t))
    if v is None:
        return None
    pos, names = v
    if pos:
        return True if names == (name,) else (None if name in names else False)
    return False if name in names else None


def guards_of(g):
    return {x[0]: x[1] for x in g}


def gshow(g, n=300):
    return ' & '.join(f'{show(f)[-110:]}={v}' for f, v in g.items())[:n]


def evs(pieces, kind):
    return [(e, g, p) for e, g, p in walk(pieces) if e[0] == kind]


def app(t, name):
    return t[0] == 'app' and t[1] == name


# ------------------------------------------------------------------ shapes

def rec(t, name):
    """The fields of a record (or enum variant) value of that type name, or None."""
    if isinstance(t, tuple) and t and t[0] == 'adt' and t[2] == name:
        return dict(t[3])
    return None


def inner(t, variant, name=None):
    """Enum::variant(Record) -> fields of the record"""
    f = rec(t, variant)
    if f is None or '0' not in f:
        return None
    return rec(f['0'], name or variant)


def flat(x, kind='vec'):
    """The pieces of a sequence with copies of whole sequences spliced."""
    out = []
    for p in pieces_of(x, kind):
        if p[0] == 'each' and len(p[2]) == 1 and not p[2][0][0] and p[2][0][1] == (one(p[1]),) and p[1][0] == 'elem':
            p = mk('all', p[1][1])
        if p[0] == 'all' and p[1][0] == 'S' and p[1] is not x:
            out += flat(p[1], kind)
        else:
            out.append(p)
    return tuple(out)


def src_of(p):
    """The sequence an each piece ranges over"""
    return p[1][1] if p[0] == 'each' and p[1][0] == 'elem' else None


def admits(v, name):
    pos, names = v
    return (name in names) if pos else (name not in names)


def by_variant(p, dom, facts=None):
    """{variant: [(other guards, data)]} of an each piece whose alternatives are split by the
    variant of its element."""
    out = {d: [] for d in dom}
    vf = mk('variant', p[1])
    for g, data in p[2]:
        gs = {x[0]: x[1] for x in g}
        v = gs.pop(vf, None)
        for d in dom:
            if v is None or admits(v, d):
                out[d].append((gs, data))
    return out


def _produces(p, variant, dom):
    """how many elements an each piece yields for an element of that variant: 0, '+', 1 or None"""
    alts = by_variant(p, dom)[variant]
    r = set()
    for gs, data in alts:
        if not data:
            r.add(0)
        elif len(data) == 1 and data[0][0] == 'one':
            r.add(1)
        elif any(x[0] == 'one' for x in data):
            r.add('+')
        else:
            r.add(None)
    if len(r) == 1:
        return r.pop()
    if r and 0 not in r and None not in r:
        return '+'
    return None


def count_on(t, C, K, dom):
    """The number of elements of t when exactly the variants K occur in C: 0, '+', '=' (as many as
    C) or None."""
    if t is C:
        return '=' if K else 0
    if t[0] == 'S':
        tot = []
        for p in t[2]:
            if p[0] == 'one':
                tot.append('+')
            elif p[0] == 'all':
                tot.append(count_on(p[1], C, K, dom))
            elif src_of(p) is C:
                ps = {_produces(p, k, dom) for k in K}
                if ps <= {0}:
                    tot.append(0)
                elif ps == {1}:
                    tot.append('=')
                elif ps & {1, '+'}:
                    tot.append('+')
                else:
                    tot.append(None)
            else:
                tot.append(None)
        nz = [x for x in tot if x != 0]
        if not nz:
            return 0
        if len(nz) == 1:
            return nz[0]
        return '+' if any(x in ('+', '=') for x in nz) else None
    return None


def strictly_fewer(t, C, K, dom):
    """t has fewer elements than C when exactly K occur"""
    if t[0] != 'S' or len(t[2]) != 1 or src_of(t[2][0]) is not C:
        return False
    ps = {_produces(t[2][0], k, dom) for k in K}
    return ps <= {0, 1} and 0 in ps


def fact_on(f, v, C, K, dom):
    """Does the fact f=v hold when exactly the variants K occur in C: True, False, None (depends on
    something else), 'free' (says nothing about K)."""
    if not mentions(f, C):
        return 'free'
    if f[0] == 'variant':
        t = f[1]
        if t[0] == 'elem' and t[1] is C or app(t, 'nth') and t[2] is C:
            return True if any(admits(v, k) for k in K) else False
        if app(t, 'first') and t[2] is C or app(t, 'last') and t[2] is C:
            some = admits(v, 'Some')
            return some == bool(K)
        if app(t, 'first') or app(t, 'last'):
            n = count_on(t[2], C, K, dom)
            return None if n is None else (admits(v, 'Some') == (n != 0))
        if t[0] in ('elem', 'fld') or app(t, 'nth'):
            return 'free'
        return 'free' if not mentions_whole(t, C) else None
    if f[0] == 'app':
        if f[1] == 'exhausted':
            return 'free'
        if f[1] == 'empty':
            n = count_on(f[2], C, K, dom)
            return None if n is None else ((n == 0) == v)
        if f[1] in ('forall', 'exists'):
            return quant_on(f, C, K)
        if f[1] in ('eq', 'lt', 'le', 'gt', 'ge', 'ne') and len(f) >= 4:
            a, b = f[2], f[3]
            la, lb = app(a, 'len'), app(b, 'len')
            if la and lb:
                if b[2] is not C:
                    a, b = b, a
                if b[2] is C and f[1] in ('eq', 'ne'):
                    n = count_on(a[2], C, K, dom)
                    r = True if n in ('=',) or (not K and n == 0) else (False if strictly_fewer(a[2], C, K, dom) or n == 0 else None)
                    return None if r is None else ((r == (f[1] == 'eq')) == v)
                return None
            if la or lb:
                x, c = (a, b) if la else (b, a)
                if c is mk('int', 0) and f[1] in ('eq', 'ne'):
                    n = count_on(x[2], C, K, dom)
                    return None if n is None else (((n == 0) == (f[1] == 'eq')) == v)
                if x is b and c is mk('int', 0) and f[1] == 'lt':
                    n = count_on(x[2], C, K, dom)
                    return None if n is None else ((n != 0) == v)
                return None
            return 'free'
        return 'free' if f[1] in ('has', 'starts_with', 'ends_with', 'contains', 'eq_ignore_case') else None
    return 'free' if f[0] in ('fld', 'known') else None


def quant_on(f, C, K):
    """forall(src, alternatives): every element of src satisfied one of the alternatives;
    exists(src, alternatives): some element did"""
    if f[2] is not C:
        return 'free' if not mentions_whole(f[2], C) else None
    q = mk('elem', C, -1)
    sure = True
    if f[1] == 'exists':
        for alt in f[3][1]:
            for k in K:
                if all(admits(g[1], k) for g in alt if g[0][0] == 'variant' and g[0][1] is q):
                    return True if all(g[0][0] == 'variant' and g[0][1] is q for g in alt) else None
        return False
    for k in K:
        ok = False
        for alt in f[3][1]:
            maybe = True
            for f2, v2 in ((g[0], g[1]) for g in alt):
                if f2[0] == 'variant' and f2[1] is q:
                    if not admits(v2, k):
                        maybe = False
                        break
            if maybe:
                if all(g[0][0] == 'variant' and g[0][1] is q for g in alt):
                    ok = True
                    break
                ok = ok or None
        if ok is False:
            return False
        if ok is None:
            sure = None
    return True if sure else None


def mentions_whole(t, C):
    """C occurs in t other than as the source of an element"""
    if t is C:
        return True
    if isinstance(t, tuple):
        if t and t[0] == 'elem':
            return t[1] is not C and mentions_whole(t[1], C)
        return any(mentions_whole(y, C) for y in t if isinstance(y, tuple))
    return False


def occurring(facts, C, dom):
    """[(K, definite)]: the sets of variants that may occur in C on this outcome; definite when no
    fact was left unread."""
    out = []
    for m in range(1 << len(dom)):
        K = tuple(d for i, d in enumerate(dom) if m >> i & 1)
        rs = [fact_on(f, v, C, K, dom) for f, v in facts.items()]
        if False in rs:
            continue
        out.append((K, None not in rs))
    return out


LOSSY = ('rev', 'skip', 'take', 'slice', 'sorted', 'dedup', 'step_by', 'init', 'tail', 'drop_last', 'skipchars')
LOSSY_VEC = ('dedup', 'dedup_by', 'dedup_by_key', 'sort', 'sort_by', 'sort_by_key', 'sort_by_cached_key', 'reverse', 'swap', 'rotate_left',
             'rotate_right', 'truncate', 'remove', 'swap_remove', 'drain', 'split_off', 'pop')


def lossy(t):
    """t is the result of an operation that drops, repeats or reorders elements"""
    return t is not None and t[0] == 'app' and (t[1] in LOSSY or t[1].startswith('iter_') and t[1][5:] in LOSSY or (t[1].startswith('vec_') and t[1][4:] in LOSSY_VEC))


def reordering(src, C):
    """src is C reversed, cut or sorted"""
    return lossy(src) and mentions(src, C)


def left_early(r, p, facts):
    """the loop of the piece p can be left before its elements are exhausted, on the outcome with these facts"""
    src = p[1][1] if p[1][0] == 'elem' else None
    return src is not None and any(site == p[4] and x is src for site, x in r.eng.early) and facts.get(mkapp('exhausted', src, p[4])) is not True
