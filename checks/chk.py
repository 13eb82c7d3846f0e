"""bulloak check: what is compared with what, and which violations are reported.  Entry points: the
structural rule, the searches in the Solidity parse tree, the loading of a pair of files."""
from .base import *
from .util import *

CTX = mk('sym', 'ctx')
RKIDS = getf(getf(getf(CTX, None, 'hir'), 'Root', '0'), None, 'children')
HSOME = getf(mk('elem', RKIDS, 0), 'ContractDefinition', '0')


def cxf(n):
    return getf(CTX, None, n)


class M:
    """the analysed rule"""


def rule_run(R):
    m = getattr(R, '_chk', None)
    if m:
        return m
    ks = [k for k in R.p.bodies if k.endswith('rules::Checker>::check') and 'StructuralMatcher' in k]
    if len(ks) != 1:
        raise Undecided('anchor not found: StructuralMatcher::check')
    m = M()
    m.key = ks[0]
    m.fc, m.ff = R.anchor('bulloak_foundry::sol::find_contract'), R.anchor('bulloak_foundry::sol::find_matching_fn')
    m.ol = R.anchor('bulloak_foundry::check::utils::offset_to_line')
    m.san = R.anchor('bulloak_syntax::utils::sanitize')
    e = R.engine(opaque={m.fc: 'pure', m.ff: 'pure', m.ol: 'pure', m.san: 'pure'})
    e.SPLIT = 100
    m.r = R.analyse(m.key, eng=e)
    m.found = mkapp(m.fc, cxf('pt'))
    m.sol = getf(m.found, 'Some', '0')
    m.outs = []
    for o in m.r.rets:
        m.outs.append((o, flat(o.val)))
    if len(m.outs) < 4:
        raise Undecided('fewer than four outcomes of StructuralMatcher::check')
    R._chk = m
    return m


def viol(p):
    """one(Violation{kind, location}) -> (kind variant, kind fields, location)"""
    if p[0] != 'one':
        return None
    v = rec(p[1], 'Violation')
    if v is None or v['kind'][0] != 'adt':
        return None
    return v['kind'][2], dict(v['kind'][3]), v['location']


def kinds_in(p):
    """the kinds of violations a piece can contribute"""
    v = viol(p)
    if v:
        return {v[0]}
    if p[0] == 'each':
        r = set()
        for g, d in p[2]:
            for q in d:
                r |= kinds_in(q)
        return r
    return {'?'}


def sol_some(m, o):
    v = o.facts.get(mk('variant', m.found))
    return None if v is None else admits(v, 'Some')


def hir_some(o):
    v = o.facts.get(mk('variant', mk('elem', RKIDS, 0)))
    if v is not None and admits(v, 'ContractDefinition'):
        return True
    rv = o.facts.get(mk('variant', cxf('hir')))
    if rv is not None and not admits(rv, 'Root'):
        return False
    if any(f[0] == 'app' and f[1] == 'exhausted' and f[2] is RKIDS for f in o.facts):
        return False
    return None


@rule('C20', 'a missing contract is reported exactly when the tree yields a contract and the Solidity file holds none, with the name of the contract')
def contract_missing(R):
    m = rule_run(R)
    for o, ps in m.outs:
        ss, hs = sol_some(m, o), hir_some(o)
        vs = [viol(p) for p in ps if viol(p) and viol(p)[0] == 'ContractMissing']
        if ss is None:
            R.undecided('contract missing', show_facts(o.facts)[:300])
        elif ss:
            R.check(not vs, 'no contract is reported missing when the file holds one', m.key, show_facts(o.facts)[:300])
        elif hs is None:
            R.undecided('contract missing', show_facts(o.facts)[:300])
        elif hs:
            if R.check(len(vs) == 1, 'a missing contract is reported', m.key, show_facts(o.facts)[:300]):
                R.check(vs[0][1]['0'] is getf(HSOME, None, 'identifier'), 'the report names the contract of the tree', m.key, show(vs[0][1]['0'])[:200])
        else:
            R.check(not vs, 'nothing is reported missing when the tree yields no contract', m.key)
            for f, v in o.facts.items():
                if f[0] == 'app' and f[1] == 'forall' and f[2] is RKIDS and v is True:
                    pv = mk('variant', mk('elem', RKIDS, -1))
                    for alt in f[3][1]:
                        of = [x[1] for x in alt if x[0] is pv]
                        if of and all(admits(x, 'ContractDefinition') for x in of):
                            R.bad('a contract of the tree counts, whatever it holds', m.key, show(f)[:400])


def name_fact(m, o):
    """(facts comparing the two names, unknown ones)"""
    want = getf(getf(getf(m.sol, None, 'name'), 'Some', '0'), None, 'name')
    hir = getf(HSOME, None, 'identifier')
    eqs, other = [], []
    for f, v in o.facts.items():
        if not (mentions(f, want) and f[0] == 'app' and f[1] != 'exhausted'):
            continue
        a = [x for x in f[2:] if isinstance(x, T)]
        good = f[1] == 'eq' and len(a) == 2 and any(x is want for x in a) and any(x is mkapp(m.san, hir) for x in a)
        raw = f[1] == 'eq' and len(a) == 2 and any(x is want for x in a) and any(x is hir for x in a)
        (eqs if good else other).append((f, v, raw))
    return eqs, other


@rule('C20', 'a name mismatch is reported exactly when the name of the first contract of the file differs from the sanitised name of the root, with both names')
def contract_name(R):
    m = rule_run(R)
    nm = getf(m.sol, None, 'name')
    seen = 0
    for o, ps in m.outs:
        if not sol_some(m, o) or not hir_some(o):
            continue
        v = o.facts.get(mk('variant', nm))
        vs = [viol(p) for p in ps if viol(p) and viol(p)[0] == 'ContractNameNotMatches']
        if v is not None and not admits(v, 'Some'):
            R.check(not vs, 'a contract without a name is not reported as misnamed', m.key)
            continue
        eqs, other = name_fact(m, o)
        if other and not eqs:
            if all(f[0] == 'app' and f[1] in ('eq', 'eq_ignore_case', 'str_eq_ignore_ascii_case', 'starts_with', 'ends_with', 'contains', 'str_contains', 'str_starts_with', 'str_ends_with', 'lt', 'le') for f, x, raw in other):
                R.bad('the names are compared for equality with the sanitised name', m.key, [show(f)[:150] for f, x, raw in other])
            else:
                R.undecided('comparison of names', [show(f)[:150] for f, x, raw in other])
            continue
        if not eqs:
            if v is None:
                R.undecided('comparison of names', show_facts(o.facts)[:200])
            else:
                R.check(bool(vs), 'two contract names are equal before they are accepted', m.key, show_facts(o.facts)[:300])
            continue
        seen += 1
        if eqs[0][1]:
            R.check(not vs, 'equal names are not reported', m.key)
        elif R.check(len(vs) == 1, 'different names are reported', m.key, show_facts(o.facts)[:400]):
            k = vs[0][1]
            R.check(k['0'] is mkapp(m.san, getf(HSOME, None, 'identifier')) and k['1'] is getf(getf(nm, 'Some', '0'), None, 'name'),
                    'the report carries the expected name and the one found', m.key, [show(x)[:100] for x in k.values()])
    if not seen:
        R.undecided('comparison of names', 'no outcome compares the names')


@rule('C20', 'the contract of a file is the first contract definition among its parts, or none when there is none')
def first_contract(R):
    k = R.anchor('bulloak_foundry::sol::find_contract')
    r = R.analyse(k)
    P = getf(mk('sym', 'pt'), None, '0')
    search(R, k, r, P, 'ContractDefinition', lambda o, v, e: (v is getf(e, 'ContractDefinition', '0'), set()))


def search(R, k, r, src, variant, value):
    """r is the first element of src of that variant meeting further conditions"""
    for o in r.rets:
        some, none = rec(o.val, 'Some'), rec(o.val, 'None')
        if none is not None:
            ex = any(f[0] == 'app' and f[1] == 'exhausted' and f[2] is src for f in o.facts) or o.facts.get(mkapp('empty', src)) is True
            odd = any(f[0] == 'app' and f[1] == 'exhausted' and reordering(f[2], src) for f in o.facts)
            if ex:
                R.ok('nothing is found only after all parts were looked at', k)
            elif odd or any(f[0] == 'variant' and mentions(f, src) for f in o.facts):
                R.bad('nothing is found only after all parts were looked at', k, show_facts(o.facts)[:400])
            else:
                R.undecided('search', show_facts(o.facts)[:300])
            continue
        if some is None:
            R.undecided('search', show(o.val)[:200])
            continue
        els = [f[1] for f in o.facts if f[0] == 'variant' and f[1][0] == 'elem' and mentions(f[1][1], src) or f[0] == 'variant' and app(f[1], 'nth') and mentions(f[1][2], src)]
        el = [e for e in els if admits(o.facts[mk('variant', e)], variant)]
        if len(el) != 1:
            R.undecided('search', show_facts(o.facts)[:300])
            continue
        e = el[0]
        s = e[1] if e[0] == 'elem' else e[2]
        if s is not src:
            if reordering(s, src):
                R.bad('the first matching part is taken', k, show(s)[:200])
            else:
                R.undecided('search', show(s)[:200])
            continue
        good, _ = value(o, some['0'], e)
        if good is None:
            R.undecided('result of the search', show(some['0'])[:200] + show_facts(o.facts)[:300])
        else:
            R.check(good, 'the matching part is returned', k, show(some['0'])[:200] + ' ' + show_facts(o.facts)[:400])


FN = mk('sym', 'fn_hir')


@rule('C19', 'a function of the file matches one of the tree exactly when both have the same name and are both functions or both modifiers; the first such part counts')
def matching_function(R):
    k = R.anchor('bulloak_foundry::sol::find_matching_fn')
    r = R.analyse(k)
    P = getf(mk('sym', 'contract_sol'), None, 'parts')
    types = set()

    def value(o, v, e):
        f = getf(e, 'FunctionDefinition', '0')
        need = {mk('variant', getf(FN, None, 'ty')): None, mk('variant', getf(f, None, 'ty')): None,
                mk('variant', getf(f, None, 'name')): None}
        nm = mkapp('eq', getf(FN, None, 'identifier'), getf(getf(getf(f, None, 'name'), 'Some', '0'), None, 'name'))
        extra, eq = [], None
        for x, val in o.facts.items():
            if x in need:
                need[x] = val
            elif x[0] == 'app' and x[1] == 'eq' and set(x[2:4]) == {getf(FN, None, 'identifier'), getf(getf(getf(f, None, 'name'), 'Some', '0'), None, 'name')}:
                eq = val
            elif x is mk('variant', e) or x is mkapp('empty', P) or (x[0] == 'app' and x[1] in ('exhausted', 'forall', 'exists')):
                pass
            elif mentions(x, f) or mentions(x, FN):
                extra.append(x)
        if eq is not True:
            if any(x[0] == 'app' and x[1] in ('eq_ignore_case', 'starts_with', 'ends_with', 'contains') for x in extra) or not extra:
                return False, ()
            return None, ()
        if extra:
            simple = all(x[0] == 'app' and x[1] in ('empty', 'starts_with', 'ends_with', 'contains', 'eq', 'has', 'lt', 'le') or x[0] in ('variant', 'fld') for x in extra)
            return (False if simple else None), ()
        a, b = need[mk('variant', getf(FN, None, 'ty'))], need[mk('variant', getf(f, None, 'ty'))]
        tys = {t for t in ('Function', 'Modifier') if (a is None or admits(a, t)) and (b is None or admits(b, t))}
        cross = [(t, u) for t in ('Function', 'Modifier') for u in ('Function', 'Modifier', 'Constructor', 'Fallback', 'Receive')
                 if t != u and (a is None or admits(a, t)) and (b is None or admits(b, u))]
        te = [x for x in o.facts if x[0] == 'app' and x[1] == 'eq' and mentions(x, getf(FN, None, 'ty'))]
        if cross and not te:
            return False, ()
        types.update(tys)
        if v[0] != 'tup':
            return None, ()
        ok = v[1][1] is f and v[1][0] is mk('elem', mk('range', mk('int', 0), mkapp('len', P)), 0)
        return (True if ok else (None if v[1][1] is f else False)), ()
    search(R, k, r, P, 'FunctionDefinition', value)
    R.check(types >= {'Function', 'Modifier'}, 'functions and modifiers can both be found', k, types)


ATOMS = ('function', 'found', 'skip', 'modifier')


def read_guard(m, p, g, v):
    """(atom, value) of a guard of the loop over the functions of the tree; None if unread"""
    e = p[1]
    fn = getf(e, 'FunctionDefinition', '0')
    if g is mk('variant', e):
        return 'function', admits(v, 'FunctionDefinition')
    if g is mk('variant', mkapp(m.ff, m.sol, fn)):
        return 'found', admits(v, 'Some')
    if g is getf(cxf('cfg'), None, 'skip_modifiers'):
        return 'skip', v
    if g is mk('variant', getf(fn, None, 'ty')):
        return 'modifier', admits(v, 'Modifier')
    return None


HKIDS = getf(HSOME, None, 'children')


@rule('C19', 'for each function and modifier of the tree in order: one violation carrying it when no part of the file matches it, unless it is a modifier and modifiers are skipped; none otherwise')
def missing_functions(R):
    m = rule_run(R)
    n = 0
    for o, ps in m.outs:
        if not sol_some(m, o) or not hir_some(o):
            continue
        cand = [p for p in ps if p[0] == 'each' and (src_of(p) is HKIDS or reordering(src_of(p), HKIDS)) and kinds_in(p) & {'MatchingFunctionMissing'}]
        if not cand:
            others = [p for p in ps if '?' in kinds_in(p) or p[0] != 'one']
            if any('MatchingFunctionMissing' in kinds_in(p) or '?' in kinds_in(p) for p in others):
                R.undecided('missing functions', show(mk('S', 'vec', tuple(others)))[:300])
            elif any(f[0] == 'app' and mentions(f, HKIDS) or f[0] == 'variant' and mentions(f, HKIDS) for f in o.facts) or not others:
                # nothing reported: fine only if the tree has no functions
                if o.facts.get(mkapp('empty', HKIDS)) is True:
                    continue
                R.bad('missing functions are reported on every outcome', m.key, show_facts(o.facts)[:500])
            continue
        if len(cand) > 1:
            R.undecided('missing functions', 'several passes')
            continue
        p = cand[0]
        n += 1
        if src_of(p) is not HKIDS:
            R.bad('every function of the tree is looked for, in order', m.key, show(src_of(p))[:200])
            continue
        if left_early(m.r, p, o.facts):
            R.bad('every function of the tree is looked for, in order', m.key, 'the loop over them can be left early')
            continue
        alts = []
        for g, d in p[2]:
            a, odd = {}, []
            for x in g:
                rg = read_guard(m, p, x[0], x[1])
                if rg is None:
                    odd.append(x[0])
                else:
                    a[rg[0]] = rg[1]
            alts.append((a, odd, d))
        if not any('found' in a for a, odd, d in alts):
            R.undecided('missing functions', 'the search is not recognised')
            continue
        for i in range(16):
            w = {x: bool(i >> j & 1) for j, x in enumerate(ATOMS)}
            if not w['function'] and (w['found'] or w['modifier']):
                continue
            want = w['function'] and not w['found'] and not (w['skip'] and w['modifier'])
            fit = [(odd, d) for a, odd, d in alts if all(w[x] == v for x, v in a.items())]
            wrong = [(odd, d) for odd, d in fit if (bool(d)) != want]
            what = ('a function of the tree without a match is reported' if want else
                    'a match, a skipped modifier and any other node are not reported')
            if not fit:
                R.undecided('missing functions', f'no case for {w}')
            elif not wrong:
                R.ok(what, m.key)
            elif all(simple(x) for odd, d in wrong for x in odd):
                R.bad(what, m.key, f'{w}: ' + '; '.join(show(x)[:150] for odd, d in wrong for x in odd))
            else:
                R.undecided('missing functions', '; '.join(show(x)[:150] for odd, d in wrong for x in odd))
        fn = getf(p[1], 'FunctionDefinition', '0')
        for a, odd, d in alts:
            if not d:
                continue
            v = viol(d[0]) if len(d) == 1 else None
            if v is None:
                R.undecided('a missing function', show(mk('S', 'vec', d))[:300])
                continue
            R.check(v[0] == 'MatchingFunctionMissing' and v[1]['0'] is fn, 'the report carries the function of the tree', m.key, show(v[1].get('0', v[1]))[:200])
            ix = v[1].get('1')
            good = ix is not None and ix[0] == 'elem' and ix[1] is mk('range', mk('int', 0), mkapp('len', HKIDS))
            if good:
                R.ok('the report carries the position of the function in the tree', m.key)
            elif ix is not None and (ix[0] in ('int',) or app(ix, 'plus')):
                R.bad('the report carries the position of the function in the tree', m.key, show(ix)[:200])
            else:
                R.undecided('position of a missing function', show(ix)[:200])
    if not n:
        R.undecided('missing functions', 'no pass over the functions of the tree seen')


def simple(x):
    """a condition that can hold or fail whatever the recognised ones say"""
    return x[0] == 'fld' or x[0] == 'app' and x[1] in ('empty', 'starts_with', 'ends_with', 'contains', 'str_contains', 'eq', 'lt', 'le', 'eq_ignore_case')


# ------------------------------------------------------------------ order

def lenplus(t, s):
    """k such that t = len(s) + k"""
    if t is mkapp('len', s):
        return 0
    if app(t, 'plus') and t[2] is mkapp('len', s) and t[3][0] == 'int':
        return t[3][1]
    if app(t, 'satsub') and t[2] is mkapp('len', s) and t[3][0] == 'int':
        return -t[3][1]
    if app(t, 'min') and any(lenplus(x, s) is not None for x in t[2:4]) and any(isinstance(x, T) and (x[0] == 'int' or app(x, 'plus') and x[2][0] == 'elem' and x[3][0] == 'int') for x in t[2:4]):
        return -99      # cut short
    return None


def iplus(t, i):
    if t is i:
        return 0
    if app(t, 'plus') and t[2] is i and t[3][0] == 'int':
        return t[3][1]
    return None


def ibase(t):
    return t[2] if app(t, 'plus') and t[3][0] == 'int' else t


def range_of(p):
    s = src_of(p)
    return (s[1], s[2]) if s is not None and s[0] == 'range' else None


def positions(s):
    """s collects one pair for functions of the tree, in order"""
    ps = s[2] if s[0] == 'S' else ()
    return len(ps) == 1 and ps[0][0] == 'each' and src_of(ps[0]) is HKIDS and any(d for g, d in ps[0][2]) and all(z[0] == 'one' and z[1][0] == 'tup' for g, d in ps[0][2] for z in d)


@rule('C21', 'an order violation is reported for exactly the functions present in the file that come after a function which follows them in the tree; every pair of present functions is compared')
def order(R):
    m = rule_run(R)
    n = 0
    for o, ps in m.outs:
        if not sol_some(m, o) or not hir_some(o):
            continue
        cand = [p for p in ps if p[0] == 'each' and 'FunctionOrderMismatch' in kinds_in(p)]
        if not cand:
            # no order violations: only when nothing is present
            em = [f for f, v in o.facts.items() if f[0] == 'app' and f[1] == 'empty' and f[2][0] == 'S' and v is True]
            lt = [f for f, v in o.facts.items() if f[0] == 'app' and f[1] in ('lt', 'le') and find_terms(f, lambda x: app(x, 'len'))]
            pos = [f for f, v in o.facts.items() if f[0] == 'app' and f[1] == 'empty' and v is False and positions(f[2])]
            if pos and not any(mentions(f, q[2]) for q in pos for f, v in o.facts.items() if f not in pos):
                R.bad('the order is compared whenever functions are present', m.key, show_facts({f: v for f, v in o.facts.items() if f[0] == 'app' and f[1] == 'empty'})[-300:])
            elif em:
                R.ok('no order is compared only when no function is present', m.key)
            elif lt and any(c[1] > 2 for f in lt for c in f[2:4] if isinstance(c, T) and c[0] == 'int'):
                R.bad('the order is compared for any number of present functions', m.key, [show(f)[-60:] for f in lt])
            else:
                R.undecided('order', show_facts(o.facts)[-300:])
            continue
        if len(cand) != 1:
            R.undecided('order', 'several passes')
            continue
        p = cand[0]
        S = src_of(p)
        if S is None or S[0] != 'S' or len(S[2]) != 1 or S[2][0][0] != 'each':
            R.undecided('order', 'the collection of misplaced functions is not recognised: ' + show(p[1])[:200])
            continue
        n += 1
        order_set(R, m, S[2][0])
        # one violation per collected pair
        e = p[1]
        hi, si = getf(e, None, '0'), getf(e, None, '1')
        ok = [mk('variant', mkapp('nth', HKIDS, hi)), mk('variant', mkapp('nth', getf(m.sol, None, 'parts'), si))]
        fn = getf(mkapp('nth', getf(m.sol, None, 'parts'), si), 'FunctionDefinition', '0')
        for g, d in p[2]:
            gs = {x[0]: x[1] for x in g}
            rest = [x for x in gs if x not in ok]
            isfn = all(admits(gs[x], 'FunctionDefinition') for x in ok if x in gs)
            if not d:
                if isfn and (not rest or all(simple(x) for x in rest)):
                    R.bad('every misplaced function is reported', m.key, [show(x)[:150] for x in rest])
                elif isfn:
                    R.undecided('order', [show(x)[:150] for x in rest])
                continue
            v = viol(d[0]) if len(d) == 1 else None
            if v is None or v[0] != 'FunctionOrderMismatch':
                R.undecided('order', show(mk('S', 'vec', d))[:200])
                continue
            R.check(v[1]['0'] is fn and v[1]['1'] is si and v[1]['2'] is hi, 'the report carries the misplaced function and its two positions', m.key,
                    [show(x)[-120:] for x in v[1].values()])
    if not n:
        R.undecided('order', 'no pass over misplaced functions seen')


def order_set(R, m, p):
    r = range_of(p)
    if r is None:
        R.undecided('order', 'outer loop: ' + show(p[1])[:200])
        return
    i = p[1]
    for g, d in p[2]:
        if g and not all(simple(x[0]) for x in g):
            R.undecided('order', gshow({x[0]: x[1] for x in g}))
            continue
        if not d:
            R.bad('every present function is compared with the ones after it', m.key, gshow({x[0]: x[1] for x in g}))
            continue
        if len(d) != 1 or d[0][0] != 'each' or range_of(d[0]) is None:
            R.undecided('order', 'inner loop: ' + show(mk('S', 'vec', d))[:200])
            continue
        q = d[0]
        j = q[1]
        lo, hi = range_of(q)
        # the vector both loops index
        V = find_terms(tuple(x[0] for g2, d2 in q[2] for x in g2), lambda t: app(t, 'nth') and t[3] in (i, j))
        vs = {t[2] for t in V}
        if len(vs) != 1:
            R.undecided('order', 'the compared positions are not recognised')
            continue
        PV = vs.pop()
        present(R, m, PV)
        a, b, c = lenplus(r[1], PV), iplus(lo, i), lenplus(hi, PV)
        if r[0][0] != 'int' or a is None or b is None or c is None:
            R.undecided('order', f'bounds {show(r[0])[:60]} {show(r[1])[-60:]} {show(lo)[-60:]} {show(hi)[-60:]}')
            continue
        R.check(r[0][1] == 0 and a >= -1 and b in (0, 1) and c == 0, 'every pair of present functions is compared', m.key, f'{r[0][1]}..len{a:+d}, i{b:+d}..len{c:+d}')
        A = lambda x: getf(mkapp('nth', PV, x), None, '1')
        for g2, d2 in q[2]:
            gs = {x[0]: x[1] for x in g2}
            inv = None
            rest = []
            for f, v in gs.items():
                if f[0] == 'app' and f[1] in ('lt', 'le', 'gt', 'ge') and {f[2], f[3]} == {A(i), A(j)}:
                    less = f[1] in ('lt', 'le')
                    x, y = (f[2], f[3]) if less else (f[3], f[2])
                    # x < y holds iff v
                    inv = (x is A(j)) == v
                elif f[0] == 'app' and f[1] in ('lt', 'le') and {ibase(f[2]), ibase(f[3])} == {A(i), A(j)}:
                    # x + a < y + b  iff  x < y + (b - a)
                    shift = iplus(f[3], ibase(f[3])) - iplus(f[2], ibase(f[2])) + (f[1] == 'le')
                    x = ibase(f[2])
                    R.check(shift in (0, 1), 'any two positions out of order are an inversion', m.key, f'{shift:+d}: ' + show(f)[-200:])
                    if shift in (0, 1):
                        inv = (x is A(j)) == v
                    else:
                        inv = None
                        rest.append(None)
                elif f[0] == 'app' and f[1] == 'has':
                    pass
                else:
                    rest.append(f)
            has = any(f[0] == 'app' and f[1] == 'has' and v is True for f, v in gs.items())
            if inv is None and None in rest:
                continue
            if inv is None:
                R.undecided('order', 'comparison: ' + gshow(gs))
            elif inv:
                if d2 or has:
                    R.ok('an inversion is collected', m.key)
                    for z in d2:
                        t = z[1]
                        good = z[0] == 'one' and t[0] == 'tup' and t[1][0] is getf(mkapp('nth', PV, i), None, '0') and t[1][1] is A(i)
                        if good or z[0] == 'one' and t[0] == 'tup':
                            R.check(good, 'the function that comes too late is the one collected', m.key, show(t)[-200:])
                        else:
                            R.undecided('order', show(t)[:100])
                elif not rest or all(simple(f) for f in rest):
                    R.bad('an inversion is collected', m.key, gshow({f: gs[f] for f in rest}))
                else:
                    R.undecided('order', gshow({f: gs[f] for f in rest}))
            else:
                R.check(not d2, 'functions in order are not collected', m.key)


def present(R, m, PV):
    """PV: (position in the tree, position in the file) of every matched function"""
    ps = flat(PV)
    if len(ps) != 1 or ps[0][0] != 'each' or src_of(ps[0]) is not HKIDS:
        R.undecided('present functions', show(PV)[:200])
        return
    p = ps[0]
    fn = getf(p[1], 'FunctionDefinition', '0')
    hit = mkapp(m.ff, m.sol, fn)
    for g, d in p[2]:
        w = {}
        odd = []
        for x in g:
            rg = read_guard(m, p, x[0], x[1])
            if rg is None:
                odd.append(x[0])
            else:
                w[rg[0]] = rg[1]
        is_hit = w.get('function', True) and w.get('found', True)
        if is_hit and not d:
            if all(simple(x) for x in odd):
                R.bad('every function found in the file takes part in the comparison of the order', m.key, gshow({x[0]: x[1] for x in g})[-300:])
            else:
                R.undecided('present functions', [show(x)[:100] for x in odd])
        elif d and not (w.get('function') and w.get('found')):
            R.undecided('present functions', gshow({x[0]: x[1] for x in g})[-200:])
        for z in d:
            t = z[1]
            if z[0] != 'one' or t[0] != 'tup':
                R.undecided('present functions', show(t)[:200])
                continue
            R.check(t[1][1] is getf(getf(hit, 'Some', '0'), None, '0') and t[1][0][0] == 'elem' and t[1][0][1] is mk('range', mk('int', 0), mkapp('len', HKIDS)),
                    'positions compared are those in the tree and in the file', m.key, [show(x)[-100:] for x in t[1]])


# ------------------------------------------------------------------ locations

def lossless_path(t, p):
    """t is the text of path p"""
    return t is p


@rule('C22', 'each violation points at the file it concerns and at the line of the construct: the tree for missing functions and contracts, the Solidity file for names and order')
def locations(R):
    m = rule_run(R)
    seen = set()
    for o, ps in m.outs:
        for p in ps:
            for v, e, g in each_viol(p):
                seen.add(v[0])
                loc = v[2]
                if loc[0] != 'adt':
                    R.undecided('location', show(loc)[:200])
                    continue
                f = dict(loc[3])
                if v[0] == 'ContractMissing':
                    R.check(f['0'] is cxf('tree'), 'a missing contract is located at the tree', m.key, show(loc)[:200])
                elif v[0] == 'MatchingFunctionMissing':
                    fn = v[1]['0']
                    want = getf(getf(getf(fn, None, 'span'), None, 'start'), None, 'line')
                    R.check(loc[2] == 'Code' and f['0'] is cxf('tree') and f['1'] is want, 'a missing function is located at its line of the tree', m.key, show(loc)[-300:])
                elif v[0] in ('ContractNameNotMatches', 'FunctionOrderMismatch'):
                    node = m.sol if v[0] == 'ContractNameNotMatches' else v[1]['0']
                    if loc[2] != 'Code' or f['0'] is not cxf('sol'):
                        R.bad('a wrong name or order is located at a line of the Solidity file', m.key, show(loc)[:200])
                        continue
                    ln = f['1']
                    if not (ln[0] == 'app' and ln[1] == m.ol):
                        R.undecided('line of a violation', show(ln)[:200])
                        continue
                    st = ln[3]
                    if st[0] == 'app' and st[1].endswith('::end'):
                        R.bad('the line is that of the construct in the source', m.key, show(ln)[-300:])
                        continue
                    if not (st[0] == 'app' and st[1].endswith('::start')):
                        R.undecided('line of a violation', show(st)[:200])
                        continue
                    locs = st[2]
                    okl = locs is getf(node, None, 'loc') or (v[0] == 'ContractNameNotMatches' and locs is getf(getf(getf(node, None, 'name'), 'Some', '0'), None, 'loc')) \
                        or locs is getf(node, None, 'name_loc')
                    R.check(ln[2] is cxf('src') and okl, 'the line is that of the construct in the source', m.key, show(ln)[-300:])
    if len(seen) < 4:
        R.undecided('locations', f'only {sorted(seen)} seen')


def each_viol(p, g=()):
    v = viol(p)
    if v:
        yield v, None, g
    elif p[0] == 'each':
        for gg, d in p[2]:
            for q in d:
                yield from each_viol(q, g + tuple(gg))


@rule('C22', 'the line of a byte offset is one more than the number of line breaks before it')
def line_of_offset(R):
    k = R.anchor('bulloak_foundry::check::utils::offset_to_line')
    e = R.engine()
    e.record_loops = True
    r = R.analyse(k, eng=e)
    C, S = mk('sym', 'content'), mk('sym', 'start')
    if not r.rets:
        R.undecided('line of an offset', 'no outcome')
    for o in r.rets:
        t = o.val
        plus = 0
        if app(t, 'plus') and t[3][0] == 'int':
            t, plus = t[2], t[3][1]
        if t[0] != 'iv':
            R.undecided('line of an offset', show(o.val)[:200])
            continue
        R.check(t[1] == 1, 'lines are counted from one', k, show(o.val)[:100])
        nl = [v for f, v in o.facts.items() if f[0] == 'app' and f[1] == 'eq' and mk('char', 10) in f[2:4] or f[0] == 'app' and f[1] == 'eq' and mk('str', '\n') in f[2:4]]
        if nl:
            R.check(plus == (1 if nl[0] else 0), 'the count grows by one at line breaks and only there', k, f'{plus} {show_facts(o.facts)[:300]}')
        else:
            R.undecided('line of an offset', show_facts(o.facts)[:300])
        # stops at the first character beyond the offset: by byte position
        stop = [f for f, v in o.facts.items() if f[0] == 'app' and f[1] in ('lt', 'le') and mentions(f, S) and f[3] is not mkapp('len', C) and v is True]
        if not stop:
            R.undecided('line of an offset', show_facts(o.facts)[:300])
            continue
        for f in stop:
            pos = [x for x in f[2:4] if x is not S]
            if len(pos) == 1 and app(pos[0], 'byteidx'):
                R.ok('offsets are compared with byte positions', k)
            elif len(pos) == 1 and pos[0][0] == 'elem' and pos[0][1][0] == 'range':
                R.bad('offsets are compared with byte positions', k, show(f)[:200])
            else:
                R.undecided('line of an offset', show(f)[:200])


# ------------------------------------------------------------------ loading a pair

TREE, CFGP = mk('sym', 'tree'), mk('sym', 'cfg')


def load_run(R):
    if not getattr(R, '_ctx', None):
        k = R.anchor('bulloak_foundry::check::context::Context::new')
        t = R.anchor('bulloak_foundry::hir::translate')
        R._ctx = (k, R.analyse(k, opaque={t: 'pure'}), t)
    return R._ctx


def sol_path():
    return mkapp('with_ext', TREE, mk('str', 't.sol'))


def happened(o, k):
    """'Ok' / 'Err' of the events of that kind, by first argument"""
    return {e[1]: e[2][1] for e, g, p in walk(o.log) if e[0] == k}


@rule('C23', 'a pair that loads is compared as it is: the structure generated from the contents of the tree file, the contents and parse tree of its `.t.sol` sibling, the configuration given')
def loaded_pair(R):
    k, r, tr = load_run(R)
    n = 0
    for o in r.rets:
        ok = rec(o.val, 'Ok')
        if ok is None:
            continue
        c = rec(ok['0'], 'Context')
        if c is None:
            R.undecided('loaded pair', show(o.val)[:200])
            continue
        n += 1
        h = c['hir']
        good = h[0] == 'fld' and h[1][0] == 'app' and h[1][1] == tr and h[1][2] is mkapp('content', TREE)
        R.check(good, 'the structure is generated from the contents of the tree file', k, show(h)[:300])
        src = mkapp('content', sol_path())
        R.check(c['sol'] is sol_path() and c['tree'] is TREE, 'the paths are those of the tree and its sibling', k, show(c['sol'])[:200])
        R.check(c['src'] is src, 'the source is the contents of the sibling', k, show(c['src'])[:200])
        pt = c['pt']
        if pt[0] == 'fld' and find_terms(pt, lambda x: app(x, 'forge_parse')):
            R.check(find_terms(pt, lambda x: app(x, 'forge_parse'))[0][2] is src, 'the parse tree is that of the source', k, show(pt)[:200])
        else:
            R.undecided('parse tree', show(pt)[:200])
        R.check(c['cfg'] is CFGP, 'the configuration is the one given', k, show(c['cfg'])[:200])
    if not n:
        R.undecided('loaded pair', 'no successful outcome')


@rule('C23', 'a pair that does not load yields one violation of the kind of its first failure: unreadable tree, untranslatable tree with its error, missing or unreadable Solidity file, unparsable Solidity file, located at the file that failed')
def load_failures(R):
    k, r, tr = load_run(R)
    seen = set()
    for o in r.rets:
        er = rec(o.val, 'Err')
        if er is None:
            continue
        v = viol(one(er['0']))
        rd = happened(o, 'fsr')
        t_ok = rd.get(TREE)
        s_ok = rd.get(sol_path())
        hv = [admits(x, 'Ok') for f, x in o.facts.items() if f[0] == 'variant' and f[1][0] == 'app' and f[1][1] == tr]
        pv = [admits(x, 'Ok') for f, x in o.facts.items() if f[0] == 'variant' and app(f[1], 'forge_parse')]
        ex = [x for f, x in o.facts.items() if f[0] == 'app' and f[1] == 'exists']
        ex += [x for f, x in o.facts.items() if f[0] == 'app' and f[1] == 'is_file' and x is True]
        if not ex and s_ok is None and v[0] == 'SolidityFileMissing' and any(f[0] == 'app' and f[1] == 'is_file' and x is False for f, x in o.facts.items()):
            R.bad('a load failure is reported with its kind', k, 'a path that exists and is no file is reported missing')
            continue
        if v is None:
            R.undecided('load failure', show(o.val)[:200])
            continue
        loc = dict(v[2][3]).get('0') if v[2][0] == 'adt' else None
        if t_ok == 'Err':
            want = ('FileUnreadable', TREE)
        elif hv == [False]:
            want = ('ParsingFailed', TREE)
        elif s_ok == 'Err':
            want = ('FileUnreadable', sol_path()) if ex == [True] else (('FileUnreadable', 'SolidityFileMissing'), None)
        elif pv == [False]:
            want = ('ParsingFailed', sol_path())
        elif ex == [False] and s_ok is None:
            want = ('SolidityFileMissing', TREE)
        else:
            R.undecided('load failure', show_facts(o.facts)[:300])
            continue
        seen.add((want[0], want[1]))
        ks = want[0] if isinstance(want[0], tuple) else (want[0],)
        R.check(v[0] in ks, 'a load failure is reported with its kind', k, f'{v[0]} for {ks}: {show_facts(o.facts)[:200]}')
        if want[1] is not None:
            R.check(loc is want[1], 'a load failure is located at the file that failed', k, f'{ks}: {show(v[2])[:200]}')
        if want == ('ParsingFailed', TREE):
            x = v[1].get('0')
            R.check(x is not None and bool(find_terms(x, lambda y: y[0] == 'fld' and y[1][0] == 'app' and y[1][1] == tr)), 'the error of the tree is kept', k, show(x)[:200])
    for w in (('FileUnreadable', TREE), ('ParsingFailed', TREE), ('ParsingFailed', sol_path())):
        if w not in seen:
            R.undecided('load failure', f'no outcome for {w[0]}')
