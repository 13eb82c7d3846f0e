"""What a tree has to satisfy beyond its shape: the semantic errors, all of them, once and in a fixed order."""
import itertools
from .base import *
from .util import *
from .ev import *
from .fixr import stand

AN = 'bulloak_syntax::semantics::SemanticAnalyzer'
VIS = 'as bulloak_syntax::visitor::Visitor>::'
SELF = mk('sym', 'self')
OKV = mk('adt', 'std::result::Result', 'Ok', (('0', mk('tup', ())),))


def vkey(R, name):
    ks = [k for k in R.p.bodies if k.startswith('<' + AN) and k.endswith(VIS + name)]
    if len(ks) != 1:
        raise Undecided(f'anchor not found: SemanticAnalyzer::{name}')
    return ks[0]


def akey(R, name):
    ks = [k for k in R.p.bodies if k.startswith(AN) and k.endswith('>::' + name)]
    if len(ks) != 1:
        raise Undecided(f'anchor not found: SemanticAnalyzer::{name}')
    return ks[0]


def visiting(name):
    def h(eng, st, nm, args, ctx, site, rty):
        st = st.copy()
        eng.event(st, name, *[eng.freeze(st, x) for x in args[1:]])
        return [(st, OKV)]
    return h


def fields(R):
    """the fields of the analyzer: errors found, text, identifiers met"""
    a = R.p.adts.get(AN)
    if not a:
        raise Undecided('anchor not found: ' + AN)
    v = a['variants'][0]
    f = {}
    for n, t in zip(v['f'], v['t']):
        if 'Map<' in t and 'Span' in t:
            f['ids'], f['map'] = n, t
        elif 'Vec<' in t and 'semantics::Error' in t:
            f['errs'] = n
        elif t.endswith('str') or t.endswith('String'):
            f['text'] = n
    if len(f) != 4:
        raise Undecided('fields of the analyzer')
    return f


def name_calls(R):
    c = {}
    for k in R.p.bodies:
        for n in ('sanitize', 'to_pascal_case', 'lower_first_letter'):
            if k.endswith('bulloak_syntax::utils::' + n):
                c[k] = lambda ev, x, n=n: (n, ev.val(x))
    return c


def pos(o, l, c):
    return {'!': 'Position', 'offset': o, 'line': l, 'column': c}


def span(i, n=4):
    return {'!': 'Span', 'start': pos(10 * i, i + 1, 3), 'end': pos(10 * i + n, i + 1, 3 + n)}


def strip(x):
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if k != '!' or v not in ('Position', 'Span', 'Error', 'Errors')}
    if isinstance(x, (list, tuple)):
        return [strip(v) for v in x]
    return x


TEXT_ = 'the text'



def err(kind, sp, arg=None):
    k = V_(kind)
    if arg is not None:
        k['0'] = arg
    return {'kind': k, 'text': TEXT_, 'span': sp}


NODES = {'Root': 'Root', 'Condition': 'Condition', 'Action': 'Action', 'ActionDescription': 'Description'}


def node(kind, title, i, kids=()):
    n = {'span': span(i), 'children': list(kids), ('contract_name' if kind == 'Root' else 'text' if kind == 'ActionDescription' else 'title'): title, '!': NODES[kind]}
    return V_(kind, **{'0': n})


def ident(key):
    """the title an identifier is made of, when two identifiers are equal exactly if those emitted are"""
    fs = []
    while isinstance(key, tuple) and len(key) == 2:
        fs.append(key[0])
        key = key[1]
    return key, fs


def visit(R, which):
    """one node of the tree: its own errors and identifiers, and its children"""
    fl = fields(R)
    k = vkey(R, 'visit_' + which)
    calls = name_calls(R)
    ops = {vkey(R, 'visit_' + x): visiting('visit_' + x) for x in ('condition', 'action', 'description')}
    ops.update({f: 'pure' for f in calls})
    e = R.engine(opaque=ops, map_events='puts')
    r = R.analyse(k, eng=e)
    arg = mk('sym', which)
    if not any(find_terms(o.val, lambda y: y is arg) or any(mentions(f, arg) for f in o.facts) for o in r.rets):
        raise Undecided('the node visited')
    for o in r.all:
        if o.kind != 'ret':
            R.undecided('analysis', f'{o.kind} {o.where}')
    C = lambda i: node('Condition', f'when c{i}', i)
    A = lambda i: node('Action', f'It a{i}', i)
    CK = lambda i: node('Condition', 'given ' + 'long ' * 30, i, [C(i + 20), A(i + 21), C(i + 22)])
    AK = lambda i: node('Action', 'it ' + 'long ' * 30, i, [D(i + 20), D(i + 21)])
    A0 = lambda i: node('Action', 'It', i)
    D = lambda i: node('ActionDescription', f'd{i}', i)
    T = lambda i: node('Root', f'Foo{i}', i)
    mks = {'C': C, 'A': A, 'D': D, 'T': T, 'K': CK, 'B': AK, 'I': A0}
    kids = [''] + list(mks) + [''.join(x) for x in itertools.product('CADTKBI', repeat=2)] + ['CCC', 'AAA', 'ACA', 'CACDCA', 'AAAAAAAACC', 'CCCCCCCCCA', 'TDAC', 'KBIBKC']
    N = set()
    for o in r.rets:
        for t in list(o.facts) + [o.st.store.get(('arg', 'self'), SELF), o.st.store.get('LOG', SELF)]:
            N |= {c[1] for c in find_terms(t, lambda y: y[0] == 'int') if 1 < c[1] < 200}
    for n in sorted(N)[:4]:
        kids += ['C' * n, 'A' * n, 'C' * (n + 1), 'A' * (n + 1)]
    titles = ['when o', 'given ' + 'words ' * 40, '', 'when é']
    for n in sorted(N)[:4]:
        titles += ['when ' + 'x' * (n - 5), 'when ' + 'x' * (n - 4), 'when ' + 'x' * (n - 6)]
    olds = [0] + [1, 3, 9] + [n + d for n in sorted(N)[:4] for d in (-1, 0, 1)]
    for ks, title, has in [(x, titles[0], h) for x in kids for h in (0, 3)] + [(x, y, h) for x in ('', 'A', 'C') for y in titles for h in olds]:
        if True:
            OLD = [span(50 + i) for i in range(has)]
            ch = [mks[c](i + 3) for i, c in enumerate(ks)]
            own = node('Root' if which == 'root' else 'Condition', title, 2, ch)['0']
            env = {arg: own, getf(SELF, None, fl['errs']): ['before'], getf(SELF, None, fl['text']): TEXT_, getf(SELF, None, fl['ids']): ['ids']}
            cs = dict(calls)
            cs['has'] = lambda ev, *a: has > 0
            cs['mapget'] = lambda ev, *a: list(OLD)
            # what has to happen, in order
            want, errs = [], ['before']
            if which == 'root' and not ch:
                errs.append(err('TreeEmpty', {'start': own['span']['end'], 'end': own['span']['end']}))
            if which == 'condition':
                if not ch:
                    errs.append(err('ConditionEmpty', own['span']))
                want.append(('ident', title, own['span']))
            for c in ch:
                if c['!'] == 'Condition':
                    want.append(('visit', 'visit_condition', c['0']))
                elif c['!'] == 'Action':
                    if which == 'root':
                        want.append(('ident', c['0']['title'], c['0']['span']))
                else:
                    errs.append(err('NodeUnexpected', c['0']['span']))
            d = f'children {ks!r}, title {title!r}' + (f', identifiers met {has} times before' if has else '')
            met = 0
            for o in r.rets:
                ev = Ev(env, cs)
                ok, odd = ev.holds(o.facts)
                if ok is False:
                    continue
                if ok is None:
                    R.undecided('analysis', [show(f)[:150] for f in odd[:3]])
                    return
                if any(p[0] == 'each' and left_early(r, p, o.facts) for p in o.log):
                    R.bad('every child is looked at', k, 'the loop is left early')
                    return
                met += 1
                if rec(o.val, 'Ok') is None:
                    R.undecided('analysis', show(o.val)[:200])
                    return
                me = o.st.store.get(('arg', 'self'))
                me = r.eng.freeze(o.st, me) if me is not None else SELF
                try:
                    got_e = ev.val(getf(me, None, fl['errs']))
                    evs = ev.val(seq('vec', o.log))
                except Unk as x:
                    R.undecided('analysis', show(x.args[0])[:300] if x.args and isinstance(x.args[0], tuple) else str(x)[:200])
                    return
                got = []
                for x in evs:
                    if x[0] == 'mapput':
                        if not isinstance(x[2], list):
                            R.undecided('identifiers', str(x)[:200])
                            return
                        sp = x[2][len(OLD):] if has and x[2][:len(OLD)] == OLD else x[2]
                        if any(y in OLD for y in sp) or has and x[2] and x[2] is sp:
                            R.bad('an identifier that was met keeps its places, one that is new has no other', k, f'{d}: {x[1:]}')
                            return
                        t, fs = ident(x[1])
                        if got and sp and got[-1] == ('ident', t, sp[0]):
                            got.pop()            # the same entry, written in two steps
                        if len(sp) > 1:
                            R.bad('an identifier is recorded once for each place', k, f'{d}: {x[1:]}')
                            return
                        if sp:
                            got.append(('ident', t, sp[0]))
                        want_fs = {'to_pascal_case'} | ({'sanitize'} if which == 'root' else set())
                        if not isinstance(t, str) or not want_fs <= set(fs) or fs not in (['lower_first_letter', 'to_pascal_case', 'sanitize'], ['to_pascal_case', 'sanitize'], ['lower_first_letter', 'to_pascal_case'], ['to_pascal_case']):
                            R.bad('titles are compared as the identifiers they become', k, f'{d}: {x[1]}')
                            return
                    elif x[0] == 'visit_condition':
                        got.append(('visit', x[0], x[1]))
                    elif x[0] in ('visit_action', 'visit_description') or x[0] == 'call' and x[1] in calls:
                        pass
                    else:
                        R.undecided('analysis', str(x)[:200])
                        return
                if which == 'root':
                    R.check(got == want or not any(c['!'] == 'Action' for c in ch) or [x for x in got if x[0] == 'ident'] == [x for x in want if x[0] == 'ident'], 'the identifier of every action at the top is recorded, with its place', k, f'{d}: {got}')
                else:
                    R.check(got[:1] == want[:1], 'the identifier of every condition is recorded, with its place', k, f'{d}: {got[:2]}')
                R.check([x for x in got if x[0] == 'visit'] == [x for x in want if x[0] == 'visit'], 'every nested condition is looked at', k, f'{d}: {[x[2].get("title") for x in got if x[0] == "visit"]}')
                R.check(got == want or sorted(map(str, got)) != sorted(map(str, want)), 'identifiers are recorded in the order of the tree', k, f'{d}: {got}')
                R.check(strip(got_e) == strip(errs), 'a tree or condition without children and a misplaced node are errors, and nothing else is', k, f'{d}: {got_e}')
            if not met:
                R.undecided('analysis', f'no outcome for {d}')
                return
    del r


@rule('C30', 'a tree without branches and a misplaced node are errors; the identifiers of all top-level actions are recorded')
def root_(R):
    visit(R, 'root')


@rule('C30', 'a condition without children is an error; the identifier of every condition is recorded; nested conditions are looked at')
def condition_(R):
    visit(R, 'condition')


@rule('C30', 'visiting an action or a description finds no errors')
def leaf(R):
    fl = fields(R)
    for w in ('action', 'description'):
        k = vkey(R, 'visit_' + w)
        r = R.analyse(k, map_events='puts')
        for o in r.all:
            if o.kind != 'ret':
                R.undecided('analysis', f'{o.kind} {o.where}')
                continue
            me = o.st.store.get(('arg', 'self'))
            me = r.eng.freeze(o.st, me) if me is not None else SELF
            same_ = me is SELF or all(getf(me, None, fl[f]) is getf(SELF, None, fl[f]) for f in ('errs', 'ids'))
            if same_ and rec(o.val, 'Ok') is not None:
                R.ok('an action or description is no error', k)
            elif lossless(getf(me, None, fl['errs'])):
                R.bad('an action or description is no error', k, show(me)[:300])
            else:
                R.undecided('analysis', show(me)[:200])


def lossless(t):
    return t[0] == 'S' and any(p[0] == 'one' for p in t[2])


@rule('C30', 'the tree is rejected exactly when an error was found; one error for each identifier with several places, at the first, in a fixed order')
def analysis(R):
    fl = fields(R)
    k = akey(R, 'analyze')
    ops = {vkey(R, 'visit_' + x): visiting('visit_' + x) for x in ('root', 'condition', 'action', 'description')}
    r = R.analyse(k, opaque=ops, map_events='puts', folds=True)
    ids = getf(SELF, None, fl['ids'])
    ast = mk('sym', 'ast')
    S = lambda *n: [span(i) for i in n]
    sets = [[], [S(1)], [S(1), S(2)], [S(1, 4)], [S(2), S(1, 4)], [S(5), S(3, 6)], [S(5, 7), S(3, 6)], [S(1, 2, 3), S(4), S(5, 6, 7, 8)], [S(2, 9, 10), S(1, 3), S(5, 6)], [S(*range(1, 30))], [S(1, 40), S(2), S(4, 5), S(3, 6)]]
    N = set()
    for o in r.rets:
        for t in list(o.facts) + [o.st.store.get(('arg', 'self'), SELF)]:
            N |= {c[1] for c in find_terms(t, lambda y: y[0] == 'int') if 1 < c[1] < 100}
    for n in sorted(N)[:4]:
        sets += [[S(*range(1, m + 1))] for m in (n - 1, n, n + 1) if m > 0] + [[S(3 * i, 3 * i + 1) for i in range(1, m + 1)] for m in (n, n + 1)]
    hashed = 'Hash' in fl['map']
    for kind in NODES:
        for before in ([], [err('ConditionEmpty', span(9))]):
            for ls in sets:
                perms = list(itertools.islice(itertools.permutations(ls), 24)) if hashed else [ls]
                want = None
                for pm in perms:
                    env = {ast: node(kind, 't', 1), getf(SELF, None, fl['errs']): list(before), getf(SELF, None, fl['text']): TEXT_, ids: {'!': 'map'}}
                    vals = lambda ev, m: [list(x) for x in pm] if ev.val(m) == {'!': 'map'} else (_ for _ in ()).throw(Unk(m))
                    prs_ = lambda ev, m: [(f'id{i}', x) for i, x in enumerate(vals(ev, m))]
                    cs = {'map_values': vals, 'map_iter': prs_, 'map_drain': prs_}
                    met = 0
                    for o in r.all:
                        ev = Ev(env, cs)
                        if o.kind == 'panic':
                            # in the turn of the loop that panics
                            try:
                                ev = stand(env, cs, o, folds_of(r, o), r)
                            except Unk as x:
                                R.undecided('errors', f'panic at {o.where[:100]}')
                                return
                            if ev is None:
                                continue
                        ok, odd = ev.holds(o.facts)
                        if ok is False:
                            continue
                        if ok and ev.freed and o.kind == 'panic':
                            ok, odd = None, list(o.facts)
                        if ok is None:
                            R.undecided('errors', [show(f)[:150] for f in odd[:3]])
                            return
                        d = f'identifiers at lines {[[s["start"]["line"] for s in x] for x in pm]}, {len(before)} errors before'
                        if o.kind != 'ret':
                            R.bad('the analysis does not fail', k, f'{o.kind} {o.where} with {d}')
                            return
                        met += 1
                        if any(p[0] == 'each' and left_early(r, p, o.facts) for p in flat(getf(r.eng.freeze(o.st, o.st.store.get(('arg', 'self'), SELF)), None, fl['errs']))):
                            R.bad('one error for each identifier with several places, with all of them, at the first', k, 'the loop is left early')
                            return
                        try:
                            evs = [x for x in ev.val(seq('vec', o.log)) if x[0].startswith('visit_')]
                            got = None
                            if rec(o.val, 'Err') is not None:
                                got = ev.val(rec(o.val, 'Err')['0'])
                                got = got.get('0') if isinstance(got, dict) else got
                            elif rec(o.val, 'Ok') is None:
                                raise Unk(o.val)
                        except Unk as x:
                            for el in (y for p_ in flat(getf(r.eng.freeze(o.st, o.st.store.get(('arg', 'self'), SELF)), None, fl['errs'])) if p_[0] == 'one' for y in find_terms(p_[1], lambda y: y[0] == 'elem')):
                                if any(src is el[1] and o.facts.get(mkapp('exhausted', src, site)) is not True for site, src in r.eng.early):
                                    R.bad('one error for each identifier with several places, with all of them, at the first', k, 'the loop is left early')
                                    return
                            R.undecided('errors', show(x.args[0])[:300] if x.args and isinstance(x.args[0], tuple) else str(x)[:200])
                            return
                        vn = {'Root': 'visit_root', 'Condition': 'visit_condition', 'Action': 'visit_action', 'ActionDescription': 'visit_description'}[kind]
                        R.check([(x[0], x[1] if len(x) > 1 else None) for x in evs] == [(vn, env[ast]['0'])], 'the whole tree is looked at, once', k, f'{kind}: {[x[0] for x in evs]}')
                        dup = [err('IdentifierDuplicated', {'start': x[0]['start'], 'end': x[0]['start']}, x) for x in pm if len(x) > 1]
                        exp = strip(before + dup)
                        R.check((got is not None) == bool(exp), 'the tree is rejected exactly when an error was found', k, d)
                        if got is None:
                            continue
                        if not isinstance(got, list):
                            R.undecided('errors', str(got)[:200])
                            return
                        g = strip(got)
                        if not R.check(sorted(map(str, g)) == sorted(map(str, exp)), 'one error for each identifier with several places, with all of them, at the first', k, f'{d}: {got}'):
                            return
                        if want is None:
                            want = g
                        if not R.check(g == want, 'the errors are in the same order on every run', k, d):
                            return
                    if not met:
                        R.undecided('errors', 'no outcome')
                        return
