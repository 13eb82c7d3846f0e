"""What `check --fix` does to the text of a Solidity file: the fixes of the single violations and the order of the functions."""
import itertools, re
from .base import *
from .util import *
from .ev import *
from .ev import V_

VK = 'bulloak_foundry::check::violation::ViolationKind'
SELF, CTX = mk('sym', 'self'), mk('sym', 'ctx')


def tokens(s):
    """The text as the formatter sees it: white space does not count, the end of a comment does."""
    return re.findall(r'//[^\n]*\n?|"[^"]*"|\w+|[^\w\s]', s)


class World:
    """A Solidity file of given parts, and the tree it is checked against"""

    def __init__(self, parts, children, head='// é\nimport "{";\n', name='C', tail='\ncontract Z { function f1() {} }\n', root=True, contract=True, pragma=True, sp=('\n', '  ', '\n  // after\n')):
        self.src = ('pragma x;\n' if pragma else '') + head
        units = [V_('PragmaDirective', t='p')] if pragma else []
        units += [V_('ImportDirective', t='i')]
        self.parts, self.fns = [], {}
        self.body = self.first = None
        if contract:
            start = self.pos()
            self.src += 'contract '
            nl = self.pos()
            self.src += name or ''
            nm = V_('Some', **{'0': V_('Identifier', name=name, loc=self.loc(nl))}) if name else V_('None')
            self.src += ' is B {' + sp[0]
            for i, p in enumerate(parts):
                self.src += sp[1]
                s = self.pos()
                if p.startswith('f'):
                    self.src += f'function {p}() {{ // ü {p}\n  }}'
                    x = V_('FunctionDefinition', **{'0': V_('FunctionDefinition', loc=self.loc(s), name=V_('Some', **{'0': V_('Identifier', name=p, loc=self.loc(s))}))})
                    self.fns.setdefault(p, (i, x['0']))
                else:
                    self.src += f'{p} x{i};'
                    x = V_('VariableDefinition', **{'0': V_('VariableDefinition', loc=self.loc(s))})
                self.parts.append(x)
                self.src += sp[2]
            self.src += '}'
            self.sol = V_('ContractDefinition', loc=self.loc(start), name=nm, parts=self.parts)
            units.append(V_('ContractDefinition', **{'0': self.sol}))
            self.src += tail
        self.children = [V_('FunctionDefinition', **{'0': V_('FunctionDefinition', identifier=c)}) if c.startswith('f') else V_('Comment', **{'0': V_('Comment', lexeme=c)}) for c in children]
        self.chir = V_('ContractDefinition', identifier='T', children=self.children)
        hc = V_('ContractDefinition', **{'0': self.chir})
        self.hir = V_('Root', **{'0': V_('Root', children=[hc])}) if root else hc
        self.ctx = V_('Context', src=self.src, pt=V_('SourceUnit', **{'0': units}), hir=self.hir, comments='comments', tree='t.tree', sol='t.t.sol', cfg='cfg')

    def pos(self):
        return len(self.src.encode())

    def loc(self, s):
        return V_('File', start=s, end=self.pos())

    def cut(self, i, j):
        return self.src.encode()[i:j].decode()

    def calls(self):
        def contract(ev, pt):
            for u in ev.val(pt)['0']:
                if u['!'] == 'ContractDefinition':
                    return V_('Some', **{'0': u['0']})
            return V_('None')

        def match(ev, c, f):
            if ev.val(c) is not self.sol and ev.val(c) != self.sol:
                raise Unk(c)
            n = ev.val(f)['identifier']
            return V_('Some', **{'0': self.fns[n]}) if n in self.fns else V_('None')

        def loc(ev, x):
            x = ev.val(x)
            for _ in range(3):
                if isinstance(x, dict) and 'loc' not in x and '0' in x:
                    x = x['0']
            if not isinstance(x, dict) or 'loc' not in x:
                raise Unk(x)
            return x['loc']

        def end(n):
            def f(ev, x):
                x = ev.val(x)
                if not isinstance(x, dict) or n not in x:
                    raise Unk(x)
                return x[n]
            return f

        def emit(ev, em, h):
            return 'E<' + ev.val(h)['0']['identifier'] + '> { // new\n }\n\n'

        def parse(ev, x):
            x = ev.str(x)
            return V_('Ok', **{'0': V_('Parsed', src=x, pt=('pt', x), comments=('comments', x))})

        def translate(ev, tr, h):
            t = ev.val(tr)
            if ev.val(h) != self.hir:
                raise Unk(h)
            us = [V_('PragmaDirective', t='pragma %s;' % t['sol_version'])] + ([V_('ImportDirective', t='import std;')] if t['with_forge_std'] else [])
            return V_('SourceUnit', **{'0': us + [V_('ContractDefinition', t='contract T { %s }' % t['skip_modifiers'])]})

        def units(ev, fm, u):
            return '\n'.join(x['t'] for x in ev.val(u)['0'])
        return {K['contract']: contract, K['match']: match, 'forge_fmt::solang_ext::loc::CodeLocationExt::loc': loc, 'solang_parser::pt::Loc::start': end('start'),
                'solang_parser::pt::Loc::end': end('end'), K['emit']: emit, 'forge_parse': parse, K['translate']: translate, K['units']: units}


K = {}


def anchors(R):
    K.update(contract=R.anchor('bulloak_foundry::sol::find_contract'), match=R.anchor('bulloak_foundry::sol::find_matching_fn'),
             emit=R.anchor('bulloak_foundry::scaffold::emitter::Emitter::emit'), translate=R.anchor('bulloak_foundry::sol::translator::Translator::translate'),
             units=R.anchor('bulloak_foundry::sol::fmt::Formatter::emit'))
    return {k: 'pure' for k in K.values()}


def unbound(t, bound, out):
    """the elements a term speaks of, other than those a loop inside of it ranges over"""
    if t[0] == 'elem' and isinstance(t, T):
        if t not in bound and t[2] != -1:
            unbound(t[1], bound, out)
            if t not in out:
                out.append(t)
        return
    if t[0] == 'each' and isinstance(t, T):
        bound = bound | {t[1]}
        for g, d in t[2]:
            unbound(('x', g, d), bound, out)
        return
    for y in t:
        if isinstance(y, tuple) and y:
            unbound(y, bound, out)


ABOUT, MENTIONS = {}, {}


def about(f):
    if f in ABOUT:
        return ABOUT[f]
    ABOUT[f] = es = []
    if not (f[0] == 'app' and f[1] in ('exhausted', 'forall', 'exists')):
        unbound(f, frozenset(), es)
    return es


def says(f, x):
    k = (f, x)
    if k not in MENTIONS:
        MENTIONS[k] = mentions(f, x)
    return MENTIONS[k]


def stand(env, calls, o, folds, r=None):
    """An evaluator for the outcome: a loop left early stopped at the first element with the facts known of the element
    it stopped at.  None when there is no such element.  r: the analysis; then the loop a panic is in is replayed up to
    the turn that panics."""
    inside, early = [], set()
    if r is not None and o.kind == 'panic':
        out = [f for f in folds_of(r, o, True) if o.facts.get(mkapp('exhausted', f[1][1], f[0])) is not True]
        early = {f[1] for f in out if f not in folds}
        folds = list(folds) + [f for f in out if f not in folds]
        inside = [(f[1], [n for x, n in f[2].values()]) for f in out]
        closed = {f[1] for f in folds_of(r, o, True) if o.facts.get(mkapp('exhausted', f[1][1], f[0])) is True}
        held = set(sum((about(f) for f in o.facts), []))
        inside = [x for x in inside if not any(y in closed and y not in held for y in about(x[0]))]
        early |= {e for e in set(sum((about(f) for f in o.facts), [])) for site, src in r.eng.early if src is e[1]}
    ev = Ev(dict(env), calls, (), folds)
    es = []
    # the character of a position and a character is known by that pair
    pair = {mk('elem', mkapp('chars', x[2]), e[2]): mk('elem', x, e[2]) for f in o.facts for e in about(f) if e[1][0] == 'app' and e[1][1] == 'chars'
            for x in (mkapp('char_indices', e[1][2]),)
            if any(g[0] == 'app' and g[1] in ('exhausted', 'exists', 'forall', 'empty') and g[2] is x for g in o.facts)}
    char = {v: k for k, v in pair.items()}
    part = lambda f, e: says(f, e) or e in char and says(f, char[e]) or any(x is e and says(f, n) for x, ns in inside for n in ns)
    if ev.holds({f: v for f, v in o.facts.items() if not about(f) and not any(part(f, e) for e, ns in inside)})[0] is False:
        return None
    for f in o.facts:
        for e in about(f):
            e = pair.get(e, e)
            if e not in es:
                es.append(e)
    for e, ns in inside:
        if e not in es and any(part(f, e) for f in o.facts):
            es.append(e)
    def of(i):
        later = es[i + 1:]
        return [(f, v) for f, v in o.facts.items() if part(f, es[i]) and not any(part(f, x) for x in later) and not ev.harmless(f)]

    def panics(i, ev, sure):
        if i == len(es):
            if not sure and ev.holds(o.facts)[0] is not False:
                raise Unk(es[-1])        # an earlier turn may have left the loop
            return ev
        for e2 in ev.turns(es[i]):
            if all(e2.fact(f, v) for f, v in of(i)):
                x = panics(i + 1, e2, sure)
                if x is not None and (x.holds(o.facts)[0] is not False or x.crash is not None):
                    return x
            if es[i] in early:
                go = goes_on(e2, es[i])
                if go is False:
                    return None
                sure = sure and go is True
        return None
    if r is not None and o.kind == 'panic':
        return panics(0, ev, True)
    for i, e in enumerate(es):
        fs = of(i)
        for e2 in ev.turns(e):
            if all(e2.fact(f, v) for f, v in fs):
                ev = e2
                break
        else:
            return None
    return ev


def goes_on(ev, e):
    """the loop is not left in this turn; None when that is not known"""
    fs = [f for f in ev.folds if f[1] is e]
    if not fs:
        return None
    for f in fs:
        oks = [ev.holds({y[0]: y[1] for y in g})[0] for g, d in f[3]]
        if True not in oks:
            return None if None in oks else False
    return True


def outcome(R, r, env, calls, what, where):
    """the value returned for the representative; None when it is not known (or was reported)"""
    got = []
    for o in r.rets + r.panics:
        try:
            ev = stand(env, calls, o, folds_of(r, o), r)
            if ev is None:
                continue
            ok, odd = ev.holds(o.facts)
            if ok is False:
                continue
            if o.kind == 'panic':
                if ok:
                    R.bad(f'{what} is made without panic', where, f'{o.what} at {o.where}')
                    return None
                continue
            if ev.crash is not None:
                R.bad(f'{what} is made without panic', where, 'cuts a text at ' + show(ev.crash)[:300])
                return None
            if ok is None:
                R.undecided(what, 'fact ' + show(odd[0])[:200])
                return None
            x = ev.val(o.val)
        except Crash as c:
            R.bad(f'{what} is made without panic', where, 'cuts a text at ' + show(c.args[0])[:300])
            return None
        except (Unk, KeyError, TypeError, AttributeError, IndexError) as u:
            R.undecided(what, 'not understood: ' + (show(u.args[0]) if isinstance(u.args[0], T) else repr(u))[:300])
            return None
        if x not in got:
            got.append(x)
    if len(got) != 1:
        R.undecided(what, f'{len(got)} results')
        return None
    return got[0]


def changed(R, w, x, text, what, where, drop=()):
    """x is the context of the world with the text, parsed anew"""
    if not isinstance(x, dict) or x.get('!') != 'Context' or not isinstance(x.get('src'), str):
        R.undecided(what, repr(x)[:200])
        return
    got, want = tokens(x['src']), tokens(text)
    if drop:
        got = [t for t in got if not t.startswith('//') or t in want]
    if R.check(got == want, what, where, lambda: f'{x["src"]!r} instead of {text!r}'):
        R.check(x['pt'] == ('pt', x['src']) and x['comments'] == ('comments', x['src']), f'{what}: what follows works on the new text', where)
        R.check(all(x[k] == w.ctx[k] for k in ('hir', 'tree', 'sol', 'cfg')), f'{what}: the rest of the context stays', where)


def fix_run(R):
    r = getattr(R, '_fix', None)
    if r is None:
        r = R._fix = R.analyse(R.anchor(VK + '::fix'), eng=R.engine(opaque=anchors(R), folds=True))
    anchors(R)
    return r


LISTS = [(), ('f1',), ('c', 'f1'), ('f1', 'f2', 'f3'), ('f3', 'c', 'f1', 'f2'), ('f1', 'f9', 'f8', 'f2'), ('f9', 'f8', 'f7')]
SOLS = [(), ('f1',), ('u', 'f1', 'f2'), ('f3', 'u', 'f2', 'f1'), ('f2', 'f3'), ('u', 'f5')]


@rule('C33', 'a missing function is inserted right behind the closest function before it in the tree that the file holds, or at the beginning of the contract; nothing else changes, whatever the rest of the file')
def insertion(R):
    r = fix_run(R)
    what = 'the insertion of a function'
    n = 0
    for sol in SOLS:
        for ch in LISTS:
            for root, sp in ((True, ('\n', '  ', '\n  // after\n')), (False, ('\n', '  ', '\n  // after\n')), (True, ('', '', ''))):
                w = World(sol, ch + ('fNew',), root=root, sp=sp)
                for i in range(len(w.children)):
                    f = w.children[i]['0'] if w.children[i]['!'] == 'FunctionDefinition' else V_('FunctionDefinition', identifier='fNew')
                    if f['identifier'] in w.fns:
                        continue
                    x = outcome(R, r, {SELF: V_('MatchingFunctionMissing', **{'0': f, '1': i}), CTX: w.ctx}, w.calls(), what, r.entry)
                    if x is None:
                        return
                    n += 1
                    prev = [c['0']['identifier'] for c in w.children[:i] if c['!'] == 'FunctionDefinition' and c['0']['identifier'] in w.fns]
                    if prev:
                        at = w.fns[prev[-1]][1]['loc']['end']
                    else:
                        s = w.sol['loc']['start']
                        at = s + w.src.encode()[s:].index(b'{') + 1
                    changed(R, w, x, w.cut(0, at) + '\n\n' + 'E<' + f['identifier'] + '> { // new\n }' + w.cut(at, None), what, r.entry)
    R.sample(f'{n} pairs of a file and a tree')


@rule('C33', 'a contract of another name is renamed where it is named, and nowhere else in the file')
def renaming(R):
    r = fix_run(R)
    what = 'the renaming of a contract'
    for name in ('C', 'contract', 'f1', 'B', 'Ü', 'Long_Name', None):
        for tail in ('', '\ncontract Z is C { C c; }\n'):
            w = World(('u', 'f1'), ('f1',), name=name, tail=tail, head=f'// {name} é\nimport {{{name}}} from "{name}";\n')
            for new in ('New', 'C', 'é'):
                x = outcome(R, r, {SELF: V_('ContractNameNotMatches', **{'0': new, '1': name or ''}), CTX: w.ctx}, w.calls(), what, r.entry)
                if x is None:
                    return
                if name is None:
                    R.check(x == w.ctx, 'a contract without a name is left alone', r.entry)
                    continue
                l = w.sol['name']['0']['loc']
                changed(R, w, x, w.cut(0, l['start']) + new + w.cut(l['end'], None), what, r.entry)


@rule('C33', 'a missing contract is added, as scaffold writes it, behind what the file holds; the pragma is added when there is none')
def addition(R):
    r = fix_run(R)
    what = 'the addition of a contract'
    for std, skip in itertools.product((True, False), repeat=2):
        for src, units in (('', ()), (' \n', ()), ('// only a comment', ()), ('pragma x;\nstruct S { uint x; }\n\n', ('PragmaDirective', 'StructDefinition')),
                           ('import "{";\npragma x; // é', ('ImportDirective', 'PragmaDirective')), ('function f() {}', ('FunctionDefinition',))):
            w = World((), ('f1',), contract=False)
            w.ctx['src'], w.ctx['pt'] = src, V_('SourceUnit', **{'0': [V_(u, t=u) for u in units]})
            w.ctx['cfg'] = V_('Config', solidity_version='9.9', emit_vm_skip=std, skip_modifiers=skip, contract_name='N', with_vm_skip=std)
            x = outcome(R, r, {SELF: V_('ContractMissing', **{'0': 'T'}), CTX: w.ctx}, w.calls(), what, r.entry)
            if x is None:
                return
            add = ([] if 'PragmaDirective' in units else ['pragma 9.9;']) + (['import std;'] if std else []) + ['contract T { %s }' % skip]
            changed(R, w, x, (src.rstrip() + '\n\n' if src.strip() else '') + '\n'.join(add), what, r.entry)


@rule('C33', 'the other violations are not fixed one by one: the context is returned as it is, also when there is no contract to fix')
def untouched(R):
    r = fix_run(R)
    kinds = [v['n'] for v in R.p.adts[VK]['variants']]
    w, none = World(('u', 'f1'), ('f1',)), World((), ('f1',), contract=False)
    fn = V_('FunctionDefinition', identifier='fNew')
    for k in kinds:
        for x in (w, none):
            if k in ('ContractMissing',) or x is w and k in ('ContractNameNotMatches', 'MatchingFunctionMissing'):
                continue
            what = f'{k} without a fix of its own' if x is w else f'{k} in a file without a contract'
            p = V_(k, **{'0': fn, '1': 0, '2': fn}) if k == 'MatchingFunctionMissing' else V_(k, **{'0': 'a', '1': 'b', '2': 3})
            got = outcome(R, r, {SELF: p, CTX: x.ctx}, x.calls(), what, r.entry)
            if got is not None:
                R.check(got == x.ctx, f'{what}: nothing changes', r.entry, lambda: repr(got)[:300])
    w = World(('u', 'f1'), ('f1',))
    w.ctx['hir'] = V_('Root', **{'0': V_('Root', children=[V_('Comment', **{'0': V_('Comment', lexeme='c')})])})
    got = outcome(R, r, {SELF: V_('MatchingFunctionMissing', **{'0': fn, '1': 0}), CTX: w.ctx}, w.calls(), 'a tree without a contract', r.entry)
    if got is not None:
        R.check(got == w.ctx, 'a tree without a contract: nothing changes', r.entry, lambda: repr(got)[:300])


@rule('C34', 'fixing the order brings the functions of the tree that the file holds together, in the order of the tree, each once; everything else stays as it was')
def ordering(R):
    ops = anchors(R)
    key = R.anchor('bulloak_foundry::check::violation::fix_order')
    r = R.analyse(key, eng=R.engine(opaque=ops, folds=True))
    names = R.p.bodies[key].get('params') if isinstance(R.p.bodies[key], dict) else None
    what = 'the fix of the order'
    kind = lambda k: V_('Violation', kind=V_(k, **{'0': 'a', '1': 1, '2': 2}), location='l')
    order, other = kind('FunctionOrderMismatch'), kind('MatchingCodegenMissing')
    args = [mk('sym', n) for n in ('violations', 'contract_sol', 'contract_hir', 'ctx')]
    n = 0
    for sol in SOLS + [('f1', 'u', 'f2', 'v'), ('u', 'v', 'f3', 'f2', 'f1'), ('f4', 'f3', 'f2', 'f1'), ('f2', 'f1'), ('f1', 'u', 'fLonger')]:
        for ch in LISTS + [('f1', 'f2', 'f3', 'f4'), ('f4', 'f3', 'c', 'f2', 'f1'), ('f1', 'f2', 'f1'), ('f3', 'f1', 'f2', 'f3'), ('fLonger', 'f1', 'fLonger')]:
            w = World(sol, ch, sp=('', '', '') if n % 2 else ('\n', '  ', '\n  // after\n'))
            at = [w.fns[c][0] for c in ch if c in w.fns]
            if at == sorted(at):
                continue        # nothing to put in order
            for vs in ([order], [other, order], [order, order, other], [], [other]):
                x = outcome(R, r, dict(zip(args, (vs, w.sol, w.chir, w.ctx))), w.calls(), what, key)
                if x is None:
                    return
                n += 1
                if order not in vs:
                    R.check(x == w.ctx, 'a file in order stays as it is', key, lambda: repr(x)[:300])
                    continue
                fs = [w.fns[c][1]['loc'] for c in dict.fromkeys(ch) if c in w.fns]
                text = w.src.encode()
                for l in fs:
                    text = text[:l['start']] + b' ' * (l['end'] - l['start']) + text[l['end']:]
                new = '\n'.join(w.cut(l['start'], l['end']) for l in fs) + '\n'
                wants = [text[:p].decode() + new + text[p:].decode() for q in w.parts for p in (q['0']['loc']['start'], q['0']['loc']['end'])]
                got = x.get('src') if isinstance(x, dict) else None
                best = [t for t in wants if isinstance(got, str) and [y for y in tokens(got) if not y.startswith('//') or y in tokens(t)] == tokens(t)]
                changed(R, w, x, (best or wants)[0], what, key, drop=True)
    R.sample(f'{n} files, trees and lists of violations')
