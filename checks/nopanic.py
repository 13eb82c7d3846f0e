"""Panics: no text of a tree or of a Solidity file makes the own code panic.

Every way out of a function by a panic (a failed unwrap, an index or a slice out of its bounds, an overflow, an
unreachable arm that is reached) is an outcome of its analysis with the facts under which it is taken. The facts are
evaluated over representatives of the inputs the function can be given; so are the slices and indices met on the way
to every other outcome."""
import itertools
from .base import *
from .util import *
from .ev import *
from .ev import V_
from . import fixr, hir as H, chk, msg, prs, syn, sem
from .fixr import stand, World

WORDS_ = ('', ' ', 'a', 'é', 'ß', 'ﬁx', '日本', '-', "'", 'İstanbul', '_x', '1', '𝒳y', 'a b', 'é ü', ' a  b ', '\n', '`')


def S(x):
    return mk('sym', x)


def run(R, key, args=None, opaque=None, **kw):
    """the analysis of a function with its arithmetic checked"""
    R.strict = True
    e = R.engine(opaque=opaque or {}, folds=True)
    e.SPLIT = 150
    for n, v in kw.items():
        setattr(e, n, v)
    return R.analyse(key, eng=e)


def decide(R, r, samples, what, where, calls=None):
    """no sample reaches a panic: each is (description, environment)"""
    calls = calls or {}
    n = und = 0
    why = None
    for desc, env in samples:
        n += 1
        hit, unsure = False, None
        for o in r.panics + r.rets + r.exits:
            try:
                ev = stand(env, calls, o, folds_of(r, o), r)
                if ev is None:
                    continue
                # what is not understood must not hold by default here
                ok, odd = ev.holds(o.facts)
                if ok is False:
                    continue
                blind = [f for f in o.facts if ev.harmless(f) and not known(ev, f)]
                if ev.crash is not None and all(f in odd for f in odd):
                    if not [f for f in odd if not crashes(ev, f)] and not blind:
                        R.bad(what, where, f'{desc}: out of bounds at {show(ev.crash)[:300]}')
                        hit = True
                        break
                    unsure = unsure or f'{desc}: fact {show(odd[0])[:200]}'
                    continue
                if ok is None:
                    if o.kind == 'panic':
                        unsure = unsure or f'{desc}: {o.what} at {o.where[:100]}: fact {show(odd[0])[:200]}'
                    continue
                if o.kind == 'panic':
                    if ev.freed or [f for f in blind if f[0] != 'app' or f[1] != 'exhausted']:
                        unsure = unsure or f'{desc}: {o.what} at {o.where[:100]}: facts of a loop'
                        continue
                    R.bad(what, where, f'{desc}: {o.what} at {o.where[:200]}')
                    hit = True
                    break
                if o.kind == 'ret':
                    try:
                        ev.val(o.val)
                    except Crash as c:
                        R.bad(what, where, f'{desc}: out of bounds at {show(c.args[0])[:300]}')
                        hit = True
                        break
                    except Exception:
                        pass
            except Crash as c:
                unsure = unsure or f'{desc}: {show(c.args[0])[:200]}'
            except (Unk, KeyError, TypeError, AttributeError, IndexError, ValueError) as u:
                if o.kind == 'panic':
                    unsure = unsure or f'{desc}: {o.what} at {o.where[:100]}: not understood: ' + (show(u.args[0]) if u.args and isinstance(u.args[0], T) else repr(u))[:200]
        if hit:
            return
        if unsure:
            und += 1
            why = why or unsure
    if und:
        R.undecided(what, f'{und} of {n} inputs: {why}')
    else:
        R.ok(what, where)


def known(ev, f):
    try:
        ev.val(f)
        return True
    except Exception:
        return False


def crashes(ev, f):
    try:
        ev.val(f)
    except Crash:
        return True
    except Exception:
        pass
    if f[0] in ('variant', 'known'):
        try:
            ev.val(f[1])
        except Crash:
            return True
        except Exception:
            pass
    return False


def names_of(R, key):
    b = R.p.bodies[key]
    e = R.engine()
    from engine.core import ARGNAMES
    tab = ARGNAMES.get(key)
    return [tab[i] if tab and len(tab) == b['argc'] else e.argname(b, i + 1) for i in range(b['argc'])]


@rule('C36', 'no text given to the helpers that spell names makes them panic')
def spelling(R):
    for n in ('upper_first_letter', 'lower_first_letter', 'sanitize', 'to_pascal_case'):
        k = R.anchor('bulloak_syntax::utils::' + n, opt=True)
        if not k:
            continue
        a = names_of(R, k)[0]
        r = run(R, k)
        decide(R, r, [(repr(w), {S(a): w}) for w in WORDS_], f'{n} does not panic', k)


TITLES = ('when', 'given', 'WHEN', 'when x', 'Given é', 'when a b c', 'when ß-1', 'when ﬁx x')


def act(t, *ds):
    return V_('Action', **{'0': V_('Action', title=t, children=[V_('ActionDescription', **{'0': V_('Description', text=d, span='sp')}) for d in ds], span='sp')})


def cond(t, *kids):
    return V_('Condition', **{'0': V_('Condition', title=t, children=list(kids), span='sp')})


ACTS = ('it', 'it x', 'It should revert', "it should revert.", 'it é ü', 'it -', 'it [x]')


@rule('C36', 'no condition or action makes the translation of a tree panic')
def translation(R):
    pure = {k: v for k, v in H.pure(R).items()}
    for meth, arg in (('visit_condition', 'condition'),):
        k = H.meth(R, 'hir::translator', meth)
        r = run(R, k, opaque={H.vc(R): H.h_rec, **pure})
        c, me = S('condition'), S('self')
        smp = []
        for t in TITLES:
            for kids in ((), (act('it x'),), (act('It should revert', 'd'), act('it y')), (cond('when z', act('it')),), (cond('when z'), act('it should revert'), cond('given y'))):
                for stack in ([], ['m'], ['m', 'é']):
                    for mod in ('whenX',):
                        env = {c: cond(t, *kids)['0'], me: V_('TranslatorI', modifier_stack=stack, modifiers={}, cfg=V_('Config', emit_vm_skip=bool(stack)))}
                        env.update(mods(r, t, mod))
                        smp.append((f'condition {t!r} of {len(kids)} children, {len(stack)} enclosing', env))
        decide(R, r, smp, 'the translation of a condition does not panic', k, spell_calls(R))


    k = H.meth(R, 'hir::translator', 'visit_root')
    r = run(R, k, opaque={H.vc(R): H.h_rec, **pure})
    ns = names_of(R, k)
    smp = []
    for kids in [()] + [(act(t, *ds),) for t in ACTS for ds in ((), ('d', 'é'))] + [(cond('when é', act('it')),), (act('it'), cond('when'), act('It x'))]:
        for skip in (True, False):
            env = {S(ns[0]): V_('TranslatorI', modifier_stack=[], modifiers={}, with_vm_skip=skip), S(ns[1]): V_('Root', contract_name='é', children=list(kids), span='sp')}
            smp.append((f'a tree of {[(x["!"], x["0"]["title"]) for x in kids]}', env))
    decide(R, r, smp, 'the translation of a tree does not panic', k, {**spell_calls(R), H.vc(R): lambda ev, *a: V_('Ok', **{'0': []})})


HIRS = [('Function', m, c) for m in (None, ['a'], ['a', 'é']) for c in (['it x'], ['é', '', 'a'])] + [('Modifier', None, None)]


def hirfn(ty, m, c, skip):
    kids = None if c is None else [V_('Comment', **{'0': V_('Comment', lexeme=x)}) for x in c] + ([V_('Statement', **{'0': V_('Statement', ty=V_('VmSkip'))})] if skip else [])
    opt = lambda x: V_('None') if x is None else V_('Some', **{'0': x})
    return V_('FunctionDefinition', identifier='é', ty=V_(ty), modifiers=opt(m), children=opt(kids), span='sp')


@rule('C36', 'no function of a tree makes its code be emitted with a panic')
def emitting(R):
    k = R.anchor('bulloak_foundry::scaffold::emitter::Emitter::emit')
    ns = names_of(R, k)
    r = run(R, k, opaque=H.pure(R))
    env = lambda h: {S(ns[-1]): h, S(ns[0]): V_('Emitter', cfg=V_('Config', solidity_version='0.8', emit_vm_skip=True, skip_modifiers=False))}
    smp = [(f'{h[0]} with modifiers {h[1]} and {h[2]}', env(V_('FunctionDefinition', **{'0': hirfn(*h, skip)}))) for h in HIRS for skip in (True, False)]
    smp += [('an empty tree', env(V_('Root', **{'0': V_('Root', children=[])})))]
    decide(R, r, smp, 'the code of a function is emitted without panic', k, spell_calls(R))
    k = H.meth(R, 'sol::translator', 'visit_function')
    ns = names_of(R, k)
    r = run(R, k, opaque=H.pure(R))
    smp = [(f'{h[0]} with modifiers {h[1]} and {h[2]}', {S(ns[0]): V_('TranslatorI', offset=n, sol_version='0.8', with_forge_std=False, skip_modifiers=False), S(ns[1]): hirfn(*h, skip)}) for h in HIRS for skip in (True, False) for n in (0, 7)]
    decide(R, r, smp, 'the Solidity of a function is built without panic', k, spell_calls(R))


def mods(r, title, mod):
    """what the facts and values call the modifier of the title"""
    out = {}
    for o in r.all:
        for f in o.facts:
            for t in find_terms(f, lambda y: y[0] == 'app' and y[1] in ('has', 'mapget')):
                if t[1] == 'has':
                    out[t] = mod is not None
                else:
                    out[t] = mod
    return out


def spell_calls(R):
    c = {}

    def up(ev, x):
        x = ev.str(x)
        return x[:1].upper() + x[1:]

    def san(ev, x):
        return ''.join(y for y in ev.str(x).replace('-', '_') if xid(y) or y == ' ')
    for n, f in (('upper_first_letter', up), ('sanitize', san)):
        k = R.anchor('bulloak_syntax::utils::' + n, opt=True)
        if k:
            c[k] = f
    return c


@rule('C36', 'no set of functions in a contract makes the check of it panic')
def checking(R):
    m = chk.rule_run(R)
    K = fixr.anchors(R)
    r = run(R, m.key, opaque={m.fc: 'pure', m.ff: 'pure', m.ol: 'pure', m.san: 'pure'})
    smp = []
    for parts in ((), ('u',), ('f1',), ('f2', 'u', 'f1'), ('f1', 'f2', 'f3'), ('f3', 'f2', 'f1')):
        for ch in ((), ('f1',), ('f9',), ('f1', 'f2'), ('f9', 'f1', 'f8', 'f2', 'f3')):
            for kw in ({}, {'contract': False}, {'name': None}):
                w = World(parts, ch, **kw)
                for i, x in enumerate(w.children):
                    if x['!'] == 'FunctionDefinition':
                        at = V_('Position', offset=9 * i, line=i + 2, column=1)
                        x['0'].update(ty=V_('Modifier' if i == 2 else 'Function'), span=V_('Span', start=at, end=at), modifiers=V_('None'), children=V_('None'))
                w.ctx['cfg'] = V_('Config', skip_modifiers=len(parts) == 1, emit_vm_skip=False, with_forge_std=False)
                c = dict(w.calls())
                c[m.ol] = lambda ev, *a: 3
                c[m.san] = lambda ev, x: ev.str(x)
                smp.append((f'a contract of {list(parts)} checked against {list(ch)} {kw or ""}', {S('ctx'): w.ctx}, c))
    decide_worlds(R, r, smp, 'the check of a contract does not panic', m.key)


def decide_worlds(R, r, smp, what, where):
    before = len(R.obs)
    for d, env, c in smp:
        decide(R, r, [(d, env)], what, where, c)
        if any(o[1] == what and o[2] == 'violated' for o in R.obs[before:]):
            return


@rule('C36', 'no offset of a construct makes the computation of its line panic')
def lines(R):
    k = R.anchor('bulloak_foundry::check::utils::offset_to_line')
    a = names_of(R, k)
    r = run(R, k)
    smp = []
    for head in ('', '\n', 'é', 'a\n\nü\r\n'):
        for body in ('contract C{}', 'function é() {}\n'):
            t = head + body
            smp.append((f'the construct at {len(head.encode())} of {t!r}', {S(a[0]): t, S(a[1]): len(head.encode())}))
    decide(R, r, smp, 'the line of an offset is found without panic', k)


@rule('C36', 'no number of trees and no name of a root makes combining them panic')
def combining(R):
    r0 = H.combine_run(R)
    op = {R.anchor('bulloak_syntax::parse'): None, R.anchor('bulloak_foundry::hir::translate_one'): 'pure', **H.pure(R)}
    k = R.anchor('bulloak_foundry::hir::translate')
    r = run(R, k, opaque=op, record_loops=True)

    def fn(name, ty):
        return V_('FunctionDefinition', **{'0': V_('FunctionDefinition', identifier=name, ty=V_(ty), modifiers=V_('None'), children=V_('None'), span='sp')})

    def root(name, *kids):
        return V_('Root', **{'0': V_('Root', children=[V_('ContractDefinition', **{'0': V_('ContractDefinition', identifier=name, children=list(kids))})])})
    F = lambda i: (fn(f'test_{i}', 'Function'), fn(f'm{i}', 'Modifier'), fn('test_é', 'Function'), fn('test_', 'Function'))
    smp = []
    one = R.anchor('bulloak_foundry::hir::translate_one')
    for ns in ((), ('A',), ('A::b',), ('A', 'B'), ('A::b', 'A::c'), ('A::é', 'A::'), ('::', 'A::b'), ('é::ü', 'é::日'), ('A::b::c', 'A::d'), ('A::b', 'B::c'), ('A::b', 'A')):
        asts = [V_('Ast', i=i) for i in range(len(ns))]
        hirs = {i: root(n, *F(i)) for i, n in enumerate(ns)}
        c = dict(spell_calls(R))
        c[one] = lambda ev, a, cfg, hirs=hirs: hirs[ev.val(a)['i']]
        smp.append((f'the roots {ns}', {H.PARSED: V_('Ok', **{'0': asts}), S('text'): 'text'}, c))
    decide_worlds(R, r, smp, 'combining trees does not panic', k)
    k = R.anchor('bulloak_foundry::hir::combiner::prefix_test_with', opt=True)
    if k:
        ns = names_of(R, k)
        if ns == ['test_name', 'prefix']:
            smp = [(f'{t!r} of the tree {p!r}', {S(ns[0]): t, S(ns[1]): p}) for t in ('test_', 'test_A', 'test_RevertWhen_é', 'test_é') for p in WORDS_]
            decide(R, run(R, k, opaque=H.pure(R)), smp, 'the name of a test function of several trees is made without panic', k, spell_calls(R))


def borrowed(R, fs, what, where):
    """the analyses of other rules, with every panic an outcome of its own: none of their inputs reaches one"""
    R2 = Run('C36', R.tier, R.p)
    R2.strict = True
    und = None
    for f in fs:
        R2.cur = f.__name__
        try:
            f(R2)
        except Undecided as u:
            und = str(u)
    R.funcs |= R2.funcs
    R.unmodelled |= R2.unmodelled
    for k, v in R2.stats.items():
        R.stats[k] += v
    hit = [o for o in R2.obs if o[2] == 'violated' and 'panic' in o[1] + o[4]]
    for o in hit:
        R.bad(what, o[3], f'{o[1]}: {o[4]}')
    if not hit:
        us = [o for o in R2.obs if o[2] == 'undecided']
        if und or us:
            R.undecided(what, und or f'{us[0][1]}: {us[0][4]}')
        else:
            R.ok(what, where)


@rule('C36', 'no pair of files makes a fix of check --fix panic')
def fixing(R):
    borrowed(R, [fixr.insertion, fixr.renaming, fixr.addition, fixr.untouched], 'no fix panics', fixr.VK + '::fix')
    borrowed(R, [fixr.ordering], 'the fix of the order does not panic', 'bulloak_foundry::check::violation::fix_order')


@rule('C36', 'no error and no violation makes the writing of its message panic')
def messages(R):
    borrowed(R, [msg.kind_messages, msg.error_text, msg.error_lists], 'no message of an error about a tree panics', 'bulloak_syntax::error')
    borrowed(R, [msg.violation_kinds, msg.locations, msg.violation_text, msg.summary], 'no message of a violation panics', 'bulloak_foundry::check::violation')


@rule('C36', 'no text, no sequence of tokens and no tree makes the tokenizer, the parser, the semantic analysis or the splitting of a text panic')
def reading(R):
    borrowed(R, [syn.moving_on], 'moving on in the text does not panic', 'bulloak_syntax::tokenizer')
    borrowed(R, [sem.analysis, sem.root_, sem.condition_], 'the semantic analysis does not panic', 'bulloak_syntax::semantics')
    borrowed(R, [prs.rejected], 'the parser does not panic', 'bulloak_syntax::parser')
    one = R.anchor('bulloak_syntax::parse_one')
    k = R.anchor('bulloak_syntax::parse')
    r = run(R, k, opaque={one: 'pure'})
    B = ['Foo\n└── It x', '//', 'é', '/', '', ' ', '// c\né', '\té // \n //', '日']
    decide(R, r, [(repr(t), {syn.TEXT: t}) for t in B + [a + '\n\n' + b for a in B for b in B] + [a + '\r\n\n\n' + b + '\n' for a in B[::2] for b in B[::3]]],
           'the splitting of a text does not panic', k, {one: lambda ev, x: {'!': '*', 'text': ev.str(x), '0': {'tree of': ev.str(x)}}})
