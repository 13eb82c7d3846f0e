"""Tree -> HIR: what is emitted for every condition and action.  Entry points: the Visitor methods of
the HIR translator, the modifier discoverer."""
from .base import *
from .util import *

DOM = ('Action', 'Condition')
SELF, COND, ROOT = mk('sym', 'self'), mk('sym', 'condition'), mk('sym', 'root')
STACK = getf(SELF, None, 'modifier_stack')
PURE = ('bulloak_syntax::utils::sanitize', 'bulloak_syntax::utils::upper_first_letter',
        'bulloak_syntax::utils::lower_first_letter', 'bulloak_syntax::utils::to_pascal_case')


def meth(R, mod, name):
    ks = [k for k in R.p.bodies if k.endswith('::' + name) and mod in k.split(' as ')[0]]
    if len(ks) != 1:
        raise Undecided(f'anchor not found: {mod}…::{name}')
    return ks[0]


def h_rec(eng, st, name, args, ctx, site, rty):
    """A visit of a nested condition: returns Ok and leaves the modifier stack as it found it
    (obligations visit_never_fails, stack_restored)."""
    fr = [eng.freeze(st, a) for a in args]
    t = mkapp(name, fr[1])
    s = st.copy()
    eng.event(s, 'rec', name, mk('tup', tuple(fr)), t)
    return [(s, OK(getf(t, 'Ok', '0')))]


def pure(R):
    return {R.anchor(n): 'pure' for n in PURE if R.anchor(n, opt=True)}


def vc(R):
    return meth(R, 'hir::translator', 'visit_condition')


def condition_run(R):
    if getattr(R, '_hc', None):
        return R._hc
    k = vc(R)
    e = R.engine(opaque={k: h_rec, **pure(R)})
    e.SPLIT = 100
    R._hc = R.analyse(k, eng=e)
    return R._hc


def root_run(R):
    if getattr(R, '_hr', None):
        return R._hr
    e = R.engine(opaque={vc(R): h_rec, **pure(R)})
    e.SPLIT = 100
    R._hr = R.analyse(meth(R, 'hir::translator', 'visit_root'), eng=e)
    return R._hr


def args_of(R, key):
    """names of the parameters as the analysis calls them"""
    return [mk('sym', n) for n in R.p.bodies[key]['argnames']] if 'argnames' in R.p.bodies[key] else None


CKIDS = getf(COND, None, 'children')
RKIDS = getf(ROOT, None, 'children')
TITLE = getf(COND, None, 'title')


def known_title(o):
    """the discovered modifiers contain the title of every condition (obligation every_title_discovered)"""
    for f, v in o.facts.items():
        if f[0] == 'app' and f[1] == 'has' and f[3] is TITLE and v is False:
            return False
    return True


def fundef(p):
    """one(Hir::FunctionDefinition(..)) -> (kind, fields)"""
    if p[0] != 'one':
        return None
    f = inner(p[1], 'FunctionDefinition')
    if f is None or rec_name(f['ty']) is None:
        return None
    return rec_name(f['ty']), f


def rec_name(t):
    return t[2] if t[0] == 'adt' else None


def outcomes(R):
    """[(outcome, pieces of the returned nodes)]"""
    r = condition_run(R)
    out = []
    for o in r.rets:
        if not known_title(o):
            continue
        v = rec(o.val, 'Ok')
        out.append((o, None if v is None else flat(v['0'])))
    if len(out) < 2:
        raise Undecided('fewer than two outcomes of visit_condition')
    return out


def sections(ps):
    """modifier nodes, function nodes, others, in order"""
    return [fundef(p) for p in ps]


def nested(p, C):
    """Is p: for each Condition of C in order, the nodes its visit returned; else a reason."""
    if p[0] != 'each' or p[1][0] != 'elem':
        return 'unread'
    if src_of(p) is not C:
        return 'other' if reordering(src_of(p), C) else 'unread'
    bv = by_variant(p, DOM)
    e = getf(p[1], 'Condition', '0')
    for gs, d in bv['Condition']:
        if len(d) != 1 or d[0][0] not in ('all', 'one'):
            return 'drops' if not d else 'unread'
        if not mentions(d[0][1], e):
            return 'unread'
    return True


@rule('C11', 'every outcome of visiting a condition returns Ok: a nested visit never fails, so nothing after it is dropped')
def visit_never_fails(R):
    for o, ps in outcomes(R):
        R.check(ps is not None, 'visit_condition returns Ok', vc(R), show_facts(o.facts)[-300:])
    for o in root_run(R).rets:
        R.check(rec(o.val, 'Ok') is not None, 'visit_root returns Ok', vc(R), show_facts(o.facts)[-300:])


@rule('C11', 'the nodes of a condition are: its modifier, its test function, then, for each nested condition in order, the nodes of that condition; nothing else, nothing missing')
def condition_nodes(R):
    for o, ps in outcomes(R):
        if ps is None:
            continue
        w = vc(R)
        eachs = [p for p in ps if fundef(p) is None]
        fns = [fundef(p) for p in ps if fundef(p)]
        ns = [nested(p, CKIDS) for p in eachs]
        if 'unread' in ns:
            R.undecided('nested conditions', show(mk('S', 'vec', ps))[-500:])
            continue
        may = [K for K, d in occurring(o.facts, CKIDS, DOM)]
        cond = any('Condition' in K for K in may)
        if cond:
            R.check(ns == [True], 'every nested condition is visited once, in order, and its nodes are kept', w,
                    lambda: f'{ns} {show(mk("S", "vec", ps))[-700:]}')
        R.check(not eachs or fundef(ps[-1]) is None, 'the nodes of nested conditions come after those of the condition', w)
        kinds = [k for k, f in fns]
        R.check(kinds in ([], ['Modifier'], ['Function'], ['Modifier', 'Function']), 'at most one modifier, then at most one function', w, kinds)


def on_classes(R, what, pred, where):
    """pred(K, outcome, pieces) for every outcome and every set of variants its facts allow"""
    n = 0
    for o, ps in outcomes(R):
        if ps is None:
            continue
        for K, definite in occurring(o.facts, CKIDS, DOM):
            r = pred(K, o, ps)
            if r is None:
                continue
            n += 1
            if r:
                R.ok(what, where)
            elif definite:
                R.bad(what, where, f'children of kinds {K}: {show_facts(o.facts)[:700]}')
            else:
                R.undecided(what, f'children of kinds {K}: {show_facts(o.facts)[:400]}')
    return n


@rule('C11', 'a condition has a test function exactly when an action is among its children')
def function_iff_actions(R):
    on_classes(R, 'the function is emitted exactly for conditions that have actions',
               lambda K, o, ps: any((fundef(p) or ('',))[0] == 'Function' for p in ps) == ('Action' in K), vc(R))


@rule('C12', 'a condition has a modifier definition, and pushes it for its descendants, exactly when a condition is among its children')
def modifier_iff_conditions(R):
    on_classes(R, 'the modifier is emitted exactly for conditions with nested conditions',
               lambda K, o, ps: any((fundef(p) or ('',))[0] == 'Modifier' for p in ps) == ('Condition' in K), vc(R))


def body_of(f):
    c = rec(f['children'], 'Some')
    return None if c is None else flat(c['0'])


def comment(p):
    if p[0] != 'one':
        return None
    f = inner(p[1], 'Comment')
    return None if f is None else f['lexeme']


def statement(p):
    if p[0] != 'one':
        return None
    f = inner(p[1], 'Statement')
    return None if f is None else rec_name(f['ty'])


def describes(d, act):
    """Are these pieces: a comment with the title of the action, then a comment with the text of each
    of its descriptions: True, False or None (unread)."""
    if not d:
        return False
    c = comment(d[0])
    if c is None:
        return None
    if c is not getf(act, None, 'title'):
        return False
    rest = d[1:]
    if not rest:
        return False
    K2 = getf(act, None, 'children')
    if any(p[0] == 'all' and reordering(p[1], K2) for p in rest):
        return False
    if len(rest) != 1 or rest[0][0] != 'each':
        return None
    s = src_of(rest[0])
    if s is not K2:
        return False if reordering(s, K2) else None
    for gs, dd in by_variant(rest[0], ('ActionDescription',))['ActionDescription']:
        if not dd:
            return False
        if len(dd) != 1:
            return None
        c = comment(dd[0])
        if c is None:
            return None
        if c is not getf(getf(rest[0][1], 'ActionDescription', '0'), None, 'text'):
            return False
    return True


@rule('C11', 'the body of the function of a condition is, for each action in order, a comment with its title as written and one comment per description as written')
def action_comments(R):
    n = 0
    for o, ps in outcomes(R):
        for p in ps or ():
            fd = fundef(p)
            if not fd or fd[0] != 'Function':
                continue
            b = body_of(fd[1])
            if b is None:
                R.bad('the function of a condition has a body', vc(R), show(p)[:500])
                continue
            b = [x for x in b if statement(x) is None]
            if len(b) != 1 or b[0][0] != 'each' or (src_of(b[0]) is not CKIDS and not reordering(src_of(b[0]), CKIDS)):
                R.undecided('actions of a condition', show(mk('S', 'vec', tuple(b)))[:500])
                continue
            n += 1
            if not R.check(src_of(b[0]) is CKIDS, 'the actions of a condition are all there, in order', vc(R), show(b[0])[:500]):
                continue
            for gs, d in by_variant(b[0], DOM)['Action']:
                r = describes(d, getf(b[0][1], 'Action', '0'))
                if r is None:
                    R.undecided('comments of an action', show(mk('S', 'vec', d))[:500])
                else:
                    R.check(r, 'an action becomes its title and all its descriptions, verbatim', vc(R), show(mk('S', 'vec', d))[:700])
    if not n:
        R.undecided('actions of a condition', 'no function node found')


def root_contract(R):
    """[(outcome, contract identifier, pieces of the children)]"""
    out = []
    for o in root_run(R).rets:
        v = rec(o.val, 'Ok')
        try:
            ps = flat(v['0'])
            rk = flat(inner(ps[0][1], 'Root')['children'])
            cd = inner(rk[0][1], 'ContractDefinition')
            assert len(ps) == 1 and len(rk) == 1
        except Exception:
            R.undecided('root', show(o.val)[:300])
            continue
        out.append((o, cd['identifier'], flat(cd['children'])))
    return out


@rule('C11', 'the contract holds, for each top-level action and condition in order, its function, respectively its nodes; its name is the root of the tree')
def root_nodes(R):
    for o, name, ps in root_contract(R):
        R.check(name is getf(ROOT, None, 'contract_name'), 'the contract is named after the root', o.where or R._hr.entry, show(name)[:200])
        if len(ps) != 1 or ps[0][0] != 'each' or (src_of(ps[0]) is not RKIDS and not reordering(src_of(ps[0]), RKIDS)):
            R.undecided('children of the contract', show(mk('S', 'vec', ps))[:400])
            continue
        if not R.check(src_of(ps[0]) is RKIDS, 'all children of the root are there, in order', R._hr.entry, show(ps[0])[:400]):
            continue
        bv = by_variant(ps[0], DOM)
        for gs, d in bv['Condition']:
            ok = len(d) == 1 and mentions(d[0][1], getf(ps[0][1], 'Condition', '0'))
            if not ok and d:
                R.undecided('a top-level condition', show(mk('S', 'vec', d))[:300])
            else:
                R.check(ok, 'the nodes of a top-level condition are kept', R._hr.entry, show(mk('S', 'vec', d))[:300])
        for gs, d in bv['Action']:
            fd = fundef(d[0]) if len(d) == 1 else None
            if not d:
                R.bad('a top-level action has a function', R._hr.entry, gshow(gs))
            elif not fd:
                R.undecided('a top-level action', show(mk('S', 'vec', d))[:300])
            else:
                R.check(fd[0] == 'Function' and rec_name(fd[1]['modifiers']) == 'None', 'a top-level action becomes a function without modifiers', R._hr.entry, show(d[0])[:300])
                b = [x for x in body_of(fd[1]) or () if statement(x) is None]
                r = describes(tuple(b), getf(ps[0][1], 'Action', '0'))
                if r is None:
                    R.undecided('comments of a top-level action', show(mk('S', 'vec', tuple(b)))[:500])
                else:
                    R.check(r, 'a top-level action becomes its title and all its descriptions, verbatim', R._hr.entry, show(mk('S', 'vec', tuple(b)))[:500])


# ------------------------------------------------------------------ modifiers

def own_modifier():
    return mkapp('mapget', getf(SELF, None, 'modifiers'), TITLE)


def stack_after(o, eng, K):
    return (mk('all', STACK),) + ((one(own_modifier()),) if 'Condition' in K else ())


def stack_of(eng, st, t):
    return flat(getf(t, None, 'modifier_stack'))


@rule('C12', 'a condition leaves the modifier stack as it found it')
def stack_restored(R):
    r = condition_run(R)
    for o, ps in outcomes(R):
        s = flat(getf(r.eng.freeze(o.st, o.st.store.get(('arg', 'self'), SELF)), None, 'modifier_stack'))
        for K, definite in occurring(o.facts, CKIDS, DOM):
            good = s == (mk('all', STACK),)
            if not good and not definite:
                R.undecided('stack at exit', show(mk('S', 'vec', s))[:300])
            else:
                R.check(good, 'the modifier stack at the end of a condition is the one at its start', vc(R), lambda: show(mk('S', 'vec', s))[:300] + show_facts(o.facts)[:400])


@rule('C12', 'every nested condition is visited with the stack of its parent extended by the modifier of the parent')
def stack_passed(R):
    n = 0
    for o, ps in outcomes(R):
        for e, g, path in walk(o.log):
            if e[0] != 'rec' or not any('Condition' in K for K, d in occurring(o.facts, CKIDS, DOM)):
                continue
            s = flat(getf(e[2][1][0], None, 'modifier_stack'))
            n += 1
            want = (mk('all', STACK), one(own_modifier()))
            R.check(s == want, 'nested conditions run under the parent stack plus the modifier of the parent', vc(R), show(mk('S', 'vec', s))[:300])
    if not n:
        R.undecided('nested visits', 'no recursive call of visit_condition seen')


@rule('C12', 'the modifiers of the function of a condition are those of all enclosing conditions and its own if it has nested conditions, outermost first')
def function_modifiers(R):
    def pred(K, o, ps):
        for p in ps:
            fd = fundef(p)
            if fd and fd[0] == 'Function':
                m = fd[1]['modifiers']
                want = stack_after(o, R._hc.eng, K)
                if rec_name(m) == 'None':
                    return 'Condition' not in K and o.facts.get(mkapp('empty', STACK)) is True
                s = rec(m, 'Some')
                if s is None:
                    raise Undecided('modifiers of a function: ' + show(m)[:200])
                return flat(s['0']) == want
        return None
    n = on_classes(R, 'the function carries the whole chain of modifiers in order, or none if there is none', pred, vc(R))
    if not n:
        R.undecided('modifiers', 'no function seen')


@rule('C12', 'the modifier defined for a condition is the one its descendants use, and defines nothing else')
def modifier_definition(R):
    for o, ps in outcomes(R):
        for p in ps or ():
            fd = fundef(p)
            if fd and fd[0] == 'Modifier':
                R.check(fd[1]['identifier'] is own_modifier(), 'the modifier is named by the map of discovered modifiers', vc(R), show(fd[1]['identifier'])[:200])
                R.check(rec_name(fd[1]['modifiers']) == 'None', 'a modifier has no modifiers', vc(R), show(p)[:200])


@rule('C12', 'the discoverer maps the title of every condition of the tree to its modifier')
def every_title_discovered(R):
    k = meth(R, 'modifiers::ModifierDiscoverer', 'visit_condition')
    e = R.engine(opaque={k: h_rec, **pure(R)}, map_events=True)
    r = R.analyse(k, eng=e)
    for o in r.rets:
        R.check(rec(o.val, 'Ok') is not None, 'discovering a condition returns Ok', k)
        m = getf(e.freeze(o.st, o.st.store[('arg', 'self')]), None, 'modifiers')
        had = any(f[0] == 'app' and f[1] == 'has' and f[3] is TITLE and v is True for f, v in o.facts.items())
        sets = [x for x, g, path in walk(o.log) if x[0] == 'mapset' and x[1] is TITLE and not path]
        R.check(had or sets or one(TITLE) in pieces_of(m, 'map'), 'the title of the condition is in the map afterwards', k, show(m)[:300])
        for x in sets:
            R.check(mentions(x[2], TITLE), 'the modifier is derived from the title', k, show(x[2])[:300])
            R.sample(show(x[2]))
        visits(R, o, k, CKIDS)
    k2 = meth(R, 'modifiers::ModifierDiscoverer', 'visit_root')
    r = R.analyse(k2, opaque={k: h_rec, **pure(R)})
    for o in r.rets:
        visits(R, o, k2, RKIDS)


def visits(R, o, k, C):
    """Every Condition of C is visited on this outcome"""
    for K, definite in occurring(o.facts, C, DOM):
        if 'Condition' not in K:
            continue
        good = None
        for p, path in eaches(o.log):
            if src_of(p) is C and not path:
                bv = by_variant(p, DOM)['Condition']
                good = all(any(e[0] == 'rec' and e[2][1][1] is getf(p[1], 'Condition', '0') for e, _, _ in walk(d)) for _, d in bv)
                break
            if reordering(src_of(p), C):
                good = False
        if good is None:
            direct = any(e[0] == 'rec' for e, _, _ in walk(o.log))
            if direct:
                R.undecided('visits of nested conditions', show_facts(o.facts)[:300])
                continue
            good = False
        R.check(good, 'every nested condition is visited', k, lambda: show(mk('S', 'vec', o.log))[:400])


# ------------------------------------------------------------------ skip statement

@rule('C14', 'the body of every test function has the skip statement exactly when the skip option is set')
def skip_statement(R):
    flag = getf(SELF, None, 'with_vm_skip')

    def one_body(b, facts, w):
        n = [statement(x) for x in b if x[0] == 'one' and statement(x)]
        v = facts.get(flag)
        if v is None:
            R.undecided('skip flag', 'a function is built without reading it')
            return
        R.check(n == (['VmSkip'] if v else []), f'with the option {"on" if v else "off"} the function has {"one" if v else "no"} skip statement', w, f'{n}')
    for o, ps in outcomes(R):
        for p in ps or ():
            fd = fundef(p)
            if fd and fd[0] == 'Function' and body_of(fd[1]) is not None:
                one_body(body_of(fd[1]), o.facts, vc(R))
    for o, name, ps in root_contract(R):
        for p in ps:
            if p[0] != 'each':
                continue
            for gs, d in by_variant(p, DOM)['Action']:
                fd = fundef(d[0]) if d else None
                if fd and body_of(fd[1]) is not None:
                    one_body(body_of(fd[1]), {**o.facts, **gs}, R._hr.entry)


@rule('C14', 'every tree of a file is translated under the options given')
def trees_options(R):
    r = combine_run(R)
    calls = set()
    for o in r.rets:
        calls.update(find_terms(o.val, lambda t: t[0] == 'app' and t[1].endswith('hir::translate_one')))
    for x in r.eng.notes:
        if x[0] == 'trans':
            for v in x[3].store.values():
                calls.update(find_terms(v, lambda t: t[0] == 'app' and t[1].endswith('hir::translate_one')))
    if not calls:
        R.undecided('options', 'no tree is translated')
    for t in calls:
        c = t[3]
        skip = getf(c, None, 'emit_vm_skip') if c[0] != 'phi' else None
        if c is mk('sym', 'cfg') or skip is getf(mk('sym', 'cfg'), None, 'emit_vm_skip'):
            R.check(True, 'a tree is translated under the options given', r.entry, '')
        elif skip in (TRUE, FALSE):
            R.bad('a tree is translated under the options given', r.entry, show(c)[:300])
        else:
            R.undecided('options', show(c)[:300])


# ------------------------------------------------------------------ several roots

def combine_run(R):
    if getattr(R, '_cb', None):
        return R._cb
    op = {R.anchor('bulloak_syntax::parse'): None, R.anchor('bulloak_foundry::hir::translate_one'): 'pure', **pure(R)}
    e = R.engine(opaque=op)
    e.SPLIT, e.record_loops = 100, True
    R._cb = R.analyse(R.anchor('bulloak_foundry::hir::translate'), eng=e)
    return R._cb


PARSED = mkapp('bulloak_syntax::parse', mk('sym', 'text'))
ASTS = getf(PARSED, 'Ok', '0')


def one_tree(ast):
    return mkapp('bulloak_foundry::hir::translate_one', ast, mk('sym', 'cfg'))


def contract_of(t):
    """t = the contract node of the HIR of one of the trees -> True; its element otherwise misplaced -> False"""
    try:
        if not (t[0] == 'fld' and t[2] == 'ContractDefinition' and t[1][0] == 'elem'):
            return None
        kids = t[1][1]
        h = kids[1][1]            # elem<h.Root#0.children>
        if h[0] == 'app' and h[1].endswith('hir::translate_one') and h[2][0] == 'elem' and h[2][1] is ASTS:
            return True
        if h[0] == 'app' and h[1].endswith('hir::translate_one') and h[2][0] == 'elem' and reordering(h[2][1], ASTS):
            return False
    except (TypeError, IndexError):
        pass
    return None


def prefixed_name(t, old, fname):
    """'' when t is `test_` ++ Fname ++ (old without its `test_`), a reason when it is not, None when unread"""
    ps = [q for p in pieces_of(t, 'str') for q in (pieces_of(p, 'str') if p[0] == 'S' else (p,))]
    ps = [p[1] if p[0] == 'one' else p for p in ps]
    if len(ps) != 3 or ps[0][0] != 'str':
        return None
    if ps[0] is not STR('test_'):
        return 'it starts with something else'
    if not (ps[1][0] == 'app' and ps[1][1].endswith('upper_first_letter')):
        return 'the function name is spelled differently' if ps[1] is fname else None
    if ps[1][2] is not fname:
        return 'the function name is changed' if ps[1][2][0] == 'app' and ps[1][2][1].startswith('str_') else None
    rest, cut = ps[2], []
    while rest[0] == 'app' and rest[1] in ('str_trim_start_matches', 'str_strip_prefix') or rest[0] == 'fld' and rest[2] == 'Some':
        if rest[0] == 'app':
            cut.append(rest[3])
            rest = rest[2]
        else:
            rest = rest[1]
    if rest is not old:
        return None
    return '' if cut == [STR('test_')] else 'more than the prefix is cut off' if cut and all(c[0] == 'str' for c in cut) else 'the prefix is kept' if not cut else None


def many(R):
    """outcomes for files with several trees"""
    r = combine_run(R)
    return [o for o in r.rets if variant_is(o.facts, PARSED, 'Ok') is not False and rec(o.val, 'Ok') is not None
            and o.val is not OK(one_tree(mkapp('nth', ASTS, INT(0))))]


@rule('C18', 'a file with a single tree yields the nodes of that tree; a tree that does not parse yields its error')
def single_root(R):
    r = combine_run(R)
    n = 0
    for o in r.rets:
        if variant_is(o.facts, PARSED, 'Err'):
            R.check(o.val is ERR(getf(PARSED, 'Err', '0')), 'the error of the tree is returned', r.entry, show(o.val)[:200])
        elif o.val is OK(one_tree(mkapp('nth', ASTS, INT(0)))) or o.val is OK(one_tree(mkapp('first', ASTS))):
            n += 1
            R.check(o.facts.get(mkapp('eq', *sorted((mkapp('len', ASTS), INT(1)), key=lambda z: z.n))) is True, 'only a file with one tree is not combined', r.entry, show_facts(o.facts)[:300])
    if not n:
        R.undecided('single tree', 'no outcome returns it')


@rule('C18', 'combining trees appends, for every contract of every tree in order, each of its nodes: tests with the function name of the root in their name, modifiers unless one of that name is already there; nothing is lost or reset')
def combined_nodes(R):
    r = combine_run(R)
    n = kept = 0
    for x in r.eng.notes:
        if x[0] != 'trans':
            continue
        _, site, h, s = x
        for c, v in h.store.items():
            a = rec(v, 'ContractDefinition')
            if a is None or 'children' not in a or a['children'][0] == 'S' and not a['children'][2]:
                continue
            v2 = s.store.get(c)
            b = rec(v2, 'ContractDefinition') if v2 is not None else None
            if b is None:
                R.undecided('the combined contract', show(v2)[:200] if v2 is not None else 'gone')
                continue
            new = {f: q for f, q in s.facts.items() if f not in h.facts}
            con = [f[1] for f, q in new.items() if f[0] == 'variant' and admits(q, 'ContractDefinition') and q[0]
                   and contract_of(getf(f[1], 'ContractDefinition', '0')) is not None]
            if v2 is v:
                if con and not any(f[0] == 'app' and f[1] == 'empty' and f[2] is getf(getf(con[0], 'ContractDefinition', '0'), None, 'children') and q is True for f, q in new.items()) \
                        and s.cur and s.cur[-1] and con[0] in s.cur[-1]:
                    R.bad('the nodes of a contract are added', r.entry, show_facts(new)[:400])
                continue
            ps = flat(b['children'])
            if b['children'][0] == 'phi' or (len(ps) == 1 and ps[0][0] == 'all' and ps[0][1][0] == 'phi'):
                continue        # the result of the inner loop
            n += 1
            sets = [t for t in h.store.values() if t[0] == 'S' and t[1] == 'set']
            if sets and any(f[0] == 'app' and f[1] == 'has' for f in find_terms(v2, lambda t: app(t, 'has'))):
                kept_all = any(p[0] != 'each' or p[1] == mk('elem', ASTS, p[1][2]) for t in sets for p in t[2])
                R.check(kept_all, 'the modifiers added are remembered from one tree to the next', r.entry, show(mk('x', *sets))[:300])
            first = any(f[0] == 'app' and f[1] == 'empty' and f[2] is a['identifier'] and q is True for f, q in s.facts.items())
            before = flat(a['children'])
            if ps and ps[0] == mk('all', a['children']):
                ps = ps[1:]
            elif before and ps[:len(before)] == before:
                ps = ps[len(before):]
                if not ps:
                    continue
            else:
                if not first and mentions(mk('S', 'vec', ps), a['children']):
                    R.undecided('the combined contract', show(b['children'])[:300])
                    continue
                R.check(first, 'nodes collected from earlier trees are kept', r.entry, lambda: show(b['children'])[:300] + show_facts(new)[:300])
            if len(ps) != 1 or ps[0][0] != 'each':
                R.undecided('nodes of a further tree', show(mk('S', 'vec', ps))[:300])
                continue
            src = src_of(ps[0])
            base = src
            while base is not None and base[0] == 'app' and reordering(base, base[2]):
                base = base[2]
            cdef = base[1] if base is not None and base[0] == 'fld' and base[3] == 'children' else None
            ok = contract_of(cdef) if cdef is not None else None
            if ok is None:
                R.undecided('nodes of a further tree', show(ps[0])[:300])
                continue
            R.check(ok and src is base, 'the nodes of every tree are added in order', r.entry, show(src)[:300])
            e = ps[0][1]
            f0 = getf(e, 'FunctionDefinition', '0')
            pre = mkapp('str_split_once', getf(cdef, None, 'identifier'), STR('::'))
            fname = getf(getf(pre, 'Some', '0'), None, '1')
            for g, d in ps[0][2]:
                gs = {z[0]: z[1] for z in g}
                isf = variant_is(gs, e, 'FunctionDefinition')
                ty = [t for t in ('Function', 'Modifier') if variant_is(gs, getf(f0, None, 'ty'), t) is not False]
                if isf is False:
                    R.check(d == (one(e),), 'other nodes are kept', r.entry, show(mk('S', 'vec', d))[:300])
                    continue
                if ty == ['Function']:
                    kept += 1
                    if not R.check(bool(d), 'every test of every tree is kept', r.entry, gshow(gs)):
                        continue
                    f = inner(d[0][1], 'FunctionDefinition') if d[0][0] == 'one' else None
                    if f is None:
                        u = d[0][1]
                        f = {k: getf(getf(u, 'FunctionDefinition', '0'), None, k) for k in ('identifier', 'modifiers', 'children', 'ty')}
                    R.check(len(d) == 1 and f['modifiers'] is getf(f0, None, 'modifiers') and f['children'] is getf(f0, None, 'children'), 'a test keeps its modifiers and body', r.entry, show(d[0])[:400])
                    nm = show(f['identifier'])
                    old = getf(f0, None, 'identifier')
                    if R.check(mentions(f['identifier'], old) and mentions(f['identifier'], fname), 'the name of a test is that of its tree with the function name of the root', r.entry, nm[:300]):
                        why = prefixed_name(f['identifier'], old, fname)
                        if why is None:
                            R.undecided('the name of a combined test', nm[:300])
                        else:
                            R.check(not why, 'the name of a combined test is `test_`, the function name with a capital initial and the rest of the name', r.entry, f'{why}: {nm[:300]}')
                elif ty == ['Modifier']:
                    ident = getf(f0, None, 'identifier')
                    had = [q for f, q in gs.items() if f[0] == 'app' and f[1] == 'has' and f[3] is ident]
                    if d:
                        same = d[0] is one(e) or (inner(d[0][1], 'FunctionDefinition') or {}).get('identifier', getf(getf(d[0][1], 'FunctionDefinition', '0'), None, 'identifier')) is ident
                        R.check(len(d) == 1 and same, 'a modifier keeps its name', r.entry, show(d[0])[:300])
                        R.check(had == [False] or not had and False, 'a modifier is added only if none of that name was', r.entry, gshow(gs))
                    else:
                        R.check(had == [True], 'a modifier is left out only if one of that name is there', r.entry, gshow(gs))
                else:
                    R.undecided('a node of a further tree', gshow(gs))
    if not n or not kept:
        R.undecided('combining', f'{n} steps that add nodes, {kept} of tests, were recognised')


@rule('C18', 'trees are combined only if every root names a contract and a function separated by `::`, and all name the same contract; otherwise the error says which root is wrong')
def combined_names(R):
    r = combine_run(R)
    kinds = set()
    for o in r.rets:
        er = rec(o.val, 'Err')
        if er is None or variant_is(o.facts, PARSED, 'Err'):
            continue
        f = rec(er['0'], 'Error')
        kd = rec_name(f['kind']) if f else None
        if kd is None:
            R.undecided('error', show(o.val)[:200])
            continue
        kinds.add(kd)
        sp = [q for g, q in o.facts.items() if g[0] == 'variant' and app(g[1], 'str_split_once')]
        if kd == 'SeparatorMissing':
            R.check(sp and all(admits(q, 'None') for q in sp), 'a missing separator is reported when there is none', r.entry, show_facts(o.facts)[-300:])
        if kd == 'ContractNameMissing':
            R.check(any(g[0] == 'app' and g[1] == 'empty' and q is True and 'str_split_once' in show(g) for g, q in o.facts.items()), 'a missing contract name is reported when it is empty', r.entry, show_facts(o.facts)[-300:])
        if kd == 'ContractNameMismatch':
            R.check(any(g[0] == 'app' and g[1] == 'eq' and q is False and 'str_split_once' in show(g) for g, q in o.facts.items()), 'a mismatch is reported when the names differ', r.entry, show_facts(o.facts)[-300:])
            k = rec(f['kind'], kd) or {}
            found = lambda t: bool(find_terms(t, lambda x: app(x, 'str_split_once')))
            if {'actual', 'expected'} <= set(k) and found(k['actual']) != found(k['expected']):
                R.check(found(k['actual']), 'the mismatch names the contract of the first root as the expected one', r.entry, show(f['kind'])[:300])
        if kd in ('SeparatorMissing', 'ContractNameMissing'):
            no = (rec(f['kind'], kd) or {}).get('0')
            if no is not None:
                idx, k = no, 0
                if app(no, 'plus') and no[3][0] == 'int':
                    idx, k = no[2], no[3][1]
                if idx[0] == 'elem' and idx[1][0] == 'range' and idx[1][1] is INT(0):
                    R.check(k == 1, 'the error counts the roots from one', r.entry, show(no))
                elif no[0] == 'int':
                    R.bad('the error says which root is wrong', r.entry, show(no))
    n = 0
    for x in r.eng.notes:
        if x[0] != 'trans':
            continue
        _, site, h, s = x
        for c, v in h.store.items():
            a, v2 = rec(v, 'ContractDefinition'), s.store.get(c)
            b = rec(v2, 'ContractDefinition') if v2 is not None else None
            if a is None or b is None or v2 is v or 'identifier' not in a or a['identifier'][0] != 'phi' or (b['identifier'][0] == 'phi' and b['children'][0] == 'phi'):
                continue
            if not any(f[0] == 'variant' and f[1] in (s.cur[-1] if s.cur else ()) and variant_is(s.facts, f[1], 'ContractDefinition') for f in s.facts):
                continue        # the step over a whole tree, after the inner loop
            n += 1
            w = r.entry
            splits = [f[1] for f, q in s.facts.items() if f[0] == 'variant' and app(f[1], 'str_split_once') and q[0] and q[1] == ('Some',)]
            if not R.check(bool(splits), 'a tree is added only if its root has the separator', w, show_facts(s.facts)[-300:]):
                continue
            nm = getf(getf(splits[-1], 'Some', '0'), None, '0')
            R.check(any(f[0] == 'app' and f[1] == 'empty' and q is False and mentions(f, nm) for f, q in s.facts.items()), 'a tree is added only if its root names a contract', w, show_facts(s.facts)[-300:])
            plain = [mkapp('empty', nm)]
            if all(f in plain or f[0] == 'app' and f[1] == 'eq' and nm in f for f in s.facts if mentions(f, nm) and f[0] not in ('variant', 'known')):
                R.check(plain[0] not in s.facts, 'a contract name of blanks is an error', w, show_facts(s.facts)[-300:])
            first = any(f[0] == 'app' and f[1] == 'empty' and f[2] is a['identifier'] and q is True for f, q in s.facts.items())
            if first:
                R.check(b['identifier'] is nm, 'the combined contract is named after the first tree', w, show(b['identifier'])[:200])
            else:
                same = s.facts.get(mkapp('eq', *sorted((a['identifier'], nm), key=lambda z: z.n)))
                R.check(same is True, 'a tree is added only if it names the same contract', w, show_facts(s.facts)[-400:])
                R.check(b['identifier'] is a['identifier'], 'the combined contract keeps its name', w, show(b['identifier'])[:200])
    if not n:
        R.undecided('names', 'no step that adds a tree was recognised')


# ------------------------------------------------------------------ names of the tests

SAN, UP, PASCAL = PURE[0], PURE[1], PURE[3]


ALTERS = ('str_trim_start_matches', 'str_trim_end_matches', 'str_trim_matches', 'str_replace', 'str_to_lowercase', 'str_to_uppercase', 'str_to_ascii_lowercase', 'str_to_ascii_uppercase')


def altered(t, title):
    """t is the title with some of its characters changed or cut off"""
    n = 0
    while isinstance(t, tuple) and t[0] == 'app' and (t[1] in ALTERS or t[1] in ('str_trim', 'str_trim_start', 'str_trim_end')):
        n += t[1] in ALTERS
        t = t[2]
    return t is title and n > 0


def words_of(src, title):
    """(first, 'all') of a sequence of words of the title: which words, in order; None if unread"""
    if src[0] == 'app' and src[1] == 'split_whitespace':
        return (0,) if src[2] is title or (app(src[2], 'str_trim') and src[2][2] is title) else ('odd', 'of a changed title') if altered(src[2], title) else None
    if src[0] == 'app' and src[1] == 'skip' and src[3][0] == 'int':
        w = words_of(src[2], title)
        return None if w is None or w[0] == 'odd' else (w[0] + src[3][1],)
    if src[0] == 'app' and src[1] == 'tail':
        w = words_of(src[2], title)
        return None if w is None or w[0] == 'odd' else (w[0] + 1,)
    if src[0] == 'app' and src[1] in ('iter_skip_while', 'iter_take_while', 'iter_rev', 'iter_step_by', 'skip_while'):
        it = src[2][1] if src[2][0] == 'iter' and not src[2][2] else src[2]
        return ('odd', src[1]) if words_of(it, title) is not None else None
    if src[0] == 'app' and src[1] in ('rev', 'take', 'sorted', 'dedup', 'step_by', 'init', 'take_while', 'drop_last', 'filter'):
        return ('odd', src[1]) if words_of(src[2], title) is not None else None
    return None


def word_form(d, e):
    """what an element contributes: 'Up' its word with an upper-case initial, else a reason / None"""
    if d and d[0][0] == 'S':
        d = pieces_of(d[0], 'str')
    if len(d) != 1:
        return 'changed' if d and any(x[0] == 'str' for x in d) else ('dropped' if not d else None)
    x = d[0][1] if d[0][0] == 'one' else d[0]
    if x[0] == 'app' and x[1].endswith('upper_first_letter') and x[2] is e:
        return 'Up'
    if x is e:
        return 'as is'
    if app(x, 'str_to_lowercase') or app(x, 'str_to_uppercase'):
        return 'changed'
    return None


def spelled(t, title):
    """The tokens of an identifier: strings, ('w', i) the i-th word capitalised, ('w', i, '..') all
    words from the i-th on; anything else is returned as ('odd', why) or ('unread', term)."""
    out = []
    for p in pieces_of(t, 'str'):
        if p[0] == 'str':
            out.append(p[1])
        elif p[0] == 'app' and p[1].endswith('utils::sanitize') and len(p) == 3:
            out += spelled(p[2], title)
        elif p[0] == 'S':
            out += spelled(p, title)
        elif p[0] == 'app' and p[1].endswith('to_pascal_case') and p[2] is title:
            out.append(('w', 0, '..'))
        elif p[0] == 'app' and p[1].endswith('to_pascal_case') and altered(p[2], title):
            out.append(('odd', 'words of a changed title'))
        elif p[0] == 'app' and p[1] == 'join' and p[2][0] == 'S':
            sep = p[3] if len(p) > 3 else None
            if sep is not None and sep is not mk('S', 'str', ()) and sep is not mk('str', ''):
                out.append(('odd', 'separator'))
            else:
                for q in p[2][2]:
                    out += spelled(mk('S', 'str', (q[1] if q[0] == 'one' else q,)), title)
        elif p[0] == 'app' and p[1].endswith('upper_first_letter') and word_at(p[2], title) is not None:
            out.append(('w', word_at(p[2], title)))
        elif word_at(p, title) is not None:
            out.append(('odd', f'word {word_at(p, title)} as is'))
        elif p[0] == 'each' and src_of(p) is not None:
            w = words_of(src_of(p), title)
            fs = {word_form(d, p[1]) for g, d in p[2]}
            if w is None or None in fs:
                out.append(('unread', p))
            elif w[0] == 'odd':
                out.append(w)
            elif fs != {'Up'}:
                out.append(('odd', 'words ' + ', '.join(sorted(fs))))
            else:
                out.append(('w', w[0], '..'))
        else:
            out.append(('unread', p))
    # w[0] w[1..] = w[0..]
    r = []
    for x in out:
        if r and isinstance(x, tuple) and len(x) == 3 and x[0] == 'w' and r[-1] == ('w', x[1] - 1):
            r[-1] = ('w', x[1] - 1, '..')
        elif r and isinstance(x, str) and isinstance(r[-1], str):
            r[-1] += x
        else:
            r.append(x)
    return r


def word_at(t, title):
    if app(t, 'nth') and t[3][0] == 'int':
        w = words_of(t[2], title)
        return None if w is None or w[0] == 'odd' else w[0] + t[3][1]
    if app(t, 'first'):
        w = words_of(t[2], title)
        return None if w is None or w[0] == 'odd' else w[0]
    return None


def _is_revert_fact(f):
    """'yes': the first action reads `it should revert` up to case and punctuation; else None / reason"""
    if not find_terms(f, lambda x: x[0] == 'str' and 'revert' in x[1].lower()):
        return None
    if f[0] != 'app' or f[1] not in ('eq', 'eq_ignore_case') or len(f) < 4:
        return 'other'
    a, b = (f[2], f[3]) if f[3][0] == 'str' else (f[3], f[2])
    if b[0] != 'str':
        return 'unread'
    low, san = f[1] == 'eq_ignore_case', False
    while a[0] == 'app' and len(a) == 3:
        if a[1] in ('str_to_lowercase', 'str_to_ascii_lowercase'):
            low = True
        elif a[1].endswith('utils::sanitize'):
            san = True
        elif a[1] != 'str_trim':
            break
        a = a[2]
    if not low or not san:
        return 'case' if not low else 'punctuation'
    if (b[1].lower() if f[1] != 'eq' else b[1]) != 'it should revert':
        return 'text'
    n = find_terms(a, lambda x: x[0] == 'app' and x[1] in ('nth', 'first', 'last') or x[0] == 'elem')
    if app(a, 'last') or find_terms(a, lambda x: app(x, 'last')):
        return 'last action'
    m = [x for x in n if app(x, 'first') or (app(x, 'nth') and x[3] is mk('int', 0))]
    other = [x for x in n if app(x, 'nth') and x[3] is not mk('int', 0) and x[3][0] == 'int']
    if other and not m:
        return 'not the first action'
    return 'yes' if m and mentions(a, CKIDS) else 'unread'


@rule('C13', 'the test of a condition is named test_ followed by the words of its title in order, each capitalised; when its first action reads `it should revert` up to case and punctuation it is test_Revert<first word>_<other words>')
def condition_test_names(R):
    seen = set()
    for o, ps in outcomes(R):
        if not any(o_ for o_ in occurring(o.facts, CKIDS, DOM)):
            continue
        for p in ps or ():
            fd = fundef(p)
            if not fd or fd[0] != 'Function':
                continue
            rv = [(x, v) for x, v in ((_is_revert_fact(f), v) for f, v in o.facts.items()) if x]
            odd = [x for x, v in rv if x not in ('yes', 'unread')]
            yes = [v for x, v in rv if x == 'yes']
            s = spelled(fd[1]['identifier'], TITLE)
            if any(isinstance(x, tuple) and x[0] == 'unread' for x in s):
                R.undecided('name of a test', [show(x)[:200] for x in s])
                continue
            if odd:
                R.bad('the revert form is chosen by reading the whole first action up to case and punctuation', vc(R), odd)
                continue
            if yes == [True]:
                seen.add(True)
                R.check(s == ['test_Revert', ('w', 0), '_', ('w', 1, '..')], 'the test of a reverting condition is named test_Revert<keyword>_<words>', vc(R), s)
            elif yes == [False]:
                seen.add(False)
                R.check(s == ['test_', ('w', 0, '..')], 'the test of a condition is named test_<words>', vc(R), s)
            elif not rv:
                # the choice does not depend on the action (the function form was decided without it)
                if s in (['test_Revert', ('w', 0), '_', ('w', 1, '..')], ['test_', ('w', 0, '..')]):
                    hir_first = [f for f in o.facts if f[0] == 'variant' and mentions(f, CKIDS)]
                    R.undecided('choice of the revert form', show_facts(o.facts)[:300])
                else:
                    R.bad('the test of a condition is named after its title', vc(R), s)
            else:
                R.undecided('choice of the revert form', rv)
    if True in seen or False in seen:
        R.check(seen == {True, False}, 'both forms of names exist', vc(R), seen)


@rule('C13', 'the test of a top-level action is named test_ followed by the words of its title but the first, capitalised, with characters that an identifier cannot hold removed')
def root_test_names(R):
    n = 0
    for o, name, ps in root_contract(R):
        for p in ps:
            if p[0] != 'each':
                continue
            act = getf(p[1], 'Action', '0')
            for gs, d in by_variant(p, DOM)['Action']:
                fd = fundef(d[0]) if len(d) == 1 else None
                if not fd:
                    continue
                n += 1
                t = fd[1]['identifier']
                s = spelled(t, getf(act, None, 'title'))
                if any(isinstance(x, tuple) and x[0] == 'unread' for x in s):
                    R.undecided('name of the test of a top-level action', [show(x)[:200] for x in s])
                    continue
                title = getf(act, None, 'title')
                if s == ['test_'] and any(app(g, 'empty') and app(g[2], 'split_whitespace') and g[2][2] is title and v is True for g, v in dict(gs).items()):
                    continue  # no word at all
                R.check(s == ['test_', ('w', 1, '..')], 'the test of a top-level action is named test_<words after the first>', R._hr.entry, s)
                R.check(bool(find_terms(t, lambda x: x[0] == 'app' and x[1].endswith('utils::sanitize'))), 'the name of the test of a top-level action is sanitised', R._hr.entry, show(t)[:300])
    if not n:
        R.undecided('top-level actions', 'none seen')


@rule('C13', 'the modifier of a condition is named by the words of its title in order, each capitalised, the first letter in lower case')
def modifier_names(R):
    k = meth(R, 'modifiers::ModifierDiscoverer', 'visit_condition')
    e = R.engine(opaque={k: h_rec, **pure(R)}, map_events=True)
    r = R.analyse(k, eng=e)
    n = 0
    for o in r.rets:
        for x, g, path in walk(o.log):
            if x[0] != 'mapset':
                continue
            n += 1
            v = x[2]
            low = v[0] == 'app' and v[1].endswith('lower_first_letter')
            s = spelled(v[2] if low else v, TITLE)
            if any(isinstance(y, tuple) and y[0] == 'unread' for y in s):
                R.undecided('name of a modifier', show(v)[:300])
            else:
                R.check(low and s == [('w', 0, '..')], 'the modifier is the title in camel case', k, (low, s))
    if not n:
        R.undecided('name of a modifier', 'no insertion seen')


def helper(R, name):
    k = R.anchor('bulloak_syntax::utils::' + name)
    op = {x: 'pure' for x in pure(R) if x != k}
    return k, R.analyse(k, opaque=op)


def char_holds(t, cls, var):
    """a condition on a character of a class: '-', ' ', 'x' (identifier character), 'o' (other)"""
    if t[0] == 'bool':
        return t[1]
    if t[0] == 'not':
        v = char_holds(t[1], cls, var)
        return None if v is None else not v
    if t[0] == 'app' and t[1].endswith('is_xid_continue'):
        return cls == 'x'
    if t[0] == 'app' and t[1] in ('eq', 'ne') and any(x[0] == 'char' for x in t[2:4]):
        c = [x for x in t[2:4] if x[0] == 'char'][0][1]
        c = chr(c) if isinstance(c, int) else c
        v = {'-': cls == '-', ' ': cls == ' '}.get(c, None if cls in 'xo' else False)
        return None if v is None else (v == (t[1] == 'eq'))
    if t[0] == 'lambda':
        for g, d in t[-1] if isinstance(t[-1], tuple) else ():
            vs = [(char_holds(f, cls, var), v) for f, v in g]
            if any(a is None for a, v in vs):
                return None
            if all(a == v for a, v in vs):
                return char_holds(d[0] if isinstance(d, tuple) and not isinstance(d, T) else d, cls, var)
    return None


@rule('C13', 'the spelling helpers: capitalising changes the first letter only, pascal case capitalises every word and drops the spaces, sanitising leaves only characters an identifier can hold, and spaces')
def spelling_helpers(R):
    for name, op in (('upper_first_letter', 'upper1'), ('lower_first_letter', 'lower1')):
        k, r = helper(R, name)
        for o in r.rets:
            ps = pieces_of(o.val, 'str')
            emp = any(f[0] == 'app' and f[1] == 'empty' and v is True for f, v in o.facts.items())
            if emp:
                R.check(ps == (), f'{name} of nothing is nothing', k, show(o.val)[:200])
                continue
            ap = [x for x in ps if x[0] == 'app']
            if len(ap) != len(ps) or not ps or not all(x[1] in ('upper1', 'lower1', 'skipchars', 'nth', 'first', 'chars', 'char_to_ascii_uppercase', 'char_to_ascii_lowercase') or x[1].endswith('first_letter') for x in ps):
                R.undecided(name, show(o.val)[:300])
                continue
            good = len(ps) == 2 and ps[0][1] == op and app(ps[0][2], 'nth') and ps[0][2][3] is mk('int', 0) and ps[1][1] == 'skipchars' and ps[1][3] is mk('int', 1)
            R.check(good, f'{name} changes the case of the first letter and nothing else', k, show(o.val)[:300])
    k, r = helper(R, 'to_pascal_case')
    for o in r.rets:
        s = spelled(o.val, mk('sym', 'sentence'))
        if any(isinstance(y, tuple) and y[0] == 'unread' for y in s):
            R.undecided('to_pascal_case', show(o.val)[:300])
        else:
            R.check(s == [('w', 0, '..')], 'pascal case is every word in order, capitalised', k, s)
    k, r = helper(R, 'sanitize')
    for o in r.rets:
        t = o.val
        subst = []
        while app(t, 'str_replace'):
            subst.insert(0, (t[3], t[4]))
            t = t[2]
        if t[0] != 'sym' or not subst:
            R.undecided('sanitize', show(o.val)[:300])
            continue
        for cls, want in (('-', '_'), (' ', ' '), ('x', 'x'), ('o', '')):
            got = cls
            for pat, rep in subst:
                if got == '':
                    break
                if pat[0] in ('str', 'char'):
                    c = pat[1] if pat[0] == 'str' else (chr(pat[1]) if isinstance(pat[1], int) else pat[1])
                    hit = c == got
                else:
                    hit = char_holds(pat, 'x' if got == '_' else got, None)
                if hit is None:
                    got = None
                    break
                if hit:
                    got = rep[1] if rep[0] == 'str' else None
            if got is None:
                R.undecided('sanitize', f'{cls!r}: {show(o.val)[:300]}')
            else:
                R.check(got == want, f'sanitize maps a character of class {cls!r} to {want!r}', k, got)
