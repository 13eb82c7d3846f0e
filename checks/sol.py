"""HIR -> Solidity text: the translator to the parse tree and the formatter.  Entry point:
`bulloak_foundry::scaffold::scaffold` with the tree -> HIR half and the printing half as boundaries,
and the Visitor methods of the formatter."""
from .base import *
from .util import *

HDOM = ('Root', 'ContractDefinition', 'FunctionDefinition', 'Comment', 'Statement')
TEXT, CFG = mk('sym', 'text'), mk('sym', 'cfg')
SKIPM, VER, VMSKIP = (getf(CFG, None, n) for n in ('skip_modifiers', 'solidity_version', 'emit_vm_skip'))


def offset_get(eng, st, name, args, ctx, site, rty):
    return [(st, mk('sym', 'offset'))]


def offset_set(eng, st, name, args, ctx, site, rty):
    return [(st, UNIT)]


# byte offsets of the emitted nodes are not tracked: every read is an unknown number
CELLS = {f'std::cell::Cell::<T>::{m}': h for m, h in (('get', offset_get), ('set', offset_set))}


def pt_run(R):
    """[(outcome, HIR root children or None, parts of the source unit)]"""
    if getattr(R, '_pt', None):
        return R._pt
    tr, emit = R.anchor('bulloak_foundry::hir::translate'), R.anchor('bulloak_foundry::sol::fmt::Formatter::emit')
    op = {**CELLS, tr: None, emit: None, 'bulloak_syntax::utils::sanitize': 'pure'}
    e = R.engine(opaque=op)
    e.SPLIT = 100
    k = R.anchor('bulloak_foundry::scaffold::scaffold')
    r = R.analyse(k, eng=e)
    out, R._ptall = [], r
    hir = getf(mkapp(tr, TEXT, CFG), 'Ok', '0')
    for o in r.rets:
        if variant_is(o.facts, mkapp(tr, TEXT, CFG), 'Ok') is not True or not variant_is(o.facts, hir, 'Root'):
            continue
        es = [x for x, g, p in walk(o.log) if x[0] == 'call' and x[1] == emit]
        if len(es) != 1:
            raise Undecided('calls of Formatter::emit: %d' % len(es))
        su = rec(es[0][2][1][-1], 'SourceUnit')
        if su is None:
            raise Undecided('source unit: ' + show(es[0][2])[:200])
        out.append((o, getf(getf(hir, 'Root', '0'), None, 'children'), flat(su['0'])))
    if not out:
        raise Undecided('no outcome of scaffold formats a source unit')
    R._pt = out
    R._ptw = k
    return out


def ctor(p, v):
    if p[0] != 'one':
        return None
    return rec(p[1], v)


def name_of(t):
    """Some(Identifier(name)) or Identifier -> name"""
    s = rec(t, 'Some')
    t = s['0'] if s else t
    i = rec(t, 'Identifier')
    return i['name'] if i else None


def strlit(t):
    s = rec(t, 'Some')
    t = s['0'] if s else t
    i = rec(t, 'StringLiteral')
    return i['string'] if i else None


def group(R):
    """[(outcome, contracts piece, [other parts])]"""
    out = []
    for o, kids, ps in pt_run(R):
        cs = [p for p in ps if p[0] != 'one']
        if len(cs) != 1 or cs[0][0] != 'each' or not (src_of(cs[0]) is kids or reordering(src_of(cs[0]), kids)):
            R.undecided('contracts of the source unit', show(mk('S', 'vec', tuple(cs)))[:300])
            continue
        out.append((o, kids, cs[0], [p for p in ps if p[0] == 'one'], ps))
    return out




def contracts(R, obligations=True):
    """[(outcome, guards, HIR contract, fields of the Solidity contract)]"""
    out = []
    for o, kids, c, ones, ps in group(R):
        if obligations:
            R.check(src_of(c) is kids, 'the contracts of the HIR are emitted in order', R._ptw, show(c)[:300])
        for gs, d in by_variant(c, HDOM)['ContractDefinition']:
            h = getf(c[1], 'ContractDefinition', '0')
            if not d:
                if obligations:
                    R.bad('every contract of the HIR is emitted', R._ptw, gshow(gs))
                continue
            f = inner(d[0][1], 'ContractDefinition') if d[0][0] == 'one' else None
            if f is None or len(d) != 1:
                R.undecided('a contract', show(mk('S', 'vec', d))[:300])
                continue
            out.append((o, gs, h, f))
    if not out:
        raise Undecided('no contract in the source unit')
    return out


def parts(R, obligations=True):
    """[(facts, HIR function, kind, data)] for every function of every contract"""
    out = []
    for o, gs, h, f in contracts(R, obligations):
        hk = getf(h, None, 'children')
        ps = flat(f['parts'])
        if len(ps) != 1 or ps[0][0] != 'each' or not (src_of(ps[0]) is hk or reordering(src_of(ps[0]), hk)):
            R.undecided('parts of a contract', show(mk('S', 'vec', ps))[:300])
            continue
        if obligations:
            R.check(src_of(ps[0]) is hk, 'the functions of the HIR are emitted in order', R._ptw, show(ps[0])[:300])
        hf = getf(ps[0][1], 'FunctionDefinition', '0')
        for g2, d in by_variant(ps[0], HDOM)['FunctionDefinition']:
            facts = {**o.facts, **gs, **g2}
            for ty in ('Function', 'Modifier'):
                if variant_is(facts, getf(hf, None, 'ty'), ty) is not False:
                    out.append((facts, hf, ty, d))
    if not out:
        raise Undecided('no function in the contracts')
    return out


@rule('C15', 'every contract and every test function of the HIR becomes a contract / function with the same name, in the same order')
def functions_kept(R):
    for o, gs, h, f in contracts(R):
        R.check(name_of(f['name']) is getf(h, None, 'identifier'), 'the contract keeps its name', R._ptw, show(f['name'])[:300])
    n = 0
    for facts, hf, ty, d in parts(R):
        if ty == 'Function' or facts.get(SKIPM) is False:
            n += 1
            R.check(bool(d), f'a {ty.lower()} of the HIR is emitted', R._ptw, gshow(facts)[-500:])
        if not d:
            continue
        f = inner(d[0][1], 'FunctionDefinition') if d[0][0] == 'one' else None
        if f is None or len(d) != 1:
            R.undecided('a function', show(mk('S', 'vec', d))[:300])
            continue
        R.check(name_of(f['name']) is getf(hf, None, 'identifier'), f'a {ty.lower()} keeps its name', R._ptw, show(f['name'])[:300])
        R.check(f['ty'][0] != 'adt' or f['ty'][2] == ty, f'a {ty.lower()} stays a {ty.lower()}', R._ptw, show(f['ty'])[:200])
    need = 2
    if n < need:
        R.undecided('functions', f'{n} alternatives found')


@rule('C16', 'with --skip-modifiers no modifier definition is emitted, without it every one is; test functions and their modifier lists do not depend on it')
def skip_modifiers(R):
    seen = set()
    per = {}
    for facts, hf, ty, d in parts(R, False):
        v = facts.get(SKIPM)
        if ty == 'Modifier':
            if v is None:
                R.bad('whether a modifier is emitted depends on the option', R._ptw, gshow(facts)[-400:])
                continue
            seen.add(v)
            R.check(bool(d) is (not v), f'modifier definitions are {"left out" if v else "emitted"} when the option is {"on" if v else "off"}', R._ptw, gshow(facts)[-400:])
        else:
            R.check(bool(d) or v is False, 'a test function is emitted whatever the option', R._ptw, gshow(facts)[-400:])
            rest = frozenset((f, x) for f, x in facts.items() if f is not SKIPM)
            per.setdefault(rest, set()).add(mk('S', 'vec', d))
    R.check(seen == {True, False}, 'both settings of the option are handled', R._ptw, seen)
    for rest, ds in per.items():
        R.check(len(ds) == 1, 'a test function is the same with and without the option', R._ptw, len(ds))


def fn_fields(R):
    for facts, hf, ty, d in parts(R, False):
        if not d:
            continue
        f = inner(d[0][1], 'FunctionDefinition') if d[0][0] == 'one' else None
        if f is not None and len(d) == 1:
            yield facts, hf, ty, f


@rule('C15', 'a test function is external and carries exactly the modifiers of its HIR node, in order, whether or not their definitions are emitted')
def attributes(R):
    n = 0
    for facts, hf, ty, f in fn_fields(R):
        at = flat(f['attributes'])
        mods = getf(hf, None, 'modifiers')
        if ty == 'Modifier':
            R.check(at == (), 'a modifier definition has no attributes', R._ptw, show(f['attributes'])[:300])
            continue
        n += 1
        vis = ctor(at[0], 'Visibility') if at else None
        R.check(vis is not None and rec(vis['0'], 'External') is not None, 'a test function is external', R._ptw, show(f['attributes'])[:300])
        rest = at[1:]
        some = variant_is(facts, mods, 'Some')
        if some is None:
            R.undecided('modifiers of a function', gshow(facts)[-300:])
            continue
        ml = getf(mods, 'Some', '0')
        if not some or (not rest and facts.get(mkapp('empty', ml)) is True):
            R.check(rest == (), 'a function without modifiers gets none', R._ptw, show(f['attributes'])[:300])
            continue
        if not rest:
            R.bad('the modifiers of a function are emitted', R._ptw, gshow(facts)[-300:])
            continue
        if len(rest) != 1 or rest[0][0] != 'each' or not (src_of(rest[0]) is ml or reordering(src_of(rest[0]), ml)):
            R.undecided('modifiers of a function', show(mk('S', 'vec', rest))[:300])
            continue
        R.check(src_of(rest[0]) is ml, 'the modifiers of a function are all emitted, in order', R._ptw, show(rest[0])[:300])
        for g, d in rest[0][2]:
            b = ctor(d[0], 'BaseOrModifier') if len(d) == 1 else None
            try:
                ids = flat(rec(rec(b['1'], 'Base')['name'], 'IdentifierPath')['identifiers'])
                nm = name_of(ids[0][1]) if len(ids) == 1 else None
            except Exception:
                nm = None
            if nm is None:
                R.check(bool(d), 'no modifier of a function is dropped', R._ptw, show(rest[0])[:300])
                if d:
                    R.undecided('a modifier of a function', show(mk('S', 'vec', d))[:300])
            else:
                R.check(nm is rest[0][1], 'a modifier is emitted under its own name', R._ptw, show(nm)[:200])
    if not n:
        R.undecided('functions', 'none found')


CNAME = []


def stmt_kind(R, p, e):
    """('comment', lexeme) / ('skip',) / None of an emitted statement"""
    v = ctor(p, 'VariableDefinition')
    if v:
        x = rec(v['2'], 'Some')
        lit = rec(x['0'], 'StringLiteral') if x else None
        ls = flat(lit['0']) if lit else ()
        decl = rec(v['1'], 'VariableDeclaration')
        nm = name_of(decl['name']) if decl else None
        if len(ls) == 1 and nm is not None:
            CNAME.append((nm, decl['ty']))
            return ('comment', strlit(ls[0][1]))
        if decl and rec(decl['ty'], 'Variable') and name_of(rec(decl['ty'], 'Variable')['0']) is STR('_'):
            return ('_',)
        return None
    v = ctor(p, 'Expression')
    if v:
        c = rec(v['1'], 'FunctionCall')
        m = rec(c['1'], 'MemberAccess') if c else None
        if m:
            ob = rec(m['1'], 'Variable')
            args = flat(c['2'])
            a = ctor(args[0], 'BoolLiteral') if len(args) == 1 else None
            if ob and a:
                return ('call', name_of(ob['0']), name_of(m['2']), a['1'])
    return None


@rule('C15', 'the body of a test function is, for each comment and statement of its HIR node in order, that comment with its text unchanged, that statement; the body of a modifier is the placeholder')
def bodies(R):
    n = 0
    for facts, hf, ty, f in fn_fields(R):
        b = rec(f['body'], 'Some')
        b = rec(b['0'], 'Block') if b else None
        if b is None:
            R.undecided('body', show(f['body'])[:200])
            continue
        st = flat(b['statements'])
        if ty == 'Modifier':
            R.check(len(st) == 1 and stmt_kind(R, st[0], None) == ('_',), 'a modifier has the placeholder as its body', R._ptw, show(b['statements'])[:300])
            continue
        kids = getf(hf, None, 'children')
        some = variant_is(facts, kids, 'Some')
        kl = getf(kids, 'Some', '0')
        if some is False or (some and not st and facts.get(mkapp('empty', kl)) is True):
            R.check(st == (), 'an empty function has no statements', R._ptw, show(b['statements'])[:300])
            continue
        if not st:
            R.bad('the statements of a function are emitted', R._ptw, gshow(facts)[-400:])
            continue
        if some is None or len(st) != 1 or st[0][0] != 'each' or not (src_of(st[0]) is kl or reordering(src_of(st[0]), kl)):
            R.undecided('body of a function', show(b['statements'])[:300])
            continue
        n += 1
        R.check(src_of(st[0]) is kl, 'the comments and statements of a function are all emitted, in order', R._ptw, show(st[0])[:300])
        bv = by_variant(st[0], HDOM)
        e = st[0][1]
        for g, d in bv['Comment']:
            if not d:
                R.bad('a comment of the HIR is emitted', R._ptw, gshow(g))
                continue
            k = stmt_kind(R, d[0], e) if len(d) == 1 else None
            if not k:
                R.undecided('a comment', show(mk('S', 'vec', d))[:300])
            else:
                R.check(k == ('comment', getf(getf(e, 'Comment', '0'), None, 'lexeme')), 'a comment is emitted with its text unchanged', R._ptw, k)
        for g, d in bv['Statement']:
            if not d:
                R.bad('a statement of the HIR is emitted', R._ptw, gshow(g))
                continue
            k = stmt_kind(R, d[0], e) if len(d) == 1 else None
            if not k:
                R.undecided('a statement', show(mk('S', 'vec', d))[:300])
            else:
                R.check(k == ('call', STR('vm'), STR('skip'), TRUE), 'the skip statement is vm.skip(true)', R._ptw, k)
    if not n:
        R.undecided('bodies', 'no function body found')


def heads(R):
    for o, kids, c, ones, ps in group(R):
        yield o, [ctor(p, 'PragmaDirective') for p in ones if ctor(p, 'PragmaDirective')], [ctor(p, 'ImportDirective') for p in ones if ctor(p, 'ImportDirective')], ones, ps


@rule('C16', 'the file has exactly one pragma, before everything else, with the configured version')
def pragma(R):
    for o, pr, im, ones, ps in heads(R):
        if any(ctor(p, 'PragmaDirective') is None and ctor(p, 'ImportDirective') is None for p in ones):
            R.undecided('head of the file', show(mk('S', 'vec', tuple(ones)))[:300])
            continue
        if R.check(len(pr) == 1 and ctor(ps[0], 'PragmaDirective') is not None, 'the file starts with one pragma', R._ptw, len(pr)):
            R.check(name_of(pr[0]['1']) is STR('solidity') and strlit(pr[0]['2']) is VER, 'the pragma is solidity with the configured version', R._ptw, show(pr[0]['2'])[:200])


@rule('C14', 'the file imports forge-std\'s Test, and every contract inherits it, exactly when the skip option is set')
def test_import(R):
    for o, pr, im, ones, ps in heads(R):
        v = o.facts.get(VMSKIP)
        if v is None:
            R.bad('the import depends on the skip option', R._ptw, show_facts(o.facts)[:300])
            continue
        R.check(len(im) == (1 if v else 0), f'with the skip option {"on" if v else "off"} there is {"one" if v else "no"} import', R._ptw, len(im))
        for i in im:
            t = show(i['0'])
            R.check("'forge-std/Test.sol'" in t and "name: 'Test'" in t, 'the import is Test from forge-std/Test.sol', R._ptw, t[:300])
    for o, gs, h, f in contracts(R, False):
        v = o.facts.get(VMSKIP)
        b = flat(f['base'])
        if v is None:
            continue
        names = []
        for p in b:
            try:
                names.append(name_of(flat(rec(rec(p[1], 'Base')['name'], 'IdentifierPath')['identifiers'])[0][1]))
            except Exception:
                names.append(None)
        R.check(names == ([STR('Test')] if v else []), f'with the skip option {"on" if v else "off"} a contract inherits {"Test" if v else "nothing"}', R._ptw, names)


@rule('C15', '`scaffold` returns the formatted print of exactly the source unit built from its input; an unparsable tree or an unformattable text is an error')
def pipeline(R):
    pt_run(R)
    r = R._ptall
    n = 0
    for o in r.rets:
        ok = rec(o.val, 'Ok')
        calls = {e[1]: e for e, g, p in walk(o.log) if e[0] == 'call'}
        tr = [c for c in calls if c.endswith('hir::translate')]
        for c in tr:
            R.check(calls[c][2] is mk('tup', (TEXT, CFG)), 'the HIR is built from the given text and configuration', R._ptw, show(calls[c][2])[:200])
            t = mkapp(c, TEXT, CFG)
            if variant_is(o.facts, t, 'Err') is True:
                R.check(ok is None, 'an error of the tree is returned', R._ptw, show_facts(o.facts)[:300])
        if not tr and ok:
            R.bad('no text without translating the tree', R._ptw, show(o.val)[:300])
        if ok and tr:
            n += 1
            em = [c for c in calls if c.endswith('Formatter::emit')]
            if not em:
                R.undecided('result', show(ok['0'])[:300])
                continue
            R.check(mentions(ok['0'], mkapp(em[0], *calls[em[0]][2][1])), 'the text returned is the print of the source unit', R._ptw, show(ok['0'])[:200])
    for o in r.panics:
        R.bad('no panic between the tree and the text', o.where, o.what)
    if not n:
        R.undecided('pipeline', 'no successful outcome')


# ------------------------------------------------------------------ printing

def fmt_run(R, name):
    """Outcomes of one visit method of the formatter, the others being boundaries that return Ok."""
    ks = [x for x in R.p.bodies if x.startswith('<bulloak_foundry::sol::fmt::Formatter as') and '{' not in x]
    mine = [k for k in ks if k.endswith('::' + name)]
    if len(mine) != 1:
        raise Undecided('anchor not found: Formatter::' + name)

    def h(eng, st, nm, args, ctx, site, rty):
        t = mkapp(nm.split('::')[-1], *[eng.freeze(st, a) for a in args[1:]])
        return [(st, OK(t))]
    e = R.engine(opaque={**{k: h for k in ks}, 'bulloak_syntax::utils::sanitize': 'pure'})
    e.SPLIT = 100
    r = R.analyse(mine[0], eng=e)
    out = []
    for o in r.rets:
        v = rec(o.val, 'Ok')
        if v is None:
            R.bad('printing never fails', mine[0], show_facts(o.facts)[:300])
        else:
            out.append((o, v['0']))
    for o in r.panics:
        R.bad('printing never panics', o.where, o.what)
    if not out:
        raise Undecided('no outcome of ' + name)
    return mine[0], out


def items(v):
    """The text as a list of constants (str), terms and ('each', source, alternatives, separator)."""
    out = []
    if v[0] == 'str':
        return [v[1]]
    for p in pieces_of(v, 'str') if v[0] == 'S' else (v,):
        if p[0] == 'str':
            out.append(p[1])
        elif p[0] == 'each':
            out.append(('each', src_of(p), p, ''))
        elif p[0] in ('one', 'all'):
            out += items(p[1])
        elif app(p, 'join'):
            for q in flat(p[2]):
                if q[0] == 'each':
                    out.append(('each', src_of(q), q, p[3][1] if p[3][0] == 'str' else None))
                elif q[0] == 'one':
                    out += items(q[1])
                else:
                    out.append(q)
        elif p[0] == 'S':
            out += items(p)
        else:
            out.append(p)
    return out


def each_ok(it, src, inside):
    """every alternative of the each item yields something that mentions inside(elem)"""
    if not (isinstance(it, tuple) and it and it[0] == 'each'):
        return None
    if it[1] is not src:
        return False if it[1] is not None and reordering(it[1], src) else None
    want = inside(it[2][1])
    return all(d and mentions(mk('S', 'vec', d), want) for g, d in it[2][2])


CHANGES = ('str_replace', 'str_replacen', 'str_trim_start_matches', 'str_trim_end_matches', 'str_trim_matches', 'str_to_lowercase', 'str_to_uppercase',
           'str_to_ascii_lowercase', 'str_to_ascii_uppercase', 'slice', 'skipchars')


def changed(x, t):
    """the parts of a text that are t with some characters changed or cut off"""
    return [y for y in find_terms(x, lambda y: y[0] == 'app' and (y[1] in CHANGES or lossy(y))) if mentions(y, t)]


def has_each(R, its, src, inside, what, where):
    rs = [each_ok(x, src, inside) for x in its]
    for x, r in zip(its, rs):
        if r:
            ch = changed(mk('S', 'vec', tuple(y for g, d in x[2][2] for y in d)), inside(x[2][1]))
            R.check(not ch, what + ', unchanged', where, lambda: [show(y)[:200] for y in ch])
        elif isinstance(x, tuple) and x and x[0] == 'all' and lossy(x[1]) and mentions(x[1], src):
            R.bad(what, where, show(x[1])[:300])
            return None
    if True in rs:
        R.ok(what, where)
    elif False in rs:
        R.bad(what, where, [show(x[2])[:300] for x, r in zip(its, rs) if r is False])
    elif any(mentions(x, src) for x in its if isinstance(x, tuple) and isinstance(x, T)):
        R.undecided(what, [str(x)[:100] for x in its])
    else:
        R.bad(what, where, 'not in the text')
    return next((x for x, r in zip(its, rs) if r), None)


def text_has(R, its, t, what, where):
    for x in its:
        if isinstance(x, T) and mentions(x, t):
            R.check(not changed(x, t), what + ', unchanged', where, show(x)[:200])
    R.check(any(isinstance(x, tuple) and mentions(x if isinstance(x, T) else x[2], t) for x in its), what, where, lambda: [show(x)[:80] if isinstance(x, T) else str(x)[:80] for x in its])


def in_order(its, *keys):
    """positions of the first item satisfying each key, or None"""
    pos = []
    for k in keys:
        ns = [i for i, x in enumerate(its) if k(x)]
        pos.append(ns[0] if ns else -1)
    return pos


@rule('C15', 'the formatter prints every part of the source unit, of a contract and of a block, in order, each name, attribute and body of a function, and each statement on a line of its own')
def printing(R):
    w, outs = fmt_run(R, 'visit_source_unit')
    su = getf(mk('sym', 'source_unit'), None, '0')
    for o, v in outs:
        has_each(R, items(v), su, lambda e: e, 'every part of the source unit is printed, in order', w)
    w, outs = fmt_run(R, 'visit_source_unit_part')
    part = mk('sym', 'part')
    for o, v in outs:
        for n in ('PragmaDirective', 'ImportDirective', 'ContractDefinition'):
            if variant_is(o.facts, part, n) is not False:
                text_has(R, items(v), getf(part, n, '0') if n == 'ContractDefinition' else part, f'a {n} is printed', w)
                if n == 'PragmaDirective':
                    R.check(any(isinstance(x, str) and x.startswith('// SPDX-License-Identifier:') for x in items(v)[:1]), 'the licence line comes first', w, show(v)[:200])
    w, outs = fmt_run(R, 'visit_contract')
    c = mk('sym', 'contract')
    for o, v in outs:
        its = items(v)
        if variant_is(o.facts, getf(c, None, 'name'), 'Some') is not False:
            text_has(R, its, getf(getf(c, None, 'name'), 'Some', '0'), 'the name of a contract is printed', w)
        base = getf(c, None, 'base')
        if o.facts.get(mkapp('empty', base)) is not True:
            has_each(R, its, base, lambda e: e, 'the bases of a contract are printed', w)
        has_each(R, its, getf(c, None, 'parts'), lambda e: e, 'every part of a contract is printed, in order', w)
    w, outs = fmt_run(R, 'visit_contract_part')
    for o, v in outs:
        if variant_is(o.facts, part, 'FunctionDefinition') is not False:
            text_has(R, items(v), getf(part, 'FunctionDefinition', '0'), 'a function of a contract is printed', w)
    w, outs = fmt_run(R, 'visit_function')
    f = mk('sym', 'function')
    for o, v in outs:
        its = items(v)
        text_has(R, its, getf(f, None, 'ty'), 'the kind of a function is printed', w)
        if variant_is(o.facts, getf(f, None, 'name'), 'Some') is not False:
            text_has(R, its, getf(getf(f, None, 'name'), 'Some', '0'), 'the name of a function is printed', w)
        at = getf(f, None, 'attributes')
        if o.facts.get(mkapp('empty', at)) is not True:
            has_each(R, its, at, lambda e: e, 'every attribute of a function is printed, in order', w)
        if variant_is(o.facts, getf(f, None, 'body'), 'Some') is not False:
            text_has(R, its, getf(getf(f, None, 'body'), 'Some', '0'), 'the body of a function is printed', w)
    w, outs = fmt_run(R, 'visit_statement')
    s = mk('sym', 'statement')
    for o, v in outs:
        its = items(v)
        if variant_is(o.facts, s, 'Block') is not False:
            st = getf(s, 'Block', 'statements')
            if o.facts.get(mkapp('empty', st)) is True:
                continue
            it = has_each(R, its, st, lambda e: e, 'every statement of a block is printed, in order', w)
            if it:
                nl = '\n'
                inside = all(d and d[-1][0] == 'str' and d[-1][1].endswith(nl) for g, d in it[2][2])
                R.check(inside or it[3] is None or nl in it[3], 'statements are printed on lines of their own', w, repr(it[3]))
                i = its.index(it)
                nonempty = o.facts.get(mkapp('empty', mk('S', 'vec', (it[2],)))) is False
                if nonempty:
                    R.check(inside or isinstance(its[i + 1], str) and its[i + 1].startswith(nl), 'the last statement ends its line', w, its[i + 1:])
        elif variant_is(o.facts, s, 'Expression') is not False:
            text_has(R, its, getf(s, 'Expression', '1'), 'an expression statement is printed', w)
        else:
            text_has(R, its, s, 'any other statement is printed', w)
    w, outs = fmt_run(R, 'visit_expr')
    x = mk('sym', 'expression')
    for o, v in outs:
        its = items(v)
        if variant_is(o.facts, x, 'FunctionCall') is not False:
            text_has(R, its, x, 'a call is printed', w)
            if variant_is(o.facts, x, 'FunctionCall'):
                R.check(isinstance(its[-1], str) and its[-1].endswith(';'), 'a call statement ends in a semicolon', w, show(v)[:200])


@rule('C15', 'comments are restored from their disguise: the pattern applied to the printed text matches the disguise the translator builds, for every text of the comment, and puts that text behind `//`')
def comments_restored(R):
    import re
    CNAME.clear()
    saved = R.obs, R.seen, R.nchecks
    R.obs, R.seen = [], set()
    try:
        bodies(R)
    finally:
        R.obs, R.seen, R.nchecks = saved
    names = {n[1] for n, ty in CNAME if n[0] == 'str'}
    if len(names) != 1:
        raise Undecided(f'name of the disguised variable: {names}')
    for n, ty in CNAME:
        R.check(rec(ty, 'Type') is not None and rec_is(rec(ty, 'Type')['1'], 'String'), 'the disguise is a string variable', R._ptw, show(ty)[:100])
    ks = [x for x in R.p.bodies if x.startswith('<bulloak_foundry::sol::fmt::Formatter as') and x.endswith('::visit_source_unit')]
    emit = R.anchor('bulloak_foundry::sol::fmt::Formatter::emit')

    def h(eng, st, nm, args, ctx, site, rty):
        return [(st, OK(mk('sym', 'printed')))]
    r = R.analyse(emit, opaque={ks[0]: h})
    n = 0
    for o in r.rets:
        cur, subs = o.val, []
        while app(cur, 'regex::regex::string::Regex::replace_all') or (cur[0] == 'app' and cur[1].endswith('to_string')):
            if app(cur, 'regex::regex::string::Regex::replace_all'):
                subs.append((cur[2], cur[4]))
                cur = cur[3]
            else:
                cur = cur[2]
        if o.val is mk('sym', 'printed'):
            R.bad('the comments of every text are restored', emit, show_facts(o.facts)[:300])
            continue
        if cur is not mk('sym', 'printed') or not subs:
            R.undecided('restoring comments', show(o.val)[:300])
            continue
        for var in names:
            for pat, repl in subs[::-1]:
                if not app(pat, 'regex') or pat[2][0] != 'str' or repl[0] != 'str':
                    R.undecided('pattern', show(pat)[:200])
                    continue
                n += 1
                p = pat[2][1]
                rp = re.sub(r'\$\{?(\w+)\}?', r'\\g<\1>', repl[1])
                good = True
                for text in ('x', 'it says "hi"', 'a; b', '";', 'a "b"; c', '`f(a, b)`', 'é ∅', '', '$1 \\ {', "string x = 1;", '// y'):
                    line = f'string {var} = "{text}";'
                    for src in (line, '{\n' + line + '\n' + line + '\n}'):
                        try:
                            got = re.sub(p, rp, src)
                        except re.error as x:
                            raise Undecided(f'pattern {p}: {x}')
                        good = good and got == src.replace(line, '// ' + text)
                R.check(good, 'the pattern turns exactly the disguised comments into `// text`', emit, p)
    if not n:
        R.undecided('restoring comments', 'no pattern found')


def rec_is(t, v):
    return isinstance(t, tuple) and t and t[0] == 'adt' and t[2] == v


# ------------------------------------------------------------------ the emitter of check --fix

HIR = mk('sym', 'hir')
HFN = getf(HIR, 'FunctionDefinition', '0')


def tokens(v):
    """Constants cut into words and signs (white space dropped), terms, each items."""
    import re
    out = []
    for x in items(v):
        if isinstance(x, str):
            out += re.findall(r'//|\w+|[^\w\s]', x)
        elif isinstance(x, T) and app(x, 'str_repeat') and blank(x):
            continue
        else:
            out.append(x)
    return out


def blank(x):
    t = x[2]
    return (t[0] == 'str' and not t[1].strip()) or (app(t, 'str_repeat') and blank(t))


@rule('C17', 'the text emitted for a function of the HIR has the same words as the one scaffold generates: kind, name, external, every modifier in order, every comment and statement of the body in order')
def emitted_function(R):
    k = R.anchor('bulloak_foundry::scaffold::emitter::Emitter::emit')
    e = R.engine(opaque={'bulloak_syntax::utils::sanitize': 'pure'})
    e.SPLIT = 100
    r = R.analyse(k, eng=e)
    name, mods, kids = (getf(HFN, None, n) for n in ('identifier', 'modifiers', 'children'))
    n = set()
    for o in r.rets:
        if not variant_is(o.facts, HIR, 'FunctionDefinition'):
            continue
        tk = tokens(o.val)
        for ty in ('Function', 'Modifier'):
            if variant_is(o.facts, getf(HFN, None, 'ty'), ty) is False:
                continue
            n.add(ty)
            if ty == 'Modifier':
                R.check(tk == ['modifier', name, '(', ')', '{', '_', ';', '}'], 'a missing modifier is emitted with the placeholder body', k, lambda: [show(x)[:80] if isinstance(x, T) else str(x)[:80] for x in tk])
                continue
            hasm, hask = variant_is(o.facts, mods, 'Some'), variant_is(o.facts, kids, 'Some')
            if hasm is None or hask is None:
                R.undecided('function', show_facts(o.facts)[:300])
                continue
            ml, kl = getf(mods, 'Some', '0'), getf(kids, 'Some', '0')
            want = ['function', name, '(', ')', 'external']
            if hasm and not (o.facts.get(mkapp('empty', ml)) is True and not any(isinstance(x, tuple) and x[0] == 'each' and x[1] is ml for x in tk)):
                want.append(('mods', ml))
            want.append('{')
            if hask and not (o.facts.get(mkapp('empty', kl)) is True and not any(isinstance(x, tuple) and x[0] == 'each' and x[1] is kl for x in tk)):
                want.append(('kids', kl))
            want.append('}')
            match_tokens(R, tk, want, k)
    for o in r.panics:
        if variant_is(o.facts, HIR, 'FunctionDefinition') is not False:
            R.bad('emitting a function never panics', o.where, o.what)
    if n != {'Function', 'Modifier'}:
        R.undecided('functions', n)


def match_tokens(R, tk, want, k):
    desc = lambda: [show(x)[:80] if isinstance(x, T) else str(x)[:160] for x in tk]
    for x in tk:
        if isinstance(x, tuple) and x[0] == 'each' and not any(isinstance(y, tuple) and not isinstance(y, T) and (x[1] is y[1] or reordering(x[1], y[1])) for y in want):
            R.undecided('emitted function', desc())
            return
        if isinstance(x, T) and x[0] == 'app' and x not in want:
            R.undecided('emitted function', desc())
            return
    if not R.check(len(tk) == len(want), 'a missing function is emitted with the same parts as scaffold gives it', k, desc):
        return
    for x, y in zip(tk, want):
        if isinstance(y, str) or isinstance(y, T):
            R.check(x == y if isinstance(y, str) else x is y, 'a missing function is emitted with the same words as scaffold gives it', k, desc)
            continue
        if not R.check(isinstance(x, tuple) and x[0] == 'each' and x[1] is y[1], f'all {"modifiers" if y[0] == "mods" else "comments and statements"} of a missing function are emitted, in order', k, desc):
            continue
        e = x[2][1]
        if y[0] == 'mods':
            for g, d in x[2][2]:
                R.check([t for t in tokens(mk('S', 'str', d))] == [e], 'each modifier is emitted by name', k, show(x[2])[:300])
                R.check(spaced(d, e), 'modifiers are separated', k, show(x[2])[:300])
            continue
        bv = by_variant(x[2], HDOM)
        for g, d in bv['Comment']:
            lex = getf(getf(e, 'Comment', '0'), None, 'lexeme')
            R.check(tokens(mk('S', 'str', d)) == ['//', lex], 'a comment is emitted as `// text`', k, show(mk('S', 'str', d))[:200])
            its = items(mk('S', 'str', d))
            R.check(bool(its) and isinstance(its[-1], str) and its[-1].endswith('\n'), 'a comment ends its line', k, show(mk('S', 'str', d))[:200])
        for g, d in bv['Statement']:
            R.check(tokens(mk('S', 'str', d)) == ['vm', '.', 'skip', '(', 'true', ')', ';'], 'the skip statement is emitted as vm.skip(true)', k, show(mk('S', 'str', d))[:200])


def spaced(d, e):
    its = items(mk('S', 'str', d))
    ok = lambda x: isinstance(x, str) and x != x.strip() or isinstance(x, T) and app(x, 'str_repeat')
    return bool(its) and (ok(its[0]) or ok(its[-1])) and len(its) > 1


@rule('C17', 'the emitted text is put into the source at the given offset as it is (white space around it aside), and nothing else of the source changes')
def inserted_function(R):
    k = R.anchor('bulloak_foundry::check::context::Context::insert_function_at')
    em = R.anchor('bulloak_foundry::scaffold::emitter::Emitter::emit')
    r = R.analyse(k, opaque={em: 'pure'})
    SELF, OFF = mk('sym', 'self'), mk('sym', 'offset')
    src = getf(SELF, None, 'src')
    n = 0
    for o in r.rets:
        me = o.st.store.get(('arg', 'self'))
        me = r.eng.freeze(o.st, me) if me is not None else SELF
        new = r.eng.getpath(me, 'src') if hasattr(r.eng, 'getpath') else getf(me, None, 'src')
        its = items(new)
        if len(its) == 1 and its[0] is src:
            R.bad('the function is inserted', k, show_facts(o.facts)[:300])
            continue
        if len(its) < 3 or not all(isinstance(x, (str, T)) for x in its):
            R.undecided('inserted text', show(new)[:300])
            continue
        pre, post = sliced(its[0], src), sliced(its[-1], src)
        for w, x in (('before', its[0]), ('behind', its[-1])):
            if isinstance(x, T) and (changed(x, src) and not sliced(x, src) and x[0] == 'app' and sliced(x[2], src) or x[0] == 'app' and x[1].startswith('str_trim') and sliced(x[2], src)):
                R.bad(f'the source {w} the offset is kept as it is', k, show(new)[:300])
        if not pre or not post:
            R.undecided('inserted text', show(new)[:300])
            continue
        R.check(pre == (mk('int', 0), OFF), 'the source before the offset is kept as it is', k, show(new)[:300])
        R.check(post == (OFF, mkapp('len', src)), 'the source behind the offset is kept as it is', k, show(new)[:300])
        mid = its[1:-1]
        words = [x for x in mid if not (isinstance(x, str) and not x.strip())]
        if not R.check(len(words) == 1 and isinstance(words[0], T), 'nothing but the function and white space is inserted', k, show(new)[:300]):
            continue
        n += 1
        x = words[0]
        while x[0] == 'app' and x[1] in ('str_trim', 'str_trim_end', 'str_trim_start', 'str_trim_ascii', 'str_to_string'):
            x = x[2]
        t = x
        if not app(x, em):
            inner_em = find_terms(x, lambda y: app(y, em))
            if any(changed(x, y) for y in inner_em):
                R.bad('the emitted function is inserted as it is', k, show(x)[:300])
            else:
                R.undecided('inserted text', show(x)[:300])
            continue
        a = x[3] if len(x) > 3 else None
        R.check(a is not None and mentions(a, mk('sym', 'function')) and rec_is(a, 'FunctionDefinition') and dict(a[3])['0'] is mk('sym', 'function'), 'the function emitted is the one to insert', k, show(a)[:200])
    if not n and not any(x[2] == 'violated' for x in R.obs):
        R.undecided('insertion', 'no outcome inserts a text')


def sliced(t, src):
    """the bounds, if t is a slice of src"""
    return (t[3], t[4]) if isinstance(t, T) and app(t, 'slice') and t[2] is src else None
