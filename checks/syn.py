"""From the text of a file to its trees: splitting, stages, tokens, positions, nesting, rejection."""
from .base import *
from .util import *
from .ev import *

TEXT = mk('sym', 'text')


def stages(R):
    an = [k for k in R.p.bodies if k.startswith('bulloak_syntax::semantics::SemanticAnalyzer::<') and k.endswith('>::analyze')]
    if len(an) != 1:
        raise Undecided('anchor not found: SemanticAnalyzer::analyze')
    return R.anchor('bulloak_syntax::tokenizer::Tokenizer::tokenize'), R.anchor('bulloak_syntax::parser::Parser::parse'), an[0]


def variants_of(facts, t):
    v = facts.get(mk('variant', t))
    return None if v is None else v


def is_variant(facts, t, name):
    v = variants_of(facts, t)
    return v is not None and admits(v, name) and (v[0] and len(v[1]) == 1 or name in ('Ok', 'Err', 'Some', 'None') and not v[0])


# ------------------------------------------------------------------ C24: only valid trees are used

def tree_of(R, facts, x, text, st, where):
    """x is the tree of `text`, known to have passed the three stages"""
    tk, ps, an = st
    if not (x[0] == 'fld' and x[2] == 'Ok' and app(x[1], ps)):
        if find_terms(x, lambda y: app(y, ps)):
            R.undecided('tree', show(x)[:200])
        else:
            R.undecided('tree', show(x)[:200])
        return
    par = x[1]
    src, toks = par[3], par[4]
    if not R.check(src is text, 'errors of the parser refer to the text of the tree', where, show(src)[:200]):
        return
    if not (toks[0] == 'fld' and toks[2] == 'Ok' and app(toks[1], tk)):
        if changed_seq(toks, tk):
            R.bad('the parser is given all tokens of the text, in order', where, show(toks)[:200])
        else:
            R.undecided('tokens', show(toks)[:200])
        return
    tok = toks[1]
    R.check(tok[3] is text, 'the tokens given to the parser are those of the text of the tree', where, show(tok[3])[:200])
    R.check(is_variant(facts, tok, 'Ok') and is_variant(facts, par, 'Ok'), 'a tree is used only if its text was tokenized and parsed', where, gshow(facts))
    ana = [f[1] for f in facts if f[0] == 'variant' and app(f[1], an) and f[1][3] is x]
    bools = [f for f in facts if f[0] == 'app' and f is not None and mentions(f, x) and find_terms(f, lambda y: app(y, an))]
    if not ana and bools:
        R.undecided('semantic analysis', gshow({f: facts[f] for f in bools}))
        return
    if R.check(bool(ana), 'a tree is used only after its semantic analysis', where, gshow(facts)):
        R.check(any(is_variant(facts, a, 'Ok') for a in ana), 'a tree is used only if its semantic analysis succeeded', where, gshow(facts))
        for a in ana:
            sa = rec(a[2], 'SemanticAnalyzer')
            if sa is not None and 'text' in sa:
                R.check(sa['text'] is text, 'errors of the analysis refer to the text of the tree', where, show(sa['text'])[:200])


def changed_seq(t, fn):
    return [y for y in find_terms(t, lambda y: lossy(y)) if find_terms(y, lambda z: app(z, fn))]


@rule('C24', 'every tree that is returned passed the tokenizer, the parser on the tokens of that text, and the semantic analysis of that tree; the error of a failing stage is returned, and no failing tree is passed over')
def valid_trees(R):
    st = tk, ps, an = stages(R)
    sp = R.anchor('bulloak_syntax::splitter::split_trees')
    k = R.anchor('bulloak_syntax::parse')
    r = R.analyse(k, opaque={tk: 'pure', ps: 'pure', an: 'pure', sp: 'pure'})
    SRC = mkapp(sp, TEXT)
    okn, errs = 0, set()
    for o in r.rets:
        if rec(o.val, 'Ok') is not None:
            pieces = flat(rec(o.val, 'Ok')['0'])
            if not pieces:
                R.undecided('trees', show(o.val)[:200])
                continue
            es = [p for p in pieces if p[0] == 'each']
            if len(pieces) != 1 or not es:
                if lossy(o.val) and mentions(o.val, SRC):
                    R.bad('every tree of the text is parsed, in order', k, show(o.val)[:300])
                else:
                    R.undecided('trees', show(o.val)[:300])
                continue
            p = es[0]
            if src_of(p) is not SRC:
                if src_of(p) is not None and reordering(src_of(p), SRC):
                    R.bad('every tree of the text is parsed, in order', k, show(src_of(p))[:300])
                else:
                    R.undecided('trees', show(p)[:300])
                continue
            if left_early(r, p, o.facts):
                R.bad('every tree of the text is parsed, in order', k, 'the loop is left early')
            okn += 1
            for g, d in p[2]:
                gs = guards_of(g)
                if not d:
                    if any(f[0] == 'variant' and f[1][0] == 'app' and f[1][1] in st and admits(v, 'Err') for f, v in gs.items()):
                        R.bad('a tree that is not valid makes the whole text fail', k, gshow(gs))
                    else:
                        R.bad('every tree of the text is parsed, in order', k, gshow(gs))
                elif len(d) == 1 and d[0][0] == 'one':
                    tree_of(R, gs, d[0][1], p[1], st, k)
                else:
                    R.undecided('trees', show(p)[:300])
        elif rec(o.val, 'Err') is not None:
            e = rec(o.val, 'Err')['0']
            if e[0] == 'fld' and e[2] == 'Err' and e[1][0] == 'app' and e[1][1] in st:
                errs.add(e[1][1])
                R.check(is_variant(o.facts, e[1], 'Err'), 'the error returned is that of the stage that failed', k, gshow(o.facts))
            elif not find_terms(e, lambda y: y[0] == 'app' and y[1] in st):
                bad = [f for f in o.facts if f[0] == 'variant' and f[1][0] == 'app' and f[1][1] in st and is_variant(o.facts, f[1], 'Err')]
                if bad:
                    R.bad('the error returned is that of the stage that failed', k, show(e)[:300])
                else:
                    R.undecided('error', show(e)[:300])
            else:
                R.undecided('error', show(e)[:300])
        else:
            R.undecided('outcome', show(o.val)[:300])
    for o in r.panics:
        R.undecided('panic', o.where)
    if not okn:
        R.undecided('trees', 'no outcome returns trees')
    elif not any(x[2] in ('violated', 'undecided') for x in R.obs):
        R.check(errs == set(st), 'each stage can reject a text', k, sorted(set(st) - errs))


# ------------------------------------------------------------------ C25: the trees of a file

def trims(t, e):
    """t is e with nothing but white space around it removed"""
    n = 0
    while isinstance(t, T) and t[0] == 'app' and t[1] in ('str_trim', 'str_trim_start', 'str_trim_end', 'str_to_string'):
        n += t[1] == 'str_trim'
        t = t[2]
    return t is e


@rule('C25', 'the text is cut at every blank line; each block that holds more than comment lines is parsed once, in order, nothing but white space around it removed; a text of white space is one empty tree')
def trees_of_file(R):
    one_ = R.anchor('bulloak_syntax::parse_one')
    k = R.anchor('bulloak_syntax::parse')
    r = R.analyse(k, opaque={one_: 'pure'})
    try:
        return evaluated_blocks(R, k, r, one_)
    except Unk:
        pass            # judged by the form of the terms instead
    n = 0
    for o in r.rets:
        if rec(o.val, 'Ok') is None:
            continue
        pieces = flat(rec(o.val, 'Ok')['0'])
        blank_ = [f for f in o.facts if app(f, 'empty') and f[2][0] == 'app' and trims(f[2], TEXT) and f[2] is not TEXT]
        empty_ = o.facts.get(mkapp('empty', TEXT))
        if any(o.facts[f] is True for f in blank_) or empty_ is True:
            p = pieces[0] if len(pieces) == 1 else None
            x = p[1] if p and p[0] == 'one' else None
            if x is None and not pieces:
                R.bad('a text without trees counts as one empty tree', k, show(o.val)[:200])
            elif x is None or not (x[0] == 'fld' and app(x[1], one_)):
                R.undecided('blank text', show(o.val)[:200])
            else:
                a = x[1][2]
                R.check(a is mk('str', '') or trims(a, TEXT), 'a text without trees counts as one empty tree', k, show(a)[:200])
            continue
        if len(pieces) != 1 or pieces[0][0] != 'each':
            if lossy(o.val) and mentions(o.val, TEXT):
                R.bad('every block of the text is parsed, in order', k, show(o.val)[:300])
            else:
                R.undecided('blocks', show(o.val)[:300])
            continue
        p = pieces[0]
        s = src_of(p)
        if s is None:
            R.undecided('blocks', show(p)[:300])
            continue
        base = s
        if app(base, 'split') and len(base) == 4 and base[3][0] == 'str' and trims(base[2], TEXT):
            if not R.check(base[3][1] == '\n\n', 'trees are separated by a blank line', k, show(base)[:200]):
                continue
        else:
            inner_ = find_terms(s, lambda y: app(y, 'split') and len(y) == 4 and trims(y[2], TEXT))
            if inner_ and (lossy(s) or reordering(s, inner_[0])):
                R.bad('every block of the text is parsed, in order', k, show(s)[:300])
            else:
                R.undecided('blocks', show(s)[:300])
            continue
        if left_early(r, p, o.facts):
            R.bad('every block of the text is parsed, in order', k, 'the loop is left early')
        for g, d in p[2]:
            gs = guards_of(g)
            judge_block(R, k, one_, p[1], gs, d)
            n += 1
    if not n and not any(x[2] == 'violated' for x in R.obs):
        R.undecided('blocks', 'no outcome parses blocks')


def blocks_of(text):
    return [''] if not text.strip() else [b.strip() for b in text.split('\n\n') if b.strip() and not all(l.strip().startswith('//') for l in b.strip().split('\n'))]


def evaluated_blocks(R, k, r, one_):
    """the blocks parsed, evaluated on texts of representative blocks"""
    B = ['Foo\n└── It x', 'Bar::b // c\n\t ├── when a // b\n', '// c\nFoo\n//// d', 'Foo\n// c', '//', ' // c\n  //d', '//c\n\t//d\r\n// e', '/ x', '-- //', 'Baz', '', ' \t', '/\n/', '#', 'Foo\r', '// é\n \n //']
    C, N = set(), {3, 5}
    for o in r.rets:
        for t in list(o.facts) + [o.val]:
            for c in find_terms(t, lambda y: y[0] in ('str', 'char', 'int')):
                if c[0] == 'int':
                    if 1 < c[1] < 200:
                        N |= {c[1], c[1] + 1}
                    continue
                x = c[1] if c[0] == 'str' else chr(c[1])
                if '\n' not in x and 0 < len(x) < 20:
                    C.add(x)
    for c in sorted(C - {'//'})[:6]:
        B += [c, c + ' Foo\n└── It x', 'Foo ' + c + '\n' + c]
    texts = list(B) + [a + z + b for z in ('\n\n', '\n\n\n', '\n\n\n\n\n') for a in B[:12] for b in B[:12]] + [a + '\n\n' + b + '\n\n' + c for a in B[3:12:2] + B[:1] for b in B[:12:2] for c in B[:1] + B[9:12]]
    texts += [B[0] + z + B[9] for z in ('\n', '\n \n', '\r\n\r\n', '\n\t\n', '\n//\n', '\r\n\n', '\n\n//\n\n')] + ['\n\n' + B[0], B[0] + '\n\n', '\n\n\n' + B[4] + '\n\n', '\n'.join('\nFoo::f%d' % i for i in range(40)), '\n\n'.join(['Foo', '// x'] * 20)]
    texts += ['\n\n'.join(['Foo\n└── It x'] * 3), '\n\n'.join(['Foo', 'Bar', 'Foo'])]
    for n in sorted(N)[:8]:
        c = '\n'.join(['// c'] * n)
        texts += [c, c + '\nFoo', 'Foo\n' + c, 'Foo\n' + c + '\nit', 'Bar\n\n' + c + '\nFoo\n\n' + c + '\n\nBaz', 'x' * n, '\n' * n + 'Foo' + '\n' * n + 'Bar', '\n\n'.join('Foo::f%d' % i for i in range(n)), '\n\n'.join([c] * n + ['Foo'] * n), '\n'.join(['Foo'] * n)]
    for t in texts:
        want = blocks_of(t)
        met = 0
        for o in r.rets:
            if rec(o.val, 'Ok') is None:
                continue
            got = None

            def parsed(ev, x):
                return {'!': '*', 'text': ev.str(x), '0': {'tree of': ev.str(x)}}
            ev = Ev({TEXT: t}, {one_: parsed})
            ok, odd = ev.holds(o.facts)
            if ok is False:
                continue
            if ok is None:
                raise Unk(odd)
            pieces = flat(rec(o.val, 'Ok')['0'])
            if any(p[0] == 'each' and left_early(r, p, o.facts) for p in pieces):
                R.bad('every block of the text is parsed, in order', k, 'the loop is left early')
                return
            got = []
            for x in ev.val(rec(o.val, 'Ok')['0']):
                if not isinstance(x, dict) or 'tree of' not in x:
                    raise Unk(o.val)
                got.append(x['tree of'])
            met += 1
            d = f'{t!r}: {got!r}'
            g = [x.strip() for x in got]
            if want == ['']:
                R.check(g == want, 'a text without trees counts as one empty tree', k, d)
                continue
            if not R.check(len(g) >= len(want) and all(g.count(x) >= want.count(x) for x in want), 'every block of the text is parsed, in order', k, d):
                return
            if not R.check(g == want, 'blocks that hold no tree are passed over, and nothing else is parsed', k, d):
                return
        if not met:
            R.undecided('blocks', f'no outcome for {t!r}')
            return


def comment_fact(f, v, q):
    """what a fact says of the line q: 'comment', 'other' or None"""
    if f[0] == 'app' and f[1] == 'str_starts_with' and f[3] == mk('str', '//') and trims(f[2], q) and f[2] is not q:
        return 'comment' if v is True else 'other'
    return None


def judge_block(R, k, one_, e, gs, d):
    blanks, allc, somenc, odd, wrong = None, False, False, [], []
    for f, v in gs.items():
        if not mentions(f, e):
            continue
        if app(f, 'empty') and trims(f[2], e) and f[2] is not e:
            blanks = v
        elif app(f, 'empty') and app(f[2], 'lines') and trims(f[2][2], e):
            pass
        elif f[0] == 'app' and f[1] in ('forall', 'exists') and app(f[2], 'lines') and trims(f[2][2], e) and v is True:
            q = mk('elem', f[2], -1)
            ks = [[comment_fact(x[0], x[1], q) for x in alt] for alt in f[3][1]]
            if f[1] == 'forall' and all('comment' in a for a in ks):
                allc = True
            elif f[1] == 'exists' and all('other' in a for a in ks):
                somenc = True
            elif all(len(a) == 1 and a[0] for a in ks) or all(simple_line(x[0], q) for alt in f[3][1] for x in alt):
                wrong.append((f, v))
            else:
                odd.append(f)
        elif f[0] == 'app' and f[1] == 'str_starts_with' and f[2][0] == 'app' and find_terms(f[2], lambda y: y[0] == 'elem' and app(y[1], 'lines')):
            pass            # a line met before the loop was left: covered by exists
        elif f[0] == 'app' and f[1] in ('str_starts_with', 'str_ends_with', 'str_contains') and trims(f[2], e):
            wrong.append((f, v))
        elif f[0] == 'variant' and app(f[1], one_):
            pass
        elif f[0] == 'app' and f[1] == 'has' and v is True and trims(f[3], e):
            wrong.append((f, v))
        elif f[0] == 'app' and f[1] in ('exhausted', 'has'):
            pass
        else:
            odd.append(f)
    show_ = gshow(gs, 500)
    if not d:
        if any(f[0] == 'variant' and app(f[1], one_) and is_variant(gs, f[1], 'Err') for f in gs):
            R.bad('a tree that is not valid makes the whole text fail', k, show_)
        elif blanks is True or allc:
            R.ok('only blocks without a tree are passed over', k)
        elif odd:
            R.undecided('block passed over', show_)
        else:
            R.bad('only blocks without a tree are passed over', k, show_)
        return
    if len(d) != 1 or d[0][0] != 'one' or not (d[0][1][0] == 'fld' and app(d[0][1][1], one_)):
        if len(d) > 1 and all(x[0] == 'one' for x in d):
            R.bad('every block is parsed once', k, show(d)[:300])
        else:
            R.undecided('block', str(d)[:300])
        return
    x = d[0][1][1][2]
    if trims(x, e):
        R.ok('a block is parsed as it is', k)
    elif not mentions(x, e):
        R.bad('a block is parsed as it is', k, show(x)[:200])
    elif x[0] == 'app' and (x[1].startswith('str_') or x[1] in ('slice', 'skipchars')):
        R.bad('a block is parsed as it is', k, show(x)[:200])
    else:
        R.undecided('block', show(x)[:200])
    if blanks is True and not odd:
        R.bad('blocks of white space hold no tree', k, show_)
    elif somenc:
        R.ok('blocks of comments hold no tree', k)
    elif allc:
        R.bad('blocks of comments hold no tree', k, show_)
    elif odd:
        R.undecided('block', show_)
    else:
        R.bad('blocks of comments hold no tree', k, show_)


def simple_line(f, q):
    return f[0] == 'app' and f[1] in ('str_starts_with', 'str_ends_with', 'str_contains', 'eq', 'empty') and len(f) > 2 and (trims(f[2], q))


# ------------------------------------------------------------------ the tokenizer: one step, for every class of character

from engine.lib import target as _target  # noqa
SELF = mk('sym', 'self')
TXT = getf(SELF, None, 'text')
TKZ = getf(SELF, None, 'tokenizer')
POS = getf(TKZ, None, 'pos')
IDM = getf(TKZ, None, 'identifier_mode')


def tkey(R, name):
    ks = [k for k in R.p.bodies if k.startswith('bulloak_syntax::tokenizer::TokenizerI::<') and k.endswith('>::' + name) and 'closure' not in k]
    if len(ks) != 1:
        raise Undecided(f'anchor not found: TokenizerI::{name}')
    return ks[0]


def moving(name):
    """the tokenizer moves on: leaves the mode alone, the new position is a term over the old one"""
    def h(eng, st, nm, args, ctx, site, rty):
        st = st.copy()
        r = _target(eng, st, args[0])
        if r[0] != 'ref':
            raise Abort('tokenizer is not a place')
        me = getf(eng.freeze(st, args[0]), None, 'tokenizer')
        pos, idm = getf(me, None, 'pos'), getf(me, None, 'identifier_mode')
        eng.event(st, name, pos, idm)
        eng.write(st, r[1], r[2] + (('f', None, 'tokenizer'), ('f', None, 'pos')), mkapp('after_' + name, pos))
        return [(st, UNIT if name == 'scan_comments' else mkapp(name, pos, idm))]
    return h


class Track(dict):
    """a valuation that notes what was looked at"""
    def __init__(self, v):
        dict.__init__(self, v)
        self.used = set()

    def __getitem__(self, k):
        self.used.add(k)
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        self.used.add(k)
        return dict.__contains__(self, k)


class At:
    """the terms that stand for the character at a position and the one behind it"""
    def __init__(self, P):
        self.P = P
        off = getf(P, None, 'offset')
        n = mkapp('len', TXT)
        self.off, self.len = off, n
        self.rest = mkapp('slice', TXT, off, n)
        self.ch = mkapp('nth', mkapp('chars', self.rest), mk('int', 0))
        self.next = mkapp('add2', off, mkapp('char_len_utf8', self.ch))
        self.rest2 = mkapp('slice', TXT, self.next, n)
        self.nx = mkapp('nth', mkapp('chars', self.rest2), mk('int', 0))
        self.nx1 = mkapp('nth', mkapp('chars', self.rest), mk('int', 1))
        self.memo = {}

    def char(self, t, v):
        """the character a term stands for: (known, char)"""
        if t[0] == 'char':
            return True, chr(t[1])
        if t is self.ch:
            return True, v['c']
        if t in (self.nx, self.nx1):
            return True, v['n']
        if t[0] == 'fld' and t[2] == 'Some' and t[1][0] == 'app' and t[1][1] in ('first', 'peek'):
            return self.char(mkapp('nth', t[1][2], mk('int', 0)), v)
        return False, None

    def fact(self, f, val, v):
        """is the fact true of the valuation v: True, False, None (not known)"""
        if f[0] == 'known':
            k, c = self.char(f[1], v)
            return None if not k or c is None or not isinstance(val, tuple) or val[0] != 'char' else chr(val[1]) == c
        r = self.raw(f, v)
        if r is None:
            return None
        if r == 'free':
            return True
        if f[0] == 'variant':
            return admits(val, r)
        return r is val

    def raw(self, f, v):
        if f[0] == 'variant':
            t = f[1]
            if app(t, 'first') or app(t, 'last_char'):
                if t[2] is mkapp('chars', self.rest):
                    return 'None' if v['c'] is None else 'Some'
                if t[2] is mkapp('chars', self.rest2):
                    return 'None' if v['n'] is None else 'Some'
            if app(t, 'getidx') and t[2] is mkapp('chars', self.rest) and t[3][0] == 'int' and t[3][1] in (0, 1):
                return 'None' if v['cn'[t[3][1]]] is None else 'Some'
            return v['other'](f, v) if 'other' in v else None
        if f[0] != 'app':
            return v['other'](f, v) if 'other' in v else None
        a = f[2:]
        if f[1] == 'eq' and len(a) == 2:
            if {id(a[0]), id(a[1])} == {id(self.len), id(self.off)}:
                return v['c'] is None
            if {id(a[0]), id(a[1])} == {id(self.len), id(self.next)}:
                return v['n'] is None
            (k1, c1), (k2, c2) = self.char(a[0], v), self.char(a[1], v)
            if k1 and k2:
                return None if c1 is None or c2 is None else c1 == c2
        if f[1] in ('lt', 'le') and a[0][0] == 'int' and app(a[1], 'len') and a[1][2] is mkapp('chars', self.rest):
            n = a[0][1] + (f[1] == 'lt')          # at least n characters are left
            if n <= 2:
                return n <= 0 or v['c'] is not None and (n == 1 or v['n'] is not None)
        if f[1] == 'str_contains' and a[0][0] == 'str':
            k, c = self.char(a[1], v)
            if k and c is not None:
                return c in a[0][1]
        if f[1] == 'empty':
            if a[0] in (self.rest, mkapp('chars', self.rest)):
                return v['c'] is None
            if a[0] in (self.rest2, mkapp('chars', self.rest2)):
                return v['n'] is None
        if f[1] == 'str_starts_with' and a[1][0] in ('str', 'char'):
            w = a[1][1] if a[1][0] == 'str' else chr(a[1][1])
            if a[0] is self.rest and len(w) <= 2:
                return ((v['c'] or '') + (v['n'] or '')).startswith(w)
            if a[0] is self.rest2 and len(w) <= 1:
                return (v['n'] or '').startswith(w)
        if f[1].startswith('char_is_') and len(a) == 1:
            k, c = self.char(a[0], v)
            g = {'char_is_whitespace': lambda c: c.isspace(), 'char_is_alphanumeric': lambda c: c.isalnum(), 'char_is_alphabetic': lambda c: c.isalpha(),
                 'char_is_numeric': lambda c: c.isnumeric(), 'char_is_ascii_whitespace': lambda c: c in ' \t\n\r\f', 'char_is_ascii_alphanumeric': lambda c: c.isascii() and c.isalnum(),
                 'char_is_ascii_digit': lambda c: c in '0123456789', 'char_is_ascii_alphabetic': lambda c: c.isascii() and c.isalpha(), 'char_is_ascii': lambda c: c.isascii(),
                 'char_is_ascii_punctuation': lambda c: c.isascii() and not c.isalnum() and c.isprintable() and c != ' ', 'char_is_control': lambda c: ord(c) < 32 or 127 <= ord(c) < 160,
                 'char_is_lowercase': lambda c: c.islower(), 'char_is_uppercase': lambda c: c.isupper()}.get(f[1])
            if k and c is not None and g:
                return g(c)
        return v['other'](f, v) if 'other' in v else None

    def memo_fact(self, f, val, v):
        """fact(), remembered by the parts of the valuation it looked at"""
        m = self.memo.setdefault((f, val), {})
        for ks, d in m.items():
            t = tuple(dict.get(v, k) for k in ks)
            if t in d:
                return d[t]
        w = Track(v)
        x = self.fact(f, val, w)
        ks = tuple(sorted(w.used))
        m.setdefault(ks, {})[tuple(dict.get(v, k) for k in ks)] = x
        return x

    def holds(self, facts, v):
        """the facts are true of v: True, False, None and the ones not understood"""
        odd = []
        for f, val in facts.items():
            x = self.memo_fact(f, val, v)
            if x is False:
                return False, ()
            if x is None and not self.harmless(f):
                odd.append(f)
        return (None if odd else True), odd

    def harmless(self, f):
        """facts that tell nothing of the characters"""
        return f[0] == 'app' and f[1] in ('exhausted', 'forall', 'exists') or f[0] == 'variant' and app(f[1], 'scan') or f[0] == 'phi'


def position_of(facts):
    """the position the facts speak of"""
    ps = set()
    for f in facts:
        for t in find_terms(f, lambda y: app(y, 'slice') and y[2] is TXT and y[3][0] == 'fld' and y[3][3] == 'offset'):
            ps.add(t[3][1])
        for t in find_terms(f, lambda y: app(y, 'eq') and any(isinstance(z, T) and z[0] == 'fld' and z[3] == 'offset' for z in y[2:])):
            for z in t[2:]:
                if z[0] == 'fld' and z[3] == 'offset':
                    ps.add(z[1])
    return ps


def loop_pos(R, facts_list):
    ps = set()
    for f in facts_list:
        ps |= position_of(f)
    ps = {p for p in ps if p[0] != 'app'}
    if len(ps) != 1:
        raise Undecided(f'positions in the loop: {len(ps)}')
    return ps.pop()


def vals(**dims):
    import itertools
    ks = list(dims)
    for x in itertools.product(*(dims[k] for k in ks)):
        yield dict(zip(ks, x))


def only_of(t, atoms, ops=('plus', 'add2', 'char_len_utf8', 'satsub', 'sub', 'minus', 'len')):
    """built from these terms and numbers alone"""
    if t in atoms or t[0] == 'int':
        return True
    return t[0] == 'app' and t[1] in ops and all(only_of(x, atoms, ops) for x in t[2:] if isinstance(x, T))


@rule('C26', 'moving on by one character adds its length in bytes to the offset, and either one to the column or, behind a newline, one to the line with the column back at 1; nothing moves at the end')
def moving_on(R):
    """every outcome of one step, evaluated on representative positions of representative texts"""
    k = tkey(R, 'scan')
    r = R.analyse(k)
    L, N = (1, 7, 120), {0x7f, 0x7ff, 0xffff}
    S = set('\n\r\t x0é│ß\u00a0\u2028\u200b\x0b\x00#')
    for o in r.all:
        for t in list(o.facts) + [o.val] + ([o.st.store[('arg', 'self')]] if ('arg', 'self') in o.st.store else []):
            for c in find_terms(t, lambda y: y[0] in ('str', 'char', 'int')):
                if c[0] == 'int':
                    N.add(c[1])
                elif c[0] == 'char':
                    N.add(c[1])
                else:
                    S |= set(c[1][:4])
    ints = sorted({n + d for n in N for d in (-1, 0, 1) if 0 < n + d < 1 << 20})
    S |= {chr(n) for n in ints if not 0xd800 <= n < 0xe000} | {'🎉'}
    S = sorted(S)
    if len(S) > 80:
        R.undecided('moving on', 'too many characters are told apart')
        S = S[:80]
    L = sorted(set(L) | set(ints[:12]))
    texts = [('a\nb', c, n) for c in S for n in (None, 'x', '\n')] + [(p, c, n) for p in ('', 'é│\n\r\n  ') for c in ('x', '\n', '│', '\r') for n in (None, '│', 'y')] + [('ab', None, None), ('', None, None)]
    seen = set()
    off, line, col = (getf(POS, None, x) for x in ('offset', 'line', 'column'))
    for o in r.all:
        me = o.st.store.get(('arg', 'self'))
        me = r.eng.freeze(o.st, me) if me is not None else SELF
        pos = getf(getf(me, None, 'tokenizer'), None, 'pos')
        for p, c, n in texts:
            for x, y in ((7, 13), (1, 1)) if c not in ('x', '\n') or n != 'x' else [(a, b) for a in L for b in L]:
                env = {TXT: p + (c or '') + (n or '') + ('rest' if n else ''), off: len(p.encode()), line: x, col: y}
                ev = Ev(env)
                ok, odd = ev.holds(o.facts)
                if ok is False:
                    continue
                if ok is None and ev.crash:
                    R.bad('moving on does not panic', k, f'at {c!r}: {show(ev.crash)[:200]}')
                    break
                if ok is None:
                    R.undecided('moving on', [show(z)[:150] for z in odd[:3]])
                    break
                if o.kind != 'ret':
                    if o.kind == 'panic':
                        R.bad('moving on does not panic', k, f'at {c!r}: {gshow(o.facts)[:200]}')
                    break
                seen.add(c)
                try:
                    got = {f: ev.val(getf(pos, None, f)) for f in ('offset', 'line', 'column')}
                    v = ev.val(o.val)
                except Unk as e:
                    R.undecided('moving on', show(o.val)[:150] + ' ' + show(pos)[:150])
                    break
                d = f'at {c!r} behind {p!r} (line {x}, column {y}): {got}'
                if c is None:
                    R.check(got == {'offset': len(p.encode()), 'line': x, 'column': y}, 'the position stays at the end of the text', k, d)
                    R.check(v.get('!') == 'None', 'nothing is behind the end of the text', k, d)
                    continue
                R.check(got['offset'] == len((p + c).encode()), 'the offset grows by the length of the character', k, d)
                R.check(got['line'] == (x + 1 if c == '\n' else x), 'a newline, and nothing else, starts a line', k, d)
                R.check(got['column'] == (1 if c == '\n' else y + 1), 'the column counts the characters of the line', k, d)
                R.check(v == (V_('Some', **{'0': n}) if n else V_('None')), 'the next character is returned', k, f'{d}: {v}')
    if not {'\n', 'x', None} <= seen and not any(x[2] in ('violated', 'undecided') for x in R.obs):
        R.undecided('moving on', f'cases met: {seen}')


KINDS = ('Tee', 'Corner', 'Word', 'When', 'Given', 'It')


class Steps:
    """the iterations of a loop of the tokenizer and the ways out of it"""


def token_steps(R):
    s = getattr(R, '_tsteps', None)
    if s:
        return s
    s = Steps()
    s.key = tkey(R, 'tokenize')
    s.word = tkey(R, 'scan_word')
    ops = {tkey(R, x): moving(x) for x in ('scan', 'scan_comments', 'scan_word')}
    e = R.engine(opaque=ops)
    e.SPLIT = 200
    r = R.analyse(s.key, eng=e)
    s.cases = []           # (facts, pushed pieces, 'next' | 'Ok' | 'Err', value)
    seen = set()
    for o in r.rets:
        fs = o.facts
        if rec(o.val, 'Ok') is not None:
            ps = flat(rec(o.val, 'Ok')['0'])
            es = [p for p in ps if p[0] == 'each']
            if len(es) > 1 or es and ps[0] is not es[0] or any(p[0] == 'all' for p in ps):
                R.undecided('tokens', show(o.val)[:300])
                continue
            if es and es[0] not in seen:
                seen.add(es[0])
                for g, d in es[0][2]:
                    s.cases.append((guards_of(g), d, 'next', None))
            s.cases.append((fs, tuple(ps[1:] if es else ps), 'Ok', o.val))
        elif rec(o.val, 'Err') is not None:
            s.cases.append((fs, (), 'Err', rec(o.val, 'Err')['0']))
        else:
            R.undecided('tokens', show(o.val)[:300])
    s.P = loop_pos(R, [c[0] for c in s.cases])
    R._tsteps = s
    return s


def tok_other(f, v):
    """facts on the last token and the word just read"""
    if f[0] == 'phi' or f[0] == 'fld' and f[3] == 'identifier_mode':
        return v['idm']
    if f[0] == 'app' and f[1] == 'empty' and find_terms(f, lambda y: y[0] == 'loopseq' or y[0] == 'S'):
        return v['last'] is None
    if f[0] == 'app' and f[1] in ('lt', 'le', 'eq', 'gt', 'ge') and len(f) == 4:
        # how many tokens there are says nothing of the last one
        ln = [find_terms(x, lambda y: app(y, 'len') and find_terms(y, lambda z: z[0] == 'loopseq')) for x in f[2:4]]
        if bool(ln[0]) != bool(ln[1]) and v['last'] is not None and (f[2][0] == 'int' or f[3][0] == 'int'):
            return 'free'
    if f[0] == 'variant':
        t = f[1]
        if app(t, 'scan_word'):
            return 'Err' if v['kind'] == 'Err' else 'Ok'
        if t[0] == 'fld' and t[3] == 'kind':
            b = t[1]
            if b[0] == 'fld' and b[2] == 'Ok' and app(b[1], 'scan_word'):
                return None if v['kind'] == 'Err' else v['kind']
            if b[0] == 'fld' and b[2] == 'Some' and app(b[1], 'last'):
                return v['last']
        if app(t, 'last'):
            return 'None' if v['last'] is None else 'Some'
    return None


def scan_terms(facts):
    return [f[1] for f in facts if f[0] == 'variant' and app(f[1], 'scan')]


def expected_step(v):
    """(pushed, moved by, mode afterwards)"""
    c = v['c']
    if c in ' ─│':
        return 'none', None, v['idm']
    if c in '\n\t\r':
        return 'none', None, False
    if c == '├':
        return 'Tee', None, v['idm']
    if c == '└':
        return 'Corner', None, v['idm']
    if c == '/' and v['n'] == '/':
        return 'none', 'after_scan_comments', False
    if v['kind'] == 'Err':
        return 'err', None, None
    return 'word', 'after_scan_word', True if v['last'] in ('Tee', 'Corner') and v['kind'] in ('When', 'Given') else v['idm']


def pushed(d, P):
    if not d:
        return 'none'
    if len(d) > 1 or d[0][0] != 'one':
        return 'many' if all(x[0] == 'one' for x in d) else '?'
    t = d[0][1]
    if t[0] == 'fld' and t[2] == 'Ok' and app(t[1], 'scan_word'):
        return 'word'
    tk = rec(t, 'Token')
    if tk is None or tk['kind'][0] != 'adt':
        return '?'
    return tk['kind'][2]


def counts_tokens(f):
    """a fact that only compares the number of tokens so far with a constant"""
    if f[0] == 'known':
        f = f[1]
        return app(f, 'len') and bool(find_terms(f, lambda y: y[0] == 'loopseq'))
    if not (f[0] == 'app' and f[1] in ('eq', 'lt', 'le', 'gt', 'ge') and len(f) == 4):
        return False
    cs = [x for x in f[2:] if x[0] == 'int']
    ls = [x for x in f[2:] if app(x, 'len') and find_terms(x, lambda y: y[0] == 'loopseq')]
    return len(cs) == 1 and len(ls) == 1


def chars_in(facts_list):
    """the characters the facts speak of"""
    cs = set()
    for fs in facts_list:
        for f, v in fs.items():
            cs |= {chr(t[1]) for t in find_terms(f, lambda y: y[0] == 'char')}
            if isinstance(v, tuple) and v and v[0] == 'char':
                cs.add(chr(v[1]))
    return cs


def step_vals(s):
    if not hasattr(s, 'vals'):
        cs = chars_in([c[0] for c in s.cases])
        c = [' ', '─', '│', '\n', '\t', '\r', '├', '└', '/', 'x', '#', 'é', '-', '\\']
        n = ['/', 'x', ' ', '\n', None]
        s.vals = [v for v in vals(c=c + sorted(cs - set(c))[:12], n=n + sorted(cs - set(c))[:6], idm=(True, False),
                                  last=(None, 'Tee', 'Corner', 'Word', 'When', 'It'), kind=('Word', 'When', 'Given', 'It', 'Err'))]
    return s.vals


@rule('C27', 'spaces and box lines yield no token, `├` and `└` the two branch tokens, `//` a comment, every other character a word; reading goes on to the end of the text')
def token_classes(R):
    s = token_steps(R)
    at = At(s.P)
    k = s.key
    for facts, d, kind, val in s.cases:
        got = pushed(d, s.P)
        sc = scan_terms(facts)
        eof = any(app(f, 'eq') and v is True and {id(f[2]), id(f[3])} == {id(at.len), id(at.off)} for f, v in facts.items())
        if kind == 'Ok' and not d and eof and not sc:
            R.ok('the tokens are returned at the end of the text', k)
            continue
        done = set()
        for v in step_vals(s):
            v = dict(v, other=tok_other)
            ok, odd = at.holds(facts, v)
            if ok is False:
                continue
            want, moved, mode = expected_step(v)
            key_ = (want, got, kind, ok)
            desc = lambda: f'at {v["c"]!r} before {v["n"]!r}, last token {v["last"]}, word {v["kind"]}: {got}'
            if ok is None:
                if key_ not in done:
                    done.add(key_)
                    if kind == 'Ok' and sc and not any(is_variant(facts, x, 'None') for x in sc) and all(counts_tokens(x) for x in odd):
                        R.bad('the whole text is read', k, desc() + f', when {show(odd[0])[:200]}')
                    elif want != got:
                        R.undecided('token', [show(x)[:150] for x in odd[:3]])
                continue
            if kind == 'Err':
                if want != 'err':
                    if v['kind'] == 'Err' and want != 'word' and find_terms(val, lambda y: app(y, 'scan_word')):
                        R.bad('each character makes the token of its kind', k, desc())
                    else:
                        R.undecided('error', desc())
                elif val[0] == 'fld' and val[2] == 'Err' and app(val[1], 'scan_word'):
                    R.ok('the error of a word is returned', k)
                else:
                    R.undecided('error', show(val)[:200])
                continue
            if got == '?':
                R.undecided('token', str(d)[:200])
                break
            if want == 'err':
                R.bad('the error of a word is returned', k, desc())
                break
            if not R.check(want == got, 'each character makes the token of its kind', k, desc):
                break
            if kind == 'Ok' and sc and not any(is_variant(facts, x, 'None') for x in sc):
                R.bad('the whole text is read', k, desc())
                break
            if not sc:
                if kind == 'Ok':
                    R.bad('the whole text is read', k, desc())
                else:
                    R.undecided('moving on', gshow(facts))
                break
            if key_ in done:
                continue
            done.add(key_)
            if got in ('Tee', 'Corner'):
                tk = rec(d[0][1], 'Token')
                sp = rec(tk['span'], 'Span')
                R.check(tk['lexeme'] in (mk('str', '├' if got == 'Tee' else '└'), at.ch), 'a branch token carries its character', k, show(tk['lexeme'])[:100])
                if sp is None:
                    R.undecided('span', show(tk['span'])[:200])
                else:
                    R.check(sp['start'] is s.P and sp['end'] is s.P, 'a branch token spans its character', k, show(tk['span'])[:200])
            elif got == 'word':
                R.check(d[0][1][1][2] is s.P, 'a word is read from its first character', k, show(d)[:200])


@rule('C27', 'the titles of conditions, and only those, are read in identifier mode: from the word behind a branch that is `when` or `given` up to the end of the line or a comment')
def identifier_mode(R):
    s = token_steps(R)
    at = At(s.P)
    for facts, d, kind, val in s.cases:
        sc = scan_terms(facts)
        if kind == 'Err' or not sc:
            continue
        if len(sc) != 1 or len(sc[0]) < 4:
            R.undecided('mode', gshow(facts))
            continue
        pos, mode = sc[0][2], sc[0][3]
        for v in step_vals(s):
            v = dict(v, other=tok_other)
            ok, odd = at.holds(facts, v)
            if ok is False:
                continue
            want, moved, m = expected_step(v)
            if want == 'err':
                continue
            if mode[0] == 'bool' or mode in (TRUE, FALSE):
                gm = mode is TRUE
            elif mode[0] in ('phi', 'fld'):
                gm = v['idm']
            else:
                R.undecided('mode', show(mode)[:200])
                break
            desc = lambda: f'at {v["c"]!r} before {v["n"]!r}, mode {v["idm"]}, last token {v["last"]}, word {v["kind"]}: mode {gm}'
            if ok is None:
                if gm is not m:
                    R.undecided('mode', [show(x)[:150] for x in odd[:3]])
                    break
                continue
            if not R.check(gm is m, 'only the title of a condition is restricted to the characters of an identifier', s.key, desc):
                break
            if moved is None and pos is not s.P or moved and not app(pos, moved):
                if pos is s.P or pos[0] == 'app' and pos[1].startswith('after_'):
                    R.bad('a word, a comment or a single character is passed at a time', s.key, f'{desc()}, at {show(pos)[:100]}')
                else:
                    R.undecided('moving on', show(pos)[:100])
                break


IDCHARS = ('a', 'Z', '1', '_', '-', "'", '"', 'é', '.', '(', ')', ':', '/', '$', ',', '`', '!', '{', '├')


def valid_id(c):
    return c.isalnum() or c in '_-\'"'


WORDS = ('when', 'When', 'WHEN', 'wHeN', 'given', 'Given', 'GIVEN', 'it', 'It', 'IT', 'then', 'whenever', 'forgiven', 'its', 'w', 'When.')


def word_kind(w):
    return {'when': 'When', 'given': 'Given', 'it': 'It'}.get(w.lower(), 'Word')


def word_steps(R):
    s = getattr(R, '_wsteps', None)
    if s:
        return s
    s = Steps()
    s.key = tkey(R, 'scan_word')
    e = R.engine(opaque={tkey(R, 'scan'): moving('scan')})
    e.SPLIT = 200
    r = R.analyse(s.key, eng=e)
    s.next, s.ok, s.err = [], [], []
    seen = set()
    for o in r.rets:
        for p in o.log:
            if p[0] == 'each' and p not in seen:
                seen.add(p)
                s.next += [(guards_of(g), d) for g, d in p[2]]
        if rec(o.val, 'Ok') is not None:
            s.ok.append((o, rec(rec(o.val, 'Ok')['0'], 'Token')))
        elif rec(o.val, 'Err') is not None:
            s.err.append((o, rec(rec(o.val, 'Err')['0'], 'Error')))
        else:
            R.undecided('word', show(o.val)[:200])
    if not s.ok or not s.next:
        raise Undecided('words')
    s.P = loop_pos(R, [g for g, d in s.next])
    R._wsteps = s
    return s


def word_other(lex):
    def g(f, v):
        if f is IDM:
            return v['idm']
        if f[0] == 'app' and f[1] in ('eq', 'eq_ignore_ascii_case', 'str_eq_ignore_ascii_case') and lex is not None and 'w' in v:
            a, b = f[2], f[3]
            if b[0] != 'str':
                a, b = b, a
            if b[0] == 'str':
                w = {'str_to_lowercase': str.lower, 'str_to_ascii_lowercase': str.lower, 'str_to_uppercase': str.upper, 'str_to_ascii_uppercase': str.upper}
                x = None
                if a is lex:
                    x = v['w']
                elif a[0] == 'app' and a[1] in w and a[2] is lex:
                    x = w[a[1]](v['w'])
                if x is not None:
                    return x == b[1] if f[1] == 'eq' else x.lower() == b[1].lower()
        return None
    return g


@rule('C27', 'a word goes on up to white space or the end of the text, holds every character in between, and is a keyword whatever its case; in identifier mode a character that cannot be part of an identifier is an error, in no other case')
def words(R):
    s = word_steps(R)
    at = At(s.P)
    k = s.key
    cs = chars_in([g for g, d in s.next] + [o.facts for o, x in s.ok + s.err])
    n = (None, ' ', '\n', '\t', '\r', '\u00a0', 'a', '.', '/', '├', ':')
    V = [v for v in vals(c=IDCHARS + tuple(sorted(cs - set(IDCHARS) - set(' \t\n\r'))[:12]), n=n + tuple(sorted(cs - set(n) - {' '})[:12]), idm=(True, False))]
    ends = lambda v: v['n'] is None or v['n'].isspace()
    wrong = lambda v: v['idm'] and not valid_id(v['c'])
    for g, d in s.next:
        g0 = {f: x for f, x in g.items()}
        for v in V:
            v = dict(v, other=word_other(None))
            ok, odd = at.holds(g0, v)
            if ok is False or not (ends(v) or wrong(v)):
                continue
            desc = f'goes on at {v["c"]!r} before {v["n"]!r}, identifier mode {v["idm"]}'
            if ok is None:
                R.undecided('word', [show(x)[:150] for x in odd[:3]])
            else:
                R.bad('a word ends at white space and at the end of the text' if ends(v) and not wrong(v) else 'a character that cannot be part of an identifier is an error in the title of a condition', k, desc)
            break
        else:
            R.ok('a word ends at white space and at the end of the text', k)
            R.ok('a character that cannot be part of an identifier is an error in the title of a condition', k)
        es = [x[1][1:] for x in d if x[0] == 'one' and x[1][0] == 'ev' and x[1][1] == 'scan']
        R.check(len(es) == 1 and es[0][1] is s.P, 'a word is read character by character', k, lambda: show(d)[:200])
    for o, tk in s.ok:
        if tk is None:
            R.undecided('word', show(o.val)[:200])
            continue
        lex, kd = tk['lexeme'], tk['kind']
        for v in V:
            v = dict(v, other=word_other(None))
            f = {x: y for x, y in o.facts.items() if not mentions(x, lex)}
            ok, odd = at.holds(f, v)
            if ok is False or ends(v) and not wrong(v):
                continue
            if ok is None:
                R.undecided('word', [show(x)[:150] for x in odd[:3]])
            else:
                R.bad('a word goes on up to white space' if not wrong(v) else 'a character that cannot be part of an identifier is an error in the title of a condition', k, f'ends at {v["c"]!r} before {v["n"]!r}, identifier mode {v["idm"]}')
            break
        # the text
        ps = pieces_of(lex, 'str')
        good = len(ps) in (1, 2) and ps[-1] is at.ch and (len(ps) == 1 or ps[0][0] == 'each' and all(len(d) == 1 and d[0] is at.ch for g, d in ps[0][2]))
        cut = app(lex, 'slice') and lex[2] is TXT
        if good or cut and lex[3] is getf(POS, None, 'offset') and lex[4] is at.next:
            R.ok('a word holds each of its characters', k)
        elif cut:
            if all(only_of(x, (getf(POS, None, 'offset'), at.off, at.ch, at.len, TXT)) for x in lex[3:5]):
                R.bad('a word holds each of its characters', k, show(lex)[:300])
            else:
                R.undecided('word', show(lex)[:300])
        elif all(p[0] in ('each', 'str', 'char', 'app') for p in ps) and not any(p[0] == 'app' and p is not at.ch for p in ps):
            R.bad('a word holds each of its characters', k, show(lex)[:300])
        elif changed_text(lex):
            R.bad('a word holds each of its characters', k, show(lex)[:300])
        else:
            R.undecided('word', show(lex)[:300])
        # its kind
        if kd[0] != 'adt':
            R.undecided('kind', show(kd)[:200])
        else:
            for w in WORDS:
                kf = {x: y for x, y in o.facts.items() if mentions(x, lex)}
                ok, odd = at.holds(kf, {'c': None, 'n': None, 'idm': None, 'w': w, 'other': word_other(lex)})
                if ok is False or word_kind(w) == kd[2]:
                    continue
                if ok is None:
                    R.undecided('kind', [show(x)[:150] for x in odd[:3]])
                else:
                    R.bad('a word is a keyword exactly if it is one in lower case', k, f'{w}: {kd[2]}')
                break
            else:
                R.ok('a word is a keyword exactly if it is one in lower case', k)
        sp = rec(tk['span'], 'Span')
        if sp is None:
            R.undecided('span', show(tk['span'])[:200])
        elif sp['start'] is POS and sp['end'] is s.P:
            R.ok('a word spans its first to its last character', k)
        elif all(x in (POS, s.P) or x[0] == 'app' and x[1].startswith('after_') or rec(x, 'Position') for x in (sp['start'], sp['end'])):
            R.bad('a word spans its first to its last character', k, show(tk['span'])[:200])
        else:
            R.undecided('span', show(tk['span'])[:200])
    for o, er in s.err:
        for v in V:
            v = dict(v, other=word_other(None))
            ok, odd = at.holds(o.facts, v)
            if ok is False or wrong(v):
                continue
            if ok is None:
                R.undecided('error', [show(x)[:150] for x in odd[:3]])
            else:
                R.bad('no other character is an error', k, f'error at {v["c"]!r}, identifier mode {v["idm"]}')
            break
        else:
            R.ok('no other character is an error', k)
        if er is None or er['kind'][0] != 'adt':
            R.undecided('error', show(o.val)[:200])
            continue
        kd = er['kind']
        R.check(kd[2] == 'IdentifierCharInvalid' and dict(kd[3])['0'] is at.ch, 'the error names the character', k, show(kd)[:200])
        sp = rec(er['span'], 'Span')
        if sp is not None:
            R.check(sp['start'] is s.P and sp['end'] is s.P, 'the error is located at the character', k, show(er['span'])[:200])


def changed_text(t):
    return find_terms(t, lambda y: y[0] == 'app' and (y[1].startswith('str_') or y[1] in ('slice',) and y[2] is not TXT or lossy(y)))


@rule('C27', 'a comment goes on to the end of its line and no further')
def comments(R):
    k = tkey(R, 'scan_comments')
    r = R.analyse(k, opaque={tkey(R, 'scan'): moving('scan')})
    nxt, seen = [], set()
    for o in r.rets:
        for p in o.log:
            if p[0] == 'each' and p not in seen:
                seen.add(p)
                nxt += [(guards_of(g), d) for g, d in p[2]]
    if not nxt:
        R.undecided('comment', 'no loop')
        return
    at = At(loop_pos(R, [g for g, d in nxt]))
    n = ('a', '/', ' ', '\t', '\r', '├', '.', '\n', None)
    cs = chars_in([g for g, d in nxt] + [o.facts for o in r.rets])
    V = [v for v in vals(c=('/', 'a', ' ', '\n', '"'), n=n + tuple(sorted(cs - set(n))[:12]))]

    def judge(facts, going):
        for v in V:
            if v['c'] == '\n':
                continue
            ok, odd = at.holds(facts, v)
            if ok is False or (v['n'] not in ('\n', None)) is going:
                continue
            if ok is None:
                R.undecided('comment', [show(x)[:150] for x in odd[:3]])
            else:
                R.bad('a comment ends at the end of its line' if going else 'a comment goes on to the end of its line', k, f'at {v["c"]!r} before {v["n"]!r}')
            return
        R.ok('a comment ends at the end of its line' if going else 'a comment goes on to the end of its line', k)
    for g, d in nxt:
        judge(g, True)
    for o in r.rets:
        judge(o.facts, False)
