"""The parser: the tree a sequence of tokens stands for, and the sequences that stand for none.

Each parse function is summarised as a guarded transition system over the index of the current token: what it
does before its loop, one step of the loop, and its outcomes. The calls of the other parse functions are
represented by their contract (a node, or an error, and the index behind it). The guards are evaluated over
representatives of every class of tokens they can tell apart."""
from .base import *
from .util import *
from .ev import *
from engine.lib import target as _target

KINDS = ('Tee', 'Corner', 'Word', 'When', 'Given', 'It')
WORDY = ('Word', 'When', 'Given', 'It')
LEX = {'Tee': '├', 'Corner': '└', 'Word': "sam's-é", 'When': 'WHEN', 'Given': 'given', 'It': 'It'}
CALLS = ('parse_root', 'parse_branch', 'parse_condition', 'parse_action', 'parse_description', 'parse_string')


def pkey(R, name):
    ks = [k for k in R.p.bodies if k.startswith('bulloak_syntax::parser::ParserI::<') and k.endswith('>::' + name) and 'closure' not in k]
    if len(ks) != 1:
        raise Undecided(f'anchor not found: ParserI::{name}')
    return ks[0]


def cur_of(eng, st, me):
    return getf(getf(eng.freeze(st, me), None, 'parser'), None, 'current')


def stepping(name):
    """parse_X at the current token: moves the parser on, gives the node or an error"""
    def h(eng, st, nm, args, ctx, site, rty):
        st = st.copy()
        r = _target(eng, st, args[0])
        if r[0] != 'ref':
            raise Abort('parser is not a place')
        cur = cur_of(eng, st, args[0])
        a = tuple(eng.freeze(st, x) for x in args[1:])
        eng.event(st, name, cur, *a)
        eng.write(st, r[1], r[2] + (('f', None, 'parser'), ('f', None, 'current')), mkapp('after_' + name, cur, *a))
        return [(st, mkapp(name, cur, *a))]
    return h


class Sys:
    pass


def system(R, key, ops, me=('arg', 'self')):
    """the transition system of a parse function"""
    e = R.engine(opaque={pkey(R, x): stepping(x) for x in ops})
    e.SPLIT = 200
    e.record_loops = True
    r = R.analyse(key, eng=e)
    s = Sys()
    s.key, s.eng, s.r = key, e, r
    s.cur = lambda st: getf(getf(st.store[me], None, 'parser'), None, 'current') if me in st.store else None
    s.trans, s.ps = [], set()
    moving = {n[1] for n in e.notes if n[0] == 'trans' and s.cur(n[2]) != s.cur(n[3])}
    for n in e.notes:
        # a loop that never moves is about something else (its effect is in the outcomes)
        if n[0] == 'trans' and (n[1] in moving or not moving):
            _, site, h, t = n
            p = s.cur(h)
            if p is None:
                raise Undecided('the state of the parser')
            s.trans.append((p, h, t))
            if p[0] == 'phi':
                s.ps.add(p)
            else:
                raise Undecided('a loop that does not move on: ' + show(p)[:100])
    return s


def tok(kind, i, col=1, lex=None):
    p = lambda o: {'offset': 100 * i + o, 'line': i + 1, 'column': col + o}
    lex = lex or LEX[kind]
    return {'kind': V_(kind), 'lexeme': lex, 'span': {'start': p(0), 'end': p(len(lex) - 1)}, '#': i}


def same(a, b):
    """equal values, whatever they are called"""
    if isinstance(a, dict) and isinstance(b, dict):
        ks = (set(a) | set(b)) - {'!', '#'}
        return all(k in a and k in b and same(a[k], b[k]) for k in ks) and (a.get('!') == b.get('!') or '!' not in a or '!' not in b or bool(ks))
    return a == b


def call_value(name):
    """what a call gives: a node or an error"""
    def f(ev, cur, *a):
        return {'!': '*', 'call': (name, ev.val(cur)) + tuple(ev.val(x) for x in a)}
    return f


def as_call(t, ev):
    """(outcome, name, index, arguments) when t is the node or the error of a call"""
    if t[0] == 'fld' and t[2] in ('Ok', 'Err') and t[1][0] == 'app' and t[1][1] in CALLS:
        return (t[2], t[1][1], ev.val(t[1][2])) + tuple(ev.val(x) for x in t[1][3:])
    return None


class Sample:
    """tokens, index of the own token, index of the loop, what is expected there"""
    def __init__(self, desc, toks, own, p, want, after=None, extra=None):
        self.desc, self.toks, self.own, self.p, self.want, self.after, self.extra = desc, toks, own, p, want, after, extra or {}
        self.title, self.kids = '', None


TEXT_ = 'the text'


def ev_for(s, x, token='token'):
    env = {mk('fld', mk('sym', 'self'), None, 'tokens'): x.toks, mk('fld', mk('sym', 'self'), None, 'text'): TEXT_,
           getf(getf(mk('sym', 'self'), None, 'parser'), None, 'current'): x.own}
    if x.own < len(x.toks):
        env[mk('sym', token)] = x.toks[x.own]
        if token == 'start_token' and x.own + 1 < len(x.toks):
            env[mk('sym', token)] = x.toks[x.own + 1]
    for p in s.ps:
        if x.p is not None:
            env[p] = x.p
    env.update(x.extra)
    calls = {n: call_value(n) for n in CALLS if n != 'parse_string'}

    def string(ev, cur, t):
        c, t = ev.val(cur), ev.val(t)
        if c != x.own or t != x.toks[c + 1]:
            return {'!': 'other string'}
        return x.title
    calls['parse_string'] = string

    def empty(ev, v):
        # of the nodes read so far
        if v[0] == 'S' and any(p[0] in ('each', 'loopseq') for p in v[2]) and x.kids is not None:
            return x.kids == 0
        if v[0] == 'S' and any(p[0] in ('each', 'loopseq') for p in v[2]):
            raise Free(v)
        return not ev.val(v)
    calls['empty'] = empty

    def length(ev, v):
        if v[0] == 'S' and any(p[0] in ('each', 'loopseq') for p in v[2]):
            raise Free(v)
        l = ev.val(v)
        return len(l.encode()) if isinstance(l, str) else len(l)
    calls['len'] = length

    def end(ev, v):
        if v[0] == 'S' and any(p[0] in ('each', 'loopseq') for p in v[2]) and x.kids is not None:
            return V_('Some', **{'0': {'!': '*'}}) if x.kids else V_('None')
        if v[0] == 'S' and any(p[0] in ('each', 'loopseq') for p in v[2]):
            raise Free(v)
        l = ev.val(v)
        return V_('Some', **{'0': l[-1]}) if l else V_('None')
    calls['last'] = end
    for n in CALLS:
        def after(ev, cur, *a, n=n):
            if x.after is None:
                raise Free(cur)
            return x.after
        calls['after_' + n] = after
    return Ev(env, calls)


def as_term_call(t):
    return t[0] == 'app' and t[1] in CALLS


def error_of(t, ev):
    """('err', kind, its text, span) or ('errof', call)"""
    c = as_call(t, ev)
    if c and c[0] == 'Err':
        return ('errof',) + c[1:]
    v = ev.val(t)
    if isinstance(v, dict) and isinstance(v.get('kind'), dict):
        return ('err', v['kind']['!'], v['kind'].get('0'), v.get('span'), v.get('text'))
    raise Unk(t)


class Judge:
    """obligations about nodes belong to C28, those about rejected tokens to C29"""
    def __init__(self, R, which):
        self.R, self.which, self.done = R, which, set()

    def once(self, pid, ok, what, where, detail):
        if pid != self.which:
            return ok
        if (what, where, bool(ok)) in self.done:
            return ok
        self.done.add((what, where, bool(ok)))
        if ok:
            self.R.ok(what, where)
        else:
            self.R.bad(what, where, detail() if callable(detail) else detail)
        return ok

    def und(self, what, detail):
        if (what, str(detail)) not in self.done:
            self.done.add((what, str(detail)))
            self.R.undecided(what, detail)


def outcomes(J, s, samples, node, token='token', step=None):
    """every outcome and every step of the loop against what the representatives stand for.
    want: ('err', kind, text, token) | ('ok',) | ('next', call, arguments)"""
    k = s.key
    for x in samples:
        ev = ev_for(s, x, token)
        if not any(ev.holds(y)[0] is not False for y in [o.facts for o in s.r.all] + [t.facts for p, h, t in s.trans]):
            J.und('no outcome', x.desc)
    for o in s.r.all:
        for x in samples:
            ev = ev_for(s, x, token)
            ok, odd = ev.holds(o.facts)
            if ok is False:
                continue
            w = x.want
            if ok is None:
                J.und('guards', [show(f)[:150] for f in odd[:3]])
                break
            d = lambda: x.desc
            if o.kind != 'ret' and ev.freed:
                continue
            if o.kind != 'ret':
                J.once('C29', False, 'no sequence of tokens makes the parser panic', k, lambda: f'{x.desc}: panic at {o.where}')
                continue
            if rec(o.val, 'Err') is not None:
                try:
                    e = error_of(rec(o.val, 'Err')['0'], ev)
                except Unk:
                    J.und('error', show(o.val)[:200])
                    break
                if e[0] == 'errof':
                    good = w[0] in ('next', 'tail') and e[1] == w[1] and e[2] == w[2]
                    if not J.once('C28' if w[0] == 'next' else 'C29', good, 'the production is chosen by the token behind the branch', k, d):
                        continue
                    continue
                if not J.once('C29', w[0] == 'err', 'tokens that make a tree are not rejected', k, lambda: f'{x.desc}: {e[1]}'):
                    continue
                if not J.once('C29', e[1] == w[1] and (w[2] is None or e[2] == w[2]), 'tokens that make no tree are rejected with the error that says why', k, lambda: f'{x.desc}: {e[1:3]}'):
                    continue
                if w[3] is not None and not J.once('C29', isinstance(e[3], dict) and any(same(e[3], z) for z in w[3]), 'an error is located at the token it is about', k, lambda: f'{x.desc}: {e[1]}'):
                    continue
                if not J.once('C29', e[4] == TEXT_, 'an error carries the text of the tree', k, d):
                    continue
                continue
            if w[0] == 'err':
                J.once('C29', False, 'tokens that make no tree are rejected', k, lambda: f'{x.desc}: {w[1]}')
                continue
            if w[0] == 'next':
                J.once('C28', False, 'every branch inside a node becomes a child of it', k, d)
                continue
            if not node(J, s, o, x, ev):
                continue
    for p, h, t in s.trans:
        for x in samples:
            ev = ev_for(s, x, token)
            ok, odd = ev.holds(t.facts)
            if ok is False:
                continue
            w = x.want
            d = lambda: x.desc
            if ok is None:
                J.und('guards', [show(f)[:150] for f in odd[:3]])
                break
            if w[0] == 'err':
                J.once('C29', False, 'tokens that make no tree are rejected', k, lambda: f'{x.desc}: {w[1]}')
                continue
            if w[0] != 'next':
                J.once('C28', False, 'only what is inside a node becomes part of it', k, d)
                continue
            if not step(J, s, t, x, ev):
                continue


def child_step(J, s, t, x, ev):
    """one child: read by its production, and the parser moves on behind it"""
    k, w = s.key, x.want
    c = s.cur(t)
    if c[0] == 'app' and c[1].startswith('after_'):
        try:
            got = (c[1][6:], ev.val(c[2])) + tuple(ev.val(a) for a in c[3:])
        except Unk:
            J.und('step', show(c)[:200])
            return False
        return J.once('C28', got == w[1:], 'each child is read by the production of its kind, at its own token', k, lambda: f'{x.desc}: {got[:2]}')
    if c[0] == 'app' and c[1] == 'plus' and find_terms(c, lambda y: y[0] == 'app' and y[1].startswith('after_')) or c in s.ps:
        return J.once('C28', False, 'no token is passed over', k, lambda: f'{x.desc}: {show(c)[:100]}')
    J.und('step', show(c)[:200])
    return False


def children(J, s, v, x0, samples, token='token'):
    """the vector holds, in order, the node of every child"""
    k = s.key
    if v in s._kids:
        return s._kids[v]
    s._kids[v] = False
    ps = flat(v)
    if not ps:
        s._kids[v] = True      # judged by the samples: no child was to be read
        return True
    if len(ps) != 1 or ps[0][0] != 'each':
        if lossy(v) or reordering(v, v):
            J.once('C28', False, 'the children of a node are all of them, in order', k, show(v)[:200])
        else:
            J.und('children', show(v)[:200])
        return False
    for g, d in ps[0][2]:
        gs = guards_of(g)
        hit = False
        for x in samples:
            if x.want[0] != 'next':
                continue
            ev = ev_for(s, x, token)
            ok, odd = ev.holds(gs)
            if ok is False:
                continue
            if ok is None:
                if d or not any(f[0] == 'variant' and as_term_call(f[1]) and admits(y, 'Ok') for f, y in gs.items()):
                    continue
            hit = True
            if len(d) != 1:
                J.once('C28', False, 'the children of a node are all of them, in order', k, lambda: f'{x.desc}: {len(d)} nodes')
                return False
            c = None
            try:
                c = as_call(d[0][1], ev) if d[0][0] == 'one' else None
            except Unk:
                pass
            if c is None:
                J.und('child', show(d)[:200])
                return False
            if not J.once('C28', c[0] == 'Ok' and c[1:] == x.want[1:], 'each child is read by the production of its kind, at its own token', k, lambda: f'{x.desc}: {c[1:3]}'):
                return False
        if not hit:
            J.und('child', gshow(gs))
            return False
    s._kids[v] = True
    return True


def spans(J, s, v, x, ev, end):
    try:
        sp = ev.val(v)
    except Unk:
        J.und('span', show(v)[:200])
        return False
    good = isinstance(sp, dict) and same(sp.get('start'), x.toks[x.own]['span']['start']) and same(sp.get('end'), end)
    return J.once('C28', good, 'a node spans its tokens', s.key, lambda: f'{x.desc}: {show(v)[:150]}')


def value(J, s, pid, what, t, want, x, ev):
    try:
        v = ev.val(t)
    except Unk:
        J.und(what, show(t)[:200])
        return False
    return J.once(pid, v == want, what, s.key, lambda: f'{x.desc}: {v!r} for {want!r}'[:300])


def made(v, name):
    """Ok(Ast::name(record)) -> the fields of the record"""
    v = rec(v, 'Ok')
    v = v and rec(v['0'], name)
    v = v and v.get('0')
    return dict(v[3]) if v and v[0] == 'adt' else None


def own_span(t):
    """places that point at a token: itself, or its end"""
    return (t['span'], {'start': t['span']['end'], 'end': t['span']['end']}, {'start': t['span']['start'], 'end': t['span']['start']})


def consts(s):
    """the strings and numbers the transition system compares with or makes"""
    S, N = set(), set()
    for o in s.r.rets:
        for t in list(o.facts) + [o.val]:
            for c in find_terms(t, lambda y: y[0] in ('str', 'char', 'int')):
                if c[0] == 'int':
                    N.add(c[1])
                else:
                    S.add(c[1] if c[0] == 'str' else chr(c[1]))
    for p, h, t in s.trans:
        for f in t.facts:
            for c in find_terms(f, lambda y: y[0] in ('str', 'char', 'int')):
                if c[0] == 'int':
                    N.add(c[1])
                else:
                    S.add(c[1] if c[0] == 'str' else chr(c[1]))
    return sorted(x for x in S if 0 < len(x) < 20 and not any(c.isspace() for c in x))[:8], sorted(n for n in N if 1 < n < 500)[:6]


def inner_samples(s, first, ident=False):
    """a branch, its words, and what follows: nothing, a branch at any column, with anything behind it"""
    OWN = 5
    S, N = consts(s)
    titles = [[], ['the', "caller's-\"é\"", '_x²_']]
    for c in S:
        ws = [c, c + 'x', 'x' + c + 'x', 'x' + c]
        if not ident or all(y.isalnum() or y in '_-\'"' for y in c):
            titles += [ws, [c]]
    cols = sorted({2, OWN, OWN + 1, OWN + 4} | {OWN + n + d for n in N for d in (-1, 0, 1)})
    for st in (None,) + first:
        for ws in titles:
            if st is None and ws:
                continue
            t = [tok('Word', 0), tok('Tee', 1, OWN)]
            if st is not None:
                t.append(tok(st, 2, OWN + 3))
            for i, w in enumerate(ws):
                t.append(tok('Word', 3 + i, OWN + 7 + 9 * i, w))
            for cur in (None,) + tuple((kd, c) for kd in ('Tee', 'Corner') for c in (cols if ws in titles[:2] else (2, OWN + 1))):
                for nx in (None,) + KINDS:
                    if cur is None and nx is not None or st is None and cur is not None:
                        continue
                    ts = list(t)
                    p = len(ts)
                    if cur:
                        ts.append(tok(cur[0], p, cur[1]))
                    if nx:
                        ts.append(tok(nx, p + 1, 30))
                    yield st, ws, OWN, cur, nx, ts, p


def describe(st, ws, OWN, cur, nx):
    return f'`{" ".join([st or "nothing"] + ws)}` at column {OWN}, then ' + ('the end' if cur is None else f'{cur[0]} at column {cur[1]} before {nx or "the end"}')


def san(t):
    return ''.join(c for c in t.replace('-', '_') if xid(c) or c == ' ')


def condition(R, J):
    s = system(R, pkey(R, 'parse_condition'), ('parse_condition', 'parse_action', 'parse_string', 'parse_description'))
    s._kids = {}
    S = []
    for st, ws, OWN, cur, nx, ts, p in inner_samples(s, ('When', 'Given'), True):
        own = ts[1]
        if st is None:
            w = ('err', 'EofUnexpected', None, own_span(own))
        elif not ws:
            w = ('err', 'TitleMissing', None, own_span(ts[2]))
        elif cur is None or cur[1] <= OWN:
            w = ('ok',)
        elif nx is None:
            w = ('err', 'EofUnexpected', None, own_span(own) + own_span(ts[p]))
        elif nx in ('When', 'Given'):
            w = ('next', 'parse_condition', p, ts[p])
        elif nx == 'It':
            w = ('next', 'parse_action', p, ts[p])
        else:
            w = ('err', 'TokenUnexpected', LEX[nx], own_span(ts[p + 1]))
        x = Sample(describe(st, ws, OWN, cur, nx), ts, 1, p, w)
        x.title = ' '.join([LEX.get(st, '')] + ws)
        S.append(x)

    def node(J, s, o, x, ev):
        c = made(o.val, 'Condition')
        if c is None:
            J.und('node', show(o.val)[:200])
            return False
        a = value(J, s, 'C28', 'the title of a condition is its words, joined by a space, dashes made underscores and what no identifier can hold removed', c['title'], san(x.title), x, ev)
        b = spans(J, s, c['span'], x, ev, x.toks[x.p - 1]['span']['end'])
        return children(J, s, c['children'], x, S) and a and b
    outcomes(J, s, S, node, step=child_step)


def action(R, J):
    s = system(R, pkey(R, 'parse_action'), ('parse_condition', 'parse_action', 'parse_string', 'parse_description'))
    s._kids = {}
    S = []
    for st, ws, OWN, cur, nx, ts, p in inner_samples(s, ('It',)):
        own = ts[1]
        if st is None:
            w = ('err', 'EofUnexpected', None, own_span(own))
        elif cur is None or cur[1] <= OWN:
            w = ('ok',)
        elif nx is None:
            w = ('err', 'EofUnexpected', None, own_span(own) + own_span(ts[p]))
        elif nx == 'Word':
            w = ('next', 'parse_description', p, ts[p], cur[1] - OWN)
        else:
            w = ('err', 'DescriptionTokenUnexpected', LEX[nx], own_span(ts[p + 1]))
        x = Sample(describe(st, ws, OWN, cur, nx), ts, 1, p, w)
        x.title = ' '.join([LEX.get(st, '')] + ws)
        S.append(x)

    def node(J, s, o, x, ev):
        c = made(o.val, 'Action')
        if c is None:
            J.und('node', show(o.val)[:200])
            return False
        a = value(J, s, 'C28', 'the title of an action is its words, joined by a space', c['title'], x.title, x, ev)
        b = spans(J, s, c['span'], x, ev, x.toks[x.p - 1]['span']['end'])
        return children(J, s, c['children'], x, S) and a and b
    outcomes(J, s, S, node, step=child_step)


def description(R, J):
    s = system(R, pkey(R, 'parse_description'), ('parse_condition', 'parse_action', 'parse_string'))
    S = []
    for first in (None, 'Word', 'It'):
        for delta in (1, 2, 4, 9):
            ts = [tok('Word', 0), tok('Corner', 1, 5)] + ([tok(first, 2, 8), tok('Word', 3, 14, 'x')] if first else [])
            x = Sample(f'a description `{first}` {delta} columns in', ts, 1, None, ('ok',) if first else ('err', 'EofUnexpected', None, own_span(ts[1])),
                       after=len(ts), extra={mk('sym', 'column_delta'): delta})
            x.title, x.delta = 'some  text', delta
            S.append(x)

    def node(J, s, o, x, ev):
        c = made(o.val, 'ActionDescription')
        if c is None:
            J.und('node', show(o.val)[:200])
            return False
        a = value(J, s, 'C28', 'the text of a description is indented as deep as it is nested in its action', c['text'], ' ' * x.delta + x.title, x, ev)
        return spans(J, s, c['span'], x, ev, x.toks[-1]['span']['end']) and a
    outcomes(J, s, S, node)


def words_of(v):
    """the pieces of a string, also when it is joined from a vector"""
    if app(v, 'join') and len(v) == 4 and v[3][0] == 'str':
        ps = flat(v[2])
        if ps and ps[0][0] == 'one' and all(p[0] == 'each' and all(y[0] == 'one' for g, d in p[2] for y in d) for p in ps[1:]):
            return [ps[0][1]] + [mk('each', p[1], tuple((g, tuple(z for y in d for z in (v[3], y[1]))) for g, d in p[2]), p[3], p[4]) for p in ps[1:]]
    return pieces_of(v, 'str')


def string(R, J):
    s = system(R, pkey(R, 'parse_string'), ())
    k = s.key
    S = []
    cs = consts(s)[0]
    for n in (None,) + KINDS + tuple(('Word', c) for c in cs):
        n, lx = n if isinstance(n, tuple) else (n, None)
        for m in (0, 2):
            # the loop at the token of index p, the next of kind n
            ts = [tok('Word', 0), tok('Tee', 1, 5), tok('It', 2, 8)] + [tok('Word', 3 + i, 12 + 9 * i, f'w{i}') for i in range(m)]
            p = len(ts) - 1
            if n:
                ts.append(tok(n, p + 1, 30, lx))
            x = Sample(f'{n or "the end"} behind {m + 1} words', ts, 1, p, ('word',) if n in WORDY else ('stop',))
            x.m = m
            S.append(x)
    for o in s.r.all:
        for x in S:
            ev = ev_for(s, x, 'start_token')
            ok, odd = ev.holds(o.facts)
            if ok is False:
                continue
            if ok is None:
                J.und('words', [show(f)[:150] for f in odd[:3]])
                break
            if o.kind != 'ret':
                J.once('C29', False, 'no sequence of tokens makes the parser panic', k, x.desc)
                break
            if not J.once('C28', x.want[0] == 'stop', 'a title goes on to the next branch or the end', k, lambda: x.desc):
                continue
            c = s.cur(o.st)
            try:
                at = ev.val(c)
            except Unk:
                J.und('words', show(c)[:200])
                break
            if not J.once('C28', at == len(x.toks) or at == x.p + 1, 'the words of a title are read, nothing else', k, lambda: f'{x.desc}: {show(c)[:100]}'):
                break
            ps = words_of(o.val)
            if not ps or ps[0] is not getf(mk('sym', 'start_token'), None, 'lexeme'):
                J.und('words', show(o.val)[:200])
                break
            if len(ps) > 2 or len(ps) == 2 and ps[1][0] != 'each':
                J.und('words', show(o.val)[:200])
                break
            if len(ps) == 2:
                for g, d in ps[1][2]:
                    for y in S:
                        if y.want[0] != 'word':
                            continue
                        e2 = ev_for(s, y, 'start_token')
                        if e2.holds(guards_of(g))[0]:
                            try:
                                v = ''.join(e2.str(z) for z in d)
                            except Unk:
                                J.und('words', show(d)[:200])
                                break
                            J.once('C28', v == ' ' + y.toks[y.p + 1]['lexeme'], 'the words of a title are joined by a space', k, lambda: f'{y.desc}: {v!r}')
    for p, h, t in s.trans:
        for x in S:
            ev = ev_for(s, x, 'start_token')
            ok, odd = ev.holds(t.facts)
            if ok is False:
                continue
            if ok is None:
                J.und('words', [show(f)[:150] for f in odd[:3]])
                break
            if not J.once('C28', x.want[0] == 'word', 'a title goes on to the next branch or the end', k, lambda: x.desc):
                break
            try:
                at = ev.val(s.cur(t))
            except Unk:
                J.und('words', show(s.cur(t))[:200])
                break
            if not J.once('C28', at == x.p + 1, 'no token is passed over', k, lambda: f'{x.desc}: {show(s.cur(t))[:100]}'):
                break


def branch(R, J):
    s = system(R, pkey(R, 'parse_branch'), ('parse_condition', 'parse_action', 'parse_description', 'parse_string'))
    S = []
    for own in ('Tee', 'Corner'):
        for nx in (None,) + KINDS:
            for left in (0, 1):
                ts = [tok('Word', 0), tok(own, 1, 1)] + ([tok(nx, 2, 5)] if nx else [])
                n = len(ts)
                if left:
                    if not nx:
                        continue
                    ts.append(tok('Tee', 3, 1))
                if nx is None:
                    w = ('err', 'EofUnexpected', None, own_span(ts[1]))
                elif nx not in ('When', 'Given', 'It'):
                    w = ('err', 'TokenUnexpected', LEX[nx], own_span(ts[2]))
                elif own == 'Tee' and not left:
                    w = ('err', 'TeeLastChild', None, own_span(ts[1]))
                elif own == 'Corner' and left:
                    w = ('err', 'CornerNotLastChild', None, own_span(ts[1]))
                else:
                    w = ('ok',)
                x = Sample(f'{own} before {nx or "the end"}, ' + ('with a branch behind it' if left else 'the last one'), ts, 1, None, w, after=n)
                x.call = 'parse_action' if nx == 'It' else 'parse_condition'
                x.title = ''
                S.append(x)
    # the error of the node itself comes first
    k = s.key

    def node(J, s, o, x, ev):
        try:
            v = rec(o.val, 'Ok')['0']
            c = as_call(v, ev)
        except (Unk, TypeError):
            c = None
        if c is None:
            J.und('node', show(o.val)[:200])
            return False
        return J.once('C28', c == ('Ok', x.call, 1, x.toks[1]), 'the production is chosen by the token behind the branch', k, lambda: f'{x.desc}: {c[1]}')
    rets = s.r.rets
    keep = []
    for o in rets:
        e = rec(o.val, 'Err')
        if e is not None and e['0'][0] == 'fld' and e['0'][2] == 'Err' and e['0'][1][0] == 'app' and e['0'][1][1] in CALLS:
            for x in S:
                ev = ev_for(s, x)
                ok, odd = ev.holds(o.facts)
                if not ok:
                    if ok is None:
                        J.und('guards', [show(f)[:150] for f in odd[:3]])
                        break
                    continue
                try:
                    c = as_call(e['0'], ev)
                except Unk:
                    J.und('error', show(o.val)[:200])
                    break
                J.once('C28', c == ('Err', x.call, 1, x.toks[1]) and x.want[1:2] not in (('EofUnexpected',), ('TokenUnexpected',)), 'the production is chosen by the token behind the branch', k, lambda: f'{x.desc}: {c[1]}')
            continue
        keep.append(o)
    s.r.rets = keep
    outcomes(J, s, S, node)


def root(R, J):
    s = system(R, pkey(R, 'parse_root'), ('parse_branch', 'parse_condition', 'parse_action', 'parse_description', 'parse_string'))
    s._kids = {}
    S = []
    for n, lx in ((0, 'Foo::bar'), (2, "x²_-'x")) + tuple((0, y) for c in consts(s)[0] for y in (c, c + 'x', 'x' + c, 'x' + c + 'x')):
        for cur in (None,) + KINDS:
            ts = [tok('Word', 0, 1, lx)] + [tok('Tee', 1 + i, 1) for i in range(n)]
            p = len(ts)
            if cur:
                ts += [tok(cur, p, 1), tok('It', p + 1, 5)]
            if cur is None:
                w = ('ok',)
            elif cur in ('Tee', 'Corner'):
                w = ('next', 'parse_branch', p, ts[p])
            else:
                w = ('err', cur + 'Unexpected', LEX[cur] if cur == 'Word' else None, own_span(ts[p]))
            x = Sample(f'{cur or "the end"} behind the root and {n} branches', ts, 0, p, w)
            x.kids = n
            S.append(x)

    def node(J, s, o, x, ev):
        c = made(o.val, 'Root')
        if c is None:
            J.und('node', show(o.val)[:200])
            return False
        a = value(J, s, 'C28', 'the contract is named by the first word', c['contract_name'], x.toks[0]['lexeme'], x, ev)
        return children(J, s, c['children'], x, S) and a
    outcomes(J, s, S, node, step=child_step)


def entry(R, J):
    k = R.anchor('bulloak_syntax::parser::Parser::parse')
    e = R.engine(opaque={pkey(R, 'parse_root'): stepping('parse_root')})
    r = R.analyse(k, eng=e)
    s = Sys()
    s.key, s.eng, s.r, s.trans, s.ps = k, e, r, [], set()
    names = [n for n in ('text', 'tokens')]
    S = []
    for f in (None,) + KINDS:
        for more in (0, 1):
            ts = [tok(f, 0)] if f else []
            if more and f:
                ts.append(tok('Corner', 1))
            if f is None:
                w = ('err', 'TreeEmpty', None, None)
            elif f == 'Word':
                w = ('tail', 'parse_root', 0)
            else:
                w = ('err', 'TreeRootless', None, own_span(ts[0]))
            x = Sample(f'a tree of {[t["kind"]["!"] for t in ts]}', ts, 7, None, w, extra={mk('sym', 'tokens'): ts, mk('sym', 'text'): TEXT_, getf(mk('sym', 'self'), None, 'current'): 7})
            x.title = ''
            S.append(x)

    def node(J, s, o, x, ev):
        v = o.val
        if v[0] == 'app' and v[1] == 'parse_root' or rec(v, 'Ok') is not None:
            if rec(v, 'Ok') is not None:
                v = rec(v, 'Ok')['0']
                v = v[1] if v[0] == 'fld' and v[2] == 'Ok' else v
            try:
                if v[0] == 'app' and v[1] == 'parse_root':
                    c = (ev.val(v[2]), ev.val(v[3]))
                    return J.once('C28', c == (0, x.toks[0]), 'a tree is parsed from its first token', k, x.desc)
            except Unk:
                pass
        J.und('node', show(o.val)[:200])
        return False
    outcomes(J, s, S, node)


PARTS = (entry, root, branch, condition, action, description, string)


def run(R, which):
    J = Judge(R, which)
    for f in PARTS:
        try:
            f(R, J)
        except Undecided as e:
            R.undecided(f.__name__, str(e))


@rule('C28', 'each node is made of the tokens it stands for: its title the words, its children, in order, the branches further right up to the next one that is not')
def nodes(R):
    run(R, 'C28')


@rule('C29', 'tokens that make no tree are rejected with the error that says why, at the token it is about; tokens that make one are not, and none makes the parser panic')
def rejected(R):
    run(R, 'C29')
