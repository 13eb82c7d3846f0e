"""What the user is shown: errors about trees, violations, the fixes offered."""
import re
from .base import *
from .util import *
from .ev import *

SELF = mk('sym', 'self')
FE = 'bulloak_syntax::error::FrontendError<'
VK = 'bulloak_foundry::check::violation::ViolationKind'
VI = 'bulloak_foundry::check::violation::Violation'


def display(R, ty):
    ks = [k for k in R.p.bodies if k == f'<{ty} as std::fmt::Display>::fmt']
    if len(ks) != 1:
        raise Undecided(f'anchor not found: Display of {ty}')
    return ks[0]


def errors(R):
    """the error types about trees, with the types of their kinds"""
    out = {}
    for k in R.p.bodies:
        m = re.match(r'^<(\S+) as ' + re.escape(FE) + r'(.*)>>::\w+$', k)
        if m:
            out[m.group(1)] = m.group(2)
    if len(out) < 3:
        raise Undecided('anchor not found: the implementations of FrontendError')
    return sorted(out.items())


def fields(R, ty, **want):
    """the fields of a struct, by their types"""
    a = R.p.adts.get(ty)
    if not a or len(a['variants']) != 1:
        raise Undecided('anchor not found: ' + ty)
    v, out = a['variants'][0], {}
    for n, t in zip(v['f'], v['t']):
        for w, p in want.items():
            if re.search(p, t):
                out.setdefault(w, n)
    if len(out) != len(want):
        raise Undecided('fields of ' + ty)
    return out


def written(r, o):
    """what an outcome has written to its formatter"""
    ks = [k for k in o.st.store if k[0] == 'arg' and k[1] != 'self']
    if len(ks) != 1:
        raise Undecided('formatter')
    return ks[0][1], r.eng.freeze(o.st, o.st.store[ks[0]])


class Texts:
    """what the Display of a type, or a function, makes of a representative"""
    def __init__(self, R, key, opaque=None, value=False):
        self.R, self.key = R, key
        self.r = R.analyse(key, eng=R.engine(opaque=opaque or {}, overflow=True))
        self.value = value

    def of(self, env, calls, what):
        """the text, or None when it is not known; ('panic', ..) when computing it panics"""
        R, got, crash = self.R, [], None
        for o in self.r.all:
            t = None
            e = dict(env)
            if o.kind == 'ret':
                if self.value:
                    t = o.val
                else:
                    nm, t = written(self.r, o)
                    e[mk('sym', nm)] = ''
            ev = Ev(e, calls)
            ok, odd = ev.holds(o.facts)
            if ok is False:
                continue
            if ok is None:
                R.undecided(what, [show(f)[:150] for f in odd[:3]])
                return None
            if o.kind != 'ret':
                got.append(('panic', o.where))
                continue
            try:
                got.append(ev.str(t))
            except Crash as x:
                got.append(('panic', show(x.args[0])[:200]))
            except Unk as x:
                R.undecided(what, 'the text is not known: ' + (show(x.args[0])[:200] if x.args and isinstance(x.args[0], tuple) else str(x)[:200]))
                return None
        got = list(dict.fromkeys(got))
        if len(got) != 1:
            R.undecided(what, f'{len(got)} texts')
            return None
        return got[0]


def show_(ev, t):
    """the text of a value handed on to its own Display"""
    x = ev.val(t)
    if isinstance(x, dict) and 'shown' in x:
        return x['shown']
    if isinstance(x, dict) and isinstance(x.get('name'), str):
        return x['name']
    if isinstance(x, str) or isinstance(x, int) and not isinstance(x, bool):
        return str(x)
    raise Unk(t)


def pos(o, l, c):
    return {'!': 'Position', 'offset': o, 'line': l, 'column': c}


def span(a, b):
    return {'!': 'Span', 'start': pos(*a), 'end': pos(*b)}


DATA = ['Largest', 'uniQ', 'zebra']


def data(t, i):
    """a datum of that type, and the texts that show it"""
    if t.endswith('String') or t.endswith('str') or 'Cow<' in t:
        return DATA[i], [DATA[i]]
    if t == 'char':
        return '§', ['§']
    if t in ('usize', 'u32', 'u64'):
        return 4321 + i, [str(4321 + i)]
    if 'Vec<' in t and t.rstrip('>').endswith('Span'):
        return [span((700 + j, l, 3), (900, l, 9)) for j, l in enumerate((41, 57, 1203))], ['41', '57', '1203']
    return None, []


def said(text, what):
    """the words of a text without the data"""
    for w in what:
        text = text.replace(w, '')
    return ' '.join(re.findall(r'[^\W_]+', text.lower()))


def kinds(R, ty, skip=()):
    a = R.p.adts.get(ty)
    if not a:
        raise Undecided('anchor not found: ' + ty)
    T = Texts(R, display(R, ty), {k: 'pure' for k in R.p.bodies if k.endswith('::format_frontend_error')})
    seen = {}
    for v in a['variants']:
        n = v['n'] if 'n' in v else v['name']
        if n in skip:
            continue
        env, want = {}, []
        x = V_(n)
        for i, (f, t) in enumerate(zip(v['f'], v['t'])):
            x[f], w = data(t, i)
            if x[f] is None:
                if t.endswith('pt::FunctionDefinition') or t.endswith('Box<solang_parser::pt::FunctionDefinition>'):
                    x[f], w = {'!': 'FunctionDefinition', 'name': V_('Some', **{'0': {'!': 'Identifier', 'name': 'fnName'}})}, ['fnName']
                elif t.endswith('hir::FunctionDefinition') or 'hir::' in t and t.endswith('FunctionDefinition'):
                    x[f], w = {'!': 'FunctionDefinition', 'identifier': 'test_Ident'}, ['test_Ident']
            want.append((f, w))
        env[SELF] = x
        what = f'the message of {ty.split("::")[-3]}::{n}'
        got = T.of(env, {'show': show_}, what)
        if got is None:
            continue
        if isinstance(got, tuple):
            R.bad(what, T.key, f'showing it panics: {got[1]}')
            continue
        # positions in the list of the parts of a contract are no concern of the user
        show_all = [(f, w) for f, w in want if not (ty == VK and w and w[0].isdigit())]
        for f, w in show_all:
            nums = re.findall(r'\d+', got)
            miss = [y for y in w if (y not in nums if y.isdigit() else y not in got)]
            if len(w) > 1 and not miss:
                miss = [] if [y for y in nums if y in w] == w else ['the order of ' + ', '.join(w)]
            R.check(not miss, what + ' shows its data', T.key, f'field {f}: {miss} is not in {got!r}')
        yield n, x, got, want
        s = said(got, [y for f, w in want for y in w])
        R.check(s and s not in seen, 'every kind has a message of its own', T.key, f'{n} and {seen.get(s)} both read {got!r}')
        seen[s] = n


@rule('C31', 'the message of each kind of error has words no other kind of its stage has, and shows all the data of the error')
def kind_messages(R):
    for ty, kd in errors(R):
        for n, x, got, want in kinds(R, kd):
            if 'expected' in x:
                told(R, f'the message of {n} tells expected and found apart', got, x['expected'], [v for f, v in x.items() if f not in ('!', 'expected') and isinstance(v, str)])


def told(R, what, got, exp, others):
    for o in others:
        i, j = got.find(exp), got.find(o)
        f = re.search(r'(found|actual|got|instead|but)\W+' + re.escape(exp), got)
        g = re.search(r'(found|actual|got)\W+' + re.escape(o), got)
        R.check(not f and (g or i < j), what, '', f'{exp!r} is the one expected, {o!r} the one found: {got!r}')


TEXT = 'Largest\n├── when é is long\n│  └── It is 漢 zebra'
PLACES = [
    # (text, span, is its place shown)
    ('a word', TEXT, ((20, 2, 5), (23, 2, 8)), True),
    ('one character', TEXT, ((25, 2, 10), (25, 2, 10)), True),
    ('one character at the first column', TEXT, ((8, 2, 1), (8, 2, 1)), True),
    ('the end of the text', TEXT, ((69, 3, 23), (69, 3, 23)), True),
    ('the root', TEXT, ((0, 1, 1), (6, 1, 7)), True),
    ('a whole line', TEXT, ((8, 2, 1), (37, 2, 19)), True),
    ('several lines, ending further left', TEXT, ((14, 2, 5), (43, 3, 2)), True),
    ('several lines, ending further right', TEXT, ((8, 2, 1), (69, 3, 23)), True),
    ('the whole text', TEXT, ((0, 1, 1), (69, 3, 23)), True),
    ('a tree of one line', 'Largest', ((3, 1, 4), (6, 1, 7)), True),
    ('a line with blanks at both ends', 'a\n  b c  \nd', ((4, 2, 3), (6, 2, 5)), True),
    ('a line that ends in CR LF', 'a\r\n├── it\r\nd', ((13, 2, 5), (14, 2, 6)), True),
    ('an empty tree', '', ((0, 1, 1), (0, 1, 1)), False),
    ('a place behind the last line', 'a\n', ((2, 2, 1), (2, 2, 1)), False),
    ('a line far down', '\n'.join(f'line number {i}' for i in range(1, 121)), ((1500, 104, 6), (1505, 104, 11)), True),
    ('a column far right', 'a\n' + ' '.join(['word'] * 60), ((202, 2, 201), (205, 2, 204)), True),
]


def consts(T):
    """the numbers the text depends on"""
    n = set()
    for o in T.r.all:
        ts = list(o.facts) + ([written(T.r, o)[1]] if o.kind == 'ret' and not T.value else [o.val] if o.kind == 'ret' else [])
        for t in ts:
            n |= {abs(c[1]) for c in find_terms(t, lambda y: y[0] == 'int')}
            for f in o.facts.values():
                if isinstance(f, tuple) and f and f[0] == 'int':
                    n.add(abs(f[1]))
    return sorted(x for x in n if 2 <= x <= 500)[:6]


@rule('C31', 'the text of an error about a tree has the message of its kind and, unless its place is the empty one at the start, the line the place is in, carets below its columns, its line and its column')
def error_text(R):
    for ty, kd in errors(R):
        fl = fields(R, ty, kind='ErrorKind$', text='(String|str)$', span='Span$')
        T = Texts(R, display(R, ty), {display(R, kd): 'pure'})
        st = ty.split('::')[-2]
        ps = list(PLACES)
        for n in consts(T):
            for m in (n - 1, n, n + 1):
                t = '\n'.join('x' * (m + 30) for _ in range(m + 1))
                ps += [(f'line {m}', t, ((5 * m + 7, m, 2), (5 * m + 9, m, 4)), True), (f'column {m}', t, ((m + 40, 1, m), (m + 42, 1, m + 2)), True),
                       (f'{m} columns', t, ((31, 1, 3), (31 + m, 1, 2 + m)), True), (f'offset {m}', t, ((m, 1, m + 1), (m + 2, 1, m + 3)), True)]
        for d, text, (a, b), shown in ps:
            kind = V_('Kind', shown='the message of the kind')
            env = {SELF: {'!': 'Error', fl['kind']: kind, fl['text']: text, fl['span']: span(a, b)}}
            what = f'an error of the {st}'
            got = T.of(env, {'show': show_}, what)
            if got is None:
                return
            if isinstance(got, tuple):
                R.bad(f'{what} is shown without panic', T.key, f'{d}: panics at {got[1]}')
                continue
            ls = got.split('\n')
            R.check(sum(kind['shown'] in l for l in ls) == 1, f'{what} shows the message of its kind', T.key, f'{d}: {got!r}')
            if not shown and a == b and a[0] == 0:
                continue
            rest = [l for l in ls if kind['shown'] not in l]
            R.check(any(re.search(r'line\W*%d\b\D*col(umn)?\W*%d\b' % (a[1], a[2]), l) for l in rest), f'{what} tells line and column', T.key,
                    f'{d}: line {a[1]}, column {a[2]}: {got!r}')
            if not shown:
                continue
            line = text.split('\n')[a[1] - 1].rstrip('\r')
            n = max(1, b[2] - a[2] + 1)
            mark = ' ' * (a[2] - 1) + '^' * n
            ok = any(x == line and y.rstrip() == mark for x, y in zip(ls, ls[1:]))
            R.check(ok, f'{what} shows its line with carets below its columns', T.key, f'{d}: expected {line!r} above {mark!r} in {got!r}')


@rule('C31', 'a list of semantic errors shows every error once, in order')
def error_lists(R):
    for ty in [t for t in R.p.adts if t.endswith('semantics::Errors')]:
        fl = fields(R, ty, errs='Vec<')
        T = Texts(R, display(R, ty), {display(R, t): 'pure' for t, _ in errors(R)})
        for n in (1, 2, 3, 9) + tuple(m + d for m in consts(T) for d in (0, 1)):
            errs = [V_('Error', shown=f'<error {i}>\n') for i in range(n)]
            got = T.of({SELF: {'!': 'Errors', fl['errs']: errs}}, {'show': show_}, 'semantic errors')
            if got is None:
                return
            R.check(isinstance(got, str) and re.findall(r'<error \d+>', got) == [f'<error {i}>' for i in range(n)],
                    'every semantic error is shown, in order', T.key, f'{n} errors: {got!r}'[:400])
        return
    raise Undecided('anchor not found: the list of semantic errors')


@rule('C32', 'the message of each kind of violation has words no other kind has, and shows the names, function or path it is about, expected and found told apart')
def violation_kinds(R):
    for n, x, got, want in kinds(R, VK, skip=('ParsingFailed',)):
        ss = [w[0] for f, w in want if w and w[0] in DATA]
        if len(ss) == 2:
            told(R, f'the message of {n} tells expected and found apart', got, ss[0], ss[1:])


@rule('C32', 'a location is shown as its file and, if it has one, its line')
def locations(R):
    ty = 'bulloak_foundry::check::location::Location'
    T = Texts(R, display(R, ty))
    for file in ('a/Foo.t.sol', 'é f.tree', '/x/y.t.sol', 'f'):
        for line in [None, 1, 2, 7, 10, 99, 100, 4321] + consts(T):
            x = V_('File', **{'0': file}) if line is None else V_('Code', **{'0': file, '1': line})
            got = T.of({SELF: x}, {'show': show_}, 'a location')
            if got is None:
                return
            ok = isinstance(got, str) and (got.strip() == file if line is None else got.startswith(file) and re.fullmatch(r'\D*%d\D*' % line, got[len(file):]))
            R.check(ok, 'a location shows its file and line', T.key, f'{x}: {got!r}')


def kind_reps(R):
    """a representative of every kind of violation"""
    a = R.p.adts.get(VK)
    if not a:
        raise Undecided('anchor not found: ' + VK)
    out = {}
    for v in a['variants']:
        n = v['n'] if 'n' in v else v['name']
        x = V_(n, shown=f'the message of {n}')
        for i, (f, t) in enumerate(zip(v['f'], v['t'])):
            x[f] = data(t, i)[0] if data(t, i)[0] is not None else {'!': t.split('::')[-1]}
        out[n] = x
    return out


def changed_by_fix(R):
    """the kinds of violation `check --fix` does something about: those whose fix returns another context than it was given, and order violations (C09: they are fixed together)"""
    k = R.anchor(VK + '::fix')
    ops = {x: 'pure' for x in R.p.bodies if x.startswith('bulloak_foundry::') and re.search(r'::(find_contract|insert_function_at|get_insertion_offset|from_parsed|translate|emit|find_matching_fn)$', x)}
    ops.update({x: 'pure' for x in R.p.bodies if x.startswith('bulloak_foundry::sol::') and x.endswith(('::translate', '::emit'))})
    r = R.analyse(k, eng=R.engine(opaque=ops))
    out = {'FunctionOrderMismatch'}
    for n, x in kind_reps(R).items():
        for o in r.rets:
            if any(f[0] == 'variant' and f[1] is SELF and not admits(v, n) for f, v in o.facts.items()):
                continue
            if o.val[0] == 'sym' and o.val[1] == 'ctx':
                continue
            out.add(n)
    if len(out) == 1:
        raise Undecided('what the fixes change')
    return out


@rule('C32', 'a violation counts as fixable, and is shown with the command that fixes it, exactly when check --fix does something about it; the command and the help name the tree and the contract concerned')
def violation_text(R):
    fixed = changed_by_fix(R)
    R.sample('fixed: ' + ', '.join(sorted(fixed)))
    reps = kind_reps(R)
    for key in [k for k in R.p.bodies if k in (VK + '::is_fixable', VI + '::is_fixable')]:
        r = R.analyse(key)
        fl = {VK: None, VI: 'kind'}[key[:-len('::is_fixable')]]
        for n, x in reps.items():
            env = {SELF: x if fl is None else {'!': 'Violation', 'kind': x, 'location': V_('File', **{'0': 'f'})}}
            vs = set()
            for o in r.rets:
                ev = Ev(env, {'show': show_})
                try:
                    if ev.holds(o.facts)[0]:
                        vs.add(ev.val(o.val))
                except Unk:
                    vs.add(None)
            if len(vs) != 1 or None in vs:
                R.undecided('which violations count as fixable', f'{n}: {vs}')
                return
            R.check((n in fixed) in vs, 'what counts as fixable is what the fixes change', key, f'{n}: {vs}')
    fl = fields(R, VI, kind='ViolationKind$', location='Location$')
    T = Texts(R, display(R, VI), {display(R, VK): 'pure', display(R, 'bulloak_foundry::check::location::Location'): 'pure'})
    for n, x in reps.items():
        for loc in (V_('File', shown='<the location>', **{'0': 'a/Foo.t.sol'}), V_('File', shown='<the location>', **{'0': 'b/x.tree'}),
                    V_('Code', shown='<the location>', **{'0': '/c/Foo.t.sol', '1': 12}), V_('Code', shown='<the location>', **{'0': 'd.tree', '1': 1})):
            if n == 'SolidityFileMissing':
                x = dict(x, **{'0': 'w/Qux.tree'})
            env = {SELF: {'!': 'Violation', fl['kind']: x, fl['location']: loc}}
            what = f'a violation of the kind {n}'
            got = T.of(env, {'show': show_}, what)
            if got is None:
                return
            if isinstance(got, tuple):
                R.bad(f'{what} is shown without panic', T.key, got[1])
                continue
            d = f'{loc}: {got!r}'
            R.check(got.count(x['shown']) == 1 and got.count('<the location>') == 1, f'{what} shows its message and location', T.key, d)
            tree = loc['0'].replace('.t.sol', '.tree')
            hint = re.findall(r'bulloak check (?:--fix|-f) ([^`\s]+)', got)
            R.check(hint == ([tree] if n in fixed else []), f'{what}: the command that fixes it is shown when there is one, for its tree', T.key, d)
            rest = got.replace(x['shown'], '')
            if n in ('ContractMissing', 'ContractNameNotMatches'):
                h = re.sub(r'.*bulloak check.*', '', rest)
                R.check(DATA[0] in h and DATA[1] not in h, f'{what}: the help names the contract expected', T.key, d)
            if n == 'SolidityFileMissing':
                R.check(re.findall(r'bulloak scaffold ([^`]+)`', rest) == ['w/Qux.tree'], f'{what}: the help says how to make the file', T.key, d)


@rule('C32', 'when a pair of files cannot be parsed, the message blames the tree, with what is wrong, whichever stage rejected it, and the Solidity file otherwise')
def blame(R):
    key = R.anchor('bulloak_foundry::check::violation::format_frontend_error')
    tys = errors(R)
    lists = [t for t in R.p.adts if t.endswith('semantics::Errors')]
    T = Texts(R, key, {display(R, k): 'pure' for _, k in tys}, value=True)
    # semantic errors come as a list
    for t in [t for t, _ in tys if t.split('::')[-2] != 'semantics'] + lists + ['another error']:
        def down(ev, e, ty=None, t=t):
            if ty is None:
                raise Unk(e)
            if ev.val(ty) != t:
                return V_('None')
            return V_('Some', **{'0': {'!': 'Error', 'kind': V_('Kind', shown='what is wrong'), '0': [V_('Error', shown='what is wrong')], 'shown': 'what is wrong'}})
        calls = {'show': show_, 'err_downcast_ref': down, 'err_is': lambda ev, e, ty=None, t=t: ev.val(ty) == t}
        what = f'the message for {"an error of the " + t.split("::")[-2] if "::" in t else t}'
        env = {mk('sym', nm): {'!': 'anyhow'} for nm in ('error', 'arg1')}
        got = T.of(env, calls, what)
        if got is None:
            continue
        if isinstance(got, tuple):
            R.bad(what + ' is made without panic', key, got[1])
            continue
        tree = '::' in t
        R.check(('tree' in got.lower()) == tree and ('solidity' in got.lower() or '.sol' in got) == (not tree), what + ' blames the right file', key, repr(got))
        if tree and t not in lists:
            R.check('what is wrong' in got, what + ' says what is wrong', key, repr(got))


@rule('C32', 'the last line counts the violations shown and, if there are any, those check --fix can fix')
def summary(R):
    key = R.anchor('bulloak::check::exit')
    fx = [k for k in R.p.bodies if k in (VI + '::is_fixable', VK + '::is_fixable')]
    ops = {k: 'pure' for k in fx}
    ops[display(R, VI)] = 'pure'
    r = R.analyse(key, eng=R.engine(opaque=ops))
    calls = {'show': show_}
    for k in fx:
        calls[k] = lambda ev, x: ev.val(x)['fixable']
    ns = {c[1] for o in r.all for f, v in list(o.facts.items()) for t in (f, v) if isinstance(t, tuple) and t and isinstance(t[0], str) for c in find_terms(t, lambda y: y[0] == 'int') if 1 < c[1] < 200}
    nm = [p for b in [R.p.bodies[key]] for p in {r.eng.argname(b, 1), 'violations'}]
    for flags in [''] + [x for n in (1, 2, 3, 4, 21) for x in ('f' * n, 'n' * n, 'fn' * n, 'nf' * n)] + ['n' * m + 'f' * k for m in sorted(ns)[:4] for k in (0, 1, m, m + 1)]:
        vs = [{'!': 'Violation', 'shown': f'<violation>', 'fixable': c == 'f', 'kind': {'!': 'kind', 'fixable': c == 'f'}} for c in flags]
        env = {mk('sym', x): vs for x in nm}
        got = []
        for o in r.all:
            ev = Ev(env, calls)
            ok, odd = ev.holds(o.facts)
            if ok is False:
                continue
            if ok is None:
                R.undecided('the count of violations', [show(f)[:150] for f in odd[:3]])
                return
            if o.kind == 'panic':
                got.append(('panic', o.where))
                continue
            try:
                got.append(''.join(x[1] for x in ev.val(mk('S', 'vec', tuple(o.log))) if x[0] == 'err'))
            except Unk as x:
                R.undecided('the count of violations', show(x.args[0])[:200] if x.args and isinstance(x.args[0], tuple) else x)
                return
        if len(set(got)) != 1 or isinstance(got[0], tuple):
            R.undecided('the count of violations', f'{len(got)} outcomes {str(got)[:200]}')
            return
        tail = got[0].split('<violation>')[-1]
        n, m = len(flags), flags.count('f')
        d = f'{n} violations, {m} of them fixable: {tail!r}'
        nums = [int(x) for x in re.findall(r'\d+', tail)]
        R.check(nums == (([n] if n else []) + ([m] if m else [])), 'the counts are those of the violations and of the fixable ones', key, d)
        if n:
            R.check(('checks' in tail) == (n != 1) and 'fail' in tail, 'the number of violations is shown as such', key, d)
            R.check(('--fix' in tail) == (m > 0), 'fixes are offered when there are some', key, d)
