"""Determinism: sources of a result that is not a function of the command line and the files read.

A scan over all bodies of the MIR (closures and monomorphic instances included), not over paths: every call and
every function taken as a value is classified; what is made of the elements of a hash table, which come in an
arbitrary order, is followed to the operation that uses them up."""
from .base import *
from .util import *
import re

# each reads the clock, the process, the scheduler, an address or the random state
SOURCES = (
    (r'std::time::(Instant|SystemTime)::now$', 'the clock'),
    (r'std::time::SystemTime::elapsed$|std::time::Instant::elapsed$', 'the clock'),
    (r'std::process::id$|std::os::unix::process::parent_id$', 'the number of the process'),
    (r'std::thread::current$|std::thread::[\w:]*Thread::id$', 'the thread'),
    (r'core::fmt::rt::Argument::<.*>::new_pointer$|fmt::Pointer', 'an address'),
    (r'std::hash::random::RandomState::new$', 'a random state'),
    (r'^(rand|getrandom|fastrand)::', 'a random number'),
    (r'std::env::(vars|vars_os|temp_dir|home_dir|current_exe)$', 'the environment'),
    (r'std::fs::Metadata::(modified|created|accessed)$', 'the times of a file'),
    (r'std::thread::available_parallelism$', 'the machine'),
)
# may make the result depend on more than it should, or not
MAYBE = (
    (r'std::env::(var|var_os|current_dir)$', 'the environment'),
    (r'std::thread::(spawn|scope|Builder)|rayon::|std::sync::mpsc::', 'threads'),
    (r'std::fs::(read_dir|metadata|symlink_metadata)$|std::path::Path::(read_dir|metadata)$', 'the file system'),
)
QUIET_VARS = ('NO_COLOR', 'CLICOLOR', 'CLICOLOR_FORCE', 'FORCE_COLOR', 'TERM', 'COLORTERM', 'RUST_LOG', 'RUST_BACKTRACE')
HASHITER = re.compile(r'(std|hashbrown)(::[a-z_]+)*::(hash_)?(map|set)::(IntoIter|IntoValues|IntoKeys|IterMut|Iter|Keys|ValuesMut|Values|Drain|Difference|Intersection|SymmetricDifference|Union|ExtractIf)<')
HASHTY = re.compile(r'(std|hashbrown)(::[a-z_]+)*::Hash(Map|Set)<')
READDIR = 'std::fs::ReadDir'
UNORDERED_TARGET = re.compile(r'^(core::(result::Result|option::Option)<)?(std::collections::hash|hashbrown|alloc::collections::btree|alloc::collections::binary_heap|\(\)|usize|u64|u32|bool)')
COMMUTES = ('count', 'any', 'all', 'len', 'is_empty', 'sum', 'product', 'min', 'max', 'size_hint', 'contains', 'clone', 'drop', 'cmp', 'eq', 'is_disjoint', 'is_subset', 'is_superset')
PASSES = ('into_iter', 'iter', 'map', 'filter', 'filter_map', 'cloned', 'copied', 'flat_map', 'flatten', 'chain', 'inspect', 'by_ref', 'peekable', 'fuse', 'size_hint', 'as_ref', 'as_mut', 'borrow', 'deref', 'deref_mut', 'next', 'for_each', 'try_for_each')
PICKS = ('nth', 'take', 'skip', 'step_by', 'last', 'enumerate', 'zip', 'reduce', 'join', 'format', 'take_while', 'skip_while', 'map_while')
APPENDS = re.compile(r'(Vec::<.*>::(push|append|extend_from_slice|insert)$|String::(push|push_str|insert|insert_str|replace_range)$|VecDeque::<.*>::push|Write::write|_print$|_eprint$|std::fs::write$|IndexMap::<.*>::insert|IndexSet::<.*>::insert|core::iter::traits::collect::Extend::extend$)')
SORT = re.compile(r'::(sort|sort_by|sort_by_key|sort_by_cached_key|sort_unstable|sort_unstable_by|sort_unstable_by_key|sorted|sorted_by|sorted_by_key)$')


def base(k):
    """the name of a body without the lifetimes and instances in it"""
    return re.sub(r"<('\w+(, )?)+>", '<>', k)


def short(path):
    return path.rsplit('::', 1)[-1]


def fn_values(x, out):
    """all functions named in a part of a body"""
    if isinstance(x, list):
        if len(x) == 2 and x[0] == 'fn' and isinstance(x[1], dict):
            out.append(x[1])
            return
        for y in x:
            fn_values(y, out)


def succ(t):
    k = t[0]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'switch':
        return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
    return [x for x in t[1:2] if isinstance(x, int) and not isinstance(x, bool)]


def loop_of(b, i):
    """the blocks that lie on a way from block i back to it"""
    n = len(b['blocks'])
    nx = [succ(bl[1]) for bl in b['blocks']]

    def reach(edges, start):
        seen, todo = set(), list(start)
        while todo:
            x = todo.pop()
            if x in seen or x >= n:
                continue
            seen.add(x)
            todo += edges[x]
        return seen
    fwd = reach(nx, nx[i])
    back = [[] for _ in range(n)]
    for x in range(n):
        for y in nx[x]:
            if y < n:
                back[y].append(x)
    bwd = reach(back, [i])
    return fwd & bwd if i in fwd else set()


class Scan:
    def __init__(s, R):
        s.R, s.P = R, R.p
        s.calls = []          # (body, block, fn, terminator)
        s.edges = {}
        for k, b in s.P.bodies.items():
            es = s.edges.setdefault(k, set())
            for i, bl in enumerate(b['blocks']):
                t = bl[1]
                if t[0] == 'call' and t[1][0] == 'k' and t[1][1][0] == 'fn':
                    s.calls.append((k, i, t[1][1][1], t))
                fs = []
                fn_values(bl, fs)
                es |= {f.get('key') for f in fs if f.get('key')} | {f['path'] for f in fs}
            es |= set(s.closures(k))
        s.callers = {}
        for k, es in s.edges.items():
            for e in es:
                s.callers.setdefault(e, set()).add(k)

    def closures(s, k):
        if not hasattr(s, '_cl'):
            s._cl = {}
            for c in s.P.bodies:
                if '::{closure' in c:
                    s._cl.setdefault(base(c.rsplit('::{closure', 1)[0]), []).append(c)
        return s._cl.get(base(k), [])

    def derived(s, k):
        """Debug is for the developer: no text of the program comes from the derived implementations by itself"""
        return ' as core::fmt::Debug>' in k or ' as std::fmt::Debug>' in k

    def sorts(s, k):
        """the calls of sort in a body or in one of those that call it"""
        todo, seen, out = [k], set(), []
        while todo:
            x = todo.pop()
            if x in seen or len(seen) > 400:
                continue
            seen.add(x)
            todo += s.callers.get(x, ())
        for c, i, f, t in s.calls:
            if c in seen and SORT.search(f['path']):
                out.append((c, i, f, t))
        return out

    def appends(s, k, blocks=None, depth=2, seen=None):
        """operations whose effect depends on the order in which they are done"""
        seen = seen if seen is not None else set()
        if k in seen or k not in s.P.bodies:
            return []
        seen.add(k)
        out = []
        for i, bl in enumerate(s.P.bodies[k]['blocks']):
            if blocks is not None and i not in blocks:
                continue
            fs = []
            fn_values(bl, fs)
            for f in fs:
                if APPENDS.search(f['path']) or APPENDS.search(f.get('rpath', '')):
                    out.append((k, short(f['path']), bl[1][5] if bl[1][0] == 'call' else ''))
                elif f.get('key') and depth:
                    out += s.appends(f['key'], None, depth - 1, seen)
        return out


def const_strs(t, out):
    if isinstance(t, list):
        if len(t) == 2 and t[0] == 's' and isinstance(t[1], str):
            out.append(t[1])
        for x in t:
            const_strs(x, out)
    return out


def key_kind(s, f, t):
    """what a sort orders by: 'total' when different elements never tie, 'ties' when they do, None when unknown"""
    n = short(f['path'])
    if n in ('sort', 'sort_unstable', 'sorted'):
        return 'total'
    at = [m for a in f.get('args', []) for m in re.findall(r'\{closure@([^:]+:\d+):', str(a))]
    cl = [c for c in s.P.bodies if '{closure' in c and s.P.bodies[c]['loc'] in at]
    if not cl:
        return None
    kinds = {closure_kind(s, n, f, c) for c in cl}
    return kinds.pop() if len(kinds) == 1 else None


def closure_kind(s, n, f, c):
    fs = []
    for bl in s.P.bodies[c]['blocks']:
        fn_values(bl, fs)
    names = {short(x['path']) for x in fs}
    if n.endswith('by_key') or n.endswith('cached_key'):
        if names & {'len', 'is_empty', 'is_some', 'is_none', 'count', 'discriminant', 'rem', 'div'} or (f['args'][1:2] or [''])[0] in ('bool', '()'):
            return 'ties'
        if names <= {'index', 'deref', 'clone', 'first', 'unwrap', 'copied', 'cloned'} and re.search(r'span::(Span|Position)', str(f['args'][1:2])):
            return 'total'
    elif names <= {'index', 'deref', 'cmp', 'partial_cmp', 'clone', 'first', 'unwrap'}:
        return 'total'
    return None


@rule('C35', 'nothing the program does reads the clock, the process, threads, addresses, random numbers or the environment, and no order of a hash table reaches a text, a list or an output without being sorted')
def determined(R):
    s = Scan(R)
    R.funcs |= set(s.P.bodies)
    nsrc = nhash = 0
    for k, b in s.P.bodies.items():
        for i, bl in enumerate(b['blocks']):
            fs = []
            fn_values(bl, fs)
            for f in fs:
                p = f['path']
                at = f'{bl[1][5] if bl[1][0] == "call" else b["loc"]} in {k}'
                if 'serde' in p or 'clap' in k.split('>')[0]:
                    continue
                if s.derived(k):
                    continue
                for rx, what in SOURCES:
                    if re.search(rx, p) or re.search(rx, f.get('rpath', '')):
                        R.bad(f'the result does not depend on {what}', at, f'calls {p}')
                        break
                else:
                    for rx, what in MAYBE:
                        if re.search(rx, p):
                            if what == 'the environment' and bl[1][0] == 'call' and set(const_strs(bl, [])) & set(QUIET_VARS):
                                break
                            if p.endswith('env::var') or p.endswith('env::var_os'):
                                if bl[1][0] == 'call' and const_strs(bl, []):
                                    R.bad(f'the result does not depend on {what}', at, f'reads one of {const_strs(bl, [])}')
                                    break
                            R.undecided(f'the result does not depend on {what}', f'calls {p} at {at}')
                            break
                nsrc += 1
    R.ok(f'none of the functions called or passed on is a source of anything but the command line and the files')
    R.stats['function_references'] = nsrc
    for k, i, f, t in s.calls:
        if s.derived(k):
            continue
        p, n = f['path'], short(f['path'])
        at = f'{t[5]} in {k}'
        args = [str(a) for a in f.get('args', [])]
        self_ = args[0] if args else ''
        src = HASHITER.search(self_) or READDIR in self_
        what = 'the order of a hash table' if READDIR not in self_ else 'the order of a directory'
        # the elements themselves shown
        if re.search(r'Argument::<.*>::new_(debug|display)$', p) and HASHTY.search(' '.join(args)):
            R.bad('no hash table is shown in its order', at, f'{p} of {args}')
            continue
        if n == 'from_iter' and len(args) > 1 or n == 'extend' and len(args) > 2:
            y = ' '.join(args[1:])
            if HASHITER.search(y) or HASHTY.search(y):
                nhash += 1
                if not UNORDERED_TARGET.search(self_):
                    ordered(R, s, k, at, what, p, sortable=True)
                continue
        if p.endswith('::join') and HASHITER.search(' '.join(args)):
            ordered(R, s, k, at, what, p, sortable=False)
            continue
        if not src:
            continue
        nhash += 1
        if n == 'collect' or n == 'partition' or n == 'unzip' or n == 'collect_vec':
            if n == 'collect' and UNORDERED_TARGET.search(args[1] if len(args) > 1 else str(t[6])):
                R.ok(f'{what} does not reach the result', at)
            else:
                ordered(R, s, k, at, what, p, sortable='String' not in (args[1] if len(args) > 1 else '').split('<')[0])
        elif n in ('for_each', 'try_for_each', 'fold', 'try_fold'):
            cs = s.closures(k)
            cs = [x for x in cs if s.P.bodies[x]['loc'] + ':' in ' '.join(args)] or cs
            ap = [y for c in cs for y in s.appends(c)]
            looped(R, s, k, at, what, ap)
        elif n == 'next':
            lp = loop_of(s.P.bodies[k], i)
            if not lp:
                R.undecided(f'{what} does not reach the result', f'one element is taken at {at}')
                continue
            looped(R, s, k, at, what, s.appends(k, lp))
        elif n in PICKS:
            ordered(R, s, k, at, what, p, sortable=False)
        elif n in COMMUTES or n in PASSES:
            R.ok(f'{what} does not reach the result', at)
        elif n.startswith('sort'):
            R.ok(f'{what} does not reach the result', at)
        else:
            R.undecided(f'{what} does not reach the result', f'{p} at {at}')
    R.stats['uses_of_hash_tables_in_their_order'] = nhash


def looped(R, s, k, at, what, ap):
    shown = [x for x in ap if x[1] in ('_print', '_eprint', 'write', 'write_fmt', 'write_str', 'push_str')]
    lists = [x for x in ap if x not in shown]
    if shown and not s.sorts(k):
        R.bad(f'{what} does not reach the result', at, f'done in that order: {shown[:3]}')
    elif shown:
        hard = [x for x in shown if x[1] in ('_print', '_eprint')]
        if hard:
            R.bad(f'{what} does not reach the result', at, f'done in that order: {hard[:3]}')
        else:
            R.undecided(f'{what} does not reach the result', f'done in that order at {at}: {shown[:3]}')
    elif lists:
        ordered(R, s, k, at, what, f'a loop with {lists[:3]}', sortable=True)
    else:
        R.ok(f'{what} does not reach the result', at)


def ordered(R, s, k, at, what, how, sortable):
    ss = s.sorts(k) if sortable else []
    if not ss:
        R.bad(f'{what} does not reach the result', at, f'{how} keeps that order, nothing sorts it')
        return
    kinds = [key_kind(s, f, t) for c, i, f, t in ss]
    if 'total' in kinds:
        R.ok(f'{what} does not reach the result', at)
    elif all(x == 'ties' for x in kinds):
        R.bad(f'{what} does not reach the result', at, f'{how} keeps that order, and the sort at {ss[0][3][5]} leaves elements of equal key in it')
    else:
        R.undecided(f'{what} does not reach the result', f'{how} at {at}, sorted at {ss[0][3][5]} by an unknown key')
