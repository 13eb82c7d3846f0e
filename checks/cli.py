"""The command line: effects, exit status, reports.  Entry point: `bulloak::main`."""
import re
from .base import *
from .util import *

CTX = 'bulloak_foundry::check::context::Context'
SCAFFOLD = 'bulloak_foundry::scaffold::scaffold'
CLI = mk('sym', 'cli')
CMD = getf(CLI, None, 'command')


def cmd_of(facts):
    for n in ('Scaffold', 'Check'):
        if variant_is(facts, CMD, n):
            return n
    return None


def cmdfld(cmd, name):
    return getf(getf(CMD, cmd, '0'), None, name)


def files_of(cmd):
    return cmdfld(cmd, 'files')


def known(facts, cmd, name):
    return facts.get(cmdfld(cmd, name))


def keys(R):
    """The library functions the command line calls, analysed on their own elsewhere."""
    return {
        'scaffold': R.anchor(SCAFFOLD),
        'new': R.anchor(CTX + '::new'),
        'fmt': R.anchor(CTX + '::fmt'),
        'check': R.anchor('<bulloak_foundry::check::rules::structural_match::StructuralMatcher as bulloak_foundry::check::rules::Checker>::check'),
        'fix': R.anchor('bulloak_foundry::check::violation::ViolationKind::fix'),
        'fix_order': R.anchor('bulloak_foundry::check::violation::fix_order'),
    }


def context_value(t, fields):
    """The Context record denoted by the term t, with some fields known."""
    names = ('tree', 'hir', 'sol', 'src', 'pt', 'comments', 'cfg')
    return mk('adt', CTX, 'Context', tuple(mk(n, fields[n] if n in fields else getf(t, None, n)) for n in names))


def h_new(eng, st, name, args, ctx, site, rty):
    """Context::new(tree, cfg): Ok(c) with c.tree = tree and c.sol = tree.with_extension(t.sol)
    (obligation context_paths)."""
    fr = [eng.freeze(st, a) for a in args]
    t = mkapp(name, *fr)
    out = []
    s0 = st.copy()
    eng.event(s0, 'call', name, mk('tup', tuple(fr)), t)
    for vn in ('Ok', 'Err'):
        s = s0.copy()
        if not eng.assume_variant(s, t, vn, True):
            continue
        eng.event(s, 'outcome', t, vn)
        if vn == 'Ok':
            c = getf(t, 'Ok', '0')
            out.append((s, OK(context_value(c, {'tree': fr[0], 'sol': mkapp('with_ext', fr[0], STR('t.sol')), 'cfg': fr[1]}))))
        else:
            out.append((s, ERR(getf(t, 'Err', '0'))))
    return out


def keeper(pos):
    """fix / fix_order: the returned context has the paths, tree and config of the one given
    (obligation fix_keeps_paths)."""
    def h(eng, st, name, args, ctx, site, rty):
        fr = [eng.freeze(st, a) for a in args]
        t = mkapp(name, *fr)
        s = st.copy()
        eng.event(s, 'call', name, mk('tup', tuple(fr)), t)
        c = fr[pos]
        return [(s, context_value(t, {n: getf(c, None, n) for n in ('tree', 'sol', 'hir', 'cfg')}))]
    return h


def h_check(eng, st, name, args, ctx, site, rty):
    """The checker returns some violations or none."""
    fr = [eng.freeze(st, a) for a in args]
    t = mkapp('violations', *fr)
    out = []
    for none in (True, False):
        s = st.copy()
        eng.event(s, 'call', name, mk('tup', tuple(fr)), t)
        if not eng.assume(s, mkapp('empty', t), none):
            continue
        if none:
            out.append((s, EMPTYVEC))
        else:
            eng.event(s, 'violated', t)
            out.append((s, mk('S', 'vec', (one(mkapp('head', t)), mk('all', mkapp('tail', t))))))
    return out


def failing(e):
    return (e[1] in ('fsr', 'fsw', 'fsopen', 'fsadd') and e[-1] == STR('Err')) or (e[1] == 'outcome' and e[3] in ('Err', STR('Err')))


FIND = ('bulloak_foundry::sol::find_contract', 'bulloak_foundry::hir::hir::Hir::find_contract')


def main_run(R, on_event=None, keyfn=None, check=None, **kw):
    k = keys(R)
    cached = getattr(R, '_main', None)
    if on_event is None and keyfn is None and check is None and cached:
        return cached
    op = {k['scaffold']: None, k['new']: h_new, k['fmt']: None, k['check']: check, k['fix']: keeper(1),
          k['fix_order']: keeper(3)}
    for n in FIND:
        f = R.anchor(n, opt=True)
        if f:
            op[f] = None
    a = dict(opaque=op, on_event=on_event)
    if keyfn:
        a['keyfn'] = keyfn
    r = R.analyse(R.anchor('bulloak::main'), **a, **kw)
    if on_event is None and keyfn is None and check is None:
        R._main = r
    return r


def on_cmd(res, cmd):
    return [o for o in res.all if cmd_of(o.facts) == cmd]


WRITES = ('fsw', 'fsopen', 'fsadd')      # whole file; opened for writing (path, mode); written to an opened file (path, text, mode)
FILLS = ('fsw', 'fsadd')


def need(R, what, n, floor):
    if n < floor:
        raise Undecided(f'{what}: {n} found, at least {floor} expected')


# ------------------------------------------------------------------ C01

def an_input(t, fl):
    """is the term one of the files, whichever it is"""
    if app(t, 'nth') or app(t, 'first') or app(t, 'last'):
        src = t[2]
    elif t[0] == 'elem':
        src = t[1]
    else:
        return False
    while src is not fl and (app(src, 'skip') or app(src, 'take') or app(src, 'rev') or app(src, 'slice')):
        src = src[2]
    return src is fl


@rule('C01', 'on every path of `main` that opens or writes a file under `scaffold`, either the path was found not to exist '
      'before, or the force flag is set, or the file is opened with create_new')
def no_clobber(R):
    sites = {}

    def ev(eng, st, e):
        if e[1] not in WRITES or cmd_of(st.facts) != 'Scaffold':
            return
        p = e[2]
        good = (e[1] == 'fsopen' and e[3] == STR('new')) or (e[1] == 'fsadd' and e[4] == STR('new')) or known(st.facts, 'Scaffold', 'force_write') is True or st.facts.get(mkapp('exists', p)) is False or st.facts.get(mkapp('is_file', p)) is False
        mode = e[3] if e[1] == 'fsopen' else e[4] if e[1] == 'fsadd' else None
        part = mode in (STR('keep'), STR('append')) and st.facts.get(mkapp('exists', p)) is not False
        eng.note((show(p)[-80:], good, part, show_facts(st.facts)[-400:]))
    r = main_run(R, on_event=ev)
    for p, good, part, f in r.eng.notes:
        sites.setdefault((p, good, part), dict(facts=f))
    need(R, 'file writes under scaffold', len(sites), 1)
    for (p, good, part), d in sites.items():
        R.check(not part, f'an existing {p} is replaced, never kept in part', 'bulloak::main', d['facts'])
        R.check(good, f'write to {p} is guarded by !exists or --force-write', 'bulloak::main', d['facts'])
    R.sample(list(sites))


@rule('C01', 'under `scaffold` with --write-files: when the output path exists and the force flag is off, stderr names the skipped path; when the flag is on, the write happens')
def skip_reported(R):
    r = main_run(R)
    FL = files_of('Scaffold')
    n = {True: 0, False: 0}
    for o in on_cmd(r, 'Scaffold'):
        if o.kind == 'panic':
            continue
        for p, path in eaches(o.log):
            if p[1][0] != 'elem' or p[1][1] is not FL or path:
                continue
            for g, d in p[2]:
                gg = dict(o.facts)
                gg.update(guards_of(g))
                evl = [e for e, _, _ in walk(d)]
                ex = [f[2] for f, v in gg.items() if f[0] == 'app' and f[1] in ('exists', 'is_file') and v is True]
                force = known(gg, 'Scaffold', 'force_write')
                if known(gg, 'Scaffold', 'write_files') is not True or not any(e[0] == 'fsr' for e in evl):
                    continue
                if force is True and not ex and not any(f[0] == 'app' and f[1] in ('exists', 'is_file') for f in gg) and not any(failing((0,) + e) for e in evl):
                    n[True] += 1
                    R.check(any(e[0] in WRITES for e in evl), 'with the force flag the file is written', o.where or r.entry, gshow(gg))
                if not ex:
                    continue
                if force is False:
                    n[False] += 1
                    R.check(any(e[0] == 'err' and mentions(e[1], x) for e in evl for x in ex), 'a skipped file is named on stderr', o.where or r.entry, gshow(gg))
                    R.check(not any(e[0] in WRITES for e in evl), 'a skipped file is not written', o.where or r.entry, gshow(gg))
                elif force is True:
                    n[True] += 1
                    R.check(any(e[0] in WRITES and e[1] in ex for e in evl), 'with the force flag the file is written', o.where or r.entry, gshow(gg))
    need(R, 'iterations that skip', n[False], 1)
    need(R, 'iterations that overwrite', n[True], 1)


# ------------------------------------------------------------------ C02

@rule('C02', 'on every path of `main`, a file is written under `scaffold` only with --write-files, under `check` only with --fix and without --stdout')
def read_only_modes(R):
    seen = {}

    def ev(eng, st, e):
        if e[1] not in WRITES:
            return
        c = cmd_of(st.facts)
        if c == 'Scaffold':
            good = known(st.facts, c, 'write_files') is True
        elif c == 'Check':
            good = known(st.facts, c, 'fix') is True and known(st.facts, c, 'stdout') is False
        else:
            good = False
        eng.note((c, good, show_facts(st.facts)[-500:]))
    for c, good, f in main_run(R, on_event=ev).eng.notes:
        seen.setdefault((c, good), f)
    need(R, 'commands that write', len({k[0] for k in seen}), 2)
    for (c, good), d in seen.items():
        R.check(good, f'files are written under {c} only in its writing mode', 'bulloak::main', d)


# ------------------------------------------------------------------ C03

DESTRUCTIVE = re.compile(
    r'^std::fs::(remove|rename|copy|create_dir|hard_link|soft_link|set_perm|DirBuilder|File::(set_|options))|^std::process::(Command|Child)|'
    r'^std::net::|^std::os::|^std::env::(set_|remove_var)|^std::fs::File::set_|^tempfile::|^std::thread::')
OPENERS = re.compile(r'^std::fs::(write|File::create|File::create_new|OpenOptions::open)')


@rule('C03', 'every path handed to a writing call is the input tree path with the extension replaced by t.sol; no function of the workspace calls '
      'a deleting, renaming, directory-creating, process-starting or networking library function')
def write_confinement(R):
    seen = {}

    def ev(eng, st, e):
        if e[1] not in WRITES:
            return
        c = cmd_of(st.facts)
        p = e[2]
        good = c is not None and app(p, 'with_ext') and p[3] == STR('t.sol') and an_input(p[2], files_of(c))
        fill = e[1] in FILLS
        el = set(find_terms(e[3], lambda t: an_input(t, files_of(c)))) if c and fill else set()
        same = not fill or p[2] in el and len(el) == 1 if good else None
        eng.note((c, show(p)[-120:], good, same, show(e[3])[-200:]))
    for k in main_run(R, on_event=ev).eng.notes:
        seen.setdefault(k, 1)
    need(R, 'write paths', len({k[0] for k in seen}), 2)
    for (c, p, good, same, txt) in seen:
        R.check(good, f'{c} writes only to the .t.sol sibling of an input tree', 'bulloak::main', p)
        if good:
            R.check(same, f'{c} writes to the sibling of a tree the text produced for that tree', 'bulloak::main', txt)
    n = 0
    for key, b in R.p.bodies.items():
        for bb in b['blocks']:
            t = bb[1]
            if t[0] != 'call':
                continue
            for path in callee_paths(t[1]):
                n += 1
                if DESTRUCTIVE.search(path):
                    R.bad(f'no call of {path}', key)
    need(R, 'call sites', n, 500)
    R.ok(f'{n} call sites of the workspace call no destructive library function')


def callee_paths(t):
    """The library paths named by the callee operand of a call."""
    out = []
    if isinstance(t, list) and t and t[0] == 'k' and t[1][0] == 'fn':
        for k in ('path', 'rpath'):
            if k in t[1][1]:
                out.append(canon(t[1][1][k]))
    return out


@rule('C03', 'Context::new: the contexts it returns pair the given tree path with its .t.sol sibling; fix and fix_order keep both')
def context_paths(R):
    r = R.analyse(R.anchor(CTX + '::new'), opaque={R.anchor('bulloak_foundry::hir::translate'): None})
    n = 0
    for o in r.rets:
        if o.val[0] == 'adt' and o.val[2] == 'Ok':
            c = getf(o.val, 'Ok', '0')
            n += 1
            t = mk('sym', 'tree')
            R.check(getf(c, None, 'tree') is t, 'Context::new keeps the tree path', r.entry, show(getf(c, None, 'tree'))[:200])
            R.check(getf(c, None, 'sol') is mkapp('with_ext', t, STR('t.sol')), 'Context::new derives the .t.sol path', r.entry, show(getf(c, None, 'sol'))[:200])
    need(R, 'successful outcomes of Context::new', n, 1)
    for nm, arg in (('bulloak_foundry::check::violation::ViolationKind::fix', 'ctx'), ('bulloak_foundry::check::violation::fix_order', 'ctx')):
        k = R.anchor(nm)
        r = R.analyse(k, opaque={x: None for x in emit_keys(R)})
        need(R, f'outcomes of {nm}', len(r.rets), 1)
        for o in r.rets:
            for f in ('tree', 'sol'):
                v = getf(o.val, None, f)
                R.check(v is getf(mk('sym', arg), None, f), f'{k.split("::")[-1]} keeps the {f} path', k, show(v)[:200])


def emit_keys(R):
    out = []
    for n in ('bulloak_foundry::sol::translator::Translator::translate', 'bulloak_foundry::sol::fmt::Formatter::emit',
              'bulloak_foundry::scaffold::emitter::Emitter::emit'):
        k = R.anchor(n, opt=True)
        if k:
            out.append(k)
    return out


# ------------------------------------------------------------------ C04

@rule('C04', 'under `scaffold`, the set of contents written with --write-files equals the set of contents printed without it (up to the final line break of println), '
      'and each is the formatted scaffold of the text of the very tree whose sibling is written')
def write_equals_stdout(R):
    r = main_run(R)
    outs, files = {}, {}
    FL = files_of('Scaffold')
    for o in on_cmd(r, 'Scaffold'):
        if o.kind == 'panic':
            continue
        for e, g, p in walk(o.log):
            gg = dict(o.facts)
            gg.update(g)
            if e[0] == 'out':
                ps = pieces_of(e[1], 'str')
                if ps and ps[-1][0] == 'str' and ps[-1][1].endswith('\n'):
                    last = ps[-1][1][:-1]
                    ps = ps[:-1] + ((STR(last),) if last else ())
                outs[content_key(ps, gg)] = (g, p)
            elif e[0] == 'fsopen':
                R.check(e[2] in (STR('new'), STR('trunc')), 'the text replaces what the file held', 'bulloak::main', show(e[2]))
            elif e[0] in FILLS:
                files[content_key(pieces_of(e[2], 'str'), gg)] = (g, p)
                el = find_terms(e[2], lambda t: an_input(t, FL))
                pe = find_terms(e[1], lambda t: an_input(t, FL))
                R.check(el and set(el) == set(pe), 'the file written belongs to the tree that was read', 'bulloak::main',
                        f'path {show(e[1])[-200:]} content {show(e[2])[-300:]}')
    need(R, 'written contents', len(files), 1)
    need(R, 'printed contents', len(outs), 1)
    for k in set(outs) | set(files):
        R.check(k in outs and k in files, 'the same text is printed and written', 'bulloak::main',
                lambda: f'printed: {[show(x)[:300] for x in outs]} written: {[show(x)[:300] for x in files]}')
    for k in files:
        src = find_terms(k, lambda t: app(t, SCAFFOLD))
        R.check(bool(src), 'what is written derives from the scaffold of the tree', 'bulloak::main', show(k)[:300])
        for s in src:
            a = s[2]
            R.check(app(a, 'content') and an_input(a[2], FL), 'the text scaffolded is the content of the input file', 'bulloak::main', show(a)[:300])
        R.sample(show(k))


def content_key(ps, facts):
    return mk('S', 'str', tuple(ps)) if len(ps) != 1 else ps[0]


# ------------------------------------------------------------------ C05

def esp(R, **kw):
    """`failed`: some read, write or library call has failed on this path."""
    c = getattr(R, '_esp', None)
    if c:
        return c

    def ev(eng, st, e):
        if failing(e) or e[1] == 'violated':
            if not (e[1] == 'outcome' and app(e[2], CTX + '::fmt')):
                st.tsset('failed', True)
    R._esp = main_run(R, on_event=ev, check=h_check)
    return R._esp


def exit_code(o):
    if o.kind == 'ret':
        v = o.val
        if v == UNIT:
            return 0
        if v[0] == 'adt' and v[2] == 'Err':
            return 1
        if v[0] == 'adt' and v[2] == 'Ok':
            return 0
        return None
    if o.kind == 'panic':
        return 101
    return o.code[1] if o.code[0] == 'int' else None


@rule('C05', 'typestate over `main` under `scaffold`: an outcome with exit status 0 is reached only with no failed read, scaffold or write before it, '
      'an outcome with another status only with one')
def scaffold_exit(R):
    r = esp(R)
    os = on_cmd(r, 'Scaffold')
    need(R, 'outcomes of scaffold', len(os), 2)
    for o in os:
        if o.kind == 'panic':
            continue
        c, f = exit_code(o), bool(o.st.tsget('failed', False))
        if c is None:
            R.bad('the exit status is a constant, never 0 after a failure', o.where or r.entry, show(o.val if o.kind == 'ret' else o.code)[:200])
            continue
        R.check((c != 0) == f, f'exit status {c if not f else "after a failure"}: ' + ('a failure was recorded' if f else 'nothing failed'), o.where or r.entry,
                f'exit status {c}, failed={f}, facts {show_facts(o.facts)[-500:]}')


@rule('C05', 'an outcome of `main` on which the command line could not be loaded, so that no command ran, has a non-zero exit status and writes to stderr')
def config_failure(R):
    r = esp(R)
    os = [o for o in r.all if cmd_of(o.facts) is None and o.kind != 'panic' and not o.st.tsget('loaded', False)]
    for o in os:
        c = exit_code(o)
        R.check(c is not None and c != 0, 'the exit status is not 0 when no command could be run', o.where or r.entry, f'exit status {c}, facts {show_facts(o.facts)[-300:]}')
        R.check(o.kind == 'ret' and o.val[0] == 'adt' and o.val[2] == 'Err' or any(e[0] == 'err' for e, _, _ in walk(o.log)), 'the failure to load the options is reported', o.where or r.entry)


@rule('C05', 'under `scaffold`, for each kind of failure the outcome that exits prints to stderr, for every failing input, the error and the path of that input')
def scaffold_reports(R):
    r = main_run(R)
    FL = files_of('Scaffold')
    causes = {}
    for o in on_cmd(r, 'Scaffold'):
        if o.kind != 'exit':
            continue
        for e, g, p in walk(o.log):
            if failing(('ev',) + e):
                pay = payload(e, g)
                if pay is not None:
                    causes.setdefault(cause_name(e), []).append((o, pay, g, e))
    need(R, 'kinds of failure', len(causes), 3)
    for cname, l in causes.items():
        for o, pay, g, e in l:
            el = find_terms(mk('x', *[x for x in e if isinstance(x, tuple)]), lambda t: t[0] == 'elem' and t[1] is FL)
            R.check(reported(o.log, pay, el), f'{cname} is reported with the path of the input', o.where,
                    f'no stderr output names {show(pay)[:200]} and {[show(x) for x in el]}')


def payload(e, g):
    """The error value of a failing event."""
    if e[0] == 'fsr':
        if g.get(mk('variant', mkapp('fs_ropen', e[1]))) == (True, ('Err',)):
            return getf(mkapp('fs_ropen', e[1]), 'Err', '0')
        if g.get(mk('variant', mkapp('fs_readb', e[1]))) == (True, ('Err',)):
            return getf(mkapp('fs_readb', e[1]), 'Err', '0')
        return getf(mkapp('fs_read', e[1]), 'Err', '0')
    if e[0] in WRITES:
        for f, v in g.items():
            if f[0] == 'variant' and f[1][0] == 'new' and f[1][1] in ('fs_write', 'fs_open') and v == (True, ('Err',)) and mentions(f[1], e[1]):
                return getf(f[1], 'Err', '0')
        return None
    return getf(e[1], 'Err', '0')


def cause_name(e):
    return {'fsr': 'a failed read', 'fsw': 'a failed write', 'fsopen': 'a failed write', 'fsadd': 'a failed write'}.get(e[0]) or 'a failure of ' + str(e[1][1]).split('::')[-1]


PATH_PARTS = ('of_file_name', 'of_file_stem', 'of_extension', 'of_parent')


def names(t, x):
    """t shows x itself, not only a part of the path x"""
    if t is x:
        return True
    if not isinstance(t, tuple) or (t and (t[0] == 'fld' or t[0] == 'app' and (t[1] in PATH_PARTS or '::' in str(t[1])))):
        return False        # a part of the path, or something computed from it
    return any(names(y, x) for y in t if isinstance(y, tuple))


def shows_path(p, b):
    """no alternative shows only a part of a path kept in the element b"""
    return not any(e[0] == 'err' and find_terms(e[1], lambda t: t[0] == 'app' and t[1] in PATH_PARTS and mentions(t, b)) for g, d in p[2] for e, _, _ in walk(d))


def reported(log, pay, elems):
    """The alternatives of a loop that print pay on stderr print the elements too, and there are some."""
    for p, path in eaches(log):
        txts = [[e for e, _, _ in walk(d) if e[0] == 'err'] for g, d in p[2]]
        txts = [t for t in txts if any(mentions(e[1], pay) for e in t)]
        if txts and all(any(names(e[1], x) for e in t) for t in txts for x in elems):
            return True
    # the same, of an element of a collection that holds the failures
    for p, path in eaches(log):
        b = p[1]
        if b[0] != 'elem' or not mentions(b[1], pay):
            continue
        if p[2] and all(any(e[0] == 'err' and mentions(e[1], b) for e, _, _ in walk(d)) for g, d in p[2]):
            # the parts of an element that are shown, and what each is
            if not elems or all(mentions(b[1], x) for x in elems) and shows_path(p, b):
                return True
    return False


# ------------------------------------------------------------------ C06

@rule('C06', 'under both commands, no outcome of `main` is reached before the loop over the input files is exhausted, and every iteration, '
      'whatever happened before, reads its own file (scaffold) or loads its own context (check)')
def isolation(R):
    r = main_run(R)
    k = keys(R)
    for cmd in ('Scaffold', 'Check'):
        FL = files_of(cmd)
        os = [o for o in on_cmd(r, cmd) if o.kind != 'panic']
        need(R, f'outcomes of {cmd}', len(os), 2)
        for o in os:
            R.check(any(f[0] == 'app' and f[1] == 'exhausted' and f[2] is FL for f in o.facts), f'{cmd}: all inputs are visited before the end',
                    o.where or r.entry, 'an outcome is reached while inputs remain: ' + show_facts(o.facts)[-300:])
            hits = 0
            for p, path in eaches(o.log):
                if p[1][0] == 'elem' and p[1][1] is FL and not path:
                    proc = []
                    for g, d in p[2]:
                        evl = [e for e, _, _ in walk(d)]
                        proc.append(any((e[0] == 'fsr' and e[1] is p[1]) if cmd == 'Scaffold' else (e[0] == 'call' and e[1] == k['new'] and e[2][1][0] is p[1])
                                        for e in evl))
                    if any(proc):
                        hits += 1
                        R.check(not left_early(r, p, o.facts), f'{cmd}: the loop over the inputs visits all of them', o.where or r.entry, show(p[1])[:200])
                        R.check(all(proc), f'{cmd}: every input is processed', o.where or r.entry, show(p)[:400])
            R.check(hits > 0, f'{cmd}: a loop processes the inputs', o.where or r.entry)
    # an input that went well leaves a trace: text on stdout, a file, or a notice that the file exists
    FL = files_of('Scaffold')
    for o in on_cmd(r, 'Scaffold'):
        if o.kind == 'panic':
            continue
        for p, path in eaches(o.log):
            if p[1][0] == 'elem' and p[1][1] is FL and not path:
                for g, d in p[2]:
                    evl = [e for e, _, _ in walk(d)]
                    if not any(e[0] == 'fsr' for e in evl) or any(failing(('ev',) + e) for e in evl):
                        continue
                    R.check(any(e[0] in ('out', 'err') + WRITES for e in evl), 'Scaffold: a processed input is printed, written or reported as skipped', o.where or r.entry, gshow(guards_of(g)))


@rule('C06', 'no panic is reachable from `main` under `scaffold` after a failed read, translation, formatting or write: failures stay values')
def no_panic_on_failure(R):
    k = keys(R)
    tr = R.anchor('bulloak_foundry::hir::translate')
    op = {tr: None}
    for n in emit_keys(R):
        op[n] = None
    r = R.analyse(k['scaffold'], opaque=op)
    need(R, 'outcomes of scaffold()', len(r.rets), 2)
    for o in r.panics:
        R.bad('scaffold() does not panic on a failed translation or formatting', o.where, show_facts(o.facts)[-300:])
    if not r.panics:
        R.ok('scaffold() turns a failed translation or formatting into an error', r.entry)
    m = main_run(R)
    ps = [o for o in on_cmd(m, 'Scaffold') if o.kind == 'panic']
    for o in ps:
        R.bad('the scaffold command does not panic on a failure', o.where, show_facts(o.facts)[-300:])
    if not ps:
        R.ok('no panic under scaffold', m.entry)


# ------------------------------------------------------------------ C07

@rule('C07', 'typestate over `main` under `check` without --fix: exit status 0 iff every context loaded and the checker returned no violation for any of them')
def check_exit(R):
    r = esp(R)
    os = [o for o in on_cmd(r, 'Check') if known(o.facts, 'Check', 'fix') is False]
    need(R, 'outcomes of check', len(os), 2)
    for o in os:
        c, f = exit_code(o), bool(o.st.tsget('failed', False))
        if c is None:
            R.bad('the exit status is a constant, never 0 after a failure', o.where or r.entry, show(o.val if o.kind == 'ret' else o.code)[:200])
            continue
        R.check((c != 0) == f, f'exit status of check {"after a violation" if f else "without violations"}', o.where or r.entry,
                f'exit status {c}, violated={f}, facts {show_facts(o.facts)[-500:]}')
        outs = [e for e, g, p in walk(o.log) if e[0] == 'out']
        R.check(bool(outs) != f, 'the success message is printed exactly on success', o.where or r.entry, [show(e[1])[:100] for e in outs])
        if f and o.kind != 'panic':
            R.check(any(e[0] == 'err' for e, g, p in walk(o.log)), 'violations are reported on stderr', o.where or r.entry)


# ------------------------------------------------------------------ C08

@rule('C08', 'under `check` without --fix: the checker runs on every loaded context, and the outcome that exits prints on stderr every load failure and every violation the checker returned')
def check_reports_all(R):
    k = keys(R)
    r = main_run(R)
    FL = files_of('Check')
    os = [o for o in on_cmd(r, 'Check') if known(o.facts, 'Check', 'fix') is False and o.kind != 'panic']
    need(R, 'outcomes of check', len(os), 2)
    for o in os:
        loaded = []
        runs = []
        for e, g, p in walk(o.log):
            if e[0] == 'outcome' and app(e[1], k['new']) and e[2] in ('Ok', STR('Ok')):
                loaded.append(e[1])
            if e[0] == 'call' and e[1] == k['check']:
                runs.append((e, g, p))
        # the checker runs in every alternative in which the context of the element was loaded
        ok = False
        for pc, path in eaches(o.log):
            if pc[1][0] != 'elem' or path:
                continue
            alts = [(guards_of(g), [e for e, _, _ in walk(d)]) for g, d in pc[2]]
            run = [any(e[0] == 'call' and e[1] == k['check'] for e in evl) for g, evl in alts]
            if not any(run):
                continue
            good = True
            for (g, evl), x in zip(alts, run):
                if not x:
                    # only when the context of this element failed to load
                    bad = any(f[0] == 'variant' and app(f[1], k['new']) and v == (True, ('Err',)) for f, v in g.items())
                    good = good and bad
            if pc[1][1] is FL or mentions(pc[1][1], FL):
                ok = ok or good
                R.check(not left_early(r, pc, o.facts), 'the loop over the contexts visits all of them', o.where or r.entry, show(pc[1])[:300])
        R.check(ok, 'the checker runs on every loaded context', o.where or r.entry, [show(x[0])[:100] for x in runs])
    ex = [o for o in os if o.kind == 'exit']
    need(R, 'failing outcomes of check', len(ex), 1)
    seen = {'load': 0, 'rule': 0}
    for o in ex:
        pays = set()
        for e, g, p in walk(o.log):
            if e[0] == 'outcome' and app(e[1], k['new']) and e[2] in ('Err', STR('Err')):
                pays.add(('load', getf(e[1], 'Err', '0')))
            if e[0] == 'call' and e[1] == k['check']:
                pays.add(('rule', e[3]))
        for kind, pay in pays:
            seen[kind] += 1
            R.check(reported_all(o.log, pay, kind), 'every load failure is printed' if kind == 'load' else 'every violation found is printed', o.where,
                    f'no stderr output for {show(pay)[:200]}')
    need(R, 'load failures', seen['load'], 1)
    need(R, 'checked contexts', seen['rule'], 1)


def reported_all(log, pay, kind):
    for p, path in eaches(log):
        b = p[1]
        for g, d in p[2]:
            txt = [e for e, _, _ in walk(d) if e[0] == 'err']
            if kind == 'load' and any(mentions(e[1], pay) for e in txt):
                return True
        if b[0] == 'elem' and (b[1] is pay or holds_all(b[1], pay, kind)):
            if p[2] and all(any(e[0] == 'err' and mentions(e[1], b) for e, _, _ in walk(d)) for g, d in p[2]):
                return True
    return False


def holds_all(v, pay, kind):
    """Does the sequence v contain pay (or, for a vector, all of its elements)"""
    if v[0] != 'S':
        return v is pay
    for p in v[2]:
        if p[0] == 'one' and p[1] is pay:
            return True
        if p[0] == 'all' and p[1] is pay:
            return True
        if p[0] == 'each':
            for g, d in p[2]:
                if holds_all(mk('S', 'vec', d), pay, kind):
                    return True
            if p[1][0] == 'elem' and p[1][1] is pay and all(len(d) == 1 and d[0][0] == 'one' and d[0][1] is p[1] for g, d in p[2]):
                return True
    return False


# ------------------------------------------------------------------ C09

@rule('C09', 'under `check --fix`: every violation the checker returned, other than an order violation, is handed to its fix on a context of the same file; order violations '
      'found afterwards are handed to the order fix; what is written or printed is the formatted text of the resulting context; load and write failures make the exit status non-zero')
def fix_honest(R):
    k = keys(R)
    r = main_run(R)
    os = [o for o in on_cmd(r, 'Check') if known(o.facts, 'Check', 'fix') is True and o.kind != 'panic']
    need(R, 'outcomes of check --fix', len(os), 2)
    FL = files_of('Check')

    def ev(eng, st, e):
        if failing(e) and not (e[1] == 'outcome' and app(e[2], k['fmt'])):
            st.tsset('failed', True)
    r2 = main_run(R, on_event=ev)
    for o in on_cmd(r2, 'Check'):
        if known(o.facts, 'Check', 'fix') is not True or o.kind == 'panic':
            continue
        c, f = exit_code(o), bool(o.st.tsget('failed', False))
        R.check(c is not None and (c != 0) == f, f'exit status of check --fix {"after a failed load or write" if f else "when everything was fixed"}', o.where or r2.entry,
                f'exit status {c}, failed={f}, facts {show_facts(o.facts)[-400:]}')
    nfix = nout = 0
    for o in os:
        for e, g, p in walk(o.log):
            if e[0] == 'call' and e[1] == k['fix']:
                nfix += 1
                # the kind is one of the violations of the checker on a context
                src = find_terms(e[2][1][0], lambda t: t[0] == 'elem')
                R.check(any(mentions(x, y) for x in src for y in [t for t in find_terms(x, lambda t: app(t, k['check']))]),
                        'the fixes are those of the violations found by the checker', o.where or r.entry, show(e[2])[:300])
            if e[0] in WRITES or (e[0] == 'out' and p):
                pass
        # every alternative of the loop over violations either fixes or is an order violation
        for pc, path in eaches(o.log):
            has = [any(e[0] == 'call' and e[1] == k['fix'] for e, _, q in walk(d) if not q) for g, d in pc[2]]
            if not any(has):
                continue
            if pc[1][0] != 'elem':
                R.undecided('the loop that fixes does not go through a sequence', show(pc)[:200])
                continue
            R.check(not left_early(r, pc, o.facts), 'every violation of a file is visited by the loop that fixes', o.where or r.entry, show(pc[1])[:300])
            src = pc[1][1] if pc[1][0] == 'elem' else pc[1]
            R.check(not any(lossy(t) for t in [src] + list(find_terms(src, lossy)) if find_terms(t, lambda t: app(t, k['check']))), 'no violation is left out before fixing', o.where or r.entry, show(src)[:300])
            for (g, d), h in zip(pc[2], has):
                if h:
                    continue
                gg = guards_of(g)
                order = any(f[0] == 'variant' and v == (True, ('FunctionOrderMismatch',)) for f, v in gg.items())
                R.check(order, 'only order violations are left to the order fix', o.where or r.entry, gshow(gg))
        # written / printed text is the formatted context
        for e, g, p in walk(o.log):
            txt = None
            if e[0] in FILLS:
                txt = e[2]
            elif e[0] == 'out' and p and find_terms(e[1], lambda t: app(t, k['fmt'])):
                txt = e[1]
            if txt is not None:
                nout += 1
                fm = find_terms(txt, lambda t: app(t, k['fmt']))
                if R.check(bool(fm), 'what --fix writes is the formatted context', o.where or r.entry, show(txt)[:300]) and e[0] in FILLS:
                    R.check(any(txt is getf(t, 'Ok', '0') for t in fm), 'what --fix writes is the whole text of the formatted context', o.where or r.entry, show(txt)[:300])
    need(R, 'fix calls', nfix, 1)
    need(R, 'fixed outputs', nout, 2)
    # order violations found after the other fixes go to the order fix; failures are reported
    nord = nerr = 0
    for o in os:
        for pc, path in eaches(o.log):
            if path:
                continue
            for g, d in pc[2]:
                gg = guards_of(g)
                top = [p[1][1:] for p in d if p[0] == 'one' and p[1][0] == 'ev']
                chk = [e for e in top if e[0] == 'call' and e[1] == k['check']]
                if not chk:
                    continue
                nord += 1
                last = chk[-1][3]
                ford = [e for e in top if e[0] == 'call' and e[1] == k['fix_order']]
                if ford:
                    R.check(mentions(ford[-1][2], last) and order_only(ford[-1][2][1][0], last), 'the order fix gets every order violation found last', o.where or r.entry,
                            show(ford[-1][2][1][0])[:400])
                else:
                    none = any((f[0] == 'app' and f[1] == 'empty' and v is True and mentions(f, last) and order_only(f[2], last)) or
                               (f[0] == 'variant' and 'find_contract' in show(f[1])[:80] and v == (True, ('None',))) for f, v in gg.items())
                    R.check(none, 'the order fix is skipped only without order violations or without a contract', o.where or r.entry, gshow(gg, 600))
                bad = [f[1] for f, v in gg.items() if f[0] == 'variant' and f[1][0] == 'new' and f[1][1] in ('fs_write', 'fs_open') and v == (True, ('Err',))]
                for b in bad:
                    nerr += 1
                    R.check(any(e[0] == 'err' and mentions(e[1], b) for e, _, _ in walk(d)), 'a failed write is reported', o.where or r.entry)
        for e, g, p in walk(o.log):
            if e[0] == 'outcome' and app(e[1], k['new']) and e[2] in ('Err', STR('Err')) and o.kind == 'exit':
                pay = getf(e[1], 'Err', '0')
                # nothing to print when every context loaded
                if any(f[0] == 'app' and f[1] == 'empty' and v is True and mentions(f, pay) for f, v in o.facts.items()):
                    continue
                R.check(reported_all(o.log, pay, 'load'), 'every load failure is printed', o.where or r.entry)
    need(R, 'checked contexts', nord, 1)
    need(R, 'failing writes', nerr, 1)
    # every loaded context is output
    for o in os:
        for pc, path in eaches(o.log):
            if path:
                continue
            alts = [(guards_of(g), [e for e, _, _ in walk(d)]) for g, d in pc[2]]
            run = [any(e[0] == 'call' and e[1] == k['check'] for e in evl) for g, evl in alts]
            if not any(run):
                continue
            R.check(not left_early(r, pc, o.facts), 'the loop over the loaded files visits all of them', o.where or r.entry, show(pc[1])[:300])
            for (g, evl), x in zip(alts, run):
                if x:
                    R.check(any(e[0] in WRITES or (e[0] == 'out' and find_terms(e[1], lambda t: app(t, k['fmt']))) for e in evl),
                            'every loaded file is rewritten or printed', o.where or r.entry, gshow(g))


def order_only(v, src):
    """v holds every order violation of the list src"""
    if v is src:
        return True
    for p in pieces_of(v, 'vec'):
        if p[0] == 'all' and p[1] is src:
            return True
        if p[0] == 'each' and mentions(p[1], src):
            good = True
            for g, d in p[2]:
                kept = any(x[0] == 'one' and x[1] is p[1] for x in d)
                order = [v for f, v in guards_of(g).items() if f[0] == 'variant' and mentions(f, p[1])]
                if not kept:
                    good = good and any((pos is False and 'FunctionOrderMismatch' in names) or (pos is True and 'FunctionOrderMismatch' not in names) for pos, names in order)
            if good:
                return True
    return False


# ------------------------------------------------------------------ C10

@rule('C10', 'the configuration handed to the library is the one given on the command line: each field of the Config argument of scaffold() and of Context::new is the '
      'value of the corresponding flag')
def config_mapping(R):
    r = main_run(R)
    k = keys(R)
    want = {
        ('Scaffold', k['scaffold']): {'solidity_version': 'solidity_version', 'emit_vm_skip': 'with_vm_skip', 'skip_modifiers': 'skip_modifiers'},
        ('Check', k['new']): {'skip_modifiers': 'skip_modifiers'},
    }
    for (cmd, fn), m in want.items():
        n = 0
        seen = set()
        for o in on_cmd(r, cmd):
            for e, g, p in walk(o.log):
                if e[0] == 'call' and e[1] == fn and e[3] not in seen:
                    seen.add(e[3])
                    n += 1
                    cfg = e[2][1][1]
                    for f, flag in m.items():
                        v = getf(cfg, None, f)
                        R.check(v is cmdfld(cmd, flag), f'{cmd}: {f} is the flag {flag}', r.entry, show(v)[:200])
                    if cmd == 'Check':
                        for f, dv in (('emit_vm_skip', FALSE), ('solidity_version', STR('0.8.0'))):
                            v = getf(cfg, None, f)
                            R.check(v is dv, f'{cmd}: {f} is the default, as there is no such option', r.entry, show(v)[:200])
        need(R, f'calls of {fn}', n, 1)


OPTIONS = {
    # field: (short, long, default, requires)
    'scaffold::Scaffold': {'write_files': ('w', 'write-files', False, None), 'force_write': ('f', 'force-write', False, 'write_files'),
                           'solidity_version': ('s', 'solidity-version', '0.8.0', None), 'with_vm_skip': ('S', 'vm-skip', False, None),
                           'skip_modifiers': ('m', 'skip-modifiers', False, None)},
    'check::Check': {'fix': (None, 'fix', False, None), 'stdout': (None, 'stdout', False, 'fix'), 'skip_modifiers': ('m', 'skip-modifiers', False, None)},
}


def arg_defs(t):
    """The argument definitions of a clap command: id -> method -> argument."""
    out = {}

    def chain(x):
        d, root = {}, None
        while x[0] == 'app' and '::Arg::' in x[1]:
            m = x[1].rsplit('::', 1)[1]
            if m == 'new':
                root = x[2]
                break
            d.setdefault(m, x[3] if len(x) > 3 else UNIT)
            x = x[2]
        return root, d
    for a in find_terms(t, lambda x: x[0] == 'app' and x[1].endswith('::Command::arg')):
        root, d = chain(a[3])
        if root is not None and root[0] == 'str':
            out[root[1]] = d
    return out


@rule('C10', 'the command line definition: evaluating the argument definitions of each subcommand gives the documented short and long names, defaults and requirements')
def cli_options(R):
    for t, opts in OPTIONS.items():
        k = R.anchor(f'<bulloak::{t} as clap_builder::derive::Args>::augment_args')
        r = R.analyse(k)
        need(R, 'outcomes', len(r.rets), 1)
        for o in r.rets:
            defs = arg_defs(o.val)
            need(R, f'arguments of {t}', len(defs), 3)
            for f, (s, l, dflt, req) in opts.items():
                d = defs.get(f)
                if not R.check(d is not None, f'{t} has the option {f}', k, sorted(defs)):
                    continue
                sh = d.get('short')
                R.check((sh is None) == (s is None) and (s is None or sh is mk('char', ord(s))), f'{t}: the short name of {f} is {s}', k, show(sh) if sh else 'none')
                R.check(d.get('long') is STR(l), f'{t}: the long name of {f} is {l}', k, show(d.get('long', UNIT)))
                dv = d.get('default_value')
                if isinstance(dflt, bool):
                    R.check(dv is not None and show(dv) in ("show(False)", "'false'") and d.get('action') is not None and 'SetTrue' in show(d['action']),
                            f'{t}: {f} is a flag that defaults to false', k, show(dv) if dv else 'none')
                else:
                    R.check(dv is STR(dflt), f'{t}: {f} defaults to {dflt}', k, show(dv) if dv else 'none')
                if req:
                    g = d.get('requires')
                    ok = g is not None and (g is STR(req) or defs.get(req, {}).get('group') is g)
                    R.check(ok, f'{t}: {f} requires {req}', k, show(g) if g else 'none')
