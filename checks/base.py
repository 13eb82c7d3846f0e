"""Harness of the checks: facts -> analyses -> obligations -> verdict, evidence."""
import json, os, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [p for p in (V, os.path.join(V, 'tools')) if p not in sys.path]
import facts as factsmod
from engine.core import *
from engine import core as C

RULES = {}
# library functions left uninterpreted on the tree the checks were written for; their being uninterpreted is harmless to the rules
KNOWN_OPAQUE = set(json.load(open(os.path.join(V, 'engine', 'opaque.json'))))


def rule(pid, statement):
    def deco(f):
        RULES.setdefault(pid, []).append((f, statement))
        return f
    return deco


class Undecided(Exception):
    pass


class Out:
    """One abstract outcome of an entry point."""
    __slots__ = ('kind', 'st', 'val', 'code', 'where', 'log', 'what')

    def __init__(self, eng, kind, st, val=None, code=None, where='', what=None):
        self.kind, self.st, self.val, self.code, self.where, self.what = kind, st, val, code, where, what
        self.log = pieces_of(eng.freeze(st, st.store.get(LOG, EMPTYVEC)), 'vec')

    @property
    def facts(self):
        return self.st.facts


class Res:
    def __init__(self, eng, entry, outs):
        self.eng, self.entry = eng, entry
        self.rets = [Out(eng, 'ret', s, eng.freeze(s, v)) for s, v in outs]
        self.exits, self.panics = [], []
        for k, s, i in eng.sink:
            w = f'{i[1]} in {eng.where(i[0])}'
            if k == 'exit':
                self.exits.append(Out(eng, 'exit', s, code=i[2], where=w))
            else:
                self.panics.append(Out(eng, 'panic', s, where=w, what=i[2]))

    @property
    def all(self):
        return self.rets + self.exits + self.panics


class Run:
    def __init__(self, pid, tier, prog):
        self.pid, self.tier, self.p = pid, tier, prog
        self.nchecks, self.seen = 0, set()
        self.obs = []            # (rule, what, status, where, detail)
        self.funcs = set()
        self.stats = {'abstract_steps': 0, 'abstract_outcomes': 0, 'loops': 0, 'analyses': 0}
        self.unmodelled = set()
        self.samples = []
        self.cur = ''
        self.strict = False      # arithmetic, indices and slices that panic are outcomes of their own

    # -- analyses
    def anchor(self, *names, opt=False):
        """The extracted function of that (canonical) path."""
        for n in names:
            if n in self.p.bodies:
                return n
        for n in names:
            ks = [k for k in self.p.bodies if k == n or k.endswith('::' + n)]
            if len(ks) == 1:
                return ks[0]
        if opt:
            return None
        raise Undecided('anchor not found: ' + ' / '.join(names))

    def engine(self, **kw):
        op = {}
        for k, h in (kw.pop('opaque', None) or {}).items():
            op[k] = h
        kw.setdefault('budget', 400000 if self.tier == 'quick' else 1500000)
        fuse = kw.pop('fuse', None)
        mapev = kw.pop('map_events', None)
        ovf = kw.pop('overflow', False)
        folds = kw.pop('folds', False)
        e = Engine(self.p, opaque=op, **kw)
        e.overflow = ovf or self.strict
        e.outofbounds = self.strict
        e.record_folds = folds
        if fuse is not None:
            e.fuse = fuse
        if mapev is not None:
            e.map_events = mapev
        return e

    def analyse(self, entry, eng=None, args=None, st=None, **kw):
        e = eng or self.engine(**kw)
        try:
            outs = e.run(entry, args=args, st=st)
            r = Res(e, entry, outs)
        except Abort as x:
            raise Undecided(f'{entry}: {x}')
        except RecursionError:
            raise Undecided(f'{entry}: term nesting too deep')
        finally:
            self.funcs |= set(e.funcs)
            self.stats['abstract_steps'] += e.steps
            self.stats['loops'] += getattr(e, 'loops', 0)
            self.stats['analyses'] += 1
            self.unmodelled |= set(e.unmodelled)
        self.stats['abstract_outcomes'] += len(r.all)
        return r

    # -- obligations
    def add(self, o):
        self.nchecks += 1
        if o[:4] not in self.seen:
            self.seen.add(o[:4])
            self.obs.append(o)

    def ok(self, what, where=''):
        self.add((self.cur, what, 'ok', where, ''))

    def bad(self, what, where='', detail=''):
        new = sorted(self.unmodelled - KNOWN_OPAQUE)
        if new:
            # the facts rest on a library function nothing is known of
            self.undecided(what, 'the current source calls library functions without a model: ' + ', '.join(new[:5]) + ' | ' + str(detail)[:300])
            return
        self.add((self.cur, what, 'violated', where, str(detail)[:1500]))

    def check(self, cond, what, where='', detail=''):
        if cond:
            self.ok(what, where)
        else:
            self.bad(what, where, detail() if callable(detail) else detail)
        return cond

    def undecided(self, what, why):
        self.add((self.cur, what, 'undecided', '', str(why)[:600]))

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(str(x)[:600])


def load_known():
    p = os.path.join(V, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])


def key_of(o):
    return f'{o[0]}|{o[1]}'


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    import checks.rules  # noqa: registers
    if pid not in RULES:
        print(f'no rule for {pid}')
        return 2
    t0 = time.time()
    try:
        data = factsmod.extract()
    except factsmod.FactsError as x:
        print(f'the workspace does not compile, nothing to analyse: {x}')
        return 2
    R = Run(pid, tier, Program(data))
    rc, ev = run_rules(R, t0)
    return rc


def run_rules(R, t0, quiet=False):
    pid = R.pid
    stm = []
    for f, statement in RULES[pid]:
        R.cur = f.__name__
        stm.append(f'{f.__name__}: {statement}')
        try:
            f(R)
        except Undecided as x:
            R.undecided(f.__name__, x)
        except Abort as x:
            R.undecided(f.__name__, x)
        except RecursionError:
            R.undecided(f.__name__, 'term nesting too deep')
    known = [k for k in load_known() if k.get('property') == pid and k.get('status') == 'open']
    viol = {}
    for o in R.obs:
        if o[2] == 'violated':
            viol.setdefault(key_of(o), o)
    new, listed = [], []
    for k, o in viol.items():
        m = [x for x in known if x['key'] == k]
        (listed if m else new).append((k, o, m[0] if m else None))
    n = len(R.obs)
    okn = sum(1 for o in R.obs if o[2] == 'ok')
    und = [o for o in R.obs if o[2] == 'undecided']
    ev = {
        'property': pid, 'tier': R.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the MIR of the current tree: ' + '; '.join(stm),
            'rule': stm,
            'functions_analysed': len(R.funcs),
            'functions': sorted(R.funcs)[:400],
            **R.stats,
            'obligations': n, 'discharged': okn, 'instances_checked': R.nchecks,
            'undecided': [{'rule': o[0], 'what': o[1], 'why': o[4]} for o in und],
            'violated': [{'key': k, 'where': o[3], 'detail': o[4], 'known': bool(m)} for k, o, m in new + listed],
            'obligation_list': [f'{o[0]}: {o[1]} [{o[2]}] {o[3]}'[:300] for o in R.obs][:300],
            'opaque_library_calls': sorted(R.unmodelled)[:100],
            'samples': R.samples,
        },
        'assumptions': [
            'the MIR that rustc nightly builds for the workspace is the program (the stable toolchain compiles the same source)',
            'library functions behave as their models in engine/lib.py say; calls without a model are treated as pure functions of their arguments, mutable references they are given are forgotten',
            'obligations listed as undecided are not covered',
        ],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    if quiet:
        return (1 if new else 0), (ev, new, listed, und)
    for k, o, m in listed:
        print(f'KNOWN-FINDING: property={pid} {m["what"]}')
    for o in und:
        print(f'undecided: {o[0]}: {o[1]}: {o[4][:300]}')
    if new:
        rp = os.path.join(V, 'evidence', pid + '.violation.json')
        json.dump([{'key': k, 'rule': o[0], 'what': o[1], 'where': o[3], 'detail': o[4]} for k, o, m in new], open(rp, 'w'), indent=1)
        for k, o, m in new:
            print(f'  {o[0]}: {o[1]}\n    at {o[3]}\n    {o[4][:700]}')
        print(f'VIOLATION property={pid} replay={rp}')
        return 1, ev
    print(f'{pid}: {okn}/{n} obligations ({R.nchecks} instances) discharged, {len(und)} undecided, {len(R.funcs)} functions, {R.stats["abstract_steps"]} abstract steps, {ev["wall_s"]} s')
    return 0, ev
