"""The value of a term for a representative of its free terms; facts of it."""
import functools
from .base import *
from .util import *


class Unk(Exception):
    pass


class Free(Unk):
    """depends on how often a loop ran: any value is possible"""


class Crash(Unk):
    """computing it panics: a slice of a text out of its bounds or inside a character"""


def V_(name, /, **f):
    d = {'!': name}
    d.update(f)
    return d


def xid(c):
    return ('a' + c).isidentifier()


CHARS = {'char_is_whitespace': str.isspace, 'char_is_alphanumeric': str.isalnum, 'char_is_alphabetic': str.isalpha, 'char_is_numeric': str.isnumeric,
         'char_is_ascii_whitespace': lambda c: c in ' \t\n\r\f', 'char_is_ascii_alphanumeric': lambda c: c.isascii() and c.isalnum(),
         'char_is_ascii_digit': lambda c: c in '0123456789', 'char_is_ascii_alphabetic': lambda c: c.isascii() and c.isalpha(), 'char_is_ascii': str.isascii,
         'char_is_ascii_punctuation': lambda c: c.isascii() and not c.isalnum() and c.isprintable() and c != ' ',
         'char_is_control': lambda c: ord(c) < 32 or 127 <= ord(c) < 160, 'char_is_lowercase': str.islower, 'char_is_uppercase': str.isupper,
         'unicode_xid::UnicodeXID::is_xid_continue': xid, 'unicode_xid::UnicodeXID::is_xid_start': lambda c: c.isidentifier() and c != '_'}
STRS = {'str_to_lowercase': str.lower, 'str_to_ascii_lowercase': str.lower, 'str_to_uppercase': str.upper, 'str_to_ascii_uppercase': str.upper,
        'str_trim': str.strip, 'str_trim_start': str.lstrip, 'str_trim_end': str.rstrip}


def order(x):
    """what the derived and written orders of the repository's types compare"""
    if isinstance(x, dict):
        if 'offset' in x:
            return x['offset']
        if 'start' in x and 'end' in x:
            return (order(x['start']), order(x['end']))
        if x.get('!') == 'Reverse' and '0' in x:
            y = order(x['0'])
            if isinstance(y, int):
                return -y
        raise Unk(x)
    if isinstance(x, (list, tuple)):
        x = list(x)
        return [order(y) for y in x]
    return x


def folds_of(r, o, early=False):
    """what the loops passed on the way to an outcome compute; not those that can be left early, unless early"""
    memo = r.__dict__.setdefault('_folds', {})
    if (id(o), early) in memo:
        return memo[(id(o), early)]
    out = []
    for n in r.eng.notes:
        if n[0] == 'fold' and (early or not any(site == n[1] and src is n[2][1] for site, src in r.eng.early)) and n[1:] not in out:
            out.append(n[1:])
    here = lambda f: o.facts.get(mkapp('exhausted', f[1][1], f[0])) is True
    out = [f for f in out if here(f) or not any(g[0] == f[0] and here(g) for g in out)]
    memo[(id(o), early)] = out = [f for f in out if sum(g[0] == f[0] for g in out) == 1]
    return out


class Ev:
    def __init__(self, env, calls=None, free=(), folds=()):
        self.env, self.calls, self.memo, self.free, self.folds = env, calls or {}, {}, free, folds
        self.busy = set()       # loops being replayed

    def sub(self):
        e = Ev(dict(self.env), self.calls, self.free, self.folds)
        e.busy = self.busy
        return e

    def turns(self, b, done=None):
        """Evaluators for the turns of a loop over known elements: the element and every value the loop changes, as
        they are at the start of the turn.  done: is given the values after the loop."""
        fs = [f for f in self.folds if f[1] is b]
        cur = {}
        for i, f in enumerate(fs):
            for l, (x, n) in f[2].items():
                try:
                    cur[(i, l)] = self.val(x)
                except Unk as u:
                    cur[(i, l)] = u
        for x in self.val(b[1]):
            e = self.sub()
            e.env[b] = x
            amb = set()
            for (i, l), v in cur.items():
                n = fs[i][2][l][1]
                if n in amb or isinstance(v, Unk) or n in e.env and e.env[n] != v:
                    e.env.pop(n, None)
                    amb.add(n)
                else:
                    e.env[n] = v
            yield e
            new = {}
            for i, f in enumerate(fs):
                ts = []
                for g, d in f[3]:
                    ok, odd = e.holds({y[0]: y[1] for y in g})
                    if ok is None:
                        ts = None
                        break
                    if ok:
                        ts.append(d)
                for l in f[2]:
                    vs = []
                    try:
                        for d in ts or ():
                            v = e.val(d[l])
                            if v not in vs:
                                vs.append(v)
                    except (Unk, KeyError):
                        vs = []
                    new[(i, l)] = vs[0] if len(vs) == 1 else Unk('fold')
            cur = new
        if done is not None:
            for (i, l), v in cur.items():
                done.append((fs[i], l, v))

    def after(self, t):
        """the value of a changed variable after its loop"""
        for f in self.folds:
            if f[0] != t[-3] or f[1] in self.busy:
                continue
            for l, (x, n) in f[2].items():
                if l == (t[-2], t[-1]):
                    done = []
                    self.busy.add(f[1])
                    try:
                        for e in self.turns(f[1], done):
                            pass
                    finally:
                        self.busy.discard(f[1])
                    for f2, l2, v in done:
                        if f2 is f and l2 == l and not isinstance(v, Unk):
                            return v
        raise Unk(t)

    def val(self, t):
        if t in self.memo:
            r = self.memo[t]
        else:
            try:
                r = self.val_(t)
            except Unk as e:
                r = e
            self.memo[t] = r
        if isinstance(r, Unk):
            raise r
        return r

    def val_(self, t):
        if t in self.env:
            return self.env[t]
        k = t[0]
        if k in ('int', 'str', 'bool'):
            return t[1]
        if k == 'char':
            return chr(t[1])
        if k == 'tup':
            return tuple(self.val(x) for x in t[1])
        if k == 'adt':
            return V_(t[2], **{f[0]: self.val(f[1]) for f in t[3]})
        if k == 'upd':
            d = dict(self.val(t[1]))
            for (vr, n), x in t[2]:
                d[n] = self.val(x)
            return d
        if k == 'fld':
            b = self.val(t[1])
            if isinstance(b, dict) and b.get('!') == '*':
                if t[2] == 'Ok' and t[3] in b:
                    return b[t[3]]
                raise Free(t)
            if isinstance(b, tuple) and str(t[3]).isdigit() and int(t[3]) < len(b):
                return b[int(t[3])]
            if isinstance(b, dict) and t[3] in b and (t[2] is None or b.get('!') in (None, t[2])):
                return b[t[3]]
            raise Unk(t)
        if k == 'elem':
            if t[1][0] == 'app' and t[1][1] == 'chars':
                e = mk('elem', mkapp('char_indices', t[1][2]), t[2])
                if e in self.env:
                    return self.env[e][1]
            raise Free(t)
        if k in ('phi', 'iv') and self.folds:
            return self.after(t)
        if k == 'ev':
            return tuple(x if isinstance(x, str) else self.val(x) for x in t[1:])
        if k == 'not':
            return not self.val(t[1])
        if k == 'range':
            x, y = self.val(t[1]), self.val(t[2])
            if not isinstance(x, int) or not isinstance(y, int):
                raise Unk(t)
            return list(range(x, y))
        if k == 'S':
            out = [] if t[1] != 'str' else ''
            for p in t[2]:
                if t[1] == 'str':
                    if p[0] == 'each':
                        out += ''.join(e.str(y) for e, y in self.each(p))
                        continue
                    if p[0] == 'loopseq':
                        out = self.sofar(t, p)
                        continue
                    if p[0] == 'all':
                        raise Unk(t)
                    x = self.val(p)
                    if isinstance(x, dict) and x.get('!') in ('Owned', 'Borrowed'):
                        x = x.get('0')
                    if not isinstance(x, str):
                        raise Unk(t)
                    out += x
                elif p[0] == 'one':
                    out.append(self.val(p[1]))
                elif p[0] == 'each':
                    for e, y in self.each(p):
                        out += e.val(mk('S', t[1], (y,)))
                elif p[0] == 'all':
                    out += list(self.val(p[1]))
                elif p[0] == 'loopseq':
                    out = list(self.sofar(t, p))
                else:
                    raise Unk(t)
            return out
        if k == 'app':
            if t[1] in self.calls:
                return self.calls[t[1]](self, *t[2:])
            return self.app(t, t[1], t[2:])
        raise Unk(t)

    def sofar(self, t, p):
        """the sequence a loop has built when a turn begins"""
        n = seq(t[1], t[2][:t[2].index(p) + 1])
        if n not in self.env:
            raise Unk(t)
        return self.env[n]

    def each(self, p):
        """what a loop over the elements of a known sequence makes"""
        b = p[1]
        if b[0] != 'elem':
            raise Unk(p)
        for e in self.turns(b):
            ds = []
            for g, d in p[2]:
                ok, odd = e.holds({y[0]: y[1] for y in g})
                if ok is None:
                    raise Unk(p)
                if ok and d not in ds:
                    ds.append(d)
            if len(ds) != 1:
                raise Unk(p)
            for y in ds[0]:
                yield e, y

    def app(self, t, n, a):
        if n == 'nth' or n == 'getidx':
            l, i = self.val(a[0]), self.val(a[1])
            ok = isinstance(i, int) and 0 <= i < len(l)
            if n == 'getidx':
                return V_('Some', **{'0': l[i]}) if ok else V_('None')
            if not ok:
                raise Crash(t) if isinstance(i, int) else Unk(t)
            return l[i]
        if n == 'incl' and len(a) == 1:
            return self.val(a[0]) + 1
        if n in ('first', 'last'):
            l = self.val(a[0])
            return V_('Some', **{'0': l[0 if n == 'first' else -1]}) if l else V_('None')
        if n == 'len':
            l = self.val(a[0])
            return len(l.encode()) if isinstance(l, str) else len(l)
        if n == 'empty':
            return not self.val(a[0])
        if n in ('eq', 'lt', 'le', 'gt', 'ge', 'plus', 'add2', 'sub', 'satsub', 'mul', 'max', 'min'):
            x, y = self.val(a[0]), self.val(a[1])
            if n == 'eq':
                if any(isinstance(z, dict) and z.get('!') == '*' for z in (x, y)):
                    raise Free(t)
                return self.num(x) == y if isinstance(y, int) else x == self.num(y) if isinstance(x, int) else x == y
            x, y = (ord(z) if isinstance(z, str) and len(z) == 1 else z for z in (x, y))
            if not isinstance(x, int) or not isinstance(y, int):
                raise Unk(t)
            return {'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y, 'plus': lambda: x + y, 'add2': lambda: x + y,
                    'sub': lambda: x - y, 'satsub': lambda: max(0, x - y), 'mul': lambda: x * y, 'max': lambda: max(x, y), 'min': lambda: min(x, y)}[n]()
        if n in ('outside', 'outside1', 'cuts'):
            x, i, j = self.val(a[0]), self.val(a[1]), self.val(a[-1])
            if not isinstance(x, (str, list)) or not isinstance(i, int) or not isinstance(j, int):
                raise Unk(t)
            x = x.encode() if isinstance(x, str) else x
            if n == 'outside1' and isinstance(x, list):
                return not 0 <= i < len(x)
            if n == 'cuts' and i >= len(x):
                return False
            if not 0 <= i <= j <= len(x) or n == 'outside1' and i == len(x):
                return True
            try:
                if isinstance(x, bytes):
                    x[:i].decode(), x[:j].decode()
                return False
            except ValueError:
                return True
        if n == 'slice':
            x, i, j = self.val(a[0]), self.val(a[1]), self.val(a[2])
            if isinstance(x, list):
                if not 0 <= i <= j <= len(x):
                    raise Crash(t)
                return x[i:j]
            x = self.str(a[0]).encode()
            try:
                if not 0 <= i <= j <= len(x):
                    raise ValueError
                x[:i].decode()
                return x[i:j].decode()
            except ValueError:
                raise Crash(t)
        if n == 'has' and len(a) == 2:
            x, y = self.val(a[0]), self.val(a[1])
            if not isinstance(x, list):
                raise Unk(t)
            return y in x
        if n in ('str_find', 'str_rfind') and len(a) == 2 and a[1][0] in ('str', 'char', 'S', 'app', 'fld'):
            x, y = self.str(a[0]).encode(), self.str(a[1]).encode()
            i = x.find(y) if n == 'str_find' else x.rfind(y)
            return V_('Some', **{'0': i}) if i >= 0 else V_('None')
        if n == 'show' and len(a) == 1:
            x = self.val(a[0])
            if isinstance(x, bool) or not isinstance(x, (str, int)):
                raise Unk(t)
            return str(x)
        if n == 'concat' and len(a) == 1:
            x = self.val(a[0])
            if not isinstance(x, list) or not all(isinstance(y, str) for y in x):
                raise Unk(t)
            return ''.join(x)
        if n == 'join' and len(a) == 2:
            x = self.val(a[0])
            if not isinstance(x, list) or not all(isinstance(y, str) for y in x):
                raise Unk(t)
            return self.str(a[1]).join(x)
        if n == 'char_len_utf8':
            return len(self.str(a[0]).encode())
        if n == 'char_is_char_boundary' or n == 'str_is_char_boundary':
            try:
                return self.str(a[0]).encode()[:self.val(a[1])].decode() is not None
            except ValueError:
                return False
        if n == 'isvar':
            return self.variant(a[0]) == a[1]
        if n in STRS and len(a) == 1:
            return STRS[n](self.str(a[0]))
        if n == 'str_repeat':
            return self.str(a[0]) * self.val(a[1])
        if n in ('str_starts_with', 'str_ends_with', 'str_contains') and a[1][0] in ('str', 'char', 'S', 'app', 'fld'):
            x, y = self.str(a[0]), self.str(a[1])
            return x.startswith(y) if n == 'str_starts_with' else x.endswith(y) if n == 'str_ends_with' else y in x
        if n == 'str_eq_ignore_ascii_case':
            return self.str(a[0]).lower() == self.str(a[1]).lower()
        if n == 'str_replace' and len(a) == 3:
            x, y, z = self.str(a[0]), a[1], self.str(a[2])
            if y[0] == 'lambda':
                return ''.join(z if self.lam(y, c) else c for c in x)
            if y[0] == 'arr':
                cs = [self.val(e) for e in y[1]]
                return ''.join(z if c in cs else c for c in x)
            return x.replace(self.str(y), z)
        if n == 'str_replacen' and len(a) == 4 and a[1][0] not in ('lambda', 'arr'):
            return self.str(a[0]).replace(self.str(a[1]), self.str(a[2]), self.val(a[3]))
        if n in ('str_trim_matches', 'str_trim_start_matches', 'str_trim_end_matches', 'str_strip_prefix', 'str_strip_suffix') and len(a) == 2:
            x = self.str(a[0])
            if n in ('str_strip_prefix', 'str_strip_suffix'):
                y = self.str(a[1])
                if x.startswith(y) if n == 'str_strip_prefix' else x.endswith(y):
                    return V_('Some', **{'0': x[len(y):] if n == 'str_strip_prefix' else x[:len(x) - len(y)]})
                return V_('None')
            if a[1][0] == 'lambda':
                m = lambda s, e: self.lam(a[1], s[-1] if e else s[0])
                l = 1
            elif a[1][0] == 'arr':
                cs = [self.val(e) for e in a[1][1]]
                m, l = (lambda s, e: (s[-1] if e else s[0]) in cs), 1
            else:
                y = self.str(a[1])
                m, l = (lambda s, e: y and (s.endswith(y) if e else s.startswith(y))), len(y)
            if n != 'str_trim_end_matches':
                while x and m(x, False):
                    x = x[l:]
            if n != 'str_trim_start_matches':
                while x and m(x, True):
                    x = x[:len(x) - l]
            return x
        if n in CHARS and len(a) == 1:
            return CHARS[n](self.val(a[0]))
        if n == 'chars':
            return list(self.str(a[0]))
        if n == 'byteidx' and len(a) == 1:
            x = self.val(a[0])
            if not isinstance(x, tuple) or not isinstance(x[0], int):
                raise Unk(t)
            return x[0]
        if n == 'char_indices':
            out, i = [], 0
            for c in self.str(a[0]):
                out.append((i, c))
                i += len(c.encode())
            return out
        if n == 'lines':
            x = self.str(a[0]).split('\n')
            return [y[:-1] if y.endswith('\r') else y for y in (x[:-1] if x[-1] == '' else x)]
        if n == 'split' and len(a) == 2:
            x, y = self.str(a[0]), a[1]
            if y[0] not in ('str', 'char'):
                raise Unk(t)
            return x.split(self.str(y))
        if n in ('split_whitespace', 'split_ascii_whitespace') and len(a) == 1:
            return self.str(a[0]).split()
        if n in ('str_split_once', 'str_rsplit_once') and len(a) == 2 and a[1][0] in ('str', 'char', 'S', 'app', 'fld'):
            x, y = self.str(a[0]), self.str(a[1])
            x, m, z = x.partition(y) if n == 'str_split_once' else x.rpartition(y)
            return V_('Some', **{'0': (x, z)}) if m else V_('None')
        if n == 'splitn' and len(a) == 3 and a[2][0] in ('str', 'char'):
            return self.str(a[0]).split(self.str(a[2]), self.val(a[1]) - 1)
        if n in ('rev', 'skip', 'take') and a:
            x = self.val(a[0])
            if not isinstance(x, list):
                raise Unk(t)
            return x[::-1] if n == 'rev' else x[self.val(a[1]):] if n == 'skip' else x[:self.val(a[1])]
        if n in ('std::cmp::Ord::cmp', 'std::cmp::PartialOrd::partial_cmp') and len(a) == 2:
            x, y = order(self.val(a[0])), order(self.val(a[1]))
            r = V_('Less' if x < y else 'Greater' if x > y else 'Equal')
            return r if n.endswith('::cmp') else V_('Some', **{'0': r})
        if n == 'vec_sort_by' and len(a) == 2 and a[1][0] == 'lambda':
            return sorted(self.val(a[0]), key=functools.cmp_to_key(lambda x, y: {'Less': -1, 'Equal': 0, 'Greater': 1}[self.lam(a[1], x, y)['!']]))
        if n == 'vec_truncate' and len(a) == 2 and isinstance(self.val(a[0]), list):
            return self.val(a[0])[:self.val(a[1])]
        if n in ('vec_sort', 'vec_sort_by_key', 'vec_sort_by_cached_key', 'vec_reverse'):
            x = self.val(a[0])
            if not isinstance(x, list) or n not in ('vec_sort', 'vec_reverse') and (len(a) < 2 or a[1][0] != 'lambda'):
                raise Unk(t)
            if n == 'vec_reverse':
                return x[::-1]
            return sorted(x, key=lambda y: order(self.lam(a[1], y) if len(a) > 1 else y))
        if n in ('forall', 'exists') and len(a) == 2 and a[1][0] == 'alts':
            q, r = mk('elem', a[0], -1), []
            for x in self.val(a[0]):
                e = self.sub()
                e.env[q] = x
                if a[0][0] == 'app' and a[0][1] == 'zip' and isinstance(x, tuple) and len(x) == 2:
                    e.env[mk('elem', a[0][2], -1)], e.env[mk('elem', a[0][3], -1)] = x
                hs = [e.holds({y[0]: y[1] for y in alt})[0] for alt in a[1][1]]
                r.append(True if True in hs else None if None in hs else False)
            if n == 'forall':
                x = False if False in r else None if None in r else True
            else:
                x = True if True in r else None if None in r else False
            if x is None:
                raise Unk(t)
            return x
        raise Unk(t)

    def num(self, x):
        return ord(x) if isinstance(x, str) and len(x) == 1 else x

    def str(self, t):
        x = self.val(t)
        if not isinstance(x, str):
            raise Unk(t)
        return x

    def lam(self, l, *cs):
        """the value of a pure closure"""
        e = self.sub()
        for i, c in enumerate(cs):
            e.env[mk('sym', 'λ%d' % i if i else 'λ')] = c
        for g, v in l[1]:
            if all(e.fact(x[0], x[1]) for x in g):
                return e.val(v)
        raise Unk(l)

    def variant(self, t):
        x = self.val(t)
        if isinstance(x, dict) and '!' in x:
            return x['!']
        raise Unk(t)

    def fact(self, f, v):
        """the fact holds of this representative; raises Unk when that is not known"""
        if f[0] == 'known':
            return self.val(f[1]) == self.val(v)
        if f[0] == 'variant':
            x = self.variant(f[1])
            return True if x == '*' else admits(v, x)
        x = self.val(f)
        if not isinstance(x, bool):
            raise Unk(f)
        return x is v

    def harmless(self, f):
        return f[0] == 'app' and f[1] in ('exhausted', 'forall', 'exists') or f[0] == 'phi'

    def holds(self, facts):
        """True, False, or None and the facts that are not understood"""
        odd = []
        self.freed, self.crash = False, None
        for f, v in facts.items():
            try:
                if not self.fact(f, v):
                    return False, ()
            except Free:
                self.freed = True
            except Crash as e:
                self.crash = e.args[0]
                odd.append(f)
            except Unk:
                if not self.harmless(f):
                    odd.append(f)
        return (None if odd else True), odd
