"""Models of the library functions the repository calls.

Every model is a transfer function of the abstract interpreter (core.py):
`(eng, st, args, ctx, site, o, rty) -> [(state, value)]`, or None to decline.
Models of I/O append an event to the log; everything not modelled is an
uninterpreted function of its arguments.
"""
import re
from .core import *
from . import core

EMPTYMAP = mk('S', 'map', ())
EMPTYSET = mk('S', 'set', ())

MODELS = {}
PATTERNS = []


def model(*paths):
    def d(f):
        for p in paths:
            MODELS[p] = f
        return f
    return d


def pattern(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


_cache = {}


def lookup(path, o):
    m = _cache.get(path, 0)
    if m != 0:
        return m
    m = MODELS.get(path)
    if m is None:
        for rx, f in PATTERNS:
            if rx.match(path):
                m = f
                break
    _cache[path] = m
    return m


# ---------------------------------------------------------------- helpers

def strip_ty(t):
    """Peel references, boxes and styling wrappers off a type."""
    t = canon(t).strip()
    while True:
        u = t
        t = re.sub(r"^&('\w+ )?(mut )?", '', t)
        m = re.match(r"^std::boxed::Box<(.*)>$", t)
        if m:
            t = m.group(1)
        m = re.match(r"^owo_colors::\w+(?:::\w+)*<(.*)>$", t)
        if m:
            t = split_args(m.group(1))[-1]
        if t.startswith("std::borrow::Cow<"):
            t = split_args(t[len("std::borrow::Cow<"):-1])[-1]
        t = t.strip()
        if t == u:
            return t


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([{':
            d += 1
        elif ch in '>)]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def is_str_ty(t):
    return strip_ty(t) in ('str', 'std::string::String', 'char')


def cases(eng, st, v, adtname):
    """Split a value of enum type: [(state, variant, payload)]"""
    v = eng.deref(st, v)
    if v[0] == 'adt':
        return [(st, v[2], getf(v, v[2], '0') if v[3] else UNIT)]
    out = []
    for n in eng.p.variants(adtname):
        s2 = st.copy()
        if eng.assume_variant(s2, v, n, True):
            out.append((s2, n, getf(v, n, '0')))
    return out


def default_of(eng, st, ty, o=None, ctx=None, site=None):
    t = canon(ty).strip()
    if o and o.get('aux') and canon(o['aux']) in eng.p.bodies:
        r = eng.inline(st, canon(o['aux']), [], eng.ctx(ctx, site, 'default'), site)
        return r
    h = t.split('<')[0]
    v = {'std::string::String': STR(''), 'str': STR(''), '&str': STR(''), 'bool': FALSE,
         'std::vec::Vec': EMPTYVEC, 'std::option::Option': NONE}.get(h)
    if v is None:
        if re.match(r'^[iu](size|\d+)$', h):
            v = INT(0)
        elif 'Map' in h:
            v = EMPTYMAP
        elif 'Set' in h:
            v = EMPTYSET
        else:
            v = mkapp('default', STR(t))
    return [(st, v)]


def pure(name=None):
    def f(eng, st, args, ctx, site, o, rty):
        return [(st, mkapp(name or canon(o['path']), *[eng.freeze(st, a) for a in args]))]
    return f


def tr(eng, st, t):
    """[(state, bool)] for a boolean term."""
    t = eng.freeze(st, t)
    r = eng.truth(st, t)
    if r is not None:
        return [(st, r)]
    out = []
    for b in (True, False):
        s2 = st.copy()
        if eng.assume(s2, t, b):
            out.append((s2, b))
    return out


def strpieces(v):
    return (v,)


def tostr(eng, st, v):
    v = eng.freeze(st, v)
    return STR(chr(v[1])) if v[0] == 'char' else v


# ---------------------------------------------------------------- identity-like

def ident(eng, st, args, ctx, site, o, rty):
    return [(st, args[0])]


for _p in '''std::clone::Clone::clone std::borrow::ToOwned::to_owned std::ops::deref::Deref::deref
std::ops::deref::DerefMut::deref_mut std::borrow::Borrow::borrow std::borrow::BorrowMut::borrow_mut std::convert::AsRef::as_ref std::convert::AsMut::as_mut
std::borrow::Cow::<'_, B>::into_owned std::borrow::Cow::<'_, B>::to_mut std::string::String::as_str std::string::String::as_mut_str std::path::PathBuf::as_path std::path::Path::to_path_buf
std::path::Path::to_string_lossy std::path::Path::display std::path::Path::as_os_str std::path::PathBuf::into_os_string std::path::Path::new
std::boxed::Box::<T>::new std::boxed::Box::<T>::pin std::boxed::Box::<T, A>::leak std::hint::must_use anyhow::__private::must_use
std::slice::<impl [T]>::to_vec std::slice::<impl [T]>::into_vec std::vec::Vec::<T, A>::into_boxed_slice std::vec::Vec::<T, A>::as_slice
std::vec::Vec::<T, A>::as_mut_slice std::string::String::into_boxed_str std::str::<impl str>::to_string std::str::<impl str>::to_owned std::rc::Rc::<T>::new
std::sync::Arc::<T>::new std::cell::Cell::<T>::new std::cell::RefCell::<T>::new std::cell::RefCell::<T>::borrow
std::cell::RefCell::<T>::borrow_mut std::cell::RefCell::<T>::into_inner std::cell::Cell::<T>::into_inner std::option::Option::<T>::as_ref
std::option::Option::<T>::as_deref std::option::Option::<&T>::cloned std::option::Option::<&T>::copied std::option::Option::<T>::as_mut std::option::Option::<T>::as_deref_mut
std::result::Result::<T, E>::as_ref std::result::Result::<T, E>::as_mut std::result::Result::<T, E>::as_deref std::result::Result::<&T, E>::cloned std::result::Result::<&T, E>::copied
std::option::Option::<&mut T>::cloned std::option::Option::<&mut T>::copied 
 std::str::<impl str>::into_string std::str::<impl str>::into_boxed_str std::str::<impl str>::as_str
std::convert::identity std::hint::black_box std::string::String::as_bytes std::str::<impl str>::as_bytes std::string::String::into_bytes
std::mem::manually_drop::ManuallyDrop::<T>::new std::fmt::builders::x std::cmp::Reverse
std::iter::traits::iterator::Iterator::cloned std::iter::traits::iterator::Iterator::copied std::iter::traits::iterator::Iterator::by_ref
std::iter::traits::iterator::Iterator::fuse std::cell::Ref::<'b, T>::clone'''.split('\n'):
    for _q in re.split(r' (?=std::|anyhow::)', _p.strip()):
        MODELS[_q.strip()] = ident


@model('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned', 'std::slice::<impl [T]>::to_vec', 'std::path::Path::to_path_buf',
       'std::str::<impl str>::to_string', 'std::str::<impl str>::to_owned', "std::borrow::Cow::<'_, B>::into_owned", 'std::path::Path::to_string_lossy')
def m_clone(eng, st, args, ctx, site, o, rty):
    v = args[0]
    if v[0] == 'ref':
        v = eng.deref(st, v)
        v = deep(eng, st, v)
    return [(st, v)]


@model('std::option::Option::<&T>::cloned', 'std::option::Option::<&T>::copied', 'std::option::Option::<&mut T>::cloned', 'std::option::Option::<&mut T>::copied',
       'std::result::Result::<&T, E>::cloned', 'std::result::Result::<&T, E>::copied')
def m_cloned(eng, st, args, ctx, site, o, rty):
    v = args[0]
    if v[0] == 'adt' and v[2] in ('Some', 'Ok') and v[3] and v[3][0][1][0] == 'ref':
        v = mk('adt', v[1], v[2], (mk(v[3][0][0], deep(eng, st, eng.deref(st, v[3][0][1]))),))
    return [(st, v)]


def deep(eng, st, v):
    """A copy: references inside stay (shared), owned parts are values already."""
    return v


@model('std::borrow::ToOwned::clone_into')
def m_clone_into(eng, st, args, ctx, site, o, rty):
    st = st.copy()
    v = eng.freeze(st, args[0])
    setref(eng, st, args[1], v)
    return [(st, UNIT)]


@model('std::clone::Clone::clone_from')
def m_clone_from(eng, st, args, ctx, site, o, rty):
    st = st.copy()
    setref(eng, st, args[0], eng.freeze(st, args[1]))
    return [(st, UNIT)]


def derefs(eng, st, args, ctx, site, o, rty):
    """Deref::deref / as_ref / borrow: the reference itself; a lazily
    initialised static is its initialiser's value."""
    v = args[0]
    w = v
    n = 0
    while w[0] == 'ref' and n < 50:
        w = eng.read(st, w[1], w[2])
        n += 1
    if w[0] == 'static':
        if w[1] in eng.p.bodies:
            w = eng.consteval(st, w[1])
    if w[0] == 'app' and w[1] == 'lazy':
        return eng.apply(st, w[2], [], ctx, site)
    return [(st, v)]


for _p in ('std::ops::deref::Deref::deref', 'std::ops::deref::DerefMut::deref_mut'):
    MODELS[_p] = derefs


@pattern(r'^(once_cell::sync::Lazy|once_cell::unsync::Lazy|std::sync::lazy_lock::LazyLock|std::cell::lazy::LazyCell)::<.*>::new$')
def m_lazy(eng, st, args, ctx, site, o, rty):
    return [(st, mkapp('lazy', args[0]))]


@pattern(r'^(once_cell::sync::Lazy|std::sync::lazy_lock::LazyLock)::<.*>::force$')
def m_force(eng, st, args, ctx, site, o, rty):
    return derefs(eng, st, args, ctx, site, o, rty)


@pattern(r'^std::sync::once_lock::OnceLock::<T>::get_or_init$')
def m_once(eng, st, args, ctx, site, o, rty):
    return eng.apply(st, args[1], [], ctx, site)


@pattern(r'^owo_colors::OwoColorize::\w+$')
def m_color(eng, st, args, ctx, site, o, rty):
    return [(st, args[0])]


@model('std::convert::Into::into')
def m_into(eng, st, args, ctx, site, o, rty):
    k = canon(o.get('aux'))
    if k in eng.p.bodies:
        return eng.inline(st, k, args, eng.ctx(ctx, site, k), site)
    return conv(eng, st, args[0], o, rty, args)


@model('std::convert::From::from')
def m_from(eng, st, args, ctx, site, o, rty):
    if canon(o.get('key')) in eng.p.bodies:
        return None
    return conv(eng, st, args[0], o, rty, args)


def conv(eng, st, v, o, rty, args):
    r = strip_ty(rty)
    if r.startswith('std::collections') or r.startswith('std::vec::Vec'):
        w = eng.deref(st, v)
        if w[0] == 'arr':
            kind = 'vec' if 'Vec' in r.split('<')[0] else ('set' if 'Set' in r.split('<')[0] else 'map')
            return [(st, mk('S', kind, tuple(one(x) for x in w[1])))]
    w = eng.deref(st, v)
    if w[0] == 'char' and r == 'std::string::String':
        return [(st, STR(chr(w[1])))]
    if r.startswith('std::option::Option<'):
        return [(st, SOME(v))]
    if r in ('std::string::String', 'std::path::PathBuf', 'std::ffi::os_str::OsString'):
        return [(st, w)]          # an own copy
    return [(st, v)]


@model('std::convert::TryFrom::try_from', 'std::convert::TryInto::try_into')
def m_try_from(eng, st, args, ctx, site, o, rty):
    if canon(o.get('key')) in eng.p.bodies:
        return None
    t = mkapp('try_from', eng.freeze(st, args[0]))
    out = []
    for n, f in (('Ok', OK), ('Err', ERR)):
        s2 = st.copy()
        if eng.assume_variant(s2, t, n, True):
            out.append((s2, OK(args[0]) if n == 'Ok' else ERR(getf(t, 'Err', '0'))))
    return out


@model('std::default::Default::default')
def m_default(eng, st, args, ctx, site, o, rty):
    if canon(o.get('key')) in eng.p.bodies:
        return None
    return default_of(eng, st, rty)


@pattern(r'^std::(vec::Vec|collections::vec_deque::VecDeque)::<T(, A)?>::(new|with_capacity)$')
def m_vecnew(eng, st, args, ctx, site, o, rty):
    return [(st, EMPTYVEC)]


@model('std::string::String::new', 'std::string::String::with_capacity')
def m_strnew(eng, st, args, ctx, site, o, rty):
    return [(st, STR(''))]


@pattern(r'^(std::collections::.*|indexmap::)(map::|map::\w+::)?\w*Map::<.*>::(new|with_capacity)$')
def m_mapnew(eng, st, args, ctx, site, o, rty):
    return [(st, EMPTYMAP)]


@pattern(r'^(std::collections::.*|indexmap::.*)Set::<.*>::(new|with_capacity)$')
def m_setnew(eng, st, args, ctx, site, o, rty):
    return [(st, EMPTYSET)]


@pattern(r'^std::(vec::Vec::<T, A>|string::String)::(reserve|shrink_to_fit|reserve_exact)$')
def m_nop(eng, st, args, ctx, site, o, rty):
    return [(st, UNIT)]


@model('std::mem::drop', 'std::ops::drop::Drop::drop', 'std::mem::forget')
def m_drop(eng, st, args, ctx, site, o, rty):
    return [(st, UNIT)]


# ---------------------------------------------------------------- cells, mem

def setref(eng, st, r, v):
    if r[0] == 'ref':
        # write through nested references to the place finally meant
        cur = eng.read(st, r[1], r[2])
        n = 0
        while cur[0] == 'ref' and n < 50 and v[0] != 'ref':
            r = cur
            cur = eng.read(st, r[1], r[2])
            n += 1
        eng.write(st, r[1], r[2], v)


def target(eng, st, r):
    """Innermost reference."""
    n = 0
    while r[0] == 'ref':
        c = eng.read(st, r[1], r[2])
        if c[0] != 'ref':
            return r
        r = c
        n += 1
        if n > 50:
            raise Abort('cyclic reference')
    return r


@model('std::cell::Cell::<T>::get')
def m_cellget(eng, st, args, ctx, site, o, rty):
    return [(st, eng.deref(st, args[0]))]


@model('std::cell::Cell::<T>::set')
def m_cellset(eng, st, args, ctx, site, o, rty):
    st = st.copy()
    r = target(eng, st, args[0])
    if r[0] == 'ref':
        eng.write(st, r[1], r[2], args[1])
    return [(st, UNIT)]


@model('std::mem::take', 'std::cell::Cell::<T>::take', 'std::option::Option::<T>::take')
def m_take(eng, st, args, ctx, site, o, rty):
    r = target(eng, st, args[0])
    v = eng.deref(st, args[0])
    if v[0] == 'iter':
        nv = [(st, mk('iter', EMPTYVEC, (), 0))]
    elif 'Option' in canon(o['path']):
        nv = [(st, NONE)]
    else:
        nv = default_of(eng, st, rty, o, ctx, site)
    out = []
    for s, d in nv:
        s = s.copy()
        if r[0] == 'ref':
            eng.write(s, r[1], r[2], d)
        out.append((s, v))
    return out


@model('std::mem::replace', 'std::cell::Cell::<T>::replace', 'std::option::Option::<T>::replace')
def m_replace(eng, st, args, ctx, site, o, rty):
    st = st.copy()
    r = target(eng, st, args[0])
    v = eng.deref(st, args[0])
    if r[0] == 'ref':
        eng.write(st, r[1], r[2], SOME(args[1]) if 'Option' in o['path'] else args[1])
    return [(st, v)]


@model('std::mem::swap')
def m_swap(eng, st, args, ctx, site, o, rty):
    st = st.copy()
    a, b = target(eng, st, args[0]), target(eng, st, args[1])
    va, vb = eng.deref(st, a), eng.deref(st, b)
    if a[0] == 'ref':
        eng.write(st, a[1], a[2], vb)
    if b[0] == 'ref':
        eng.write(st, b[1], b[2], va)
    return [(st, UNIT)]


@model('std::boxed::Box::<T>::new_uninit')
def m_uninit(eng, st, args, ctx, site, o, rty):
    c = ('heap', ctx, site)
    st = st.copy()
    st.store[c] = UNIT
    return [(st, mk('ref', c, ()))]


@model('std::boxed::box_assume_init_into_vec_unsafe')
def m_boxvec(eng, st, args, ctx, site, o, rty):
    v = eng.deref(st, args[0])
    if v[0] == 'arr':
        return [(st, mk('S', 'vec', tuple(one(x) for x in v[1])))]
    return [(st, mkapp('vec_of', eng.freeze(st, v)))]


@model('std::vec::from_elem')
def m_fromelem(eng, st, args, ctx, site, o, rty):
    n = eng.freeze(st, args[1])
    if n[0] == 'int' and n[1] <= 16:
        return [(st, mk('S', 'vec', tuple(one(args[0]) for _ in range(n[1]))))]
    return [(st, mkapp('repeat', eng.freeze(st, args[0]), n))]


# ---------------------------------------------------------------- equality, order

@model('std::cmp::PartialEq::eq')
def m_eq(eng, st, args, ctx, site, o, rty):
    a, b = eng.freeze(st, args[0]), eng.freeze(st, args[1])
    return [(st, eng.eqterm(st, norm_eq(a), norm_eq(b)))]


def norm_eq(a):
    if a[0] == 'char':
        return a
    return a


@model('std::cmp::PartialEq::ne')
def m_ne(eng, st, args, ctx, site, o, rty):
    a, b = eng.freeze(st, args[0]), eng.freeze(st, args[1])
    return [(st, eng.negate(eng.eqterm(st, a, b)))]


for _n, _f in (('lt', lambda e, s, a, b: e.ltterm(s, a, b)), ('gt', lambda e, s, a, b: e.ltterm(s, b, a)),
               ('le', lambda e, s, a, b: e.negate(e.ltterm(s, b, a))), ('ge', lambda e, s, a, b: e.negate(e.ltterm(s, a, b)))):
    def _m(eng, st, args, ctx, site, o, rty, _f=_f):
        return [(st, _f(eng, st, eng.freeze(st, args[0]), eng.freeze(st, args[1])))]
    MODELS['std::cmp::PartialOrd::' + _n] = _m


@model('std::cmp::max', 'std::cmp::Ord::max', 'std::cmp::min', 'std::cmp::Ord::min')
def m_max(eng, st, args, ctx, site, o, rty):
    a, b = eng.freeze(st, args[0]), eng.freeze(st, args[1])
    if a[0] == b[0] == 'int':
        f = max if o['path'].endswith('max') else min
        return [(st, INT(f(a[1], b[1])))]
    return [(st, mkapp('max' if o['path'].endswith('max') else 'min', *sorted((a, b), key=lambda z: z.n)))]


@model('std::cmp::Ord::clamp')
def m_clamp(eng, st, args, ctx, site, o, rty):
    a, b, c = (eng.freeze(st, x) for x in args)
    return [(st, mkapp('min', *sorted((mkapp('max', *sorted((a, b), key=lambda z: z.n)), c), key=lambda z: z.n)))]


# ---------------------------------------------------------------- option / result

def is_res(o):
    return 'result::Result' in o['path']


def wrapcase(eng, st, v, o):
    """(state, good?, payload-or-original)"""
    an = RES if is_res(o) else OPT
    return [(s, n in ('Ok', 'Some'), p) for s, n, p in cases(eng, st, v, an)]


def good(o, v):
    return OK(v) if is_res(o) else SOME(v)


def bad(o, v):
    return ERR(v) if is_res(o) else NONE


_OR = r'^std::(?:option::Option|result::Result)::<.*>::'


def orx(*names):
    return pattern(_OR + '(?:' + '|'.join(names) + ')$')


@orx('is_some', 'is_ok', 'is_none', 'is_err')
def m_is(eng, st, args, ctx, site, o, rty):
    nm = o['path'].split('::')[-1]
    v = eng.freeze(st, args[0])
    want = {'is_some': 'Some', 'is_none': 'None', 'is_ok': 'Ok', 'is_err': 'Err'}[nm]
    if v[0] == 'adt':
        return [(st, BOOL(v[2] == want))]
    pos = {'None': 'Some', 'Err': 'Ok'}.get(want)
    t = mkapp('isvar', v, pos or want)
    r = eng.truth(st, t)
    if r is not None:
        t = BOOL(r)
    return [(st, eng.negate(t) if pos else t)]


def asplace(eng, st, r, variant):
    """Reference to the payload of an enum behind a reference."""
    r = target(eng, st, r)
    return r


@orx('as_mut', 'as_deref_mut')
def m_asmut(eng, st, args, ctx, site, o, rty):
    r = target(eng, st, args[0])
    if r[0] != 'ref':
        return [(st, args[0])]
    out = []
    for s, g, p in wrapcase(eng, st, r, o):
        vn = ('Ok' if g else 'Err') if is_res(o) else ('Some' if g else 'None')
        ref = mk('ref', r[1], r[2] + (('f', vn, '0'),))
        out.append((s, good(o, ref) if g else (bad(o, ref))))
    return out


@orx('unwrap', 'expect', 'unwrap_unchecked')
def m_unwrap(eng, st, args, ctx, site, o, rty):
    out = []
    for s, g, p in wrapcase(eng, st, args[0], o):
        if g:
            out.append((s, p))
        else:
            eng.panic(s, ctx, site[2], o['path'].split('::')[-1])
    return out


@orx('unwrap_err', 'expect_err')
def m_unwraperr(eng, st, args, ctx, site, o, rty):
    out = []
    for s, g, p in wrapcase(eng, st, args[0], o):
        if not g:
            out.append((s, p))
        else:
            eng.panic(s, ctx, site[2], o['path'].split('::')[-1])
    return out


@orx('unwrap_or')
def m_unwrapor(eng, st, args, ctx, site, o, rty):
    return [(s, p if g else args[1]) for s, g, p in wrapcase(eng, st, args[0], o)]


@orx('unwrap_or_default')
def m_unwrapdef(eng, st, args, ctx, site, o, rty):
    out = []
    for s, g, p in wrapcase(eng, st, args[0], o):
        out += [(s, p)] if g else default_of(eng, s, rty, o, ctx, site)
    return out


@orx('unwrap_or_else')
def m_unwrapelse(eng, st, args, ctx, site, o, rty):
    out = []
    for s, g, p in wrapcase(eng, st, args[0], o):
        out += [(s, p)] if g else eng.apply(s, args[1], [p] if is_res(o) else [], ctx, site)
    return out


@orx('map')
def m_omap(eng, st, args, ctx, site, o, rty):
    out = []
    for s, g, p in wrapcase(eng, st, args[0], o):
        if g:
            out += [(s2, good(o, v)) for s2, v in eng.apply(s, args[1], [p], ctx, site)]
        else:
            out.append((s, bad(o, p)))
    return out


@orx('map_err')
def m_maperr(eng, st, args, ctx, site, o, rty):
    out = []
    for s, g, p in wrapcase(eng, st, args[0], o):
        if g:
            out.append((s, OK(p)))
        else:
            out += [(s2, ERR(v)) for s2, v in eng.apply(s, args[1], [p], ctx, site)]
    return out


@orx('map_or', 'map_or_else')
def m_mapor(eng, st, args, ctx, site, o, rty):
    out = []
    els = o['path'].endswith('else')
    for s, g, p in wrapcase(eng, st, args[0], o):
        if g:
            out += eng.apply(s, args[2], [p], ctx, site)
        elif els:
            out += eng.apply(s, args[1], [p] if is_res(o) else [], ctx, site)
        else:
            out.append((s, args[1]))
    return out


@orx('and_then')
def m_andthen(eng, st, args, ctx, site, o, rty):
    out = []
    for s, g, p in wrapcase(eng, st, args[0], o):
        out += eng.apply(s, args[1], [p], ctx, site) if g else [(s, bad(o, p))]
    return out


@orx('or_else')
def m_orelse(eng, st, args, ctx, site, o, rty):
    out = []
    for s, g, p in wrapcase(eng, st, args[0], o):
        out += [(s, good(o, p))] if g else eng.apply(s, args[1], [p] if is_res(o) else [], ctx, site)
    return out


@orx('or')
def m_or(eng, st, args, ctx, site, o, rty):
    return [(s, good(o, p) if g else args[1]) for s, g, p in wrapcase(eng, st, args[0], o)]


@orx('and')
def m_and(eng, st, args, ctx, site, o, rty):
    return [(s, args[1] if g else bad(o, p)) for s, g, p in wrapcase(eng, st, args[0], o)]


@orx('ok')
def m_ok(eng, st, args, ctx, site, o, rty):
    return [(s, SOME(p) if g else NONE) for s, g, p in wrapcase(eng, st, args[0], o)]


@orx('err')
def m_err(eng, st, args, ctx, site, o, rty):
    return [(s, NONE if g else SOME(p)) for s, g, p in wrapcase(eng, st, args[0], o)]


@orx('ok_or')
def m_okor(eng, st, args, ctx, site, o, rty):
    return [(s, OK(p) if g else ERR(args[1])) for s, g, p in wrapcase(eng, st, args[0], o)]


@orx('ok_or_else')
def m_okorelse(eng, st, args, ctx, site, o, rty):
    out = []
    for s, g, p in wrapcase(eng, st, args[0], o):
        if g:
            out.append((s, OK(p)))
        else:
            out += [(s2, ERR(v)) for s2, v in eng.apply(s, args[1], [], ctx, site)]
    return out


@orx('is_some_and', 'is_ok_and')
def m_isand(eng, st, args, ctx, site, o, rty):
    out = []
    for s, g, p in wrapcase(eng, st, args[0], o):
        out += eng.apply(s, args[1], [p], ctx, site) if g else [(s, FALSE)]
    return out


@orx('is_none_or')
def m_isnoneor(eng, st, args, ctx, site, o, rty):
    out = []
    for s, g, p in wrapcase(eng, st, args[0], o):
        out += eng.apply(s, args[1], [p], ctx, site) if g else [(s, TRUE)]
    return out


@orx('is_err_and')
def m_iserrand(eng, st, args, ctx, site, o, rty):
    out = []
    for s, g, p in wrapcase(eng, st, args[0], o):
        out += eng.apply(s, args[1], [p], ctx, site) if not g else [(s, FALSE)]
    return out


@orx('filter')
def m_ofilter(eng, st, args, ctx, site, o, rty):
    out = []
    for s, g, p in wrapcase(eng, st, args[0], o):
        if not g:
            out.append((s, NONE))
            continue
        for s2, b in eng.apply(s, args[1], [p], ctx, site):
            for s3, tv in tr(eng, s2, b):
                out.append((s3, SOME(p) if tv else NONE))
    return out


@orx('inspect', 'inspect_err')
def m_oinspect(eng, st, args, ctx, site, o, rty):
    out = []
    onerr = o['path'].endswith('_err')
    for s, g, p in wrapcase(eng, st, args[0], o):
        v = good(o, p) if g else bad(o, p)
        if g != onerr:
            out += [(s2, v) for s2, _ in eng.apply(s, args[1], [p], ctx, site)]
        else:
            out.append((s, v))
    return out


@orx('flatten')
def m_flatten(eng, st, args, ctx, site, o, rty):
    return [(s, p if g else bad(o, p)) for s, g, p in wrapcase(eng, st, args[0], o)]


@orx('transpose')
def m_transpose(eng, st, args, ctx, site, o, rty):
    out = []
    for s, g, p in wrapcase(eng, st, args[0], o):
        if is_res(o):
            if not g:
                out.append((s, SOME(ERR(p))))
            else:
                out += [(s2, SOME(OK(q)) if n == 'Some' else NONE) for s2, n, q in cases(eng, s, p, OPT)]
        else:
            if not g:
                out.append((s, OK(NONE)))
            else:
                out += [(s2, OK(SOME(q)) if n == 'Ok' else ERR(q)) for s2, n, q in cases(eng, s, p, RES)]
    return out


@orx('zip')
def m_ozip(eng, st, args, ctx, site, o, rty):
    out = []
    for s, g, p in wrapcase(eng, st, args[0], o):
        if not g:
            out.append((s, NONE))
            continue
        for s2, n, q in cases(eng, s, args[1], OPT):
            out.append((s2, SOME(mk('tup', (p, q))) if n == 'Some' else NONE))
    return out


@orx('get_or_insert_with', 'get_or_insert', 'insert')
def m_goi(eng, st, args, ctx, site, o, rty):
    r = target(eng, st, args[0])
    if r[0] != 'ref':
        return None
    ref = mk('ref', r[1], r[2] + (('f', 'Some', '0'),))
    nm = o['path'].split('::')[-1]
    out = []
    for s, g, p in wrapcase(eng, st, r, o):
        if g and nm != 'insert':
            out.append((s, ref))
            continue
        vals = eng.apply(s, args[1], [], ctx, site) if nm.endswith('with') else [(s, args[1])]
        for s2, v in vals:
            s2 = s2.copy()
            eng.write(s2, r[1], r[2], SOME(v))
            out.append((s2, ref))
    return out


@orx('iter', 'iter_mut')
def m_oiter(eng, st, args, ctx, site, o, rty):
    return [(s, mk('iter', mk('S', 'vec', (one(p),)) if g else EMPTYVEC, (), 0)) for s, g, p in wrapcase(eng, st, args[0], o)]


@model('std::bool::<impl bool>::then')
def m_then(eng, st, args, ctx, site, o, rty):
    out = []
    for s, b in tr(eng, st, args[0]):
        out += [(s2, SOME(v)) for s2, v in eng.apply(s, args[1], [], ctx, site)] if b else [(s, NONE)]
    return out


@model('std::bool::<impl bool>::then_some')
def m_thensome(eng, st, args, ctx, site, o, rty):
    return [(s, SOME(args[1]) if b else NONE) for s, b in tr(eng, st, args[0])]


@model('std::ops::try_trait::Try::branch')
def m_branch(eng, st, args, ctx, site, o, rty):
    r = canon(o['args'][0]) if o.get('args') else ''
    an = RES if r.startswith(RES) else OPT
    out = []
    for s, n, p in cases(eng, st, args[0], an):
        if n in ('Ok', 'Some'):
            out.append((s, adt(CF, 'Continue', ('0', p))))
        else:
            out.append((s, adt(CF, 'Break', ('0', ERR(p) if n == 'Err' else NONE))))
    return out


@model('std::ops::try_trait::FromResidual::from_residual')
def m_residual(eng, st, args, ctx, site, o, rty):
    v = eng.deref(st, args[0])
    k = canon(o.get('aux'))
    if v[0] == 'adt' and v[2] == 'Err' and k in eng.p.bodies:
        return [(s, ERR(x)) for s, x in eng.inline(st, k, [getf(v, 'Err', '0')], eng.ctx(ctx, site, k), site)]
    return [(st, v)]


@model('std::ops::try_trait::Try::from_output')
def m_from_output(eng, st, args, ctx, site, o, rty):
    return [(st, OK(args[0]) if canon(rty).startswith(RES) else SOME(args[0]))]


@model('std::ops::function::FnOnce::call_once', 'std::ops::function::FnMut::call_mut', 'std::ops::function::Fn::call')
def m_fncall(eng, st, args, ctx, site, o, rty):
    a = eng.deref(st, args[1])
    f = args[0]
    fv = eng.deref(st, f)
    if fv[0] == 'clo' and f[0] == 'ref':
        return eng.call_closure(st, fv, list(a[1]), ctx, site, fref=target(eng, st, f))
    return eng.apply(st, f, list(a[1]) if a[0] == 'tup' else [a], ctx, site, rty)


# ---------------------------------------------------------------- panics, exit

@pattern(r'^(std::panicking::\w+|std::option::\w+_failed|std::result::unwrap_failed|std::rt::\w*panic\w*|std::panicking::.*)$')
def m_panic(eng, st, args, ctx, site, o, rty):
    p = canon(o['path'])
    if p.endswith('unreachable_default_msg'):
        eng.panic(st, ctx, site[2], 'unreachable')
        return []
    eng.panic(st, ctx, site[2], 'panic')
    return []


@model('std::process::exit')
def m_exit(eng, st, args, ctx, site, o, rty):
    eng.sink.append(('exit', st.copy(), (ctx, site[2], eng.freeze(st, args[0]))))
    return []


@model('std::process::abort')
def m_abort(eng, st, args, ctx, site, o, rty):
    eng.sink.append(('exit', st.copy(), (ctx, site[2], INT(134))))
    return []


# ---------------------------------------------------------------- I/O

@model('std::io::stdio::_print')
def m_print(eng, st, args, ctx, site, o, rty):
    st = st.copy()
    eng.event(st, 'out', eng.freeze(st, args[0]))
    return [(st, UNIT)]


@model('std::io::stdio::_eprint')
def m_eprint(eng, st, args, ctx, site, o, rty):
    st = st.copy()
    eng.event(st, 'err', eng.freeze(st, args[0]))
    return [(st, UNIT)]


@model('std::io::stdio::stdout', 'std::io::stdio::stderr')
def m_std(eng, st, args, ctx, site, o, rty):
    return [(st, mkapp(o['path'].split('::')[-1]))]


def io_write(eng, st, recv, text, ctx=None, site=None):
    """Write to stdout / stderr / a string / a formatter."""
    r = target(eng, st, recv)
    v = eng.deref(st, recv)
    st = st.copy()
    if v[0] == 'app' and v[1] in ('stdout', 'stderr'):
        eng.event(st, 'out' if v[1] == 'stdout' else 'err', text)
        return [(st, OK(UNIT))]
    if r[0] == 'ref':
        if v[0] == 'app' and v[1] in ('file',):
            t = eng.new(st, ctx, site, 'fs_write', v[2])
            out = []
            for s, n, x in fork_result(eng, st, UNIT, t):
                eng.event(s, 'fsadd', v[2], text, v[3], STR(n))
                out.append((s, x))
            return out
        eng.write(st, r[1], r[2], seq('str', pieces_of(v, 'str') + pieces_of(text, 'str')))
        return [(st, OK(UNIT))]
    eng.event(st, 'sys', 'write', v, text)
    return [(st, OK(UNIT))]


@model('std::io::write::Write::write_fmt', 'std::io::write::Write::write_all', 'std::io::Write::write_fmt', 'std::fmt::Write::write_fmt', "std::fmt::Formatter::<'a>::write_fmt",
       "std::fmt::Formatter::<'a>::write_str", 'std::fmt::Write::write_str', 'std::io::Write::write_all',
       'std::fmt::Write::write_char', "std::fmt::Formatter::<'a>::pad")
def m_write(eng, st, args, ctx, site, o, rty):
    if canon(o.get('key')) in eng.p.bodies:
        return None
    return io_write(eng, st, args[0], tostr(eng, st, args[1]), ctx, site)


@pattern(r'^std::io::buffered::(bufwriter::BufWriter|bufreader::BufReader|linewriter::LineWriter)::<.*>::(new|with_capacity|by_ref)$')
def m_buf(eng, st, args, ctx, site, o, rty):
    return [(st, args[-1])]


@model('std::io::stdio::Stdout::lock', 'std::io::stdio::Stderr::lock')
def m_lock(eng, st, args, ctx, site, o, rty):
    return [(st, eng.deref(st, args[0]))]


@model('std::io::read::read_to_string', 'std::io::read_to_string')
def m_ioread(eng, st, args, ctx, site, o, rty):
    f = eng.deref(st, args[0])
    if not (f[0] == 'app' and f[1] == 'file'):
        return None
    return m_read(eng, st, [f[2]], ctx, site, o, rty)


def branch(eng, st, t):
    for v in (True, False):
        s = st.copy()
        if eng.assume(s, t, v):
            yield s, v


@model('std::ops::range::Range::<Idx>::contains')
def m_rcontains(eng, st, args, ctx, site, o, rty):
    r, x = eng.freeze(st, args[0]), eng.freeze(st, args[1])
    if r[0] == 'adt':
        d = dict(r[3])
        lo, hi = d['start'], d['end']
    elif r[0] == 'range':
        lo, hi = r[1], r[2]
    else:
        return None
    out = []
    for s, a in branch(eng, st, mkapp('lt', x, lo)):
        if a:
            out.append((s, FALSE))
        else:
            out += [(s2, TRUE if b else FALSE) for s2, b in branch(eng, s, mkapp('lt', x, hi))]
    return out


@model('std::ops::range::RangeInclusive::<Idx>::new')
def m_rincl(eng, st, args, ctx, site, o, rty):
    return [(st, mk('adt', 'std::ops::range::Range', 'Range', (('start', args[0]), ('end', eng.addterm(eng.freeze(st, args[1]), INT(1))))))]


@model('std::rcs::rc::Rc::<T>::new', 'std::sync::arc::Arc::<T>::new', 'std::rc::Rc::<T>::new')
def m_rc(eng, st, args, ctx, site, o, rty):
    return [(st, args[0])]


@model('std::fs::File::sync_all', 'std::fs::File::sync_data')
def m_sync(eng, st, args, ctx, site, o, rty):
    return [(st, OK(UNIT))]


@model('std::fs::File::open')
def m_fopen(eng, st, args, ctx, site, o, rty):
    p = eng.freeze(st, args[0])
    out = []
    for s, n, v in fork_result(eng, st, mkapp('file', p, STR('read')), mkapp('fs_ropen', p)):
        eng.event(s, 'fsr', p, STR(n))
        out.append((s, v))
    return out


@model('std::io::read::Read::read_to_string', 'std::io::Read::read_to_string')
def m_readto(eng, st, args, ctx, site, o, rty):
    f = eng.deref(st, args[0])
    if not (f[0] == 'app' and f[1] == 'file'):
        return None
    p = f[2]
    out = []
    for s, n, v in fork_result(eng, st, UNIT, mkapp('fs_read', p)):
        eng.event(s, 'fsr', p, STR(n))
        if n == 'Ok':
            r = target(eng, s, args[1])
            if r[0] != 'ref':
                return None
            old = eng.deref(s, args[1])
            eng.write(s, r[1], r[2], seq('str', pieces_of(old, 'str') + pieces_of(mkapp('content', p), 'str')))
            v = OK(mkapp('len', mkapp('content', p)))
        out.append((s, v))
    return out


@model('std::io::write::Write::flush', 'std::io::Write::flush')
def m_flush(eng, st, args, ctx, site, o, rty):
    return [(st, OK(UNIT))]


def fork_result(eng, st, okv, t):
    out = []
    for n in ('Ok', 'Err'):
        s2 = st.copy()
        if eng.assume_variant(s2, t, n, True):
            out.append((s2, n, OK(okv) if n == 'Ok' else ERR(getf(t, 'Err', '0'))))
    return out


@model('std::fs::read_to_string')
def m_read(eng, st, args, ctx, site, o, rty):
    p = eng.freeze(st, args[0])
    t = mkapp('fs_read', p)
    out = []
    for s, n, v in fork_result(eng, st, mkapp('content', p), t):
        eng.event(s, 'fsr', p, STR(n))
        out.append((s, v))
    return out


@model('std::fs::read')
def m_readbytes(eng, st, args, ctx, site, o, rty):
    p = eng.freeze(st, args[0])
    out = []
    for s, n, v in fork_result(eng, st, mkapp('bytes_of', p), mkapp('fs_readb', p)):
        eng.event(s, 'fsr', p, STR(n))
        out.append((s, v))
    return out


@model('std::fs::write')
def m_fswrite(eng, st, args, ctx, site, o, rty):
    p, c = eng.freeze(st, args[0]), eng.freeze(st, args[1])
    st = st.copy()
    t = eng.new(st, ctx, site, 'fs_write', p)
    out = []
    for s, n, v in fork_result(eng, st, UNIT, t):
        eng.event(s, 'fsw', p, c, STR(n))
        out.append((s, v))
    return out


@model('std::path::Path::exists')
def m_exists(eng, st, args, ctx, site, o, rty):
    return [(st, mkapp('exists', eng.freeze(st, args[0])))]


@model('std::path::Path::is_file')
def m_isfile(eng, st, args, ctx, site, o, rty):
    return [(st, mkapp('is_file', eng.freeze(st, args[0])))]


@model('std::path::Path::try_exists', 'std::fs::exists')
def m_tryexists(eng, st, args, ctx, site, o, rty):
    p = eng.freeze(st, args[0])
    return [(s, v) for s, n, v in fork_result(eng, st, mkapp('exists', p), mkapp('try_exists', p))]


@model('std::path::Path::with_extension')
def m_withext(eng, st, args, ctx, site, o, rty):
    return [(st, mkapp('with_ext', eng.freeze(st, args[0]), eng.freeze(st, args[1])))]


@model('std::path::PathBuf::set_extension')
def m_setext(eng, st, args, ctx, site, o, rty):
    st = st.copy()
    setref(eng, st, args[0], mkapp('with_ext', eng.freeze(st, args[0]), eng.freeze(st, args[1])))
    return [(st, mkapp('has_file_name', eng.freeze(st, args[0])))]


def optional(eng, st, t, payload):
    """An option that is Some(payload) under an uninterpreted condition."""
    out = []
    for n, v in (('Some', SOME(payload)), ('None', NONE)):
        s = st.copy()
        if eng.assume_variant(s, t, n, True):
            out.append((s, v))
    return out


@model('std::path::Path::file_name', 'std::path::Path::file_stem', 'std::path::Path::extension', 'std::path::Path::parent')
def m_pathpart(eng, st, args, ctx, site, o, rty):
    p, nm = eng.freeze(st, args[0]), o['path'].split('::')[-1]
    if p[0] == 'app' and p[1] == 'with_ext':
        if nm == 'parent':
            p = p[2]
        elif nm == 'extension' and p[3][0] == 'str' and p[3][1]:
            # with_extension("t.sol") leaves "sol" as the extension
            return optional(eng, st, mkapp('path_file_stem', p[2]), STR(p[3][1].rsplit('.', 1)[-1]))
    return optional(eng, st, mkapp('path_' + nm, p), mkapp('of_' + nm, p))


@model('std::ffi::os_str::OsStr::to_str', 'std::path::Path::to_str')
def m_osstr(eng, st, args, ctx, site, o, rty):
    x = eng.freeze(st, args[0])
    if x[0] == 'str':
        return [(st, SOME(x))]
    return optional(eng, st, mkapp('is_utf8', x), x)


@model('std::ffi::os_str::OsStr::to_string_lossy', 'std::ffi::os_str::OsStr::to_os_string', 'std::ffi::os_str::OsStr::new',
       'std::ffi::os_str::OsString::into_string_lossy', 'std::path::Path::new', 'std::path::Path::as_os_str', 'std::path::PathBuf::as_path',
       'std::path::PathBuf::into_os_string', 'std::ffi::os_str::OsString::as_os_str')
def m_osident(eng, st, args, ctx, site, o, rty):
    return m_clone(eng, st, args, ctx, site, o, rty)


def path_with_name(eng, p, n):
    ps = pieces_of(n, 'str')
    if len(ps) >= 2 and ps[0] is mkapp('of_file_stem', p) and ps[1][0] == 'str' and ps[1][1].startswith('.') and len(ps) == 2:
        return mkapp('with_ext', p, STR(ps[1][1][1:]))
    if n[0] == 'app' and n[1] == 'of_file_name' and n[2][0] == 'app' and n[2][1] == 'with_ext' and n[2][2] is p:
        return n[2]
    # cut at the first dot: not the stem of a name with two
    first = [x for x in find_apps(n, ('nth',)) if x[3] is INT(0) and x[2][0] == 'app' and x[2][1] in ('split', 'splitn')
             and x[2][2] is mkapp('of_file_name', p)]
    if any(x[2] is p for x in find_apps(n, ('of_file_name', 'of_extension'))) and not first:
        # the name is taken apart by hand: whether that gives the stem is not decided
        eng.unmodelled['the path is taken apart as text'] = 1
    return mkapp('with_fname', p, n)


def find_apps(t, names):
    out, seen = [], set()

    def go(x):
        if not isinstance(x, tuple) or id(x) in seen:
            return
        seen.add(id(x))
        if isinstance(x, T) and x and x[0] == 'app' and x[1] in names:
            out.append(x)
        for y in x:
            if isinstance(y, tuple):
                go(y)
    go(t)
    return out


@model('std::path::Path::with_file_name')
def m_withfname(eng, st, args, ctx, site, o, rty):
    return [(st, path_with_name(eng, eng.freeze(st, args[0]), eng.freeze(st, args[1])))]


@model('std::path::PathBuf::set_file_name')
def m_setfname(eng, st, args, ctx, site, o, rty):
    st = st.copy()
    setref(eng, st, args[0], path_with_name(eng, eng.freeze(st, args[0]), eng.freeze(st, args[1])))
    return [(st, UNIT)]


@model('std::path::Path::join')
def m_pathjoin(eng, st, args, ctx, site, o, rty):
    a, b = eng.freeze(st, args[0]), eng.freeze(st, args[1])
    if a[0] == 'app' and a[1] == 'of_parent':
        return [(st, path_with_name(eng, a[2], b))]
    return [(st, mkapp('path_join', a, b))]


@pattern(r'^(anyhow::error::<impl anyhow::Error>::(is|downcast_ref)|std::io::error::Error::(kind|raw_os_error))$')
def m_errkind(eng, st, args, ctx, site, o, rty):
    # what kind of error it is: depends on the error, and on nothing else
    ty = [STR(canon(a)) for a in o.get('args', ())[:1]] if 'anyhow' in o['path'] else []
    return [(st, mkapp('err_' + o['path'].split('::')[-1], eng.freeze(st, args[0]), *ty))]


@pattern(r'^thiserror(::\w+)*::display::AsDisplay::as_display$|^thiserror(::\w+)*::aserror::AsDynError::as_dyn_error$')
def m_asdisplay(eng, st, args, ctx, site, o, rty):
    return [(st, args[0])]


@model('std::string::String::from_utf8', 'std::str::from_utf8', 'std::str::converts::from_utf8', 'core::str::converts::from_utf8')
def m_fromutf8(eng, st, args, ctx, site, o, rty):
    x = eng.freeze(st, args[0])
    t = mkapp('content', x[2]) if x[0] == 'app' and x[1] == 'bytes_of' else x
    return [(s, v) for s, n, v in fork_result(eng, st, t, mkapp('utf8', x))]


@model('std::string::String::from_utf8_lossy', 'std::string::String::from_utf8_lossy_owned')
def m_utf8lossy(eng, st, args, ctx, site, o, rty):
    return [(st, mkapp('text_lossy', eng.freeze(st, args[0])))]


@model('std::fs::File::create', 'std::fs::File::create_new', 'std::fs::File::create_buffered')
def m_fcreate(eng, st, args, ctx, site, o, rty):
    p = eng.freeze(st, args[0])
    new = canon(o['path']).endswith('create_new')
    return open_file(eng, st, p, 'new' if new else 'trunc', ctx, site)


def open_file(eng, st, p, mode, ctx, site):
    st = st.copy()
    t = eng.new(st, ctx, site, 'fs_open', p)
    out = []
    for s, n, v in fork_result(eng, st, mkapp('file', p, STR(mode)), t):
        eng.event(s, 'fsopen', p, STR(mode), STR(n))
        out.append((s, v))
    return out


@model('std::fs::OpenOptions::new')
def m_oonew(eng, st, args, ctx, site, o, rty):
    return [(st, mkapp('open_opts'))]


@pattern(r'^std::fs::OpenOptions::(create|create_new|truncate|append|write|read)$')
def m_ooset(eng, st, args, ctx, site, o, rty):
    v = eng.deref(st, args[0])
    st = st.copy()
    setref(eng, st, args[0], mkapp('open_opts', *(v[2:] + (mk('opt', canon(o['path']).split('::')[-1], args[1]),))))
    return [(st, args[0])]


@model('std::fs::OpenOptions::open')
def m_ooopen(eng, st, args, ctx, site, o, rty):
    v = eng.freeze(st, args[0])
    opts = {x[1]: x[2] for x in v[2:]} if v[0] == 'app' and v[1] == 'open_opts' else None
    p = eng.freeze(st, args[1])
    on = {k for k, v in (opts or {}).items() if v == TRUE}
    if opts is not None and on <= {'read'}:
        return m_fopen(eng, st, args[1:], ctx, site, o, rty)
    mode = 'new' if 'create_new' in on else 'append' if 'append' in on else 'trunc' if 'truncate' in on or opts is None else 'keep'
    return open_file(eng, st, p, mode, ctx, site)


SYS = re.compile(r'^std::(fs|net|process|env|os|thread|time|sys)::|^tempfile::|^rand|^(std::path::Path::(metadata|is_dir|canonicalize|read_dir|is_symlink|symlink_metadata|read_link)$)|^std::io::stdio::stdin')


@pattern(SYS.pattern)
def m_sys(eng, st, args, ctx, site, o, rty):
    p = canon(o['path'])
    st = st.copy()
    fr = [eng.freeze(st, a) for a in args]
    eng.event(st, 'sys', STR(p), *fr)
    t = eng.new(st, ctx, site, p, *fr)
    if canon(rty).startswith(RES):
        return [(s, v) for s, n, v in fork_result(eng, st, getf(t, 'Ok', '0'), t)]
    return [(st, t)]


# ---------------------------------------------------------------- formatting

@pattern(r"^std::fmt::rt::Argument::<'_>::new_(display|debug|lower_hex|upper_hex|debug_noop|from_usize)$")
def m_arg(eng, st, args, ctx, site, o, rty):
    v = eng.freeze(st, args[0])
    ty = o['args'][0] if o.get('args') else ''
    kind = o['path'].split('new_')[-1]
    if kind == 'display' and (is_str_ty(ty) or v[0] in ('str',)):
        return [(st, mk('fmtarg', tostr(eng, st, v)))]
    if kind == 'display' and v[0] == 'int':
        return [(st, mk('fmtarg', STR(str(v[1]))))]
    k = canon(o.get('aux'))
    if kind == 'display' and k in eng.p.bodies and (k in eng.inline_display or '*' in eng.inline_display):
        return [(s, mk('fmtarg', x)) for s, x in run_display(eng, st, k, args[0], ctx, site)]
    return [(st, mk('fmtarg', mkapp('show' if kind == 'display' else kind, v)))]


def run_display(eng, st, key, arg, ctx, site):
    c = eng.ctx(ctx, site, key)
    cell = ('fmt', c)
    s = st.copy()
    s.store[cell] = STR('')
    out = []
    for s2, r in eng.inline(s, key, [arg, mk('ref', cell, ())], c, site):
        v = s2.store.pop(cell, STR(''))
        out.append((s2, v))
    return out


@model('std::string::ToString::to_string')
def m_tostring(eng, st, args, ctx, site, o, rty):
    ty = o['args'][0] if o.get('args') else ''
    v = eng.freeze(st, args[0])
    if is_str_ty(ty):
        return [(st, tostr(eng, st, v))]
    if v[0] == 'int':
        return [(st, STR(str(v[1])))]
    k = canon(o.get('aux'))
    if k in eng.p.bodies and (k in eng.inline_display or '*' in eng.inline_display):
        return run_display(eng, st, k, args[0], ctx, site)
    if v[0] == 'app' and v[1] in ('upper1', 'lower1'):
        return [(st, v)]
    return [(st, mkapp('show', v))]


def parse_template(bs):
    """[('lit', text) | ('arg', index, spec)]"""
    out = []
    i = 0
    nxt = 0
    while i < len(bs):
        b = bs[i]
        if b == 0:
            break
        if b < 0x80:
            out.append(('lit', bytes(bs[i + 1:i + 1 + b]).decode('utf8')))
            i += 1 + b
        elif b == 0x80:
            n = bs[i + 1] | bs[i + 2] << 8
            out.append(('lit', bytes(bs[i + 3:i + 3 + n]).decode('utf8')))
            i += 3 + n
        else:
            i += 1
            spec = []
            if b & 1:
                spec.append(('flags', tuple(bs[i:i + 4]))); i += 4
            if b & 2:
                spec.append(('width', tuple(bs[i:i + 2]))); i += 2
            if b & 4:
                spec.append(('prec', tuple(bs[i:i + 2]))); i += 2
            if b & 8:
                nxt = bs[i] | bs[i + 1] << 8; i += 2
            out.append(('arg', nxt, tuple(spec)))
            nxt += 1
    return out


@pattern(r"^std::fmt::Arguments::<'a>::(new|new_v1|new_const)$")
def m_arguments(eng, st, args, ctx, site, o, rty):
    t = eng.deref(st, args[0])
    a = eng.deref(st, args[1]) if len(args) > 1 else mk('arr', ())
    if t[0] != 'bytes' or a[0] != 'arr':
        return [(st, mkapp('format', eng.freeze(st, t), eng.freeze(st, a)))]
    ps = []
    for p in parse_template(t[1]):
        if p[0] == 'lit':
            ps.append(STR(p[1]))
        else:
            v = a[1][p[1]] if p[1] < len(a[1]) else TOP
            v = v[1] if v[0] == 'fmtarg' else eng.freeze(st, v)
            if p[2]:
                v = mkapp('fmtspec', mk('spec', *p[2]), v)
            ps.append(v)
    return [(st, seq('str', ps))]


@pattern(r"^std::fmt::Arguments::<'a>::(from_str|from_str_nonconst)$")
def m_argstr(eng, st, args, ctx, site, o, rty):
    return [(st, eng.deref(st, args[0]))]


@pattern(r'^std::fmt::format$|^std::fmt::format::|^std::alloc::fmt::format$')
def m_format(eng, st, args, ctx, site, o, rty):
    return [(st, args[0])]


@model('anyhow::__private::format_err')
def m_anyhow(eng, st, args, ctx, site, o, rty):
    return [(st, mkapp('anyhow', eng.freeze(st, args[0])))]


# ---------------------------------------------------------------- numbers

@pattern(r'^std::num::<impl \w+>::saturating_sub$')
def m_satsub(eng, st, args, ctx, site, o, rty):
    a, b = eng.freeze(st, args[0]), eng.freeze(st, args[1])
    if a[0] == b[0] == 'int':
        return [(st, INT(max(0, a[1] - b[1])))]
    if b is INT(0):
        return [(st, a)]
    return [(st, mkapp('satsub', a, b))]


@pattern(r'^std::num::<impl \w+>::(saturating|wrapping)_add$')
def m_satadd(eng, st, args, ctx, site, o, rty):
    return [(st, eng.addterm(eng.freeze(st, args[0]), eng.freeze(st, args[1])))]


@pattern(r'^std::num::<impl \w+>::checked_(add|sub)$')
def m_chk(eng, st, args, ctx, site, o, rty):
    a, b = eng.freeze(st, args[0]), eng.freeze(st, args[1])
    if o['path'].endswith('add'):
        # overflow of a position is out of scope
        return [(st, SOME(eng.addterm(a, b)))]
    t = eng.ltterm(st, a, b)
    out = []
    for s, u in tr(eng, st, t):
        out.append((s, NONE if u else SOME(eng.binop(s, 'Sub', a, b))))
    return out


# ---------------------------------------------------------------- strings

@model('std::string::String::push_str', 'std::string::String::push')
def m_push_str(eng, st, args, ctx, site, o, rty):
    st = st.copy()
    r = target(eng, st, args[0])
    v = eng.deref(st, args[0])
    x = tostr(eng, st, args[1])
    if r[0] == 'ref':
        eng.write(st, r[1], r[2], seq('str', pieces_of(v, 'str') + pieces_of(x, 'str')))
    return [(st, UNIT)]


@model('std::string::String::insert_str', 'std::string::String::insert')
def m_insert_str(eng, st, args, ctx, site, o, rty):
    st = st.copy()
    r = target(eng, st, args[0])
    v = eng.deref(st, args[0])
    x = tostr(eng, st, args[2])
    i = eng.freeze(st, args[1])
    if r[0] == 'ref':
        if i is INT(0):
            nv = seq('str', pieces_of(x, 'str') + pieces_of(v, 'str'))
        else:
            fv = eng.freeze(st, v)
            nv = seq('str', (mkapp('slice', fv, INT(0), i),) + pieces_of(x, 'str') + (mkapp('slice', fv, i, length(eng, st, fv)),))
        eng.write(st, r[1], r[2], nv)
    return [(st, UNIT)]


@model('std::ops::arith::Add::add')
def m_add(eng, st, args, ctx, site, o, rty):
    if canon(rty) == 'std::string::String':
        a, b = eng.freeze(st, args[0]), tostr(eng, st, args[1])
        v = eng.deref(st, args[0])
        return [(st, seq('str', pieces_of(v, 'str') + pieces_of(b, 'str')))]
    return [(st, eng.addterm(eng.freeze(st, args[0]), eng.freeze(st, args[1])))]


@model('std::ops::arith::Sub::sub')
def m_sub(eng, st, args, ctx, site, o, rty):
    if not re.fullmatch(r'[ui](8|16|32|64|128|size)', rty or ''):
        return None
    a, b = eng.freeze(st, args[0]), eng.freeze(st, args[1])
    if eng.overflow and rty[0] == 'u':
        s = st.copy()
        if eng.assume(s, eng.ltterm(s, a, b), True):
            eng.panic(s, ctx, site[2], 'overflow')
        st = st.copy()
        if not eng.assume(st, eng.ltterm(st, a, b), False):
            return []
    return [(st, eng.binop(st, 'Sub', a, b))]


@model('std::ops::arith::AddAssign::add_assign')
def m_addassign(eng, st, args, ctx, site, o, rty):
    if any(is_str_ty(a) for a in o.get('args', ())[:1]):
        return m_push_str(eng, st, args, ctx, site, o, rty)
    st = st.copy()
    setref(eng, st, args[0], eng.addterm(eng.freeze(st, args[0]), eng.freeze(st, args[1])))
    return [(st, UNIT)]


@model('std::str::<impl str>::split_at')
def m_split_at(eng, st, args, ctx, site, o, rty):
    f, i = eng.freeze(st, args[0]), eng.freeze(st, args[1])
    return [(st, mk('tup', (mkapp('slice', f, INT(0), i), mkapp('slice', f, i, length(eng, st, f)))))]


@pattern(r'^std::string::String::(pop|truncate|clear|remove|drain|retain|replace_range|split_off)$')
def m_strmut(eng, st, args, ctx, site, o, rty):
    st = st.copy()
    nm = o['path'].split('::')[-1]
    r = target(eng, st, args[0])
    old = eng.freeze(st, args[0])
    fr = [eng.freeze(st, a) for a in args[1:]]
    if r[0] == 'ref':
        if nm == 'clear':
            nv = STR('')
        elif nm == 'pop' and old[0] == 'str':
            nv = STR(old[1][:-1])
        elif nm == 'replace_range' and old[0] not in ('str', 'S') and (fr[0][0] == 'range' or fr[0][0] == 'adt' and {'start', 'end'} <= {x[0] for x in fr[0][3]}):
            lo, hi = fr[0][1:3] if fr[0][0] == 'range' else (getf(fr[0], None, 'start'), getf(fr[0], None, 'end'))
            nv = seq('str', (mkapp('slice', old, INT(0), lo),) + pieces_of(tostr(eng, st, args[2]), 'str') + (mkapp('slice', old, hi, length(eng, st, old)),))
        elif nm in ('truncate', 'split_off') and old[0] not in ('str', 'S'):
            nv = mkapp('slice', old, INT(0), fr[0])
        else:
            nv = mkapp('str_' + nm, old, *fr)
        eng.write(st, r[1], r[2], nv)
    t = mkapp('str_' + nm + '_ret', old, *fr)
    if nm == 'pop':
        if old[0] == 'str':
            return [(st, SOME(mk('char', ord(old[1][-1]))) if old[1] else NONE)]
        return [(st, t)]
    if nm == 'split_off' and old[0] not in ('str', 'S'):
        return [(st, mkapp('slice', old, fr[0], length(eng, st, old)))]
    return [(st, UNIT if nm in ('truncate', 'clear', 'retain', 'replace_range') else t)]


def strfold(nm, a):
    """Constant folding of a pure string function."""
    try:
        if not all(x[0] in ('str', 'int', 'char') for x in a):
            return None
        v = [chr(x[1]) if x[0] == 'char' else x[1] for x in a]
        if nm == 'replace':
            return STR(v[0].replace(v[1], v[2])) if v[1] else None
        if nm == 'repeat':
            return STR(v[0] * v[1]) if v[1] < 1000 else None
        if nm in ('trim', 'trim_start', 'trim_end') and v[0].isascii():
            return STR({'trim': v[0].strip, 'trim_start': v[0].lstrip, 'trim_end': v[0].rstrip}[nm]())
        if nm == 'to_lowercase' and v[0].isascii():
            return STR(v[0].lower())
        if nm == 'to_uppercase' and v[0].isascii():
            return STR(v[0].upper())
        if nm == 'starts_with':
            return BOOL(v[0].startswith(v[1]))
        if nm == 'ends_with':
            return BOOL(v[0].endswith(v[1]))
        if nm == 'contains':
            return BOOL(v[1] in v[0])
    except Exception:
        pass
    return None


@pattern(r'^std::(str::<impl str>|string::String)::(replace|replacen|repeat|trim|trim_start|trim_end|trim_matches|trim_start_matches|trim_end_matches|to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase|starts_with|ends_with|contains|eq_ignore_ascii_case|is_char_boundary|char_count)$')
def m_strpure(eng, st, args, ctx, site, o, rty):
    nm = o['path'].split('::')[-1]
    a = [closure_key(eng, st, x) for x in args]
    r = strfold(nm, a)
    if r is None:
        if nm == 'replace' and a[1] is a[2]:
            r = a[0]
        elif nm == 'repeat' and a[1] is INT(1):
            r = a[0]
        elif nm == 'repeat' and a[1] is INT(0):
            r = STR('')
        elif nm in ('starts_with',) and a[1] is STR(''):
            r = TRUE
        else:
            if nm in ('starts_with', 'ends_with', 'contains') and a[1][0] == 'char':
                a[1] = STR(chr(a[1][1]))
            if nm == 'replace' and a[1][0] == 'char':
                a[1] = STR(chr(a[1][1]))
            r = mkapp('str_' + nm, *a)
    return [(st, r)]


def closure_key(eng, st, x):
    """Argument of a pure function; a predicate closure is described by what it computes."""
    v = eng.freeze(st, x)
    if v[0] in ('clo', 'fn'):
        return summarize_pred(eng, st, v)
    return v


def summarize_pred(eng, st, f):
    """The function computed by a pure closure, as a term: a canonical set of
    (guards, result) alternatives over the parameter."""
    b = eng.p.bodies.get(f[1]) if f[0] == 'clo' else None
    s = State()
    s.store = dict(st.store)
    s.cur, s.active, s.fresh = st.cur, st.active, st.fresh
    p = mk('sym', 'λ')
    n = (b['argc'] - 1) if b else 1
    saved = eng.sink
    eng.sink = []
    try:
        outs = eng.apply(s, f, [p] + [mk('sym', 'λ%d' % i) for i in range(1, n)], eng.ctx(0, 'pred', str(f)), mk('site', 0, 'pred'))
    except Abort:
        return f
    finally:
        eng.sink = saved
    alts = set()
    for s2, v in outs:
        v = eng.freeze(s2, v)
        g = tuple(sorted((mk(k, x) for k, x in s2.facts.items() if st.facts.get(k) != x and k[0] != 'known'), key=lambda t: str_key(t)))
        tv = eng.truth(s2, v)
        alts.add((g, BOOL(tv) if tv is not None else v))
    return mk('lambda', tuple(sorted(alts, key=str_key)))


@pattern(r'^std::(str::<impl str>|string::String)::(find|rfind|split_once|rsplit_once|strip_prefix|strip_suffix|get|char_indices|parse)$')
def m_stropt(eng, st, args, ctx, site, o, rty):
    nm = o['path'].split('::')[-1]
    a = [closure_key(eng, st, x) for x in args]
    if len(a) > 1 and a[1][0] == 'char':
        a[1] = STR(chr(a[1][1]))
    if nm == 'char_indices':
        return [(st, mk('iter', mkapp('char_indices', *a), (), 0))]
    return [(st, mkapp('str_' + nm, *a))]


@pattern(r'^std::(str::<impl str>|string::String)::(chars|lines|split|split_whitespace|split_ascii_whitespace|splitn|rsplit|split_terminator|bytes|split_inclusive|matches|match_indices|rmatches)$')
def m_striter(eng, st, args, ctx, site, o, rty):
    nm = o['path'].split('::')[-1]
    a = [closure_key(eng, st, x) for x in args]
    if len(a) > 1 and a[1][0] == 'char':
        a[1] = STR(chr(a[1][1]))
    return [(st, mk('iter', mkapp(nm, *a), (), 0))]


@model("std::str::iter::Chars::<'a>::as_str")
def m_asstr(eng, st, args, ctx, site, o, rty):
    it = eng.deref(st, args[0])
    if it[0] == 'iter' and it[1][0] == 'app' and it[1][1] == 'chars' and not it[2] and it[3] != 'L':
        return [(st, it[1][2] if it[3] == 0 else mkapp('skipchars', it[1][2], INT(it[3])))]
    return [(st, mkapp('as_str', eng.freeze(st, it)))]


@pattern(r'^std::char::methods::<impl char>::(\w+)$')
def m_char(eng, st, args, ctx, site, o, rty):
    nm = o['path'].split('::')[-1]
    v = eng.freeze(st, args[0])
    if v[0] == 'char':
        ch = chr(v[1])
        if nm == 'is_whitespace':
            return [(st, BOOL(ch.isspace()))]
        if nm == 'is_alphanumeric':
            return [(st, BOOL(ch.isalnum()))]
        if nm == 'len_utf8':
            return [(st, INT(len(ch.encode())))]
    if nm in ('to_uppercase', 'to_lowercase'):
        return [(st, mkapp('upper1' if nm == 'to_uppercase' else 'lower1', v))]
    return [(st, mkapp('char_' + nm, *[eng.freeze(st, a) for a in args]))]


# ---------------------------------------------------------------- sequences

def kind_of(v, d='vec'):
    if v[0] == 'S':
        return v[1]
    if v[0] == 'str':
        return 'str'
    return d


def length(eng, st, v):
    v = eng.freeze(st, v)
    if v[0] == 'str':
        return INT(len(v[1].encode()))
    if v[0] == 'arr':
        return INT(len(v[1]))
    if v[0] == 'S' and v[1] != 'str' and all(p[0] == 'one' for p in v[2]):
        return INT(len(v[2]))
    if v[0] == 'S' and len(v[2]) == 1 and v[2][0][0] == 'all':
        v = v[2][0][1]
    if v[0] == 'app' and v[1] == 'chars' and False:
        pass
    return mkapp('len', v)


@pattern(r'^(std::slice::<impl \[T\]>|std::vec::Vec::<T, A>|std::string::String|std::str::<impl str>|std::collections::.*|indexmap::.*|std::iter::traits::exact_size::ExactSizeIterator)::len$')
def m_len(eng, st, args, ctx, site, o, rty):
    v = eng.deref(st, args[0])
    if v[0] == 'iter':
        if all(s[0] in ('map', 'enum') for s in v[2]):
            return [(st, length(eng, st, iter_src(eng, st, v)))]
        return [(st, mkapp('len', eng.freeze(st, v)))]
    return [(st, length(eng, st, v))]


@pattern(r'^(std::slice::<impl \[T\]>|std::vec::Vec::<T, A>|std::string::String|std::str::<impl str>|std::collections::.*|indexmap::.*)::is_empty$')
def m_isempty(eng, st, args, ctx, site, o, rty):
    return [(st, eng.empty_term(st, eng.freeze(st, args[0])))]


def push_pieces(eng, st, r, ps, kind='vec'):
    r = target(eng, st, r)
    if r[0] != 'ref':
        return
    v = eng.read(st, r[1], r[2])
    if v[0] == 'S':
        kind = v[1]
    eng.write(st, r[1], r[2], seq(kind, pieces_of(v, kind) + tuple(ps)))


@pattern(r'^std::(vec::Vec::<T, A>::push|collections::vec_deque::VecDeque::<T, A>::push_back)$')
def m_push(eng, st, args, ctx, site, o, rty):
    st = st.copy()
    push_pieces(eng, st, args[0], (one(args[1]),))
    return [(st, UNIT)]


@pattern(r'^std::(vec::Vec::<T, A>::insert|collections::vec_deque::VecDeque::<T, A>::push_front)$')
def m_vinsert(eng, st, args, ctx, site, o, rty):
    st = st.copy()
    r = target(eng, st, args[0])
    v = eng.deref(st, args[0])
    i = INT(0) if len(args) == 2 else eng.freeze(st, args[1])
    x = args[-1]
    if r[0] == 'ref':
        if i is INT(0):
            eng.write(st, r[1], r[2], seq('vec', (one(x),) + pieces_of(v, 'vec')))
        elif i is length(eng, st, v):
            eng.write(st, r[1], r[2], seq('vec', pieces_of(v, 'vec') + (one(x),)))
        else:
            eng.write(st, r[1], r[2], mkapp('vec_insert', eng.freeze(st, v), i, eng.freeze(st, x)))
    return [(st, UNIT)]


@pattern(r'^std::(vec::Vec::<T, A>|collections::vec_deque::VecDeque::<T, A>)::append$')
def m_append(eng, st, args, ctx, site, o, rty):
    st = st.copy()
    w = eng.deref(st, args[1])
    push_pieces(eng, st, args[0], pieces_of(w, 'vec'))
    setref(eng, st, args[1], EMPTYVEC)
    return [(st, UNIT)]


@pattern(r'^std::vec::Vec::<T, A>::(extend_from_slice)$')
def m_extslice(eng, st, args, ctx, site, o, rty):
    st = st.copy()
    w = eng.deref(st, args[1])
    push_pieces(eng, st, args[0], pieces_of(w, 'vec'))
    return [(st, UNIT)]


@pattern(r'^std::(vec::Vec::<T, A>::pop|collections::vec_deque::VecDeque::<T, A>::pop_back)$')
def m_pop(eng, st, args, ctx, site, o, rty):
    r = target(eng, st, args[0])
    v = eng.deref(st, args[0])
    if v[0] == 'S' and v[2] and v[2][-1][0] == 'one':
        st = st.copy()
        if r[0] == 'ref':
            eng.write(st, r[1], r[2], seq(v[1], v[2][:-1]))
        return [(st, SOME(v[2][-1][1]))]
    if v is EMPTYVEC:
        return [(st, NONE)]
    f = eng.freeze(st, v)
    t = mkapp('last', f)
    out = []
    for s, n, p in cases(eng, st, t, OPT):
        s = s.copy()
        if n == 'Some':
            if r[0] == 'ref':
                eng.write(s, r[1], r[2], mkapp('init', f))
            out.append((s, SOME(p)))
        else:
            out.append((s, NONE))
    return out


@pattern(r'^std::(vec::Vec::<T, A>|collections::vec_deque::VecDeque::<T, A>)::(remove|swap_remove|pop_front|truncate|clear|retain|retain_mut|dedup|dedup_by_key|dedup_by|drain|split_off|sort|swap|reverse)$')
def m_vecmut(eng, st, args, ctx, site, o, rty):
    nm = o['path'].split('::')[-1]
    r = target(eng, st, args[0])
    v = eng.deref(st, args[0])
    if nm in ('retain', 'retain_mut'):
        it = mk('iter', eng.freeze(st, v), (mk('filter', args[1]),), 0)
        out = []
        for s, w in collect(eng, st, it, 'vec', ctx, site):
            s = s.copy()
            setref(eng, s, args[0], w)
            out.append((s, UNIT))
        return out
    st = st.copy()
    f = eng.freeze(st, v)
    fr = [eng.freeze(st, a) for a in args[1:]]
    if nm == 'clear':
        setref(eng, st, args[0], EMPTYVEC)
        return [(st, UNIT)]
    if nm == 'truncate' and fr:
        # cut back to the length of one of its own prefixes
        w = v if v[0] == 'S' else f
        cut = None
        if fr[0][0] == 'app' and fr[0][1] == 'len':
            base = fr[0][2]
            if base is f or base is w:
                cut = w
            elif w[0] == 'S':
                for i in range(len(w[2]) + 1):
                    if seq(w[1], w[2][:i]) is base:
                        cut = base
        elif w[0] == 'S' and fr[0][0] == 'int' and all(x[0] == 'one' for x in w[2][:fr[0][1]]):
            cut = seq(w[1], w[2][:fr[0][1]])
        if cut is not None:
            setref(eng, st, args[0], cut)
            return [(st, UNIT)]
    if nm == 'drain' and fr and fr[0][0] != 'range':
        setref(eng, st, args[0], EMPTYVEC)
        return [(st, mk('iter', f, (), 0))]
    if nm in ('remove', 'swap_remove'):
        setref(eng, st, args[0], mkapp('vec_remove', f, *fr))
        return [(st, eng.index(st, f, fr[0]))]
    setref(eng, st, args[0], mkapp('vec_' + nm, f, *fr))
    return [(st, UNIT if nm in ('truncate', 'dedup', 'dedup_by', 'dedup_by_key', 'sort', 'swap', 'reverse') else mkapp('vec_' + nm + '_ret', f, *fr))]


@pattern(r'^std::slice::<impl \[T\]>::(sort|sort_by|sort_by_key|sort_unstable|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key|reverse|swap|rotate_left|rotate_right|fill)$')
def m_sort(eng, st, args, ctx, site, o, rty):
    st = st.copy()
    nm = o['path'].split('::')[-1]
    by = (closure_key(eng, st, args[1]),) if nm.startswith('sort') and len(args) > 1 else ()
    by = tuple(x for x in by if x[0] == 'lambda')
    setref(eng, st, args[0], mkapp('vec_' + nm.replace('_unstable', ''), eng.freeze(st, args[0]), *by))
    return [(st, UNIT)]


@pattern(r'^std::(slice::<impl \[T\]>|collections::vec_deque::VecDeque::<T, A>)::(first|front|last|back|get|first_mut|last_mut|get_mut)$')
def m_first(eng, st, args, ctx, site, o, rty):
    nm = o['path'].split('::')[-1].replace('_mut', '')
    nm = {'front': 'first', 'back': 'last'}.get(nm, nm)
    v = eng.deref(st, args[0])
    if v[0] in ('S', 'arr'):
        ps = pieces_of(v, 'vec')
        if not ps:
            return [(st, NONE)]
        p = None
        if nm == 'first':
            p = ps[0]
        elif nm == 'last':
            p = ps[-1]
        elif nm == 'get':
            i = eng.freeze(st, args[1])
            if i[0] == 'int' and all(q[0] == 'one' for q in ps):
                if i[1] >= len(ps):
                    return [(st, NONE)]
                p = ps[i[1]]
        if p is not None and p[0] == 'one':
            return [(st, SOME(p[1]))]
    f = eng.freeze(st, v)
    if nm == 'get':
        i = eng.freeze(st, args[1])
        if i is INT(0):
            nm = 'first'
        elif i[0] == 'ctr' and counted(mkapp('len', f)) is not None:
            n = mkapp('len', f)
            return [(s, REJECT if b is None else NONE if not b else SOME(eng.index(s, f, next(w for c, w in s.store.items() if st.store.get(c) is i))))
                    for s, b in more(eng, st, i, n)]
        else:
            t = mkapp('getidx', f, i)
            out = []
            for s, n, p in cases(eng, st, t, OPT):
                out.append((s, SOME(eng.index(s, f, i)) if n == 'Some' else NONE))
            return out
    t = mkapp(nm, f)
    out = []
    for s, n, p in cases(eng, st, t, OPT):
        if n == 'Some':
            out.append((s, SOME(eng.index(s, f, INT(0)) if nm == 'first' else getf(t, 'Some', '0'))))
        else:
            out.append((s, NONE))
    return out


@pattern(r'^std::(slice::<impl \[T\]>)::(split_first|split_last)$')
def m_splitfirst(eng, st, args, ctx, site, o, rty):
    nm = o['path'].split('::')[-1]
    f = eng.freeze(st, args[0])
    t = mkapp('first' if nm == 'split_first' else 'last', f)
    out = []
    for s, n, p in cases(eng, st, t, OPT):
        if n == 'Some':
            x = eng.index(s, f, INT(0)) if nm == 'split_first' else p
            out.append((s, SOME(mk('tup', (x, mkapp('skip', f, INT(1)) if nm == 'split_first' else mkapp('init', f))))))
        else:
            out.append((s, NONE))
    return out


@pattern(r'^std::slice::<impl \[T\]>::(join|concat)$')
def m_join(eng, st, args, ctx, site, o, rty):
    nm = o['path'].split('::')[-1]
    v = eng.freeze(st, args[0])
    sep = tostr(eng, st, args[1]) if nm == 'join' else STR('')
    isstr = is_str_ty(rty)
    ps = pieces_of(v, 'vec')
    if v[0] in ('S', 'arr') and (sep is STR('') or all(p[0] == 'one' for p in ps)):
        r = flat(ps, isstr, sep)
        if r is not None:
            return [(st, r)]
    if sep is STR(''):
        return [(st, mkapp('concat', v))]
    return [(st, mkapp('join', v, sep))]


def flat(ps, isstr, sep=None):
    kind = 'str' if isstr else 'vec'

    def conv1(p):
        if p[0] == 'one':
            if isstr:
                return (p[1],)
            return pieces_of(p[1], 'vec')
        if p[0] == 'all':
            return (mkapp('concat', p[1]),) if isstr else (mk('all', mkapp('concat', p[1])),)
        if p[0] == 'each':
            al = []
            for g, d in p[2]:
                x = ()
                for q in d:
                    c = conv1(q)
                    if c is None:
                        return None
                    x += tuple(c)
                r = seq(kind, x)
                al.append((g, pieces_of(r, kind)))
            return (mk('each', p[1], tuple(al), 0, p[4]),)
        return None
    out = []
    for i, p in enumerate(ps):
        if i and sep is not None and sep is not STR(''):
            out.append(sep if isstr else mk('all', sep))
        c = conv1(p)
        if c is None:
            return None
        out += c
    return seq(kind, out)


@model('std::ops::index::Index::index', 'std::ops::index::IndexMut::index_mut')
def m_index(eng, st, args, ctx, site, o, rty):
    if canon(o.get('key')) in eng.p.bodies:
        return None
    ty = canon(o['args'][0]) if o.get('args') else ''
    idx = eng.deref(st, args[1])
    base = eng.deref(st, args[0])
    if 'Map' in ty.split('<')[0]:
        return [(s, p) for s, n, p in map_get(eng, st, args[0], args[1]) if n]
    if idx[0] == 'adt' or idx[0] == 'range':
        nm = idx[1].split('::')[-1] if idx[0] == 'adt' else 'Range'
        f = eng.freeze(st, base)
        lo = hi = None
        if idx[0] == 'range':
            lo, hi = idx[1], idx[2]
        else:
            d = dict(idx[3])
            lo, hi = d.get('start'), d.get('end')
            if nm == 'RangeFull':
                return [(st, args[0])]
            if nm == 'RangeToInclusive' or nm == 'RangeInclusive':
                hi = mkapp('incl', hi) if hi is not None else None
        lo = INT(0) if lo is None else eng.freeze(st, lo)
        hi = length(eng, st, f) if hi is None else eng.freeze(st, hi)
        if lo is INT(0) and hi is length(eng, st, f):
            return [(st, args[0])]
        return [(st, mkapp('slice', f, lo, hi))]
    if not o['path'].endswith('index_mut'):
        return [(st, eng.index(st, base, idx))]
    r = target(eng, st, args[0])
    if r[0] == 'ref':
        return [(st, mk('ref', r[1], r[2] + (('e', idx),)))]
    return [(st, eng.index(st, base, idx))]


@pattern(r'^std::slice::<impl \[T\]>::(contains)$')
def m_contains(eng, st, args, ctx, site, o, rty):
    v, x = eng.freeze(st, args[0]), eng.freeze(st, args[1])
    return [(st, has_term(eng, st, v, x))]


def has_term(eng, st, v, x):
    ps = pieces_of(v, 'vec') if v[0] in ('S', 'arr') else None
    if ps is not None:
        if not ps:
            return FALSE
        for p in ps:
            if p[0] == 'one' and eng.eqval(st, p[1], x):
                return TRUE
        if all(p[0] == 'one' and eng.eqval(st, p[1], x) is False for p in ps):
            return FALSE
    return mkapp('has', v, x)


# ---------------------------------------------------------------- sets and maps

@pattern(r'^(std::collections::.*|indexmap::.*)Set::<.*>::insert$')
def m_setinsert(eng, st, args, ctx, site, o, rty):
    x = eng.freeze(st, args[1])
    v = eng.freeze(st, args[0])
    t = has_term(eng, st, v, x)
    out = []
    for s, b in tr(eng, st, t):
        s = s.copy()
        if not b:
            push_pieces(eng, s, args[0], (one(x),), 'set')
        out.append((s, BOOL(not b)))
    return out


@pattern(r'^(std::collections::.*|indexmap::.*)Set::<.*>::contains$')
def m_setcontains(eng, st, args, ctx, site, o, rty):
    return [(st, has_term(eng, st, eng.freeze(st, args[0]), eng.freeze(st, args[1])))]


def map_has(eng, st, m, k):
    if m[0] == 'S':
        for p in reversed(m[2]):
            if p[0] == 'one' and p[1] is k:
                return TRUE
        if not m[2]:
            return FALSE
        if all(p[0] == 'one' and eng.eqval(st, p[1], k) is False for p in m[2]):
            return FALSE
    return mkapp('has', m, k)


def map_get(eng, st, mref, kref):
    """[(state, present?, ref to the entry)]"""
    r = target(eng, st, mref)
    m = eng.deref(st, mref)
    k = eng.freeze(st, kref)
    t = map_has(eng, st, eng.freeze(st, m), k)
    out = []
    for s, b in tr(eng, st, t):
        if b:
            cell = ('ment', (r[1], r[2]) if r[0] == 'ref' else m, k)
            s = s.copy()
            if cell not in s.store:
                s.store[cell] = mkapp('mapget', eng.freeze(s, m), k)
            out.append((s, True, mk('ref', cell, ())))
        else:
            out.append((s, False, NONE))
    return out


_MAP = r'^(std::collections::.*|indexmap::.*)Map::<.*>::'


@pattern(_MAP + r'(get|get_mut)$')
def m_mapget(eng, st, args, ctx, site, o, rty):
    return [(s, SOME(p) if b else NONE) for s, b, p in map_get(eng, st, args[0], args[1])]


@pattern(_MAP + r'contains_key$')
def m_mapcontains(eng, st, args, ctx, site, o, rty):
    return [(st, map_has(eng, st, eng.freeze(st, args[0]), eng.freeze(st, args[1])))]


def map_put(eng, s, mref, k, v, present):
    r = target(eng, s, mref)
    s = s.copy()
    cell = ('ment', (r[1], r[2]) if r[0] == 'ref' else eng.deref(s, mref), k)
    if not present:
        push_pieces(eng, s, mref, (one(k),), 'map')
    eng.write(s, cell, (), v)
    return s, mk('ref', cell, ())


@pattern(_MAP + r'insert$')
def m_mapinsert(eng, st, args, ctx, site, o, rty):
    k = eng.freeze(st, args[1])
    out = []
    for s, b, p in map_get(eng, st, args[0], args[1]):
        old = eng.deref(s, p) if b else None
        eng.event(s, 'mapset', k, eng.freeze(s, args[2]), BOOL(b)) if eng.map_events is True else None
        s2, ref = map_put(eng, s, args[0], k, args[2], b)
        out.append((s2, SOME(old) if b else NONE))
    return out


@pattern(_MAP + r'entry$')
def m_entry(eng, st, args, ctx, site, o, rty):
    return [(st, mk('entry', target(eng, st, args[0]), eng.freeze(st, args[1])))]


@pattern(r'.*::(hash_map|btree_map|map|entry|hash::map|btree::map::entry)::(\w+::)*Entry::<.*>::(or_insert|or_insert_with|or_default|or_insert_with_key|and_modify|key)$')
def m_entryor(eng, st, args, ctx, site, o, rty):
    e = eng.deref(st, args[0])
    if e[0] != 'entry':
        return None
    nm = o['path'].split('::')[-1]
    out = []
    for s, b, p in map_get(eng, st, e[1], e[2]):
        if nm == 'and_modify':
            if b:
                out += [(s2, e) for s2, _ in eng.apply(s, args[1], [p], ctx, site)]
            else:
                out.append((s, e))
            continue
        if b:
            out.append((s, p))
            continue
        if nm == 'or_insert':
            vals = [(s, args[1])]
        elif nm == 'or_default':
            vals = default_of(eng, s, re.sub(r"^&('\w+ )?mut ", '', canon(rty)))
        else:
            vals = eng.apply(s, args[1], [], ctx, site)
        for s2, v in vals:
            s3, ref = map_put(eng, s2, e[1], e[2], v, False)
            out.append((s3, ref))
    return out


@pattern(_MAP + r'(into_values|values|values_mut|keys|into_keys|iter|drain)$')
def m_mapiter(eng, st, args, ctx, site, o, rty):
    nm = o['path'].split('::')[-1].replace('into_', '').replace('_mut', '')
    return [(st, mk('iter', mkapp('map_' + nm, eng.freeze(st, args[0])), (), 0))]


@pattern(r'^(std::collections::.*|indexmap::.*)Set::<.*>::(iter|drain)$')
def m_setiter(eng, st, args, ctx, site, o, rty):
    return [(st, mk('iter', eng.freeze(st, args[0]), (), 0))]


@pattern(_MAP + r'(remove|shift_remove|swap_remove|retain|clear)$')
def m_mapremove(eng, st, args, ctx, site, o, rty):
    st = st.copy()
    f = eng.freeze(st, args[0])
    nm = o['path'].split('::')[-1]
    setref(eng, st, args[0], mkapp('map_' + nm, f, *[eng.freeze(st, a) for a in args[1:]]))
    return [(st, mkapp('map_' + nm + '_ret', f, *[eng.freeze(st, a) for a in args[1:]]))]


# ---------------------------------------------------------------- iterators

def as_iter(eng, st, v, ty=''):
    w = eng.deref(st, v)
    if w[0] == 'iter':
        return w
    if w[0] == 'adt' and w[1] == OPT:
        return mk('iter', mk('S', 'vec', (one(getf(w, 'Some', '0')),)) if w[2] == 'Some' else EMPTYVEC, (), 0)
    if w[0] == 'adt' and w[1].startswith('std::ops::range::'):
        d = dict(w[3])
        lo, hi = d.get('start', INT(0)), d.get('end')
        if hi is None:
            hi = mk('inf')
        if w[1].endswith('Inclusive'):
            hi = eng.addterm(eng.freeze(st, hi), INT(1))
        return mk('iter', mkrange(eng.freeze(st, lo), eng.freeze(st, hi)), (), 0)
    if w[0] == 'arr':
        return mk('iter', mk('S', 'vec', tuple(one(x) for x in w[1])), (), 0)
    if w[0] == 'S' and all(p[0] == 'one' for p in w[2]):
        return mk('iter', w, (), 0)
    return mk('iter', eng.freeze(st, w), (), 0)


def mkrange(lo, hi):
    if lo[0] == 'int' and hi[0] == 'int' and hi[1] - lo[1] <= 8:
        return mk('S', 'vec', tuple(one(INT(i)) for i in range(lo[1], hi[1])))
    return mk('range', lo, hi)


def iter_src(eng, st, it):
    """The remaining items of an iterator as a source term."""
    src, pos = it[1], it[3]
    if pos in (0, 'L'):
        return eng.freeze(st, src) if src[0] != 'S' or eng.needs_freeze(src) else src
    return skipn(eng, st, src, pos)


def skipn(eng, st, src, n):
    if src[0] == 'S' and n <= len(src[2]) and all(p[0] == 'one' for p in src[2][:n]):
        return seq(src[1], src[2][n:])
    if src[0] == 'app' and src[1] == 'skip' and src[3][0] == 'int':
        return mkapp('skip', src[2], INT(src[3][1] + n))
    if src[0] == 'range':
        return mk('range', eng.addterm(src[1], INT(n)), src[2])
    return mkapp('skip', src, INT(n))


def concrete(src):
    return src[0] == 'S' and src[1] != 'str' and all(p[0] == 'one' for p in src[2]) and len(src[2]) <= 8


@pattern(r'^std::slice::<impl \[T\]>::iter$|^std::(collections::vec_deque::VecDeque::<T, A>|array::<impl \[T; N\]>)::(iter|into_iter)$')
def m_iter(eng, st, args, ctx, site, o, rty):
    return [(st, as_iter(eng, st, args[0]))]


@model('std::iter::traits::collect::IntoIterator::into_iter')
def m_intoiter(eng, st, args, ctx, site, o, rty):
    if canon(o.get('key')) in eng.p.bodies:
        return None
    ty = canon(o['args'][0]) if o.get('args') else ''
    v = eng.deref(st, args[0])
    if re.match(r"^&('\w+ )?mut ", ty) and v[0] != 'iter':
        return m_itermut(eng, st, args, ctx, site, o, rty)
    if 'Map<' in ty.split('{')[0] and ('collections' in ty or 'indexmap' in ty) and v[0] != 'iter':
        return [(st, mk('iter', mkapp('map_iter', eng.freeze(st, v)), (), 0))]
    if ty.startswith(OPT) and v[0] != 'adt':
        return [(s, mk('iter', mk('S', 'vec', (one(p),)) if n == 'Some' else EMPTYVEC, (), 0)) for s, n, p in cases(eng, st, v, OPT)]
    return [(st, as_iter(eng, st, args[0], ty))]


@pattern(r'^std::slice::<impl \[T\]>::iter_mut$')
def m_itermut(eng, st, args, ctx, site, o, rty):
    r = target(eng, st, args[0])
    it = as_iter(eng, st, args[0])
    if r[0] != 'ref':
        return [(st, it)]
    src = it[1]
    return [(st, mk('iter', src, (mk('mut', r[1], r[2]),), 0))]


@model('std::iter::sources::once::once')
def m_iteronce(eng, st, args, ctx, site, o, rty):
    return [(st, mk('iter', mk('S', 'vec', (one(args[0]),)), (), 0))]


@model('std::iter::sources::empty::empty')
def m_iterempty(eng, st, args, ctx, site, o, rty):
    return [(st, mk('iter', EMPTYVEC, (), 0))]


@model('std::iter::sources::repeat::repeat')
def m_iterrepeat(eng, st, args, ctx, site, o, rty):
    return [(st, mk('iter', mkapp('repeat_inf', eng.freeze(st, args[0])), (), 0))]


_IT = r'^std::iter::traits::(iterator::Iterator|double_ended::DoubleEndedIterator|exact_size::ExactSizeIterator)::'


def itx(*names):
    return pattern(_IT + '(?:' + '|'.join(names) + ')$')


def get_iter(eng, st, v):
    return as_iter(eng, st, v)


@itx('map', 'filter', 'filter_map', 'inspect', 'take_while', 'skip_while', 'flat_map', 'map_while')
def m_stage(eng, st, args, ctx, site, o, rty):
    it = get_iter(eng, st, args[0])
    nm = o['path'].split('::')[-1]
    f = args[1]
    if f[0] == 'clo' and any(x[0] != 'ref' for x in f[2]) and (eng.p.bodies.get(f[1]) or {'locals': ['', '']})['locals'][1].startswith('&mut'):
        # captures it owns and changes: they live as long as the iterator
        cell = ('ms', ctx, site)
        st = st.copy()
        st.store[cell] = f
        f = mk('ref', cell, ())
    return [(st, mk('iter', it[1], it[2] + (mk(nm, f, ctx, site),), it[3]))]


@itx('flatten')
def m_iflatten(eng, st, args, ctx, site, o, rty):
    it = get_iter(eng, st, args[0])
    ty = canon(o['args'][0]) if o.get('args') else ''
    if it[1][0] == 'S' and not it[2] and it[3] == 0 and not it[1][2]:
        return [(st, it)]
    if it[1][0] == 'S' and not it[2] and it[3] == 0 and len(it[1][2]) == 1 and it[1][2][0][0] == 'one' \
            and 'option::Option<' not in ty and 'result::Result<' not in ty:
        inner = eng.deref(st, it[1][2][0][1])
        if not (inner[0] == 'adt' and inner[1] in (OPT, RES)):
            return [(st, as_iter(eng, st, inner))]
    return [(st, mk('iter', it[1], it[2] + (mk('flatten', ty),), it[3]))]


@itx('enumerate')
def m_enumerate(eng, st, args, ctx, site, o, rty):
    it = get_iter(eng, st, args[0])
    return [(st, mk('iter', it[1], it[2] + (mk('enum', INT(0)),), it[3]))]


@itx('peekable', 'by_ref', 'fuse', 'cloned', 'copied')
def m_itid(eng, st, args, ctx, site, o, rty):
    return [(st, args[0])]


def opaque_iter(eng, st, it, nm, *a):
    return mk('iter', mkapp('iter_' + nm, eng.freeze(st, it), *a), (), 0)


@itx('skip', 'take', 'step_by')
def m_skip(eng, st, args, ctx, site, o, rty):
    nm = o['path'].split('::')[-1]
    it = get_iter(eng, st, args[0])
    n = eng.freeze(st, args[1])
    src = iter_src(eng, st, it)
    ok = all(s[0] in ('map', 'enum') for s in it[2]) and it[3] != 'L'
    if nm == 'skip' and ok:
        if n[0] == 'int':
            src = skipn(eng, st, src, n[1]) if n[1] else src
        else:
            src = mkapp('skip', src, n)
        stages = tuple(mk('enum', eng.addterm(s[1], n)) if s[0] == 'enum' else s for s in it[2])
        return [(st, mk('iter', src, stages, 0))]
    if nm == 'take' and ok:
        return [(st, mk('iter', mkapp('take', src, n), it[2], 0))]
    return [(st, opaque_iter(eng, st, it, nm, n))]


@itx('rev')
def m_rev(eng, st, args, ctx, site, o, rty):
    it = get_iter(eng, st, args[0])
    src = iter_src(eng, st, it)
    if it[3] != 'L' and all(s[0] in ('map', 'filter', 'filter_map') for s in it[2]):
        if concrete(src):
            src = mk('S', src[1], tuple(reversed(src[2])))
        elif src[0] == 'app' and src[1] == 'rev':
            src = src[2]
        else:
            src = mkapp('rev', src)
        return [(st, mk('iter', src, it[2], 0))]
    return [(st, opaque_iter(eng, st, it, 'rev'))]


@itx('chain')
def m_chain(eng, st, args, ctx, site, o, rty):
    a, b = get_iter(eng, st, args[0]), get_iter(eng, st, args[1])
    out = []
    for s1, va in collect(eng, st, a, 'vec', ctx, mk('site', 'chain1', site)):
        for s2, vb in collect(eng, s1, b, 'vec', ctx, mk('site', 'chain2', site)):
            out.append((s2, mk('iter', seq('vec', pieces_of(va, 'vec') + pieces_of(vb, 'vec')), (), 0)))
    return out


@itx('zip')
def m_zip(eng, st, args, ctx, site, o, rty):
    a, b = get_iter(eng, st, args[0]), get_iter(eng, st, args[1])
    if not a[2] and not b[2]:
        sa, sb = iter_src(eng, st, a), iter_src(eng, st, b)
        return [(st, mk('iter', mkapp('zip', sa, sb), (), 0))]
    return [(st, mk('iter', mkapp('zip', eng.freeze(st, a), eng.freeze(st, b)), (), 0))]


# -- the next element ---------------------------------------------------

def live_elems(t):
    """The elements a value names outside the `each` pieces of its sequences."""
    if not isinstance(t, tuple) or not atoms(t):
        return frozenset()
    if isinstance(t, T):
        r = getattr(t, '_lv', None)
        if r is not None:
            return r
        s = set()
        if t[0] == 'each':
            for e in binders(t):
                s |= live_elems(e[1])
        else:
            if t[0] == 'elem':
                s.add(t)
            for x in t:
                if isinstance(x, tuple):
                    s |= live_elems(x)
        t._lv = frozenset(s)
        return t._lv
    s = set()
    for x in t:
        if isinstance(x, tuple):
            s |= live_elems(x)
    return frozenset(s)


def free_elems(st):
    r = set()
    for v in st.store.values():
        if isinstance(v, T):
            r |= live_elems(v)
    return r


def pick_elem(eng, st, src):
    """The bound variable of the innermost loop's current element."""
    n = sum(1 for c in st.cur[:-1] for e in c if e[0] == 'elem' and e[1] is src)
    live = None
    while True:
        e = mk('elem', src, n)
        if live is None:
            live = free_elems(st)
        if e not in live and e not in st.cur[-1]:
            return e
        n += 1
        if n > 12:
            raise Abort('too many live elements of one source')


def apply_guards(eng, st, guards):
    for g in guards:
        f, v = g[0], g[1]
        if f[0] == 'variant':
            cur = st.facts.get(f)
            t = f[1]
            if t[0] == 'adt':
                pos, names = v
                if (t[2] in names) != pos:
                    return False
                continue
            st.facts[f] = v
        elif isinstance(v, bool):
            if not eng.assume(st, f, v):
                return False
    return True


def counted(n):
    """the sequence whose length the term is"""
    if n[0] == 'app' and n[1] == 'len' and n[2][0] not in ('str', 'arr') and not (n[2][0] == 'S' and n[2][1] == 'str') and not (n[2][0] == 'app' and n[2][1] in ('chars', 'bytes')):
        return n[2]
    return None


def position(st, n, x):
    """the position of the current element x of a sequence of length n"""
    e = st.cur[-1][-1]
    return mk('elem', mk('range', INT(0), n), e[2]) if e[1] is counted(n) else mkapp('posin', counted(n), x)


def more(eng, st, ctr, n):
    """[(state, bool)] of the test `ctr < n` at the head of a loop that counts through the positions of a sequence."""
    out = []
    for s, _, x in advance1(eng, st, mk('iter', counted(n), (), 'L')):
        if x is REJECT:
            out.append((s, None))
            continue
        v = n if x is None else position(s, n, x)
        for c, w in list(s.store.items()):
            if w is ctr:
                s.store[c] = v
        out.append((s, x is not None))
    return out


def advance(eng, st, it):
    """[(state, new iterator, item or None)] before the stages; a variable that counts the turns of the loop is the
    position of the item."""
    out = advance1(eng, st, it)
    if it[3] == 'L' and st.active:
        cells = [c for c, w in st.store.items() if isinstance(w, T) and w[0] == 'ctr' and w[1] is st.active[-1]]
        if cells and all(sg[0] in ('map', 'enum', 'inspect') for sg in it[2]):
            n = mkapp('len', it[1])
            for s, _, x in out:
                if x is not REJECT:
                    for c in cells:
                        s.store[c] = n if x is None else mk('elem', mk('range', INT(0), n), s.cur[-1][-1][2]) if s.cur[-1][-1][1] is it[1] else mkapp('posin', it[1], x)
    return out


def advance1(eng, st, it):
    """[(state, new iterator, item or None)] before the stages."""
    src, stages, pos = it[1], it[2], it[3]
    if pos == 'L' and src[0] == 'range' and src[1] is INT(0) and counted(src[2]) is not None:
        # 0..len(v): the positions of the elements of v
        n = src[2]
        return [(s, it, x if x is None or x is REJECT else position(s, n, x))
                for s, _, x in advance(eng, st, mk('iter', counted(n), (), 'L'))]
    if pos == 'L':
        out = []
        s0 = st.copy()
        s0.facts[mkapp('exhausted', src, s0.active[-1] if s0.active else 0)] = True
        out.append((s0, it, None))
        # the elements of a sequence built by an earlier loop: that loop's own
        ps = src[2] if src[0] == 'S' and src[1] != 'str' else ()
        if len(ps) == 1 and ps[0][0] == 'each' and ps[0][1][0] == 'elem' and all(len(d) <= 1 for g, d in ps[0][2]) \
                and all(d[0][0] == 'one' for g, d in ps[0][2] if d) and eng.fuse:
            e0 = ps[0][1]
            s0.facts[mkapp('exhausted', e0[1], s0.active[-1] if s0.active else 0)] = True
            e = pick_elem(eng, st, e0[1])
            m = {e0: e}
            for g, d in ps[0][2]:
                s1 = st.copy()
                eng.kill(s1, e)
                s1.cur = s1.cur[:-1] + (s1.cur[-1] + (e,),)
                eng.fresh(s1, e)
                if not apply_guards(eng, s1, [subst(x, m) for x in g] if e is not e0 else g):
                    continue
                if d:
                    out.append((s1, it, subst(d[0][1], m) if e is not e0 else d[0][1]))
                else:
                    out.append((s1, it, REJECT))
            return out
        s1 = st.copy()
        e = pick_elem(eng, s1, src)
        eng.kill(s1, e)
        s1.cur = s1.cur[:-1] + (s1.cur[-1] + (e,),)
        eng.fresh(s1, e)
        r = eng.truth(s1, mkapp('empty', src))
        x = elem_value(eng, s1, e)
        if r is True:
            return out
        if src[0] != 'range':
            s1.facts[mkapp('empty', src)] = False
        out.append((s1, it, x))
        return out
    nit = mk('iter', src, stages, pos + 1)
    if src[0] == 'S':
        ps = src[2]
        if pos < len(ps) and all(p[0] == 'one' for p in ps[:pos + 1]):
            return [(st, nit, ps[pos][1])]
        if pos >= len(ps) and all(p[0] == 'one' for p in ps):
            return [(st, it, None)]
    f = eng.freeze(st, src)
    if src[0] == 'range':
        cond = eng.ltterm(st, eng.addterm(src[1], INT(pos)), src[2]) if src[2][0] != 'inf' else TRUE
        out = []
        for s, b in tr(eng, st, cond):
            out.append((s, nit, eng.addterm(src[1], INT(pos))) if b else (s, it, None))
        return out
    if pos == 0:
        t = mkapp('first', f)
        out = []
        e = eng.emptyval(st, f)
        for s, n, p in cases(eng, st, t, OPT):
            out.append((s, nit, eng.index(s, f, INT(0))) if n == 'Some' else (s, it, None))
        return out
    t = mkapp('getidx', f, INT(pos))
    out = []
    for s, n, p in cases(eng, st, t, OPT):
        out.append((s, nit, eng.index(s, f, INT(pos))) if n == 'Some' else (s, it, None))
    return out


REJECT = mk('REJECT')


def elem_value(eng, st, e):
    src = e[1]
    if src[0] == 'app' and src[1] == 'zip' and not (src[2][0] == 'iter' or src[3][0] == 'iter'):
        return mk('tup', (mk('elem', src[2], e[2]), mk('elem', src[3], e[2])))
    if src[0] == 'app' and src[1] == 'char_indices':
        # (byte offset, char)
        return mk('tup', (mkapp('byteidx', e), mk('elem', mkapp('chars', src[2]), e[2])))
    return e


def stage_apply(eng, st, stages, x, it, cell, path, ctx, site):
    """[(state, value | REJECT | None)]"""
    cur = [(st, x)]
    for i, sg in enumerate(stages):
        nxt = []
        nm = sg[0]
        for s, v in cur:
            if v is None or v is REJECT:
                nxt.append((s, v))
                continue
            c = eng.ctx(ctx, ('stage', i), 'stage')
            if nm == 'map':
                nxt += call_stage(eng, s, sg, cell, path, i, [v], ctx, site)
            elif nm == 'filter':
                for s2, b in call_stage(eng, s, sg, cell, path, i, [v], ctx, site):
                    for s3, t in tr(eng, s2, b):
                        nxt.append((s3, v if t else REJECT))
            elif nm == 'filter_map':
                for s2, r in call_stage(eng, s, sg, cell, path, i, [v], ctx, site):
                    for s3, n, p in cases(eng, s2, r, OPT):
                        nxt.append((s3, p if n == 'Some' else REJECT))
            elif nm == 'inspect':
                nxt += [(s2, v) for s2, _ in call_stage(eng, s, sg, cell, path, i, [v], ctx, site)]
            elif nm == 'take_while':
                for s2, b in call_stage(eng, s, sg, cell, path, i, [v], ctx, site):
                    for s3, t in tr(eng, s2, b):
                        nxt.append((s3, v if t else None))
            elif nm == 'map_while':
                for s2, r in call_stage(eng, s, sg, cell, path, i, [v], ctx, site):
                    for s3, n, p in cases(eng, s2, r, OPT):
                        nxt.append((s3, p if n == 'Some' else None))
            elif nm == 'enum':
                nxt.append((s, mk('tup', (index_of(eng, s, it, x, stages[:i], sg[1]), v))))
            elif nm == 'mut':
                mc = ('heap', 'mut', eng.freeze(s, x))
                s = s.copy()
                s.store[mc] = v
                eng.write(s, sg[1], sg[2], mkapp('mutated', it[1]))
                nxt.append((s, mk('ref', mc, ())))
            else:
                raise Abort(f'iterator stage {nm}')
        cur = nxt
    return cur


def index_of(eng, st, it, x, before, off):
    e = x
    if any(s[0] not in ('map', 'enum', 'inspect') for s in before):
        return mkapp('rank', eng.freeze(st, x))
    if it[3] == 'L':
        cur = st.cur[-1][-1] if st.cur and st.cur[-1] else eng.freeze(st, x)
        src = it[1]
        n = cur[2] if cur[0] == 'elem' else 0
        return eng.addterm(mk('elem', mk('range', INT(0), mkapp('len', src)), n), off)
    return eng.addterm(INT(it[3]), off)


def call_stage(eng, st, sg, cell, path, i, args, ctx, site):
    f = sg[1]
    # FnMut closures held in the iterator keep their captured state by reference
    c = eng.ctx(ctx, mk('stage', sg[3]) if len(sg) > 3 else site, 'stage')
    return eng.apply(st, f, args, c, sg[3] if len(sg) > 3 else site)


def has_flat(it):
    return any(s[0] in ('flat_map', 'flatten', 'skip_while') for s in it[2])


def unflatten(eng, st, it, ctx, site):
    """An iterator with flat_map/flatten stages, materialised."""
    for i, sg in enumerate(it[2]):
        if sg[0] in ('flat_map', 'flatten', 'skip_while'):
            pre = mk('iter', it[1], it[2][:i], it[3])
            rest = it[2][i + 1:]
            if sg[0] == 'skip_while':
                src = mkapp('iter_skip_while', eng.freeze(st, pre), closure_key(eng, st, sg[1]))
                return unflatten(eng, st, mk('iter', src, rest, 0), ctx, site)
            out = []
            for s, v in flatten(eng, st, pre, sg, ctx, site):
                out += unflatten(eng, s, mk('iter', v, rest, 0), ctx, site)
            return out
    return [(st, it)]


def flatten(eng, st, it, sg, ctx, site):
    """Concatenate the collections the items are mapped to."""
    acc = ('acc', ctx, mk('flat', site))

    def step(s, x):
        if sg[0] == 'flat_map':
            vs = eng.apply(s, sg[1], [x], ctx, site)
        else:
            vs = [(s, x)]
        out = []
        for s2, v in vs:
            w = eng.deref(s2, v)
            if w[0] == 'adt' and w[1] in (OPT, RES):
                s3 = s2.copy()
                if w[2] in ('Some', 'Ok'):
                    push_pieces(eng, s3, mk('ref', acc, ()), (one(getf(w, w[2], '0')),))
                out.append((s3, None))
                continue
            if sg[0] == 'flatten' and isinstance(sg[1], str) and w[0] not in ('iter', 'S', 'arr'):
                an = OPT if 'option::Option<' in sg[1].split('{')[0][-400:] and 'Vec<' not in sg[1] else None
                if an:
                    for s3, n, p in cases(eng, s2, w, OPT):
                        s3 = s3.copy()
                        if n == 'Some':
                            push_pieces(eng, s3, mk('ref', acc, ()), (one(p),))
                        out.append((s3, None))
                    continue
            for s3, y in collect(eng, s2, as_iter(eng, s2, w), 'vec', ctx, mk('site', 'inner', site)):
                s3 = s3.copy()
                push_pieces(eng, s3, mk('ref', acc, ()), pieces_of(y, 'vec'))
                out.append((s3, None))
        return out
    return fold(eng, st, it, EMPTYVEC, acc, step, ctx, mk('site', 'flat', site))


def nextv(eng, st, cell, path, ctx, site):
    """[(state, 'some'|'none'|'reject', value)] and the iterator is advanced."""
    it = eng.read(st, cell, path)
    while it[0] == 'ref':
        cell, path = it[1], it[2]
        it = eng.read(st, cell, path)
    if it[0] == 'adt' and it[1].startswith('std::ops::range::'):
        it = as_iter(eng, st, it)
    if it[0] != 'iter':
        # an iterator whose construction is unknown
        it = mk('iter', eng.freeze(st, it), (), 0)
    out = []
    if has_flat(it):
        for s, it2 in unflatten(eng, st, it, ctx, site):
            s = s.copy()
            eng.write(s, cell, path, it2)
            out += nextv(eng, s, cell, path, ctx, site)
        return out
    for s, nit, x in advance(eng, st, it):
        s = s.copy()
        if nit is not it or eng.read(s, cell, path) is not nit:
            eng.write(s, cell, path, nit)
        if x is None:
            out.append((s, 'none', None))
            continue
        if x is REJECT:
            out.append((s, 'reject', None))
            continue
        for s2, v in stage_apply(eng, s, it[2], x, it, cell, path, ctx, site):
            if v is None:
                out.append((s2, 'none', None))
            elif v is REJECT:
                out.append((s2, 'reject', None))
            else:
                out.append((s2, 'some', v))
    return out


@itx('next')
def m_next(eng, st, args, ctx, site, o, rty):
    if canon(o.get('key')) in eng.p.bodies:
        return None
    r = target(eng, st, args[0])
    if r[0] != 'ref':
        return [(st, mkapp('next', eng.freeze(st, args[0])))]
    out = []
    rejected = []
    for s, k, v in nextv(eng, st, r[1], r[2], ctx, site):
        if k == 'some':
            out.append((s, SOME(v)))
        elif k == 'none':
            out.append((s, NONE))
        else:
            rejected.append(s)
    for s in rejected:
        it = eng.read(s, r[1], r[2])
        if it[0] == 'iter' and it[3] == 'L' and s.active and s.active[-1][0] == 'L' and s.active[-1][1] == ctx:
            out.append((s, REJECT))   # the loop goes round
        else:
            out += search_next(eng, s, r, ctx, site)
    return out


def search_next(eng, st, r, ctx, site):
    """next() of a filtering iterator outside a loop over it: an inner loop."""
    def body(h):
        backs, exits = [], []
        for s, k, v in nextv(eng, h, r[1], r[2], ctx, site):
            if k == 'some':
                s = s.copy()
                s.store[('nx', ctx, site)] = SOME(v)
                exits.append(('x', s))
            elif k == 'none':
                s = s.copy()
                s.store[('nx', ctx, site)] = NONE
                exits.append(('x', s))
            else:
                backs.append(s)
        return backs, exits
    out = []
    for tag, s in eng.fix_loop([st], body, mk('L', ctx, mk('next', site))):
        v = s.store.pop(('nx', ctx, site))
        out.append((s, v))
    return out


@pattern(r'^std::iter::adapters::peekable::Peekable::<I>::peek$')
def m_peek(eng, st, args, ctx, site, o, rty):
    r = target(eng, st, args[0])
    it = eng.deref(st, args[0])
    if it[0] == 'iter' and it[3] != 'L' and not it[2]:
        out = []
        for s, nit, x in advance(eng, st, it):
            out.append((s, NONE if x is None else SOME(x)))
        return out
    f = eng.freeze(st, it)
    return [(s, SOME(p) if n == 'Some' else NONE) for s, n, p in cases(eng, st, mkapp('peek', f), OPT)]


# -- consumers ----------------------------------------------------------

def fold(eng, st, it, init, acc, step, ctx, site, tag=None):
    """Run `step(state, item) -> [(state, control)]` over the iterator.  A control
    other than None leaves the loop. Returns [(state, acc value, control)] or,
    when no control is used by the caller, [(state, acc value)]."""
    it = as_iter(eng, st, it)
    res = []
    starts = unflatten(eng, st, it, ctx, mk('site', 'unfl', site)) if has_flat(it) else [(st, it)]
    icell = ('it', ctx, site)
    for st1, it1 in starts:
        s0 = st1.copy()
        s0.store[icell] = it1
        s0.store[acc] = init

        def body(h):
            backs, exits = [], []
            for s, k, v in nextv(eng, h, icell, (), ctx, site):
                if k == 'none':
                    exits.append((('done', None), s))
                elif k == 'reject':
                    backs.append(s)
                else:
                    for s2, c in step(s, v):
                        if c is None:
                            backs.append(s2)
                        else:
                            exits.append((('ctl', c), s2))
            return backs, exits
        for (k, c), s in eng.fix_loop([s0], body, mk('L', ctx, site)):
            v = s.store.pop(acc, TOP)
            s.store.pop(icell, None)
            res.append((s, v, c) if tag else (s, v))
    return res


def collect(eng, st, it, kind, ctx, site):
    """[(state, sequence)]"""
    it = as_iter(eng, st, it)
    if not it[2]:
        src = iter_src(eng, st, it)
        if kind == 'vec':
            return [(st, seq('vec', pieces_of(src, 'vec')))]
        if kind == 'set':
            return [(st, mk('S', 'set', pieces_of(src, 'vec') if src[0] == 'S' else (mk('all', src),)))]
        if kind == 'str':
            if src[0] == 'app' and src[1] == 'chars':
                return [(st, src[2])]
            if src[0] == 'S':
                r = flat(src[2], True)
                if r is not None:
                    return [(st, r)]
            return [(st, mkapp('concat', src))]
    if has_flat(it):
        return [r for s, it2 in unflatten(eng, st, it, ctx, mk('site', 'unfl', site)) for r in collect(eng, s, it2, kind, ctx, site)]
    acc = ('acc', ctx, site)

    def step(s, x):
        s = s.copy()
        if kind == 'str':
            push_pieces(eng, s, mk('ref', acc, ()), pieces_of(tostr(eng, s, x), 'str'), 'str')
        elif kind == 'map':
            push_pieces(eng, s, mk('ref', acc, ()), (one(x),), 'map')
        else:
            push_pieces(eng, s, mk('ref', acc, ()), (one(x),), kind)
        return [(s, None)]
    init = {'vec': EMPTYVEC, 'set': EMPTYSET, 'str': STR(''), 'map': EMPTYMAP}[kind]
    return fold(eng, st, it, init, acc, step, ctx, site)


def target_kind(ty):
    t = canon(ty).strip()
    h = t.split('<')[0]
    if h in ('std::string::String', 'std::borrow::Cow', 'std::boxed::Box') and ('String' in t or 'str' in t):
        return 'str'
    if 'Set' in h:
        return 'set'
    if 'Map' in h:
        return 'map'
    return 'vec'


@itx('collect')
def m_collect(eng, st, args, ctx, site, o, rty):
    t = canon(rty)
    it = get_iter(eng, st, args[0])
    if t.startswith(RES + '<') or t.startswith(OPT + '<'):
        inner = split_args(t[t.index('<') + 1:-1])[0]
        kind = target_kind(inner)
        isres = t.startswith(RES)
        acc = ('acc', ctx, site)

        def step(s, x):
            out = []
            for s2, n, p in cases(eng, s, x, RES if isres else OPT):
                s2 = s2.copy()
                if n in ('Ok', 'Some'):
                    push_pieces(eng, s2, mk('ref', acc, ()), (one(p),) if kind != 'str' else pieces_of(tostr(eng, s2, p), 'str'), kind)
                    out.append((s2, None))
                else:
                    out.append((s2, ERR(p) if isres else NONE))
            return out
        init = {'vec': EMPTYVEC, 'set': EMPTYSET, 'str': STR(''), 'map': EMPTYMAP}[kind]
        return [(s, c if c is not None else (OK(v) if isres else SOME(v)))
                for s, v, c in fold(eng, st, it, init, acc, step, ctx, site, tag=True)]
    if inner_unit(t):
        return [(s, UNIT) for s, v in collect(eng, st, it, 'vec', ctx, site)]
    return collect(eng, st, it, target_kind(t), ctx, site)


def inner_unit(t):
    return t == '()'


@itx('fold')
def m_fold(eng, st, args, ctx, site, o, rty):
    acc = ('acc', ctx, site)

    def step(s, x):
        out = []
        a = s.store[acc]
        s = s.copy()
        for s2, v in eng.apply(s, args[2], [a, x], ctx, site):
            s2 = s2.copy()
            s2.store[acc] = v
            out.append((s2, None))
        return out
    return fold(eng, st, args[0], args[1], acc, step, ctx, site)


@itx('try_fold')
def m_tryfold(eng, st, args, ctx, site, o, rty):
    acc = ('acc', ctx, site)
    an = RES if canon(rty).startswith(RES) else OPT

    def step(s, x):
        out = []
        a = s.store[acc]
        for s2, v in eng.apply(s, args[2], [a, x], ctx, site):
            for s3, n, p in cases(eng, s2, v, an):
                s3 = s3.copy()
                if n in ('Ok', 'Some'):
                    s3.store[acc] = p
                    out.append((s3, None))
                else:
                    out.append((s3, ERR(p) if an == RES else NONE))
        return out
    r = target(eng, st, args[0])
    return [(s, c if c is not None else (OK(v) if an == RES else SOME(v)))
            for s, v, c in fold(eng, st, args[0], args[1], acc, step, ctx, site, tag=True)]


@itx('try_for_each')
def m_tryforeach(eng, st, args, ctx, site, o, rty):
    acc = ('acc', ctx, site)
    an = RES if canon(rty).startswith(RES) else OPT

    def step(s, x):
        out = []
        for s2, v in eng.apply(s, args[1], [x], ctx, site):
            for s3, n, p in cases(eng, s2, v, an):
                out.append((s3, None if n in ('Ok', 'Some') else (ERR(p) if an == RES else NONE)))
        return out
    return [(s, c if c is not None else (OK(UNIT) if an == RES else SOME(UNIT)))
            for s, v, c in fold(eng, st, args[0], UNIT, acc, step, ctx, site, tag=True)]


@itx('for_each')
def m_foreach(eng, st, args, ctx, site, o, rty):
    def step(s, x):
        return [(s2, None) for s2, _ in eng.apply(s, args[1], [x], ctx, site)]
    return [(s, UNIT) for s, _ in fold(eng, st, args[0], UNIT, ('acc', ctx, site), step, ctx, site)]


def predicate(eng, s, f, x, ctx, site):
    out = []
    for s2, b in eng.apply(s, f, [x], ctx, site):
        out += tr(eng, s2, b)
    return out


@itx('any', 'all')
def m_any(eng, st, args, ctx, site, o, rty):
    stop = o['path'].endswith('any')

    def step(s, x):
        return [(s2, BOOL(stop) if b == stop else None) for s2, b in predicate(eng, s, args[1], x, ctx, site)]
    return [(s, c if c is not None else BOOL(not stop))
            for s, _, c in fold(eng, st, args[0], UNIT, ('acc', ctx, site), step, ctx, site, tag=True)]


def writeback(eng, st, r, it):
    pass


@itx('find')
def m_find(eng, st, args, ctx, site, o, rty):
    def step(s, x):
        return [(s2, SOME(x) if b else None) for s2, b in predicate(eng, s, args[1], x, ctx, site)]
    return [(s, c if c is not None else NONE)
            for s, _, c in fold(eng, st, args[0], UNIT, ('acc', ctx, site), step, ctx, site, tag=True)]


@itx('find_map')
def m_findmap(eng, st, args, ctx, site, o, rty):
    def step(s, x):
        out = []
        for s2, v in eng.apply(s, args[1], [x], ctx, site):
            for s3, n, p in cases(eng, s2, v, OPT):
                out.append((s3, SOME(p) if n == 'Some' else None))
        return out
    return [(s, c if c is not None else NONE)
            for s, _, c in fold(eng, st, args[0], UNIT, ('acc', ctx, site), step, ctx, site, tag=True)]


@itx('position')
def m_position(eng, st, args, ctx, site, o, rty):
    def step(s, x):
        e = s.cur[-1][-1] if s.cur and s.cur[-1] else None
        if e is not None and e[0] == 'elem':
            idx = mk('elem', mk('range', INT(0), mkapp('len', e[1])), e[2])
        else:
            idx = mkapp('posof', eng.freeze(s, x))
        return [(s2, SOME(idx) if b else None) for s2, b in predicate(eng, s, args[1], x, ctx, site)]
    return [(s, c if c is not None else NONE)
            for s, _, c in fold(eng, st, args[0], UNIT, ('acc', ctx, site), step, ctx, site, tag=True)]


@itx('count')
def m_count(eng, st, args, ctx, site, o, rty):
    it = get_iter(eng, st, args[0])
    return [(s, length(eng, s, v)) for s, v in collect(eng, st, it, 'vec', ctx, site)]


@itx('nth')
def m_nth(eng, st, args, ctx, site, o, rty):
    it = get_iter(eng, st, args[0])
    r = target(eng, st, args[0])
    n = eng.freeze(st, args[1])
    if n[0] == 'int' and it[3] != 'L':
        nit = mk('iter', it[1], it[2], it[3] + n[1])
        if not it[2]:
            st = st.copy()
            cell = ('it', ctx, site)
            st.store[cell] = nit
            out = []
            for s, k, v in nextv(eng, st, cell, (), ctx, site):
                s.store.pop(cell, None)
                out.append((s, SOME(v) if k == 'some' else NONE))
            return out
    out = []
    for s, v in collect(eng, st, it, 'vec', ctx, site):
        f = eng.freeze(s, v)
        t = mkapp('getidx', f, n)
        for s2, nm, p in cases(eng, s, t, OPT):
            out.append((s2, SOME(eng.index(s2, f, n)) if nm == 'Some' else NONE))
    return out


@itx('last')
def m_last(eng, st, args, ctx, site, o, rty):
    it = get_iter(eng, st, args[0])
    out = []
    for s, v in collect(eng, st, it, 'vec', ctx, site):
        if v[0] == 'S' and v[2] and v[2][-1][0] == 'one':
            out.append((s, SOME(v[2][-1][1])))
            continue
        f = eng.freeze(s, v)
        if f is EMPTYVEC:
            out.append((s, NONE))
            continue
        t = mkapp('last', f)
        for s2, nm, p in cases(eng, s, t, OPT):
            out.append((s2, SOME(p) if nm == 'Some' else NONE))
    return out


@itx('sum', 'product', 'max', 'min', 'max_by', 'min_by', 'max_by_key', 'min_by_key', 'reduce', 'partition', 'unzip', 'cmp', 'eq')
def m_itreduce(eng, st, args, ctx, site, o, rty):
    nm = o['path'].split('::')[-1]
    it = get_iter(eng, st, args[0])
    if nm == 'partition':
        return m_partition(eng, st, args, ctx, site, o, rty)
    out = []
    for s, v in collect(eng, st, it, 'vec', ctx, site):
        out.append((s, mkapp('iter_' + nm, eng.freeze(s, v), *[eng.freeze(s, a) for a in args[1:]])))
    return out


def m_partition(eng, st, args, ctx, site, o, rty):
    acc = ('acc', ctx, site)

    def step(s, x):
        out = []
        for s2, b in predicate(eng, s, args[1], x, ctx, site):
            s2 = s2.copy()
            push_pieces(eng, s2, mk('ref', acc, (('f', None, '0' if b else '1'),)), (one(x),))
            out.append((s2, None))
        return out
    return fold(eng, st, args[0], mk('tup', (EMPTYVEC, EMPTYVEC)), acc, step, ctx, site)


@model('std::iter::traits::collect::Extend::extend')
def m_extend(eng, st, args, ctx, site, o, rty):
    ty = canon(o['args'][0]) if o.get('args') else ''
    kind = target_kind(ty)
    if kind == 'map':
        st = st.copy()
        setref(eng, st, args[0], mkapp('map_extend', eng.freeze(st, args[0]), eng.freeze(st, args[1])))
        return [(st, UNIT)]
    it = get_iter(eng, st, args[1])
    out = []
    for s, v in collect(eng, st, it, 'vec' if kind == 'set' else kind, ctx, site):
        s = s.copy()
        push_pieces(eng, s, args[0], pieces_of(v, 'str' if kind == 'str' else 'vec'), kind)
        out.append((s, UNIT))
    return out


@model('std::iter::traits::collect::FromIterator::from_iter')
def m_fromiter(eng, st, args, ctx, site, o, rty):
    return m_collect(eng, st, args, ctx, site, o, rty)


# ---------------------------------------------------------------- regex, solang, forge

@pattern(r'^regex::regex::string::Regex::new$')
def m_regex(eng, st, args, ctx, site, o, rty):
    return [(st, OK(mkapp('regex', eng.freeze(st, args[0]))))]


@pattern(r'^forge_fmt::solang_ext::safe_unwrap::SafeUnwrap::safe_unwrap$')
def m_safe(eng, st, args, ctx, site, o, rty):
    v = eng.freeze(st, args[0])
    out = []
    for s, n, p in cases(eng, st, v, OPT):
        if n == 'Some':
            out.append((s, p))
        else:
            eng.panic(s, ctx, site[2], 'safe_unwrap')
    return out


@pattern(r'^forge_fmt::helpers::(fmt|parse|format)$')
def m_forge(eng, st, args, ctx, site, o, rty):
    nm = o['path'].split('::')[-1]
    st = st.copy()
    fr = []
    for a in args:
        if eng.deref(st, a)[0] == 'ref' or (a[0] == 'ref' and nm == 'format' and a is args[0]):
            fr.append(eng.freeze(st, a))
        else:
            fr.append(eng.freeze(st, a))
    t = mkapp('forge_' + nm, *(fr[:1] if nm != 'format' else fr[1:2]))
    if nm == 'format':
        # format(&mut out, parsed, config)
        out = []
        for s, n, v in fork_result(eng, st, UNIT, t):
            if n == 'Ok':
                io_w = target(eng, s, args[0])
                if io_w[0] == 'ref':
                    old = eng.read(s, io_w[1], io_w[2])
                    eng.write(s, io_w[1], io_w[2], seq('str', pieces_of(old, 'str') + (mkapp('formatted', fr[1]),)))
            out.append((s, v))
        return out
    return [(s, v) for s, n, v in fork_result(eng, st, getf(t, 'Ok', '0'), t)]


_MUT = re.compile(r'_mut$|::push|::insert|::set_|::extend|::append')


def mut_receiver(path):
    return bool(_MUT.search(path))


# ---------------------------------------------------------------- configuration

@pattern(r'^figment::figment::Figment::extract$')
def m_extract(eng, st, args, ctx, site, o, rty):
    v = eng.freeze(st, args[0])
    t = mkapp('load_config', v)
    src = mk('sym', 'cli') if names_app(v, 'clap_builder::derive::Parser::parse') else getf(t, 'Ok', '0')
    return [(s, r) for s, n, r in fork_result(eng, st, src, mkapp('load_config', mk('sym', 'cli') if src[0] == 'sym' else v))]


def names_app(t, name):
    if not isinstance(t, tuple):
        return False
    if len(t) > 1 and t[0] == 'app' and t[1] == name:
        return True
    return any(names_app(x, name) for x in t if isinstance(x, tuple))


# ---------------------------------------------------------------- panics of the library

def panics_when(eng, st, path, args, o):
    """the conditions under which a library function panics on its arguments"""
    nm = path.split('::')[-1]
    own = path.rsplit('::', 1)[0]

    def rng(f, idx):
        idx = eng.deref(st, idx)
        if idx[0] == 'range':
            lo, hi = idx[1], idx[2]
        elif idx[0] == 'adt':
            d = dict(idx[3])
            lo, hi = d.get('start'), d.get('end')
            if 'ToInclusive' in idx[1] or 'RangeInclusive' in idx[1]:
                hi = mkapp('incl', eng.freeze(st, hi)) if hi is not None else None
        else:
            return []
        lo = INT(0) if lo is None else eng.freeze(st, lo)
        hi = length(eng, st, f) if hi is None else eng.freeze(st, hi)
        return [] if lo is INT(0) and hi is length(eng, st, f) else [mkapp('outside', f, lo, hi)]

    def at(f, i):
        i = eng.freeze(st, i)
        if i[0] == 'elem' and i[1][0] == 'range' and (i[1][2] is mkapp('len', f) or i[1][2][0] == 'inf'):
            return []
        return [mkapp('outside1', f, i)]

    if path in ('std::ops::index::Index::index', 'std::ops::index::IndexMut::index_mut'):
        if canon(o.get('key')) in eng.p.bodies:
            return []
        ty = canon(o['args'][0]) if o.get('args') else ''
        f = eng.freeze(st, eng.deref(st, args[0]))
        if 'Map' in ty.split('<')[0]:
            return [mk('not', mkapp('has', f, eng.freeze(st, args[1])))]
        i = eng.deref(st, args[1])
        return rng(f, args[1]) if i[0] in ('adt', 'range') else at(f, args[1])
    seqs = own in ('std::str::<impl str>', 'std::string::String', 'std::slice::<impl [T]>', 'std::vec::Vec::<T, A>', 'std::collections::vec_deque::VecDeque::<T, A>')
    if not seqs or len(args) < 2:
        return [mkapp('eq', eng.freeze(st, args[1]), INT(0))] if nm == 'step_by' and len(args) == 2 else []
    txt = own in ('std::str::<impl str>', 'std::string::String')
    f = eng.freeze(st, eng.deref(st, args[0]))
    if nm in ('split_at', 'split_at_mut', 'split_off', 'insert', 'insert_str') and len(args) >= 2 and not (own.startswith('std::collections') and nm == 'insert'):
        i = eng.freeze(st, args[1])
        return [mkapp('outside', f, INT(0), i)] if i is not INT(0) else []
    if nm == 'truncate' and txt:
        return [mkapp('cuts', f, eng.freeze(st, args[1]))]
    if nm in ('remove', 'swap_remove') and not own.startswith('std::collections'):
        return [mkapp('outside1', f, eng.freeze(st, args[1]))]
    if nm in ('drain', 'replace_range', 'copy_within'):
        return rng(f, args[1])
    if nm == 'swap' and len(args) == 3:
        return at(f, args[1]) + at(f, args[2])
    if nm in ('chunks', 'chunks_exact', 'windows', 'rchunks', 'chunks_mut'):
        return [mkapp('eq', eng.freeze(st, args[1]), INT(0))]
    return []
