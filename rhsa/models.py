"""Value-level models of the standard-library calls the code base uses."""
from .val import *
from .prog import strip_generics, subst_ty

NORETURN = {'core::panicking::panic', 'core::panicking::panic_fmt', 'std::process::exit', 'std::rt::begin_panic', 'core::option::unwrap_failed',
            'core::option::expect_failed', 'core::result::unwrap_failed', 'core::panicking::panic_display', 'core::panicking::unreachable_display',
            'core::panicking::assert_failed', 'core::panicking::panic_explicit', 'core::panicking::panic_bounds_check', 'core::panicking::panic_nounwind'}

_T = {}


def model(*names):
    def d(f):
        for n in names:
            _T[n] = f
        return f
    return d


def lookup(c):
    f = _T.get(c.norm)
    if f is None and c.trait is not None:
        f = _T.get(strip_generics(c.trait) + '::' + c.method)
        if f is not None and c.fn is not None and not getattr(f, 'always', False):
            # a local implementation of a std trait: analyse it instead
            return None
    return f


IMPURE_WORDS = ('next', 'lock', 'try_lock', 'read', 'write', 'open', 'create', 'recv', 'send', 'spawn', 'now', 'wait', 'fetch_add', 'load', 'store', 'pop')


def impure(c):
    n = c.norm
    if n.startswith('std::fs') or n.startswith('std::io') or n.startswith('std::sync') or n.startswith('std::thread') or n.startswith('std::env') or n.startswith('std::process'):
        return True
    return n.rsplit('::', 1)[-1] in IMPURE_WORDS


# calls taking &mut [T] or &mut Vec that cannot change the length of what they are given
KEEPLEN = {'copy_from_slice', 'clone_from_slice', 'fill', 'reverse', 'swap', 'sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'iter_mut', 'as_mut_slice',
           'chunks_mut', 'chunks_exact_mut', 'split_at_mut', 'get_mut', 'first_mut', 'last_mut'}


def keeps_len(c, old):
    return c.method in KEEPLEN or c.trait is not None and c.method.startswith('write_') and c.trait.startswith('byteorder')


# ------------------------------------------------------------------ helpers
def isres(c):
    a = c.args[0] if c.args else ''
    return a.startswith(RES)


def payload(ev, st, v, res):
    return ev.simp(st, ev.project(v, 'Ok.0' if res else 'Some.0', st))


def errpay(ev, st, v):
    return ev.simp(st, ev.project(v, 'Err.0', st))


def good(ev, v, res, t=True):
    return lambda s: ev.refine_isv(s, v, 'Ok' if res else 'Some', t)


# ------------------------------------------------------------------ ? operator
@model('core::ops::try_trait::Try::branch', '<core::result::Result as core::ops::try_trait::Try>::branch', '<core::option::Option as core::ops::try_trait::Try>::branch',
       '<core::result::Result<T, E> as core::ops::try_trait::Try>::branch', '<core::option::Option<T> as core::ops::try_trait::Try>::branch')
def m_branch(ev, fr, st, c, args, b, line):
    x = args[0]
    r = 'Result' in c.norm
    return mk('cf', x, r)


@model('<core::result::Result<T, F> as core::ops::try_trait::FromResidual<core::result::Result<!, E>>>::from_residual',
       '<core::result::Result<T, F> as core::ops::try_trait::FromResidual<core::result::Result<core::convert::Infallible, E>>>::from_residual',
       '<core::option::Option<T> as core::ops::try_trait::FromResidual<core::option::Option<core::convert::Infallible>>>::from_residual',
       '<core::option::Option<T> as core::ops::try_trait::FromResidual<core::option::Option<!>>>::from_residual')
def m_residual(ev, fr, st, c, args, b, line):
    return args[0]


# ------------------------------------------------------------------ Option / Result
def both(name, *more):
    return ['core::option::Option::' + n for n in (name,) + more] + ['core::result::Result::' + n for n in (name,) + more]


def resty(c):
    return c.norm.startswith('core::result')


@model(*both('is_some', 'is_ok'))
def m_is_some(ev, fr, st, c, args, b, line):
    v = ev.content(st, args[0])
    n = 'Ok' if resty(c) else 'Some'
    t = ev.isv_test(st, v, n)
    return K(t) if t is not None else mk_isv(v, n)


@model(*both('is_none', 'is_err'))
def m_is_none(ev, fr, st, c, args, b, line):
    v = ev.content(st, args[0])
    n = 'Ok' if resty(c) else 'Some'
    t = ev.isv_test(st, v, n)
    return K(not t) if t is not None else ev.bnot(mk_isv(v, n))


def mk_isv(v, n):
    if v.op == 'phi':
        alts = PHI[v]
        out = []
        for x, f, e in alts:
            out.append((mk_isv(x, n), f, e))
        return mkphi(('isv', v.a[0], n), out)
    if v.op == 'adt':
        return K(v.a[1] == n)
    if v.op == 'chk':
        return mk('noovf', v.a[0], v.a[1]) if n == 'Some' else mk('isv', v, n)
    if v.op == 'optif' and n == 'Some':
        return v.a[0]
    return mk('isv', v, n)


def unwrap_event(ev, fr, st, c, v, b, line):
    n = 'Ok' if resty(c) else 'Some'
    if c.method in ('unwrap_err', 'expect_err'):
        n = 'Err'
    e = ev.event(fr, b, st, 'unwrap', c, [v], line, x=n)
    return n


@model(*both('unwrap', 'expect', 'unwrap_unchecked'))
def m_unwrap(ev, fr, st, c, args, b, line):
    v = args[0]
    n = unwrap_event(ev, fr, st, c, v, b, line)
    if not ev.refine_isv(st, v, n, True):
        return None
    return ev.simp(st, ev.project(v, n + '.0', st)), st


@model('core::result::Result::unwrap_err', 'core::result::Result::expect_err')
def m_unwrap_err(ev, fr, st, c, args, b, line):
    v = args[0]
    unwrap_event(ev, fr, st, c, v, b, line)
    if not ev.refine_isv(st, v, 'Err', True):
        return None
    return errpay(ev, st, v), st


@model(*both('unwrap_or'))
def m_unwrap_or(ev, fr, st, c, args, b, line):
    v, d = args
    r = resty(c)
    return ev.split(fr, st, ('uo', b), [(good(ev, v, r), lambda s: payload(ev, s, v, r)), (good(ev, v, r, False), lambda s: d)])


@model(*both('unwrap_or_else'))
def m_unwrap_or_else(ev, fr, st, c, args, b, line):
    v, f = args
    r = resty(c)
    return ev.split(fr, st, ('uoe', b), [(good(ev, v, r), lambda s: payload(ev, s, v, r)),
                                         (good(ev, v, r, False), lambda s: ev.apply(fr, s, f, [errpay(ev, s, v)] if r else [], b, line))])


@model(*both('unwrap_or_default'))
def m_unwrap_or_default(ev, fr, st, c, args, b, line):
    v = args[0]
    r = resty(c)
    t = c.args[0] if c.args else ''
    d = {'bool': FALSE}.get(t)
    if d is None:
        from .ev import INTW
        d = K(0) if t in INTW else mk('call', 'core::default::Default::default', (t,), (), None)
    return ev.split(fr, st, ('uod', b), [(good(ev, v, r), lambda s: payload(ev, s, v, r)), (good(ev, v, r, False), lambda s: d)])


@model(*both('map'))
def m_map(ev, fr, st, c, args, b, line):
    v, f = args
    r = resty(c)

    def run(s):
        x = ev.apply(fr, s, f, [payload(ev, s, v, r)], b, line)
        return None if x is None else ((ok if r else some)(x[0]), x[1])
    return ev.split(fr, st, ('map', b), [(good(ev, v, r), run), (good(ev, v, r, False), lambda s: err(errpay(ev, s, v)) if r else NONE)])


@model('core::result::Result::map_err')
def m_map_err(ev, fr, st, c, args, b, line):
    v, f = args

    def run(s):
        x = ev.apply(fr, s, f, [errpay(ev, s, v)], b, line)
        return None if x is None else (err(x[0]), x[1])
    return ev.split(fr, st, ('maperr', b), [(good(ev, v, True), lambda s: ok(payload(ev, s, v, True))), (good(ev, v, True, False), run)])


@model(*both('and_then'))
def m_and_then(ev, fr, st, c, args, b, line):
    v, f = args
    r = resty(c)
    return ev.split(fr, st, ('at', b), [(good(ev, v, r), lambda s: ev.apply(fr, s, f, [payload(ev, s, v, r)], b, line)),
                                        (good(ev, v, r, False), lambda s: err(errpay(ev, s, v)) if r else NONE)])


@model(*both('or_else'))
def m_or_else(ev, fr, st, c, args, b, line):
    v, f = args
    r = resty(c)
    return ev.split(fr, st, ('oe', b), [(good(ev, v, r), lambda s: (ok if r else some)(payload(ev, s, v, r))),
                                        (good(ev, v, r, False), lambda s: ev.apply(fr, s, f, [errpay(ev, s, v)] if r else [], b, line))])


@model(*both('or'))
def m_or(ev, fr, st, c, args, b, line):
    v, d = args
    r = resty(c)
    return ev.split(fr, st, ('or', b), [(good(ev, v, r), lambda s: (ok if r else some)(payload(ev, s, v, r))), (good(ev, v, r, False), lambda s: d)])


@model('core::result::Result::ok')
def m_ok(ev, fr, st, c, args, b, line):
    v = args[0]
    return ev.split(fr, st, ('ok', b), [(good(ev, v, True), lambda s: some(payload(ev, s, v, True))), (good(ev, v, True, False), lambda s: NONE)])


@model('core::result::Result::err')
def m_err(ev, fr, st, c, args, b, line):
    v = args[0]
    return ev.split(fr, st, ('err', b), [(good(ev, v, True, False), lambda s: some(errpay(ev, s, v))), (good(ev, v, True), lambda s: NONE)])


@model('core::option::Option::ok_or')
def m_ok_or(ev, fr, st, c, args, b, line):
    v, e = args
    return ev.split(fr, st, ('oo', b), [(good(ev, v, False), lambda s: ok(payload(ev, s, v, False))), (good(ev, v, False, False), lambda s: err(e))])


@model('core::option::Option::ok_or_else')
def m_ok_or_else(ev, fr, st, c, args, b, line):
    v, f = args

    def run(s):
        x = ev.apply(fr, s, f, [], b, line)
        return None if x is None else (err(x[0]), x[1])
    return ev.split(fr, st, ('ooe', b), [(good(ev, v, False), lambda s: ok(payload(ev, s, v, False))), (good(ev, v, False, False), run)])


@model('core::option::Option::map_or', 'core::result::Result::map_or')
def m_map_or(ev, fr, st, c, args, b, line):
    v, d, f = args
    r = resty(c)
    return ev.split(fr, st, ('mo', b), [(good(ev, v, r), lambda s: ev.apply(fr, s, f, [payload(ev, s, v, r)], b, line)), (good(ev, v, r, False), lambda s: d)])


@model('core::option::Option::map_or_else', 'core::result::Result::map_or_else')
def m_map_or_else(ev, fr, st, c, args, b, line):
    v, d, f = args
    r = resty(c)
    return ev.split(fr, st, ('moe', b), [(good(ev, v, r), lambda s: ev.apply(fr, s, f, [payload(ev, s, v, r)], b, line)),
                                         (good(ev, v, r, False), lambda s: ev.apply(fr, s, d, [errpay(ev, s, v)] if r else [], b, line, tag=1))])


@model('core::option::Option::is_some_and', 'core::result::Result::is_ok_and')
def m_is_some_and(ev, fr, st, c, args, b, line):
    v, f = args
    r = resty(c)
    return ev.split(fr, st, ('isa', b), [(good(ev, v, r), lambda s: ev.apply(fr, s, f, [payload(ev, s, v, r)], b, line)), (good(ev, v, r, False), lambda s: FALSE)])


@model('core::option::Option::is_none_or')
def m_is_none_or(ev, fr, st, c, args, b, line):
    v, f = args
    return ev.split(fr, st, ('ino', b), [(good(ev, v, False), lambda s: ev.apply(fr, s, f, [payload(ev, s, v, False)], b, line)), (good(ev, v, False, False), lambda s: TRUE)])


@model('core::option::Option::filter')
def m_filter_opt(ev, fr, st, c, args, b, line):
    v, f = args

    def run(s):
        p = payload(ev, s, v, False)
        root = mk('loc', fr.id, ('tmp', b))
        ev.store(s, root, (), p)
        x = ev.apply(fr, s, f, [mk('ref', False, root, ())], b, line)
        if x is None:
            return None
        cond, s2 = x
        return ev.split(fr, s2, ('flt2', b), [(lambda q: ev.refine(q, cond, True), lambda q: some(p)), (lambda q: ev.refine(q, cond, False), lambda q: NONE)])
    return ev.split(fr, st, ('flt', b), [(good(ev, v, False), run), (good(ev, v, False, False), lambda s: NONE)])


@model('core::bool::<impl bool>::then', 'core::bool::then')
def m_then(ev, fr, st, c, args, b, line):
    v, f = args

    def run(s):
        x = ev.apply(fr, s, f, [], b, line)
        return None if x is None else (some(x[0]), x[1])
    return ev.split(fr, st, ('then', b), [(lambda s: ev.refine(s, v, True), run), (lambda s: ev.refine(s, v, False), lambda s: NONE)])


@model('core::bool::<impl bool>::then_some', 'core::bool::then_some')
def m_then_some(ev, fr, st, c, args, b, line):
    v, x = args
    return ev.split(fr, st, ('thens', b), [(lambda s: ev.refine(s, v, True), lambda s: some(x)), (lambda s: ev.refine(s, v, False), lambda s: NONE)])


@model(*both('as_ref', 'as_mut', 'as_deref', 'as_deref_mut'))
def m_opt_as_ref(ev, fr, st, c, args, b, line):
    p = args[0]
    r = resty(c)
    mut = 'mut' in c.method
    root, path = ev.deref(p)
    v = ev.load(st, root, path)
    e = 'Ok.0' if r else 'Some.0'
    ref = mk('ref', mut, root, path + (e,))

    def run(s):
        return (ok if r else some)(ref)
    return ev.split(fr, st, ('asref', b), [(good(ev, v, r), run),
                                           (good(ev, v, r, False), lambda s: err(mk('ref', mut, root, path + ('Err.0',))) if r else NONE)])


@model('core::option::Option::copied', 'core::option::Option::cloned', 'core::result::Result::copied', 'core::result::Result::cloned')
def m_copied(ev, fr, st, c, args, b, line):
    v = args[0]
    r = resty(c)
    return ev.split(fr, st, ('cp', b), [(good(ev, v, r), lambda s: (ok if r else some)(ev.content(s, payload(ev, s, v, r)))),
                                        (good(ev, v, r, False), lambda s: err(errpay(ev, s, v)) if r else NONE)])


@model('core::option::Option::take', 'core::mem::take')
def m_take(ev, fr, st, c, args, b, line):
    root, path = ev.deref(args[0])
    v = ev.load(st, root, path)
    if c.norm.endswith('mem::take'):
        ev.store(st, root, path, mk('call', 'core::default::Default::default', tuple(c.args[:1]), (), None))
    else:
        ev.store(st, root, path, NONE)
    return v


@model('core::option::Option::insert', 'core::option::Option::replace')
def m_insert(ev, fr, st, c, args, b, line):
    root, path = ev.deref(args[0])
    old = ev.load(st, root, path)
    ev.store(st, root, path, some(args[1]))
    if c.method == 'insert':
        return mk('ref', True, root, path + ('Some.0',))
    return old


@model('core::mem::replace')
def m_replace(ev, fr, st, c, args, b, line):
    root, path = ev.deref(args[0])
    old = ev.load(st, root, path)
    ev.store(st, root, path, args[1])
    return old


@model('core::option::Option::transpose', 'core::result::Result::transpose', 'core::option::Option::flatten', 'core::result::Result::flatten')
def m_transpose(ev, fr, st, c, args, b, line):
    v = args[0]
    r = resty(c)
    if c.method == 'flatten':
        return ev.split(fr, st, ('fl', b), [(good(ev, v, r), lambda s: payload(ev, s, v, r)), (good(ev, v, r, False), lambda s: err(errpay(ev, s, v)) if r else NONE)])
    return NotImplemented


# ------------------------------------------------------------------ identity-like
@model('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut', 'core::convert::AsRef::as_ref', 'core::convert::AsMut::as_mut', 'core::borrow::Borrow::borrow',
       'alloc::vec::Vec::as_slice', 'alloc::vec::Vec::as_mut_slice', 'alloc::string::String::as_str', 'alloc::boxed::Box::as_ref',
       'core::array::<impl [T; N]>::as_slice', 'alloc::string::String::as_mut_str', 'std::path::PathBuf::as_path', 'core::slice::<impl [T]>::as_ref',
       'core::array::as_slice')
def m_ident_ref(ev, fr, st, c, args, b, line):
    # smart pointers: the place behind the pointer is named after the pointer's content
    if c.trait and c.args:
        t = c.args[0]
        if t.startswith(('std::sync', 'alloc::sync::Arc', 'alloc::rc', 'alloc::boxed::Box', 'core::cell', 'alloc::borrow::Cow', 'std::sync::mutex', 'lock_api')):
            return mk('smart', ev.content(st, args[0]))
        if t.startswith(('std::path', 'std::ffi', 'alloc::string', 'alloc::vec', '[', 'str', '&', 'alloc::', 'std::')):
            return args[0]
        return NotImplemented
    return args[0]


@model('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned', 'core::slice::<impl [T]>::to_vec', 'alloc::slice::<impl [T]>::to_vec', 'alloc::slice::to_vec', 'core::slice::to_vec', 'alloc::str::<impl str>::to_owned',
       'alloc::slice::<impl [T]>::into_vec', 'alloc::borrow::Cow::into_owned', 'alloc::slice::into_vec', 'std::path::Path::to_path_buf')
def m_clone(ev, fr, st, c, args, b, line):
    v = ev.content(st, args[0])
    return v if args[0].op == 'ref' else (mk('at', v) if c.method not in ('into_vec', 'into_owned') else v)


@model('core::convert::Into::into', 'core::convert::From::from')
def m_into(ev, fr, st, c, args, b, line):
    if len(c.args) >= 2 and c.args[0] == c.args[1]:
        return args[0]
    from .ev import INTW
    a = c.args
    if len(a) >= 2:
        src, dst = (a[0], a[1]) if c.method == 'into' else (a[1], a[0])
        if src in INTW and dst in INTW:
            return ev.cast('IntToInt', args[0], dst, src, st)
        if c.method == 'into':
            x = ev.P.resolve_trait('core::convert::From', 'from', dst, (src,))
            if x is not None:
                t, m = x
                from .prog import Callee
                k = Callee()
                k.path, k.fn, k.sub, k.args, k.trait, k.virt, k.method, k.targs = t.p, t, m, [dst, src], 'core::convert::From', False, 'from', [src]
                k.norm = strip_generics(t.p)
                return ev.docall(fr, st, k, args, b, line, tag='into')
        if dst.startswith('alloc::borrow::Cow') or dst in ('alloc::string::String', 'std::path::PathBuf'):
            return ev.content(st, args[0])
        if dst.startswith(OPT):
            return some(args[0])
    return NotImplemented


@model('core::convert::TryInto::try_into', 'core::convert::TryFrom::try_from')
def m_try_into(ev, fr, st, c, args, b, line):
    from .ev import INTW, UNSIGNED
    a = c.args
    if len(a) < 2:
        return NotImplemented
    src, dst = (a[0], a[1]) if c.method == 'try_into' else (a[1], a[0])
    v = args[0]
    if src in INTW and dst in INTW:
        lo, hi = ev.range(dst)
        slo, shi = ev.range(src)
        conds = []
        if shi > hi:
            conds.append(le(v, K(hi)))
        if slo < lo:
            conds.append(le(K(lo), v))
        if not conds:
            return ok(v)
        cond = conds[0] if len(conds) == 1 else mk('and', tuple(sorted(conds, key=lambda x: x.i)))
        return ev.split(fr, st, ('ti', b), [(lambda s: ev.refine(s, cond, True), lambda s: ok(v)), (lambda s: ev.refine(s, cond, False), lambda s: err(mk('zst', 'TryFromIntError')))])
    x = ev.P.resolve_trait('core::convert::TryFrom', 'try_from', dst, (src,))
    if x is not None and c.method == 'try_into':
        t, m = x
        from .prog import Callee
        k = Callee()
        k.path, k.fn, k.sub, k.args, k.trait, k.virt, k.method, k.targs = t.p, t, m, [dst, src], 'core::convert::TryFrom', False, 'try_from', [src]
        k.norm = strip_generics(t.p)
        return ev.docall(fr, st, k, args, b, line, tag='tryinto')
    if dst.startswith('[') and ';' in dst and (src.startswith('&[') or src.startswith('&mut [')):
        # slice -> array: Ok iff the length matches
        n = dst.rsplit(';', 1)[1].strip(' ]')
        body = ev.content(st, v)
        if n.isdigit():
            cond = eq0(sub(ev.len(body), K(int(n))))
            return ev.split(fr, st, ('ta', b), [(lambda s: ev.refine(s, cond, True), lambda s: ok(body)), (lambda s: ev.refine(s, cond, False), lambda s: err(mk('zst', 'TryFromSliceError')))])
    return NotImplemented


@model('alloc::boxed::Box::new', 'alloc::sync::Arc::new', 'alloc::rc::Rc::new', 'std::sync::poison::mutex::Mutex::new', 'std::sync::Mutex::new', 'core::cell::RefCell::new', 'core::cell::Cell::new')
def m_box(ev, fr, st, c, args, b, line):
    return mk('boxed', args[0])


@model('core::hint::must_use', 'core::hint::black_box', 'core::convert::identity')
def m_must_use(ev, fr, st, c, args, b, line):
    return args[0]


# ------------------------------------------------------------------ integers
def _int(name):
    out = []
    from .ev import INTW
    for t in INTW:
        out += ['core::num::<impl %s>::%s' % (t, name), 'core::num::%s' % name]
    return out


def intty(c):
    import re
    m = re.search(r'<impl (\w+)>', c.path)
    return m.group(1) if m else 'usize'


@model(*_int('checked_add'), *_int('checked_sub'), *_int('checked_mul'))
def m_checked(ev, fr, st, c, args, b, line):
    a, x = args
    ty = intty(c)
    ev.note_ty(a, ty)
    ev.note_ty(x, ty)
    op = c.method[8:]
    r = {'add': lambda: add(a, x), 'sub': lambda: sub(a, x), 'mul': lambda: mul(a, x)}[op]()
    lo, hi = ev.range(ty)
    if iskint(r):
        return some(r) if lo <= r.a[1] <= hi else NONE
    conds = []
    from .ev import UNSIGNED
    if ty in UNSIGNED:
        if op == 'sub':
            conds = [le(x, a)]
        else:
            conds = [le(r, K(hi))]
    chk = mk('chk', r, ty, tuple(conds))

    return ev.split(fr, st, ('chk', b), [(lambda s: ev.refine_isv(s, chk, 'Some', True), lambda s: some(r)), (lambda s: ev.refine_isv(s, chk, 'Some', False), lambda s: NONE)])


@model(*_int('checked_div'), *_int('checked_rem'))
def m_checked_div(ev, fr, st, c, args, b, line):
    a, x = args
    r = ev.binop('Div' if c.method.endswith('div') else 'Rem', a, x, intty(c))
    cond = ev.bnot(eq0(x))
    return ev.split(fr, st, ('chkd', b), [(lambda s: ev.refine(s, cond, True), lambda s: some(r)), (lambda s: ev.refine(s, cond, False), lambda s: NONE)])


@model(*_int('saturating_sub'))
def m_satsub(ev, fr, st, c, args, b, line):
    a, x = args
    cond = le(x, a)
    return ev.split(fr, st, ('ss', b), [(lambda s: ev.refine(s, cond, True), lambda s: sub(a, x)), (lambda s: ev.refine(s, cond, False), lambda s: K(0))])


@model('core::cmp::Ord::min', 'core::cmp::min')
def m_min(ev, fr, st, c, args, b, line):
    from .ev import INTW
    if not c.args or c.args[0] not in INTW:
        return NotImplemented
    a, x = args
    cond = le(a, x)
    return ev.split(fr, st, ('min', b), [(lambda s: ev.refine(s, cond, True), lambda s: a), (lambda s: ev.refine(s, cond, False), lambda s: x)])


@model('core::cmp::Ord::max', 'core::cmp::max')
def m_max(ev, fr, st, c, args, b, line):
    from .ev import INTW
    if not c.args or c.args[0] not in INTW:
        return NotImplemented
    a, x = args
    cond = le(x, a)
    return ev.split(fr, st, ('max', b), [(lambda s: ev.refine(s, cond, True), lambda s: a), (lambda s: ev.refine(s, cond, False), lambda s: x)])


@model('core::mem::size_of', 'core::mem::sizeof::size_of')
def m_sizeof(ev, fr, st, c, args, b, line):
    from .ev import INTW
    t = c.args[0] if c.args else ''
    if t in INTW and t != 'bool':
        return K(INTW[t] // 8)
    if t == 'bool':
        return K(1)
    n = sizeof(ev.P, t)
    return K(n) if n is not None else mk('sizeof', t)


def sizeof(P, t):
    from .ev import INTW
    t = t.strip()
    if t == 'bool':
        return 1
    if t in INTW:
        return INTW[t] // 8
    if t in ('f32', 'f64'):
        return int(t[1:]) // 8
    if t.startswith('[') and ';' in t:
        e, n = t[1:-1].rsplit(';', 1)
        e = sizeof(P, e)
        n = n.strip().split('_')[0]
        return e * int(n) if e is not None and n.isdigit() else None
    a = P.adts.get(P.adt_of(t))
    return a.get('size') if a else None


# NonZero
@model('core::num::nonzero::NonZero::new_unchecked', 'core::num::nonzero::NonZero::get')
def m_nz(ev, fr, st, c, args, b, line):
    if c.method == 'new_unchecked':
        ev.event(fr, b, st, 'unchecked', c, args, line)
    return args[0]


@model('core::num::nonzero::NonZero::new')
def m_nznew(ev, fr, st, c, args, b, line):
    v = args[0]
    cond = ev.bnot(eq0(v))
    return ev.split(fr, st, ('nz', b), [(lambda s: ev.refine(s, cond, True), lambda s: some(v)), (lambda s: ev.refine(s, cond, False), lambda s: NONE)])


# ------------------------------------------------------------------ comparison
def _cmp_args(ev, st, args):
    out = []
    for a in args:
        v = ev.content(st, a)
        n = 0
        while v.op == 'ref' and n < 3:
            v = ev.content(st, v)
            n += 1
        out.append(v)
    return out


@model('core::cmp::PartialEq::eq')
def m_eq(ev, fr, st, c, args, b, line):
    a, x = _cmp_args(ev, st, args)
    return _eq(ev, c, a, x)


@model('core::cmp::PartialEq::ne')
def m_ne(ev, fr, st, c, args, b, line):
    a, x = _cmp_args(ev, st, args)
    return ev.bnot(_eq(ev, c, a, x))


def _eq(ev, c, a, x):
    from .ev import INTW
    t = c.args[0].lstrip('&') if c.args else ''
    if t in ('f32', 'f64'):
        return mk('feq', *sorted((a, x), key=lambda y: y.i))
    if t in INTW and t != 'bool':
        return ev.cmp_eq(a, x)
    for y, z in ((a, x), (x, a)):
        if y.op == 'phi' and (z.op == 'k' or (z.op == 'adt' and not z.a[2])):
            return ev.cmp_eqv(y, z)
    return eq(a, x)


@model('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge')
def m_ord(ev, fr, st, c, args, b, line):
    from .ev import INTW
    a, x = _cmp_args(ev, st, args)
    t = c.args[0].lstrip('&') if c.args else ''
    if t in INTW:
        return {'lt': lambda: lt(a, x), 'le': lambda: le(a, x), 'gt': lambda: lt(x, a), 'ge': lambda: le(x, a)}[c.method]()
    return mk('bin', {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[c.method], a, x)


# ------------------------------------------------------------------ slices, vectors, strings
@model('core::slice::<impl [T]>::len', 'core::slice::len', 'alloc::vec::Vec::len', 'core::str::<impl str>::len', 'core::str::len', 'alloc::string::String::len')
def m_len(ev, fr, st, c, args, b, line):
    v = ev.content(st, args[0]) if args[0].op == 'ref' else mk('at', args[0])
    return ev.len(v)


@model('core::slice::<impl [T]>::is_empty', 'core::slice::is_empty', 'alloc::vec::Vec::is_empty', 'core::str::<impl str>::is_empty', 'core::str::is_empty', 'alloc::string::String::is_empty')
def m_is_empty(ev, fr, st, c, args, b, line):
    v = ev.content(st, args[0]) if args[0].op == 'ref' else mk('at', args[0])
    return eq0(ev.len(v))


@model('core::str::<impl str>::as_bytes', 'core::str::as_bytes', 'alloc::string::String::as_bytes')
def m_as_bytes(ev, fr, st, c, args, b, line):
    return args[0]


@model('alloc::vec::Vec::new', 'alloc::vec::Vec::with_capacity', 'alloc::string::String::new', 'alloc::string::String::with_capacity')
def m_vecnew(ev, fr, st, c, args, b, line):
    if c.method == 'with_capacity':
        ev.event(fr, b, st, 'alloc', c, args, line)
    return mk('arr', ())


@model('alloc::vec::from_elem', 'alloc::vec::from_elem_in')
def m_from_elem(ev, fr, st, c, args, b, line):
    ev.event(fr, b, st, 'alloc', c, args[1:], line)
    return mk('repeat', args[0], args[1])


@model('alloc::vec::Vec::resize')
def m_resize(ev, fr, st, c, args, b, line):
    ev.event(fr, b, st, 'alloc', c, args, line)
    root, path = ev.deref(args[0])
    old = ev.load(st, root, path)
    if old.op == 'arr' and not old.a[0]:
        ev.store(st, root, path, mk('repeat', args[2], args[1]))
    else:
        ev.store(st, root, path, mk('vecfrom', old, args[1]))
    return UNIT


@model('alloc::vec::Vec::push')
def m_push(ev, fr, st, c, args, b, line):
    root, path = ev.deref(args[0])
    old = ev.load(st, root, path)
    ev.event(fr, b, st, 'call', c, args, line)
    if old.op == 'arr':
        ev.store(st, root, path, mk('arr', old.a[0] + (args[1],)))
    else:
        ev.store(st, root, path, mk('pushed', old, args[1]) if old.op not in ('pushed', 'lphi') else mk('vecfrom', mk('pushed', old.a[0] if old.op == 'pushed' else old, args[1]), add(ev.len(old), K(1))))
    return UNIT


def range_bounds(ev, v, ln):
    """(lo, hi) of a range value, or None."""
    if v.op == 'adt':
        n = v.a[0].rsplit('::', 1)[-1]
        f = dict(v.a[2])
        if n == 'Range':
            return f['start'], f['end']
        if n == 'RangeFrom':
            return f['start'], ln
        if n == 'RangeTo':
            return K(0), f['end']
        if n == 'RangeFull':
            return K(0), ln
        if n == 'RangeInclusive' and 'start' in f:
            return f['start'], add(f['end'], K(1))
        if n == 'RangeToInclusive':
            return K(0), add(f['end'], K(1))
    if v.op == 'call' and v.a[0].endswith('RangeInclusive::new'):
        return v.a[2][0], add(v.a[2][1], K(1))
    if v.op == 'zst' and 'RangeFull' in v.a[0]:
        return K(0), ln
    return None


def rangeish(ev, v, ty):
    """Field projection of an opaque Range value."""
    if v.op in ('adt',):
        return v
    t = ty or ''
    if t.startswith('core::ops::range::Range<'):
        return adt('core::ops::range::Range', 'Range', [('start', ev.project(v, 'start')), ('end', ev.project(v, 'end'))])
    if t.startswith('core::ops::range::RangeFrom<'):
        return adt('core::ops::range::RangeFrom', 'RangeFrom', [('start', ev.project(v, 'start'))])
    if t.startswith('core::ops::range::RangeTo<'):
        return adt('core::ops::range::RangeTo', 'RangeTo', [('end', ev.project(v, 'end'))])
    if t.startswith('core::ops::range::RangeFull'):
        return adt('core::ops::range::RangeFull', 'RangeFull', [])
    return v


@model('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def m_index(ev, fr, st, c, args, b, line):
    base, idx = args
    t0 = c.args[0] if c.args else ''
    if not (t0.startswith(('alloc::vec::Vec', '[', 'str', 'alloc::string::String'))):
        return NotImplemented
    root, path = ev.deref(base)
    cont = ev.load(st, root, path)
    ln = ev.len(cont)
    mut = c.method == 'index_mut'
    ity = c.args[1] if len(c.args) > 1 else ''
    isstr = t0 in ('str', 'alloc::string::String')
    if ity == 'usize':
        ev.event(fr, b, st, 'index', c, [cont, idx, ln], line, x='idx')
        if not ev.refine(st, lt(idx, ln), True):
            return None
        return mk('ref', mut, root, path + (mk('ix', idx),))
    idx = rangeish(ev, idx, ity)
    rb = range_bounds(ev, idx, ln)
    ev.event(fr, b, st, 'index', c, [cont, idx, ln], line, x='strslice' if isstr else 'slice')
    if rb is None:
        return NotImplemented
    lo, hi = rb
    for f in (le(lo, hi), le(hi, ln)):
        if not ev.refine(st, f, True):
            return None
    if lo is K(0) and hi is ln:
        return mk('ref', mut, root, path)
    return mk('ref', mut, root, path + (mk('slc', lo, hi),))


@model('core::slice::<impl [T]>::get', 'core::slice::get', 'core::slice::<impl [T]>::get_mut', 'core::slice::get_mut', 'alloc::vec::Vec::get')
def m_get(ev, fr, st, c, args, b, line):
    base, idx = args
    root, path = ev.deref(base)
    cont = ev.load(st, root, path)
    ln = ev.len(cont)
    mut = c.method.endswith('mut')
    ity = c.args[1] if len(c.args) > 1 else 'usize'
    if ity == 'usize':
        cond = lt(idx, ln)
        ref = mk('ref', mut, root, path + (mk('ix', idx),))
    else:
        idx = rangeish(ev, idx, ity)
        rb = range_bounds(ev, idx, ln)
        if rb is None:
            return NotImplemented
        lo, hi = rb
        cs = [x for x in (le(lo, hi), le(hi, ln)) if x is not TRUE]
        if FALSE in cs:
            return NONE
        if not cs:
            cond = TRUE
        else:
            cond = cs[0] if len(cs) == 1 else mk('and', tuple(sorted(cs, key=lambda x: x.i)))
        ref = mk('ref', mut, root, path + (mk('slc', lo, hi),))
    return ev.split(fr, st, ('get', b), [(lambda s: ev.refine(s, cond, True), lambda s: some(ref)), (lambda s: ev.refine(s, cond, False), lambda s: NONE)])


@model('core::slice::<impl [T]>::get_unchecked', 'core::slice::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut', 'core::slice::get_unchecked_mut')
def m_get_unchecked(ev, fr, st, c, args, b, line):
    base, idx = args
    root, path = ev.deref(base)
    cont = ev.load(st, root, path)
    ity = c.args[1] if len(c.args) > 1 else 'usize'
    ln = ev.len(cont)
    idx = rangeish(ev, idx, ity)
    ev.event(fr, b, st, 'unchecked', c, [cont, idx, ln], line)
    mut = c.method.endswith('mut')
    if ity == 'usize':
        return mk('ref', mut, root, path + (mk('ix', idx),))
    rb = range_bounds(ev, idx, ln)
    if rb is None:
        return NotImplemented
    return mk('ref', mut, root, path + (mk('slc', rb[0], rb[1]),))


@model('core::slice::<impl [T]>::first', 'core::slice::first', 'core::slice::<impl [T]>::last', 'core::slice::last', 'core::slice::<impl [T]>::first_mut', 'core::slice::<impl [T]>::last_mut', 'core::slice::first_mut', 'core::slice::last_mut')
def m_first(ev, fr, st, c, args, b, line):
    root, path = ev.deref(args[0])
    cont = ev.load(st, root, path)
    ln = ev.len(cont)
    i = K(0) if c.method.startswith('first') else add(ln, K(-1))
    cond = le(K(1), ln)
    ref = mk('ref', c.method.endswith('mut'), root, path + (mk('ix', i),))
    return ev.split(fr, st, ('first', b), [(lambda s: ev.refine(s, cond, True), lambda s: some(ref)), (lambda s: ev.refine(s, cond, False), lambda s: NONE)])


@model('core::slice::<impl [T]>::contains', 'core::slice::contains')
def m_slice_contains(ev, fr, st, c, args, b, line):
    r = ev.content(st, args[0])
    x = ev.content(st, args[1])
    if r.op != 'arr':
        return NotImplemented
    es = [ev.cmp_eqv(y, x) for y in r.a[0]]
    if any(e is TRUE for e in es):
        return TRUE
    es = [e for e in es if e is not FALSE]
    return mk('or', tuple(sorted(set(es), key=lambda y: y.i))) if es else FALSE


@model('core::ops::range::Range::contains')
def m_contains(ev, fr, st, c, args, b, line):
    from .ev import INTW
    r = ev.content(st, args[0])
    x = ev.content(st, args[1])
    if c.args and c.args[0] in INTW:
        lo, hi = ev.project(r, 'start', st), ev.project(r, 'end', st)
        return mk('and', tuple(sorted((le(lo, x), lt(x, hi)), key=lambda y: y.i)))
    return NotImplemented


@model('core::ops::range::RangeInclusive::contains')
def m_contains_incl(ev, fr, st, c, args, b, line):
    from .ev import INTW
    r = ev.content(st, args[0])
    x = ev.content(st, args[1])
    rb = range_bounds(ev, r, None) if r.op in ('adt', 'call') else None
    if rb and c.args and c.args[0] in INTW:
        return mk('and', tuple(sorted((le(rb[0], x), lt(x, rb[1])), key=lambda y: y.i)))
    return NotImplemented


@model('alloc::vec::Vec::clear')
def m_clear(ev, fr, st, c, args, b, line):
    root, path = ev.deref(args[0])
    ev.store(st, root, path, mk('arr', ()))
    return UNIT


# ------------------------------------------------------------------ iterators
# it(kind, source, extra...)
def itv(kind, *a):
    return mk('it', kind, *a)


@model('core::iter::traits::collect::IntoIterator::into_iter')
def m_into_iter(ev, fr, st, c, args, b, line):
    v = args[0]
    t = c.args[0] if c.args else ''
    if v.op == 'it':
        return v
    if t.startswith('core::ops::range::Range<'):
        return v if v.op == 'adt' else rangeish(ev, v, t)
    if t.startswith('core::ops::range::RangeInclusive<'):
        return itv('rangei', v)
    if t.startswith(('&', 'alloc::vec::Vec', '[', 'alloc::', 'std::collections')):
        if t.startswith('&'):
            return itv('refs', v, t.startswith('&mut'))
        return itv('vals', v)
    if t.startswith(('core::iter', 'core::slice', 'alloc::vec::into_iter', 'std::collections', 'core::str')):
        return v
    if v.op == 'adt' and v.a[0] == ev.P.adt_of(t) and ev.P.resolve_trait('core::iter::traits::iterator::Iterator', 'next', t) is not None:
        return v
    return NotImplemented


@model('core::slice::<impl [T]>::iter', 'core::slice::iter', 'alloc::vec::Vec::iter')
def m_iter(ev, fr, st, c, args, b, line):
    return itv('refs', args[0], False)


@model('core::slice::<impl [T]>::iter_mut', 'core::slice::iter_mut')
def m_iter_mut(ev, fr, st, c, args, b, line):
    return itv('refs', args[0], True)


def adapter(kind):
    def f(ev, fr, st, c, args, b, line):
        return itv(kind, *args)
    return f


for _k in ('enumerate', 'zip', 'rev', 'skip', 'take', 'chain', 'map', 'filter', 'filter_map', 'peekable', 'step_by', 'cloned', 'copied', 'take_while', 'skip_while', 'flat_map', 'flatten', 'inspect', 'fuse', 'map_while'):
    _T['core::iter::traits::iterator::Iterator::' + _k] = adapter(_k)


@model('core::iter::traits::iterator::Iterator::by_ref')
def m_by_ref(ev, fr, st, c, args, b, line):
    return args[0]


def one_by_one(it):
    """the list an iterator goes through with every element made something of"""
    while it.op == 'it' and it.a[0] in ('map', 'cloned', 'copied', 'inspect'):
        it = it.a[1]
    return it if it.op == 'it' and it.a[0] == 'refs' else None


def elem(ev, fr, st, it, b, line, site):
    """Element yielded by iterator value `it` at a next() site. Returns (V, State) or None. Runs closures of map/filter adapters."""
    if it.op == 'ref':
        it = ev.content(st, it)
    g = ev.element(it)
    if g is not None:
        return g, st
    if it.op == 'adt' and it.a[0].endswith('Range'):
        lo, hi = ev.project(it, 'start', st), ev.project(it, 'end', st)
        x = mk('elem', it, site)
        ev.refine(st, le(lo, x), True)
        if not ev.refine(st, lt(x, hi), True):
            return None
        return x, st
    if it.op == 'lphi' and it.a[4] is not None:
        return elem(ev, fr, st, it.a[4], b, line, site)
    if it.op == 'it':
        k = it.a[0]
        if k == 'refs':
            src = it.a[1]
            root, path = ev.deref(src)
            ix = mk('elemix', it, site)
            cont = ev.load(st, root, path)
            if ev.choose is not None and cont.op == 'arr' and cont.a[0]:
                return mk('ref', bool(it.a[2]), root, path + (mk('ix', K(ev.choose(site, len(cont.a[0])))),)), st
            ev.refine(st, le(K(0), ix), True)
            if not ev.refine(st, lt(ix, ev.len(cont)), True):
                return None
            return mk('ref', bool(it.a[2]), root, path + (mk('ix', ix),)), st
        if k == 'vals':
            cont = it.a[1]
            if ev.choose is not None and cont.op == 'arr' and cont.a[0]:
                return cont.a[0][ev.choose(site, len(cont.a[0]))], st
            return mk('elem', it, site), st
        if k == 'rangei':
            rb = range_bounds(ev, it.a[1], None)
            x = mk('elem', it, site)
            if rb:
                ev.refine(st, le(rb[0], x), True)
                if not ev.refine(st, lt(x, rb[1]), True):
                    return None
            return x, st
        if k in ('rev', 'skip', 'peekable', 'step_by', 'fuse', 'take'):
            return elem(ev, fr, st, it.a[1], b, line, site)
        if k in ('cloned', 'copied'):
            r = elem(ev, fr, st, it.a[1], b, line, site)
            return None if r is None else (ev.content(r[1], r[0]) if r[0].op == 'ref' else mk('at', r[0]), r[1])
        if k == 'enumerate':
            r = elem(ev, fr, st, it.a[1], b, line, site)
            if r is None:
                return None
            v, s = r
            n = mk('elemn', it, site)
            if v.op == 'ref' and v.a[2] and isinstance(v.a[2][-1], V) and v.a[2][-1].op == 'ix' and it.a[1].op == 'it' and it.a[1].a[0] == 'refs':
                n = v.a[2][-1].a[0]
            elif one_by_one(it.a[1]) is not None:
                n = mk('elemix', one_by_one(it.a[1]), site)
            else:
                ev.refine(s, le(K(0), n), True)
            return tup(n, v), s
        if k == 'zip':
            r = elem(ev, fr, st, it.a[1], b, line, site)
            if r is None:
                return None
            o = it.a[2]
            if o.op == 'ref' and o.op != 'it':
                o = itv('refs', o, False)
            r2 = elem(ev, fr, r[1], o, b, line, site)
            if r2 is None:
                return None
            return tup(r[0], r2[0]), r2[1]
        if k == 'map':
            r = elem(ev, fr, st, it.a[1], b, line, site)
            if r is None:
                return None
            return ev.apply(fr, r[1], it.a[2], [r[0]], b, line, tag=('it', it.i))
        if k in ('filter', 'take_while', 'skip_while', 'inspect'):
            r = elem(ev, fr, st, it.a[1], b, line, site)
            if r is None:
                return None
            v, s = r
            root = mk('loc', fr.id, ('flt', b, it.i))
            ev.store(s, root, (), v)
            q = ev.apply(fr, s, it.a[2], [mk('ref', False, root, ())], b, line, tag=('it', it.i))
            if q is None:
                return None
            if k in ('filter', 'take_while') and not ev.refine(q[1], q[0], True):
                return None
            return v, q[1]
        if k in ('filter_map', 'map_while'):
            r = elem(ev, fr, st, it.a[1], b, line, site)
            if r is None:
                return None
            q = ev.apply(fr, r[1], it.a[2], [r[0]], b, line, tag=('it', it.i))
            if q is None:
                return None
            if not ev.refine_isv(q[1], q[0], 'Some', True):
                return None
            return ev.simp(q[1], ev.project(q[0], 'Some.0', q[1])), q[1]
        if k == 'flat_map':
            r = elem(ev, fr, st, it.a[1], b, line, site)
            if r is None:
                return None
            q = ev.apply(fr, r[1], it.a[2], [r[0]], b, line, tag=('it', it.i))
            if q is None:
                return None
            return elem(ev, fr, q[1], q[0], b, line, (site, 'f'))
        if k == 'chain':
            s2 = st.copy()
            r1 = elem(ev, fr, st, it.a[1], b, line, (site, 1))
            r2 = elem(ev, fr, s2, it.a[2], b, line, (site, 2))
            if r1 is None:
                return r2
            if r2 is None:
                return r1
            return ev.split2(fr, ('chain', b, it.i), [r1, r2])
    return mk('elem', it, site), st


@model('core::iter::traits::iterator::Iterator::next', 'core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def m_next(ev, fr, st, c, args, b, line):
    p = args[0]
    root, path = ev.deref(p)
    it = ev.load(st, root, path)
    if it.op == 'lphi' and it.a[4] is not None:
        it = it.a[4]
    if it.op == 'ref' :
        it = ev.content(st, it)
    if c.fn is not None:
        return NotImplemented
    site = (fr.id, b)
    ev.iters[site] = it
    note_count(ev, st, it, site)

    def run(s):
        r = elem(ev, fr, s, it, b, line, site)
        if r is None:
            return None
        return some(r[0]), r[1]
    # facts about the previous iteration's element do not survive to this one
    forget(st, site)
    if site in ev.noend:
        return run(st)
    if ev.nonempty and site not in ev.begun:
        ev.begun.add(site)
        ev.forced.add(site)
        return run(st)
    return ev.split(fr, st, ('next', b), [(lambda s: True, run), (lambda s: True, lambda s: NONE)])


def forget(st, site):
    pass


def note_count(ev, st, it, site):
    n = count_of(ev, st, it, site)
    if n is not None:
        ev.itercount[site] = n


def count_of(ev, st, it, site):
    """how many elements an iterator yields in all, where that is known"""
    if it.op == 'adt' and it.a[0].endswith('::Range'):
        d = dict(it.a[2])
        n = sub(d['end'], d['start'])
        return mkphi(('count', site, it.i), [(n, ((le(d['start'], d['end']), True),), None), (K(0), ((le(d['start'], d['end']), False),), None)])
    if it.op == 'it':
        k = it.a[0]
        if k == 'refs' and it.a[1].op == 'ref':
            return ev.len(ev.content(st, it.a[1]))
        if k == 'refs':
            return mk('len', mk('at', it.a[1]))
        if k == 'vals':
            return ev.len(it.a[1])
        if k in ('enumerate', 'map', 'cloned', 'copied', 'inspect', 'rev', 'peekable'):
            return count_of(ev, st, it.a[1], site)
        if k == 'zip':
            o = it.a[2]
            if o.op == 'ref':
                o = itv('refs', o, False)
            a, b = count_of(ev, st, it.a[1], site), count_of(ev, st, o, site)
            if a is None or b is None:
                return None
            return mkphi(('min', site, it.i), [(a, ((le(a, b), True),), None), (b, ((le(a, b), False),), None)])
    if it.op == 'call' and it.a[0].rsplit('::', 1)[-1] in ('chunks', 'chunks_exact') and iskint(it.a[2][1]) and kval(it.a[2][1]) > 0:
        x = it.a[2][0]
        n, k = ev.len(ev.content(st, x)) if x.op == 'ref' else ev.len(x) if x.op == 'slice' else mk('len', mk('at', x)), kval(it.a[2][1])
        return mk('bin', 'Div', add(n, K(k - 1)) if it.a[0].endswith('chunks') else n, K(k))
    return None


def widen(ev, fr, st, key, run):
    """State at the start of an arbitrary iteration of an internal iterator: places the closure changes become loop values."""
    from .ev import LPHI, LFWD
    w = {}
    cur = st
    for _ in range(5):
        cur = st.copy()
        for (root, k), v in w.items():
            ev.store(cur, root, k, v)
        try:
            r = run(cur.copy())
        finally:
            pass
        if r is None:
            return cur
        out = r[1]
        new = False
        for root in st.mem:
            om = out.mem.get(root)
            if not om:
                continue
            for k in list(om):
                if any(rt is root and k[:len(p)] == p for rt, p in w):
                    continue
                if ev.load(out, root, k) is not ev.load(cur, root, k):
                    w[(root, k)] = mk('lphi', fr.id, key, root, k, None)
                    new = True
        for (root, k), v in w.items():
            LFWD[v] = {('in', 0)}
            LPHI[v] = {('in', 0): ev.load(st, root, k), ('back', 0): ev.load(out, root, k)}
        if not new:
            break
    return cur


def consume(kind):
    """Adapters that run a closure over every element: any/all/for_each/find/position/fold..."""
    def f(ev, fr, st, c, args, b, line):
        it = args[0]
        if it.op == 'ref':
            it = ev.content(st, it)
        if it.op not in ('it', 'adt', 'lphi'):
            if c.fn is not None:
                return NotImplemented
        site = (fr.id, b, kind)
        ev.iters[site] = it
        note_count(ev, st, it, site)

        def run(s):
            r = elem(ev, fr, s, it, b, line, site)
            if r is None:
                return None
            v, s = r
            clo = args[-1]
            if kind in ('collect', 'count', 'sum', 'last', 'max', 'min', 'product'):
                return mk('collected', kind, v, site), s
            if kind in ('nth',):
                return some(v), s
            if kind in ('find', 'partition'):
                root = mk('loc', fr.id, ('cns', b))
                ev.store(s, root, (), v)
                q = ev.apply(fr, s, clo, [mk('ref', False, root, ())], b, line, tag=('c', kind))
                if q is None:
                    return None
                if not ev.refine(q[1], q[0], True) and kind == 'find':
                    return None
                return (some(v), q[1]) if kind == 'find' else (mk('collected', kind, v, site), q[1])
            if kind == 'fold':
                q = ev.apply(fr, s, clo, [mk('acc', site), v], b, line, tag=('c', kind))
                return None if q is None else (mk('folded', q[0], site), q[1])
            q = ev.apply(fr, s, clo, [v], b, line, tag=('c', kind))
            if q is None:
                return None
            if kind in ('find_map',):
                if not ev.refine_isv(q[1], q[0], 'Some', True):
                    return None
                return q
            if kind in ('position', 'rposition'):
                ev.refine(q[1], q[0], True)
                n = mk('elemn', it, site)
                ln = None
                src = it
                while src.op == 'it' and src.a[0] in ('rev', 'enumerate', 'map'):
                    src = src.a[1]
                if src.op == 'it' and src.a[0] == 'refs':
                    rr, pp = ev.deref(src.a[1])
                    ev.refine(q[1], lt(n, ev.len(ev.load(q[1], rr, pp))), True)
                    ev.refine(q[1], le(K(0), n), True)
                return some(n), q[1]
            if kind in ('any', 'all'):
                if ev.nonempty and isk(q[0]) and (ev.nonempty != 'some' or q[0].a[1] == (kind == 'any')):
                    return q
                return mk('quant', kind, it, q[0], site), q[1]
            if kind in ('for_each', 'try_for_each'):
                return (UNIT if kind == 'for_each' else q[0]), q[1]
            return mk('collected', kind, q[0], site), q[1]
        st = widen(ev, fr, st, (kind, b), run)
        if kind in ('collect', 'count', 'sum', 'last', 'max', 'min', 'product', 'partition', 'fold'):
            s0 = st.copy()
            r = run(st)
            if r is None:
                return mk('iter0', kind, it, site), s0
            v, s = r
            # effects of zero iterations joined in
            m = ev.split_states(fr, (kind, b), [(v, s), (v, s0)])
            return m
        if kind in ('any', 'all'):
            s0 = st.copy()
            r = run(st)
            if r is None:
                return K(kind == 'all'), s0
            v, s = r
            if ev.nonempty:
                return v, s
            return ev.split_states(fr, (kind, b), [(v, s), (v, s0)])
        if kind == 'for_each':
            return ev.split(fr, st, (kind, b), [(lambda s: True, run), (lambda s: True, lambda s: UNIT)])
        if kind == 'try_for_each':
            return ev.split(fr, st, (kind, b), [(lambda s: True, run), (lambda s: True, lambda s: ok(UNIT))])
        return ev.split(fr, st, (kind, b), [(lambda s: True, run), (lambda s: True, lambda s: NONE)])
    return f


for _k in ('any', 'all', 'for_each', 'find', 'position', 'rposition', 'find_map', 'fold', 'collect', 'count', 'sum', 'last', 'nth', 'partition', 'try_for_each', 'max', 'min', 'product',
           'max_by', 'min_by', 'max_by_key', 'min_by_key'):
    _T['core::iter::traits::iterator::Iterator::' + _k] = consume(_k)


# ------------------------------------------------------------------ closures
@model('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call')
def m_callfn(ev, fr, st, c, args, b, line):
    f = args[0]
    a = args[1]
    if a.op != 'tup':
        return NotImplemented
    g = f
    n = 0
    while g.op == 'ref' and n < 4:
        g = ev.content(st, g)
        n += 1
    if g.op in ('closure', 'fn'):
        return ev.apply(fr, st, g, list(a.a[0]), b, line, tag='callfn')
    return NotImplemented


# the diverging ones
def _div(ev, fr, st, c, args, b, line):
    ev.event(fr, b, st, 'panic', c, args, line)
    return None


for _n in NORETURN:
    _T[_n] = _div
for f in list(_T.values()):
    pass
