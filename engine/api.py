"""Models of individual library functions (registered by resolved or declared path)."""
import models as M
from models import (model, D, It, STOP, Seq, Seg, Map, Ent, get_it, opt, drain_list, list_it, as_seq, length,
                    seq_it, map_it, materialize, keq, canon, vals)
from core import (Agg, B, Fl, FnV, Guard, INF, Infeasible, Lin, Lock, MOVED, Opq, PathEnd, Ref, Sym, U,
                  UNINIT, Unsupported, bconst, lin_add, lin_scale)


def boolv(x):
    return int(bool(x))


def const0(I, C):
    return 0


def opaque(kind):
    def f(I, C):
        return Opq(kind, C.destty)
    return f


# ------------------------------------------------------------- tracing noise
# everything is logged: what is passed to the log is evaluated, too
for n in ('<tracing_core::metadata::Level as core::cmp::PartialOrd<tracing_core::metadata::LevelFilter>>::le',
          'tracing::__macro_support::__is_enabled'):
    D[n] = lambda I, C: 1
D['tracing::span::Span::is_disabled'] = D['tracing_core::subscriber::Interest::is_never'] = const0
for n in ('tracing_core::metadata::LevelFilter::current', 'tracing_core::callsite::DefaultCallsite::interest',
          'tracing_core::subscriber::Interest::never', 'tracing::__macro_support::__disabled_span',
          'tracing::span::Span::new', 'tracing::span::Span::enter', 'tracing_core::metadata::Metadata::<\'a>::fields',
          'tracing_core::field::FieldSet::value_set',
          'tracing_core::field::debug', 'tracing_core::event::Event::<\'a>::dispatch',
          'tracing_core::field::FieldSet::new', 'tracing_core::metadata::Metadata::<\'a>::new'):
    D[n] = opaque('tracing')
D['<tracing_core::callsite::DefaultCallsite as tracing_core::callsite::Callsite>::metadata'] = \
    lambda I, C: Ref([Opq('tracing')])
D['tracing_core::field::FieldSet::iter'] = lambda I, C: M.list_it(lambda I: [Opq('tracing') for _ in range(64)])
D['tracing_core::callsite::Callsite::metadata'] = lambda I, C: Ref([Opq('tracing')])


@model('tracing::instrument::Instrument::instrument')
def _instr(I, C):
    return C.args[0]


# ------------------------------------------------------------- identity-like
def first(I, C):
    return C.args[0]


for n in ('core::pin::Pin::<Ptr>::new_unchecked', 'core::hint::must_use', 'core::convert::identity',
          'core::pin::Pin::<&\'a mut T>::get_unchecked_mut', 'core::pin::Pin::<Ptr>::new',
          'core::pin::Pin::<Ptr>::as_mut', 'core::pin::Pin::<&\'a mut T>::get_mut',
          'alloc::vec::Vec::<T, A>::into_boxed_slice_', 'core::future::into_future::IntoFuture::into_future',
          'core::future::get_context', 'alloc::vec::Vec::<T, A>::as_slice', 'alloc::vec::Vec::<T, A>::as_mut_slice',
          'alloc::string::String::as_str', 'alloc::string::String::as_bytes', 'core::str::<impl str>::as_bytes',
          'alloc::string::String::into_bytes', 'core::str::<impl str>::as_bytes_mut',
          '<str as core::convert::AsRef<[u8]>>::as_ref', 'core::slice::<impl [T]>::as_ref',
          'core::iter::traits::iterator::Iterator::by_ref', 'core::str::converts::from_utf8_unchecked',
          'alloc::string::String::into_boxed_str', 'core::ops::deref::DerefMut::deref_mut_',
          'core::array::<impl core::convert::AsRef<[T]> for [T; N]>::as_ref', 'core::slice::<impl [T]>::as_slice',
          'core::array::<impl [T; N]>::as_slice', 'core::mem::manually_drop::ManuallyDrop::<T>::new',
          'core::mem::ManuallyDrop::<T>::new', 'core::panic::unwind_safe::AssertUnwindSafe'):
    D[n] = first


@model('core::pin::Pin::<Ptr>::as_mut')
def _pinasmut(I, C):
    v = C.args[0]
    if type(v) is Ref and type(v.c[v.i]) is Ref:
        return v.c[v.i]
    return v


@model('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut', 'core::borrow::Borrow::borrow',
       'core::borrow::BorrowMut::borrow_mut', 'core::convert::AsRef::as_ref', 'core::convert::AsMut::as_mut')
def _deref(I, C):
    """smart-pointer / guard dereference"""
    r = C.args[0]
    inst = C.callee.get('i')
    res = C.callee.get('r') or ''
    v = I.dr(r)
    if type(v) is Guard:
        if not v.live:
            raise Unsupported('dead guard')
        return Ref(v.lock.cell, 0)
    if type(v) is Opq and v.kind == 'lazy':
        return Ref(v.a['cell'], 0)
    if type(v) is Opq and v.kind == 'arcswap_guard':
        return Ref(v.a['cell'], 0)
    if inst in I.P.fns:
        return NotImplemented
    if type(v) is Ref:
        return v
    if type(v) in (B, Seq, Map, Agg, int, Lin, float, Fl, It):
        return r
    if type(v) is Opq:
        if 'cell' in v.a:
            return Ref(v.a['cell'], 0)
        t = C.destty.t if C.destty is not None and C.destty.k == 'ref' else None
        cell = v.a.setdefault('dcell', [I.mk(t, (v.a.get('name') or I.S.fresh(v.kind)) + '*') if t else v])
        return Ref(cell, 0)
    return r


@model('core::clone::Clone::clone')
def _clone(I, C):
    res = C.callee.get('r') or ''
    if C.callee.get('i') in I.P.fns:
        return NotImplemented
    v = I.dr(C.args[0])
    if 'rcs::arc::Arc' in res or 'rc::Rc' in res:
        return v
    if 'flume::' in res or type(v) is Opq:
        return v
    if type(v) is Ref:
        t = C.ta(0)
        if t is not None and (t.k == 'ref' or t.p == 'alloc::rcs::arc::Arc'):
            return v
        return Ref([M.clone(I, I.dr(v))])
    return M.clone(I, v)


@model('alloc::boxed::Box::<T>::new', 'alloc::rcs::arc::Arc::<T>::new', 'alloc::rcs::rc::Rc::<T>::new',
       'alloc::boxed::Box::<T>::pin', 'alloc::boxed::Box::<T, A>::pin')
def _boxnew(I, C):
    return Ref([C.args[0]])


@model('alloc::boxed::Box::<T>::new_uninit')
def _boxun(I, C):
    return Ref([UNINIT])


@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def _boxvec(I, C):
    v = C.args[0]
    while type(v) is Ref:
        v = v.c[v.i]
    while type(v) is Agg and v.ty is not None and v.ty.k != 'array' and len(v.f) >= 1 or \
            type(v) is Agg and v.ty is None:
        v = v.f[-1]
        while type(v) is Ref:
            v = v.c[v.i]
    if type(v) is B:
        return v
    return Seq([Ref(v.f, i) for i in range(len(v.f))])


# ------------------------------------------------------------- conversions
def bytes_of(I, v):
    v = I.deref(v)
    v = I.val(v)
    if type(v) is B:
        return v
    if type(v) is Agg and v.ty is not None and v.ty.k == 'array' and all(type(x) is int for x in v.f):
        return bconst(bytes(v.f))
    raise Unsupported('bytes of %r' % (v,))


@model('core::convert::From::from', 'core::convert::Into::into', 'alloc::borrow::ToOwned::to_owned',
       'alloc::slice::<impl [T]>::to_vec', 'alloc::slice::<impl [T]>::into_vec',
       'alloc::vec::Vec::<T, A>::into_boxed_slice')
def _from(I, C):
    inst = C.callee.get('i')
    if inst in I.P.fns:
        return NotImplemented
    res = C.callee.get('r') or ''
    dt = C.destty
    v = C.args[0]
    if dt is None and type(I.val(I.deref(v))) is B and ('to_owned' in res or 'to_vec' in res):
        return I.deref(v)
    if dt is None:
        raise Unsupported('from without type %r' % (C.callee,))
    if dt.p == 'alloc::boxed::Box' and dt.a and dt.a[0].k == 'dyn':
        return Ref([Opq('error', None, v=I.deref(v), src=C.argtys[0] if C.argtys else None)])
    d = I.deref(v)
    d = I.val(d)
    if type(d) is B:
        if dt.p in ('alloc::boxed::Box', 'alloc::rcs::arc::Arc', 'alloc::rcs::rc::Rc') or dt.k == 'ref':
            return Ref([d])
        return d
    if type(d) is Seq:
        own = type(v) is Seq
        s = d if own else M.clone(I, d)
        if dt.p in ('alloc::boxed::Box', 'alloc::rcs::arc::Arc'):
            return Ref([s])
        return s
    if type(d) is Agg and d.ty is not None and d.ty.k == 'array' and dt.p == 'alloc::vec::Vec':
        return as_seq(I, d)
    if dt.p in ('alloc::rcs::arc::Arc', 'alloc::boxed::Box'):
        return v if type(v) is Ref else Ref([v])
    if dt.s in U:
        return v
    if dt.s == 'f64' and type(d) in (int, Lin):
        return I.cast('IntToFloat', d, dt, None)
    raise Unsupported('conversion %s' % res)


@model('alloc::string::ToString::to_string')
def _tostring(I, C):
    v = I.dr(C.args[0])
    return display(I, v)


def display(I, v):
    S = I.S
    n = 0
    while type(v) is Ref:
        v = I.dr(v)
    v = I.val(v)
    if type(v) is B:
        return v
    if type(v) is int:
        return bconst(str(v).encode())
    if type(v) is Lin:
        k = S.const_of(v)
        if k is not None:
            return bconst(str(k).encode())
        nm = 'int(%r)' % (v,)
        S.bclass.setdefault(nm, 'int')
        S.adef.setdefault(nm, ('int', v))
        return B(nm)
    if isinstance(v, float):
        return bconst(repr(v).encode())
    if type(v) is Fl:
        nm = 'fl(%s)' % v.name
        S.bclass.setdefault(nm, 'float')
        S.adef.setdefault(nm, ('fl', v))
        return B(nm)
    if type(v) is Opq and v.kind == 'error':
        if 'v' not in v.a:
            v.a['v'] = B(I.S.fresh('errtext'))
        return display(I, v.a['v'])
    if type(v) is Opq and v.kind == 'fmt':
        return fmt_bytes(I, v)
    if type(v) is Agg and v.ty is not None and v.ty.p == 'alloc::string::String':
        return display(I, v.f[0])
    if type(v) is Agg and v.ty is not None:
        # user Display impl
        k = '<%s as core::fmt::Display>::fmt' % v.ty.s
        for key in I.P.fns:
            if key == k or key.startswith('<%s' % v.ty.p) and key.endswith(' as core::fmt::Display>::fmt'):
                buf = Opq('formatter', out=[])
                try:
                    I.call_key(key, [Ref([v]), Ref([buf])])
                    out = []
                    for b in buf.a['out']:
                        out.extend(b.p)
                    return S.bnorm(B(*out))
                except Unsupported:
                    break
    nm = S.fresh('text')
    return B(nm)


# ------------------------------------------------------------- fmt
@model('core::fmt::rt::Argument::<\'_>::new_display', 'core::fmt::rt::Argument::<\'_>::new_debug')
def _fmtarg(I, C):
    return Opq('fmtarg', v=C.args[0], dbg='debug' in C.callee['r'])


@model('core::fmt::Arguments::<\'a>::from_str', 'core::fmt::Arguments::<\'a>::from_str_nonconst')
def _argstr(I, C):
    return Opq('fmt', lit=bytes_of(I, C.args[0]))


@model('core::fmt::Arguments::<\'a>::new')
def _argnew(I, C):
    return Opq('fmt', tpl=I.deref(C.args[0]), args=I.deref(C.args[1]))


def fmt_bytes(I, v):
    S = I.S
    if 'lit' in v.a:
        return v.a['lit']
    t = S.bknown(v.a['tpl']) if type(v.a['tpl']) is B else None
    args = [a.c[a.i] for a in as_seq(I, v.a['args']).segs]
    out = []
    if t is None:
        return B(S.fresh('fmt'))
    i = 0
    n = 0
    ok = True
    while i < len(t):
        b = t[i]
        if b == 0:
            break
        if b < 0x80:
            out.append(t[i + 1:i + 1 + b])
            i += 1 + b
        elif b == 0xC0:
            if n < len(args) and not args[n].a.get('dbg'):
                out.extend(display(I, args[n].a['v']).p)
            else:
                out.append(S.fresh('dbg'))
            n += 1
            i += 1
        elif b == 0x80:
            ln = t[i + 1] | t[i + 2] << 8
            out.append(t[i + 3:i + 3 + ln])
            i += 3 + ln
        else:
            ok = False
            break
    if not ok:
        return B(S.fresh('fmt'))
    return S.bnorm(B(*out))


@model('alloc::fmt::format', 'alloc::fmt::format::format_inner')
def _format(I, C):
    return fmt_bytes(I, C.args[0])


@model('core::fmt::Formatter::<\'a>::write_str')
def _fws(I, C):
    f = I.deref(C.args[0])
    if type(f) is Opq and f.kind == 'formatter':
        f.a['out'].append(bytes_of(I, C.args[1]))
    return I.ok(I.unit())


@model('core::fmt::Formatter::<\'a>::write_fmt')
def _fwf(I, C):
    f = I.deref(C.args[0])
    if type(f) is Opq and f.kind == 'formatter':
        f.a['out'].append(fmt_bytes(I, C.args[1]))
    return I.ok(I.unit())


@model('core::fmt::Display::fmt')
def _dispfmt(I, C):
    if C.callee.get('i') in I.P.fns:
        return NotImplemented
    f = I.deref(C.args[1])
    if type(f) is Opq and f.kind == 'formatter':
        f.a['out'].append(display(I, C.args[0]))
    return I.ok(I.unit())


# ------------------------------------------------------------- panics
@model('core::panicking::panic_fmt', 'core::panicking::panic', 'core::option::unwrap_failed',
       'core::option::expect_failed', 'core::result::unwrap_failed', 'core::result::unwrap_failed::unwrap_failed_inner',
       'core::panicking::assert_failed', 'core::panicking::unreachable_display', 'std::panicking::begin_panic',
       'core::panicking::panic_display', 'core::panicking::panic_bounds_check', 'core::panicking::panic_explicit',
       'core::slice::index::slice_index_fail', 'core::str::slice_error_fail')
def _panic(I, C):
    S = I.S
    raise PathEnd('panic', C.callee.get('r') or C.callee.get('d'), S.site(), tuple(s[0] for s in S.stack))


@model('std::process::exit', 'std::process::abort')
def _exit(I, C):
    S = I.S
    S.log('exit', code=C.args[0] if C.args else None)
    raise PathEnd('exit', 'process exit', S.site(), tuple(s[0] for s in S.stack))


@model('core::mem::drop')
def _memdrop(I, C):
    t = C.ta(0)
    c = [C.args[0]]
    I.drop(c, 0, t)
    return I.unit()


@model('core::mem::forget')
def _forget(I, C):
    return I.unit()


@model('core::mem::take')
def _take(I, C):
    r = C.args[0]
    v = r.c[r.i]
    t = C.ta(0)
    if C.callee.get('i') in I.P.fns and t.k == 'adt' and t.p not in CONTAINERS:
        return NotImplemented
    r.c[r.i] = default_of(I, t)
    return v


@model('core::mem::replace')
def _replace(I, C):
    r = C.args[0]
    v = r.c[r.i]
    r.c[r.i] = C.args[1]
    return v


@model('core::mem::swap')
def _swap(I, C):
    a, b = C.args
    a.c[a.i], b.c[b.i] = b.c[b.i], a.c[a.i]
    return I.unit()


CONTAINERS = {'alloc::vec::Vec', 'alloc::string::String', 'alloc::collections::vec_deque::VecDeque',
              'std::collections::hash::map::HashMap', 'std::collections::hash::set::HashSet',
              'alloc::collections::btree::set::BTreeSet', 'alloc::collections::btree::map::BTreeMap',
              'alloc::boxed::Box', 'core::option::Option'}


def default_of(I, t):
    if t.k == 'prim':
        if t.s in ('f64', 'f32'):
            return 0.0
        return 0
    if t.p in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque'):
        if t.a[0].s == 'u8' and t.p == 'alloc::vec::Vec':
            return bconst(b'')
        return Seq([])
    if t.p == 'alloc::string::String':
        return bconst(b'')
    if t.p in ('std::collections::hash::map::HashMap', 'std::collections::hash::set::HashSet',
               'alloc::collections::btree::set::BTreeSet', 'alloc::collections::btree::map::BTreeMap'):
        return M.empty_map(I, t)
    if t.p == 'core::option::Option':
        return I.none(t)
    if t.p in ('alloc::boxed::Box', 'alloc::rcs::arc::Arc'):
        return Ref([default_of(I, t.a[0])])
    if t.k == 'tuple':
        return Agg(t, 0, [default_of(I, x) for x in t.a])
    k = '<%s as core::default::Default>::default' % t.s
    if k in I.P.fns:
        return I.call_key(k, [])
    if t.p == 'ahash::random_state::RandomState':
        return Opq('rs', t)
    raise Unsupported('default of ' + t.s)


@model('core::default::Default::default')
def _default(I, C):
    if C.callee.get('i') in I.P.fns:
        return NotImplemented
    return default_of(I, C.destty)


# ------------------------------------------------------------- strings / bytes
@model('core::str::<impl str>::len', 'core::slice::<impl [T]>::len', 'alloc::vec::Vec::<T, A>::len',
       'alloc::string::String::len', 'alloc::collections::vec_deque::VecDeque::<T, A>::len',
       'alloc::collections::btree::set::BTreeSet::<T, A>::len', 'std::collections::hash::map::HashMap::<K, V, S, A>::len',
       'std::collections::hash::set::HashSet::<T, S, A>::len', 'alloc::collections::btree::map::BTreeMap::<K, V, A>::len')
def _len(I, C):
    return length(I, I.deref(C.args[0]))


@model('core::iter::traits::exact_size::ExactSizeIterator::len')
def _itlen(I, C):
    return get_it(I, C.args[0]).length(I)


@model('core::str::<impl str>::is_empty', 'core::slice::<impl [T]>::is_empty', 'alloc::vec::Vec::<T, A>::is_empty',
       'alloc::string::String::is_empty', 'alloc::collections::vec_deque::VecDeque::<T, A>::is_empty',
       'alloc::collections::btree::set::BTreeSet::<T, A>::is_empty',
       'std::collections::hash::map::HashMap::<K, V, S, A>::is_empty',
       'std::collections::hash::set::HashSet::<T, S, A>::is_empty')
def _isempty(I, C):
    return int(I.S.eq0(length(I, I.deref(C.args[0]))))


@model('alloc::str::<impl str>::to_lowercase', 'core::str::<impl str>::to_ascii_lowercase',
       'alloc::str::<impl str>::to_ascii_lowercase', 'alloc::slice::<impl [u8]>::to_ascii_lowercase')
def _lower(I, C):
    return I.S.blower(bytes_of(I, C.args[0]))


@model('alloc::str::<impl str>::to_uppercase', 'alloc::str::<impl str>::to_ascii_uppercase',
       'alloc::slice::<impl [u8]>::to_ascii_uppercase')
def _upper(I, C):
    b = I.S.bnorm(bytes_of(I, C.args[0]))
    return B(*[p.upper() if type(p) is bytes else (p if I.S.bclass.get(p) == 'int' else 'upper(%s)' % p) for p in b.p])


@model('core::str::<impl str>::eq_ignore_ascii_case', 'core::slice::ascii::<impl [u8]>::eq_ignore_ascii_case')
def _eqic(I, C):
    a, b = I.S.blower(bytes_of(I, C.args[0])), I.S.blower(bytes_of(I, C.args[1]))
    return int(I.S.beq(a, b))


@model('core::str::converts::from_utf8', 'alloc::string::String::from_utf8', 'core::str::<impl str>::from_utf8')
def _utf8(I, C):
    S = I.S
    b = S.bnorm(bytes_of(I, C.args[0]))
    for p in b.p:
        if type(p) is bytes:
            try:
                p.decode('utf-8')
            except UnicodeDecodeError:
                return I.err(Opq('utf8err'), C.destty)
        elif S.bclass.get(p) not in ('int', 'float', 'word'):
            k = ('utf8', p)
            if k not in S.memo:
                S.memo[k] = S.fork('utf8') if S.limits.get('utf8fork') else True
            if not S.memo[k]:
                return I.err(Opq('utf8err'), C.destty)
    return I.ok(Ref([b]) if 'String' not in C.callee['r'] else b, C.destty)


def parse_int(I, b, lo, hi, prefix=False):
    """abstract decimal parse: (ok, value)"""
    S = I.S
    b = S.bnorm(b)
    k = S.bknown(b)
    if k is not None:
        s = k
        if prefix:
            import re
            m = re.match(rb'[+-]?[0-9]+', s)
            if not m:
                return False, None
            v = int(m.group(0))
        else:
            try:
                if not s or s.strip() != s or b'_' in s:
                    return False, None
                v = int(s)
            except ValueError:
                return False, None
        return (lo <= v <= hi), v
    if len(b.p) == 1:
        d = S.adef.get(b.p[0])
        if d and d[0] == 'int':
            v = d[1]
            return S.fits(v, lo, hi), v
        cls = S.bclass.get(b.p[0])
        if cls == 'int':
            v = S.atom('num(%s)' % b.p[0], -2**63, 2**63 - 1, ('num', b))
            return S.fits(v, lo, hi), v
        if cls in ('word', 'notint'):
            return False, None
    key = ('pint', b.p)
    if key not in S.memo:
        S.memo[key] = S.choose(2, 'int?')
        if S.memo[key] == 0 and len(b.p) == 1 and not S.bclass.get(b.p[0]):
            S.bclass[b.p[0]] = 'int'
            for kk in list(S.bneq):
                pass
        elif S.memo[key] == 1 and len(b.p) == 1 and not S.bclass.get(b.p[0]):
            S.bclass[b.p[0]] = 'notint'
    if S.memo[key] == 1:
        if prefix:
            # a non-number may still have a numeric prefix
            k2 = ('pintprefix', b.p)
            if k2 not in S.memo:
                S.memo[k2] = S.choose(2, 'prefix?')
            if S.memo[k2] == 1:
                v = S.atom('prefixnum(%s)' % ','.join(map(str, b.p)), lo, hi, ('prefixnum', b))
                S.log('prefix_parse', b=b)
                return True, v
        return False, None
    v = S.atom('num(%s)' % ','.join(map(str, b.p)), -2**63, 2**63 - 1, ('num', b))
    return S.fits(v, lo, hi), v


@model('atoi::atoi')
def _atoi(I, C):
    t = C.destty.a[0]
    lo, hi = U[t.s]
    ok, v = parse_int(I, bytes_of(I, C.args[0]), lo, hi, prefix=True)
    return I.some(v, C.destty) if ok else I.none(C.destty)


def parse_float(I, b):
    S = I.S
    b = S.bnorm(b)
    k = S.bknown(b)
    if k is not None:
        try:
            t = k.decode()
            if t.strip() != t or '_' in t or not t:
                return False, None
            return True, float(t)
        except (ValueError, UnicodeDecodeError):
            return False, None
    if len(b.p) == 1:
        d = S.adef.get(b.p[0])
        if d and d[0] == 'fl':
            return True, d[1]
        cls = S.bclass.get(b.p[0])
        if cls in ('float', 'int'):
            v = Fl('fnum(%s)' % b.p[0])
            if cls == 'int':
                S.frel.setdefault((v.name, v.name), {'eq'})
            return True, v
        if cls == 'word':
            return False, None
    key = ('pfloat', b.p)
    if key not in S.memo:
        S.memo[key] = S.choose(2, 'float?')
        if len(b.p) == 1 and not S.bclass.get(b.p[0]) and S.memo[key] == 0:
            S.bclass[b.p[0]] = 'float'
    if S.memo[key] == 1:
        return False, None
    return True, Fl('fnum(%s)' % ','.join(map(str, b.p)))


@model('core::str::<impl str>::parse')
def _parse(I, C):
    t = C.ta(0)
    b = bytes_of(I, C.args[0])
    if t.s in U and t.s not in ('bool', 'char'):
        lo, hi = U[t.s]
        ok, v = parse_int(I, b, lo, hi)
        return I.ok(v, C.destty) if ok else I.err(Opq('error', None, v=bconst(b'invalid digit')), C.destty)
    if t.s in ('f64', 'f32'):
        ok, v = parse_float(I, b)
        return I.ok(v, C.destty) if ok else I.err(Opq('error', None, v=bconst(b'invalid float')), C.destty)
    S = I.S
    if S.fork('parse'):
        return I.ok(I.mk(t, S.fresh('parsed')), C.destty)
    return I.err(Opq('error', None, v=bconst(b'parse')), C.destty)


@model('core::str::<impl str>::strip_prefix', 'core::slice::<impl [T]>::strip_prefix')
def _strip(I, C):
    S = I.S
    b = S.bnorm(bytes_of(I, C.args[0]))
    p = I.deref(C.args[1])
    if type(p) is int:
        p = bconst(chr(p).encode())
    pk = S.bknown(I.val(p)) if type(p) is B else None
    if pk is None:
        raise Unsupported('strip_prefix')
    if starts_with(I, b, pk):
        n = len(pk)
        rest = M.slice_of(I, b, n, S.blen(b))
        return I.some(Ref([rest]), C.destty)
    return I.none(C.destty)


def starts_with(I, b, pk):
    S = I.S
    k = S.bknown(b)
    if k is not None:
        return k.startswith(pk)
    if b.p and type(b.p[0]) is bytes:
        n = min(len(pk), len(b.p[0]))
        if b.p[0][:n] != pk[:n]:
            return False
        if n == len(pk):
            return True
        raise Unsupported('starts_with')
    if not b.p:
        return False
    cls = S.bclass.get(b.p[0])
    if cls == 'word' and not pk[:1].isalpha():
        return False
    key = ('starts', b.p, pk)
    if key not in S.memo:
        r = S.fork('starts_with')
        S.memo[key] = r
        if r:
            n = S.blen(b)
            S.assume_range(lin_add(n, -len(pk)), 0, INF)
            if len(b.p) == 1:
                rest = 'after(%s,%r)' % (b.p[0], pk)
                S.assume_range(lin_add(lin_add(S.symlen(rest), len(pk)), n, -1), 0, 0)
                S.bsub[b.p[0]] = B(pk, rest)
                S.adef[rest] = ('after', b, pk)
    return S.memo[key]


@model('core::str::<impl str>::starts_with', 'core::slice::<impl [T]>::starts_with')
def _starts(I, C):
    S = I.S
    b = S.bnorm(bytes_of(I, C.args[0]))
    p = I.deref(C.args[1])
    if type(p) is int:
        p = bconst(chr(p).encode())
    pk = S.bknown(I.val(p)) if type(p) is B else None
    if pk is None:
        raise Unsupported('starts_with')
    return int(starts_with(I, b, pk))


@model('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def _index(I, C):
    if C.callee.get('i') in I.P.fns:
        return NotImplemented
    S = I.S
    v = I.deref(C.args[0])
    v = I.val(v)
    ix = C.args[1]
    ixv = I.dr(ix) if type(ix) is Ref else I.val(ix)
    if type(v) is Map:
        e = v.lookup(I, canon(I, ix))
        if e.cell is None:
            M.bounds_panic(I, 'missing map key')
        return Ref(e.cell)
    if type(ixv) in (int, Lin):
        c, i = M.index_slot(I, v, ixv)
        return Ref(c, i)
    n = length(I, v)
    isstr = C.argtys and C.argtys[0].t is not None and C.argtys[0].t.s in ('str', 'alloc::string::String')
    lo, hi = M.range_of(I, ixv, n)
    if isstr and type(v) is B and S.bknown(v) is None:
        for x in (lo, hi):
            if type(x) is int and x == 0 or S.ent_eq(x, n) is True:
                continue
            if not char_boundary(I, v, x):
                M.bounds_panic(I, 'str slice not on a char boundary')
    return Ref([M.slice_of(I, v, lo, hi)])


def char_boundary(I, v, x):
    S = I.S
    v = S.bnorm(v)
    if type(x) is int:
        pos = 0
        for p in v.p:
            if type(p) is bytes:
                if x <= pos + len(p):
                    return x == pos + len(p) or (p[x - pos] & 0xC0) != 0x80
                pos += len(p)
            elif S.bclass.get(p) in ('int', 'float', 'word'):
                return True
            else:
                if x == pos:
                    return True
                break
    key = ('cb', v.p, repr(x))
    if key not in S.memo:
        S.memo[key] = S.fork('char boundary')
    return S.memo[key]


@model('core::str::<impl str>::get', 'core::slice::<impl [T]>::get')
def _get(I, C):
    S = I.S
    v = I.val(I.deref(C.args[0]))
    ixv = I.dr(C.args[1]) if type(C.args[1]) is Ref else I.val(C.args[1])
    n = length(I, v)
    if type(ixv) in (int, Lin):
        if not S.ge0(lin_add(lin_add(n, ixv, -1), -1)):
            return I.none(C.destty)
        c, i = M.index_slot(I, v, ixv)
        return I.some(Ref(c, i), C.destty)
    try:
        lo, hi = M.range_of(I, ixv, n)
    except PathEnd as e:
        if e.kind == 'panic':
            return I.none(C.destty)
        raise
    return I.some(Ref([M.slice_of(I, v, lo, hi)]), C.destty)


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::first_mut',
       'core::slice::<impl [T]>::last_mut', 'alloc::collections::vec_deque::VecDeque::<T, A>::front',
       'alloc::collections::vec_deque::VecDeque::<T, A>::back')
def _firstlast(I, C):
    v = I.deref(C.args[0])
    n = length(I, v)
    if I.S.eq0(n):
        return I.none(C.destty)
    r = C.callee['r']
    fr = '::first' in r or '::front' in r
    c, i = M.index_slot(I, v, 0 if fr else lin_add(n, -1))
    return I.some(Ref(c, i), C.destty)


@model('core::slice::<impl [T]>::split_at', 'core::str::<impl str>::split_at')
def _splitat(I, C):
    v = I.deref(C.args[0])
    n = length(I, v)
    k = C.args[1]
    if not I.S.ge0(lin_add(n, k, -1)):
        M.bounds_panic(I, 'mid > len')
    return Agg(C.destty, 0, [Ref([M.slice_of(I, v, 0, k)]), Ref([M.slice_of(I, v, k, n)])])


# ------------------------------------------------------------- equality / order
def is_prog(I, C):
    f = I.P.fns.get(C.callee.get('i'))
    return f is not None and f['local']


@model('core::intrinsics::integer_min', 'core::intrinsics::integer_max')
def _imin(I, C):
    a, b = C.args
    o = I.S.cmp3(a, b)
    mx = 'max' in C.callee['r']
    return (b if o <= 0 else a) if mx else (a if o <= 0 else b)


@model('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def _eq(I, C):
    if is_prog(I, C):
        # program code (derived impls): interpret, except containers
        return NotImplemented
    r = keq(I, C.args[0], C.args[1])
    if (C.callee.get('d') or '').endswith('::ne'):
        r = not r
    return int(r)


@model('core::cmp::Ord::cmp', 'core::cmp::PartialOrd::partial_cmp')
def _cmp(I, C):
    if is_prog(I, C):
        return NotImplemented
    a, b = canon(I, C.args[0]), canon(I, C.args[1])
    part = C.callee['d'].endswith('partial_cmp')
    o = cmp_vals(I, a, b)
    if part:
        return I.none(C.destty) if o is None else I.some(I.order(o), C.destty)
    if o is None:
        raise Unsupported('cmp')
    return I.order(o)


def cmp_vals(I, a, b):
    S = I.S
    if type(a) in (int, Lin) and type(b) in (int, Lin):
        return S.cmp3(a, b)
    if isinstance(a, (float, Fl)) and isinstance(b, (float, Fl)):
        if S.ftest(a, b, {'un'}):
            return None
        if S.ftest(a, b, {'eq'}):
            return 0
        return -1 if S.ftest(a, b, {'lt'}) else 1
    if type(a) is B and type(b) is B:
        ka, kb = S.bknown(a), S.bknown(b)
        if ka is not None and kb is not None:
            return (ka > kb) - (ka < kb)
        if S.beq(a, b):
            return 0
        x, y = S.bnorm(a).p, S.bnorm(b).p
        key = ('blt',) + ((x, y) if repr(x) <= repr(y) else (y, x))
        if key not in S.memo:
            d = S.bless(B(*key[1]), B(*key[2]))
            S.memo[key] = S.fork('bytes order') if d is None else d
        lt = S.memo[key]
        if repr(x) > repr(y):
            lt = not lt
        return -1 if lt else 1
    if type(a) is Opq and a.kind == 'dur' and type(b) is Opq and b.kind == 'dur':
        return S.cmp3(a.a['ms'], b.a['ms'])
    if type(a) is Agg and type(b) is Agg:
        if a.vi != b.vi:
            return (a.vi > b.vi) - (a.vi < b.vi)
        for x, y in zip(a.f, b.f):
            o = cmp_vals(I, canon(I, x), canon(I, y))
            if o != 0:
                return o
        return 0
    raise Unsupported('cmp %r %r' % (a, b))


@model('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge')
def _plt(I, C):
    if is_prog(I, C):
        return NotImplemented
    o = cmp_vals(I, canon(I, C.args[0]), canon(I, C.args[1]))
    op = C.callee['d'][-2:]
    return int(o is not None and {'lt': o < 0, 'le': o <= 0, 'gt': o > 0, 'ge': o >= 0}[op])


@model('core::cmp::Ord::max', 'core::cmp::max', 'core::cmp::Ord::min', 'core::cmp::min')
def _maxmin(I, C):
    a, b = C.args
    if type(a) not in (int, Lin) or type(b) not in (int, Lin):
        return NotImplemented
    o = I.S.cmp3(a, b)
    mx = 'max' in C.callee['d']
    return (b if o <= 0 else a) if mx else (a if o <= 0 else b)


# ------------------------------------------------------------- ints
def intop(name):
    def f(I, C):
        S = I.S
        t = C.argtys[0] if C.argtys else C.destty
        if t.s not in U:
            return NotImplemented
        lo, hi = U[t.s]
        a = C.args[0]
        b = C.args[1] if len(C.args) > 1 else None
        kind, op = name.split('_', 1) if '_' in name else ('', name)
        if op in ('add', 'sub', 'mul'):
            if op == 'add':
                r = lin_add(a, b)
            elif op == 'sub':
                r = lin_add(a, b, -1)
            elif type(a) is int:
                r = lin_scale(b, a)
            elif type(b) is int:
                r = lin_scale(a, b)
            else:
                return NotImplemented
        elif op == 'neg':
            r = lin_scale(a, -1)
        elif op == 'abs':
            r = a if S.ge0(a) else lin_scale(a, -1)
        else:
            return NotImplemented
        ok = S.fits(r, lo, hi)
        if kind == 'checked':
            return I.some(r, C.destty) if ok else I.none(C.destty)
        if ok:
            return Agg(C.destty, 0, [r, 0]) if kind == 'overflowing' else r
        if kind == 'saturating':
            return hi if S.bounds(r)[1] > hi else lo
        m = hi - lo + 1
        l, h = S.bounds(r)
        w = lin_add(r, -m) if l > hi and h <= hi + m else lin_add(r, m) if h < lo and l >= lo - m else \
            S.opatom('wrap', (r,), lo, hi)
        if kind == 'overflowing':
            return Agg(C.destty, 0, [w, 1])
        if kind == 'wrapping':
            return w
        raise PathEnd('panic', 'overflow ' + op, S.site(), tuple(s[0] for s in S.stack))
    return f


for t in U:
    if t in ('bool', 'char'):
        continue
    for k in ('checked', 'wrapping', 'saturating', 'overflowing'):
        for o in ('add', 'sub', 'mul', 'neg', 'abs'):
            D['core::num::<impl %s>::%s_%s' % (t, k, o)] = intop('%s_%s' % (k, o))
    D['core::num::<impl %s>::abs' % t] = intop('abs')


@model('core::num::<impl i64>::unsigned_abs')
def _uabs(I, C):
    a = C.args[0]
    return a if I.S.ge0(a) else lin_scale(a, -1)


@model('core::convert::TryFrom::try_from', 'core::convert::TryInto::try_into')
def _tryfrom(I, C):
    if C.callee.get('i') in I.P.fns:
        return NotImplemented
    dt = C.destty
    t = dt.a[0] if dt is not None and dt.a else None
    if t is not None and t.s in U and type(C.args[0]) in (int, Lin):
        lo, hi = U[t.s]
        if I.S.fits(C.args[0], lo, hi):
            return I.ok(C.args[0], dt)
        return I.err(Opq('error', None, v=bconst(b'out of range integral type conversion attempted')), dt)
    return NotImplemented


@model('core::f64::<impl f64>::is_nan', 'std::f64::<impl f64>::is_nan')
def _isnan(I, C):
    return int(not I.S.ftest(C.args[0], C.args[0], {'eq'}))


# ------------------------------------------------------------- Vec / VecDeque
@model('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity',
       'alloc::collections::vec_deque::VecDeque::<T>::new', 'alloc::collections::vec_deque::VecDeque::<T>::with_capacity',
       'alloc::string::String::new', 'alloc::string::String::with_capacity')
def _vecnew(I, C):
    if C.args and 'with_capacity' in C.callee['r']:
        I.S.log('alloc', n=C.args[0])
        room(I, C.args[0], C.ta(0) if C.callee['r'].startswith(('alloc::vec', 'alloc::coll')) else None)
    return default_of(I, C.destty)


SIZES = {'u8': 1, 'i8': 1, 'bool': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f32': 4, 'char': 4, 'u64': 8, 'i64': 8, 'f64': 8,
         'usize': 8, 'isize': 8, 'u128': 16, 'i128': 16}


def least(t, n=0):
    """a size no value of the type is smaller than"""
    if t is None or n > 4:
        return 0
    if t.k == 'prim':
        return SIZES.get(t.s, 0)
    if t.k == 'ref':
        return 8
    if t.k == 'adt' and t.v:
        return max(sum(least(f[1], n + 1) for f in v[2]) for v in t.v)
    if t.k == 'tuple':
        return sum(least(x, n + 1) for x in t.a)
    return 8 if t.p.startswith(('alloc::', 'std::collections')) else 0


def room(I, n, t):
    """reserving room for a number of elements a request names, more than any address space has: the allocation cannot be had"""
    S = I.S
    if type(n) is int:
        if n * max(least(t), 1) > 1 << 47:
            raise PathEnd('panic', 'room for more elements than any memory holds', S.site(), tuple(s[0] for s in S.stack))
        return
    if type(n) is not Lin or len(n.t) != 1 or n.t[0][1] < 1 or not str(n.t[0][0]).startswith('num('):
        return
    a = n.t[0][0]
    for key, f in S.facts.items():
        # bounded by something that is in memory already
        if type(key) is tuple and len(key) > 1 and type(f) is tuple:
            co = [c for x, c in key if x == a]
            if co and (f[1] < INF if co[0] > 0 else f[0] > -INF):
                return
    top = (1 << 47) // max(least(t), 1)
    if not S.ge0(lin_add(top, n, -1)):
        raise PathEnd('panic', 'room for more elements than any memory holds', S.site(), tuple(s[0] for s in S.stack))


@model('alloc::vec::from_elem')
def _fromelem(I, C):
    n = C.args[1]
    I.S.log('alloc', n=n)
    if type(n) is int and n < 4096:
        t = C.ta(0)
        if t.s == 'u8' and type(C.args[0]) is int:
            return bconst(bytes([C.args[0]]) * n)
        return Seq([Ref([M.clone(I, C.args[0])]) for _ in range(n)])
    t = C.ta(0)
    if t.s == 'u8':
        nm = I.S.fresh('buf')
        I.S.assume_range(lin_add(I.S.symlen(nm), n, -1), 0, 0)
        return B(nm)
    raise Unsupported('from_elem')


@model('alloc::vec::Vec::<T, A>::push', 'alloc::collections::vec_deque::VecDeque::<T, A>::push_back')
def _push(I, C):
    r = C.args[0]
    v = I.dr(r)
    while type(v) is Ref:
        r = v
        v = I.dr(r)
    if type(v) is B:
        x = C.args[1]
        if type(x) is int:
            r.c[r.i] = I.S.bnorm(B(*(v.p + (bytes([x]),))))
        else:
            nm = 'chr(%r)' % (x,)
            I.S.arange.setdefault('len(%s)' % nm, (1, 1))
            r.c[r.i] = B(*(v.p + (nm,)))
        return I.unit()
    v.segs.append(Ref([C.args[1]]))
    return I.unit()


@model('alloc::collections::vec_deque::VecDeque::<T, A>::push_front')
def _pushf(I, C):
    I.deref(C.args[0]).segs.insert(0, Ref([C.args[1]]))
    return I.unit()


@model('alloc::collections::vec_deque::VecDeque::<T, A>::pop_front',
       'alloc::collections::vec_deque::VecDeque::<T, A>::pop_back', 'alloc::vec::Vec::<T, A>::pop')
def _pop(I, C):
    v = I.deref(C.args[0])
    x = M.pop_at(I, v, 'pop_front' in C.callee['r'])
    return I.none(C.destty) if x is None else I.some(x, C.destty)


@model('alloc::vec::Vec::<T, A>::extend_from_slice', 'alloc::string::String::push_str')
def _extslice(I, C):
    r = C.args[0]
    v = I.dr(r)
    while type(v) is Ref:
        r = v
        v = I.dr(r)
    o = I.deref(C.args[1])
    if type(v) is B:
        o = bytes_of(I, o)
        r.c[r.i] = I.S.bnorm(B(*(v.p + o.p)))
        return I.unit()
    v.segs.extend(M.clone(I, as_seq(I, o)).segs)
    return I.unit()


@model('core::iter::traits::collect::Extend::extend')
def _extend(I, C):
    r = C.args[0]
    v = I.dr(r)
    it = get_it(I, C.args[1])
    if type(v) is B and getattr(it, 'bytes', None) is not None:
        r.c[r.i] = I.S.bnorm(B(*(v.p + mapped_bytes(I, it).p)))
        return I.unit()
    if type(v) is B:
        it2 = drain_list(I, it)
        for x in it2:
            x = I.deref(x)
            r.c[r.i] = I.S.bnorm(B(*(r.c[r.i].p + (bytes([x]),))))
        return I.unit()
    for x in drain_list(I, it):
        if type(v) is Map:
            map_ins(I, v, x)
        else:
            v.segs.append(Ref([x]))
    return I.unit()


def map_ins(I, m, x):
    if m.kind == 'hash':
        x = I.val(x)
        m.insert(I, canon(I, x.f[0]), x.f[1])
    else:
        e, old = m.insert(I, canon(I, x), canon(I, x))


@model('alloc::vec::Vec::<T, A>::append', 'alloc::collections::vec_deque::VecDeque::<T, A>::append')
def _append(I, C):
    a, b = I.deref(C.args[0]), I.deref(C.args[1])
    a.segs.extend(b.segs)
    b.segs = []
    return I.unit()


@model('alloc::vec::Vec::<T, A>::clear', 'alloc::collections::vec_deque::VecDeque::<T, A>::clear',
       'std::collections::hash::map::HashMap::<K, V, S, A>::clear', 'alloc::collections::btree::set::BTreeSet::<T, A>::clear',
       'std::collections::hash::set::HashSet::<T, S, A>::clear', 'alloc::string::String::clear')
def _clear(I, C):
    r = C.args[0]
    v = I.dr(r)
    if type(v) is B:
        r.c[r.i] = bconst(b'')
    elif type(v) is Seq:
        v.segs[:] = []
    else:
        v.ents[:] = []
        v.base, v.len0, v.replaced = 'empty', 0, True
    return I.unit()


@model('alloc::vec::Vec::<T, A>::truncate', 'alloc::collections::vec_deque::VecDeque::<T, A>::truncate')
def _trunc(I, C):
    v = I.deref(C.args[0])
    n = length(I, v)
    if I.S.ge0(lin_add(C.args[1], n, -1)):
        return I.unit()
    k = M.seq_split(I, v, C.args[1])
    del v.segs[k:]
    return I.unit()


@model('alloc::collections::vec_deque::VecDeque::<T, A>::drain', 'alloc::vec::Vec::<T, A>::drain')
def _drain(I, C):
    v = I.deref(C.args[0])
    n = length(I, v)
    lo, hi = M.range_of(I, C.args[1], n)
    a = M.seq_split(I, v, lo)
    b = M.seq_split(I, v, hi)
    # splitting at hi may shift lo
    out = v.segs[a:b]
    del v.segs[a:b]
    M.simplify(I, v)
    return seq_it(I, Seq(out), True)


@model('alloc::collections::vec_deque::VecDeque::<T, A>::range', 'alloc::collections::vec_deque::VecDeque::<T, A>::range_mut')
def _dqrange(I, C):
    v = I.deref(C.args[0])
    n = length(I, v)
    lo, hi = M.range_of(I, C.args[1], n)
    a = M.seq_split(I, v, lo)
    b = M.seq_split(I, v, hi)
    return seq_it(I, Seq(v.segs[a:b]), False)


@model('alloc::vec::Vec::<T, A>::remove', 'alloc::vec::Vec::<T, A>::swap_remove',
       'alloc::collections::vec_deque::VecDeque::<T, A>::remove')
def _vrem(I, C):
    v = I.deref(C.args[0])
    dq = 'VecDeque' in C.callee['r']
    n = length(I, v)
    i = C.args[1]
    if not I.S.ge0(lin_add(lin_add(n, i, -1), -1)):
        if dq:
            return I.none(C.destty)
        M.bounds_panic(I)
    a = M.seq_split(I, v, i)
    b = M.seq_split(I, v, lin_add(i, 1))
    s = v.segs[a]
    x = s.c[s.i] if type(s) is Ref else M.seg_elem(I, s, s.lo)[0]
    del v.segs[a:b]
    return I.some(x, C.destty) if dq else x


@model('alloc::vec::Vec::<T, A>::retain', 'alloc::collections::vec_deque::VecDeque::<T, A>::retain',
       'alloc::vec::Vec::<T, A>::retain_mut')
def _retain(I, C):
    v = I.deref(C.args[0])
    keep = []
    for r in materialize(I, v):
        if I.truth(I.call_fn(C.args[1], [r])):
            keep.append(r)
        else:
            I.drop_value(r.c[r.i], None)
    v.segs[:] = keep
    return I.unit()


@model('core::slice::<impl [T]>::reverse')
def _rev(I, C):
    v = I.deref(C.args[0])
    materialize(I, v)
    v.segs.reverse()
    return I.unit()


@model('alloc::vec::Vec::<T, A>::reserve', 'alloc::collections::vec_deque::VecDeque::<T, A>::reserve')
def _reserve(I, C):
    room(I, C.args[1], C.ta(0))
    return I.unit()


@model('core::slice::<impl [T]>::contains')
def _contains(I, C):
    v = I.deref(C.args[0])
    if type(v) is B:
        x = I.deref(C.args[1])
        S = I.S
        k = S.bknown(v)
        if k is not None and type(x) is int:
            return int(x in k)
        key = ('contains', S.bnorm(v).p, repr(x))
        if key not in S.memo:
            S.memo[key] = S.fork('contains')
        return int(S.memo[key])
    for r in materialize(I, as_seq(I, v)):
        if keq(I, r, C.args[1]):
            return 1
    return 0


# ------------------------------------------------------------- iteration
@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut',
       'alloc::collections::vec_deque::VecDeque::<T, A>::iter', 'alloc::collections::vec_deque::VecDeque::<T, A>::iter_mut',
       'alloc::collections::btree::set::BTreeSet::<T, A>::iter', 'std::collections::hash::map::HashMap::<K, V, S, A>::iter',
       'std::collections::hash::set::HashSet::<T, S, A>::iter',
       'std::collections::hash::map::HashMap::<K, V, S, A>::iter_mut')
def _iter(I, C):
    r = C.args[0]
    v = I.deref(r)
    v = I.val(v)
    if type(v) is Seq:
        return seq_it(I, v, False)
    if type(v) is Map:
        return map_it(I, v, 'ref')
    if type(v) is B:
        return M.byte_it(I, v)
    if type(v) is Agg:
        return seq_it(I, as_seq(I, v), False)
    raise Unsupported('iter of %r' % (v,))


@model('std::collections::hash::map::HashMap::<K, V, S, A>::keys', 'alloc::collections::btree::map::BTreeMap::<K, V, A>::keys')
def _keys(I, C):
    return map_it(I, I.deref(C.args[0]), 'keys')


@model('std::collections::hash::map::HashMap::<K, V, S, A>::values',
       'std::collections::hash::map::HashMap::<K, V, S, A>::values_mut')
def _values(I, C):
    return map_it(I, I.deref(C.args[0]), 'values')


@model('core::iter::traits::collect::IntoIterator::into_iter')
def _intoiter(I, C):
    if C.callee.get('i') in I.P.fns and 'I as core' not in C.callee.get('r', ''):
        pass
    v = C.args[0]
    if type(v) is Ref and type(I.dr(v)) is It:
        return v
    if type(v) is Agg and v.ty is not None and v.ty.k == 'adt' and user_next(I, v):
        return v
    return get_it(I, v)


def user_next(I, v):
    for k in I.P.fns:
        if k.endswith(' as core::iter::traits::iterator::Iterator>::next') and k[1:].startswith(v.ty.p):
            return True
    return False


def itm(name):
    return model('core::iter::traits::iterator::Iterator::' + name)


@itm('next')
def _next(I, C):
    inst = C.callee.get('i')
    v = I.dr(C.args[0])
    if type(v) is Ref:
        v = I.deref(v)
    if type(v) is It:
        return opt(I, v.next(I))
    if inst in I.P.fns:
        return NotImplemented
    if type(v) is Agg and v.ty is not None and 'ops::range::Range' in v.ty.p:
        if v.ty.p.endswith('RangeInclusive'):
            raise Unsupported('range inclusive')
        return opt(I, M.range_it(I, v).next(I))
    return opt(I, get_it(I, C.args[0]).next(I))


@model('core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def _nextb(I, C):
    v = I.deref(C.args[0])
    if type(v) is It:
        return opt(I, v.next_back(I))
    return NotImplemented


def wrap(x, f, fb=None):
    pass


@itm('map')
def _map(I, C):
    it, f = get_it(I, C.args[0]), C.args[1]

    def g(v):
        return v if v is STOP else I.call_fn(f, [v])
    r = It(lambda I: g(it.next(I)), lambda I: g(it.next_back(I)), it.ln)
    if getattr(it, 'bytes', None) is not None:
        e = it.elem
        r.bytes, r.bkey, r.elem = it.bytes, it.bkey + '|' + fkeyname(I, f), lambda c: I.call_fn(f, [e(c)])
    return r


@itm('cloned')
def _cloned(I, C):
    it = get_it(I, C.args[0])

    def g(v):
        if v is STOP:
            return v
        x = I.dr(v)
        return M.clone(I, x) if type(x) is not Ref else x
    r = It(lambda I: g(it.next(I)), lambda I: g(it.next_back(I)), it.ln)
    if getattr(it, 'bytes', None) is not None:
        e = it.elem
        r.bytes, r.bkey, r.elem = it.bytes, it.bkey + '|copied', lambda c: I.deref(e(c))
    return r


def mapped_bytes(I, it):
    """the bytes an iterator over bytes yields"""
    S = I.S
    out = []
    tab = [I.deref(it.elem(c)) for c in range(256)]
    if any(type(x) is not int for x in tab):
        raise Unsupported('mapped bytes')
    for p in S.bnorm(it.bytes).p:
        if type(p) is bytes:
            out.append(bytes(tab[c] for c in p))
            continue
        clean = S.data.setdefault('clean', {})
        dom = set(range(256)) - clean.get(p, frozenset())
        if S.bclass.get(p) == 'int':
            dom &= INTBYTES
        if all(tab[c] == c for c in dom):
            out.append(p)
            continue
        nm = 'map(%s,%s)' % (p, it.bkey)
        if nm not in clean:
            clean[nm] = frozenset(range(256)) - {tab[c] for c in dom}
            S.assume_range(lin_add(S.symlen(nm), S.symlen(p), -1), 0, 0)
        out.append(nm)
    return S.bnorm(B(*out))


D['core::iter::traits::iterator::Iterator::copied'] = _cloned


@itm('filter')
def _filter(I, C):
    it, f = get_it(I, C.args[0]), C.args[1]

    def mkn(nx):
        def g(I):
            while True:
                v = nx(I)
                if v is STOP or I.truth(I.call_fn(f, [Ref([v])])):
                    return v
        return g
    return It(mkn(it.next), mkn(it.next_back))


@itm('filter_map')
def _filtermap(I, C):
    it, f = get_it(I, C.args[0]), C.args[1]

    def mkn(nx):
        def g(I):
            while True:
                v = nx(I)
                if v is STOP:
                    return v
                r = I.val(I.call_fn(f, [v]))
                if r.vi == 1:
                    return r.f[0]
        return g
    return It(mkn(it.next), mkn(it.next_back))


@itm('flat_map')
def _flatmap(I, C):
    it, f = get_it(I, C.args[0]), C.args[1]
    cur = []

    def g(I):
        while True:
            if cur:
                v = cur[0].next(I)
                if v is not STOP:
                    return v
                cur.pop(0)
            v = it.next(I)
            if v is STOP:
                return v
            cur.append(get_it(I, I.call_fn(f, [v])))
    return It(g)


@itm('flatten')
def _flatten(I, C):
    it = get_it(I, C.args[0])
    cur = []

    def g(I):
        while True:
            if cur:
                v = cur[0].next(I)
                if v is not STOP:
                    return v
                cur.pop(0)
            v = it.next(I)
            if v is STOP:
                return v
            cur.append(get_it(I, v))
    return It(g)


@itm('enumerate')
def _enum(I, C):
    it = get_it(I, C.args[0])
    n = [0]

    def g(I):
        v = it.next(I)
        if v is STOP:
            return v
        n[0] += 1
        return Agg(None, 0, [n[0] - 1, v])
    return It(g, None, it.ln)


@itm('zip')
def _zip(I, C):
    a, b = get_it(I, C.args[0]), get_it(I, C.args[1])

    def g(I):
        x = a.next(I)
        if x is STOP:
            return STOP
        y = b.next(I)
        return STOP if y is STOP else Agg(None, 0, [x, y])
    return It(g)


@itm('chain')
def _chain(I, C):
    a, b = get_it(I, C.args[0]), get_it(I, C.args[1])

    def g(I):
        x = a.next(I)
        return b.next(I) if x is STOP else x

    def gb(I):
        x = b.next_back(I)
        return a.next_back(I) if x is STOP else x
    return It(g, gb)


@itm('rev')
def _itrev(I, C):
    it = get_it(I, C.args[0])
    return It(it.next_back, it.next, it.ln)


def lim(I, n):
    if type(n) is int:
        return n
    return n


@itm('skip')
def _skip(I, C):
    it, n = get_it(I, C.args[0]), C.args[1]
    st = {'n': n, 'k': 0, 'done': False}

    def pre(I):
        if not st['done']:
            st['done'] = True
            while not I.S.ge0(lin_add(st['k'], st['n'], -1)):
                if it.next(I) is STOP:
                    break
                st['k'] += 1

    def g(I):
        pre(I)
        return it.next(I)

    def gb(I):
        pre(I)
        return it.next_back(I)

    def ln(I):
        pre(I)
        return it.length(I)
    return It(g, gb, ln)


@itm('take')
def _take_(I, C):
    it, n = get_it(I, C.args[0]), C.args[1]
    st = {'k': 0}

    def g(I):
        if I.S.ge0(lin_add(st['k'], n, -1)):
            return STOP
        st['k'] += 1
        return it.next(I)

    def gb(I):
        # exact-size double ended: drop the tail first
        if 'tail' not in st:
            st['tail'] = True
            items = drain_list(I, it)
            kept = []
            for i, x in enumerate(items):
                if I.S.ge0(lin_add(i, n, -1)):
                    break
                kept.append(x)
            st['l'] = kept
        return st['l'].pop() if st['l'] else STOP
    return It(g, gb)


@itm('step_by')
def _stepby(I, C):
    it, n = get_it(I, C.args[0]), C.args[1]
    if type(n) is not int:
        raise Unsupported('step_by')
    st = {'f': True}

    def g(I):
        if st['f']:
            st['f'] = False
            return it.next(I)
        for _ in range(n - 1):
            if it.next(I) is STOP:
                return STOP
        return it.next(I)
    return It(g)


@itm('skip_while')
def _skipwhile(I, C):
    it, f = get_it(I, C.args[0]), C.args[1]
    st = {}

    def g(I):
        if not st:
            st['d'] = 1
            while True:
                v = it.next(I)
                if v is STOP or not I.truth(I.call_fn(f, [Ref([v])])):
                    return v
        return it.next(I)
    return It(g)


@itm('take_while')
def _takewhile(I, C):
    it, f = get_it(I, C.args[0]), C.args[1]
    st = {}

    def g(I):
        if st:
            return STOP
        v = it.next(I)
        if v is STOP or I.truth(I.call_fn(f, [Ref([v])])):
            return v
        st['d'] = 1
        return STOP
    return It(g)


@itm('inspect')
def _inspect(I, C):
    it, f = get_it(I, C.args[0]), C.args[1]

    def g(v):
        if v is not STOP:
            I.call_fn(f, [Ref([v])])
        return v
    return It(lambda I: g(it.next(I)), lambda I: g(it.next_back(I)), it.ln)


@itm('peekable')
def _peekable(I, C):
    it = get_it(I, C.args[0])
    buf = []

    def g(I):
        return buf.pop(0) if buf else it.next(I)
    r = It(g, None, None)

    def pk(I):
        if not buf:
            buf.append(it.next(I))
        return buf[0]
    r.peek = pk
    r.buf = buf
    return r


@model('core::iter::adapters::peekable::Peekable::<I>::peek')
def _peek(I, C):
    it = I.deref(C.args[0])
    v = it.peek(I)
    return I.none() if v is STOP else I.some(Ref(it.buf, 0))


@itm('collect')
def _collect(I, C):
    return collect(I, get_it(I, C.args[0]), C.destty)


@model('core::iter::traits::collect::FromIterator::from_iter')
def _fromiter(I, C):
    if C.callee.get('i') in I.P.fns:
        return NotImplemented
    return collect(I, get_it(I, C.args[0]), C.destty)


def collect(I, it, ty):
    p = ty.p
    if p == 'core::result::Result' or p == 'core::option::Option':
        out = []
        while True:
            v = it.next(I)
            if v is STOP:
                break
            v = I.val(v)
            bad = 1 if p.endswith('Result') else 0
            if v.vi == bad:
                return Agg(ty, bad, list(v.f))
            out.append(v.f[0])
        inner = collect(I, list_it(lambda I: out), ty.a[0])
        return Agg(ty, 0 if p.endswith('Result') else 1, [inner])
    if p in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque'):
        l = drain_list(I, it)
        if ty.a[0].s == 'u8':
            if all(type(x) is int for x in l):
                return bconst(bytes(l))
        return vals(I, l)
    if p in ('alloc::boxed::Box', 'alloc::rcs::arc::Arc'):
        t = ty.a[0]
        l = drain_list(I, it)
        if all(type(x) is int for x in l):
            return Ref([bconst(bytes(l))])
        return Ref([vals(I, l)])
    if p in ('std::collections::hash::map::HashMap', 'std::collections::hash::set::HashSet',
             'alloc::collections::btree::set::BTreeSet', 'alloc::collections::btree::map::BTreeMap'):
        m = M.empty_map(I, ty)
        for x in drain_list(I, it):
            map_ins(I, m, x)
        return m
    if p == 'alloc::string::String':
        out = []
        for x in drain_list(I, it):
            x = I.deref(x)
            if type(x) is int:
                out.append(chr(x).encode())
            elif type(x) is B:
                out.extend(x.p)
            else:
                raise Unsupported('collect string')
        return I.S.bnorm(B(*out))
    raise Unsupported('collect into ' + ty.s)


@itm('count')
def _count(I, C):
    it = get_it(I, C.args[0])
    if it.ln is not None:
        try:
            return it.length(I)
        except Unsupported:
            pass
    return len(drain_list(I, it))


@itm('last')
def _last(I, C):
    l = drain_list(I, get_it(I, C.args[0]))
    return I.some(l[-1], C.destty) if l else I.none(C.destty)


@itm('nth')
def _nth(I, C):
    it, n = get_it(I, C.args[0]), C.args[1]
    k = 0
    while True:
        v = it.next(I)
        if v is STOP:
            return I.none(C.destty)
        if I.S.eq0(lin_add(n, k, -1)):
            return I.some(v, C.destty)
        k += 1


@itm('for_each')
def _foreach(I, C):
    for v in drain_it(I, get_it(I, C.args[0])):
        I.call_fn(C.args[1], [v])
    return I.unit()


def drain_it(I, it):
    while True:
        v = it.next(I)
        if v is STOP:
            return
        yield v


@itm('fold')
def _fold(I, C):
    acc = C.args[1]
    for v in drain_it(I, get_it(I, C.args[0])):
        acc = I.call_fn(C.args[2], [acc, v])
    return acc


@itm('try_fold')
def _tryfold(I, C):
    acc = C.args[1]
    dt = C.destty
    for v in drain_it(I, get_it(I, C.args[0])):
        r = I.val(I.call_fn(C.args[2], [acc, v]))
        good = 0 if r.ty is not None and (r.ty.p.endswith('Result') or r.ty.p.endswith('ControlFlow')) else 1
        if r.vi != good:
            return r
        acc = r.f[0]
    good = 0 if dt.p.endswith('Result') or dt.p.endswith('ControlFlow') else 1
    return Agg(dt, good, [acc])


@itm('try_for_each')
def _tryforeach(I, C):
    dt = C.destty
    for v in drain_it(I, get_it(I, C.args[0])):
        r = I.val(I.call_fn(C.args[1], [v]))
        good = 0 if r.ty is not None and (r.ty.p.endswith('Result') or r.ty.p.endswith('ControlFlow')) else 1
        if r.vi != good:
            return r
    good = 0 if dt.p.endswith('Result') or dt.p.endswith('ControlFlow') else 1
    return Agg(dt, good, [I.unit()])


@itm('any')
def _any(I, C):
    it = get_it(I, C.args[0])
    if getattr(it, 'bytes', None) is not None:
        return int(byte_pos(I, it.bytes, C.args[1], it) is not None)
    for v in drain_it(I, it):
        if I.truth(I.call_fn(C.args[1], [v])):
            return 1
    return 0


@itm('all')
def _all(I, C):
    it = get_it(I, C.args[0])
    if getattr(it, 'bytes', None) is not None:
        S = I.S
        key = ('all', it.bytes.p, it.bkey, fkeyname(I, C.args[1]))
        if key not in S.memo:
            S.memo[key] = S.fork('all bytes')
        return int(S.memo[key])
    for v in drain_it(I, it):
        if not I.truth(I.call_fn(C.args[1], [v])):
            return 0
    return 1


@itm('find')
def _find(I, C):
    it = get_it(I, C.args[0])
    for v in drain_it(I, it):
        if I.truth(I.call_fn(C.args[1], [Ref([v])])):
            return I.some(v, C.destty)
    return I.none(C.destty)


@itm('find_map')
def _findmap(I, C):
    for v in drain_it(I, get_it(I, C.args[0])):
        r = I.val(I.call_fn(C.args[1], [v]))
        if r.vi == 1:
            return r
    return I.none(C.destty)


def fkeyname(I, f):
    while type(f) is Ref:
        f = I.dr(f)
    return f.ty.fn if type(f) is Agg else repr(f)


def byte_pos(I, b, f, it=None):
    """position of the first byte satisfying f: None or index term"""
    S = I.S
    b = S.bnorm(b)
    fk = fkeyname(I, f)
    if it is not None and it.bkey:
        fk = it.bkey + '|' + fk
    key = ('pos', b.p, fk)
    if key in S.memo:
        return S.memo[key]
    # which single byte value does the predicate accept?
    acc = [c for c in range(256) if accepts(I, f, c, it)]
    r = pos_in_parts(S, b, frozenset(acc))
    if r is not NotImplemented:
        S.memo[key] = r
        return r
    # positions are named by the original string and the offset the search starts from
    base, off = b, 0
    if len(b.p) == 1 and type(b.p[0]) is str:
        d = S.adef.get(b.p[0])
        if type(d) is tuple and d[0] == 'sub' and S.ent_eq(d[3], S.blen(d[1])) is True:
            base, off = d[1], d[2]
    lo = off
    again = True
    while again:
        again = False
        for d in [x for x in S.adef.values() if type(x) is tuple and x[0] == 'posabs' and x[1].p == base.p]:
            if not set(d[2]) & set(acc) and S.ent_eq(d[4], off) is True:
                off = lin_add(off, 1)        # that byte is known to be another one
                again = True
    name = 'pos(%r,%r,%r)' % (base.p, acc if len(acc) < 4 else fk, off)
    pkey = ('pos2', name)
    if pkey in S.memo:
        p = S.memo[pkey]
    else:
        if S.fork('found'):
            p = S.atom(name, 0, 2**30)
            S.adef[name] = ('posabs', base, tuple(acc), off, p)
            S.assume_range(lin_add(p, off, -1), 0, INF)
            S.assume_range(lin_add(lin_add(S.blen(base), p, -1), -1), 0, INF)
        else:
            p = None
            S.notes.append(('nobyte', b, tuple(acc)))
            if len(b.p) == 1 and type(b.p[0]) is str:
                cl = S.data.setdefault('clean', {})
                cl[b.p[0]] = cl.get(b.p[0], frozenset()) | frozenset(acc)
        S.memo[pkey] = p
    r = S.memo[key] = None if p is None else lin_add(p, lo, -1)
    return r


INTBYTES = frozenset(b'+-0123456789')


def pos_in_parts(S, b, acc):
    """position in a string whose unknown parts are known to hold none of the bytes"""
    pos = 0
    for p in b.p:
        if type(p) is bytes:
            for i, c in enumerate(p):
                if c in acc:
                    return lin_add(pos, i)
            pos = lin_add(pos, len(p))
            continue
        clean = (S.data.get('clean') or {}).get(p, frozenset())
        if acc and not acc <= clean and not (S.bclass.get(p) == 'int' and not acc & INTBYTES):
            return NotImplemented
        pos = lin_add(pos, S.symlen(p))
    return None


@model('nom::traits::Compare::compare')
def _nomcompare(I, C):
    """does the input start with a constant"""
    S = I.S
    a = S.bnorm(bytes_of(I, C.args[0]))
    t = S.bknown(bytes_of(I, C.args[1]))
    if t is None:
        raise Unsupported('tag')
    res = None
    n = 0
    for p in a.p:
        if n >= len(t):
            break
        if type(p) is not bytes:
            if S.bclass.get(p) == 'int' and t[n] not in INTBYTES:
                res = 'Error'
                break
            if S.eq0(S.symlen(p)):
                continue
            raise Unsupported('tag against unknown bytes')
        k = min(len(p), len(t) - n)
        if p[:k] != t[n:n + k]:
            res = 'Error'
            break
        n += k
    if res is None:
        res = 'Ok' if n >= len(t) else 'Incomplete'
    ty = C.destty
    return Agg(ty, [v[0] for v in ty.v].index(res), [])


def accepts(I, f, c, it=None):
    r = I.call_fn(f, [it.elem(c) if it is not None else Ref([c])])
    if type(r) is not int:
        raise Unsupported('byte predicate')
    return bool(r)


@itm('position')
def _position(I, C):
    v = C.args[0]
    it = get_it(I, v)
    if getattr(it, 'bytes', None) is not None:
        p = byte_pos(I, it.bytes, C.args[1], it)
        return I.none(C.destty) if p is None else I.some(p, C.destty)
    for k, v in enumerate(drain_it(I, it)):
        if I.truth(I.call_fn(C.args[1], [v])):
            return I.some(k, C.destty)
    return I.none(C.destty)


@itm('sum')
def _sum(I, C):
    acc = 0
    for v in drain_it(I, get_it(I, C.args[0])):
        acc = lin_add(acc, I.deref(v))
    return acc


@itm('max')
def _itmax(I, C):
    best = None
    for v in drain_it(I, get_it(I, C.args[0])):
        if best is None or cmp_vals(I, canon(I, v), canon(I, best)) >= 0:
            best = v
    return I.none(C.destty) if best is None else I.some(best, C.destty)


@itm('size_hint')
def _sizehint(I, C):
    return Agg(C.destty, 0, [0, I.none()])


@model('core::iter::sources::once::once')
def _once(I, C):
    v = C.args[0]
    return list_it(lambda I: [v])


@model('core::iter::sources::empty::empty')
def _empty(I, C):
    return list_it(lambda I: [])


@model('core::iter::sources::repeat::repeat')
def _repeat(I, C):
    v = C.args[0]
    return It(lambda I: M.clone(I, v))


# ------------------------------------------------------------- maps
HM = 'std::collections::hash::map::HashMap::<K, V, S, A>::'
HS = 'std::collections::hash::set::HashSet::<T, S, A>::'
BS = 'alloc::collections::btree::set::BTreeSet::<T, A>::'
BM = 'alloc::collections::btree::map::BTreeMap::<K, V, A>::'


@model('std::collections::hash::map::HashMap::<K, V, S>::with_hasher', 'alloc::collections::btree::set::BTreeSet::<T>::new',
       'std::collections::hash::map::HashMap::<K, V>::new', 'std::collections::hash::set::HashSet::<T>::new',
       'std::collections::hash::map::HashMap::<K, V, S>::with_capacity_and_hasher',
       'std::collections::hash::set::HashSet::<T, S>::with_hasher',
       'std::collections::hash::set::HashSet::<T, S>::with_capacity_and_hasher',
       'std::collections::hash::map::HashMap::<K, V>::with_capacity')
def _mapnew(I, C):
    return M.empty_map(I, C.destty)


def themap(I, r):
    m = I.deref(r)
    m = I.val(m)
    if type(m) is not Map:
        raise Unsupported('not a map: %r' % (m,))
    return m


@model(HM + 'get', HM + 'get_mut', HS + 'get', BS + 'get', BM + 'get', BM + 'get_mut')
def _mget(I, C):
    m = themap(I, C.args[0])
    e = m.lookup(I, canon(I, C.args[1]))
    return I.some(Ref(e.cell), C.destty) if e.cell is not None else I.none(C.destty)


@model(HM + 'contains_key', HS + 'contains', BS + 'contains', BM + 'contains_key')
def _mcontains(I, C):
    m = themap(I, C.args[0])
    return int(m.lookup(I, canon(I, C.args[1])).cell is not None)


@model(HM + 'insert', BM + 'insert')
def _minsert(I, C):
    m = themap(I, C.args[0])
    e, old = m.insert(I, canon(I, C.args[1]), C.args[2])
    return I.some(old[0], C.destty) if old is not None else I.none(C.destty)


@model(HS + 'insert', BS + 'insert')
def _sinsert(I, C):
    m = themap(I, C.args[0])
    k = canon(I, C.args[1])
    e, old = m.insert(I, k, k)
    return int(old is None)


@model(BS + 'replace', HS + 'replace')
def _sreplace(I, C):
    m = themap(I, C.args[0])
    k = canon(I, C.args[1])
    e, old = m.insert(I, k, k)
    return I.some(old[0], C.destty) if old is not None else I.none(C.destty)


@model(HM + 'remove', BM + 'remove', HS + 'take', BS + 'take')
def _mremove(I, C):
    m = themap(I, C.args[0])
    e, old = m.remove(I, canon(I, C.args[1]))
    return I.some(old[0], C.destty) if old is not None else I.none(C.destty)


@model(HM + 'remove_entry')
def _mremovee(I, C):
    m = themap(I, C.args[0])
    e, old = m.remove(I, canon(I, C.args[1]))
    return I.some(Agg(None, 0, [M.boxkey(I, m, e.key), old[0]]), C.destty) if old is not None else I.none(C.destty)


@model(HS + 'remove', BS + 'remove')
def _sremove(I, C):
    m = themap(I, C.args[0])
    e, old = m.remove(I, canon(I, C.args[1]))
    return int(old is not None)


@model(HM + 'entry', BM + 'entry')
def _entry(I, C):
    m = themap(I, C.args[0])
    e = m.lookup(I, canon(I, C.args[1]))
    t = C.destty
    occ = e.cell is not None
    o = Opq('entry', None, m=m, e=e, key=C.args[1])
    for i, v in enumerate(t.v):
        if (v[0] == 'Occupied') == occ:
            return Agg(t, i, [o])
    raise Unsupported('entry type')


OE = 'std::collections::hash::map::OccupiedEntry::<\'a, K, V, A>::'
VE = 'std::collections::hash::map::VacantEntry::<\'a, K, V, A>::'
EE = 'std::collections::hash::map::Entry::<\'a, K, V, A>::'


@model(OE + 'get', OE + 'get_mut', OE + 'into_mut')
def _oget(I, C):
    e = I.deref(C.args[0]).a['e']
    return Ref(e.cell)


@model(OE + 'insert')
def _oins(I, C):
    e = I.deref(C.args[0]).a['e']
    old = e.cell[0]
    e.cell[0] = C.args[1]
    e.touched = True
    return old


@model(OE + 'remove')
def _orem(I, C):
    e = I.deref(C.args[0]).a['e']
    old = e.cell[0]
    e.cell = None
    e.touched = True
    return old


@model(VE + 'insert')
def _vins(I, C):
    e = I.deref(C.args[0]).a['e']
    e.cell = [C.args[1]]
    e.touched = True
    return Ref(e.cell)


@model(EE + 'or_insert', EE + 'or_insert_with', EE + 'or_default')
def _orins(I, C):
    a = I.val(C.args[0])
    e = a.f[0].a['e']
    if e.cell is None:
        r = C.callee['r']
        if r.endswith('or_insert'):
            v = C.args[1]
        elif r.endswith('or_default'):
            v = default_of(I, C.destty.t)
        else:
            v = I.call_fn(C.args[1], [])
        e.cell = [v]
        e.touched = True
    return Ref(e.cell)


@model(EE + 'and_modify')
def _andmod(I, C):
    a = I.val(C.args[0])
    e = a.f[0].a['e']
    if e.cell is not None:
        I.call_fn(C.args[1], [Ref(e.cell)])
    return a


@model(BS + 'retain', HS + 'retain', HM + 'retain')
def _mretain(I, C):
    m = themap(I, C.args[0])
    for e in list(m.materialize(I)):
        if m.kind == 'hash':
            r = I.call_fn(C.args[1], [Ref([M.boxkey(I, m, e.key)]), Ref(e.cell)])
        else:
            r = I.call_fn(C.args[1], [Ref([M.boxkey(I, m, e.key)])])
        if not I.truth(r):
            e.cell = None
            e.touched = True
    return I.unit()


def ord_cmp(I, m, a, b):
    """element order: the program's Ord impl when there is one"""
    t = m.kty
    k = '<%s as core::cmp::Ord>::cmp' % t.s
    if k in I.P.fns:
        return I.val(I.call_key(k, [Ref([a]), Ref([b])])).vi - 1
    o = cmp_vals(I, canon(I, a), canon(I, b))
    if o is None:
        raise Unsupported('order')
    return o


@model(BS + 'split_off')
def _bsplitoff(I, C):
    """the elements at or above the key move to a new set"""
    m = themap(I, C.args[0])
    k = canon(I, C.args[1])
    out = M.empty_map(I, C.destty)
    for e in list(m.materialize(I)):
        if e.cell is not None and ord_cmp(I, m, e.key, k) >= 0:
            out.insert(I, e.key, e.key)
            e.cell = None
            e.touched = True
    return out


@model(BS + 'range')
def _brange(I, C):
    S = I.S
    m = themap(I, C.args[0])
    r = I.val(C.args[1])
    if not (type(r) is Agg and (len(r.f) == 2 or r.ty is not None and '::Range' in r.ty.p)):
        raise Unsupported('btree range')
    p = r.ty.p if r.ty is not None else ''
    if p.endswith('::Range'):
        bs = [('Included', r.f[0]), ('Excluded', r.f[1])]
    elif p.endswith('::RangeInclusive'):
        bs = [('Included', r.f[0]), ('Included', r.f[1])]
    elif p.endswith('::RangeFrom'):
        bs = [('Included', r.f[0]), ('Unbounded', None)]
    elif p.endswith('::RangeTo'):
        bs = [('Unbounded', None), ('Excluded', r.f[0])]
    elif p.endswith('::RangeToInclusive'):
        bs = [('Unbounded', None), ('Included', r.f[0])]
    elif p.endswith('::RangeFull'):
        bs = [('Unbounded', None), ('Unbounded', None)]
    else:
        bs = []
        for x in r.f:
            x = I.val(x)
            bs.append((x.vn(), x.f[0] if x.f else None))
    (lk, lo), (hk, hi) = bs
    if lk != 'Unbounded':
        lo = I.val(I.deref(lo))
    if hk != 'Unbounded':
        hi = I.val(I.deref(hi))
    if lk != 'Unbounded' and hk != 'Unbounded':
        o = ord_cmp(I, m, lo, hi)
        if o > 0:
            M.bounds_panic(I, 'range start is greater than range end in BTreeSet')
        if o == 0 and lk == 'Excluded' and hk == 'Excluded':
            M.bounds_panic(I, 'range start and end are equal and excluded in BTreeSet')
    S.log('brange', map=m, lo=(lk, lo), hi=(hk, hi))

    def get(I):
        out = []
        for e in m.materialize(I):
            if lk != 'Unbounded':
                o = ord_cmp(I, m, e.key, lo)
                if o < 0 or (o == 0 and lk == 'Excluded'):
                    continue
            if hk != 'Unbounded':
                o = ord_cmp(I, m, e.key, hi)
                if o > 0 or (o == 0 and hk == 'Excluded'):
                    continue
            out.append(Ref([e.key]))
        return out
    return list_it(get)


@model(BS + 'first', BS + 'last')
def _bfirst(I, C):
    m = themap(I, C.args[0])
    es = m.materialize(I)
    if not es:
        return I.none(C.destty)
    return I.some(Ref([es[0 if C.callee['r'].endswith('first') else -1].key]), C.destty)


@model(BS + 'pop_first', BS + 'pop_last')
def _bpopfirst(I, C):
    m = themap(I, C.args[0])
    es = m.materialize(I)
    if not es:
        return I.none(C.destty)
    e = es[0 if C.callee['r'].endswith('first') else -1]
    e.cell = None
    e.touched = True
    return I.some(M.boxkey(I, m, e.key), C.destty)


# ------------------------------------------------------------- sync
@model('lock_api::mutex::Mutex::<R, T>::lock')
def _lock(I, C):
    return M.do_lock(I, C.args[0], 'lock', C.argtys and C.argtys[0])


@model('lock_api::rwlock::RwLock::<R, T>::write')
def _wlock(I, C):
    return M.do_lock(I, C.args[0], 'write', C.argtys and C.argtys[0])


@model('lock_api::rwlock::RwLock::<R, T>::read')
def _rlock(I, C):
    return M.do_lock(I, C.args[0], 'read', C.argtys and C.argtys[0])


@model('lock_api::mutex::Mutex::<R, T>::try_lock')
def _trylock(I, C):
    if I.S.fork('try_lock'):
        return I.some(M.do_lock(I, C.args[0], 'try', C.argtys and C.argtys[0]), C.destty)
    return I.none(C.destty)


@model('lock_api::mutex::Mutex::<R, T>::new', 'lock_api::rwlock::RwLock::<R, T>::new')
def _locknew(I, C):
    return Lock(I.S.fresh('lock'), [C.args[0]])


@model('lock_api::mutex::Mutex::<R, T>::into_inner')
def _lockinto(I, C):
    return I.val(C.args[0]).cell[0]


@model('core::sync::atomic::Atomic::<bool>::new')
def _abnew(I, C):
    return Agg(C.destty, 0, [C.args[0]])


@model('core::sync::atomic::Atomic::<bool>::store')
def _abstore(I, C):
    a = I.deref(C.args[0])
    I.S.log('atomic_store', cell=a, v=C.args[1], ord=C.args[2], name=getattr(a, 'tag', None))
    if type(a) is Agg:
        a.f[0] = C.args[1]
    return I.unit()


@model('core::sync::atomic::Atomic::<bool>::load')
def _abload(I, C):
    a = I.deref(C.args[0])
    I.S.log('atomic_load', cell=a, ord=C.args[1])
    if type(a) is Agg:
        return a.f[0]
    return I.S.atom(I.S.fresh('load'), 0, 1)


@model('core::sync::atomic::Atomic::<bool>::swap')
def _abswap(I, C):
    a = I.deref(C.args[0])
    old = a.f[0]
    a.f[0] = C.args[1]
    I.S.log('atomic_store', cell=a, v=C.args[1], ord=C.args[2], name=getattr(a, 'tag', None))
    return old


@model('core::sync::atomic::Atomic::<bool>::compare_exchange', 'core::sync::atomic::Atomic::<bool>::compare_exchange_weak')
def _abcas(I, C):
    a = I.deref(C.args[0])
    cur = a.f[0]
    I.S.log('atomic_cas', cell=a)
    if I.S.eq0(lin_add(cur, C.args[1], -1)):
        a.f[0] = C.args[2]
        I.S.log('atomic_store', cell=a, v=C.args[2], ord=None, name=getattr(a, 'tag', None), cas=True)
        return I.ok(cur, C.destty)
    return I.err(cur, C.destty)


# ------------------------------------------------------------- time
@model('std::time::SystemTime::now')
def _now(I, C):
    return Opq('systime')


@model('std::time::SystemTime::duration_since')
def _dursince(I, C):
    n = I.S.data.get('clock', 'now')
    if type(n) is str:
        n = I.S.atom(n, 1_600_000_000_000, 4_100_000_000_000)
    return I.ok(Opq('dur', ms=n), C.destty)


@model('core::time::Duration::as_millis')
def _asms(I, C):
    return I.deref(C.args[0]).a['ms']


@model('core::time::Duration::as_secs')
def _assec(I, C):
    return I.S.div_const(I.deref(C.args[0]).a['ms'], 1000)


@model('core::time::Duration::from_millis')
def _fms(I, C):
    return Opq('dur', ms=C.args[0])


@model('core::time::Duration::from_secs')
def _fs(I, C):
    return Opq('dur', ms=lin_scale(C.args[0], 1000))


@model('std::time::Instant::now')
def _inow(I, C):
    return Opq('instant')


@model('<std::time::Instant as core::ops::arith::Sub>::sub', 'std::time::Instant::elapsed')
def _isub(I, C):
    return Opq('dur', ms=I.S.atom(I.S.fresh('elapsed'), 0, 2**40))


# ------------------------------------------------------------- channels / tokio / io
def fut(kind):
    def f(I, C):
        return Opq('fut', C.destty, fk=kind, args=C.args, callee=C.callee['r'], tm=C.tm, born=len(I.S.ev))
    return f


@model('flume::unbounded', 'flume::bounded')
def _unb(I, C):
    n = I.S.fresh('chan')
    if C.args:
        I.S.data.setdefault('bounded', {})[n] = C.args[0]
    return Agg(C.destty, 0, [Opq('sender', name=n), Opq('receiver', name=n)])


def may_fill(I, nm):
    """can the channel be full"""
    b = I.S.data.get('bounded') or {}
    if nm in b:
        return True
    if str(nm).startswith('chan'):
        return False
    # an unknown channel: is there one with a bound where it comes from
    w = I.S.limits.get('channels_of')
    own = ('db::forward::connection', 'db::pd_handle')
    return any(w in k if w else not any(o in k for o in own) for k in I.P.callers('flume::bounded'))


@model('flume::Sender::<T>::send', 'flume::Sender::<T>::try_send', 'flume::Sender::<T>::send_timeout',
       'flume::Sender::<T>::send_deadline')
def _send(I, C):
    S = I.S
    s = I.deref(C.args[0])
    nm = s.name if type(s) is Sym else s.a.get('name')
    fill = may_fill(I, nm)
    waits = fill and not C.callee['r'].endswith('try_send')
    if waits:
        M.block(I, 'full channel')
    full = fill and not C.callee['r'].endswith('::send') and S.fork('channel full')
    failed = full or bool(S.limits.get('send_err')) and not S.fork('send ok')
    S.log('send_full' if full and 'channels_of' not in S.limits else 'send', chan=nm, v=C.args[1], ty=C.argtys[1] if C.argtys else None, failed=failed, full=full, waits=waits,
          held=[h.lock for h in S.held])
    if failed:
        t = C.destty.a[1]
        ks = [v[0] for v in t.v]
        for k in ('Full', 'Timeout') if full else ('Disconnected',):
            if k in ks:
                return I.err(Agg(t, ks.index(k), [C.args[1]]), C.destty)
        return I.err(Opq('error', None, v=bconst(b'disconnected')), C.destty)
    return I.ok(I.unit(), C.destty)


for n, k in (('flume::r#async::<impl flume::Receiver<T>>::recv_async', 'recv'),
             ('tokio::io::util::async_read_ext::AsyncReadExt::read', 'read'),
             ('tokio::io::util::async_read_ext::AsyncReadExt::read_buf', 'read_buf'),
             ('tokio::io::util::async_write_ext::AsyncWriteExt::write_all', 'write_all'),
             ('tokio::io::util::async_write_ext::AsyncWriteExt::flush', 'flush'),
             ('tokio::net::tcp::listener::TcpListener::accept', 'accept'),
             ('tokio::net::tcp::listener::TcpListener::bind', 'bind'),
             ('tokio::net::tcp::stream::TcpStream::connect', 'connect'),
             ('tokio::sync::broadcast::Receiver::<T>::recv', 'brecv'),
             ('tokio::sync::notify::Notify::notified', 'notified'),
             ('tokio::sync::semaphore::Semaphore::acquire', 'acquire'),
             ('tokio::time::driver::sleep::sleep', 'sleep'),
             ('tokio::time::interval::Interval::tick', 'tick'),
             ('tokio::future::poll_fn::poll_fn', 'poll_fn')):
    D[n] = fut(k)


@model('tokio::sync::semaphore::Semaphore::new')
def _semnew(I, C):
    I.S.log('semaphore_new', n=C.args[0])
    return Opq('semaphore', name=I.S.fresh('sem'), permits=C.args[0])


@model('tokio::sync::semaphore::Semaphore::add_permits')
def _addp(I, C):
    I.S.log('permit_release', how='add', n=C.args[1])
    return I.unit()


@model('tokio::sync::semaphore::SemaphorePermit::<\'a>::forget')
def _pforget(I, C):
    v = I.val(C.args[0])
    if type(v) is Opq:
        v.a['forgotten'] = True
    I.S.log('permit_forget')
    return I.unit()


@model('tokio::sync::notify::Notify::new')
def _notnew(I, C):
    return Opq('notify', name=I.S.fresh('notify'))


@model('tokio::sync::notify::Notify::notify_one', 'tokio::sync::notify::Notify::notify_waiters')
def _notify(I, C):
    ev = I.S.log('notify', what=I.deref(C.args[0]), how=C.callee['r'].rsplit('::', 1)[1])
    if 'notify' in I.hooks:
        I.hooks['notify'](I, ev)
    return I.unit()


@model('tokio::task::spawn::spawn', 'tokio::spawn', 'tokio::task::blocking::spawn_blocking', 'std::thread::spawn')
def _spawn(I, C):
    k = 'spawn_blocking' if 'blocking' in C.callee['r'] else 'spawn'
    I.S.log(k, v=C.args[0])
    h = I.hooks.get('spawn')
    if h:
        h(I, k, C.args[0])
    return Opq('joinhandle')


@model('tokio::util::rand::thread_rng_n')
def _rng(I, C):
    n = C.args[0]
    if type(n) is int:
        return I.S.choose(n, 'select start')
    return 0


@model('tokio::time::interval::interval')
def _interval(I, C):
    return Opq('interval')


@model('std::thread::functions::sleep')
def _tsleep(I, C):
    M.block(I, 'sleep')
    I.S.log('thread_sleep')
    h = I.hooks.get('thread_sleep')
    return h(I, C) if h else I.unit()


@model('nix::sys::wait::waitpid')
def _waitpid(I, C):
    h = I.hooks.get('waitpid')
    return h(I, C) if h else I.mk(C.destty, I.S.fresh('status'))


@model('core::future::future::Future::poll')
def _poll(I, C):
    f = C.args[0]
    n = 0
    while type(f) is Ref:
        x = I.dr(f)
        if type(x) is Agg and x.ty is not None and x.ty.k == 'coroutine':
            break
        f = x
    v = I.dr(f) if type(f) is Ref else I.val(f)
    if type(v) is Agg and v.ty is not None and v.ty.k == 'coroutine':
        if v.ty.fn in I.P.fns:
            r = I.call_key(v.ty.fn, [v, Opq('cx')])
            return Agg(C.destty, 0, [r])
    return poll_opq(I, v, C.destty)


def short_write(I, b):
    S = I.S
    n = length(I, b)
    if S.ge0(lin_add(n, -2)) and S.fork('short write'):
        k = S.atom(S.fresh('written'), 1, 2**30)
        S.assume_range(lin_add(lin_add(n, k, -1), -1), 0, INF)
        return M.slice_of(I, b, 0, k), k
    return b, n


def joined(I, bs):
    """the concatenation; adjacent pieces of one string are that string again"""
    S = I.S
    out = []
    for b in bs:
        for p in S.bnorm(b).p:
            d = S.adef.get(p) if type(p) is str else None
            e = S.adef.get(out[-1]) if out and type(out[-1]) is str else None
            if type(d) is tuple and d[0] == 'sub' and type(e) is tuple and e[0] == 'sub' and d[1].p == e[1].p and \
                    S.ent_eq(d[2], e[3]) is True:
                q = M.slice_of(I, d[1], e[2], d[3])
                out[-1:] = list(q.p)
            else:
                out.append(p)
    return S.bnorm(B(*out))


def poll_opq(I, v, pty):
    """await of a runtime primitive: completes with an arbitrary admissible outcome"""
    S = I.S
    oty = pty.a[0]

    def ready(x):
        return Agg(pty, 0, [x])
    if type(v) is not Opq:
        S.log('await', what='?', held=[h.lock for h in S.held], at=S.site())
        return ready(I.mk(oty, S.fresh('await')))
    k = v.a.get('fk', v.kind)
    ev = S.log('await', what=k, held=[h.lock for h in S.held], at=S.site(), args=v.a.get('args'))
    h = I.hooks.get('await:' + k)
    if h:
        r = h(I, v, oty, ev)
        if r is not NotImplemented:
            return ready(r)
    if k == 'poll_fn':
        r = I.call_fn(v.a['args'][0], [Ref([Opq('cx')])])
        return r
    if k in ('sleep', 'notified'):
        return ready(I.unit())
    if k == 'acquire':
        if S.limits.get('sem_closed') and not S.fork('sem ok'):
            return ready(I.err(Opq('error'), oty))
        S.log('permit_acquire')
        return ready(I.ok(Opq('permit', oty.a[0]), oty))
    if k == 'tick':
        return ready(Opq('instant'))
    if k == 'write':
        # any part of the bytes, from the start, may be taken
        if S.limits.get('io_ok') or S.fork('write ok'):
            b, n = short_write(I, I.deref(v.a['args'][1]))
            S.log('write', v=b)
            return ready(I.ok(n, oty))
        return ready(I.err(Opq('ioerr'), oty))
    if k == 'write_all':
        S.log('write', v=I.deref(v.a['args'][1]))
        ok = True if S.limits.get('io_ok') else S.fork('write ok')
        return ready(I.ok(I.unit(), oty) if ok else I.err(Opq('ioerr'), oty))
    if oty.p == 'core::result::Result':
        if S.fork(k + ' ok'):
            ev['ok'] = True
            return ready(I.ok(I.mk(oty.a[0], S.fresh(k)), oty))
        ev['ok'] = False
        return ready(I.err(Opq('error', None, v=B(S.fresh('errtext'))), oty))
    return ready(I.mk(oty, S.fresh(k)))


@model('bincode::serialize')
def _ser(I, C):
    v = I.deref(C.args[0])
    nm = I.S.fresh('ser')
    I.S.log('serialize', v=v, ty=C.ta(0), out=nm)
    I.S.adef[nm] = ('ser', v)
    return I.ok(B(nm), C.destty)


@model('bincode::serialize_into')
def _serinto(I, C):
    if C.argtys and 'Vec<u8>' not in C.argtys[0].s:
        M.block(I, 'write')
    v = I.deref(C.args[1])
    ok = I.S.fork('serialize ok')
    I.S.log('serialize', v=v, ty=C.argtys[1] if C.argtys else None, into=C.args[0], ok=ok)
    return I.ok(I.unit(), C.destty) if ok else I.err(Opq('error'), C.destty)


@model('bincode::deserialize', 'bincode::deserialize_from')
def _deser(I, C):
    t = C.destty.a[0]
    if C.callee['r'].endswith('_from') and C.argtys and '[u8]' not in C.argtys[0].s:
        M.block(I, 'read')
    ok = I.S.fork('deserialize ok')
    ev = I.S.log('deserialize', ty=t, ok=ok, src=C.args[0])
    if ok:
        nm = I.S.fresh('de')
        ev['out'] = I.mk(t, nm)
        if 'deserialized' in I.hooks:
            I.hooks['deserialized'](I, ev)
        return I.ok(I.mk(t, nm), C.destty)
    return I.err(Opq('error'), C.destty)


@model('crc::crc16::<impl crc::Crc<u16>>::checksum')
def _crc(I, C):
    b = I.S.bnorm(bytes_of(I, C.args[1]))
    I.S.log('checksum', b=b, alg=I.deref(C.args[0]))
    return I.S.opatom('crc', (b,), 0, 65535)


@model('std::net::tcp::TcpStream::connect')
def _tcpc(I, C):
    M.block(I, 'connect')
    ok = I.S.fork('connect ok')
    nm = I.S.fresh('stream')
    I.S.log('connect', v=C.args[0], ok=ok, name=nm)
    if ok:
        return I.ok(Opq('tcp', C.destty.a[0], name=nm), C.destty)
    return I.err(Opq('ioerr'), C.destty)


@model('alloc::io::buffered::bufreader::BufReader::<R>::new', 'std::io::buffered::bufreader::BufReader::<R>::new',
       'alloc::io::buffered::bufreader::BufReader::<R>::with_capacity', 'std::io::buffered::bufreader::BufReader::<R>::with_capacity')
def _brnew(I, C):
    return Opq('bufreader', C.destty, cell=[C.args[-1]])


@model('alloc::io::buffered::bufreader::BufReader::<R>::get_mut', 'alloc::io::buffered::bufreader::BufReader::<R>::get_ref',
       'std::io::buffered::bufreader::BufReader::<R>::get_mut', 'std::io::buffered::bufreader::BufReader::<R>::get_ref')
def _brget(I, C):
    v = I.deref(C.args[0])
    if type(v) is Opq and v.kind == 'bufreader':
        return Ref(v.a['cell'])
    return NotImplemented


@model('core::io::write::Write::write_all', 'std::io::Write::write_all')
def _wall(I, C):
    v = I.dr(C.args[0])
    if type(v) is B:
        r = C.args[0]
        while type(r.c[r.i]) is Ref:
            r = r.c[r.i]
        r.c[r.i] = I.S.bnorm(B(*(v.p + bytes_of(I, C.args[1]).p)))
        return I.ok(I.unit(), C.destty)
    M.block(I, 'write')
    ok = I.S.fork('write ok')
    I.S.log('write', v=I.deref(C.args[1]), to=v, ok=ok)
    if ok:
        return I.ok(I.unit(), C.destty)
    return I.err(Opq('ioerr'), C.destty)


@model('core::num::nonzero::NonZero::<T>::new')
def _nz(I, C):
    if I.S.eq0(C.args[0]):
        return I.none(C.destty)
    return I.some(C.args[0], C.destty)


@model('arc_swap::ArcSwapAny::<T, S>::new')
def _asnew(I, C):
    return Opq('arcswap', cell=[C.args[0]])


@model('arc_swap::ArcSwapAny::<T, S>::load')
def _asload(I, C):
    v = I.deref(C.args[0])
    if type(v) is Opq and 'cell' in v.a:
        return Opq('arcswap_guard', cell=v.a['cell'])
    return NotImplemented


@model('arc_swap::ArcSwapAny::<T, S>::store')
def _asstore(I, C):
    v = I.deref(C.args[0])
    I.S.log('arcswap_store', v=C.args[1])
    if type(v) is Opq and 'cell' in v.a:
        v.a['cell'][0] = C.args[1]
    return I.unit()


@model('alloc::sync::Arc::<T, A>::ptr_eq', 'alloc::rc::Rc::<T, A>::ptr_eq', 'alloc::rcs::arc::Arc::<T, A>::ptr_eq',
       'alloc::rcs::rc::Rc::<T, A>::ptr_eq')
def _ptreq(I, C):
    def target(r):
        x = r.c[r.i] if type(r) is Ref else r
        n = 0
        while type(x) is Ref and type(x.c[x.i]) is Ref and n < 8:
            x, n = x.c[x.i], n + 1
        if type(x) is not Ref:
            raise Unsupported('identity of shared values')
        return x
    a, b = target(C.args[0]), target(C.args[1])
    return int(a.c is b.c and a.i == b.i or type(a.c[a.i]) is Opq and a.c[a.i] is b.c[b.i])


# ------------------------------------------------------------- Option / Result (hot)
def o(name):
    return model('core::option::Option::<T>::' + name)


@o('is_some')
def _issome(I, C):
    return int(I.dr(C.args[0]).vi == 1)


@o('is_none')
def _isnone(I, C):
    return int(I.dr(C.args[0]).vi == 0)


@o('unwrap')
def _unwrap(I, C):
    v = I.val(C.args[0])
    if v.vi == 1:
        return v.f[0]
    S = I.S
    raise PathEnd('panic', 'unwrap on None', S.site(), tuple(s[0] for s in S.stack))


@o('map')
def _omap(I, C):
    v = I.val(C.args[0])
    if v.vi == 1:
        return I.some(I.call_fn(C.args[1], [v.f[0]]), C.destty)
    return I.none(C.destty)


@model('core::option::Option::<T>::as_ref', 'core::option::Option::<T>::as_mut')
def _oasref(I, C):
    r = C.args[0]
    v = I.dr(r)
    if v.vi == 1:
        return I.some(Ref(v.f, 0), C.destty)
    return I.none(C.destty)


@o('filter')
def _ofilter(I, C):
    v = I.val(C.args[0])
    if v.vi == 1 and I.truth(I.call_fn(C.args[1], [Ref(v.f, 0)])):
        return v
    return I.none(C.destty)


@o('take')
def _otake(I, C):
    r = C.args[0]
    v = I.dr(r)
    r.c[r.i] = I.none(v.ty)
    return v


@model('core::ops::try_trait::Try::branch')
def _branch(I, C):
    v = I.val(C.args[0])
    t = C.destty
    if v.ty is not None and v.ty.p.endswith('Option'):
        if v.vi == 1:
            return Agg(t, 0, [v.f[0]])
        return Agg(t, 1, [I.none()])
    if v.ty is not None and v.ty.p.endswith('Result'):
        if v.vi == 0:
            return Agg(t, 0, [v.f[0]])
        return Agg(t, 1, [Agg(t.a[0], 1, [v.f[0]])])
    return NotImplemented


@model('bytes::bytes_mut::BytesMut::with_capacity', 'bytes::bytes_mut::BytesMut::new')
def _bmnew(I, C):
    if C.args:
        I.S.log('capacity', n=C.args[0])
    return B()


@model('core::io::error::Error::kind', 'std::io::error::Error::kind')
def _ioerrkind(I, C):
    e = I.deref(C.args[0])
    if type(e) is Opq:
        k = e.a.get('kind')
        if k is None:
            k = e.a['kind'] = I.mk(C.destty, I.S.fresh('io error kind'))
        return k
    return I.mk(C.destty, I.S.fresh('io error kind'))


@model('nix::unistd::fork')
def _fork(I, C):
    S = I.S
    w = ('parent', 'child', 'failed')[S.choose(3, 'fork')]
    S.log('fork', who=w, held=[h.lock for h in S.held], pid=None)
    if w == 'failed':
        return I.err(I.mk(C.destty.a[1], S.fresh('errno')), C.destty)
    t = C.destty.a[0]
    vi = [v[0] for v in t.v].index(w.capitalize())
    f = [I.mk(ft, S.fresh('pid')) for _, ft in t.v[vi][2]]
    if f:
        S.ev[-1]['pid'] = f[0]
    return I.ok(Agg(t, vi, f), C.destty)


@model('tokio::net::tcp::stream::TcpStream::into_std')
def _intostd(I, C):
    I.S.log('leaves_reactor')
    if I.S.fork('into_std ok'):
        return I.ok(Opq('tcp', C.destty.a[0], of=C.args[0]), C.destty)
    I.S.log('stream_failed')
    return I.err(Opq('ioerr'), C.destty)


# the peer may be gone, then these fail
@model(*['%s::%s' % (t, m) for t in ('tokio::net::tcp::stream::TcpStream', 'std::net::tcp::TcpStream')
         for m in ('peer_addr', 'local_addr', 'set_nodelay', 'nodelay', 'set_linger', 'linger', 'set_ttl', 'ttl',
                   'set_read_timeout', 'set_write_timeout', 'shutdown')])
def _sockopt(I, C):
    n = C.callee['r'].rsplit('::', 1)[1]
    if I.S.fork(n + ' ok'):
        t = C.destty.a[0]
        return I.ok(I.unit() if t.s == '()' else I.mk(t, I.S.fresh(n)), C.destty)
    I.S.log('stream_failed')
    return I.err(Opq('ioerr'), C.destty)


@model('std::net::tcp::TcpStream::set_nonblocking')
def _setnb(I, C):
    if I.S.fork('set_nonblocking ok'):
        return I.ok(I.unit(), C.destty)
    I.S.log('stream_failed')
    return I.err(Opq('ioerr'), C.destty)


@model('bytes::bytes_mut::BytesMut::len')
def _bmlen(I, C):
    return I.S.blen(bytes_of(I, C.args[0]))


@model('bytes::bytes_mut::BytesMut::capacity')
def _bmcap(I, C):
    S = I.S
    c = S.atom(S.fresh('capacity'), 0, 1 << 40)
    S.assume_range(lin_add(c, S.blen(bytes_of(I, C.args[0])), -1), 0, 1 << 40)
    return c


@model('bytes::bytes_mut::BytesMut::reserve')
def _bmreserve(I, C):
    return I.unit()


@model('bytes::bytes_mut::BytesMut::is_empty')
def _bmempty(I, C):
    return int(I.S.eq0(I.S.blen(bytes_of(I, C.args[0]))))


@model('bytes::bytes_mut::BytesMut::clear')
def _bmclear(I, C):
    r = last_ref(C.args[0])
    r.c[r.i] = B()
    return I.unit()


def last_ref(r):
    while type(r.c[r.i]) is Ref:
        r = r.c[r.i]
    return r


@model('bytes::bytes_mut::BytesMut::extend_from_slice', 'bytes::buf::buf_mut::BufMut::put_slice')
def _bmext(I, C):
    r = last_ref(C.args[0])
    a, b = bytes_of(I, r), bytes_of(I, C.args[1])
    r.c[r.i] = I.S.bnorm(B(*(list(a.p) + list(b.p))))
    return I.unit()


@model('bytes::bytes_mut::BytesMut::split_to', 'bytes::bytes_mut::BytesMut::split_off')
def _bmsplit(I, C):
    S = I.S
    r = last_ref(C.args[0])
    b = S.bnorm(bytes_of(I, r))
    n, k = S.blen(b), C.args[1]
    if not S.ge0(lin_add(n, k, -1)):
        raise PathEnd('panic', 'split beyond the buffer', S.site(), tuple(s[0] for s in S.stack))
    x, y = M.slice_of(I, b, 0, k), M.slice_of(I, b, k, n)
    if C.callee['r'].endswith('split_off'):
        x, y = y, x
    r.c[r.i] = y
    return x


@model('bytes::buf::buf_impl::Buf::advance')
def _bmadv(I, C):
    S = I.S
    r = last_ref(C.args[0])
    b = S.bnorm(bytes_of(I, r))
    n = S.blen(b)
    k = C.args[1]
    if not S.ge0(lin_add(n, k, -1)):
        raise PathEnd('panic', 'advance beyond the buffer', S.site(), tuple(s[0] for s in S.stack))
    r.c[r.i] = M.slice_of(I, b, k, n)
    return I.unit()


# ------------------------------------------------------------- type construction hooks
@model('core::cell::UnsafeCell::<T>::new')
def _uc_new(I, C):
    return Agg(C.destty, 0, [C.args[0]])


@model('core::cell::UnsafeCell::<T>::get')
def _uc_get(I, C):
    v = I.dr(C.args[0])
    return Ref(v.f, 0)


def setup(I):
    import models
    models.I_ = I
    I.models = models
    I.model_d = D
    I.init_types()
    mh = I.mkhooks
    mh['alloc::vec::Vec'] = lambda I, ty, n: B(n) if ty.a[0].s == 'u8' else models.new_seq_sym(ty.a[0], n)
    mh['alloc::string::String'] = lambda I, ty, n: B(n)
    mh['alloc::collections::vec_deque::VecDeque'] = lambda I, ty, n: models.new_seq_sym(ty.a[0], n)
    mh['std::collections::hash::map::HashMap'] = models.mk_map('hash')
    mh['alloc::collections::btree::map::BTreeMap'] = models.mk_map('hash')
    mh['std::collections::hash::set::HashSet'] = models.mk_map('set')
    mh['alloc::collections::btree::set::BTreeSet'] = models.mk_map('bset')
    mh['bytes::bytes_mut::BytesMut'] = lambda I, ty, n: B(n)
    mh['lock_api::mutex::Mutex'] = lambda I, ty, n: Lock(n, [I.mk(ty.a[1], n)])
    mh['lock_api::rwlock::RwLock'] = lambda I, ty, n: Lock(n, [I.mk(ty.a[1], n)], 'rw')
    mh['flume::Sender'] = lambda I, ty, n: Opq('sender', ty, name=n)
    mh['flume::Receiver'] = lambda I, ty, n: Opq('receiver', ty, name=n)
    mh['tokio::sync::notify::Notify'] = lambda I, ty, n: Opq('notify', ty, name=n)
    mh['tokio::sync::semaphore::Semaphore'] = lambda I, ty, n: Opq('semaphore', ty, name=n)
    mh['core::sync::atomic::Atomic'] = lambda I, ty, n: Agg(ty, 0, [I.mk(ty.a[0], n)], tag=n)
    mh['std::net::tcp::TcpStream'] = lambda I, ty, n: Opq('tcp', ty, name=n)
    for br in ('alloc', 'std'):
        mh[br + '::io::buffered::bufreader::BufReader'] = lambda I, ty, n: Opq('bufreader', ty, cell=[I.mk(ty.a[0], n)])
    mh['tokio::net::tcp::stream::TcpStream'] = lambda I, ty, n: Opq('tcp', ty, name=n)
    for a in ('SocketAddr', 'SocketAddrV4', 'SocketAddrV6'):
        mh['core::net::socket_addr::' + a] = lambda I, ty, n: Opq('addr', ty, name=n)
    mh['arc_swap::ArcSwapAny'] = lambda I, ty, n: Opq('arcswap', ty, name=n, cell=[I.mk(ty.a[0], n)])
    mh['ahash::random_state::RandomState'] = lambda I, ty, n: Opq('rs', ty)
    mh['core::cell::UnsafeCell'] = lambda I, ty, n: Agg(ty, 0, [I.mk(ty.a[0], n)])
    mh['core::marker::PhantomData'] = lambda I, ty, n: Agg(ty, 0, [])

    def sorted_set(I, sym):
        a = Agg(sym.ty, 0, [I.mk(ft, '%s.%s' % (sym.name, fn)) for fn, ft in sym.ty.v[0][2]])
        hm = [x for x in a.f if type(x) is Map and x.kind == 'hash']
        bs = [x for x in a.f if type(x) is Map and x.kind == 'bset']
        if len(hm) == 1 and len(bs) == 1:
            bs[0].link = hm[0]
            hm[0].nodekey = True
            bs[0].len0 = hm[0].len0
        return a
    I.forcehooks['dict::data_type::sorted_set::SortedSet'] = sorted_set

    def data_type(I, sym):
        """stored values: nested elements are scalars, stored collections are not empty"""
        S = I.S
        ty = sym.ty
        vi = S.enumv.get(sym.name)
        if vi is None:
            names = [v[0] for v in ty.v]
            nested = '@Kvp.' in sym.name or '@Deque.' in sym.name
            sc = ['Bytes', 'Integer', 'String'] if nested else \
                ['Bytes', 'Integer', 'String', 'Kvp', 'Deque', 'Set', 'SortedSet']
            cands = [names.index(n) for n in sc if n in names]
            other = [i for i, n in enumerate(names) if n not in sc and n not in (
                'Null', 'Float', 'Kvp', 'Deque', 'Set', 'SortedSet')]
            cands += other
            if nested and S.data.get('nested'):
                cands = cands[:1]
            S.data['nested'] = S.data.get('nested') or nested
            vi = cands[S.choose(len(cands), sym.name)]
            S.enumv[sym.name] = vi
        n, d, fs = ty.v[vi]
        r = Agg(ty, vi, [I.mk(ft, '%s@%s.%s' % (sym.name, n, fn)) for fn, ft in fs])
        if n in ('Kvp', 'Deque', 'Set', 'SortedSet'):
            c = container(I, r)
            if c is not None:
                ln = c.len0 if type(c) is Map else models.length(I, c)
                if ('nonempty', sym.name) not in S.memo:
                    S.memo[('nonempty', sym.name)] = 1
                    S.assume_range(ln, 1, INF)
        return r
    I.forcehooks['dict::data_type::DataType'] = data_type


def container(I, v, depth=4):
    """the collection held by a stored value"""
    v = I.val(I.deref(v))
    if type(v) in (Map, Seq):
        return v
    if type(v) is Agg and depth:
        for i in range(len(v.f)):
            r = container(I, I.force(v.f, i), depth - 1)
            if r is not None:
                return r
    return None


import api2        # noqa: E402,F401  (further models)
