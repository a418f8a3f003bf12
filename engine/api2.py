"""Models of standard-library functions the current tree does not (all) use but a behaviour-preserving
rewrite might.  Same conventions as api.py."""
from core import *
import models as M
from models import *
import api
from api import (D, model, itm, get_it, drain_it, cmp_vals, ord_cmp, canon, byte_pos, fkeyname, accepts,
                 themap, collect, keq, HM, HS, BS, BM, OE, VE, EE, default_of, bytes_of, map_ins)

IT = 'core::iter::traits::iterator::Iterator::'
DE = 'core::iter::traits::double_ended::DoubleEndedIterator::'
SL = 'core::slice::<impl [T]>::'
SA = 'alloc::slice::<impl [T]>::'
V = 'alloc::vec::Vec::<T, A>::'
VD = 'alloc::collections::vec_deque::VecDeque::<T, A>::'
STR = 'core::str::<impl str>::'
AST = 'alloc::str::<impl str>::'
STG = 'alloc::string::String::'


def cell(I, r):
    """the Ref whose cell holds the value itself"""
    v = I.dr(r)
    while type(v) is Ref:
        r = v
        v = I.dr(r)
    return r, v


# ------------------------------------------------------------- iterators
def back_it(I, it):
    while True:
        v = it.next_back(I)
        if v is STOP:
            return
        yield v


@itm('rposition')
def _rposition(I, C):
    it = get_it(I, C.args[0])
    if getattr(it, 'bytes', None) is not None:
        return rpos_bytes(I, C, it)
    l = drain_list(I, it)
    for k in range(len(l) - 1, -1, -1):
        if I.truth(I.call_fn(C.args[1], [l[k]])):
            return I.some(k, C.destty)
    return I.none(C.destty)


def rpos_bytes(I, C, it):
    """the last byte satisfying a predicate: the first one is tried, then the last is it or lies behind it"""
    S = I.S
    f = C.args[1]
    first = byte_pos(I, it.bytes, f, it)
    if first is None:
        return I.none(C.destty)
    b = S.bnorm(it.bytes)
    fk = (it.bkey + '|' if it.bkey else '') + fkeyname(I, f)
    key = ('rpos', b.p, fk)
    p = S.memo.get(key)
    if p is None:
        acc = frozenset(c for c in range(256) if accepts(I, f, c, it))
        pos = 0
        out = None
        for x in b.p:            # known bytes behind the last unknown part decide it
            if type(x) is bytes:
                hit = [i for i, c in enumerate(x) if c in acc]
                if hit:
                    out = lin_add(pos, hit[-1])
                pos = lin_add(pos, len(x))
            else:
                clean = (S.data.get('clean') or {}).get(x, frozenset())
                if not acc <= clean:
                    out = None
                    break
                pos = lin_add(pos, S.symlen(x))
        else:
            S.memo[key] = out
            return I.some(out, C.destty)
        if S.fork('last is first'):
            p = first
        else:
            p = S.atom('rpos(%r,%s)' % (b.p, fk), 0, 2**30)
            S.assume_range(lin_add(lin_add(p, first, -1), -1), 0, INF)
            S.assume_range(lin_add(lin_add(S.blen(b), p, -1), -1), 0, INF)
        S.memo[key] = p
    return I.some(p, C.destty)


@model(DE + 'rfind')
def _rfind(I, C):
    for v in back_it(I, get_it(I, C.args[0])):
        if I.truth(I.call_fn(C.args[1], [Ref([v])])):
            return I.some(v, C.destty)
    return I.none(C.destty)


@model(DE + 'rfold')
def _rfold(I, C):
    acc = C.args[1]
    for v in back_it(I, get_it(I, C.args[0])):
        acc = I.call_fn(C.args[2], [acc, v])
    return acc


@model(DE + 'nth_back')
def _nthback(I, C):
    it, n = get_it(I, C.args[0]), C.args[1]
    k = 0
    for v in back_it(I, it):
        if I.S.eq0(lin_add(n, k, -1)):
            return I.some(v, C.destty)
        k += 1
    return I.none(C.destty)


@itm('partition')
def _partition(I, C):
    yes, no = [], []
    for v in drain_it(I, get_it(I, C.args[0])):
        (yes if I.truth(I.call_fn(C.args[1], [Ref([v])])) else no).append(v)
    t = C.destty
    ts = list(t.a) if t is not None and t.a else None
    if ts is None or len(ts) < 1:
        raise Unsupported('partition')
    return Agg(t, 0, [collect(I, list_it(lambda I: yes), ts[0]), collect(I, list_it(lambda I: no), ts[-1])])


@itm('unzip')
def _unzip(I, C):
    a, b = [], []
    for v in drain_it(I, get_it(I, C.args[0])):
        v = I.val(v)
        a.append(v.f[0])
        b.append(v.f[1])
    t = C.destty
    ts = list(t.a) if t is not None and t.a else None
    if ts is None or len(ts) != 2:
        raise Unsupported('unzip')
    return Agg(t, 0, [collect(I, list_it(lambda I: a), ts[0]), collect(I, list_it(lambda I: b), ts[1])])


@itm('map_while')
def _mapwhile(I, C):
    it, f = get_it(I, C.args[0]), C.args[1]
    st = {}

    def g(I):
        if st:
            return STOP
        v = it.next(I)
        if v is not STOP:
            r = I.val(I.call_fn(f, [v]))
            if r.vi == 1:
                return r.f[0]
        st['d'] = 1
        return STOP
    return It(g)


@itm('scan')
def _scan(I, C):
    it, f = get_it(I, C.args[0]), C.args[2]
    st = [C.args[1]]
    done = []

    def g(I):
        if done:
            return STOP
        v = it.next(I)
        if v is not STOP:
            r = I.val(I.call_fn(f, [Ref(st, 0), v]))
            if r.vi == 1:
                return r.f[0]
        done.append(1)
        return STOP
    return It(g)


@itm('fuse')
def _fuse(I, C):
    return get_it(I, C.args[0])


@itm('product')
def _product(I, C):
    acc = 1
    for v in drain_it(I, get_it(I, C.args[0])):
        v = I.deref(v)
        if type(acc) is int:
            acc = lin_scale(v, acc)
        elif type(v) is int:
            acc = lin_scale(acc, v)
        else:
            raise Unsupported('product')
    return acc


@itm('reduce')
def _reduce(I, C):
    acc = None
    for v in drain_it(I, get_it(I, C.args[0])):
        acc = v if acc is None else I.call_fn(C.args[1], [acc, v])
    return I.none(C.destty) if acc is None else I.some(acc, C.destty)


def ordering(I, v):
    return I.val(v).vi - 1


def best_of(I, C, cmpf, mx):
    best = None
    for v in drain_it(I, get_it(I, C.args[0])):
        if best is None:
            best = v
            continue
        o = cmpf(v, best)
        if (o >= 0) if mx else (o < 0):
            best = v
    return I.none(C.destty) if best is None else I.some(best, C.destty)


def value_cmp(I):
    def f(a, b):
        x, y = canon(I, a), canon(I, b)
        t = getattr(x, 'ty', None)
        k = '<%s as core::cmp::Ord>::cmp' % t.s if t is not None else None
        if k in I.P.fns:
            return I.val(I.call_key(k, [Ref([x]), Ref([y])])).vi - 1
        o = cmp_vals(I, x, y)
        if o is None:
            raise Unsupported('order')
        return o
    return f


@itm('min')
def _itmin(I, C):
    return best_of(I, C, value_cmp(I), False)


@itm('min_by')
def _itminby(I, C):
    return best_of(I, C, lambda a, b: ordering(I, I.call_fn(C.args[1], [Ref([a]), Ref([b])])), False)


@itm('max_by')
def _itmaxby(I, C):
    return best_of(I, C, lambda a, b: ordering(I, I.call_fn(C.args[1], [Ref([a]), Ref([b])])), True)


def by_key(I, C, mx):
    f = C.args[1]
    memo = {}

    def key(v):
        if id(v) not in memo:
            memo[id(v)] = (v, I.call_fn(f, [Ref([v])]))
        return memo[id(v)][1]
    vc = value_cmp(I)
    return best_of(I, C, lambda a, b: vc(key(a), key(b)), mx)


@itm('min_by_key')
def _itminkey(I, C):
    return by_key(I, C, False)


@itm('max_by_key')
def _itmaxkey(I, C):
    return by_key(I, C, True)


def it_cmp(I, a, b):
    vc = value_cmp(I)
    while True:
        x = a.next(I)
        y = b.next(I)
        if x is STOP or y is STOP:
            return (y is STOP) - (x is STOP) if (x is STOP) != (y is STOP) else 0
        o = vc(x, y)
        if o:
            return o


@itm('cmp')
def _itcmp(I, C):
    return I.order(it_cmp(I, get_it(I, C.args[0]), get_it(I, C.args[1])))


@itm('eq')
def _iteq(I, C):
    a, b = get_it(I, C.args[0]), get_it(I, C.args[1])
    while True:
        x, y = a.next(I), b.next(I)
        if x is STOP or y is STOP:
            return int(x is y)
        if not keq(I, x, y):
            return 0


@itm('ne')
def _itne(I, C):
    return 1 - _iteq(I, C)


@model('core::iter::sources::once_with::once_with')
def _oncewith(I, C):
    f = C.args[0]
    return list_it(lambda I: [I.call_fn(f, [])])


@model('core::iter::sources::repeat_n::repeat_n')
def _repeatn(I, C):
    n = C.args[1]
    if type(n) is not int or n > 4096:
        raise Unsupported('repeat_n')
    return list_it(lambda I: [M.clone(I, C.args[0]) for _ in range(n)])


@model('core::iter::sources::repeat_with::repeat_with')
def _repeatwith(I, C):
    f = C.args[0]
    return It(lambda I: I.call_fn(f, []))


@model('core::iter::sources::from_fn::from_fn')
def _fromfn(I, C):
    f = C.args[0]

    def g(I):
        r = I.val(I.call_fn(f, []))
        return r.f[0] if r.vi == 1 else STOP
    return It(g)


@model('core::iter::sources::successors::successors')
def _successors(I, C):
    st = [I.val(C.args[0])]
    f = C.args[1]

    def g(I):
        r = st[0]
        if r.vi != 1:
            return STOP
        st[0] = I.val(I.call_fn(f, [Ref([r.f[0]])]))
        return r.f[0]
    return It(g)


# ------------------------------------------------------------- vectors, slices, deques
@model(V + 'insert', VD + 'insert')
def _vinsert(I, C):
    r, v = cell(I, C.args[0])
    i, x = C.args[1], C.args[2]
    n = length(I, v)
    if not I.S.ge0(lin_add(n, i, -1)):
        M.bounds_panic(I, 'insertion index > len')
    if type(v) is B:
        if type(x) is not int:
            raise Unsupported('insert byte')
        a, b = M.slice_of(I, v, 0, i), M.slice_of(I, v, i, n)
        r.c[r.i] = I.S.bnorm(B(*(a.p + (bytes([x]),) + b.p)))
        return I.unit()
    v.segs.insert(M.seq_split(I, v, i), Ref([x]))
    return I.unit()


@model(V + 'split_off', VD + 'split_off')
def _splitoff(I, C):
    r, v = cell(I, C.args[0])
    i = C.args[1]
    n = length(I, v)
    if not I.S.ge0(lin_add(n, i, -1)):
        M.bounds_panic(I, '`at` split index > len')
    if type(v) is B:
        a, b = M.slice_of(I, v, 0, i), M.slice_of(I, v, i, n)
        r.c[r.i] = a
        return b
    k = M.seq_split(I, v, i)
    out = v.segs[k:]
    del v.segs[k:]
    return Seq(out)


@model(VD + 'get', VD + 'get_mut')
def _dqget(I, C):
    v = I.deref(C.args[0])
    n = length(I, v)
    i = C.args[1]
    if not I.S.ge0(lin_add(lin_add(n, i, -1), -1)):
        return I.none(C.destty)
    return I.some(index_ref(I, v, i), C.destty)


def index_ref(I, v, i):
    a = M.seq_split(I, v, i)
    M.seq_split(I, v, lin_add(i, 1))
    s = v.segs[a]
    return s if type(s) is Ref else Ref(M.seg_elem(I, s, s.lo))


@model(VD + 'front_mut', VD + 'back_mut')
def _dqends(I, C):
    v = I.deref(C.args[0])
    n = length(I, v)
    if not I.S.ge0(lin_add(n, -1)):
        return I.none(C.destty)
    return I.some(index_ref(I, v, 0 if 'front' in C.callee['r'] else lin_add(n, -1)), C.destty)


@model(VD + 'make_contiguous', VD + 'as_slices', VD + 'as_mut_slices')
def _contig(I, C):
    if 'slices' in C.callee['r']:
        v = I.deref(C.args[0])
        return Agg(C.destty, 0, [Ref([v]), Ref([Seq([])])])
    return C.args[0]


@model(VD + 'contains')
def _dqcontains(I, C):
    v = I.deref(C.args[0])
    for r in materialize(I, v):
        if keq(I, r, C.args[1]):
            return 1
    return 0


@model(VD + 'swap', SL + 'swap')
def _swap(I, C):
    v = I.deref(C.args[0])
    if type(v) is B or type(v) is Agg:
        raise Unsupported('swap')
    n = length(I, v)
    for i in C.args[1:3]:
        if not I.S.ge0(lin_add(lin_add(n, i, -1), -1)):
            M.bounds_panic(I)
    a, b = index_ref(I, v, C.args[1]), index_ref(I, v, C.args[2])
    x, y = I.force(a.c, a.i), I.force(b.c, b.i)
    a.c[a.i], b.c[b.i] = y, x
    return I.unit()


@model(V + 'resize', VD + 'resize', V + 'resize_with')
def _resize(I, C):
    r, v = cell(I, C.args[0])
    n, want = length(I, v), C.args[1]
    if I.S.ge0(lin_add(n, want, -1)):
        if type(v) is B:
            r.c[r.i] = M.slice_of(I, v, 0, want)
        else:
            del v.segs[M.seq_split(I, v, want):]
        return I.unit()
    more = lin_add(want, n, -1)
    if type(more) is not int or more > 4096:
        if type(v) is B and C.args[2] == 0:
            nm = I.S.fresh('zeros')
            I.S.assume_range(lin_add(I.S.symlen(nm), more, -1), 0, 0)
            r.c[r.i] = I.S.bnorm(B(*(v.p + (nm,))))
            return I.unit()
        raise Unsupported('resize')
    for _ in range(more):
        x = I.call_fn(C.args[2], []) if C.callee['r'].endswith('resize_with') else M.clone(I, C.args[2])
        if type(v) is B:
            if type(x) is not int:
                raise Unsupported('resize')
            v = r.c[r.i] = I.S.bnorm(B(*(v.p + (bytes([x]),))))
        else:
            v.segs.append(Ref([x]))
    return I.unit()


def sort_refs(I, rs, cmpf):
    out = []
    for r in rs:
        j = len(out)
        while j > 0 and cmpf(r.c[r.i], out[j - 1].c[out[j - 1].i]) < 0:
            j -= 1
        out.insert(j, r)
    return out


def sorted_seq(I, C, cmpf):
    v = I.deref(C.args[0])
    if type(v) is B:
        k = I.S.bknown(v)
        if k is None:
            raise Unsupported('sort bytes')
        r, _ = cell(I, C.args[0])
        vs = [Ref([x]) for x in k]
        r.c[r.i] = bconst(bytes(x.c[0] for x in sort_refs(I, vs, cmpf)))
        return I.unit()
    if type(v) is Agg:
        rs = [Ref([x]) for x in v.f]
        v.f[:] = [r.c[0] for r in sort_refs(I, rs, cmpf)]
        return I.unit()
    rs = materialize(I, v)
    v.segs[:] = [Ref([I.force(r.c, r.i)]) for r in sort_refs(I, rs, cmpf)]
    return I.unit()


@model(SA + 'sort', SL + 'sort_unstable')
def _sort(I, C):
    return sorted_seq(I, C, value_cmp(I))


@model(SA + 'sort_by', SL + 'sort_unstable_by')
def _sortby(I, C):
    return sorted_seq(I, C, lambda a, b: ordering(I, I.call_fn(C.args[1], [Ref([a]), Ref([b])])))


@model(SA + 'sort_by_key', SL + 'sort_unstable_by_key', SA + 'sort_by_cached_key')
def _sortkey(I, C):
    vc = value_cmp(I)
    return sorted_seq(I, C, lambda a, b: vc(I.call_fn(C.args[1], [Ref([a])]), I.call_fn(C.args[1], [Ref([b])])))


def dedup(I, C, same):
    v = I.deref(C.args[0])
    if type(v) is B:
        raise Unsupported('dedup bytes')
    keep = []
    for r in materialize(I, v):
        if keep and same(r, keep[-1]):
            I.drop_value(r.c[r.i], None)
        else:
            keep.append(r)
    v.segs[:] = keep
    return I.unit()


@model(V + 'dedup')
def _dedup(I, C):
    return dedup(I, C, lambda a, b: keq(I, a, b))


@model(V + 'dedup_by')
def _dedupby(I, C):
    return dedup(I, C, lambda a, b: I.truth(I.call_fn(C.args[1], [a, b])))


@model(V + 'dedup_by_key')
def _dedupkey(I, C):
    return dedup(I, C, lambda a, b: keq(I, I.call_fn(C.args[1], [a]), I.call_fn(C.args[1], [b])))


@model(SL + 'ends_with')
def _endswith(I, C):
    a, b = I.deref(C.args[0]), I.deref(C.args[1])
    n, k = length(I, a), length(I, b)
    if not I.S.ge0(lin_add(n, k, -1)):
        return 0
    return int(keq(I, M.slice_of(I, a, lin_add(n, k, -1), n), b))


@model(SL + 'split_first', SL + 'split_last')
def _splitends(I, C):
    v = I.deref(C.args[0])
    n = length(I, v)
    if not I.S.ge0(lin_add(n, -1)):
        return I.none(C.destty)
    if type(v) is B:
        k = I.S.bknown(v)
        if k is None:
            raise Unsupported('split_first of bytes')
        if C.callee['r'].endswith('first'):
            return I.some(Agg(None, 0, [Ref([k[0]]), Ref([bconst(k[1:])])]), C.destty)
        return I.some(Agg(None, 0, [Ref([k[-1]]), Ref([bconst(k[:-1])])]), C.destty)
    s = as_seq(I, v)
    if C.callee['r'].endswith('first'):
        return I.some(Agg(None, 0, [index_ref(I, s, 0), Ref([M.slice_of(I, s, 1, n)])]), C.destty)
    m = lin_add(n, -1)
    return I.some(Agg(None, 0, [index_ref(I, s, m), Ref([M.slice_of(I, s, 0, m)])]), C.destty)


def chunked(I, C, step, exact):
    v = I.deref(C.args[0])
    k = C.args[1]
    if type(k) is not int:
        raise Unsupported('chunks')

    def get(I):
        rs = materialize(I, as_seq(I, v))
        out = []
        i = 0
        while i < len(rs):
            part = rs[i:i + k]
            if len(part) < k and exact:
                break
            out.append(Ref([Seq(list(part))]))
            i += step or k
        return out
    return list_it(get)


@model(SL + 'chunks')
def _chunks(I, C):
    return chunked(I, C, None, False)


@model(SL + 'chunks_exact')
def _chunksx(I, C):
    return chunked(I, C, None, True)


@model(SL + 'windows')
def _windows(I, C):
    return chunked(I, C, 1, True)


@model(SA + 'concat')
def _concat(I, C):
    v = I.deref(C.args[0])
    out = None
    for r in materialize(I, as_seq(I, v)):
        x = I.val(I.deref(r))
        if type(x) is B:
            out = B() if out is None else out
            out = B(*(out.p + x.p))
        else:
            out = Seq([]) if out is None else out
            out.segs.extend(M.clone(I, as_seq(I, x)).segs)
    if out is None:
        return default_of(I, C.destty)
    return I.S.bnorm(out) if type(out) is B else out


@model(SA + 'join')
def _join(I, C):
    v = I.deref(C.args[0])
    sep = I.deref(C.args[1])
    if type(sep) is not B:
        raise Unsupported('join')
    ps = []
    for n, r in enumerate(materialize(I, as_seq(I, v))):
        if n:
            ps.extend(sep.p)
        ps.extend(bytes_of(I, r).p)
    return I.S.bnorm(B(*ps))


@model(SA + 'repeat', AST + 'repeat')
def _repeat(I, C):
    k = I.S.bknown(I.deref(C.args[0]))
    if k is None or type(C.args[1]) is not int or C.args[1] * len(k) > 65536:
        raise Unsupported('repeat')
    return bconst(k * C.args[1])


@model(SL + 'fill')
def _fill(I, C):
    r, v = cell(I, C.args[0])
    if type(v) is Agg:
        v.f[:] = [M.clone(I, C.args[1]) for _ in v.f]
        return I.unit()
    if type(v) is B:
        k = I.S.bknown(v)
        if k is None or type(C.args[1]) is not int:
            raise Unsupported('fill')
        r.c[r.i] = bconst(bytes([C.args[1]]) * len(k))
        return I.unit()
    for x in materialize(I, v):
        x.c[x.i] = M.clone(I, C.args[1])
    return I.unit()


def bsearch(I, C, cmpf):
    v = as_seq(I, I.deref(C.args[0]))
    rs = materialize(I, v)
    for k, r in enumerate(rs):
        o = cmpf(r)
        if o == 0:
            return I.ok(k, C.destty)
        if o > 0:
            return I.err(k, C.destty)
    return I.err(len(rs), C.destty)


@model(SL + 'partition_point')
def _ppoint(I, C):
    rs = materialize(I, as_seq(I, I.deref(C.args[0])))
    for k, r in enumerate(rs):
        if not I.truth(I.call_fn(C.args[1], [r])):
            return k
    return len(rs)


# ------------------------------------------------------------- maps and sets
@model(HM + 'drain', HS + 'drain')
def _mdrain(I, C):
    m = themap(I, C.args[0])
    out = []
    for e in list(m.materialize(I)):
        if m.kind == 'hash':
            out.append(Agg(None, 0, [M.boxkey(I, m, e.key), e.cell[0]]))
        else:
            out.append(M.boxkey(I, m, e.key))
        e.cell = None
        e.touched = True
    return list_it(lambda I: out)


@model(HM + 'into_keys', HM + 'into_values', BM + 'into_keys', BM + 'into_values')
def _minto(I, C):
    it = map_it(I, I.val(C.args[0]), 'own')
    i = 0 if C.callee['r'].endswith('keys') else 1

    def g(I):
        v = it.next(I)
        return v if v is STOP else I.val(v).f[i]
    return It(g, None, it.ln)


@model(HM + 'get_key_value', BM + 'get_key_value')
def _mgetkv(I, C):
    m = themap(I, C.args[0])
    e = m.lookup(I, canon(I, C.args[1]))
    if e.cell is None:
        return I.none(C.destty)
    return I.some(Agg(None, 0, [Ref([M.boxkey(I, m, e.key)]), Ref(e.cell)]), C.destty)


@model(BM + 'iter', BM + 'iter_mut', BM + 'values', BM + 'values_mut', BM + 'is_empty', BM + 'clear', BM + 'retain',
       BM + 'first_key_value', BM + 'last_key_value', BM + 'pop_first', BM + 'pop_last')
def _bmap(I, C):
    raise Unsupported('ordered map')


@model(OE + 'key', VE + 'key')
def _ekey(I, C):
    a = I.deref(C.args[0]).a
    return Ref([M.boxkey(I, a['m'], a['e'].key)])


@model(EE + 'key')
def _eekey(I, C):
    a = I.val(I.deref(C.args[0])).f[0].a
    return Ref([M.boxkey(I, a['m'], a['e'].key)])


@model(VE + 'into_key')
def _vekey(I, C):
    return I.deref(C.args[0]).a['key']


@model(OE + 'remove_entry')
def _oreme(I, C):
    a = I.deref(C.args[0]).a
    e = a['e']
    old = e.cell[0]
    e.cell = None
    e.touched = True
    return Agg(None, 0, [M.boxkey(I, a['m'], e.key), old])


@model(EE + 'or_insert_with_key')
def _orinskey(I, C):
    a = I.val(C.args[0]).f[0].a
    e = a['e']
    if e.cell is None:
        e.cell = [I.call_fn(C.args[1], [Ref([M.boxkey(I, a['m'], e.key)])])]
        e.touched = True
    return Ref(e.cell)


@model(EE + 'insert_entry', VE + 'insert_entry')
def _einsert(I, C):
    a = I.val(C.args[0])
    o = a if type(a) is Opq else a.f[0]
    e = o.a['e']
    e.cell = [C.args[1]]
    e.touched = True
    return o


@model(HS + 'is_subset', HS + 'is_disjoint', HS + 'is_superset', HS + 'difference', HS + 'intersection', HS + 'union')
def _setops(I, C):
    op = C.callee['r'].rsplit('::', 1)[1]
    a, b = themap(I, C.args[0]), themap(I, C.args[1])
    if op == 'is_superset':
        a, b = b, a
    if op in ('is_subset', 'is_superset', 'is_disjoint'):
        for e in list(a.materialize(I)):
            hit = b.lookup(I, e.key).cell is not None
            if hit == (op == 'is_disjoint'):
                return 0
        return 1

    def get(I):
        out = []
        for e in list(a.materialize(I)):
            hit = b.lookup(I, e.key).cell is not None
            if op == 'union' or hit == (op == 'intersection'):
                out.append(Ref([M.boxkey(I, a, e.key)]))
        if op == 'union':
            for e in list(b.materialize(I)):
                if a.lookup(I, e.key).cell is None:
                    out.append(Ref([M.boxkey(I, b, e.key)]))
        return out
    return list_it(get)


# ------------------------------------------------------------- strings
@model(STR + 'bytes')
def _strbytes(I, C):
    b = bytes_of(I, C.args[0])
    k = I.S.bknown(b)
    if k is not None:
        return list_it(lambda I: list(k))
    it = M.byte_it(I, b)
    it.elem = lambda c: c
    it.bkey = 'copied'
    return it


def known_str(I, v, what):
    k = I.S.bknown(bytes_of(I, v))
    if k is None:
        raise Unsupported(what)
    return k.decode('utf-8')


@model(STR + 'chars')
def _chars(I, C):
    s = known_str(I, C.args[0], 'chars')
    return list_it(lambda I: [ord(c) for c in s])


@model(STR + 'char_indices')
def _charidx(I, C):
    s = known_str(I, C.args[0], 'chars')
    out, p = [], 0
    for c in s:
        out.append(Agg(None, 0, [p, ord(c)]))
        p += len(c.encode())
    return list_it(lambda I: out)


def pattern(I, p):
    """a predicate over known strings: the pattern as a string, or None"""
    x = I.val(I.deref(p))
    if type(x) is int:
        return chr(x)
    if type(x) is B:
        k = I.S.bknown(x)
        if k is not None:
            return k.decode('utf-8')
    raise Unsupported('string pattern')


@model(STR + 'contains', STR + 'find', STR + 'rfind', STR + 'split_once', STR + 'rsplit_once', STR + 'strip_suffix',
       STR + 'ends_with')
def _strpat(I, C):
    op = C.callee['r'].rsplit('::', 1)[1]
    p = pattern(I, C.args[1])
    b = bytes_of(I, C.args[0])
    if op in ('strip_suffix', 'ends_with'):
        q = p.encode()
        n = I.S.blen(b)
        hit = False
        if I.S.ge0(lin_add(n, -len(q))):
            hit = keq(I, M.slice_of(I, b, lin_add(n, -len(q)), n), bconst(q))
        if op == 'ends_with':
            return int(hit)
        return I.some(Ref([M.slice_of(I, b, 0, lin_add(n, -len(q)))]), C.destty) if hit else I.none(C.destty)
    s = known_str(I, b, op)
    if op == 'contains':
        return int(p in s)
    i = s.rfind(p) if op[0] == 'r' else s.find(p)
    if i < 0:
        return I.none(C.destty)
    if op.endswith('find'):
        return I.some(len(s[:i].encode()), C.destty)
    return I.some(Agg(None, 0, [Ref([bconst(s[:i].encode())]), Ref([bconst(s[i + len(p):].encode())])]), C.destty)


@model(STR + 'split', STR + 'rsplit', STR + 'split_terminator')
def _strsplit(I, C):
    s, p = known_str(I, C.args[0], 'split'), pattern(I, C.args[1])
    l = s.split(p)
    if C.callee['r'].endswith('terminator') and l and l[-1] == '':
        l.pop()
    if C.callee['r'].endswith('rsplit'):
        l.reverse()
    return list_it(lambda I: [Ref([bconst(x.encode())]) for x in l])


@model(STR + 'split_whitespace', STR + 'lines')
def _strws(I, C):
    s = known_str(I, C.args[0], 'split')
    l = s.split() if C.callee['r'].endswith('whitespace') else s.splitlines()
    return list_it(lambda I: [Ref([bconst(x.encode())]) for x in l])


@model(STR + 'trim', STR + 'trim_start', STR + 'trim_end')
def _strtrim(I, C):
    s = known_str(I, C.args[0], 'trim')
    op = C.callee['r']
    s = s.lstrip() if op.endswith('start') else s.rstrip() if op.endswith('end') else s.strip()
    return Ref([bconst(s.encode())])


@model(STG + 'push')
def _strpush(I, C):
    r, v = cell(I, C.args[0])
    if type(C.args[1]) is not int:
        raise Unsupported('push char')
    r.c[r.i] = I.S.bnorm(B(*(v.p + (chr(C.args[1]).encode(),))))
    return I.unit()


@model(STG + 'insert_str')
def _strins(I, C):
    r, v = cell(I, C.args[0])
    n = I.S.blen(v)
    a, b = M.slice_of(I, v, 0, C.args[1]), M.slice_of(I, v, C.args[1], n)
    r.c[r.i] = I.S.bnorm(B(*(a.p + bytes_of(I, C.args[2]).p + b.p)))
    return I.unit()


@model(STG + 'from_utf8_lossy')
def _lossy(I, C):
    """text of bytes: the bytes themselves when they are text, other bytes (never shorter) otherwise"""
    S = I.S
    b = S.bnorm(bytes_of(I, C.args[0]))
    t = C.destty
    out = []
    same = True
    for p in b.p:
        if type(p) is bytes:
            q = p.decode('utf-8', 'replace').encode()
            same = same and q == p
            out.append(q)
            continue
        if S.bclass.get(p) in ('int', 'float', 'word'):
            out.append(p)
            continue
        k = ('utf8', p)
        if k not in S.memo:
            S.memo[k] = S.fork('utf8')
        if S.memo[k]:
            out.append(p)
        else:
            same = False
            nm = 'lossy(%s)' % p
            if ('len', nm) not in S.memo:
                S.memo[('len', nm)] = True
                S.assume_range(lin_add(S.symlen(nm), S.symlen(p), -1), 0, 2**30)
            out.append(nm)
    r = S.bnorm(B(*out))
    for i, v in enumerate(t.v):
        if (v[0] == 'Borrowed') == same:
            return Agg(t, i, [Ref([r]) if same else r])
    raise Unsupported('Cow')


@model('alloc::borrow::Cow::<\'_, B>::into_owned', 'alloc::borrow::Cow::<\'a, B>::into_owned')
def _cowowned(I, C):
    v = I.val(C.args[0])
    x = v.f[0]
    return M.clone(I, I.deref(x)) if type(x) is Ref else x


# ------------------------------------------------------------- io
@model('tokio::io::util::async_write_ext::AsyncWriteExt::write')
def _awrite(I, C):
    return api.fut('write')(I, C)


@model('core::ops::deref::Deref::deref')
def _cowderef(I, C):
    v = I.dr(C.args[0])
    if type(v) is Agg and v.ty is not None and v.ty.p == 'alloc::borrow::Cow':
        x = v.f[0]
        return x if type(x) is Ref and v.vn() == 'Borrowed' else Ref(v.f, 0)
    return api._deref(I, C)


# ------------------------------------------------------------- integers
def trunc_div(I, a, b):
    """(quotient, remainder) rounded towards zero; b != 0"""
    if type(a) is int and type(b) is int:
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return q, a - q * b
    if type(b) is not int:
        raise Unsupported('division by an unknown')
    S = I.S
    m = abs(b)
    if S.ge0(a):
        q = S.div_const(a, m)
        r = lin_add(a, lin_scale(q, m), -1)
    else:
        n = lin_scale(a, -1)
        q = S.div_const(n, m)
        r = lin_scale(lin_add(n, lin_scale(q, m), -1), -1)
        q = lin_scale(q, -1)
    return (lin_scale(q, -1) if b < 0 else q), r


def numop(t, op):
    lo, hi = U[t]

    def f(I, C):
        S = I.S
        a = C.args[0]
        b = C.args[1] if len(C.args) > 1 else None
        if op in ('checked_div', 'checked_rem', 'wrapping_div', 'wrapping_rem', 'rem_euclid', 'div_euclid',
                  'checked_rem_euclid', 'checked_div_euclid', 'div_ceil', 'is_multiple_of'):
            chk = op.startswith('checked')
            if S.eq0(b):
                if op == 'is_multiple_of':
                    return int(S.eq0(a))
                if chk:
                    return I.none(C.destty)
                M.bounds_panic(I, 'division by zero')
            q, r = trunc_div(I, a, b)
            if 'euclid' in op and lo < 0 and not S.ge0(r):
                r = lin_add(r, abs(b)) if type(b) is int else _no('euclid')
                q = lin_add(q, -1 if b > 0 else 1)
            if not S.fits(q, lo, hi):
                if chk:
                    return I.none(C.destty)
                M.bounds_panic(I, 'division overflow')
            if op == 'div_ceil':
                return q if S.eq0(r) else lin_add(q, 1)
            if op == 'is_multiple_of':
                return int(S.eq0(r))
            v = r if 'rem' in op else q
            return I.some(v, C.destty) if chk else v
        if op == 'signum':
            return 0 if S.eq0(a) else 1 if S.ge0(a) else -1
        if op == 'is_positive':
            return int(S.ge0(lin_add(a, -1)))
        if op == 'is_negative':
            return int(not S.ge0(a))
        if op in ('abs_diff',):
            d = lin_add(a, b, -1)
            return d if S.ge0(d) else lin_scale(d, -1)
        if op == 'unsigned_abs':
            return a if S.ge0(a) else lin_scale(a, -1)
        if op in ('pow', 'checked_pow', 'saturating_pow'):
            if type(a) is not int or type(b) is not int:
                raise Unsupported('pow')
            v = a ** b
            if lo <= v <= hi:
                return I.some(v, C.destty) if op.startswith('checked') else v
            if op.startswith('checked'):
                return I.none(C.destty)
            if op.startswith('sat'):
                return hi if v > hi else lo
            M.bounds_panic(I, 'attempt to multiply with overflow')
        # mixed signs and friends: a plain sum or difference checked against the type
        kind, o = op.split('_', 1)
        v = lin_add(a, b, -1 if o.startswith('sub') else 1)
        ok = S.fits(v, lo, hi)
        if kind == 'checked':
            return I.some(v, C.destty) if ok else I.none(C.destty)
        if ok:
            return v
        if kind == 'saturating':
            l, h = S.bounds(v)
            return hi if h > hi else lo
        raise Unsupported(op)
    return f


def _no(w):
    raise Unsupported(w)


for t in U:
    if t in ('bool', 'char'):
        continue
    for o in ('checked_div', 'checked_rem', 'wrapping_div', 'wrapping_rem', 'rem_euclid', 'div_euclid',
              'checked_rem_euclid', 'checked_div_euclid', 'div_ceil', 'is_multiple_of', 'signum', 'is_positive',
              'is_negative', 'abs_diff', 'unsigned_abs', 'pow', 'checked_pow', 'saturating_pow',
              'checked_add_unsigned', 'checked_sub_unsigned', 'checked_add_signed', 'checked_sub_signed',
              'saturating_add_unsigned', 'saturating_sub_unsigned', 'saturating_add_signed'):
        D['core::num::<impl %s>::%s' % (t, o)] = numop(t, o)


def u8pred(name, ok):
    def f(I, C):
        a = I.deref(C.args[0])
        if type(a) is not int:
            S = I.S
            key = ('u8', name, repr(a))
            if key not in S.memo:
                S.memo[key] = S.fork(name)
            return int(S.memo[key])
        return int(ok(a))
    D['core::num::<impl u8>::' + name] = f


u8pred('is_ascii_digit', lambda a: 48 <= a <= 57)
u8pred('is_ascii_alphabetic', lambda a: chr(a).isalpha() and a < 128)
u8pred('is_ascii_alphanumeric', lambda a: chr(a).isalnum() and a < 128)
u8pred('is_ascii_whitespace', lambda a: a in (32, 9, 10, 12, 13))
u8pred('is_ascii_uppercase', lambda a: 65 <= a <= 90)
u8pred('is_ascii_lowercase', lambda a: 97 <= a <= 122)
u8pred('is_ascii', lambda a: a < 128)


@model('core::num::<impl u8>::to_ascii_uppercase', 'core::num::<impl u8>::to_ascii_lowercase')
def _u8case(I, C):
    a = I.deref(C.args[0])
    if type(a) is not int:
        raise Unsupported('case of a byte')
    if C.callee['r'].endswith('uppercase'):
        return a - 32 if 97 <= a <= 122 else a
    return a + 32 if 65 <= a <= 90 else a


@model('core::array::<impl [T; N]>::map')
def _arrmap(I, C):
    v = I.val(C.args[0])
    rs = materialize(I, as_seq(I, v))
    return Agg(C.destty, 0, [I.call_fn(C.args[1], [r.c[r.i]]) for r in rs])


@model(SL + 'binary_search', SL + 'binary_search_by', SL + 'binary_search_by_key')
def _bsearch(I, C):
    n = C.callee['r'].rsplit('::', 1)[1]
    vc = value_cmp(I)
    if n == 'binary_search':
        return bsearch(I, C, lambda r: vc(r, C.args[1]))
    if n == 'binary_search_by':
        return bsearch(I, C, lambda r: ordering(I, I.call_fn(C.args[1], [r])))
    return bsearch(I, C, lambda r: vc(I.call_fn(C.args[2], [r]), C.args[1]))


# ------------------------------------------------------------- cells and atomics
for _n in ('core::cell::Cell::<T>', 'core::cell::RefCell::<T>'):
    def _cnew(I, C):
        return Agg(C.destty, 0, [C.args[0]])
    D[_n + '::new'] = _cnew


def inner(I, r):
    v = I.dr(r)
    if type(v) is not Agg or len(v.f) != 1:
        raise Unsupported('cell')
    return v


@model('core::cell::Cell::<T>::set')
def _cellset(I, C):
    inner(I, C.args[0]).f[0] = C.args[1]
    return I.unit()


@model('core::cell::Cell::<T>::get')
def _cellget(I, C):
    return I.force(inner(I, C.args[0]).f, 0)


@model('core::cell::Cell::<T>::replace', 'core::cell::RefCell::<T>::replace', 'core::cell::Cell::<T>::take',
       'core::cell::RefCell::<T>::take')
def _cellrep(I, C):
    v = inner(I, C.args[0])
    old = I.force(v.f, 0)
    v.f[0] = C.args[1] if len(C.args) > 1 else default_of(I, C.destty)
    return old


@model('core::cell::RefCell::<T>::borrow', 'core::cell::RefCell::<T>::borrow_mut', 'core::cell::RefCell::<T>::get_mut',
       'core::cell::Cell::<T>::get_mut')
def _refborrow(I, C):
    return Ref(inner(I, C.args[0]).f, 0)


@model('core::cell::RefCell::<T>::into_inner', 'core::cell::Cell::<T>::into_inner')
def _cellinto(I, C):
    return I.force(I.val(C.args[0]).f, 0)


def atomic(t, op):
    lo, hi = U[t]

    def f(I, C):
        S = I.S
        if op == 'new':
            return Agg(C.destty, 0, [C.args[0]])
        a = I.deref(C.args[0])
        if type(a) is not Agg:
            raise Unsupported('atomic')
        old = I.force(a.f, 0)
        if op == 'load':
            return old
        if op in ('compare_exchange', 'compare_exchange_weak'):
            if S.eq0(lin_add(old, C.args[1], -1)):
                a.f[0] = C.args[2]
                return I.ok(old, C.destty)
            return I.err(old, C.destty)
        x = C.args[1]
        if op in ('store', 'swap'):
            new = x
        elif op in ('fetch_add', 'fetch_sub'):
            new = lin_add(old, x, 1 if op == 'fetch_add' else -1)
            if not S.fits(new, lo, hi):
                raise Unsupported('atomic wraps')
        elif op in ('fetch_max', 'fetch_min'):
            o = S.cmp3(old, x)
            new = x if (o < 0) == (op == 'fetch_max') else old
        elif op in ('fetch_or', 'fetch_and', 'fetch_xor') and t == 'bool':
            p, q = bool(I.truth(old)), bool(I.truth(x))
            new = int(p | q if op == 'fetch_or' else p & q if op == 'fetch_and' else p ^ q)
        else:
            raise Unsupported(op)
        a.f[0] = new
        if t == 'bool':
            S.log('atomic_store', cell=a, v=new, ord=C.args[-1], name=getattr(a, 'tag', None))
        return I.unit() if op == 'store' else old
    return f


for t in U:
    if t == 'char':
        continue
    for o in ('new', 'load', 'store', 'swap', 'compare_exchange', 'compare_exchange_weak', 'fetch_add', 'fetch_sub',
              'fetch_max', 'fetch_min', 'fetch_or', 'fetch_and', 'fetch_xor'):
        D.setdefault('core::sync::atomic::Atomic::<%s>::%s' % (t, o), atomic(t, o))


@model(STR + 'is_char_boundary')
def _charb(I, C):
    b = bytes_of(I, C.args[0])
    k = I.S.bknown(b)
    i = C.args[1]
    if k is not None and type(i) is int:
        return int(i == len(k) or (i < len(k) and (k[i] & 0xC0) != 0x80))
    raise Unsupported('char boundary')


# ------------------------------------------------------------- floats
@model('core::f64::<impl f64>::max', 'core::f64::<impl f64>::min')
def _fmax(I, C):
    a, b = C.args
    mx = C.callee['r'].endswith('max')
    S = I.S
    if S.ftest(a, a, {'un'}):
        return b
    if S.ftest(b, b, {'un'}):
        return a
    lt = S.ftest(a, b, {'lt'})
    return (b if lt else a) if mx else (a if lt else b)
