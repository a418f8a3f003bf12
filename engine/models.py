"""Abstract semantics of the std / runtime API surface used by the program."""
from core import (Agg, B, Fl, FnV, Guard, INF, Infeasible, Lin, Lock, MOVED, Opq, PathEnd, Ref, Sym, U,
                  UNINIT, Unsupported, bconst, lin_add, lin_scale, LEN_MAX)

D = {}

SIGDROP = {'lock_api::mutex::MutexGuard', 'lock_api::rwlock::RwLockReadGuard', 'lock_api::rwlock::RwLockWriteGuard',
           'lock_api::rwlock::RwLockUpgradableReadGuard', 'tokio::sync::semaphore::SemaphorePermit',
           'tokio::sync::semaphore::OwnedSemaphorePermit'}
STOP = object()
REPS = 2      # elements of unknown collections that are told apart, where an analysis names no other number


def reps(S):
    return S.limits.get('reps', REPS)


def model(*names):
    def deco(f):
        for n in names:
            D[n] = f
        return f
    return deco


# ======================================================== sequences
class Seg:
    __slots__ = ('name', 'ety', 'lo', 'hi', 'cells')

    def __init__(self, name, ety, lo, hi, cells=None):
        self.name, self.ety, self.lo, self.hi = name, ety, lo, hi
        self.cells = cells if cells is not None else []

    def __repr__(self):
        return '%s[%r..%r]' % (self.name, self.lo, self.hi)


class Seq:
    """segs: Ref (one element) | Seg (unknown run of elements)"""
    __slots__ = ('segs', 'orig')

    def __init__(self, segs, orig=None):
        self.segs = segs
        self.orig = orig

    def __repr__(self):
        return 'Seq%r' % (self.segs,)


SLOTS = (0, LEN_MAX)        # number of slots: a command finds the full table (judge.analyse)


def new_seq_sym(ety, name):
    S = I_.S
    # the table of slots has its full size from the start (shown by the rules of C28)
    n = S.atom('%s.len' % name, *(SLOTS if ety.p == 'db::slot::Slot' else (0, LEN_MAX)))
    return Seq([Seg(name, ety, 0, n)], name)


def vals(I, vs):
    return Seq([Ref([v]) for v in vs])


def seg_elem(I, seg, idx):
    for k, cell in seg.cells:
        if k == idx:
            return cell
    for k, cell in seg.cells:
        if I.S.eq0(lin_add(k, idx, -1)):
            return cell
    # one name per element of the original content, whatever expression reached it first
    reg = I.S.maps.setdefault(('seg', seg.name), [])
    for k in reg:
        if k == idx:
            break
    else:
        for k in reg:
            if I.S.eq0(lin_add(k, idx, -1)):
                idx = k
                break
        else:
            reg.append(idx)
    cell = [I.mk(seg.ety, '%s[%r]' % (seg.name, idx))]
    seg.cells.append((idx, cell))
    return cell


def seglen(seg):
    return lin_add(seg.hi, seg.lo, -1)


def as_seq(I, v):
    if type(v) is Ref:
        v = I.deref(v)
    if type(v) is Sym:
        v = I.expand(v)
    if type(v) is Seq:
        return v
    if type(v) is Agg:
        return Seq([Ref(v.f, i) for i in range(len(v.f))])
    if type(v) is B:
        k = I.S.bknown(v)
        if k is not None:
            return Seq([Ref([x]) for x in k])
    raise Unsupported('as_seq %r' % (v,))


def length(I, v):
    if type(v) is B:
        return I.S.blen(v)
    if type(v) is Map:
        return v.length(I)
    if type(v) is Seq:
        n = 0
        for s in v.segs:
            n = lin_add(n, 1 if type(s) is Ref else seglen(s))
        return n
    if type(v) is Agg:
        return len(v.f)
    if type(v) is It:
        return v.length(I)
    raise Unsupported('length %r' % (v,))


def materialize(I, seq):
    """replace unknown runs by 0..REPS representative elements"""
    S = I.S
    out = []
    for s in list(seq.segs):
        if type(s) is Ref:
            out.append(s)
            continue
        n = seglen(s)
        done = False
        for k in range(reps(S) + 1):
            if S.eq0(lin_add(n, k, -1)):
                for j in range(k):
                    out.append(Ref(seg_elem(I, s, lin_add(s.lo, j))))
                done = True
                break
        if not done:
            raise PathEnd('cut', 'more than %d elements of %s' % (reps(S), s.name), S.site())
    seq.segs[:] = out
    return out


def seq_split(I, seq, idx):
    """split position idx (0..len) -> index into segs such that segs[:k] has idx elements"""
    S = I.S
    pos = 0
    for k, s in enumerate(list(seq.segs)):
        d = lin_add(idx, pos, -1)
        if S.eq0(d):
            return k
        if type(s) is Ref:
            pos = lin_add(pos, 1)
            continue
        n = seglen(s)
        # idx < pos+n ?
        if not S.ge0(lin_add(d, n, -1)):
            if not S.ge0(d):
                raise Infeasible()
            a = Seg(s.name, s.ety, s.lo, lin_add(s.lo, d), s.cells)
            b = Seg(s.name, s.ety, lin_add(s.lo, d), s.hi, s.cells)
            seq.segs[k:k + 1] = [a, b]
            return k + 1
        pos = lin_add(pos, n)
    if S.eq0(lin_add(idx, pos, -1)):
        return len(seq.segs)
    raise Infeasible()


def simplify(I, seq):
    S = I.S
    seq.segs[:] = [s for s in seq.segs if type(s) is Ref or S.ent_eq(s.lo, s.hi) is not True]


def pop_at(I, seq, front):
    """pop an element or None"""
    S = I.S
    while seq.segs:
        s = seq.segs[0] if front else seq.segs[-1]
        if type(s) is Ref:
            seq.segs.pop(0 if front else -1)
            v = s.c[s.i]
            return v
        if S.eq0(seglen(s)):
            seq.segs.pop(0 if front else -1)
            continue
        idx = s.lo if front else lin_add(s.hi, -1)
        cell = seg_elem(I, s, idx)
        n = Seg(s.name, s.ety, lin_add(s.lo, 1) if front else s.lo, s.hi if front else idx, s.cells)
        seq.segs[0 if front else -1] = n
        return cell[0]
    return None


def bounds_panic(I, why='index out of bounds'):
    S = I.S
    raise PathEnd('panic', why, S.site(), tuple(s[0] for s in S.stack))


def index_slot(I, v, idx):
    S = I.S
    if type(v) is Ref:
        v = I.deref(v)
    if type(v) is B:
        return [byte_at(I, v, idx)], 0
    if type(v) is Agg:
        n = len(v.f)
        if type(idx) is int:
            if idx >= n:
                bounds_panic(I)
            return v.f, idx
        for k in range(n):
            if S.eq0(lin_add(idx, k, -1)):
                return v.f, k
        bounds_panic(I)
    if type(v) is Seq:
        pos = 0
        for k, s in enumerate(v.segs):
            if type(s) is Ref:
                if S.eq0(lin_add(idx, pos, -1)):
                    return s.c, s.i
                pos = lin_add(pos, 1)
            else:
                n = seglen(s)
                d = lin_add(idx, pos, -1)
                if not S.ge0(lin_add(d, n, -1)):
                    if not S.ge0(d):
                        raise Infeasible()
                    return seg_elem(I, s, lin_add(s.lo, d)), 0
                pos = lin_add(pos, n)
        bounds_panic(I)
    raise Unsupported('index of %r' % (v,))


def cindex_slot(I, v, off, from_end):
    if type(v) is Ref:
        v = I.deref(v)
    if from_end:
        n = length(I, v)
        return index_slot(I, v, lin_add(n, -off))
    return index_slot(I, v, off)


def subslice(I, v, a, b, fe):
    n = length(I, v)
    return slice_of(I, v, a, lin_add(n, -b) if fe else b)


def byte_at(I, v, idx):
    S = I.S
    v = S.bnorm(v)
    k = S.bknown(v)
    if k is not None and type(idx) is int:
        if idx >= len(k):
            bounds_panic(I)
        return k[idx]
    if type(idx) is int:
        pos = 0
        for p in v.p:
            if type(p) is bytes:
                if idx < pos + len(p):
                    return p[idx - pos]
                pos += len(p)
            else:
                break
    n = S.blen(v)
    if not (S.ge0(idx) and not S.ge0(lin_add(idx, n, -1))):
        bounds_panic(I)
    return S.atom('byte(%r,%r)' % (v.p, idx), 0, 255, ('byte', v, idx))


def cut_parts(S, v, lo, hi):
    """a slice whose ends fall on the known borders of the parts of a string"""
    ends = []
    for x in (lo, hi):
        pos = 0
        at = None
        for i, p in enumerate(v.p):
            d = lin_add(x, pos, -1)
            k = d if type(d) is int else S.const_of(d)
            if k == 0:
                at = (i, 0)
                break
            if type(p) is bytes and k is not None and 0 < k < len(p):
                at = (i, k)
                break
            pos = lin_add(pos, len(p) if type(p) is bytes else S.symlen(p))
        if at is None and S.ent_eq(x, pos) is True:
            at = (len(v.p), 0)
        if at is None:
            return None
        ends.append(at)
    (i, a), (j, b) = ends
    out = []
    for n in range(i, min(j + 1, len(v.p))):
        p = v.p[n]
        if type(p) is bytes:
            p = p[a if n == i else 0:b if n == j else len(p)]
            if p:
                out.append(p)
        elif n < j:
            out.append(p)
    return B(*out)


def slice_of(I, v, lo, hi):
    """v[lo..hi] with bounds already known to be ok"""
    S = I.S
    if type(v) is B:
        v = S.bnorm(v)
        k = S.bknown(v)
        if k is not None and type(lo) is int and type(hi) is int:
            return bconst(k[lo:hi])
        n = S.blen(v)
        if len(v.p) == 1 and type(v.p[0]) is str and type(S.adef.get(v.p[0])) is tuple and S.adef[v.p[0]][0] == 'sub':
            d = S.adef[v.p[0]]          # a slice of a slice is a slice of the original
            return slice_of(I, d[1], lin_add(d[2], lo), lin_add(d[2], hi))
        if type(lo) is int and lo == 0 and S.ent_eq(hi, n) is True:
            return v
        # constant prefix removal
        if type(lo) is int and S.ent_eq(hi, n) is True:
            ps = list(v.p)
            rem = lo
            while rem and ps and type(ps[0]) is bytes:
                t = min(rem, len(ps[0]))
                ps[0] = ps[0][t:]
                rem -= t
                if not ps[0]:
                    ps.pop(0)
            if rem == 0:
                return B(*ps)
        if type(lo) is int and type(hi) is int and lo == 0 and v.p and type(v.p[0]) is bytes and len(v.p[0]) >= hi:
            return bconst(v.p[0][:hi])
        if S.ent_eq(lo, hi) is True:
            return B()
        if len(v.p) > 1:
            r = cut_parts(S, v, lo, hi)
            if r is not None:
                return r
        name = 'sub(%r,%r,%r)' % (v.p, lo, hi)
        if name not in S.adef:
            S.adef[name] = ('sub', v, lo, hi)
            S.symlen(name)
            S.assume_range(lin_add(S.symlen(name), lin_add(hi, lo, -1), -1), 0, 0)
        return B(name)
    if type(v) is Seq:
        a = seq_split(I, v, lo)
        b = seq_split(I, v, hi)
        return Seq(v.segs[a:b])
    if type(v) is Agg:
        if type(lo) is int and type(hi) is int:
            return Seq([Ref(v.f, i) for i in range(lo, hi)])
    raise Unsupported('slice of %r' % (v,))


def range_of(I, r, n):
    """resolve a range value to (lo, hi) with std panics; n = length"""
    S = I.S
    v = I.dr(r) if type(r) is Ref else I.val(r)
    if type(v) is Agg and v.ty is not None and v.ty.k == 'tuple' and len(v.f) == 2:
        def bd(x, lower):
            x = I.val(x)
            b = x.vn()
            if b == 'Unbounded':
                return 0 if lower else n
            k = I.deref(x.f[0])
            if lower:
                return k if b == 'Included' else lin_add(k, 1)
            return lin_add(k, 1) if b == 'Included' else k
        lo, hi = bd(v.f[0], True), bd(v.f[1], False)
    else:
        p = v.ty.p if v.ty is not None else ''
        if p.endswith('RangeFull'):
            lo, hi = 0, n
        elif p.endswith('RangeFrom'):
            lo, hi = v.f[0], n
        elif p.endswith('RangeToInclusive'):
            lo, hi = 0, lin_add(v.f[0], 1)
        elif p.endswith('RangeTo'):
            lo, hi = 0, v.f[0]
        elif p.endswith('RangeInclusive'):
            lo, hi = v.f[0], lin_add(v.f[1], 1)
        elif p.endswith('::Range'):
            lo, hi = v.f[0], v.f[1]
        else:
            raise Unsupported('range %r' % (v,))
    if not S.ge0(lin_add(hi, lo, -1)):
        bounds_panic(I, 'slice index starts after end')
    if not S.ge0(lin_add(n, hi, -1)):
        bounds_panic(I, 'range end out of range')
    return lo, hi


# ======================================================== maps
class Ent:
    __slots__ = ('key', 'cell', 'orig', 'oname', 'touched')

    def __init__(self, key, cell, orig, oname):
        self.key, self.cell, self.orig, self.oname = key, cell, orig, oname
        self.touched = False

    def __repr__(self):
        return '%r:%r%s' % (self.key, self.cell, '' if self.orig else '*')


class Map:
    __slots__ = ('kind', 'name', 'kty', 'vty', 'base', 'ents', 'len0', 'link', 'fresh', 'replaced',
                 'nodekey', 'loose')

    def __init__(self, kind, name, kty, vty, base, len0):
        self.kind, self.name, self.kty, self.vty, self.base, self.len0 = kind, name, kty, vty, base, len0
        self.ents = []
        self.link = None
        self.replaced = False
        self.nodekey = False
        self.loose = False

    def __repr__(self):
        return '%s%s{%r}' % (self.kind, self.name if self.base == 'sym' else '', self.ents)

    def norig(self):
        return sum(1 for e in self.ents if e.orig)

    def length(self, I):
        n = self.len0
        for e in self.ents:
            if e.orig and e.cell is None:
                n = lin_add(n, -1)
            elif not e.orig and e.cell is not None:
                n = lin_add(n, 1)
        return n

    def origval(self, I, e):
        return I.val(I.mk(self.vty, e.oname)) if self.kind == 'hash' else e.key

    def reg(self, I):
        """decisions taken so far about the original content of this map (shared by all views of it)"""
        r = I.S.maps.get(self.name)
        if r is None:
            r = I.S.maps[self.name] = {'m': [], 'closed': False, 'order': None}
        return r

    def lookup(self, I, key):
        for e in self.ents:
            if keq(I, key, e.key):
                return e
        S = I.S
        present = False
        key = I.copyv(key) if type(key) is Agg else key
        if self.base == 'sym':
            if self.link is not None:
                node = I.val(key)
                ik = node_key(I, node)
                he = self.link.lookup(I, I.deref(ik))
                if he.orig:
                    o = self.link.origval(I, he)
                    present = keq(I, node, o)
                    if present:
                        key = o
                else:
                    present = False
            else:
                r = self.reg(I)
                known = None
                for k, pr in r['m']:
                    if keq(I, key, k):
                        known = (k, pr)
                        break
                if known is not None:
                    key, present = known
                else:
                    npres = sum(1 for _, pr in r['m'] if pr)
                    if r['closed'] or S.bounds(lin_add(self.len0, -npres))[1] <= 0:
                        present = False
                    else:
                        present = S.fork('member ' + self.name)
                    r['m'].append((key, present))
                    if present:
                        S.assume_range(lin_add(self.len0, -npres - 1), 0, INF)
        return self.add_ent(I, key, present)

    def add_ent(self, I, key, present):
        e = Ent(key, None, present, '%s[%s]' % (self.name, keyname(I, key)))
        if present:
            e.cell = [I.mk(self.vty, e.oname)] if self.kind == 'hash' else [key]
            if self.nodekey and type(key) is B:
                # invariant of the stored data: a node carries the member it is filed under
                S = I.S
                nk = S.bnorm(node_key(I, I.force(e.cell, 0)))
                kn = S.bnorm(key)
                if nk.p != kn.p and len(nk.p) == 1 and type(nk.p[0]) is str and nk.p[0] not in kn.p:
                    S.assume_range(lin_add(S.blen(nk), S.blen(kn), -1), 0, 0)
                    S.bsub[nk.p[0]] = kn
        self.ents.append(e)
        return e

    def materialize(self, I):
        S = I.S
        if self.base != 'sym' and self.loose and self.kind == 'bset':
            import api
            srt = []
            for e in self.ents:
                if e.cell is None or e.orig:
                    srt.append(e)
            for e in self.ents:
                if e.cell is None or e.orig:
                    continue
                for j, x in enumerate(srt):
                    if x.cell is not None and api.ord_cmp(I, self, e.key, x.key) < 0:
                        srt.insert(j, e)
                        break
                else:
                    srt.append(e)
            self.ents[:] = srt
            self.loose = False
        if self.base == 'sym':
            if self.link is not None:
                self.link.materialize(I)
                seen = [e.key for e in self.ents]
                lr = self.link.reg(I)
                orig = []
                for k, pr in lr['m']:
                    if pr:
                        orig.append(I.val(I.mk(self.link.vty, '%s[%s]' % (self.link.name, keyname(I, k)))))
                r = self.reg(I)
                if r['order'] is None:
                    na = lr.get('named', 0)
                    # members the program named may sit anywhere among the anonymous ones
                    order = list(range(na, len(orig)))
                    for j in range(na):
                        order.insert(S.choose(len(order) + 1, 'rank'), j)
                    r['order'] = order
                    ps = [leaf_float(I, orig[j]) for j in order]
                    for x in ps:
                        if x is not None and not isinstance(x, float):
                            S.fset(x, x, S.frel_get(x, x) & {'eq'})
                    for i in range(len(ps)):
                        for j in range(i + 1, len(ps)):
                            if ps[i] is not None and ps[j] is not None:
                                S.fset(ps[i], ps[j], S.frel_get(ps[i], ps[j]) & {'lt', 'eq'})
                new = []
                for j in r['order']:
                    o = orig[j]
                    hit = [e for e in self.ents if e.orig and same(I, e.key, o)]
                    if hit:
                        new.append(hit[0])
                    else:
                        new.append(Ent(o, [o], True, None))
                rest = [e for e in self.ents if not any(e is n for n in new)]
                if any(e.cell is not None for e in rest):
                    S.imprecise.append('order of an inserted member')
                self.ents[:] = new + rest
                self.base = 'closed'
            else:
                r = self.reg(I)
                if not r['closed']:
                    npres = sum(1 for _, pr in r['m'] if pr)
                    r['named'] = npres
                    extra = lin_add(self.len0, -npres)
                    done = False
                    for k in range(reps(S) + 1):
                        if S.eq0(lin_add(extra, -k)):
                            for j in range(k):
                                kn = '%s.k%d' % (self.name, j)
                                key = I.deref(I.mk(self.kty, kn))
                                for ok, _ in r['m']:
                                    if type(key) is B and type(ok) is B:
                                        okn = S.bnorm(ok)
                                        if okn.p == key.p:
                                            raise Infeasible()
                                        kk = (key.p, okn.p)
                                        S.bneq.add(kk if repr(kk[0]) <= repr(kk[1]) else (kk[1], kk[0]))
                                r['m'].append((key, True))
                            done = True
                            break
                    if not done:
                        raise PathEnd('cut', 'more than %d members of %s' % (reps(S), self.name), S.site())
                    r['closed'] = True
                mine = [e.key for e in self.ents]
                for k, pr in list(r['m']):
                    if not pr:
                        continue
                    if not any(same(I, k, e.key) for e in self.ents):
                        self.lookup(I, k)
                self.base = 'closed'
        return [e for e in self.ents if e.cell is not None]

    def insert(self, I, key, val):
        e = self.lookup(I, key)
        old = e.cell
        e.touched = True
        if old is None:
            e.cell = [val]
            if not e.orig:
                self.loose = True
        elif self.kind == 'hash':
            e.cell = [val]
        return e, old

    def remove(self, I, key):
        e = self.lookup(I, key)
        old = e.cell
        e.cell = None
        e.touched = True
        return e, old


def leaf_float(I, v):
    v = I.val(I.deref(v))
    if isinstance(v, (float, Fl)):
        return v
    if type(v) is Agg and v.f:
        for x in v.f:
            r = leaf_float(I, x)
            if r is not None:
                return r
    return None


def node_key(I, node):
    for x in node.f:
        d = I.deref(x)
        if type(d) is B:
            return d
    raise Unsupported('node key')


def keyname(I, k):
    k = I.val(I.deref(k))
    if type(k) is B:
        return ''.join(p.decode('latin1') if type(p) is bytes else '<%s>' % p for p in k.p)
    if type(k) is Agg:
        return '(%s)' % ','.join(keyname(I, x) for x in k.f)
    return repr(k)


def canon(I, v):
    return I.val(I.deref(v))


def keq(I, a, b):
    """structural equality, forking where undecided"""
    S = I.S
    a, b = canon(I, a), canon(I, b)
    ta, tb = type(a), type(b)
    if a is b:
        return True
    if ta is B and tb is B:
        return S.beq(a, b)
    if ta in (int, Lin) and tb in (int, Lin):
        return S.eq0(lin_add(a, b, -1))
    if ta in (float, Fl) and tb in (float, Fl):
        return S.ftest(a, b, {'eq'})
    if ta is Agg and tb is Agg:
        if a.vi != b.vi or len(a.f) != len(b.f):
            return False
        for x, y in zip(a.f, b.f):
            if not keq(I, x, y):
                return False
        return True
    if ta is Seq and tb is Seq:
        xa, xb = materialize(I, a), materialize(I, b)
        return len(xa) == len(xb) and all(keq(I, x, y) for x, y in zip(xa, xb))
    if ta in (Opq, Sym) and tb in (Opq, Sym):
        na = a.name if ta is Sym else a.a.get('name', id(a))
        nb = b.name if tb is Sym else b.a.get('name', id(b))
        if na == nb:
            return True
        key = ('opqeq',) + tuple(sorted((str(na), str(nb))))
        if key not in S.memo:
            S.memo[key] = S.fork('opaque eq')
        return S.memo[key]
    if ta is Seq and tb is Agg or ta is Agg and tb is Seq:
        return keq(I, as_seq(I, a), as_seq(I, b))
    if (ta is B) != (tb is B) and (ta in (Agg, Seq) or tb in (Agg, Seq)):
        x, y = (a, b) if ta is B else (b, a)
        k = S.bknown(x)
        n = length(I, y)
        if k is not None and type(n) is int:
            if len(k) != n:
                return False
            ys = as_seq(I, y)
            return all(keq(I, c, z) for c, z in zip(k, ys.segs))
    raise Unsupported('equality of %r and %r' % (a, b))


def same(I, a, b):
    """entailed structural equality without forking"""
    S = I.S
    while type(a) is Ref:
        a = a.c[a.i]
    while type(b) is Ref:
        b = b.c[b.i]
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is Sym and tb is Sym:
        return a.name == b.name
    if ta is Sym:
        return same(I, b, a)
    if tb is Sym and ta is Agg:
        if b.ty.e:
            if S.enumv.get(b.name) != a.vi:
                return False
        return same(I, a, I.expand(b))
    if tb is Sym:
        bx = I.expand(b) if not b.ty.e or b.name in S.enumv else b
        if type(bx) is Sym:
            return False
        return same(I, a, bx)
    if ta is B and tb is B:
        return S.bnorm(a).p == S.bnorm(b).p
    if ta in (int, Lin) and tb in (int, Lin):
        return S.ent_eq(a, b) is True
    if ta in (float, Fl) and tb in (float, Fl):
        if ta is float and tb is float:
            return a == b or (a != a and b != b)
        return (ta is Fl and a == b) or S.frel_get(a, b) == {'eq'}
    if ta is Agg and tb is Agg:
        return a.vi == b.vi and len(a.f) == len(b.f) and all(same(I, x, y) for x, y in zip(a.f, b.f))
    if ta is Seq and tb is Seq:
        x = [s for s in a.segs if type(s) is Ref or S.ent_eq(s.lo, s.hi) is not True]
        y = [s for s in b.segs if type(s) is Ref or S.ent_eq(s.lo, s.hi) is not True]
        if len(x) == len(y) and all(seg_same(I, p, q) for p, q in zip(x, y)):
            return True
        # a materialised run equals the run it came from
        return seq_flat_same(I, x, y)
    if ta is Map and tb is Map:
        return map_same(I, a, b)
    if ta is Opq and tb is Opq:
        return a.kind == b.kind and a.a.get('name') is not None and a.a.get('name') == b.a.get('name')
    return False


def seg_same(I, p, q):
    if type(p) is Ref and type(q) is Ref:
        return same(I, p, q)
    if type(p) is Seg and type(q) is Seg:
        return p.name == q.name and I.S.ent_eq(p.lo, q.lo) is True and I.S.ent_eq(p.hi, q.hi) is True \
            and seg_clean(I, p) and seg_clean(I, q)
    return False


def seg_name_idx(I, s, idx):
    for k in I.S.maps.get(('seg', s.name), []):
        if k == idx or I.S.ent_eq(k, idx) is True:
            return k
    return idx


def seg_clean(I, s):
    return all(same(I, c[0], I.mk(s.ety, '%s[%r]' % (s.name, seg_name_idx(I, s, k)))) for k, c in s.cells)


def seq_flat_same(I, x, y):
    S = I.S

    def flat(z):
        out = []
        for s in z:
            if type(s) is Ref:
                out.append(s)
            else:
                n = S.const_of(seglen(s))
                if n is None or n > 8:
                    return None
                for j in range(n):
                    out.append(Ref(seg_elem_nofork(I, s, lin_add(s.lo, j))))
        return out
    a, b = flat(x), flat(y)
    if a is None or b is None or len(a) != len(b):
        return False
    return all(same(I, p, q) for p, q in zip(a, b))


def seg_elem_nofork(I, seg, idx):
    for k, cell in seg.cells:
        if k == idx or I.S.ent_eq(k, idx) is True:
            return cell
    return [I.mk(seg.ety, '%s[%r]' % (seg.name, seg_name_idx(I, seg, idx)))]


def map_clean(I, m):
    """map content provably unchanged from its initial unknown content"""
    if m.base == 'empty' or m.replaced:
        return False
    for e in m.ents:
        if e.orig != (e.cell is not None):
            return False
        if e.orig and m.kind == 'hash':
            if not same(I, e.cell[0], I.mk(m.vty, e.oname)):
                return False
    return True


def map_same(I, a, b):
    if a.base != 'empty' and b.base != 'empty' and a.name == b.name:
        return map_clean(I, a) and map_clean(I, b)
    if a.base == 'empty' and b.base == 'empty':
        pa = [e for e in a.ents if e.cell is not None]
        pb = [e for e in b.ents if e.cell is not None]
        if len(pa) != len(pb):
            return False
        for x in pa:
            if not any(same(I, x.key, y.key) and same(I, x.cell[0], y.cell[0]) for y in pb):
                return False
        return True
    return False


def mk_map(kind):
    def f(I, ty, name):
        n = I.S.atom('%s.len' % name, 0, LEN_MAX)
        kty = ty.a[0]
        vty = ty.a[1] if kind == 'hash' else ty.a[0]
        return Map(kind, name, kty, vty, 'sym', n)
    return f


def empty_map(I, ty):
    kind = {'std::collections::hash::map::HashMap': 'hash', 'std::collections::hash::set::HashSet': 'set',
            'alloc::collections::btree::set::BTreeSet': 'bset', 'alloc::collections::btree::map::BTreeMap': 'hash'}[ty.p]
    return Map(kind, I.S.fresh('new'), ty.a[0], ty.a[1] if kind == 'hash' else ty.a[0], 'empty', 0)


# ======================================================== iterators
class It:
    """lazy iterator; src is a list deque of thunks or an adapter"""

    def __init__(self, nxt, nxtb=None, ln=None, seq=None):
        self.nxt, self.nxtb, self.ln, self.seq = nxt, nxtb, ln, seq
        self.peeked = []

    def next(self, I):
        return self.nxt(I)

    def next_back(self, I):
        if self.nxtb is None:
            raise Unsupported('next_back')
        return self.nxtb(I)

    def length(self, I):
        if self.ln is None:
            raise Unsupported('iterator len')
        return self.ln(I)

    def __repr__(self):
        return '<iter>'


def list_it(get_list):
    """iterator over a lazily computed python list of values"""
    st = {}

    def items(I):
        if 'l' not in st:
            st['l'] = list(get_list(I))
        return st['l']

    def nxt(I):
        l = items(I)
        return l.pop(0) if l else STOP

    def nxtb(I):
        l = items(I)
        return l.pop() if l else STOP
    return It(nxt, nxtb, lambda I: len(items(I)))


def seq_it(I, seq, own):
    """iterate a sequence lazily at the ends; unknown runs are materialised"""
    st = {}
    if not own and any(type(s) is Seg for s in seq.segs) is False:
        pass

    def items(I):
        if 'l' not in st:
            rs = materialize(I, seq)
            st['l'] = [r.c[r.i] for r in rs] if own else list(rs)
        return st['l']

    def nxt(I):
        l = items(I)
        return l.pop(0) if l else STOP

    def nxtb(I):
        l = items(I)
        return l.pop() if l else STOP

    def ln(I):
        return len(st['l']) if 'l' in st else length(I, seq)
    return It(nxt, nxtb, ln, seq=(seq, own, st))


def byte_it(I, b):
    k = I.S.bknown(b)
    if k is not None:
        return list_it(lambda I: [Ref([x]) for x in k])
    it = It(lambda I: _unsup('iterating symbolic bytes'), None, lambda I: I.S.blen(b))
    it.bytes = b
    it.bkey = ''
    it.elem = lambda c: Ref([c])
    return it


def _unsup(m):
    raise Unsupported(m)


def map_it(I, m, mode):
    def get(I):
        es = m.materialize(I)
        if mode == 'own':
            if m.kind == 'hash':
                return [Agg(None, 0, [boxkey(I, m, e.key), e.cell[0]]) for e in es]
            return [boxkey(I, m, e.key) for e in es]
        if mode == 'keys':
            return [Ref([boxkey(I, m, e.key)]) for e in es]
        if mode == 'values':
            return [Ref(e.cell) for e in es]
        if m.kind == 'hash':
            return [Agg(None, 0, [Ref([boxkey(I, m, e.key)]), Ref(e.cell)]) for e in es]
        return [Ref([boxkey(I, m, e.key)]) for e in es]
    it = list_it(get)
    base = it.ln
    st = {}

    def ln(I):
        return base(I)
    return It(it.nxt, it.nxtb, ln)


def boxkey(I, m, key):
    """entry keys are stored dereferenced; rebuild the owned representation"""
    t = m.kty
    if type(key) is B and t.k == 'adt' and t.p in ('alloc::boxed::Box', 'alloc::rcs::arc::Arc'):
        return Ref([key])
    if type(key) is B and t.k == 'adt' and len(t.v) == 1:
        return wrap_key(I, t, key)
    return key


def wrap_key(I, t, key):
    fs = t.v[0][2]
    if len(fs) != 1:
        return key
    ft = fs[0][1]
    inner = Ref([key]) if ft.k in ('adt', 'ref') and ft.p in ('alloc::boxed::Box', 'alloc::rcs::arc::Arc', '') else key
    return Agg(t, 0, [inner])


def get_it(I, v):
    """anything iterable -> It"""
    if type(v) is It:
        return v
    if type(v) is Ref:
        x = I.dr(v)
        if type(x) is It:
            return x
        if type(x) is Seq:
            return seq_it(I, x, False)
        if type(x) is Map:
            return map_it(I, x, 'ref')
        if type(x) is B:
            return byte_it(I, x)
        if type(x) is Agg and x.ty is not None and x.ty.k == 'array':
            return seq_it(I, as_seq(I, x), False)
        if type(x) is Agg:
            return user_it(I, v)
        if type(x) is Ref:
            return get_it(I, x)
    v = I.val(v)
    if type(v) is Seq:
        return seq_it(I, v, True)
    if type(v) is Map:
        return map_it(I, v, 'own')
    if type(v) is B:
        k = I.S.bknown(v)
        if k is not None:
            return list_it(lambda I: list(k))
    if type(v) is Agg and v.ty is not None:
        if v.ty.k == 'array':
            return seq_it(I, as_seq(I, v), True)
        if v.ty.p == 'core::option::Option':
            return list_it(lambda I: list(v.f))
        if v.ty.p.endswith('ops::range::Range'):
            return range_it(I, v)
        if v.ty.p.endswith('ops::range::RangeInclusive'):
            return range_it(I, Agg(None, 0, [v.f[0], lin_add(v.f[1], 1)]))
    if type(v) is Agg:
        return user_it(I, Ref([v]))
    raise Unsupported('iterate %r' % (v,))


def range_it(I, v):
    def nxt(I):
        a, b = v.f[0], v.f[1]
        if type(a) is int and type(b) is int and b - a > 256 and I.S.limits.get('bigrange'):
            # a long counted loop is explored through its first rounds; the bound itself is kept for the judge
            n = I.S.atom(I.S.fresh('rounds'), 0, 2)
            I.S.log('bigrange', lo=a, hi=b, n=n)
            b = v.f[1] = lin_add(a, n)
        if not I.S.ge0(lin_add(lin_add(b, a, -1), -1)):
            return STOP
        v.f[0] = lin_add(a, 1)
        return a

    def nxtb(I):
        a, b = v.f[0], v.f[1]
        if not I.S.ge0(lin_add(lin_add(b, a, -1), -1)):
            return STOP
        v.f[1] = lin_add(b, -1)
        return v.f[1]
    return It(nxt, nxtb, lambda I: lin_add(v.f[1], v.f[0], -1))


def user_it(I, ref):
    """iterator implemented by the program itself (Iterator::next in the facts)"""
    x = I.dr(ref)
    ts = x.ty.s if x.ty is not None else '?'
    base = x.ty.p if x.ty is not None else '?'
    key = None
    for k in I.P.fns:
        if k.endswith(' as core::iter::traits::iterator::Iterator>::next') and (k[1:].startswith(ts) or
                                                                              k[1:].startswith(base)):
            key = k
            break
    if key is None:
        raise Unsupported('iterate %r' % (x,))

    def nxt(I):
        r = I.call_key(key, [ref])
        r = I.val(r)
        return r.f[0] if r.vi == 1 else STOP
    return It(nxt)


def drain_list(I, it):
    out = []
    while True:
        v = it.next(I)
        if v is STOP:
            return out
        out.append(v)
        if len(out) > 3000:
            raise PathEnd('cut', 'iterator')


def opt(I, v):
    return I.none() if v is STOP else I.some(v)


# ======================================================== misc hooks
I_ = None


def opq_field(I, v, n, ty):
    if type(v) is Opq:
        fs = v.a.setdefault('_f', {})
        if n not in fs:
            fs[n] = [I.mk(ty, '%s.%d' % (v.a.get('name') or I.S.fresh(v.kind), n))]
        return fs[n], 0
    if type(v) is Sym:
        key = ('symf', v.name, n)
        if key not in I.S.memo:
            I.S.memo[key] = [I.mk(ty, '%s.%d' % (v.name, n))]
        return I.S.memo[key], 0
    if isinstance(v, (float, int, Lin, Fl, B, Seq, Map, Lock, Guard, It)):
        # newtype transparency
        return [v], 0
    raise Unsupported('field of %r' % (v,))


def opq_discr(I, v, ty, c, i):
    S = I.S
    if ty.v:
        a = I.expand(Sym(ty, v.name if type(v) is Sym else (v.a.get('name') or S.fresh('opq'))))
        if type(a) is Agg:
            c[i] = a
            return ty.v[a.vi][1]
    S.imprecise.append('discr')
    return S.atom(S.fresh('discr'), 0, 255)


def drop_opq(I, v):
    k = v.kind if type(v) is Opq else 'sym'
    if k == 'permit':
        if not v.a.get('forgotten'):
            I.S.log('permit_release', how='drop')


def unlock(I, g):
    if not g.live:
        return
    g.live = False
    S = I.S
    for k in range(len(S.held) - 1, -1, -1):
        if S.held[k] is g:
            del S.held[k]
            break
    S.log('unlock', lock=g.lock)


def do_lock(I, ref, kind, ty=None):
    S = I.S
    l = I.deref(ref)
    if type(l) is not Lock:
        l = Lock('?' + (getattr(l, 'name', None) or S.fresh('lock')), [UNINIT])
    g = Guard(l)
    if ty is not None:
        while ty.k in ('ref', 'ptr'):
            ty = ty.t
        S.lockcls[id(l)] = (ty.a[-1].s if ty.a else ty.s, l)
    S.log('lock', lock=l, held=[h.lock for h in S.held], mode=kind, at=S.site())
    S.held.append(g)
    return g


def block(I, what):
    """the thread waits here for something outside"""
    I.S.log('block', what=what, held=[h.lock for h in I.S.held], at=I.S.site())


def static(I, path, ty):
    h = I.hooks.get('static:' + path)
    if h:
        return h(I, path, ty)
    h = I.hooks.get('static')
    if h:
        r = h(I, path, ty)
        if r is not None:
            return r
    if ty.p.startswith('once_cell') and ty.a:
        return Opq('lazy', ty, cell=[I.mk(ty.a[0], path.split('::')[-1])], name=path)
    return I.mk(ty, path.split('::')[-1])


def clone(I, v):
    if type(v) is Sym:
        return v
    if type(v) is Agg:
        if v.ty is not None and v.ty.k == 'adt':
            k = '<%s as core::clone::Clone>::clone' % v.ty.s
            if k in I.P.fns and not v.tag:
                pass
        return Agg(v.ty, v.vi, [clone(I, x) for x in v.f], v.tag)
    if type(v) is Seq:
        return Seq([Ref([clone(I, s.c[s.i])]) if type(s) is Ref else
                    Seg(s.name, s.ety, s.lo, s.hi, [(k, [clone(I, c[0])]) for k, c in s.cells]) for s in v.segs], v.orig)
    if type(v) is Map:
        m = Map(v.kind, v.name, v.kty, v.vty, v.base, v.len0)
        m.link = v.link
        m.nodekey = v.nodekey
        m.loose = v.loose
        for e in v.ents:
            n = Ent(e.key, None if e.cell is None else [clone(I, e.cell[0])], e.orig, e.oname)
            m.ents.append(n)
        return m
    if type(v) is Ref:
        return Ref([clone(I, v.c[v.i])]) if type(v.c[v.i]) in (B, Seq, Agg, Map) else v
    return v
