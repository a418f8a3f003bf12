"""Reference semantics of the client commands, evaluated on the same abstract initial database the
program was analysed on, and the comparison of the two outcomes.

The reference is written from the documented behaviour of the commands; it shares the abstract
domain (maps, sequences, linear integers, byte strings) with the analysis, and nothing with the
program text.
"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import *
import models, api
from models import Map, Seq, Seg, Ent, keq, seg_elem, seglen, pop_at, length
import cmdrun

MAXDL = 2**63 - 1
WT = b'WRONGTYPE'
NOSLOT = b''


class SErr(Exception):
    """the command must be refused; nothing may change"""

    def __init__(self, prefix=None):
        self.prefix = prefix


class Unspec(Exception):
    """the reference says nothing about this case"""


class Nul:
    def __repr__(self):
        return 'NULL'


NULL = Nul()
ANY = object()
NUM = object()


def unspec():
    raise Unspec()


class Ser:
    """the serialized form of a stored value"""
    def __init__(self, v):
        self.v = v




class Txt:
    """a text reply (bulk or simple): payload scalar"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Txt(%r)' % (self.v,)


class Elem(Txt):
    """a stored scalar as a reply: text, or an integer reply for an integer"""


OK = Txt(bconst(b'OK'))


# ------------------------------------------------------------------ views
def field(I, agg, pred):
    for n, (fn, ft) in enumerate(agg.ty.v[agg.vi][2]):
        if pred(fn, ft):
            return n
    raise KeyError


class View:
    """the keyspace as the reference sees it"""

    def __init__(self, I, dbval):
        self.I, self.S, self.db = I, I.S, Ref([dbval])
        self.now_read = False

    def slotcell(self, key):
        r = cmdrun.h_get_slot(self.I, None, [self.db, Ref([key])])
        if r is NotImplemented:
            raise Unsupported('slot container')
        return r

    def dictmap(self, key):
        m = find_dict(self.I, self.slotcell(key))
        if m is None:
            raise SErr(NOSLOT)       # this server does not hold the slot
        return m

    def now(self):
        return self.S.atom('now', 1_600_000_000_000, 4_100_000_000_000)

    def entry(self, key):
        """live entry of a key or None (an expired entry counts as absent)"""
        m = self.dictmap(key)
        e = m.lookup(self.I, key)
        if e.cell is None:
            return m, e, None
        v = self.I.force(e.cell, 0)
        if not alive(self.I, v, self.now()):
            e.cell = None
            self.hit_expired = True
            return m, e, None
        return m, e, v

    hit_expired = False

    def get(self, key):
        return self.entry(key)[2]

    def put(self, key, data, expires):
        m, e, _ = self.entry(key)
        e.cell = [Val(data, expires)]

    def remove(self, key):
        m, e, v = self.entry(key)
        e.cell = None
        return v is not None


class Val:
    """a value built by the reference"""
    __slots__ = ('data', 'exp')

    def __init__(self, data, exp):
        self.data, self.exp = data, exp


def find_dict(I, ref, depth=9):
    """the key -> value map of one slot (None when the slot is not held)"""
    v = I.deref(ref)
    if type(v) is Lock:
        return find_dict(I, Ref(v.cell), depth - 1)
    if type(v) is Map:
        return v if v.kind == 'hash' and v.vty.p == 'dict::Value' else None
    if type(v) is Agg and depth:
        for i in range(len(v.f)):
            x = v.f[i]
            if type(x) in (int, Lin, B, Fl, float):
                continue
            r = find_dict(I, Ref(v.f, i), depth - 1)
            if r is not None:
                return r
    return None


def vparts(I, v):
    """(data, expires) of a value, program's or reference's"""
    if type(v) is Val:
        return v.data, v.exp
    d = field(I, v, lambda n, t: t.p == 'dict::data_type::DataType')
    e = field(I, v, lambda n, t: n == 'expires_at')
    return I.force(v.f, d), v.f[e]


def set_exp(I, v, x):
    if type(v) is Val:
        v.exp = x
        return
    e = field(I, v, lambda n, t: n == 'expires_at')
    v.f[e] = x


def alive(I, v, now):
    S = I.S
    x = vparts(I, v)[1]
    if S.eq0(x, 'no deadline'):
        return True
    return S.ge0(lin_add(lin_add(x, now, -1), -1), 'not expired')


class Col:
    """a collection built by the reference: kind + Map/Seq"""
    __slots__ = ('kind', 'c')

    def __init__(self, kind, c):
        self.kind, self.c = kind, c


def new_map(I, kind='hash'):
    return Map(kind, I.S.fresh('ref'), None, None, 'empty', 0)


def dkind(I, d):
    """'scalar' | 'hash' | 'list' | 'set' | 'zset' | 'null' | other"""
    if isinstance(d, (B, int, Lin, Fl, float)):
        return 'scalar'
    if type(d) is Col:
        return d.kind
    if d is NULL:
        return 'null'
    d = I.val(I.deref(d))
    n = d.vn()
    return {'String': 'scalar', 'Bytes': 'scalar', 'Integer': 'scalar', 'Float': 'scalar', 'Kvp': 'hash',
            'Deque': 'list', 'Set': 'set', 'SortedSet': 'zset', 'Null': 'null'}.get(n, n)


def scalar(I, d):
    """payload of a scalar"""
    d = I.val(I.deref(d))
    if isinstance(d, (B, int, Lin, Fl, float)):
        return d
    if type(d) is Agg and len(d.f) == 1:
        return scalar(I, I.force(d.f, 0))
    raise Unsupported('scalar %r' % (d,))


def coll(I, d, kind):
    if type(d) is Col:
        if d.kind != kind:
            raise SErr(WT)
        return d.c
    if dkind(I, d) != kind:
        raise SErr(WT)
    if kind == 'zset':
        return zparts(I, d)[0]
    return api.container(I, d)


def zparts(I, d):
    """(member->node map, ordered set) of a stored sorted set"""
    out = []

    def walk(v, n=5):
        v = I.val(I.deref(v))
        if type(v) is Map:
            out.append(v)
        elif type(v) is Agg and n:
            for i in range(len(v.f)):
                walk(I.force(v.f, i), n - 1)
    walk(d)
    h = [m for m in out if m.kind == 'hash']
    b = [m for m in out if m.kind == 'bset']
    if len(h) != 1 or len(b) != 1:
        raise Unsupported('sorted set layout')
    return h[0], b[0]


def score_of(I, cell):
    f = models.leaf_float(I, cell)
    if f is None:
        raise Unsupported('score')
    return f


# ------------------------------------------------------------------ equality
def sceq(I, a, b):
    """same scalar text?  True / False, forking where open"""
    S = I.S
    if type(a) in (int, Lin) and type(b) in (int, Lin):
        return S.eq0(lin_add(a, b, -1))
    if type(a) is B and type(b) is B:
        return S.beq(a, b)
    if isinstance(a, (Fl, float)) and isinstance(b, (Fl, float)):
        if type(a) is Fl and a == b:
            return True
        return S.ftest(a, b, {'eq'})
    if type(b) is B:
        a, b = b, a
    if type(a) is B:
        n = S.bnorm(a)
        k = S.bknown(n)
        if k is not None:
            try:
                v = int(k) if type(b) in (int, Lin) else float(k)
            except ValueError:
                return False
            if type(b) in (int, Lin):
                return str(v).encode() == k and S.eq0(lin_add(b, v, -1))
            return sceq(I, v, b)
        if len(n.p) == 1:
            d = S.adef.get(n.p[0])
            if d and d[0] == 'int' and type(b) in (int, Lin):
                return S.eq0(lin_add(d[1], b, -1))
            if d and d[0] == 'fl' and isinstance(b, (Fl, float)):
                return sceq(I, d[1], b)
    return False


def seqeq(I, p, q, eq):
    """two sequences equal element by element"""
    S = I.S
    p = Seq(list(p.segs))
    q = Seq(list(q.segs))
    for _ in range(12):
        for z in (p, q):
            while z.segs and type(z.segs[0]) is Seg and S.eq0(seglen(z.segs[0])):
                z.segs.pop(0)
        if not p.segs or not q.segs:
            return not p.segs and not q.segs
        a, b = p.segs[0], q.segs[0]
        if type(a) is Seg and type(b) is Seg and a.name == b.name and S.eq0(lin_add(a.lo, b.lo, -1)):
            if S.ge0(lin_add(a.hi, b.hi, -1)):
                hi = b.hi
            else:
                hi = a.hi
            ks = [k for k, _ in a.cells] + [k for k, _ in b.cells]
            for k in ks:
                if S.ent_ge(k, a.lo) is not False and S.ent_ge(lin_add(hi, -1), k) is not False:
                    if not eq(I, seg_elem(I, a, k)[0], seg_elem(I, b, k)[0]):
                        return False
            p.segs[0] = Seg(a.name, a.ety, hi, a.hi, a.cells)
            q.segs[0] = Seg(b.name, b.ety, hi, b.hi, b.cells)
            continue
        x, y = pop_at(I, p, True), pop_at(I, q, True)
        if x is None or y is None:
            return x is None and y is None
        if not eq(I, x, y):
            return False
    raise PathEnd('cut', 'sequence comparison')


def elemeq(I, a, b):
    ka, kb = dkind(I, a), dkind(I, b)
    if ka != kb:
        return False
    if ka == 'scalar':
        return sceq(I, scalar(I, a), scalar(I, b))
    if ka == 'null':
        return True
    raise Unsupported('element kind %s' % ka)


def mapeq(I, p, q, veq, why, label=''):
    """two maps equal: same remainder, same members among those touched"""
    S = I.S
    pb = None if p.base == 'empty' else p.name
    qb = None if q.base == 'empty' else q.name
    keys = [e.key for e in p.ents] + [e.key for e in q.ents]
    for m, nm in ((p, pb), (q, qb)):
        r = S.maps.get(nm) if nm else None
        if r and pb != qb:
            keys += [k for k, pr in r['m']]
            if not r['closed'] and S.bounds(lin_add(m.len0, -sum(1 for _, pr in r['m'] if pr)))[1] > 0:
                why.append('%sunrelated content' % label)
                return False
        elif nm and pb != qb:
            why.append('%sunrelated content' % label)
            return False
    done = []
    for k in keys:
        if any(models.same(I, k, d) for d in done):
            continue
        done.append(k)
        a, b = p.lookup(I, k), q.lookup(I, k)
        if (a.cell is None) != (b.cell is None):
            why.append('%s%s %s' % (label, 'member' if label else 'key', 'left over' if b.cell is None else 'lost'))
            return False
        if a.cell is not None and veq is not None and not veq(I, I.force(a.cell, 0), I.force(b.cell, 0)):
            why.append('%svalue' % label)
            return False
    return True


def nodeeq(I, a, b):
    return sceq(I, score_of(I, a), score_of(I, b))


def dataeq(I, a, b, why):
    if type(a) is Agg and type(b) is Agg and models.same(I, a, b):
        return True
    ka, kb = dkind(I, a), dkind(I, b)
    if ka != kb:
        why.append('kind %s instead of %s' % (ka, kb))
        return False
    if ka == 'scalar':
        r = sceq(I, scalar(I, a), scalar(I, b))
    elif ka == 'list':
        r = seqeq(I, coll(I, a, 'list'), coll(I, b, 'list'), elemeq)
    elif ka == 'hash':
        r = mapeq(I, coll(I, a, 'hash'), coll(I, b, 'hash'), elemeq, why, 'hash field: ')
    elif ka == 'set':
        r = mapeq(I, coll(I, a, 'set'), coll(I, b, 'set'), None, why, 'set member: ')
    elif ka == 'zset':
        r = mapeq(I, coll(I, a, 'zset'), coll(I, b, 'zset'), nodeeq, why, 'sorted set member: ')
    elif ka == 'null':
        r = True
    else:
        raise Unsupported('kind %s' % ka)
    if not r and not why:
        why.append('%s value' % ka)
    return r


# ------------------------------------------------------------------ replies
def absreply(I, v):
    """program's reply frame -> abstract reply"""
    v = I.val(I.deref(v))
    n = v.vn()
    if n in ('Simple', 'OwnedSimple', 'OwnedStringSimple', 'Bulk', 'OwnedBulk'):
        return Txt(I.deref(v.f[0]))
    if n in ('Error', 'OwnedError'):
        return ('err', I.deref(v.f[0]))
    if n == 'Integer':
        return v.f[0]
    if n == 'Null':
        return NULL
    if n == 'Array':
        return [absreply(I, x) for x in models.materialize(I, I.val(v.f[0]))]
    return ('other', n)


def replyeq(I, p, q):
    """program reply p against reference reply q"""
    if q is ANY:
        return True
    if type(q) is list:
        return type(p) is list and len(p) == len(q) and all(replyeq(I, x, y) for x, y in zip(p, q))
    if q is NULL:
        return p is NULL
    if q is NUM:
        return type(p) in (int, Lin)
    if type(q) is Ser:
        b = I.S.bnorm(p.v) if type(p) is Txt else None
        d = I.S.adef.get(b.p[0]) if b is not None and len(b.p) == 1 else None
        if not d or d[0] != 'ser':
            return False
        v = I.val(I.deref(d[1]))
        if v.ty is not None and v.ty.p == 'dict::Value':
            v = vparts(I, v)[0]
        return dataeq(I, v, q.v, [])
    if type(q) is Elem:
        if type(p) is Txt:
            return sceq(I, p.v, q.v)
        return type(p) in (int, Lin) and type(q.v) in (int, Lin) and sceq(I, p, q.v)
    if type(q) is Txt:
        return type(p) is Txt and sceq(I, p.v, q.v)
    if type(q) in (int, Lin):
        return type(p) in (int, Lin) and I.S.eq0(lin_add(p, q, -1))
    raise Unsupported('reply %r' % (q,))


# ------------------------------------------------------------------ commands
class C:
    """one command evaluation"""

    def __init__(self, I, view):
        self.I, self.S, self.v = I, I.S, view
        self.info = {}

    # arguments
    def int(self, b, lo=-2**63, hi=2**63 - 1):
        ok, v = api.parse_int(self.I, b, lo, hi)
        if not ok:
            raise SErr()
        return v

    def uint(self, b):
        n = self.int(b)
        if not self.S.ge0(n):
            raise SErr()
        return n

    def flt(self, b):
        ok, v = api.parse_float(self.I, b)
        if not ok:
            raise SErr()
        if self.S.ftest(v, v, {'un'}):
            raise SErr()
        return v

    def deadline(self, start, amount, unit):
        x = lin_add(start, lin_scale(amount, unit))
        if not self.S.ge0(lin_add(MAXDL, x, -1)):
            raise SErr()
        if self.S.eq0(x):
            return 1
        return x

    def get(self, key):
        return self.v.get(key)

    def col(self, key, kind):
        """existing collection or None"""
        v = self.get(key)
        if v is None:
            self.info['missing'] = True
            return None
        return coll(self.I, vparts(self.I, v)[0], kind)

    def col_or_new(self, key, kind):
        c = self.col(key, kind)
        if c is None:
            c = Seq([]) if kind == 'list' else new_map(self.I, 'set' if kind == 'set' else 'hash')
            self.v.put(key, Col(kind, c), 0)
        return c

    def drop_if_empty(self, key, c):
        if self.S.eq0(length(self.I, c)):
            self.v.remove(key)

    # generic
    def getk(self, key):
        v = self.get(key)
        if v is None:
            self.info['missing'] = True
            return NULL
        d = vparts(self.I, v)[0]
        if dkind(self.I, d) != 'scalar':
            raise SErr(WT)
        return Elem(scalar(self.I, d))

    def ttl(self, key, ms):
        v = self.get(key)
        if v is None:
            self.info['missing'] = True
            return -2
        x = vparts(self.I, v)[1]
        if self.S.eq0(x):
            return -1
        r = lin_add(x, self.v.now(), -1)
        return r if ms else self.S.div_const(lin_add(r, 500), 1000)

    def exists(self, *keys):
        return sum(1 for k in keys if self.get(k) is not None)

    def delete(self, *keys):
        return sum(1 for k in keys if self.v.remove(k))

    def set(self, key, val, ex=None, unit=1, at=False, keepttl=False, nx=False, xx=False, get=False):
        S = self.S
        x = 0
        if ex is not None:
            x = self.deadline(0 if at else self.v.now(), self.uint(ex), unit)
        old = self.get(key)
        if old is None:
            self.info['missing'] = True
        if get:
            if old is None:
                rep = NULL
            else:
                d = vparts(self.I, old)[0]
                if dkind(self.I, d) != 'scalar':
                    raise Unspec()
                rep = Elem(scalar(self.I, d))
        if (nx and old is not None) or (xx and old is None):
            self.info['unmet'] = True
            return rep if get else NULL
        if keepttl and old is not None:
            x = vparts(self.I, old)[1]
        self.v.put(key, val, x)
        return rep if get else OK

    def dump(self, key):
        v = self.get(key)
        if v is None:
            self.info['missing'] = True
            return NULL
        return Ser(vparts(self.I, v)[0])

    def restore(self, key, ttl, payload, replace=False, abs=False, idle=None, freq=None):
        S = self.S
        n = self.uint(ttl)
        if idle is not None:
            self.uint(idle)
        if freq is not None and not S.ge0(lin_add(65535, self.uint(freq), -1)):
            raise SErr()
        if abs or S.eq0(n):
            x = n
        else:
            x = self.deadline(self.v.now(), n, 1)
        if self.get(key) is not None and not replace:
            raise SErr(b'BUSYKEY')
        de = [e for e in S.ev if e['k'] == 'deserialize']
        if not de or not de[-1]['ok']:
            raise SErr()
        self.v.put(key, de[-1]['out'], x)
        return OK

    def must_exist(self, key, reply):
        if self.get(key) is None:
            self.info['missing'] = True
            raise SErr()
        return reply

    def expire(self, key, t, unit, at=False, cond=()):
        S = self.S
        dl = self.deadline(0 if at else self.v.now(), self.uint(t), unit)
        v = self.get(key)
        if v is None:
            self.info['missing'] = True
            return 0
        x = vparts(self.I, v)[1]
        none = S.eq0(x)
        nx, xx, gt, lt = ('nx' in cond, 'xx' in cond, 'gt' in cond, 'lt' in cond)
        ok = True
        if nx:
            ok = none and not gt and not lt
        if xx and none:
            # the statement only covers a condition given on its own
            if gt or lt:
                raise Unspec()
            ok = False
        if gt:
            ok = ok and not none and S.ge0(lin_add(lin_add(dl, x, -1), -1))
        if lt:
            ok = ok and (none or S.ge0(lin_add(lin_add(x, dl, -1), -1)))
        if not ok:
            self.info['unmet'] = True
            return 0
        set_exp(self.I, v, dl)
        return 1

    def incr(self, key, by, neg=False):
        S = self.S
        if type(by) is B:
            by = self.int(by)
        if neg:
            by = lin_scale(by, -1)
            if not S.ge0(lin_add(MAXDL, by, -1)):
                raise SErr()
        v = self.get(key)
        if v is None:
            self.info['missing'] = True
            self.v.put(key, by, 0)
            return by
        d, x = vparts(self.I, v)
        if dkind(self.I, d) != 'scalar':
            raise SErr(WT)
        n = self.add_int(scalar(self.I, d), by)
        self.v.put(key, n, x)
        return n

    def add_int(self, old, by):
        S = self.S
        if type(old) is B:
            old = self.int(old)
        if type(old) not in (int, Lin):
            raise SErr()
        n = lin_add(old, by)
        if not S.fits(n, -2**63, 2**63 - 1):
            raise SErr()
        return n

    # lists
    def push(self, key, vals, left, only_existing=False):
        if only_existing:
            c = self.col(key, 'list')
            if c is None:
                return 0
        else:
            c = self.col_or_new(key, 'list')
        for v in vals:
            if left:
                c.segs.insert(0, Ref([v]))
            else:
                c.segs.append(Ref([v]))
        return length(self.I, c)

    def pop(self, key, count, left):
        I, S = self.I, self.S
        n = 1 if count is None else self.uint(count)
        c = self.col(key, 'list')
        if c is None:
            return []
        out = []
        while True:
            if S.eq0(lin_add(n, -len(out))):
                break
            if len(out) > models.reps(self.S) + 1:
                raise PathEnd('cut', 'pop count')
            v = pop_at(I, c, left)
            if v is None:
                break
            out.append(Elem(scalar(I, v)))
        self.drop_if_empty(key, c)
        return out

    def llen(self, key):
        c = self.col(key, 'list')
        return 0 if c is None else length(self.I, c)

    def norm_range(self, a, b, n):
        """[a, b] with negative indexes from the end, clamped to n elements -> (lo, hi) exclusive"""
        S = self.S
        if not S.ge0(a):
            a = lin_add(a, n)
        if not S.ge0(b):
            b = lin_add(b, n)
        if not S.ge0(a):
            a = 0
        if S.ge0(lin_add(b, n, -1)):
            b = lin_add(n, -1)
        if not S.ge0(lin_add(b, a, -1)):
            return 0, 0
        return a, lin_add(b, 1)

    def lrange(self, key, a, b):
        I = self.I
        a, b = self.int(a), self.int(b)
        c = self.col(key, 'list')
        if c is None:
            return []
        lo, hi = self.norm_range(a, b, length(I, c))
        if type(hi) is int and hi == 0:
            return []
        s = models.slice_of(I, Seq(list(c.segs)), lo, hi)
        return [Elem(scalar(I, r)) for r in models.materialize(I, s)]

    # hashes
    def hset(self, key, pairs, nx=False):
        c = self.col_or_new(key, 'hash')
        n = 0
        for f, v in pairs:
            e = c.lookup(self.I, f)
            if e.cell is None:
                n += 1
                e.cell = [v]
            elif not nx:
                e.cell = [v]
        return n

    def hget(self, key, f):
        c = self.col(key, 'hash')
        if c is None:
            return NULL
        e = c.lookup(self.I, f)
        return NULL if e.cell is None else Elem(scalar(self.I, self.I.force(e.cell, 0)))

    def hmget(self, key, *fs):
        c = self.col(key, 'hash')
        return [NULL if c is None or c.lookup(self.I, f).cell is None else
                Elem(scalar(self.I, self.I.force(c.lookup(self.I, f).cell, 0))) for f in fs]

    def hgetall(self, key):
        c = self.col(key, 'hash')
        if c is None:
            return []
        return Bag([(Txt(e.key), Elem(scalar(self.I, self.I.force(e.cell, 0)))) for e in c.materialize(self.I)])

    def hexists(self, key, f):
        c = self.col(key, 'hash')
        return 0 if c is None else int(c.lookup(self.I, f).cell is not None)

    def hdel(self, key, *fs):
        c = self.col(key, 'hash')
        if c is None:
            return 0
        n = 0
        for f in fs:
            e = c.lookup(self.I, f)
            if e.cell is not None:
                n += 1
                e.cell = None
        self.drop_if_empty(key, c)
        return n

    def hincrby(self, key, f, by):
        by = self.int(by)
        c = self.col(key, 'hash')
        if c is None:
            c = self.col_or_new(key, 'hash')
        e = c.lookup(self.I, f)
        n = by if e.cell is None else self.add_int(scalar(self.I, self.I.force(e.cell, 0)), by)
        e.cell = [n]
        return n

    # sets
    def sadd(self, key, *ms):
        c = self.col_or_new(key, 'set')
        n = 0
        for m in ms:
            e = c.lookup(self.I, m)
            if e.cell is None:
                n += 1
                e.cell = [m]
        return n

    def srem(self, key, *ms):
        return self.hdel_kind(key, ms, 'set')

    def hdel_kind(self, key, ms, kind):
        c = self.col(key, kind)
        if c is None:
            return 0
        n = 0
        for m in ms:
            e = c.lookup(self.I, m)
            if e.cell is not None:
                n += 1
                e.cell = None
        self.drop_if_empty(key, c)
        return n

    def sismember(self, key, m):
        c = self.col(key, 'set')
        return 0 if c is None else int(c.lookup(self.I, m).cell is not None)

    def smismember(self, key, *ms):
        c = self.col(key, 'set')
        return [0 if c is None else int(c.lookup(self.I, m).cell is not None) for m in ms]

    def smembers(self, key):
        c = self.col(key, 'set')
        return [] if c is None else Bag([(Txt(e.key),) for e in c.materialize(self.I)])

    # sorted sets
    def zadd(self, key, pairs, opts=()):
        I, S = self.I, self.S
        pairs = [(self.flt(s), m) for s, m in pairs]
        nx, xx, gt, lt, ch, inc = (o in opts for o in ('nx', 'xx', 'gt', 'lt', 'ch', 'incr'))
        if nx and (gt or lt):
            raise SErr()
        if inc and len(pairs) != 1:
            raise SErr()
        if xx:
            c = self.col(key, 'zset')
            if c is None:
                return ANY if inc else 0
        else:
            c = self.col_or_new(key, 'zset')
        added = changed = 0
        for s, m in pairs:
            e = c.lookup(I, m)
            if e.cell is None:
                if xx:
                    self.info['unmet'] = True
                    continue
                e.cell = [s]
                added += 1
                continue
            old = score_of(I, e.cell[0])
            if not isinstance(old, float):
                S.fset(old, old, S.frel_get(old, old) & {'eq'})
            if inc:
                s = fadd(I, s, old)
                if S.ftest(s, s, {'un'}):
                    raise SErr()
            if nx or (gt and not S.ftest(s, old, {'gt'})) or (lt and not S.ftest(s, old, {'lt'})):
                self.info['unmet'] = True
                continue
            if not S.ftest(s, old, {'eq'}):
                changed += 1
            e.cell = [s]
        if inc:
            return ANY
        return added + changed if ch else added

    def zrem(self, key, *ms):
        return self.hdel_kind(key, ms, 'zset')

    def zord(self, key):
        """members in order: [(member, score)] or None"""
        v = self.get(key)
        if v is None:
            self.info['missing'] = True
            return None
        d = vparts(self.I, v)[0]
        coll(self.I, d, 'zset')
        h, b = zparts(self.I, d)
        out = []
        for e in b.materialize(self.I):
            n = self.I.val(e.key)
            out.append((models.node_key(self.I, n), score_of(self.I, n)))
        return out

    def zreply(self, sel, ws):
        out = []
        for m, s in sel:
            out.append(Txt(m))
            if ws:
                out.append(Txt(s))
        return out

    def limit(self, sel, lim):
        """LIMIT offset count over a concrete list"""
        if lim is None:
            return sel
        S = self.S
        o, c = self.int(lim[0]), self.int(lim[1])
        if not S.ge0(o):
            raise Unspec()
        out = []
        for i, x in enumerate(sel):
            if not S.ge0(lin_add(i, o, -1)):
                continue
            if S.ge0(c) and S.ge0(lin_add(len(out), c, -1)):
                break
            out.append(x)
        return out

    def check_limit(self, lim):
        if lim is not None:
            self.int(lim[0]), self.int(lim[1])

    def zrange_rank(self, key, a, b, rev=False, ws=False):
        a, b = self.int(a), self.int(b)
        o = self.zord(key)
        if o is None:
            return []
        if rev:
            o = o[::-1]
        lo, hi = self.norm_range(a, b, len(o))
        sel = [x for i, x in enumerate(o) if self.S.ge0(lin_add(i, lo, -1)) and
               not self.S.ge0(lin_add(i, hi, -1))]
        return self.zreply(sel, ws)

    def sbound(self, b):
        """score bound -> (value, exclusive)"""
        S = self.S
        k = S.bnorm(b)
        ex = False
        if api.starts_with(self.I, k, b'('):
            ex = True
            k = models.slice_of(self.I, k, 1, S.blen(k))
        return self.flt(k), ex

    def inscore(self, s, lo, hi):
        S = self.S
        return S.ftest(s, lo[0], {'gt'} if lo[1] else {'gt', 'eq'}) and \
            S.ftest(s, hi[0], {'lt'} if hi[1] else {'lt', 'eq'})

    def zscore_sel(self, key, lo, hi):
        lo, hi = self.sbound(lo), self.sbound(hi)
        return lo, hi

    def zrange_score(self, key, a, b, rev=False, ws=False, lim=None):
        lo, hi = self.sbound(a), self.sbound(b)
        self.check_limit(lim)
        if rev:
            lo, hi = hi, lo
        o = self.zord(key)
        if o is None:
            return []
        sel = [x for x in o if self.inscore(x[1], lo, hi)]
        if rev:
            sel = sel[::-1]
        return self.zreply(self.limit(sel, lim), ws)

    def lbound(self, b, which):
        S = self.S
        k = S.bnorm(b)
        kn = S.bknown(k)
        if S.beq(k, bconst(b'-')):
            return '-'
        if S.beq(k, bconst(b'+')):
            return '+'
        for c, ex in ((b'[', False), (b'(', True)):
            if api.starts_with(self.I, k, c):
                return models.slice_of(self.I, k, 1, S.blen(k)), ex
        raise SErr()

    def inlex(self, m, lo, hi):
        if lo == '+' or hi == '-':
            raise Unspec()
        if lo != '-':
            c = api.cmp_vals(self.I, m, lo[0])
            if c < 0 or (c == 0 and lo[1]):
                return False
        if hi != '+':
            c = api.cmp_vals(self.I, m, hi[0])
            if c > 0 or (c == 0 and hi[1]):
                return False
        return True

    def zlex(self, key, a, b, rev=False):
        """selected members in ascending order"""
        lo, hi = self.lbound(a, 'min'), self.lbound(b, 'max')
        if rev:
            lo, hi = hi, lo
        o = self.zord(key)
        if o is None:
            return None
        for (_, s), (_, t) in zip(o, o[1:]):
            if not self.S.ftest(s, t, {'eq'}):
                raise Unspec()       # lexicographic ranges are for equal scores
        return [x for x in o if self.inlex(x[0], lo, hi)]

    def zrange_lex(self, key, a, b, rev=False, lim=None, ws=False):
        self.check_limit(lim)
        sel = self.zlex(key, a, b, rev)
        if sel is None:
            return []
        if rev:
            sel = sel[::-1]
        return self.zreply(self.limit(sel, lim), ws)

    def zrank(self, key, m, rev=False):
        v = self.get(key)
        if v is None:
            self.info['missing'] = True
            return NULL
        h = coll(self.I, vparts(self.I, v)[0], 'zset')
        if h.lookup(self.I, m).cell is None:
            return NULL
        o = self.zord(key)
        ks = [models.same(self.I, m, x[0]) or self.S.beq(m, x[0]) for x in o]
        i = ks.index(True)
        return len(o) - 1 - i if rev else i

    def zremrange(self, key, sel):
        """remove the selected members"""
        if sel is None:
            return 0
        v = self.get(key)
        h = coll(self.I, vparts(self.I, v)[0], 'zset')
        for m, _ in sel:
            h.lookup(self.I, m).cell = None
        self.drop_if_empty(key, h)
        return len(sel)

    def zremrangebyrank(self, key, a, b):
        a, b = self.int(a), self.int(b)
        o = self.zord(key)
        if o is None:
            return 0
        lo, hi = self.norm_range(a, b, len(o))
        return self.zremrange(key, [x for i, x in enumerate(o) if self.S.ge0(lin_add(i, lo, -1)) and
                                    not self.S.ge0(lin_add(i, hi, -1))])

    def zremrangebyscore(self, key, a, b):
        lo, hi = self.sbound(a), self.sbound(b)
        o = self.zord(key)
        return self.zremrange(key, None if o is None else [x for x in o if self.inscore(x[1], lo, hi)])

    def zremrangebylex(self, key, a, b):
        return self.zremrange(key, self.zlex(key, a, b))


class Bag(list):
    """an array reply whose groups may come in any order"""


def fadd(I, a, b):
    return I.fbin('Add', a, b)
