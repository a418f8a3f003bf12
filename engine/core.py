"""Abstract domain and abstract state.

The analysis is an abstract interpretation of MIR with trace partitioning: the
abstract state is split at branches whose guard the domain cannot decide, and
every partition is one element of the disjunction.  Scalars are linear forms
over named inputs with an interval on each linear form; byte strings are
concatenations of constants and named inputs; maps/sequences are summarised by
the members the program touched plus an unknown remainder.  Nothing is
executed, and no solver is consulted.
"""
from math import gcd

U = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1),
     'usize': (0, 2**64 - 1), 'u128': (0, 2**128 - 1), 'i8': (-128, 127), 'i16': (-2**15, 2**15 - 1),
     'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1), 'isize': (-2**63, 2**63 - 1),
     'i128': (-2**127, 2**127 - 1), 'bool': (0, 1), 'char': (0, 0x10ffff)}
LEN_MAX = 2**48


class Infeasible(Exception):
    pass


class PathEnd(Exception):
    """path ends without returning (panic / process exit / cut)"""

    def __init__(self, kind, why, site=None, stack=()):
        self.kind, self.why, self.site, self.stack = kind, why, site, stack

    def __str__(self):
        return '%s %s at %s' % (self.kind, self.why, self.site)


class Unsupported(Exception):
    pass


class Moved:
    def __repr__(self):
        return 'MOVED'


MOVED = Moved()


class Uninit:
    def __repr__(self):
        return 'UNINIT'


UNINIT = Uninit()


class Ref:
    __slots__ = ('c', 'i')

    def __init__(self, c, i=0):
        self.c, self.i = c, i

    def __repr__(self):
        return 'Ref->%r' % (self.c[self.i],) if not isinstance(self.c, list) or len(self.c) < 3 else 'Ref'


class Agg:
    __slots__ = ('ty', 'vi', 'f', 'tag')

    def __init__(self, ty, vi, f, tag=None):
        self.ty, self.vi, self.f, self.tag = ty, vi, f, tag

    def __repr__(self):
        n = ''
        if self.ty is not None:
            if self.ty.v and self.vi is not None and self.vi < len(self.ty.v):
                n = self.ty.v[self.vi][0]
            else:
                n = self.ty.s.split('::')[-1][:30]
        return '%s%r' % (n, tuple(self.f))

    def vn(self):
        return self.ty.v[self.vi][0] if self.ty is not None and self.ty.v else None


class Sym:
    __slots__ = ('ty', 'name')

    def __init__(self, ty, name):
        self.ty, self.name = ty, name

    def __repr__(self):
        return '?%s' % self.name


class FnV:
    __slots__ = ('callee', 'tm')

    def __init__(self, callee, tm):
        self.callee, self.tm = callee, tm

    def __repr__(self):
        return 'fn:%s' % self.callee.get('r')


class Lin:
    """c + sum coef*atom, at least one atom"""
    __slots__ = ('c', 't')

    def __init__(self, c, t):
        self.c, self.t = c, t

    def __repr__(self):
        s = ' + '.join(('%s' % a if k == 1 else '%d*%s' % (k, a)) for a, k in self.t)
        return '(%s%s)' % (s, ' + %d' % self.c if self.c else '')

    def __eq__(self, o):
        return isinstance(o, Lin) and o.c == self.c and o.t == self.t

    def __hash__(self):
        return hash((self.c, self.t))


class Fl:
    """symbolic float"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'f:' + self.name

    def __eq__(self, o):
        return isinstance(o, Fl) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class B:
    """immutable byte string: tuple of bytes | symbol-name(str)"""
    __slots__ = ('p',)

    def __init__(self, *p):
        self.p = p

    def __repr__(self):
        return 'B' + repr(self.p)

    def __eq__(self, o):
        return isinstance(o, B) and o.p == self.p

    def __hash__(self):
        return hash(self.p)


def bconst(b):
    return B(b) if b else B()


class Opq:
    """opaque external object"""
    __slots__ = ('kind', 'ty', 'a')

    def __init__(self, kind, ty=None, **a):
        self.kind, self.ty, self.a = kind, ty, a

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.a)


class Lock:
    __slots__ = ('name', 'cell', 'kind')

    def __init__(self, name, cell, kind='mutex'):
        self.name, self.cell, self.kind = name, cell, kind

    def __repr__(self):
        return 'Lock(%s)' % self.name


class Guard:
    __slots__ = ('lock', 'live')

    def __init__(self, lock):
        self.lock, self.live = lock, True

    def __repr__(self):
        return 'Guard(%s)' % self.lock.name


# ------------------------------------------------------------------ linear
def lin_add(a, b, k=1):
    if type(a) is int and type(b) is int:
        return a + k * b
    d = {}
    c = 0
    for x, m in ((a, 1), (b, k)):
        if type(x) is int:
            c += m * x
        else:
            c += m * x.c
            for at, co in x.t:
                d[at] = d.get(at, 0) + m * co
    t = tuple(sorted((at, co) for at, co in d.items() if co))
    return Lin(c, t) if t else c


def lin_scale(a, k):
    if type(a) is int:
        return a * k
    if k == 0:
        return 0
    return Lin(a.c * k, tuple((at, co * k) for at, co in a.t))


def norm(t):
    """t: tuple of (atom,coef) -> (key, g) with t == g*key, first coef > 0"""
    g = 0
    for _, co in t:
        g = gcd(g, co)
    if t[0][1] < 0:
        g = -g
    if g == 1:
        return t, 1
    return tuple((a, co // g) for a, co in t), g


INF = float('inf')


class State:
    """one trace partition"""

    def __init__(self, prefix=(), limits=None):
        self.prefix = prefix
        self.trace = []
        self.alts = []
        self.steps = 0
        self.arange = {}
        self.adef = {}
        self.facts = {}
        self.neq = {}
        self.enumv = {}
        self.frel = {}
        self.bsub = {}
        self.bneq = set()
        self.bmemo = {}
        self.bclass = {}
        self.memo = {}
        self.ev = []
        self.stack = []
        self.fresh_n = 0
        self.imprecise = []
        self.statics = {}
        self.proms = {}
        self.held = []
        self.lockcls = {}
        self.visits = {}
        self.limits = limits or {}
        self.maps = {}
        self.data = {}
        self.notes = []

    # -- choices
    def choose(self, n, why=''):
        if n <= 1:
            return 0
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            c = 0
            for k in range(n - 1, 0, -1):
                self.alts.append(tuple(self.trace) + (k,))
            if i > self.limits.get('depth', 400):
                raise PathEnd('cut', 'choice depth')
        self.trace.append(c)
        return c

    def fork(self, why=''):
        """True first, then False"""
        return self.choose(2, why) == 0

    def fresh(self, p):
        self.fresh_n += 1
        return '%s#%d' % (p, self.fresh_n)

    def log(self, kind, **d):
        d['k'] = kind
        d['site'] = self.site()
        d['fn'] = self.stack[-1][0] if self.stack else None
        d['stack'] = tuple(s[0] for s in self.stack)
        self.ev.append(d)
        return d

    def site(self):
        for k, s in reversed(self.stack):
            if s:
                return s
        return '?'

    # -- integers
    def atom(self, name, lo, hi, d=None):
        if name not in self.arange:
            self.arange[name] = (lo, hi)
            if d is not None:
                self.adef[name] = d
        r = self.arange[name]
        return Lin(0, ((name, 1),))

    def _abounds(self, a):
        lo, hi = self.arange.get(a, (-INF, INF))
        f = self.facts.get(((a, 1),))
        if f:
            lo, hi = max(lo, f[0]), min(hi, f[1])
        return lo, hi

    def _tbounds(self, t, depth=2):
        lo = hi = 0
        for a, co in t:
            l, h = self._abounds(a)
            if co > 0:
                lo += co * l
                hi += co * h
            else:
                lo += co * h
                hi += co * l
        if len(t) > 1:
            key, g = norm(t)
            f = self.facts.get(key)
            if f:
                l, h = (g * f[0], g * f[1]) if g > 0 else (g * f[1], g * f[0])
                lo, hi = max(lo, l), min(hi, h)
        if depth and len(t) >= 1 and self.facts:
            at = {a for a, _ in t}
            for fk, f in list(self.facts.items()):
                if len(fk) < 2 or (f[0] == -INF and f[1] == INF):
                    continue
                if not any(a in at for a, _ in fk):
                    continue
                d = dict(t)
                dk = dict(fk)
                sh = next(a for a, _ in fk if a in at)
                k = 1
                if d[sh] % dk[sh]:
                    if depth < 2 or len(t) > 2 or dk[sh] % d[sh]:
                        continue
                    k = abs(dk[sh] // d[sh])    # bounds of a multiple: quotients of the same number
                m = k * d[sh] // dk[sh]
                r = lin_add(Lin(0, t) if k == 1 else lin_scale(Lin(0, t), k), Lin(0, fk), -m)
                rt = () if type(r) is int else r.t
                if len(rt) > max(len(t), 1):
                    if k == 1:
                        continue
                    key, g = norm(rt)
                    f2 = self.facts.get(key)
                    if not f2:
                        continue
                    rl, rh = (g * f2[0], g * f2[1]) if g > 0 else (g * f2[1], g * f2[0])
                else:
                    rl, rh = self._tbounds(rt, depth - 1) if rt else (0, 0)
                fl, fh = (m * f[0], m * f[1]) if m > 0 else (m * f[1], m * f[0])
                if k > 1:
                    if rl + fl != -INF:
                        lo = max(lo, -(-(rl + fl) // k))
                    if rh + fh != INF:
                        hi = min(hi, (rh + fh) // k)
                    continue
                lo = max(lo, rl + fl)
                hi = min(hi, rh + fh)
        return lo, hi

    def bounds(self, x):
        if type(x) is int:
            return x, x
        lo, hi = self._tbounds(x.t)
        return lo + x.c, hi + x.c

    def assume_range(self, x, lo, hi):
        """assert lo <= x <= hi"""
        if type(x) is int:
            if not lo <= x <= hi:
                raise Infeasible()
            return
        l0, h0 = self.bounds(x)
        if l0 > hi or h0 < lo:
            raise Infeasible()
        key, g = norm(x.t)
        l, h = lo - x.c, hi - x.c
        if g < 0:
            l, h = -h, -l
            g2 = -g
        else:
            g2 = g
        l = -INF if l == -INF else -((-l) // g2)
        h = INF if h == INF else h // g2
        f = self.facts.get(key, (-INF, INF))
        f = (max(f[0], l), min(f[1], h))
        ne = self.neq.get(key)
        if ne:
            while f[0] in ne:
                f = (f[0] + 1, f[1])
            while f[1] in ne:
                f = (f[0], f[1] - 1)
        if f[0] > f[1]:
            raise Infeasible()
        old = self.facts.get(key)
        self.facts[key] = f
        l0, h0 = self.bounds(x)
        if l0 > h0:
            raise Infeasible()
        if old != f:
            at = {a for a, _ in key}
            for fk in list(self.facts):
                if fk != key and any(a in at for a, _ in fk):
                    l0, h0 = self._tbounds(fk)
                    if l0 > h0:
                        raise Infeasible()
            for fk, vs in self.neq.items():
                if any(a in at for a, _ in fk):
                    l0, h0 = self._tbounds(fk)
                    if l0 == h0 and l0 in vs:
                        raise Infeasible()

    def ge0(self, d, why=''):
        """decide d >= 0"""
        lo, hi = self.bounds(d)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        if self.fork(why):
            self.assume_range(d, 0, INF)
            return True
        self.assume_range(d, -INF, -1)
        return False

    def eq0(self, d, why=''):
        if type(d) is int:
            return d == 0
        lo, hi = self.bounds(d)
        if lo == hi == 0:
            return True
        if lo > 0 or hi < 0:
            return False
        key, g = norm(d.t)
        if d.c % g:
            return False
        v = -d.c // g
        if v in self.neq.get(key, ()):
            return False
        if self.fork(why):
            self.assume_range(d, 0, 0)
            return True
        self.neq.setdefault(key, set()).add(v)
        f = self.facts.get(key)
        if f is None:
            f = self._tbounds(key)
        if f[0] == v:
            self.assume_range(Lin(0, key), v + 1, INF)
        elif f[1] == v:
            self.assume_range(Lin(0, key), -INF, v - 1)
        return False

    def cmp3(self, a, b):
        """-1,0,1"""
        if type(a) is int and type(b) is int:
            return (a > b) - (a < b)
        d = lin_add(a, b, -1)
        if not self.ge0(d):
            return -1
        return 0 if self.eq0(d) else 1

    # entailment only, no fork.  None = unknown
    def ent_eq(self, a, b):
        d = lin_add(a, b, -1)
        if type(d) is int:
            return d == 0
        lo, hi = self.bounds(d)
        if lo == hi == 0:
            return True
        if lo > 0 or hi < 0:
            return False
        key, g = norm(d.t)
        if d.c % g or (-d.c // g) in self.neq.get(key, ()):
            return False
        return None

    def ent_ge(self, a, b):
        lo, hi = self.bounds(lin_add(a, b, -1))
        return True if lo >= 0 else (False if hi < 0 else None)

    def const_of(self, x):
        lo, hi = self.bounds(x)
        return lo if lo == hi else None

    def fits(self, x, lo, hi):
        """decide lo<=x<=hi by forking"""
        l, h = self.bounds(x)
        if l >= lo and h <= hi:
            return True
        if h < lo or l > hi:
            return False
        if self.fork('fits'):
            self.assume_range(x, lo, hi)
            return True
        # out of range: below or above
        can_lo, can_hi = l < lo, h > hi
        if can_lo and can_hi:
            if self.fork('over'):
                self.assume_range(x, hi + 1, INF)
            else:
                self.assume_range(x, -INF, lo - 1)
        elif can_lo:
            self.assume_range(x, -INF, lo - 1)
        else:
            self.assume_range(x, hi + 1, INF)
        return False

    def opatom(self, op, args, lo, hi):
        name = '%s(%s)' % (op, ','.join(repr(a) for a in args))
        return self.atom(name, lo, hi, (op,) + tuple(args))

    def div_const(self, x, c):
        """floor division of a non-negative linear form by c>0"""
        if type(x) is int:
            return x // c
        if c == 1:
            return x
        if all(co % c == 0 for _, co in x.t) and x.c % c == 0:
            return Lin(x.c // c, tuple((a, co // c) for a, co in x.t))
        # a multiple of c and a rest below c
        for h in (0, c // 2):
            q = Lin(0, tuple((a, (co + h) // c) for a, co in x.t if (co + h) // c))
            if not q.t:
                continue
            q = lin_add(q, x.c // c)
            l, u = self.bounds(lin_add(x, lin_scale(q, c), -1))
            if l != -INF and u != INF and l // c == u // c:
                return lin_add(q, l // c)
        lo, hi = self.bounds(x)
        q = self.opatom('div', (x, c), lo // c if lo != -INF else -INF, hi // c if hi != INF else INF)
        self.assume_range(lin_add(x, lin_scale(q, c), -1), 0, c - 1)
        return q

    # -- floats
    def frel_get(self, a, b):
        """possible relations between a and b as a set of lt/eq/gt/un"""
        if isinstance(a, float) and isinstance(b, float):
            if a != a or b != b:
                return {'un'}
            return {'lt'} if a < b else {'gt'} if a > b else {'eq'}
        ka, kb = fkey(a), fkey(b)
        sw = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq', 'un': 'un'}
        if ka == kb:
            r = self.frel.get((ka, kb), {'eq', 'un'})
            return set(r)
        if ka <= kb:
            r = set(self.frel.get((ka, kb), {'lt', 'eq', 'gt', 'un'}))
        else:
            r = {sw[x] for x in self.frel.get((kb, ka), {'lt', 'eq', 'gt', 'un'})}
        for x in (a, b):
            if self.fnan(x) is True:
                r &= {'un'}
        if self.fnan(a) is False and self.fnan(b) is False:
            r.discard('un')
        for x, y, big in ((a, b, 'lt'), (b, a, 'gt')):
            if isinstance(y, float) and y == INF:
                r.discard(sw[big])
            if isinstance(y, float) and y == -INF:
                r.discard(big)
        if len(r - {'un'}) > 1:
            w = self.freach(a, b)
            if w == 2:
                r &= {'lt'}
            elif w == 1:
                r &= {'lt', 'eq'}
            w = self.freach(b, a)
            if w == 2:
                r &= {'gt'}
            elif w == 1:
                r &= {'gt', 'eq'}
        return r

    def freach(self, a, b):
        """derived order a<=b: 2 = strictly less, 1 = at most, 0 = unknown (transitive closure of known facts)"""
        sw = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq', 'un': 'un'}
        edges = {}
        nodes = set()
        for (x, y), rel in self.frel.items():
            if x == y:
                continue
            nodes.add(x)
            nodes.add(y)
            if rel <= {'lt', 'eq'}:
                edges.setdefault(x, []).append((y, rel == {'lt'}))
            if rel <= {'gt', 'eq'}:
                edges.setdefault(y, []).append((x, rel == {'gt'}))
        ka, kb = fkey(a), fkey(b)
        nodes |= {ka, kb}
        consts = []
        for n in nodes:
            try:
                consts.append((float(n), n))
            except ValueError:
                pass
        for v, n in consts:
            for v2, n2 in consts:
                if n != n2 and v <= v2:
                    edges.setdefault(n, []).append((n2, v < v2))
        best = {ka: 1}
        work = [ka]
        while work:
            n = work.pop()
            for m, st in edges.get(n, ()):
                w = 2 if st or best[n] == 2 else 1
                if best.get(m, 0) < w:
                    best[m] = w
                    work.append(m)
        return best.get(kb, 0)

    def fnan(self, x):
        if isinstance(x, float):
            return x != x
        r = self.frel.get((fkey(x), fkey(x)), {'eq', 'un'})
        return True if r == {'un'} else False if r == {'eq'} else None

    def fset(self, a, b, r):
        if not r:
            raise Infeasible()
        if isinstance(a, float) and isinstance(b, float):
            return
        sw = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq', 'un': 'un'}
        ka, kb = fkey(a), fkey(b)
        if ka == kb:
            self.frel[(ka, kb)] = set(r)
            return
        if 'un' not in r:
            for x in (a, b):
                if not isinstance(x, float):
                    if self.fnan(x) is True:
                        raise Infeasible()
                    self.frel[(fkey(x), fkey(x))] = {'eq'}
        elif r == {'un'}:
            if self.fnan(a) is False:
                if not isinstance(b, float):
                    self.frel[(fkey(b), fkey(b))] = {'un'}
            elif self.fnan(b) is False and not isinstance(a, float):
                self.frel[(fkey(a), fkey(a))] = {'un'}
        if ka <= kb:
            self.frel[(ka, kb)] = set(r)
        else:
            self.frel[(kb, ka)] = {sw[x] for x in r}

    def ftest(self, a, b, want):
        """decide relation(a,b) in want"""
        r = self.frel_get(a, b)
        yes, no = r & want, r - want
        if not r:
            raise Infeasible()
        if not no:
            return True
        if not yes:
            return False
        if self.fork('float'):
            self.fset(a, b, yes)
            return True
        self.fset(a, b, no)
        return False

    # -- byte strings
    def bsym(self, name, cls=None):
        if cls:
            self.bclass.setdefault(name, cls)
        return B(name)

    def bnorm(self, b):
        out = []
        ch = False
        for p in b.p:
            if type(p) is str:
                if p in self.bsub:
                    ch = True
                    for q in self.bnorm(self.bsub[p]).p:
                        _bpush(out, q)
                    continue
                if p.startswith('int('):        # the text of a number that has become known
                    d = self.adef.get(p)
                    k = self.const_of(d[1]) if type(d) is tuple and d[0] == 'int' else None
                    if k is not None:
                        ch = True
                        _bpush(out, str(k).encode())
                        continue
            elif out and type(out[-1]) is bytes:
                ch = True
            _bpush(out, p)
        return B(*out) if ch else b

    def blen(self, b):
        b = self.bnorm(b)
        r = 0
        for p in b.p:
            if type(p) is bytes:
                r = lin_add(r, len(p))
            else:
                r = lin_add(r, self.symlen(p))
        return r

    def symlen(self, p):
        lo = 1 if self.bclass.get(p) in ('int', 'float') else 0
        return self.atom('len(%s)' % p, lo, 2**29)

    def bcls_excl(self, sym, const):
        """class of sym excludes the constant"""
        c = self.bclass.get(sym)
        if c == 'int':
            try:
                int(const)
                return False
            except ValueError:
                return True
        if c == 'float':
            try:
                float(const)
                return False
            except ValueError:
                return True
        if c and c[0] == 'not' and const in c[1]:
            return True
        if c == 'notint' or c == 'word':
            try:
                int(const)
                return True
            except ValueError:
                return False
        return False

    def beq(self, a, b):
        a, b = self.bnorm(a), self.bnorm(b)
        if a.p == b.p:
            return True
        ap, bp = list(a.p), list(b.p)
        # strip common prefix / suffix
        while ap and bp:
            x, y = ap[0], bp[0]
            if x == y:
                ap.pop(0)
                bp.pop(0)
                continue
            if type(x) is bytes and type(y) is bytes:
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return False
                ap[0], bp[0] = x[n:], y[n:]
                if not ap[0]:
                    ap.pop(0)
                if not bp[0]:
                    bp.pop(0)
                continue
            break
        while ap and bp:
            x, y = ap[-1], bp[-1]
            if x == y:
                ap.pop()
                bp.pop()
                continue
            if type(x) is bytes and type(y) is bytes:
                n = min(len(x), len(y))
                if x[-n:] != y[-n:]:
                    return False
                ap[-1], bp[-1] = x[:-n], y[:-n]
                if not ap[-1]:
                    ap.pop()
                if not bp[-1]:
                    bp.pop()
                continue
            break
        if not ap and not bp:
            return True
        a, b = B(*ap), B(*bp)
        la, lb = self.blen(a), self.blen(b)
        if self.ent_eq(la, lb) is False:
            return False
        for x, y in ((a, b), (b, a)):
            if len(x.p) == 1 and type(x.p[0]) is str and len(y.p) <= 1 and (not y.p or type(y.p[0]) is bytes):
                if self.bcls_excl(x.p[0], y.p[0] if y.p else b''):
                    return False
                if x.p[0].startswith('lower('):
                    return False        # unknown arguments do not spell an option word: words have templates of their own
        if len(a.p) == 1 and len(b.p) == 1 and type(a.p[0]) is str and type(b.p[0]) is str:
            da, db = self.adef.get(a.p[0]), self.adef.get(b.p[0])
            if type(da) is tuple and type(db) is tuple and da[0] == db[0] == 'int':
                return self.eq0(lin_add(da[1], db[1], -1))
            ca, cb = self.bclass.get(a.p[0]), self.bclass.get(b.p[0])
            if 'word' in (ca, cb) and {ca, cb} & {'int'}:
                return False
        key = (a.p, b.p) if repr(a.p) <= repr(b.p) else (b.p, a.p)
        if key in self.bneq:
            return False
        if any(k[0] == 'blt' for k in self.memo) and a.p and b.p and self.bless(a, b) is not None:
            return False
        if self.fork('beq'):
            # substitute
            for x, y in ((a, b), (b, a)):
                if len(x.p) == 1 and type(x.p[0]) is str and x.p[0] not in y.p:
                    if y.p and len(y.p) == 1 and type(y.p[0]) is str and self.bclass.get(x.p[0]) and not self.bclass.get(y.p[0]):
                        continue
                    self.assume_range(lin_add(self.blen(x), self.blen(y), -1), 0, 0)
                    self.bsub[x.p[0]] = y
                    for k0, k1 in list(self.bneq):
                        if self.bnorm(B(*k0)).p == self.bnorm(B(*k1)).p:
                            raise Infeasible()
                    self.bcheck()
                    break
            else:
                if len(a.p) == 1 or len(b.p) == 1:
                    for x, y in ((a, b), (b, a)):
                        if len(x.p) == 1 and type(x.p[0]) is str and x.p[0] not in y.p:
                            self.bsub[x.p[0]] = y
                            break
                else:
                    self.bmemo[key] = True
                    self.imprecise.append('beq')
            return True
        self.bneq.add(key)
        return False

    def bless(self, a, b):
        """derived strict order of byte strings: True / False / None"""
        a, b = self.bnorm(a).p, self.bnorm(b).p
        if a != b and not (a and b):        # the empty string is the least (the two are known to differ)
            return not a
        edges = {}
        nodes = {a, b}
        for k, v in self.memo.items():
            if k[0] == 'blt':
                x, y = self.bnorm(B(*k[1])).p, self.bnorm(B(*k[2])).p
                if not v:
                    x, y = y, x
                edges.setdefault(x, []).append(y)
                nodes |= {x, y}
        cs = [n for n in nodes if len(n) <= 1 and (not n or type(n[0]) is bytes)]
        for x in cs:
            for y in cs:
                if (x[0] if x else b'') < (y[0] if y else b''):
                    edges.setdefault(x, []).append(y)

        def reach(s, t):
            seen, work = {s}, [s]
            while work:
                for m in edges.get(work.pop(), ()):
                    if m == t:
                        return True
                    if m not in seen:
                        seen.add(m)
                        work.append(m)
            return False
        if reach(a, b):
            return True
        if reach(b, a):
            return False
        return None

    def bcheck(self):
        """the recorded strict orders stay consistent after a substitution"""
        for k, v in list(self.memo.items()):
            if k[0] == 'blt':
                x, y = (k[1], k[2]) if v else (k[2], k[1])
                x, y = self.bnorm(B(*x)), self.bnorm(B(*y))
                if x.p == y.p or not y.p or self.bless(y, x):
                    raise Infeasible()

    def bknown(self, b):
        """constant bytes or None"""
        b = self.bnorm(b)
        if not b.p:
            return b''
        if len(b.p) == 1 and type(b.p[0]) is bytes:
            return b.p[0]
        return None

    def blower(self, b):
        b = self.bnorm(b)
        out = []
        for p in b.p:
            if type(p) is bytes:
                out.append(p.lower())
            elif self.bclass.get(p) in ('int',):
                out.append(p)
            else:
                n = 'lower(%s)' % p
                if p in self.bclass:
                    self.bclass.setdefault(n, self.bclass[p])
                out.append(n)
        return B(*out)


def _bpush(out, p):
    if type(p) is bytes:
        if not p:
            return
        if out and type(out[-1]) is bytes:
            out[-1] = out[-1] + p
            return
    out.append(p)


def fkey(x):
    return repr(x) if isinstance(x, float) else x.name


def explore(run, limits):
    """enumerate trace partitions of `run(state)`; yields (state, outcome)"""
    work = [()]
    n = 0
    import time
    t0 = time.time()
    complete = True
    while work:
        if n >= limits.get('paths', 4000) or time.time() - t0 > limits.get('time', 120):
            complete = False
            break
        prefix = work.pop()
        st = State(prefix, limits)
        n += 1
        try:
            out = ('ok', run(st))
        except Infeasible:
            out = None
        except PathEnd as e:
            out = (e.kind, e)
        work.extend(st.alts)
        if out is not None:
            yield st, out
    limits['complete'] = complete
    limits['explored'] = n
    limits['seconds'] = time.time() - t0
