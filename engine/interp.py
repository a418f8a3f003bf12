"""Abstract interpreter for MIR facts (transfer functions of statements/terminators)."""
import sys
from core import (Agg, B, Fl, FnV, Guard, INF, Infeasible, Lin, Lock, MOVED, Opq, PathEnd, Ref, Sym, U,
                  UNINIT, Unsupported, bconst, lin_add, lin_scale, LEN_MAX)

sys.setrecursionlimit(20000)


FN_TRAITS = ('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut',
             'core::ops::function::Fn::call')


class UnitT:
    def __repr__(self):
        return '()'


BOXLIKE = {'alloc::boxed::Box', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull', 'alloc::boxed::BoxRaw',
           'core::ptr::Unique', 'core::ptr::NonNull'}


class Interp:
    def __init__(self, P, models=None):
        self.P = P
        self.S = None
        self.cache = {}
        self.model_d = {}
        self.entered = set()
        self.unit_ty = P.ty('()')
        self.optcache = {}
        self.hooks = {}
        self.mkhooks = {}
        self.forcehooks = {}
        self.ext_unknown = {}
        self.ranges = []
        self.called = {}

    # ------------------------------------------------------------- values
    def unit(self):
        return Agg(self.unit_ty, 0, [])

    def adt_ty(self, path_prefix):
        for s, t in self.P.types.items():
            if s.startswith(path_prefix):
                return t
        raise Unsupported('type ' + path_prefix)

    def some(self, v, ty=None):
        return Agg(ty or self.generic_opt, 1, [v])

    def none(self, ty=None):
        return Agg(ty or self.generic_opt, 0, [])

    def ok(self, v, ty=None):
        return Agg(ty or self.generic_res, 0, [v])

    def err(self, v, ty=None):
        return Agg(ty or self.generic_res, 1, [v])

    def init_types(self):
        P = self.P
        self.generic_opt = next(t for t in P.types.values() if t.p == 'core::option::Option' and t.v)
        self.generic_res = next(t for t in P.types.values() if t.p == 'core::result::Result' and t.v)
        self.generic_poll = next(t for t in P.types.values() if t.p == 'core::task::poll::Poll' and t.v)
        self.ordering = next(t for t in P.types.values() if t.p == 'core::cmp::Ordering' and t.v)

    def order(self, c):
        return Agg(self.ordering, c + 1, [])

    def mk(self, ty, name):
        """unknown value of a type"""
        S = self.S
        k = ty.k
        if k == 'prim':
            if ty.s in U:
                lo, hi = U[ty.s]
                for suf, l, h in self.ranges:
                    if name.endswith(suf):
                        lo, hi = max(lo, l), min(hi, h)
                return S.atom(name, lo, hi)
            if ty.s in ('f64', 'f32'):
                return Fl(name)
            if ty.s == 'str':
                return B(name)
            return Opq('prim', ty, name=name)
        if k == 'ref' or k == 'ptr':
            return Ref([self.mk(ty.t, name)])
        if k == 'tuple':
            return Agg(ty, 0, [self.mk(t, '%s.%d' % (name, i)) for i, t in enumerate(ty.a)])
        if k == 'slice':
            if ty.t.s == 'u8':
                return B(name)
            return self.models.new_seq_sym(ty.t, name)
        if k == 'array':
            if ty.t.s == 'u8' and ty.n is not None:
                S.atom('len(%s)' % name, ty.n, ty.n)
                return B(name)
            if ty.n is not None and ty.n <= 16:
                return Agg(ty, 0, [self.mk(ty.t, '%s[%d]' % (name, i)) for i in range(ty.n)])
            return self.models.new_seq_sym(ty.t, name)
        if k == 'adt':
            p = ty.p
            h = self.mkhooks.get(p)
            if h is not None:
                return h(self, ty, name)
            if p in BOXLIKE or p in ('alloc::rcs::arc::Arc', 'alloc::rcs::rc::Rc', 'core::pin::Pin'):
                t = ty.a[0]
                if p == 'core::pin::Pin':
                    return self.mk(t, name)
                return Ref([self.mk(t, name)])
            return Sym(ty, name)
        if k in ('closure', 'coroutine'):
            return Agg(ty, 0, [self.mk(t, '%s.%d' % (name, i)) for i, t in enumerate(ty.up)])
        if k == 'fndef':
            return FnV(ty.fn, None)
        return Opq('val', ty, name=name)

    def inhabited(self, ty):
        if ty.s == '!' or ty.p == 'core::convert::Infallible':
            return False
        return True

    def expand(self, v):
        ty = v.ty
        h = self.forcehooks.get(ty.p)
        if h is not None:
            r = h(self, v)
            if r is not None:
                return r
        if not ty.v:
            return v
        if ty.e:
            vi = self.S.enumv.get(v.name)
            if vi is None:
                cands = [i for i, (n, d, fs) in enumerate(ty.v) if all(self.inhabited(f[1]) for f in fs)]
                vi = cands[self.S.choose(len(cands), v.name)]
                self.S.enumv[v.name] = vi
            n, d, fs = ty.v[vi]
            return Agg(ty, vi, [self.mk(ft, '%s@%s.%s' % (v.name, n, fn)) for fn, ft in fs])
        n, d, fs = ty.v[0]
        return Agg(ty, 0, [self.mk(ft, '%s.%s' % (v.name, fn)) for fn, ft in fs])

    def force(self, c, i):
        v = c[i]
        if type(v) is Sym:
            v = self.expand(v)
            c[i] = v
        return v

    def val(self, v):
        """force a value not in a slot"""
        if type(v) is Sym:
            return self.expand(v)
        return v

    def deref(self, v):
        """follow references to the underlying value"""
        n = 0
        while type(v) is Ref:
            v = self.force(v.c, v.i)
            n += 1
        return v

    def dr(self, ref):
        """value behind one reference, forced"""
        if type(ref) is Ref:
            return self.force(ref.c, ref.i)
        return self.val(ref)

    def copyv(self, v):
        if type(v) is Agg:
            return Agg(v.ty, v.vi, [self.copyv(x) for x in v.f], v.tag)
        return v

    # ---------------------------------------------------------- compile
    def compiled(self, key):
        c = self.cache.get(key)
        if c is None:
            c = self.cache[key] = Code(self, self.P.fns[key])
        return c

    # -------------------------------------------------------------- run
    def call_key(self, key, args, span=None):
        fn = self.P.fns[key]
        if fn['phase'] == 'analysis' and 'coroutine' in str(fn.get('lty', [None, None])[1:2] and fn['lty'][1].k):
            pass
        S = self.S
        if len(S.stack) > S.limits.get('depth', 180):
            S.log('deep', key=key)
            raise PathEnd('cut', 'call depth', S.site(), tuple(s[0] for s in S.stack))
        h = self.hooks.get(key) or self.hooks.get(fn['path'])
        if h is not None:
            r = h(self, key, args)
            if r is not NotImplemented:
                return r
        self.entered.add(key)
        code = self.compiled(key)
        L = [UNINIT] * code.nloc
        n = 1
        argc = fn['argc']
        if fn.get('spread') and len(args) != argc:
            pass
        if len(args) != argc:
            # closure called with tuple vs spread args
            if len(args) == 2 and argc != 2 and type(args[1]) is Agg:
                args = [args[0]] + list(args[1].f)
            elif len(args) == 1 and argc == 2 and fn['phase'] == 'analysis':
                args = list(args) + [Opq('cx')]
            if len(args) != argc:
                raise Unsupported('argc %s %d %d' % (key, len(args), argc))
        for a in args:
            L[n] = a
            n += 1
        S.stack.append([key, None])
        try:
            return code.run(L)
        finally:
            S.stack.pop()

    def call_fn(self, f, args):
        """call a callable value (closure Agg / FnV / reference to one)"""
        seen = f
        fv = f
        while type(fv) is Ref:
            fv = self.force(fv.c, fv.i)
        if type(fv) is FnV:
            return self.call_callee(fv.callee, fv.tm, list(args), None, None, None)
        if type(fv) is Agg and fv.ty is not None and fv.ty.k == 'closure':
            key = fv.ty.fn
            fn = self.P.fns.get(key)
            if fn is None:
                raise Unsupported('closure body ' + key)
            self_ty = fn['lty'][1]
            if self_ty.k == 'ref':
                selfv = seen if type(seen) is Ref else Ref([fv])
                while type(selfv.c[selfv.i]) is Ref:
                    selfv = selfv.c[selfv.i]
            else:
                selfv = fv
            return self.call_key(key, [selfv] + list(args))
        if callable(fv):
            return fv(*args)
        raise Unsupported('call of %r' % (fv,))

    def opaque_call(self, callee, destty, args, why):
        S = self.S
        r = callee.get('r') or callee.get('d') or '?'
        S.imprecise.append(r)
        self.ext_unknown[r] = self.ext_unknown.get(r, 0) + 1
        if destty is not None and destty.s == '!':
            raise PathEnd('exit', r, S.site())
        # unknown callee may write through &mut arguments: havoc is approximated
        # by marking the partition imprecise (obligations become undecided)
        return self.mk(destty, S.fresh('ext:' + r)) if destty is not None else self.unit()

    def call_callee(self, callee, tm, args, destty, argtys, span):
        S = self.S
        d, r, inst = callee.get('d'), callee.get('r'), callee.get('i')
        m = self.model_d.get(r) or self.model_d.get(d)
        if m is not None:
            v = m(self, Call(callee, tm, args, destty, argtys, self))
            if v is not NotImplemented:
                return v
        if d in FN_TRAITS and len(args) == 2 and inst in self.P.fns and '{closure' in inst.rsplit('::', 1)[-1]:
            # generic code is keyed by a printed type, which is one for all instances of a closure's
            # parent: the value knows which instance it is
            fv = args[0]
            while type(fv) is Ref:
                fv = self.force(fv.c, fv.i)
            if type(fv) is Agg and fv.ty is not None and fv.ty.k == 'closure' and fv.ty.fn != inst:
                return self.call_fn(args[0], args[1].f if type(args[1]) is Agg else list(args[1:]))
        if inst in self.P.fns:
            if d in FN_TRAITS and len(args) == 2 and type(args[1]) is Agg and '{closure' in inst.rsplit('::', 1)[-1]:
                args = [args[0]] + list(args[1].f)
            return self.call_key(inst, args, span)
        k = callee.get('k')
        if k == 'ctor':
            v = self.ctor(callee, args, destty)
            if v is not None:
                return v
        if k in ('fnptr', 'closure_once', 'indirect', 'shim') and args:
            f = args[0]
            if k == 'indirect':
                return self.call_fn(f, args[1:])
            a = args[1]
            return self.call_fn(f, a.f if type(a) is Agg and len(args) == 2 else args[1:])
        if k == 'clone' and args:
            return self.models.clone(self, self.dr(args[0]))
        if d in FN_TRAITS:
            return self.call_fn(args[0], args[1].f)
        return self.opaque_call(callee, destty, args, 'unknown')

    def ctor(self, callee, args, destty):
        r = callee.get('r') or callee.get('d')
        if destty is None:
            # e.g. Frame::Integer used as fn
            base, var = r.rsplit('::', 1)
            cands = [t for t in self.P.types.values() if t.k == 'adt' and t.p == base and t.v]
            if not cands:
                cands = [t for t in self.P.types.values() if t.k == 'adt' and t.p == r and t.v]
            if not cands:
                return None
            destty = cands[0]
        n = r.rsplit('::', 1)[1]
        for i, v in enumerate(destty.v):
            if v[0] == n or not destty.e:
                return Agg(destty, i, list(args))
        return None

    # ------------------------------------------------------------- drop
    def significant(self, ty, depth=0):
        if ty.memo is not None:
            return ty.memo
        if depth > 12:
            return False
        ty.memo = False
        r = False
        if ty.k == 'adt':
            if ty.p in self.models.SIGDROP or ty.s in self.P.drop_impls or ty.p in self.P.drop_impls:
                r = True
            elif ty.p in ('alloc::rcs::arc::Arc', 'core::ptr::non_null::NonNull'):
                r = False
            else:
                for t in ty.a:
                    if t.k in ('adt', 'tuple', 'closure', 'coroutine') and self.significant(t, depth + 1):
                        r = True
                for v in ty.v:
                    for f in v[2]:
                        if f[1].k in ('adt', 'tuple', 'closure', 'coroutine') and self.significant(f[1], depth + 1):
                            r = True
        elif ty.k in ('tuple', 'array', 'closure', 'coroutine'):
            for t in list(ty.a) + list(ty.up) + ([ty.t] if ty.t and ty.k == 'array' else []):
                if self.significant(t, depth + 1):
                    r = True
        ty.memo = r
        return r

    def drop(self, c, i, ty):
        v = c[i]
        if v is MOVED or v is UNINIT:
            return
        self.drop_value(v, ty)
        c[i] = MOVED

    def drop_value(self, v, ty):
        if v is MOVED or v is UNINIT or type(v) in (int, Lin, B, Fl, FnV):
            return
        if type(v) is Guard:
            self.models.unlock(self, v)
            return
        if type(v) is Agg and v.ty is not None and v.ty.k in ('adt', 'closure', 'coroutine', 'tuple', 'array'):
            ty = v.ty
        if ty is None or not self.significant(ty):
            return
        if type(v) is Opq:
            self.models.drop_opq(self, v)
            return
        if type(v) is Sym:
            v = self.expand(v)
            if type(v) is not Agg:
                self.models.drop_opq(self, v)
                return
        if type(v) is Agg:
            key = self.P.drop_impls.get(ty.s) or self.P.drop_impls.get(ty.p)
            if key:
                self.call_key(key, [Ref([v])])
            if ty.k == 'adt':
                if ty.v and v.vi is not None and v.vi < len(ty.v):
                    for (fn, ft), fv in zip(ty.v[v.vi][2], v.f):
                        self.drop_value(fv, ft)
            elif ty.k == 'tuple':
                for ft, fv in zip(ty.a, v.f):
                    self.drop_value(fv, ft)
            elif ty.k in ('closure', 'coroutine'):
                for ft, fv in zip(ty.up, v.f):
                    self.drop_value(fv, ft)
            elif ty.k == 'array':
                for fv in v.f:
                    self.drop_value(fv, ty.t)
        elif type(v) is self.models.Seq and ty.k == 'adt' and ty.a:
            for r in v.segs:
                if type(r) is Ref:
                    self.drop(r.c, r.i, ty.a[0])
        elif type(v) is Ref and ty.k == 'adt' and ty.p in BOXLIKE:
            if ty.a:
                self.drop(v.c, v.i, ty.a[0])

    # ------------------------------------------------------ arithmetic
    def binop(self, op, a, b, ty):
        S = self.S
        s = ty.s
        if type(a) is Agg and a.f and len(a.f) == 1:
            a = a.f[0]
        if type(b) is Agg and b.f and len(b.f) == 1:
            b = b.f[0]
        if s in ('f64', 'f32'):
            return self.fbin(op, a, b)
        ta, tb = type(a), type(b)
        if ta is Ref or tb is Ref or ta is FnV:
            if op == 'Eq':
                return int(ta is Ref and tb is Ref and a.c is b.c and a.i == b.i)
            if op == 'Ne':
                return int(not (ta is Ref and tb is Ref and a.c is b.c and a.i == b.i))
            raise Unsupported('ptr op ' + op)
        if ta not in (int, Lin) or tb not in (int, Lin):
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                S.imprecise.append('cmp')
                return S.atom(S.fresh('cmp'), 0, 1)
            S.imprecise.append('binop')
            r = S.atom(S.fresh('bin'), *U.get(s, (-INF, INF)))
            if op.endswith('WithOverflow'):
                return Agg(None, 0, [r, 0])
            return r
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cmp'):
            if ta is int and tb is int:
                if op == 'Eq':
                    return int(a == b)
                if op == 'Ne':
                    return int(a != b)
                if op == 'Lt':
                    return int(a < b)
                if op == 'Le':
                    return int(a <= b)
                if op == 'Gt':
                    return int(a > b)
                if op == 'Ge':
                    return int(a >= b)
                return self.order((a > b) - (a < b))
            d = lin_add(a, b, -1)
            if op == 'Eq':
                return int(S.eq0(d))
            if op == 'Ne':
                return int(not S.eq0(d))
            if op == 'Ge':
                return int(S.ge0(d))
            if op == 'Lt':
                return int(not S.ge0(d))
            nd = lin_scale(d, -1)
            if op == 'Le':
                return int(S.ge0(nd))
            if op == 'Gt':
                return int(not S.ge0(nd))
            return self.order(S.cmp3(a, b))
        base = op
        ovf = False
        if op.endswith('WithOverflow'):
            base, ovf = op[:-12], True
        elif op.endswith('Unchecked'):
            base = op[:-9]
        lo, hi = U.get(s, (-INF, INF))
        if base in ('Add', 'Sub', 'Mul'):
            if base == 'Add':
                r = lin_add(a, b)
            elif base == 'Sub':
                r = lin_add(a, b, -1)
            elif ta is int:
                r = lin_scale(b, a) if tb is not int else a * b
            elif tb is int:
                r = lin_scale(a, b)
            else:
                (al, ah), (bl, bh) = S.bounds(a), S.bounds(b)
                ps = [x * y for x in (al, ah) for y in (bl, bh)]
                r = S.opatom('mul', (a, b), min(ps), max(ps))
            if type(r) is int and lo <= r <= hi:
                return Agg(None, 0, [r, 0]) if ovf else r
            if S.fits(r, lo, hi):
                return Agg(None, 0, [r, 0]) if ovf else r
            if type(r) is int:
                w = (r - lo) % (hi - lo + 1) + lo
            else:
                l, h = S.bounds(r)
                m = hi - lo + 1
                if l > hi and h <= hi + m:
                    w = lin_add(r, -m)
                elif h < lo and l >= lo - m:
                    w = lin_add(r, m)
                else:
                    w = S.opatom('wrap', (r,), lo, hi)
            return Agg(None, 0, [w, 1]) if ovf else w
        if base in ('Div', 'Rem'):
            if ta is int and tb is int:
                if b == 0:
                    raise PathEnd('panic', 'division by zero', S.site())
                q = abs(a) // abs(b)
                q = q if (a >= 0) == (b >= 0) else -q
                return q if base == 'Div' else a - q * b
            (al, ah) = S.bounds(a)
            if tb is int and b > 0 and al >= 0:
                q = S.div_const(a, b)
                return q if base == 'Div' else lin_add(a, lin_scale(q, b), -1)
            if base == 'Rem' and tb is int:
                m = abs(b) - 1
                return S.opatom('rem', (a, b), -m if al < 0 else 0, m)
            m = max(abs(al), abs(ah))
            return S.opatom(base.lower(), (a, b), -m if lo < 0 else 0, m)
        if base in ('BitAnd', 'BitOr', 'BitXor'):
            if ta is int and tb is int:
                return a & b if base == 'BitAnd' else a | b if base == 'BitOr' else a ^ b
            if s == 'bool':
                x = self.truth(a)
                if base == 'BitAnd':
                    return int(x and self.truth(b))
                if base == 'BitOr':
                    return int(x or self.truth(b))
                return int(x != self.truth(b))
            if base == 'BitAnd':
                if ta is int:
                    a, b, ta, tb = b, a, tb, ta
                if tb is int and b >= 0 and (b & (b + 1)) == 0 and S.bounds(a)[0] >= 0:
                    if S.bounds(a)[1] <= b:
                        return a
                    q = S.div_const(a, b + 1)
                    return lin_add(a, lin_scale(q, b + 1), -1)
                mx = b if tb is int and b >= 0 else hi
                return S.opatom('and', (a, b), 0 if mx == b or lo >= 0 else lo, mx)
            if base in ('BitOr', 'BitXor'):
                # fields of a packed word: no bit is set in both
                for x, y in ((a, b), (b, a)):
                    l, h = S.bounds(y)
                    if l < 0 or S.bounds(x)[0] < 0 or h == INF:
                        continue
                    m = 1 << h.bit_length()
                    if (x % m == 0 if type(x) is int else x.c % m == 0 and all(co % m == 0 for _, co in x.t)):
                        return lin_add(x, y)
            return S.opatom(base.lower(), (a, b), lo, hi)
        if base in ('Shl', 'Shr'):
            if ta is int and tb is int:
                if base == 'Shr':
                    return a >> b
                r = a << b
                m = hi - lo + 1
                return (r - lo) % m + lo
            if tb is int:
                if base == 'Shr' and S.bounds(a)[0] >= 0:
                    return S.div_const(a, 1 << b)
                if base == 'Shl':
                    r = lin_scale(a, 1 << b)
                    l, h = S.bounds(r)
                    if l >= lo and h <= hi:
                        return r
                    if S.fits(r, lo, hi):
                        return r
                    return S.opatom('shlwrap', (a, b), lo, hi)
            return S.opatom(base.lower(), (a, b), lo, hi)
        if base == 'Offset':
            raise Unsupported('ptr offset')
        raise Unsupported('binop ' + op)

    def fbin(self, op, a, b):
        S = self.S
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            w = {'Eq': {'eq'}, 'Ne': {'lt', 'gt', 'un'}, 'Lt': {'lt'}, 'Le': {'lt', 'eq'}, 'Gt': {'gt'},
                 'Ge': {'gt', 'eq'}}[op]
            return int(S.ftest(a, b, w))
        if isinstance(a, float) and isinstance(b, float):
            try:
                return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b,
                        'Div': lambda: a / b}[op]()
            except (ZeroDivisionError, KeyError):
                pass
        na, nb = (x.name if type(x) is Fl else repr(x) for x in (a, b))
        if op == 'Add' and nb < na:
            na, nb = nb, na
        r = Fl('%s(%s,%s)' % (op.lower(), na, nb))
        if op in ('Add', 'Sub') and S.fnan(a) is False and S.fnan(b) is False:
            # finite + finite is never NaN; inf + -inf is
            fin = [S.data.get('finite', set())]
            if (isinstance(a, float) and abs(a) != INF) or (isinstance(b, float) and abs(b) != INF):
                S.frel.setdefault((r.name, r.name), {'eq'})
        return r

    def truth(self, v):
        if type(v) is int:
            return bool(v)
        if type(v) is Lin:
            return not self.S.eq0(v)
        if type(v) is Agg and len(v.f) == 1:
            return self.truth(v.f[0])
        self.S.imprecise.append('truth')
        return self.S.fork()

    def cast(self, kind, v, ty, fty):
        S = self.S
        if kind.startswith('IntToInt'):
            if type(v) is Agg and not v.f and v.ty is not None and v.ty.e:
                v = v.ty.v[v.vi][1]
            if type(v) not in (int, Lin):
                return v
            lo, hi = U[ty.s]
            m = hi - lo + 1
            if type(v) is int:
                return (v - lo) % m + lo
            if S.fits(v, lo, hi):
                return v
            l, h = S.bounds(v)
            S.log('castwrap', ty=ty.s, v=v)
            if l > hi and h <= hi + m:
                return lin_add(v, -m)
            if h < lo and l >= lo - m:
                return lin_add(v, m)
            return S.opatom('cast_' + ty.s, (v,), lo, hi)
        if kind.startswith('IntToFloat'):
            if type(v) is int:
                return float(v)
            r = Fl('i2f(%r)' % (v,))
            S.frel.setdefault((r.name, r.name), {'eq'})
            return r
        if kind.startswith('FloatToInt'):
            lo, hi = U[ty.s]
            if isinstance(v, float):
                return 0 if v != v else int(max(min(v, hi), lo))
            return S.opatom('f2i', (v,), lo, hi)
        if kind.startswith('FloatToFloat'):
            return v
        if 'Unsize' in kind:
            return v
        if kind.startswith('PointerCoercion') or kind.startswith('PtrToPtr') or 'Transmute' in kind:
            if type(v) is Agg and v.ty is not None and v.ty.p in BOXLIKE and len(v.f) >= 1 and type(v.f[0]) is Ref:
                return v.f[0]
            return v
        return v

    def slotnum(self, n):
        """the number of slots may be a parameter of an analysis; then the constants that stand for it follow it"""
        p = self.S.limits.get('slots')
        return n if p is None else lin_add(p, n - 16384)

    # operand constants
    def const(self, c, ty, tm):
        if 'n' in c:
            n = int(c['n'])
            return n if n not in SLOTNUMS else self.slotnum(n)
        if 'fl' in c:
            x = c['fl']
            try:
                return float(x)
            except (ValueError, TypeError):
                return {'inf': INF, '-inf': -INF}.get(str(x), float('nan'))
        if 'str' in c:
            return Ref([bconst(c['str'].encode('utf-8'))])
        if 'bytes' in c:
            x = c['bytes']
            b = bytes(x) if isinstance(x, list) else x.encode("latin1") if isinstance(x, str) else b''
            if ty.k == 'ref':
                return Ref([bconst(b)])
            return bconst(b)
        if 'fn' in c:
            return FnV(c['fn'], tm)
        if 'prom' in c:
            key = c['prom']
            v = self.S.proms.get(key)
            if v is None:
                if key not in self.P.fns:
                    raise Unsupported('promoted ' + key)
                val = self.call_key(key, [])
                v = self.S.proms[key] = [val]
            return v[0]
        if 'named' in c:
            return self.const(c['v'], ty, tm)
        if 'static' in c:
            p = c['static']
            cell = self.S.statics.get(p)
            if cell is None:
                t = ty.t if ty.k in ('ref', 'ptr') else ty
                h = self.models.static(self, p, t)
                cell = self.S.statics[p] = [h]
            return Ref(cell)
        if 'refto' in c:
            t = tm[c['t']] if 't' in c and c['t'] is not None else (ty.t or ty)
            return Ref([self.const(c['refto'], t, tm)])
        if 'adt' in c:
            vi = c.get('vi')
            f = [self.const(x, tm[t], tm) for x, t in c['adt']]
            if ty.k == 'array' and ty.t.s == 'u8' and all(type(x) is int for x in f):
                return bconst(bytes(f))
            return Agg(ty, vi if vi is not None else 0, f)
        if 'z' in c:
            if ty.k == 'fndef':
                return FnV(ty.fn, tm)
            if ty.k in ('closure', 'tuple', 'adt', 'coroutine'):
                return Agg(ty, 0, [])
            if ty.k == 'array':
                return bconst(b'') if ty.t.s == 'u8' else Agg(ty, 0, [])
            return Agg(ty, 0, [])
        if 'rtc' in c:
            return 0
        return self.mk(ty, 'const:%s' % (c.get('o') or 'x'))


# the number of slots and the last slot
SLOTNUMS = (16384, 16383)


class Call:
    __slots__ = ('callee', 'tm', 'args', 'destty', 'argtys', 'I')

    def __init__(self, callee, tm, args, destty, argtys, I):
        self.callee, self.tm, self.args, self.destty, self.argtys, self.I = callee, tm, args, destty, argtys, I

    def ta(self, i):
        """i-th type argument"""
        return self.tm[self.callee['a'][i]] if self.tm else None


class Code:
    """a function compiled to Python closures"""

    def __init__(self, I, fn):
        self.I = I
        self.fn = fn
        self.tm = fn['tm']
        self.nloc = len(fn['locals'])
        self.lty = fn['lty']
        self.blocks = [None] * len(fn['blocks'])
        self.key = fn['key']

    # static type of a place
    def pty(self, pl):
        t = self.lty[pl[0]]
        vi = None
        for p in pl[1:]:
            if p == '*':
                if t.k in ('ref', 'ptr'):
                    t = t.t
                elif t.k == 'adt' and t.a:
                    t = t.a[0]
            elif p[0] == 'f':
                t = self.tm[p[2]]
            elif p[0] in ('i', 'ci'):
                t = t.t or t
        return t

    def place(self, pl):
        I = self.I
        l = pl[0]
        pr = pl[1:]
        if not pr:
            return lambda L: (L, l)
        steps = []
        for p in pr:
            if p == '*':
                steps.append((0, None))
            elif p[0] == 'f':
                steps.append((1, p[1], self.tm[p[2]]))
            elif p[0] == 'd':
                steps.append((2, p[1]))
            elif p[0] == 'i':
                steps.append((3, p[1]))
            elif p[0] == 'ci':
                steps.append((4, p[1], p[2]))
            elif p[0] == 'sub':
                steps.append((5, p[1], p[2], p[3]))
            else:
                raise Unsupported('proj %r' % (p,))

        def go(L):
            c, i = L, l
            for s in steps:
                k = s[0]
                v = c[i]
                if type(v) is Sym:
                    v = I.expand(v)
                    c[i] = v
                if k == 0:
                    if type(v) is Ref:
                        c, i = v.c, v.i
                    elif type(v) is Opq:
                        c, i = [v], 0
                    elif v is MOVED or v is UNINIT:
                        raise Unsupported('deref of moved')
                elif k == 1:
                    if type(v) is Agg:
                        f = v.f
                        n = s[1]
                        while len(f) <= n:
                            f.append(UNINIT)
                        c, i = f, n
                    elif type(v) is Ref:
                        pass
                    elif v is UNINIT:
                        a = Agg(None, 0, [])
                        c[i] = a
                        while len(a.f) <= s[1]:
                            a.f.append(UNINIT)
                        c, i = a.f, s[1]
                    elif type(v) in (Opq, Sym):
                        c, i = I.models.opq_field(I, v, s[1], s[2])
                    elif v is MOVED:
                        raise Unsupported('field of moved')
                    else:
                        c, i = I.models.opq_field(I, v, s[1], s[2])
                elif k == 2:
                    pass
                elif k == 3:
                    c, i = I.models.index_slot(I, v, L[s[1]])
                elif k == 4:
                    c, i = I.models.cindex_slot(I, v, s[1], s[2])
                else:
                    c, i = [I.models.subslice(I, v, s[1], s[2], s[3])], 0
            return c, i
        return go

    def operand(self, o):
        I = self.I
        k = o[0]
        if k == 'k':
            c, ty, tm = o[1], self.tm[o[2]], self.tm
            if 'n' in c:
                n = int(c['n'])
                if n in SLOTNUMS:
                    return lambda L: I.slotnum(n)
                return lambda L: n
            return lambda L: I.const(c, ty, tm)
        pl = o[1]
        if k == 'mv':
            if len(pl) == 1:
                l = pl[0]

                def mv1(L):
                    v = L[l]
                    if v is MOVED:
                        raise Unsupported('use after move _%d in %s' % (l, self.key))
                    if type(v) not in (int, Lin):
                        L[l] = MOVED
                    return v
                return mv1
            g = self.place(pl)

            def mv(L):
                c, i = g(L)
                v = c[i]
                if v is MOVED:
                    raise Unsupported('use after move')
                if type(v) not in (int, Lin, Ref, B):
                    try:
                        c[i] = MOVED
                    except TypeError:
                        pass
                return v
            return mv
        if len(pl) == 1:
            l = pl[0]

            def cp1(L):
                v = L[l]
                if type(v) is Agg:
                    return I.copyv(v)
                return v
            return cp1
        g = self.place(pl)

        def cp(L):
            c, i = g(L)
            v = c[i]
            if type(v) is Agg:
                return I.copyv(v)
            return v
        return cp

    def rvalue(self, r, dty):
        I = self.I
        k = r[0]
        if k == 'use':
            return self.operand(r[1])
        if k == 'ref':
            g = self.place(r[2])
            if r[2][1:] and r[2][-1] == '*' and len(r[2]) == 2:
                l = r[2][0]

                def reb(L):
                    v = L[l]
                    if type(v) is Ref:
                        return v
                    c, i = g(L)
                    return Ref(c, i)
                return reb

            def ref(L):
                c, i = g(L)
                return Ref(c, i)
            return ref
        if k == 'cast':
            f = self.operand(r[2])
            kind, ty, fty = r[1], self.tm[r[3]], self.tm[r[4]]
            if 'ClosureFnPointer' in kind or 'ReifyFnPointer' in kind:
                return f
            return lambda L: I.cast(kind, f(L), ty, fty)
        if k == 'bin':
            a, b, ty, op = self.operand(r[2]), self.operand(r[3]), self.tm[r[4]], r[1]
            return lambda L: I.binop(op, a(L), b(L), ty)
        if k == 'un':
            a, ty, op = self.operand(r[2]), self.tm[r[3]], r[1]
            if op == 'Not':
                if ty.s == 'bool':
                    def nt(L):
                        v = a(L)
                        if type(v) is int:
                            return 1 - v
                        if type(v) is Lin:
                            return lin_add(1, v, -1)
                        return int(not I.truth(v))
                    return nt

                def inv(L):
                    v = a(L)
                    lo, hi = U[ty.s]
                    if lo < 0:
                        return lin_add(-1, v, -1)
                    return lin_add(hi, v, -1)
                return inv
            if op == 'Neg':
                def neg(L):
                    v = a(L)
                    if isinstance(v, float):
                        return -v
                    if type(v) is Fl:
                        n = Fl('neg(%s)' % v.name)
                        I.S.frel.setdefault((n.name, n.name), set(I.S.frel.get((v.name, v.name), {'eq', 'un'})))
                        return n
                    if type(v) is Agg: raise Unsupported('neg %r %r'%(v,v.ty))
                    return lin_scale(v, -1)
                return neg
            if op == 'PtrMetadata':
                return lambda L: I.models.length(I, I.deref(a(L)))
            raise Unsupported('unop ' + op)
        if k == 'discr':
            g = self.place(r[1])
            ty = self.tm[r[2]]
            pty = self.lty[r[1][0]] if len(r[1]) == 1 else ty
            wide = {'i8': 1 << 8, 'i16': 1 << 16, 'i32': 1 << 32, 'i64': 1 << 64, 'isize': 1 << 64}.get(dty.s if dty is not None else None)

            def dis(L):
                c, i = g(L)
                v = I.force(c, i)
                if type(v) is Agg:
                    t = v.ty if v.ty is not None and v.ty.v else ty
                    if not t.v:
                        return v.vi
                    d = t.v[v.vi][1]
                    return d - wide if wide and d >= wide >> 1 else d
                if type(v) in (int, Lin):
                    return v
                if type(v) in (Opq, Sym):
                    return I.models.opq_discr(I, v, ty, c, i)
                if v is UNINIT and pty.s.endswith('Option<!>'):
                    return 0        # never set: only None exists
                raise Unsupported('discr of %r' % (v,))
            return dis
        if k == 'agg':
            kind, info, ops = r[1], r[2], [self.operand(o) for o in r[3]]
            if kind == 'array':
                et = self.tm[info]
                if et.s == 'u8':
                    def arr8(L):
                        f = [o(L) for o in ops]
                        if all(type(x) is int for x in f):
                            return bconst(bytes(f))
                        return Agg(dty, 0, f)
                    return arr8
                return lambda L: Agg(dty, 0, [o(L) for o in ops])
            if kind == 'adt':
                vi = info[1]
                path = info[0]
                if path in BOXLIKE and len(ops) >= 1:
                    return lambda L: ops[0](L)
                if path == 'core::pin::Pin':
                    return lambda L: ops[0](L)
                if info[3] >= 0:
                    af = info[3]

                    def un(L):
                        return Agg(dty, 0, [UNINIT] * af + [ops[0](L)])
                    return un
                return lambda L: Agg(dty, vi, [o(L) for o in ops])
            if kind == 'tuple':
                return lambda L: Agg(dty, 0, [o(L) for o in ops])
            if kind in ('closure', 'coroutine'):
                ty = dty
                if ty.k not in ('closure', 'coroutine') or ty.fn != info:
                    ty = next((t for t in I.P.types.values() if t.fn == info), dty)
                return lambda L: Agg(ty, 0, [o(L) for o in ops])
            return lambda L: ops[0](L)
        if k == 'repeat':
            a = self.operand(r[1])
            n = r[2]

            def rep(L):
                v = a(L)
                if n is None:
                    raise Unsupported('repeat')
                m = int(n)
                if type(v) is int and dty.t is not None and dty.t.s == 'u8':
                    return bconst(bytes([v]) * m)
                if m > 4096:
                    raise Unsupported('repeat')
                return Agg(dty, 0, [I.copyv(v) for _ in range(m)])
            return rep
        if k == 'tls':
            return lambda L: Ref([Opq('tls')])
        raise Unsupported('rvalue ' + k)

    def block(self, bi):
        b = self.blocks[bi]
        if b is not None:
            return b
        I = self.I
        raw = self.fn['blocks'][bi]
        st = []
        for s in raw['s']:
            k = s[0]
            if k == '=':
                dty = self.pty(s[1])
                try:
                    rv = self.rvalue(s[2], dty)
                    if len(s[1]) == 1:
                        st.append((s[1][0], rv, s[3]))
                    else:
                        st.append((self.place(s[1]), rv, s[3]))
                except Unsupported as e:
                    msg = str(e)

                    def bad(L, msg=msg):
                        raise Unsupported(msg)
                    st.append((0, bad, s[3]))
            elif k == 'sd':
                g = self.place(s[1])
                vi = s[2]

                def sd(L, g=g, vi=vi):
                    c, i = g(L)
                    if type(c[i]) is Agg:
                        c[i].vi = vi
                    return None
                st.append((-1, sd, None))
            elif k == 'dead':
                l = s[1]
                st.append((-2, l, None))
        t = raw['t']
        k = t[0]
        if k == 'goto':
            term = (0, t[1])
        elif k == 'switch':
            term = (1, self.operand(t[1]), [(int(v), b) for v, b in t[2]], t[3], t[4])
        elif k == 'ret':
            term = (2,)
        elif k == 'call':
            callee = t[1]
            ops = [self.operand(o) for o in t[2]]
            fop = None
            if callee.get('k') == 'indirect' and 'op' in callee:
                fop = self.operand(callee['op'])
            term = (3, callee, ops, self.place(t[3]), t[4], t[6], [self.tm[i] for i in t[7]] if t[7] else [],
                    self.tm[t[8]] if t[8] is not None else None, fop)
        elif k == 'drop':
            term = (4, self.place(t[1]), t[2], self.tm[t[4]] if t[4] is not None else None, t[5])
        elif k == 'assert':
            term = (5, self.operand(t[1]), t[2], t[3], t[4], t[7])
        elif k == 'yield':
            term = (6, t)
        elif k == 'unreachable':
            term = (7,)
        elif k in ('resume', 'abort', 'codrop'):
            term = (8, k)
        else:
            term = (9, k)
        b = self.blocks[bi] = (st, term)
        return b

    def run(self, L):
        I = self.I
        S = I.S
        fr = S.stack[-1]
        bi = 0
        blocks = self.blocks
        visits = {}
        coro = self.fn['phase'] == 'analysis'
        while True:
            b = blocks[bi]
            if b is None:
                b = self.block(bi)
            S.steps += 1
            if S.steps > S.limits.get('steps', 60000):
                raise PathEnd('cut', 'step budget', S.site())
            n, t0 = visits.get(bi, (0, 0))
            if n == 0:
                t0 = len(S.trace)
            n += 1
            visits[bi] = (n, t0)
            if n > S.limits.get('loop', 6) and (len(S.trace) - t0 >= n - 1 or n > 3000):
                raise PathEnd('cut', 'loop in %s' % self.key, S.site())
            for dst, rv, span in b[0]:
                if type(dst) is int:
                    if dst >= 0:
                        if span:
                            fr[1] = span
                        L[dst] = rv(L)
                    elif dst == -2:
                        if L[rv] is not MOVED and type(L[rv]) is not Guard:
                            L[rv] = UNINIT
                    else:
                        rv(L)
                else:
                    fr[1] = span
                    v = rv(L)
                    c, i = dst(L)
                    c[i] = v
            t = b[1]
            k = t[0]
            if k == 0:
                bi = t[1]
            elif k == 1:
                v = t[1](L)
                fr[1] = t[4]
                if type(v) is Lin:
                    cv = S.const_of(v)
                    if cv is not None:
                        v = cv
                if type(v) is int:
                    for x, tb in t[2]:
                        if x == v or v < 0 and x in (v & 0xff, v & 0xffff, v & 0xffffffff, v & 0xffffffffffffffff):
                            bi = tb
                            break
                    else:
                        bi = t[3]
                elif type(v) is Lin:
                    vlo, vhi = S.bounds(v)
                    for x, tb in t[2]:
                        if x > vhi and vlo < 0:         # the bits of a negative number
                            x = next((x - m for m in (1 << 8, 1 << 16, 1 << 32, 1 << 64) if m >> 1 <= x < m), x)
                        if S.eq0(lin_add(v, x, -1)):
                            bi = tb
                            break
                    else:
                        bi = t[3]
                else:
                    raise Unsupported('switch on %r' % (v,))
            elif k == 2:
                return L[0] if L[0] is not UNINIT else I.unit()
            elif k == 3:
                callee = t[1]
                args = [o(L) for o in t[2]]
                fr[1] = t[5]
                if t[8] is not None:
                    r = I.call_fn(t[8](L), args)
                else:
                    r = I.call_callee(callee, self.tm, args, t[7], t[6], t[5])
                if t[4] is None:
                    raise PathEnd('panic', callee.get('r') or '?', S.site(), tuple(s[0] for s in S.stack))
                c, i = t[3](L)
                c[i] = r
                bi = t[4]
            elif k == 4:
                fr[1] = t[4]
                c, i = t[1](L)
                I.drop(c, i, t[3])
                bi = t[2]
            elif k == 5:
                v = t[1](L)
                fr[1] = t[5]
                ok = I.truth(v) == t[2]
                if not ok:
                    raise PathEnd('panic', t[3], S.site(), tuple(s[0] for s in S.stack))
                bi = t[4]
            elif k == 6:
                y = t[1]
                S.log('yield')
                c, i = self.place(y[2])(L)
                c[i] = Opq('cx')
                bi = y[1]
            elif k == 7:
                raise Infeasible()
            else:
                raise PathEnd('cut', str(t[1]), S.site())
