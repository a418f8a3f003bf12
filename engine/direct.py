"""Direct analyses: parts of the system no client command reaches alone (replica, expiry, routing, cluster, parsing)."""
import collections
import os
import traceback

import api
import cmdrun
import judge
import models
import spec
from core import *
from models import Map, Seq, Seg

RULES = {}
NOW = ('now', 1_600_000_000_000, 4_100_000_000_000)


def rule(*props):
    def deco(f):
        for p in props:
            RULES.setdefault(p, []).append(f)
        return f
    return deco


def now(S):
    return S.atom(*NOW)


def partitions(I, rep, run, what, paths=3000, secs=150, limits=None, panics=True, exits=False):
    """interpret `run(S)` on every trace partition; run judges its own partition and returns"""
    lim = dict(paths=paths, time=secs)
    lim.update(limits or {})

    def go(S):
        I.S = rep.S = S
        I.entered = set()
        try:
            r = run(S)
            if rep.locks is not None:
                rep.locks.add(I, S)
            rep.functions |= I.entered
            return r
        except (PathEnd, Infeasible):
            rep.functions |= I.entered
            raise
        except Exception as e:
            if not isinstance(e, Unsupported):
                e = Unsupported('analysis error %r %s' % (e, traceback.extract_tb(e.__traceback__)[-1]))
            raise PathEnd('unsupported', str(e)[:300], S.site(), tuple(s[0] for s in S.stack))

    out = []
    for S, (k, v) in explore(go, lim):
        rep.S = S
        if k in ('panic', 'exit') and S.imprecise:
            rep.undecided['%s: %s' % (what, S.imprecise[0])] += 1
        elif k == 'ok':
            if v == 'skip':
                continue
            rep.counts['partitions: ' + what] += 1
            if S.imprecise:
                rep.undecided['%s: %s' % (what, S.imprecise[0])] += 1
            if len(rep.samples) < 3:
                rep.samples.append({'unit': what, 'choices': list(S.trace)[:40]})
        elif k == 'panic' and not panics:
            rep.undecided['%s: panic: %s' % (what, v.why)] += 1
        elif k == 'panic':
            out.append((S, v))
            rep.bad('%s: panic: %s' % (what, v.why), [v.stack[-1] if v.stack else '?'])
        elif k == 'exit':
            rep.counts['partitions: ' + what] += 1
            if not exits and v.why == 'process exit':
                rep.bad('%s: the process ends' % what, [v.stack[-1] if v.stack else '?'])
        elif k == 'cut':
            rep.counts['bound-cut partitions: ' + what] += 1
            if os.environ.get('CUTS'):
                print('cut', what, v)
        else:
            rep.undecided[('%s: %s %s' % (what, k, v.why))[:180]] += 1
    rep.S = None
    if not lim['complete']:
        rep.undecided['%s: exploration limit' % what] += 1
    return out


def where(I):
    """innermost analysed functions of this partition, as the construct a finding points at"""
    return sorted(k for k in I.entered if '{closure' not in k)[:12]


def fields(I, v):
    """(name, type, value) of a struct value"""
    v = I.deref(v) if type(v) is Ref else I.val(v)
    return [(n, ty, I.force(v.f, i)) for i, (n, ty) in enumerate(v.ty.v[v.vi][2])]


def fget(I, v, pred):
    for n, ty, x in fields(I, v):
        if pred(n, ty):
            return x
    raise Unsupported('field')


def fnamed(I, v, name):
    return fget(I, v, lambda n, ty: n == name)


def fty(I, v, frag):
    return fget(I, v, lambda n, ty: frag in ty.s)


def bysig(P, path, ret=None, args=None):
    """function by path, or by the shape of its signature when it was renamed"""
    ks = cmdrun.matches(P, path)
    if len(ks) == 1:
        return ks[0]
    if ret is None:
        raise Unsupported('function %s not found' % path)
    out = []
    for k, fn in P.fns.items():
        if '{closure' in k or fn['argc'] != len(args):
            continue
        ts = [t.s for t in fn['lty'][:1 + len(args)]]
        if ret in ts[0] and all(a in t for a, t in zip(args, ts[1:])):
            out.append(k)
    if len(out) != 1:
        raise Unsupported('function %s not found (%d candidates)' % (path, len(out)))
    return out[0]


def arg_tys(I, key):
    fn = I.P.fns[key]
    return fn['lty'][1:1 + fn['argc']]


def unhook(I, *names):
    names = [(cmdrun.matches(I.P, n) or [n])[0] for n in names]
    return {n: I.hooks.pop(n, None) for n in names}


def rehook(I, saved):
    for n, h in saved.items():
        if h is not None:
            I.hooks[n] = h


def mkdb(I):
    return Ref([judge.initial(I)])


def await_body(I, key, args):
    """run an async fn to completion (awaits complete with arbitrary admissible outcomes)"""
    r = I.call_key(key, args)
    v = I.val(r)
    if type(v) is Agg and v.ty is not None and v.ty.k == 'coroutine':
        return I.call_key(v.ty.fn, [v, Opq('cx')])
    return r


# ------------------------------------------------------------------------------------------- replica: sequence
@rule('C02')
def sequence_on_replica(I, rep):
    """stale messages change nothing, messages ahead of sequence are reported as a gap"""
    P = I.P
    key = bysig(P, judge.PROCESS, 'core::cmp::Ordering', ['Slot', 'u64', 'WriteCmd'])
    aty = arg_tys(I, key)

    def run(S):
        db = mkdb(I)
        ini = I.val(judge.initial(I))
        I.deref(db)
        k = S.atom('slotno', 0, 16383)
        slot = Ref(judge.slot_of_view(I, db, k))
        sv = judge.memdict(I, Ref(judge.slot_of_view(I, ini, k)))
        cmd = I.val(I.mk(aty[2], 'cmd'))
        rep.counts['replication commands'] += 0
        name = cmd.vn()
        # every message in sequence is judged with the command that sends it; here: all others
        mid = S.atom('id', 0, 2**62)
        cs = ('stale', 'ahead', 'next')[S.choose(3, 'case')]
        if sv is None:
            if cs != 'stale':
                raise Infeasible()
            cs = 'none'
        else:
            x0 = judge.seqno(I, sv)
            d = lin_add(mid, x0, -1)
            if name == 'None':
                if cs == 'next':
                    raise Infeasible()
                S.assume_range(d, *((-INF, 0) if cs == 'stale' else (1, INF)))
            elif cs == 'next':
                if name != 'Flush':
                    return 'skip'
                S.assume_range(d, 1, 1)
            else:
                S.assume_range(d, *((-INF, 0) if cs == 'stale' else (2, INF)))
        r = I.val(I.call_key(key, [slot, mid, cmd]))
        got = r.vn()
        want = {'stale': 'Less', 'ahead': 'Greater', 'next': 'Equal', 'none': 'Greater'}[cs]
        if got != want:
            rep.bad('a %s message (%s) is answered %s instead of %s' % (cs, name, got, want), [key], command=name)
        if cs == 'next':
            m = judge.find_dict(I, Ref(judge.slot_of_view(I, db, k)))
            md = judge.memdict(I, Ref(judge.slot_of_view(I, db, k)))
            if md is None or m is None or not S.eq0(models.length(I, m)):
                rep.bad('a replicated FLUSHALL leaves keys', [key])
            elif not S.eq0(lin_add(judge.seqno(I, md), mid, -1)):
                rep.bad('a replicated FLUSHALL does not take the sequence number of its message', [key])
            return
        out = []
        judge.compare_db(I, db.c[0], ini, out)
        if out:
            rep.bad('a %s message (%s) changes the slot' % (cs, name), [key], what=[o[:2] for o in out])
        if sv is not None:
            md = judge.memdict(I, Ref(judge.slot_of_view(I, db, k)))
            if md is None or not S.eq0(lin_add(judge.seqno(I, md), judge.seqno(I, sv), -1)):
                rep.bad('a %s message (%s) changes the sequence number of the slot' % (cs, name), [key])
        if [e for e in S.ev if e['k'] == 'send']:
            rep.bad('a %s message (%s) has effects beside the slot' % (cs, name), [key])
        if S.held:
            rep.bad('a lock is still held after a replication message', [key])
    partitions(I, rep, run, 'replica message')


# ------------------------------------------------------------------------------------------- routing
def opname(x):
    return x


@rule('C28')
def key_to_slot(I, rep):
    """the slot of a key is CRC16/XMODEM of its hash tag (or the whole key) modulo 16384"""
    P = I.P
    saved = unhook(I, 'db::Db::get_slot')

    def num(v, name):
        v = I.deref(v)
        if type(v) is not Agg or v.ty is None or not v.ty.v:
            return None
        for n, ty, x in fields(I, v):
            if n == name:
                return x if type(x) is int else None
            if n == 'algorithm':
                r = num(x, name)
                if r is not None:
                    return r
        return None
    key = bysig(P, 'db::Db::get_slot', 'Slot', ['db::Db', '[u8]'])

    def run(S):
        db = mkdb(I)
        I.deref(db)
        S.assume_range(models.length(I, judge.slots_of(I, db)), 16384, 16384)
        k = B('key')
        r = I.call_key(key, [db, Ref([k])])
        chk = [e for e in S.ev if e['k'] == 'checksum']
        if len(chk) != 1:
            rep.bad('the slot of a key is not computed from one checksum', [key])
            return
        a = api.byte_pos(I, k, lambda c: int(I.deref(c) == 123))
        want = k
        if a is not None:
            rest = models.slice_of(I, k, a, S.blen(k))
            b = api.byte_pos(I, rest, lambda c: int(I.deref(c) == 125))
            if b is not None and S.ge0(lin_add(b, -2)):
                want = models.slice_of(I, k, lin_add(a, 1), lin_add(a, b))
        if S.bnorm(chk[0]['b']).p != S.bnorm(want).p and not S.beq(chk[0]['b'], want):
            rep.bad('the hashed part of the key is not its hash tag (or the whole key when there is none)', [key],
                    hashed=repr(chk[0]['b']), expected=repr(want))
        alg = {f: num(chk[0]['alg'], f) for f in ('width', 'poly', 'init', 'refin', 'refout', 'xorout')}
        if any(x is None for x in alg.values()):
            rep.undecided['parameters of the checksum'] += 1
        elif alg != dict(width=16, poly=0x1021, init=0, refin=0, refout=0, xorout=0):
            rep.bad('the checksum is not CRC16/XMODEM', [key], alg=alg)
        else:
            rep.counts['checksum parameters'] += 1
        cell = None
        for idx, c in judge.touched(I, db):
            if type(r) is Ref and (r.c is c):
                cell = idx
        crc = S.opatom('crc', (S.bnorm(chk[0]['b']),), 0, 65535)
        if cell is None:
            rep.bad('the slot returned for a key is not one of the table', [key])
            return
        rep.samples.append({'slot index': repr(cell), 'hashed': repr(chk[0]['b'])})
        ok = S.ent_eq(cell, I.binop('BitAnd', crc, 16383, P.ty('u16')))
        if ok is not True:
            rep.bad('the slot index is not the checksum modulo 16384', [key], index=repr(cell))
    try:
        partitions(I, rep, run, 'slot of a key')
    finally:
        rehook(I, saved)


# ------------------------------------------------------------------------------------------- expiry
BSET = 'alloc::collections::btree::set::BTreeSet'
INDEX_MAX = 2


def index_world(I, n=None):
    """unknown expiry indexes are ordered sets of up to INDEX_MAX entries; returns the undo"""
    old = I.mkhooks.get(BSET)

    def mk(I, ty, name):
        S = I.S
        et = ty.a[0]
        if et.k != 'adt' or not et.p.endswith('expire::Entry'):
            return old(I, ty, name)
        m = Map('bset', name, et, et, 'closed', 0)
        k = S.enumv.get('#' + name)
        if k is None:
            k = S.enumv['#' + name] = S.choose((INDEX_MAX if n is None else n) + 1, 'entries of the expiry index')
        m.len0 = k
        prev = None
        for j in range(k):
            e = I.val(I.mk(et, '%s.e%d' % (name, j)))
            d = fnamed(I, e, 'expires_at')
            S.assume_range(d, 1, 2**63 - 1)
            S.assume_range(fnamed(I, e, 'slot'), 0, 16383)
            if prev is not None:
                S.assume_range(lin_add(d, prev, -1), 0, INF)
            prev = d
            m.ents.append(models.Ent(e, [e], True, None))
        # entries of a set differ
        for a in range(k):
            for b in range(a):
                if S.data.get('distinct') is None and models.keq(I, m.ents[a].key, m.ents[b].key):
                    raise Infeasible()
        return m
    I.mkhooks[BSET] = mk

    def undo():
        I.mkhooks[BSET] = old
    return undo


def index_of(I, v):
    """the Map of an expiry index behind references and locks"""
    v = I.deref(v)
    while type(v) is Lock:
        v = I.deref(Ref(v.cell))
    if type(v) is not Map:
        raise Unsupported('expiry index')
    return v


def entry_parts(I, e):
    e = I.val(I.deref(e))
    return fnamed(I, e, 'expires_at'), fnamed(I, e, 'slot'), I.deref(fnamed(I, e, 'key'))


def by_type(I, key, frags, vals):
    """arguments of a function, by the type of each parameter"""
    out = []
    for t in arg_tys(I, key):
        for f in frags:
            if f in t.s:
                out.append(vals[f])
                break
        else:
            raise Unsupported('parameter %s of %s' % (t.s, key))
    return out


def slots_changed(I, db, ini, S):
    """(slot index, key, before entry, after entry) for every key whose presence or value changed"""
    out = []
    for k, _ in judge.touched(I, db):
        a, b = find(I, db, k), find(I, ini, k)
        if a is None or b is None:
            if (a is None) != (b is None):
                out.append((k, None, None, None))
            continue
        if a.base == 'empty' and b.base != 'empty':
            out.append((k, None, b, a))
            continue
        for e in list(a.ents):
            o = b.lookup(I, e.key)
            if (e.cell is None) != (o.cell is None):
                out.append((k, e.key, o, e))
            elif e.cell is not None and not models.same(I, e.cell[0], o.cell[0]):
                out.append((k, e.key, o, e))
    return out


def find(I, db, k):
    d = db.c[0] if type(db) is Ref else db
    return spec.find_dict(I, Ref(judge.slot_of_view(I, Ref([d]) if type(db) is not Ref else db, k)))


@rule('C20')
def purge(I, rep):
    """the purge removes exactly the keys whose recorded deadline has passed"""
    P = I.P
    key = bysig(P, 'db::expire::Expiration::purge_expired_keys', 'u64', ['BTreeSet', 'db::Db'])
    undo = index_world(I)

    def run(S):
        db = mkdb(I)
        ini = Ref([I.val(judge.initial(I))])
        I.deref(db)
        S.assume_range(models.length(I, judge.slots_of(I, db)), 16384, 16384)
        dt = next(t for t in arg_tys(I, key) if 'BTreeSet' in t.s)
        data = I.mk(dt, 'index')
        m = index_of(I, data)
        es = [(e, entry_parts(I, e.key)) for e in m.ents]
        n = now(S)
        args = [data if 'BTreeSet' in t.s else db for t in arg_tys(I, key)]
        r = I.call_key(key, args)
        rest = []
        for e, (d, sl, k) in es:
            due = not S.ge0(lin_add(lin_add(d, n, -1), -1))
            if not due:
                if e.cell is None:
                    rep.bad('the purge drops an entry of the index before its deadline', [key])
                rest.append(d)
                continue
            if e.cell is not None:
                rep.bad('the purge leaves a due entry in the index', [key])
            a = find(I, db, sl)
            b = find(I, ini, sl)
            if a is None or b is None:
                continue
            o, x = b.lookup(I, k), a.lookup(I, k)
            if o.cell is None:
                continue
            if S.eq0(lin_add(judge.raw_deadline(I, o), d, -1)) and x.cell is not None:
                rep.bad('a key whose recorded deadline has passed is not removed', [key])
        for k, kk, o, x in slots_changed(I, db, ini, S):
            if kk is None:
                rep.bad('the purge empties or replaces a slot', [key])
                continue
            if o.cell is None or x.cell is not None:
                rep.bad('the purge changes a key instead of removing it', [key])
                continue
            d = judge.raw_deadline(I, o)
            if S.eq0(d):
                rep.bad('the purge removes a key that has no deadline', [key])
            elif S.ge0(lin_add(lin_add(d, n, -1), -1)):
                rep.bad('the purge removes a key whose deadline has not passed', [key])
        live = [e for e in m.ents if e.cell is not None]
        if len(live) > len(es):
            rep.bad('the purge adds entries to the index', [key])
        if type(r) in (int, Lin):
            if not rest:
                if not S.eq0(r) and not S.ge0(lin_add(n, r, -1)):
                    rep.bad('the purge reports a next deadline though none is left', [key])
            elif S.eq0(r):
                rep.bad('the purge reports no next deadline though one is left', [key])
            elif not S.ge0(lin_add(rest[0], r, -1)):
                rep.bad('the purge reports a later deadline than the earliest one left', [key])
        if S.held:
            rep.bad('a lock is still held after a purge', [key])
    try:
        partitions(I, rep, run, 'purge of expired keys', 40000)
    finally:
        undo()


class Stop(Exception):
    pass


@rule('C20')
def index_updates(I, rep):
    """messages to the expiry index are applied, and an earlier first deadline wakes the purge"""
    P = I.P
    key = bysig(P, 'db::expire::Expiration::recv_task', '', ['BTreeSet', 'Notify', 'Receiver'])
    undo = index_world(I)

    def run(S):
        tys = arg_tys(I, key)
        args = [I.mk(t, 'arg%d' % i) for i, t in enumerate(tys)]
        m = index_of(I, next(a for a, t in zip(args, tys) if 'BTreeSet' in t.s))
        es = [(e, entry_parts(I, e.key)) for e in m.ents]
        st = {'n': 0, 'told': []}

        def recv(I, v, oty, ev):
            st['n'] += 1
            if st['n'] == 1:
                st['msg'] = I.val(I.mk(oty.a[0], 'msg'))
                w = st['msg'].vn()
                st['w'] = w
                if w == 'Update':
                    u = I.val(I.force(st['msg'].f, 0))
                    s = I.val(judge.msgfield(I, u, lambda n, ty: n == 'status'))
                    g = {n: judge.msgfield(I, s, lambda a, ty: a == n) for n in ('key', 'before', 'new')}
                    S.assume_range(judge.msgfield(I, u, lambda n, ty: n == 'slot'), 0, 16383)
                    for n in ('before', 'new'):
                        S.assume_range(g[n], 0, 2**63 - 1)
                    if S.eq0(lin_add(g['before'], g['new'], -1)):
                        raise Infeasible()
                    st['u'] = (judge.msgfield(I, u, lambda n, ty: n == 'slot'), I.deref(g['key']), g['before'], g['new'])
                elif w == 'Clear':
                    st['slot'] = I.force(st['msg'].f, 0)
                elif w == 'BatchAdd':
                    vs = models.materialize(I, models.as_seq(I, I.force(st['msg'].f, 0)))
                    st['add'] = [entry_parts(I, x) for x in vs]
                    for d, _, _ in st['add']:
                        S.assume_range(d, 1, 2**63 - 1)
                else:
                    rep.undecided['message %s to the expiry index' % w] += 1
                return I.ok(models.clone(I, st['msg']), oty)
            if st['n'] > 2:
                raise Stop()
            return I.err(Opq('error'), oty)

        def notify(I, ev):
            st['told'].append([entry_parts(I, e.key) for e in m.ents if e.cell is not None])
        I.hooks['await:recv'] = recv
        I.hooks['notify'] = notify
        try:
            try:
                await_body(I, key, args)
            except Stop:
                rep.bad('the index task goes on after its queue is closed', [key])
                return
        finally:
            I.hooks.pop('await:recv', None)
            I.hooks.pop('notify', None)
        if st['n'] < 2:
            rep.bad('the index task ends after a message', [key])
            return
        w = st['w']
        have = [entry_parts(I, e.key) for e in m.ents if e.cell is not None]

        def isin(d, sl, k, xs):
            return any(S.eq0(lin_add(d, y[0], -1)) and S.eq0(lin_add(sl, y[1], -1)) and models.keq(I, k, y[2]) for y in xs)

        gone = [p for e, p in es if e.cell is None]
        old = [p for e, p in es]
        added = []
        if w == 'Clear':
            for e, p in es:
                hit = S.eq0(lin_add(p[1], st['slot'], -1))
                if hit and e.cell is not None:
                    rep.bad('clearing a slot leaves an entry of it in the index', [key])
                if not hit and e.cell is None:
                    rep.bad('clearing a slot drops an entry of another slot', [key])
            if len(have) > len(es):
                rep.bad('clearing a slot adds entries', [key])
        elif w == 'Update':
            sl, k, bf, nw = st['u']
            new = not S.eq0(nw)
            if new:
                added.append((nw, sl, k))
                if not isin(nw, sl, k, have):
                    rep.bad('a new deadline is not entered in the index', [key])
            for p in gone:
                if S.eq0(bf) or not isin(bf, sl, k, [p]):
                    rep.bad('an update drops another entry of the index', [key])
            if not S.eq0(bf) and isin(bf, sl, k, have):
                rep.bad('an outdated deadline stays in the index', [key])
            for p in have:
                if not isin(p[0], p[1], p[2], old) and not (new and isin(nw, sl, k, [p])):
                    rep.bad('an update adds another entry to the index', [key])
        elif w == 'BatchAdd':
            added = st['add']
            for p in added:
                if not isin(p[0], p[1], p[2], have):
                    rep.bad('a deadline of a bulk message is not entered in the index', [key])
            if gone:
                rep.bad('a bulk message drops entries of the index', [key])
        for d, sl, k in added:
            if old and not S.ge0(lin_add(lin_add(old[0][0], d, -1), -1)):
                continue
            if not any(isin(d, sl, k, t) for t in st['told']):
                rep.bad('the purge is not woken although a deadline now comes first', [key], message=w)
        if S.held:
            rep.bad('a lock is still held after an index message', [key])
    try:
        partitions(I, rep, run, 'message to the expiry index')
    finally:
        undo()


@rule('C20')
def purge_loop(I, rep):
    """the purge task runs again no later than the next deadline, or when it is woken"""
    P = I.P
    key = bysig(P, 'db::expire::Expiration::purge_expired_task', '', ['BTreeSet', 'Notify', 'db::Db'])
    undo = index_world(I, 1)
    seen = {}

    def run(S):
        tys = arg_tys(I, key)
        args = [I.mk(t, 'arg%d' % i) for i, t in enumerate(tys)]
        for a in args:
            d = I.deref(a)
            if type(d) is Agg and d.ty is not None and d.ty.p == 'db::Db':
                S.assume_range(models.length(I, judge.slots_of(I, Ref([d]))), 16384, 16384)
        m = index_of(I, next(a for a, t in zip(args, tys) if 'BTreeSet' in t.s))
        ds = [entry_parts(I, e.key)[0] for e in m.ents]
        n = now(S)
        st = {'w': [], 'first': None}

        def wait(kind):
            def h(I, v, oty, ev):
                nl = len([e for e in S.ev if e['k'] == 'lock'])
                st['w'].append((kind, v.a.get('args'), nl))
                if len(st['w']) == 1:
                    left = [entry_parts(I, e.key)[0] for e in m.ents if e.cell is not None]
                    if not nl:
                        rep.bad('the purge task waits before it looked at the index', [key])
                    case = 'empty' if not left else 'pending'
                    s = seen.setdefault(case, set())
                    if kind == 'notified':
                        s.add('woken')
                    else:
                        dur = I.deref(v.a['args'][0])
                        ms = dur.a.get('ms') if type(dur) is Opq else None
                        if ms is None:
                            rep.undecided['duration of the pause of the purge task'] += 1
                        elif type(ms) is int and ms <= 1000:
                            s.update(('timer', 'woken'))
                        elif left and S.ge0(lin_add(lin_add(left[0], n, -1), ms, -1)):
                            s.add('timer')
                        elif left:
                            rep.bad('the purge task sleeps beyond the next deadline', [key])
                    for g in S.held:
                        rep.bad('the purge task holds a lock while it waits', [key])
                elif len(st['w']) >= 2:
                    if nl == st['w'][0][2]:
                        # a second wait of the same round
                        if len(st['w']) > 4:
                            rep.bad('the purge task does not look at the index again after a pause', [key])
                            raise Stop()
                        return NotImplemented
                    raise Stop()
                return NotImplemented
            return h
        I.hooks['await:sleep'] = wait('sleep')
        I.hooks['await:notified'] = wait('notified')
        try:
            await_body(I, key, args)
            rep.bad('the purge task ends', [key])
        except Stop:
            pass
        finally:
            I.hooks.pop('await:sleep', None)
            I.hooks.pop('await:notified', None)
    try:
        partitions(I, rep, run, 'round of the purge task')
    finally:
        undo()
    if not rep.undecided:
        if 'woken' not in seen.get('empty', ()):
            rep.bad('with an empty index the purge task cannot be woken', [key])
        if 'timer' not in seen.get('pending', ()):
            rep.bad('with a pending deadline the purge task does not wake up by itself', [key])
        if 'woken' not in seen.get('pending', ()):
            rep.bad('with a pending deadline the purge task cannot be woken earlier', [key])


@rule('C20')
def index_scan(I, rep):
    """the scan of the index keeps exactly the entries that match a key"""
    P = I.P
    key = bysig(P, 'db::expire::scan_all', '()', ['db::Db'])
    undo = index_world(I)

    def run(S):
        db = mkdb(I)
        ini = Ref([I.val(judge.initial(I))])
        I.deref(db)
        S.assume_range(models.length(I, judge.slots_of(I, db)), 16384, 16384)
        m = index_of(I, fty(I, db, 'BTreeSet'))
        es = [(e, entry_parts(I, e.key)) for e in m.ents]
        I.call_key(key, [db])
        for e, (d, sl, k) in es:
            b = find(I, ini, sl)
            hit = False
            if b is not None:
                o = b.lookup(I, k)
                hit = o.cell is not None and S.eq0(lin_add(judge.raw_deadline(I, o), d, -1))
            if hit and e.cell is None:
                rep.bad('the scan drops the entry of a key that still has this deadline', [key])
            if not hit and e.cell is not None:
                rep.bad('the scan keeps an entry no key has', [key])
        if slots_changed(I, db, ini, S):
            rep.bad('the scan changes a slot', [key])
        if len([e for e in m.ents if e.cell is not None]) > len(es):
            rep.bad('the scan adds entries', [key])
        if S.held:
            rep.bad('a lock is still held after a scan', [key])
    try:
        partitions(I, rep, run, 'scan of the expiry index', 20000)
    finally:
        undo()


@rule('C20', 'C32')
def replaced_dict(I, rep):
    """a slot that receives a snapshot gets its content and has its deadlines indexed anew"""
    P = I.P
    key = bysig(P, 'db::slot::Slot::replace_dict', '()', ['slot::Slot', 'dict::MemDict'])

    def run(S):
        db = mkdb(I)
        I.deref(db)
        k = S.atom('slotno', 0, 16383)
        cell = judge.slot_of_view(I, db, k)
        dt = arg_tys(I, key)[1]
        new = I.mk(dt, 'snap')
        keep = Ref([I.mk(dt, 'snap')])
        before = judge.slotid(I, db, k)
        S.assume_range(lin_add(before, k, -1), 0, 0)
        kd = spec.find_dict(I, keep)
        es = [(e.key, judge.raw_deadline(I, e)) for e in kd.materialize(I)]
        I.call_key(key, [Ref(cell), new])
        got = spec.find_dict(I, Ref(cell))
        if got is None:
            rep.bad('a slot that receives a snapshot is not held afterwards', [key])
            return
        md, sn = judge.memdict(I, Ref(cell)), I.deref(keep)
        if not S.eq0(lin_add(judge.seqno(I, md), judge.seqno(I, judge.memdict(I, keep)), -1)):
            rep.bad('a slot that receives a snapshot does not take over its sequence number', [key])
        for x in [e[0] for e in es] + [e.key for e in got.ents]:
            a, b = got.lookup(I, x), kd.lookup(I, x)
            if (a.cell is None) != (b.cell is None) or a.cell is not None and not models.same(I, a.cell[0], b.cell[0]):
                d = judge.raw_deadline(I, b)
                if a.cell is None and not S.eq0(d) and not S.ge0(lin_add(lin_add(d, now(S), -1), -1)):
                    continue
                rep.bad('a slot that receives a snapshot does not hold what the snapshot holds', [key])
        idx = []
        for e in S.ev:
            if e['k'] != 'send':
                continue
            if e['ty'] is None or not e['ty'].p.endswith('expire::Message'):
                rep.bad('a snapshot is announced to others', [key])
                continue
            v = I.val(e['v'])
            w = v.vn()
            if w == 'Clear':
                if S.eq0(lin_add(I.force(v.f, 0), k, -1)):
                    idx = []
                else:
                    rep.bad('the entries of another slot are cleared from the expiry index', [key])
            elif w == 'BatchAdd':
                idx += [entry_parts(I, x) for x in models.materialize(I, models.as_seq(I, I.force(v.f, 0)))]
            else:
                u = I.val(I.force(v.f, 0))
                s = I.val(judge.msgfield(I, u, lambda n, ty: n == 'status'))
                idx.append((judge.msgfield(I, s, lambda n, ty: n == 'new'), judge.msgfield(I, u, lambda n, ty: n == 'slot'),
                            judge.msgfield(I, s, lambda n, ty: n == 'key')))
        for x, d in es:
            if S.eq0(d) or got.lookup(I, x).cell is None:
                continue
            if not any(S.eq0(lin_add(d, q[0], -1)) and S.eq0(lin_add(q[1], k, -1)) and models.keq(I, x, q[2]) for q in idx):
                rep.bad('a deadline of a snapshot is not indexed', [key])
        if S.held:
            rep.bad('a lock is still held after a snapshot', [key])
    partitions(I, rep, run, 'slot content from a snapshot')


# ------------------------------------------------------------------------------------------- start
def walk(I, v, depth=8, seen=None):
    """every value reachable from one"""
    seen = set() if seen is None else seen
    out = []
    if type(v) is Ref:
        if (id(v.c), v.i) in seen:
            return out
        seen.add((id(v.c), v.i))
        v = v.c[v.i]
        if type(v) is Sym:
            return out
        return walk(I, v, depth, seen)
    out.append(v)
    if not depth:
        return out
    if type(v) is Lock:
        out += walk(I, Ref(v.cell), depth - 1, seen)
    elif type(v) is Agg:
        for x in v.f:
            if type(x) is not Sym:
                out += walk(I, x, depth - 1, seen)
    elif type(v) is Opq and v.a.get('cell'):
        out += walk(I, Ref(v.a['cell']), depth - 1, seen)
    return out


def big(I, S, rep, key, what, vec):
    """a table filled by a counted loop: the loop runs 0..16384 and fills one cell per round"""
    ev = [e for e in S.ev if e['k'] == 'bigrange']
    if len(ev) != 1:
        rep.undecided['loop that fills the %s' % what] += 1
        return
    e = ev[0]
    if e['lo'] != 0 or e['hi'] != 16384:
        rep.bad('the %s does not have 16384 cells' % what, [key], rounds=repr((e['lo'], e['hi'])))
    if not S.eq0(lin_add(models.length(I, vec), e['n'], -1)):
        rep.bad('the %s does not get one cell per slot' % what, [key])


@rule('C28', 'C20')
def database_start(I, rep):
    """a new database holds all 16384 slots, each under its own number, and runs the expiry tasks"""
    P = I.P
    key = bysig(P, 'db::Db::new', '', [])
    coro = [key]

    def run(S):
        S.limits['bigrange'] = True
        for v in ('CONFIG.from_pd', 'CONFIG@Config.from_pd'):
            S.enumv[v] = 0
        db = None
        r = await_body(I, key, [])
        v = I.val(r)
        if type(v) is Agg and v.ty is not None and v.ty.p == 'core::task::poll::Poll':
            v = I.force(v.f, 0)
        db = v
        vec = judge.slots_of(I, db)
        big(I, S, rep, key, 'slot table', vec)
        chans = set()
        for i, c in enumerate(models.materialize(I, vec)):
            sv = I.val(I.deref(c))
            n = [x for _, ty, x in fields(I, sv) if ty.s == 'usize']
            if len(n) != 1:
                raise Unsupported('slot number')
            if not S.eq0(lin_add(n[0], -i)):
                rep.bad('a slot does not carry its own number', [key])
            m = spec.find_dict(I, Ref([sv]))
            if m is None or not S.eq0(models.length(I, m)):
                rep.bad('a new slot is not held, or not empty', [key])
            elif not S.eq0(judge.seqno(I, judge.memdict(I, Ref([sv])))):
                rep.bad('a new slot does not start at sequence number 0', [key])
        started = [I.val(e['v']) for e in S.ev if e['k'] == 'spawn']
        for want in ('expire::Expiration::recv_task', 'expire::Expiration::purge_expired_task', 'forward::Forward::run'):
            if not any(type(x) is Agg and x.ty is not None and want in (x.ty.fn or '') for x in started):
                rep.undecided['task %s' % want] += 1
        if len(started) < 3:
            rep.bad('a database does not start its expiry and replication tasks', [key])
        dix = index_of(I, fty(I, db, 'BTreeSet'))
        rx = []
        for x in started:
            parts = walk(I, x)
            rx += [p.a.get('name') for p in parts if type(p) is Opq and p.kind == 'receiver']
            for p in parts:
                if type(p) is Map and p.kind == 'bset' and p is not dix:
                    rep.bad('an expiry task works on another index than the database', [key])
        for i, c in enumerate(models.materialize(I, vec)):
            for p in walk(I, c):
                if type(p) is Opq and p.kind == 'sender' and p.a.get('name') not in rx:
                    rep.bad('messages of a slot go to a queue no task reads', [key])
    partitions(I, rep, run, 'database start')


# ------------------------------------------------------------------------------------------- flush
def slots(I, S, n):
    """any number of slots stands for 16384 of them: the length of the slot table and the constants are this number"""
    N = S.limits['slots'] = S.atom('number of slots', 1, 16384)
    S.assume_range(lin_add(n, N, -1), 0, 0)
    return N


def slot_values(I, db):
    """(position, slot value) of the slots a loop over the table went through"""
    seq = judge.slots_of(I, db)
    return [(k, I.force(c, 0)) for k, c in judge.seg_cells(seq)] + [
        (n, I.deref(g)) for n, g in enumerate(x for x in seq.segs if type(x) is not Seg)]


def plain(I, v, ty):
    xs = [x for _, t, x in fields(I, v) if t.s == ty]
    if len(xs) != 1:
        raise Unsupported('field of type %s' % ty)
    return xs[0]


@rule('C29')
def flush_everything(I, rep):
    """FLUSHALL empties every slot, keeps its sequence and sends one message per slot that held anything"""
    P = I.P
    fty_ = cmdrun.ty_of(P, 'common::connection::parse::frame::Frame')
    fa = cmdrun.one(P, "server::cmd::Command::<\'a>::from_frame")
    ap = cmdrun.one(P, "server::cmd::Write::<\'a>::apply")
    for words in (('flushall',), ('FLUSHALL', 'sync'), ('flushall', 'async')):
        undo = index_world(I, 1)

        def run(S):
            db = mkdb(I)
            ini = Ref([I.val(judge.initial(I))])
            I.deref(db)
            slots(I, S, models.length(I, judge.slots_of(I, db)))
            for e in index_of(I, fty(I, db, 'BTreeSet')).ents:
                S.assume_range(lin_add(models.length(I, judge.slots_of(I, db)), entry_parts(I, e.key)[1], -1), 1, INF)
            frame = cmdrun.frame_array(I, fty_, [cmdrun.frame_bulk(I, fty_, bconst(w.encode())) for w in words])
            c = I.val(I.call_key(fa, [frame]))
            if c.vn() == 'Err':
                if words[-1] != 'async':
                    rep.bad('%s is refused' % ' '.join(words), [fa])
                return 'skip'
            c = I.val(c.f[0])
            if c.vn() != 'Write':
                rep.bad('%s is not taken as a write' % ' '.join(words), [fa])
                return 'skip'
            later = []
            I.hooks['spawn'] = lambda I, k, v: later.append((k, v))
            try:
                r = I.val(I.call_key(ap, [c.f[0], Ref([db])]))
                for k, v in later:
                    if k == 'spawn_blocking':
                        I.call_fn(v, [])
            finally:
                I.hooks.pop('spawn', None)
            for k, sv in slot_values(I, db):
                S.assume_range(lin_add(plain(I, I.deref(Ref(judge.slot_of_view(I, ini, k))), 'usize'), k, -1), 0, 0)
                S.assume_range(lin_add(plain(I, sv, 'usize'), k, -1), 0, 0)
            if r.vn() != 'Ok':
                rep.bad('%s reports an error' % ' '.join(words), [ap])
            fwd = [e for e in S.ev if e['k'] == 'send' and e['ty'] is not None and 'forward' in e['ty'].p]
            left = list(fwd)
            for k, sv in slot_values(I, db):
                o = I.deref(Ref(judge.slot_of_view(I, ini, k)))
                md, mo = judge.memdict(I, Ref([sv])), judge.memdict(I, Ref([o]))
                if mo is None or md is None:
                    if (mo is None) != (md is None):
                        rep.bad('FLUSHALL gives up or takes on a slot', [ap])
                    continue
                n0 = models.length(I, spec.find_dict(I, Ref([o])))
                n1 = models.length(I, spec.find_dict(I, Ref([sv])))
                if not S.eq0(n1):
                    rep.bad('FLUSHALL leaves keys', [ap])
                num = plain(I, o, 'usize')
                ms = [e for e in left if S.eq0(lin_add(judge.msgfield(I, e['v'], lambda n, ty: n == 'slot'), num, -1))]
                left = [e for e in left if not any(e is x for x in ms)]
                d = lin_add(judge.seqno(I, md), judge.seqno(I, mo), -1)
                if not S.eq0(n0) and len(ms) != 1:
                    rep.bad('FLUSHALL of a slot that holds keys sends %d replication messages' % len(ms), [ap])
                if not S.eq0(lin_add(d, -len(ms))):
                    rep.bad('FLUSHALL changes the sequence number of a slot by another number than it sends messages', [ap])
                for j, e in enumerate(ms):
                    if I.val(judge.msgfield(I, e['v'], lambda n, ty: 'WriteCmd' in ty.s)).vn() not in ('Flush', 'None'):
                        rep.bad('FLUSHALL is replicated as another command', [ap])
                    if not S.eq0(lin_add(lin_add(judge.msgfield(I, e['v'], lambda n, ty: n == 'id'), judge.seqno(I, mo), -1), -j - 1)):
                        rep.bad('the replication message of FLUSHALL does not carry the sequence number of its write', [ap])
            if left:
                rep.bad('FLUSHALL sends replication messages for no slot', [ap])
            if S.held:
                rep.bad('a lock is still held after FLUSHALL', [ap])
        try:
            partitions(I, rep, run, ' '.join(words).lower(), 20000)
        finally:
            undo()
