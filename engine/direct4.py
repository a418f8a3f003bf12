"""Direct analyses: access statistics, snapshot processes, configuration."""
import cmdrun
import judge
import models
from models import Map
import spec
from core import *
from direct import (Stop, arg_tys, bysig, fields, mkdb, partitions, rehook, rule, unhook)
from direct2 import adt, hooked
from direct3 import run_task

VISIT = 'dict::Value::update_visit_log'
MIN = 60_000


def reply(I, rep, db, words, what):
    """number a command replies, None for an error"""
    st, v = cmdrun.run_command(I, [B(w[1:]) if w.startswith('$') else bconst(w.encode()) for w in words], db)
    r = spec.absreply(I, v) if st == 'reply' else ('err', None)
    if what and type(r) not in (int, Lin):
        rep.bad('%s: no number is replied for a key that exists' % what)
        raise Stop()
    return r


def clocks(S):
    """two moments by minutes and parts of minutes, the second not before the first and at most 65535 minutes later; and the minutes"""
    def moment(n, mins):
        p = [(S.atom(n + 'tens', 0, 5), 10_000), (S.atom(n + 's', 0, 9), 1000), (S.atom(n + 'ms', 0, 999), 1)]
        x = lin_scale(mins, MIN)
        for v, k in p:
            x = lin_add(x, v, k)
        return x
    e, ma = S.atom('epoch', 407, 1000), S.atom('minute a', 0, 65_535)
    turn = int(S.fork('the minutes pass a multiple of 65536'))
    m = S.atom('minutes between', turn, 65_535)
    mb = lin_add(lin_add(ma, m), -65_536 * turn)
    S.assume_range(mb, 0, 65_535)
    na, nb = lin_add(lin_scale(e, 65_536), ma), lin_add(lin_scale(lin_add(e, turn), 65_536), mb)
    a, b = moment('a', na), moment('b', nb)
    S.assume_range(lin_add(b, a, -1), 0, 2**62)
    return a, b, m


def packed(I, S, v):
    """any 64-bit word, by its parts of 16 bits"""
    w = 0
    for i in range(4):
        w = lin_add(w, S.atom('word%d' % i, 0, 65_535), 1 << 16 * i)
    names = [n for n, ty, x in fields(I, v)]
    v.f[names.index('visit_log')] = w


def live_key(I, S, db, k, till):
    """the key exists, and does not expire meanwhile"""
    m = spec.find_dict(I, Ref(slot_cell(I, db, k)))
    if m is None:
        raise Infeasible()
    e = m.lookup(I, k)
    if e.cell is None:
        raise Infeasible()
    d = judge.raw_deadline(I, e)
    if not S.eq0(d):
        S.assume_range(lin_add(d, till, -1), 1, 2**63)
    return I.val(I.force(e.cell, 0))


def slot_cell(I, db, k):
    idx = I.S.opatom('slotof', (I.S.bnorm(k),), 0, 16383)
    return judge.slot_of_view(I, db.c[0], idx)


def idle_ok(I, rep, i, a, b, what):
    """the idle time is that since `a` at moment `b`, to ten seconds"""
    S = I.S
    x = lin_scale(i, 1000)
    d = lin_add(b, a, -1)
    if not S.ge0(lin_add(lin_add(x, d, -1), 999)):
        rep.bad('%s: the idle time is less than the time since the last access' % what)
    if not S.ge0(lin_add(lin_add(d, x, -1), 9999)):
        rep.bad('%s: the idle time is more than the time since the last access' % what)


def decayed(S, f, m):
    """one access, m minutes after the last one"""
    r = lin_add(f, m, -1)
    r = r if S.ge0(r) else 0
    return lin_add(r, 1) if S.ge0(lin_add(65_534, r, -1)) else r


@rule('C41')
def access_statistics(I, rep):
    """idle time and access count follow the accesses"""
    P = I.P

    def ask(db, a, b, what, S):
        S.data['clock'] = b
        f = reply(I, rep, db, ['object', 'freq', '$k'], what)
        i = reply(I, rep, db, ['object', 'idletime', '$k'], what)
        idle_ok(I, rep, i, a, b, what)
        if not S.eq0(lin_add(f, reply(I, rep, db, ['object', 'freq', '$k'], what), -1)):
            rep.bad('%s: asking for the statistics counts as an access' % what)
        return f

    def fresh(S):
        db = mkdb(I)
        I.deref(db)
        a, b, m = clocks(S)
        d = spec.find_dict(I, Ref(slot_cell(I, db, B('k'))))
        if d is None or d.lookup(I, B('k')).cell is not None:
            return 'skip'
        S.data['clock'] = a
        st, v = cmdrun.run_command(I, [bconst(b'set'), B('k'), B('v')], db)
        if st != 'reply':
            return 'skip'
        try:
            f = ask(db, a, b, 'a new key', S)
        except Stop:
            return
        if not S.eq0(lin_add(f, -5)):
            rep.bad('a new key does not start with 5 accesses')

    def restored(S, again=False):
        db = mkdb(I)
        I.deref(db)
        a, b, m = clocks(S)
        d = spec.find_dict(I, Ref(slot_cell(I, db, B('k'))))
        if d is None or d.lookup(I, B('k')).cell is not None:
            return 'skip'
        S.data['clock'] = a
        idle = 0 if again else 1237
        st, v = cmdrun.run_command(I, [bconst(w) if type(w) is bytes else B(w) for w in
                                       (b'restore', 'k', b'0', 'v', b'idletime', b'%d' % idle, b'freq', 'q')], db)
        if st != 'reply' or type(spec.absreply(I, v)) is tuple:
            return 'skip'
        q = spec.C(I, spec.View(I, judge.initial(I))).uint(B('q'))
        try:
            if again:
                S.data['clock'] = b
                cmdrun.run_command(I, [bconst(b'exists'), B('k')], db)
                f = ask(db, b, b, 'after an access', S)
                if not S.eq0(lin_add(f, decayed(S, q, m), -1)):
                    rep.bad('the access count is not one more for an access and one less for each minute')
                    return
                cmdrun.run_command(I, [bconst(b'exists'), B('k')], db)
                if not S.eq0(lin_add(ask(db, b, b, 'after two accesses', S), decayed(S, f, 0), -1)):
                    rep.bad('a second access of the same minute does not count as one more')
                return
            f = ask(db, lin_add(a, -1000 * idle), b, 'a restored key', S)
        except Stop:
            return
        if not S.eq0(lin_add(f, q, -1)):
            rep.bad('a restored key does not have the access count it was given')
    saved = unhook(I, VISIT)
    try:
        partitions(I, rep, lambda S: restored(S, True), 'accesses to a key')
        partitions(I, rep, fresh, 'statistics of a new key')
        partitions(I, rep, restored, 'statistics of a restored key')
    finally:
        rehook(I, saved)


@rule('C09', 'C41')
def access_log(I, rep):
    """noting an access changes the access log of the value and nothing else, and cannot fail"""
    P = I.P
    ks = cmdrun.matches(P, VISIT)
    if len(ks) != 1:
        rep.undecided['function that notes an access'] += 1
        return
    key = ks[0]

    def run(S):
        ty = arg_tys(I, key)[0].t
        S.data['clock'], _, _ = clocks(S)
        v, o = I.val(I.mk(ty, 'val')), I.val(I.mk(ty, 'val'))
        packed(I, S, v)
        I.call_key(key, [Ref([v])])
        n = 0
        for (name, fty, x), (_, _, y) in zip(fields(I, v), fields(I, o)):
            n += 1
            if name != 'visit_log' and not models.same(I, x, y):
                rep.bad('noting an access changes the %s of the value' % name, [key])
        if not n:
            raise Unsupported('fields of a value')
        if S.held or S.ev and any(e['k'] in ('send', 'spawn') for e in S.ev):
            rep.bad('noting an access has other effects', [key])
    saved = unhook(I, VISIT)
    try:
        partitions(I, rep, run, 'noting of an access')
    finally:
        rehook(I, saved)


@rule('C42')
def child_processes(I, rep):
    """a snapshot process is recorded by the server that started it, and the task that waits for such processes never ends"""
    P = I.P
    add = cmdrun.one(P, 'db::child_process::add')
    name = 'db::child_process::STATUS'
    seen = {'reaped': 0, 'started': 0}

    def start(S):
        """the records, made the way their first use makes them"""
        cells = {}

        def static(I, path, ty):
            if not (ty.p.startswith('once_cell') and ty.a):
                return None
            if path not in cells:
                cells[path] = None
                ks = [k for k in P.fns if k.startswith(path + '::{closure#') and k.count('{closure') == 1]
                if len(ks) != 1:
                    raise Unsupported('initializer of ' + path)
                cells[path] = [I.call_key(ks[0], [I.unit()])]
            return Opq('lazy', ty, cell=cells[path], name=path)
        return static, cells

    def records(I, cells):
        for c in cells.values():
            v = I.val(I.deref(Ref(c))) if c else None
            if type(v) is Lock:
                v = I.val(I.force(v.cell, 0))
            if type(v) is Map:
                return v

    def record(S):
        static, cells = start(S)
        tys = arg_tys(I, add)
        a, b = I.mk(tys[0], 'first'), I.mk(tys[0], 'second')
        with hooked(I).add({'static': static}):
            for p in (a, b):
                I.call_key(add, [p, I.mk(tys[1], S.fresh('info'))])
        m = records(I, cells)
        if m is None:
            raise Unsupported('records of child processes')
        if any(m.lookup(I, p).cell is None for p in (a, b)):
            rep.bad('a snapshot process is not recorded', [add])
        n = len([e for e in S.ev if e['k'] in ('spawn', 'spawn_blocking', 'thread')])
        if n != 1:
            rep.bad('%s task waits for snapshot processes' % ('no' if not n else 'more than one'), [add])
        if S.held:
            rep.bad('the records of snapshot processes stay locked', [add])

    def wait(S):
        static, cells = start(S)
        tys = arg_tys(I, add)
        a = I.mk(tys[0], 'running')
        st = {'n': 0, 'slept': True, 'pid': None}
        with hooked(I).add({'static': static}):
            I.call_key(add, [a, I.mk(tys[1], 'info')])
        sp = [e for e in S.ev if e['k'] in ('spawn', 'spawn_blocking', 'thread')]
        if len(sp) != 1:
            return
        m = records(I, cells)

        def locked():
            if S.held:
                rep.bad('the records of snapshot processes are locked while the task waits', [add])

        def after():
            if st['pid'] is not None:
                same = models.keq(I, st['pid'], a)
                gone = m.lookup(I, a).cell is None
                seen['reaped'] += 1
                if same and not gone:
                    rep.bad('a snapshot process that ended stays recorded', [add])
                if gone and not same and not st.get('gone'):
                    rep.bad('a snapshot process that runs is no longer recorded', [add])
            elif m.lookup(I, a).cell is None and not st.get('gone'):
                rep.bad('a snapshot process that runs is no longer recorded', [add])
            st['gone'] = m.lookup(I, a).cell is None
            st['pid'] = None

        def sleep(I, C):
            locked()
            after()
            st['slept'] = True
            return I.unit()

        def wait(I, C):
            after()
            if type(C.args[0]) is not Sym and I.val(C.args[0]).vn() == 'Some':
                rep.bad('the task waits for one process only', [add])
            if not st['slept']:
                rep.bad('the task that waits for snapshot processes never pauses', [add])
            st['slept'] = False
            st['n'] += 1
            if st['n'] > 2:
                raise Stop()
            if S.fork('waiting fails'):
                return I.err(I.mk(C.destty.a[1], S.fresh('errno')), C.destty)
            t = C.destty.a[0]
            kinds = [v[0] for v in t.v]
            w = ('Exited', 'StillAlive', 'Signaled')[S.choose(3, 'status %d' % st['n'])]
            if w not in kinds:
                raise Infeasible()
            vi = kinds.index(w)
            f = [I.mk(ty, S.fresh('status')) for _, ty in t.v[vi][2]]
            if w == 'Exited':
                if st.get('gone') or S.fork('another process'):
                    if models.keq(I, f[0], a):
                        raise Infeasible()
                else:
                    f[0] = a
                st['pid'] = f[0]
            return I.ok(Agg(t, vi, f), C.destty)
        with hooked(I).add({'static': static, 'thread_sleep': sleep, 'waitpid': wait}):
            try:
                run_task(I, sp[0]['v'])
                rep.bad('the task that waits for snapshot processes ends', [add])
            except Stop:
                pass
    def begin(S):
        S.limits['io_ok'] = False
        key = cmdrun.one(P, 'server::cmd::syncsnapshot::SyncSnapshot::apply')
        told = []

        def note(I, k, args):
            told.append(args[0])
            return I.unit()
        with hooked(I).add({add: note}):
            try:
                I.call_key(key, [I.mk(arg_tys(I, key)[0], 'request'), I.val(I.mk(adt(I, 'server::Handler'), 'handler'))])
            except PathEnd as e:
                if e.kind != 'exit':
                    raise
        fk = [e for e in S.ev if e['k'] == 'fork']
        if fk and fk[0]['who'] == 'parent':
            seen['started'] += 1
            if len(told) != 1 or not models.keq(I, told[0], fk[0]['pid']):
                rep.bad('the server does not record the snapshot process it starts', [key])
        elif told:
            rep.bad('a process is recorded that the server did not start', [key])

    partitions(I, rep, begin, 'start of a snapshot process')
    partitions(I, rep, record, 'record of a snapshot process')
    partitions(I, rep, wait, 'waiting for snapshot processes')
    if not rep.undecided and not all(seen.values()):
        rep.undecided['no process was followed from its start to its end'] += 1
