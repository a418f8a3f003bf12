"""Direct analyses: connections, framing, replication links and the placement driver."""
import api
import cmdrun
import judge
import models
import spec
from core import *
from direct import (Stop, arg_tys, await_body, big, by_type, bysig, entry_parts, fget, find, fnamed, fields, fty, index_of, mkdb,
                    now, partitions, plain, rehook, rule, slot_values, unhook, walk)
from models import Map, Seq, Seg

FRAME = 'common::connection::parse::frame::Frame'


def adt(I, path):
    """a type by path; also when it moved to another module"""
    ts = [t for t in I.P.types.values() if t.k == 'adt' and t.p == path and t.v]
    if not ts:
        w = path.split('::')
        ts = [t for t in I.P.types.values() if t.k == 'adt' and t.v and t.p.split('::')[0] == w[0]
              and t.p.split('::')[-1] == w[-1]]
        if len({t.p for t in ts}) != 1:
            raise Unsupported('type %s' % path)
    return ts[0]


def variant(I, ty, name, *fs):
    for i, v in enumerate(ty.v):
        if v[0] == name:
            return Agg(ty, i, list(fs) if fs or not v[2] else [I.mk(t, I.S.fresh(name)) for _, t in v[2]])
    raise Unsupported('variant %s' % name)


def ret_ty(I, key):
    return I.P.fns[key]['lty'][0]


class hooked:
    """hooks for the time of one analysis"""

    def __init__(self, I, **named):
        self.I, self.new = I, {}
        self.add(named)

    def add(self, d):
        self.new.update(d)
        return self

    def __enter__(self):
        self.old = {k: self.I.hooks.get(k) for k in self.new}
        self.I.hooks.update(self.new)
        return self

    def __exit__(self, *a):
        for k, h in self.old.items():
            if h is None:
                self.I.hooks.pop(k, None)
            else:
                self.I.hooks[k] = h


def text_of(I, e):
    """bytes of the text of an error value"""
    e = I.deref(e)
    if type(e) is Opq:
        return e.a.get('v')
    return None


# ------------------------------------------------------------------------------------------- requests and replies
ENC = "common::connection::parse::frame::<impl core::convert::From<&common::connection::parse::frame::Frame<'_>> for alloc::vec::Vec<u8>>::from"


def encoder(I):
    ks = [k for k, fn in I.P.fns.items() if fn['argc'] == 1 and 'Vec<u8>' in fn['lty'][0].s and fn['lty'][1].k == 'ref'
          and fn['lty'][1].t.p == FRAME and k.endswith('::from')]
    if len(ks) != 1:
        raise Unsupported('encoder of frames')
    return ks[0]


def h_write(I, key, args):
    """summary of the encoding of a frame (decided on its own): distinct bytes for distinct frames"""
    f = I.deref(args[0])
    xs = [I.deref(x) for x in f.f] if type(f) is Agg else [f]
    nm = 'enc(%s)' % ','.join([f.vn() if type(f) is Agg else ''] + [repr(I.S.bnorm(x)) if type(x) is B else repr(x) for x in xs])
    r = args[1]
    while type(r.c[r.i]) is Ref:
        r = r.c[r.i]
    v = I.force(r.c, r.i)
    if type(v) is not B:
        v = models.bytes_of(I, v) if hasattr(models, 'bytes_of') else B()
    r.c[r.i] = I.S.bnorm(B(*(v.p + (nm,))))
    return I.unit()


def request_world(I, rounds, outcomes):
    """hooks that answer reads with requests and decide what each request means; returns (hooks, log)"""
    P = I.P
    fr = adt(I, FRAME)
    rf = cmdrun.one(P, 'common::connection::Connection::read_frame')
    ff = cmdrun.one(P, 'server::cmd::Command::from_frame')
    cty = ret_ty(I, ff).a[0]
    log = []
    st = {'n': 0}

    def read(I, v, oty, ev):
        st['n'] += 1
        S = I.S
        log.append(('read', list(S.held)))
        if st['n'] > rounds:
            raise Stop()
        w = ('request', 'closed', 'failed')[S.choose(3, 'read %d' % st['n'])]
        if w == 'closed':
            log.append(('closed',))
            return I.ok(I.none(oty.a[0]), oty)
        if w == 'failed':
            log.append(('failed',))
            return I.err(Opq('error', None, v=B(S.fresh('errtext'))), oty)
        f = Agg(fr, [x[0] for x in fr.v].index('OwnedBulk'), [B('request%d' % st['n'])])
        return I.ok(I.some(f, oty.a[0]), oty)

    def parse(I, key, args):
        S = I.S
        w = outcomes[S.choose(len(outcomes), 'request %d' % st['n'])]
        log.append(('request', w))
        oty = ret_ty(I, ff)
        if w == 'refused':
            e = B(S.fresh('refusal'))
            log.append(('result', 'err', e))
            return I.err(Opq('error', None, v=e), oty)
        if w == 'Ping':
            log.append(('result', 'ok', variant(I, fr, 'Pong')))
        return I.ok(variant(I, cty, w), oty)

    def apply(I, key, args):
        S = I.S
        oty = ret_ty(I, key)
        k = S.choose(4, 'kind of reply')
        f = variant(I, fr, 'OwnedBulk', B(S.fresh('reply'))) if k == 0 else variant(I, fr, 'Null') if k == 1 else \
            variant(I, fr, 'Array', Seq([])) if k == 2 else variant(I, fr, 'Array', Seq([Ref([variant(I, fr, 'Null')])]))
        if oty.p != 'core::result::Result':
            log.append(('result', 'ok', f))
            return f
        if S.fork('%s succeeds' % key.rsplit('::', 2)[0]):
            log.append(('result', 'ok', f))
            return I.ok(f, oty)
        e = B(S.fresh('error text'))
        log.append(('result', 'err', e))
        return I.err(Opq('error', None, v=e), oty)

    def snap(I, key, args):
        log.append(('snapshot', args))
        for a, t in zip(args, arg_tys(I, key)):
            I.drop_value(a, t)
        return I.unit()
    h = {rf: lambda I, key, args: Opq('fut', None, fk='read_frame', args=args), 'await:read_frame': read, ff: parse,
         cmdrun.one(P, 'server::cmd::syncsnapshot::SyncSnapshot::apply'): snap}
    for p in ('server::cmd::Read::apply', 'server::cmd::Write::apply', 'server::cmd::base::unknown::Unknown::apply'):
        h[cmdrun.one(P, p)] = apply
    return h, log


ALL = ('refused', 'Read', 'Write', 'Ping', 'Unknown', 'SyncSnapshot')


@rule('C07')
def connection_loop(I, rep):
    """each request of a connection gets exactly one reply, its own, and no error ends the connection"""
    P = I.P
    key = cmdrun.one(P, 'server::Handler::run')
    enc = encoder(I)
    fr = adt(I, FRAME)

    def run(S):
        h, log = request_world(I, 2, ALL)
        hd = I.mk(adt(I, 'server::Handler'), 'handler')

        def wr(I, v, oty, ev):
            ok = S.fork('write ok')
            log.append(('write', I.deref(v.a['args'][1]), ok))
            return I.ok(I.unit(), oty) if ok else I.err(Opq('ioerr'), oty)

        def part_wr(I, v, oty, ev):
            ok = S.fork('write ok')
            b, k = api.short_write(I, I.deref(v.a['args'][1]))
            log.append(('write', b, ok))
            return I.ok(k, oty) if ok else I.err(Opq('ioerr'), oty)
        ended = True
        h[cmdrun.one(P, FRAME + '::write')] = h_write
        with hooked(I).add(h).add({'await:write_all': wr, 'await:write': part_wr,
                                        'await:flush': lambda I, v, oty, ev: I.ok(I.unit(), oty)}):
            try:
                await_body(I, key, [hd])
            except Stop:
                ended = False
        i = 0
        rounds = []
        for e in log:
            if e[0] == 'read':
                rounds.append([])
                if e[1]:
                    rep.bad('a connection waits for its peer with a lock held', [key])
            else:
                rounds[-1].append(e)
        for n, r in enumerate(rounds):
            last = n == len(rounds) - 1
            what = next((e[0] for e in r if e[0] in ('closed', 'failed')), None)
            wrote = [e for e in r if e[0] == 'write']
            res = [e for e in r if e[0] == 'result']
            req = [e[1] for e in r if e[0] == 'request']
            if what:
                if wrote:
                    rep.bad('bytes are sent though no request came', [key])
                continue
            if not req:
                if not last:
                    rep.bad('a request is not looked at', [key])
                continue
            if req[0] == 'SyncSnapshot':
                if wrote:
                    rep.bad('a reply is mixed with a snapshot', [key])
                if not [e for e in r if e[0] == 'snapshot']:
                    rep.bad('a snapshot request is not served', [key])
                elif not last:
                    rep.bad('requests are read from a connection that serves a snapshot', [key])
                continue
            if len(req) > 1 or len(res) > 1:
                rep.bad('a request is carried out twice', [key], request=req[0])
                continue
            if not res:
                rep.bad('a request is not carried out', [key], request=req[0])
                continue
            if not wrote:
                rep.bad('a request gets no reply', [key], request=req[0])
                continue
            if not all(w[2] for w in wrote):
                continue
            f = res[0][2]
            if res[0][1] == 'err':
                f = variant(I, fr, 'OwnedError', f)
            with hooked(I).add({cmdrun.one(P, FRAME + '::write'): h_write}):
                want = I.deref(I.call_key(enc, [Ref([f])]))
            got = api.joined(I, [w[1] for w in wrote]) if all(type(w[1]) is B for w in wrote) else None
            if type(got) is not B or type(want) is not B:
                rep.undecided['bytes of a reply'] += 1
            elif not S.beq(got, want):
                rep.bad('a request is answered with another reply than its own', [key], request=req[0], got=repr(got), want=repr(want))
            if last and ended:
                rep.bad('the connection ends after a request that was answered', [key], request=req[0], error=res[0][1] == 'err')
    partitions(I, rep, run, 'requests of a connection')


def permits(log):
    """permits taken and not returned"""
    return sum({'take': 1, 'give': -1}.get(e[0], 0) for e in log)


def limit_hooks(log):
    def on(name):
        def h(I, ev):
            log.append((name,))
        return h
    return on


@rule('C26', 'C27')
def accept_loop(I, rep):
    """every accepted connection holds exactly one permit until it ends, and no connection ends the accept loop"""
    P = I.P
    key = cmdrun.one(P, 'server::Listener::run')
    seen = {'accepted': 0, 'served': 0}

    def run(S):
        h, clog = request_world(I, 1, ('Read', 'refused', 'SyncSnapshot'))
        h[cmdrun.one(P, FRAME + '::write')] = h_write
        S.limits['io_ok'] = False
        st = {'n': 0, 'fails': 0, 'acc': 0, 'tasks': [], 'pause': 0, 'ioerr': Opq('ioerr')}

        def balance():
            """permits held: taken for good, minus returned"""
            n = 0
            for e in S.ev:
                if e['k'] == 'permit_forget':
                    n += 1
                elif e['k'] == 'permit_release':
                    if type(e.get('n')) is not int:
                        raise Unsupported('number of returned permits')
                    n -= e['n']
            return n

        def accept(I, v, oty, ev):
            st['n'] += 1
            if balance() != st['acc'] + 1:
                rep.bad('a connection is accepted with %d permits taken for it instead of 1' % (balance() - st['acc']), [key])
                raise Stop()
            if st['acc'] >= 2 or st['fails'] > 9:
                raise Stop()
            if S.held:
                rep.bad('a lock is held while the server waits for connections', [key])
            if st['acc'] == 0 and st['fails'] == 0 and S.fork('many failures'):
                st['many'] = True
            if st.get('many') or st['acc'] == 1 and not st['fails'] and S.fork('one failure'):
                st['fails'] += 1
                return I.err(st['ioerr'], oty)
            st['acc'] += 1
            seen['accepted'] += 1
            return I.ok(I.mk(oty.a[0], S.fresh('accepted')), oty)

        def sleep(I, v, oty, ev):
            st['pause'] += 1
            return NotImplemented

        def spawn(I, k, v):
            st['tasks'].append(v)
        srv = I.mk(adt(I, 'server::Listener'), 'server')
        ended = True
        with hooked(I).add(h).add({'await:accept': accept, 'spawn': spawn, 'await:sleep': sleep}):
            try:
                r = I.val(await_body(I, key, [Ref([srv])]))
                if type(r) is Agg and r.ty is not None and r.ty.p == 'core::task::poll::Poll':
                    r = I.val(r.f[0])
            except Stop:
                ended = False
        if st.get('many'):
            if st['pause'] < 3:
                rep.bad('the server does not pause between failed accepts', [key])
            if ended and st['fails'] < 4:
                rep.bad('the server gives up after %d failed accepts' % st['fails'], [key])
            return
        if ended:
            rep.bad('the accept loop ends although accepting works' if not st['fails'] else 'one failed accept ends the accept loop', [key])
            return
        if len(st['tasks']) != st['acc']:
            rep.bad('%d connections were accepted and %d are served' % (st['acc'], len(st['tasks'])), [key])
            return
        if not st['tasks']:
            return
        # one task to its end
        b0 = balance()
        t = I.val(st['tasks'][0])
        with hooked(I).add(h):
            try:
                if type(t) is Agg and t.ty is not None and t.ty.k == 'coroutine':
                    I.call_key(t.ty.fn, [Ref([t]) if P.fns[t.ty.fn]['lty'][1].k == 'ref' else t, Opq('cx')])
                else:
                    raise Unsupported('task of a connection')
            except Stop:
                return 'skip'
        d = b0 - balance()
        seen['served'] += 1
        if d != 1:
            rep.bad('a connection that ended returned %d permits instead of 1' % d, [t.ty.fn],
                    how=[e[0] if e[0] != 'request' else e for e in clog])
    partitions(I, rep, run, 'accepted connections', 20000)
    if not rep.undecided and not (seen['accepted'] and seen['served']):
        rep.undecided['no connection was followed to its end'] += 1
    rep.counts['connections followed to their end'] += seen['served']


# ------------------------------------------------------------------------------------------- framing
LINE = frozenset(b'\r\n')


def int_text(I, n):
    import api
    return api.display(I, n)


def cat(S, *ps):
    out = []
    for p in ps:
        if type(p) is B:
            out += list(p.p)
        elif p:
            out.append(p)
    return S.bnorm(B(*out))


def bulk(I, x):
    return cat(I.S, b'$', int_text(I, I.S.blen(x)), b'\r\n', x, b'\r\n')


def is_clean(S, b):
    for p in S.bnorm(b).p:
        if type(p) is bytes:
            if LINE & set(p):
                return False
        elif S.bclass.get(p) == 'int':
            continue
        elif not LINE <= (S.data.get('clean') or {}).get(p, frozenset()):
            return False
    return True


PAYLOAD = {'Simple': 'simple', 'OwnedSimple': 'simple', 'OwnedStringSimple': 'simple', 'Bulk': 'bulk', 'OwnedBulk': 'bulk',
           'Error': 'error', 'OwnedError': 'error'}


@rule('C08')
def reply_framing(I, rep):
    """each kind of reply is encoded as exactly one RESP value with its payload intact"""
    key = encoder(I)
    fr = adt(I, FRAME)

    def build(S, name, d):
        """frame of a kind with unknown content, and the encodings that are right for it"""
        v = next(v for v in fr.v if v[0] == name)
        if name in PAYLOAD:
            b = B(S.fresh('payload'))
            if S.fork('payload of %s without line ends' % name):
                S.data.setdefault('clean', {})[b.p[0]] = LINE
            x = Ref([b]) if v[2][0][1].k == 'ref' else b
            f = variant(I, fr, name, x)
            k = PAYLOAD[name]
            if k == 'bulk':
                return f, lambda: [bulk(I, b)]
            if k == 'simple':
                return f, lambda: ([cat(S, b'+', b, b'\r\n')] if is_clean(S, b) else []) + [bulk(I, b)]
            return f, ('error', b)
        if name == 'Integer':
            n = S.atom(S.fresh('n'), -2**63, 2**63 - 1)
            return variant(I, fr, name, n), lambda: [cat(S, b':', int_text(I, n), b'\r\n')]
        if name in ('Null', 'Ping', 'Pong', 'NoRes'):
            return variant(I, fr, name), lambda: [B({'Null': b'$-1\r\n', 'Ping': b'+PING\r\n', 'Pong': b'+PONG\r\n'}[name])
                                                  if name != 'NoRes' else B()]
        if name == 'Array':
            n = S.choose(3 if not d else 2, 'elements')
            xs = [build(S, ('Bulk', 'Null', 'Array', 'Integer')[S.choose(4 if not d else 2, 'element')], d + 1) for _ in range(n)]

            def wants():
                out = [cat(S, b'*%d\r\n' % n)]
                for _, enc in xs:
                    out = [cat(S, a, b) for a in out for b in enc()]
                return out
            return variant(I, fr, name, Seq([Ref([x[0]]) for x in xs])), wants
        return None, None

    for v in fr.v:
        def run(S, v=v):
            f, want = build(S, v[0], 0)
            if f is None:
                rep.undecided['encoding of the frame %s' % v[0]] += 1
                return 'skip'
            got = I.deref(I.call_key(key, [Ref([f])]))
            if type(got) is not B:
                raise Unsupported('encoded frame')
            got = S.bnorm(got)
            if type(want) is tuple:
                # '-' text '\r\n', the text being the payload wherever that is possible
                b = want[1]
                n = S.blen(got)
                mid = models.slice_of(I, got, 1, lin_add(n, -2)) if S.ge0(lin_add(n, -3)) else B()
                ok = S.beq(got, cat(S, b'-', mid, b'\r\n')) and is_clean(S, mid)
                if not ok:
                    rep.bad('an error reply is not one line', [key], got=repr(got))
                elif is_clean(S, b) and not S.beq(mid, b):
                    rep.bad('the text of an error is not sent as it is', [key], got=repr(got))
                return
            want = want()
            if not any(S.beq(got, w) for w in want):
                rep.bad('a reply of kind %s is not encoded as one RESP value with its content' % v[0], [key], got=repr(got), want=repr(want[0]))
        partitions(I, rep, run, 'reply ' + v[0], 4000)


def request_frames(I, S, name, d):
    """(parts of the encoding, judge(frame) -> bool)"""
    def isb(kinds, b):
        def j(f):
            f = I.deref(f)
            if f.vn() not in kinds:
                return False
            x = I.deref(I.force(f.f, 0))
            return type(x) is B and S.beq(x, b)
        return j
    if name == 'bulk':
        b = B(S.fresh('data'))
        return [b'$', int_text(I, S.blen(b)), b'\r\n', b, b'\r\n'], isb(('Bulk', 'OwnedBulk'), b)
    if name in ('simple', 'error'):
        b = B(S.fresh('line'))
        S.data.setdefault('clean', {})[b.p[0]] = LINE
        if name == 'error':
            S.assume_range(S.blen(b), 1, INF)
            return [b'-', b, b'\r\n'], isb(('Error', 'OwnedError'), b)
        return [b'+', b, b'\r\n'], isb(('Simple', 'OwnedSimple', 'OwnedStringSimple'), b)
    if name == 'int':
        n = S.atom(S.fresh('n'), -2**63, 2**63 - 1)

        def ji(f):
            f = I.deref(f)
            return f.vn() == 'Integer' and S.eq0(lin_add(I.force(f.f, 0), n, -1))
        return [b':', int_text(I, n), b'\r\n'], ji
    if name in ('nil', 'nilarray'):
        n = S.atom(S.fresh('n'), -2**63, -1)
        return [b'$' if name == 'nil' else b'*', int_text(I, n), b'\r\n'], lambda f: I.deref(f).vn() == 'Null'
    if name == 'ping':
        return [b'PING\r\n'], lambda f: I.deref(f).vn() == 'Ping'
    if name == 'array':
        n = S.choose(2 if d else 3, 'elements')
        kinds = ('bulk', 'int', 'array') if not d else ('bulk', 'nil')
        xs = [request_frames(I, S, kinds[S.choose(len(kinds), 'element')], d + 1) for _ in range(n)]

        def ja(f):
            f = I.deref(f)
            if f.vn() != 'Array':
                return False
            items = models.materialize(I, models.as_seq(I, I.force(f.f, 0)))
            return len(items) == n and all(j(x) for x, (_, j) in zip(items, xs))
        return [b'*%d\r\n' % n] + [p for ps, _ in xs for p in ps], ja
    raise KeyError(name)


def parser(I):
    return cmdrun.one(I.P, 'common::connection::parse::frame::parse')


def parsed(I, S, key, b):
    """('frame', n, frame) | ('more',) | ('error',)"""
    r = I.val(I.call_key(key, [Ref([b])]))
    if r.vn() == 'Err':
        return ('error',)
    o = I.val(r.f[0])
    if o.vn() == 'None':
        return ('more',)
    t = I.val(o.f[0])
    return 'frame', I.deref(I.force(t.f, 0)), I.force(t.f, 1)


@rule('C10')
def request_framing(I, rep):
    """a complete request is recovered exactly and with its exact length; part of one is never taken for one"""
    key = parser(I)
    for name in ('bulk', 'simple', 'error', 'int', 'nil', 'nilarray', 'ping', 'array'):
        def run(S, name=name):
            ps, j = request_frames(I, S, name, 0)
            b = cat(S, *ps)
            rest = B('following') if S.fork('followed by more') else B()
            r = parsed(I, S, key, cat(S, b, rest))
            if r[0] != 'frame':
                rep.bad('a complete %s is not recognised (%s)' % (name, r[0]), [key])
            elif not S.eq0(lin_add(r[1], S.blen(b), -1)):
                rep.bad('a %s is taken to be of another length than it has' % name, [key], got=repr(r[1]))
            elif not j(r[2]):
                rep.bad('a %s is read with another content than it has' % name, [key], got=repr(I.deref(r[2])))
        partitions(I, rep, run, 'complete request: ' + name, 6000)

        def cut(S, name=name):
            ps, j = request_frames(I, S, name, 0)
            ps = [q for p in ps for q in ([p] if type(p) is bytes else S.bnorm(p).p)]
            k = S.choose(len(ps), 'cut in part')
            p = ps[k]
            if type(p) is bytes:
                at = S.choose(len(p), 'cut at')
                pre = ps[:k] + [p[:at]]
            else:
                part = S.fresh('part')
                S.assume_range(lin_add(S.symlen(p), S.symlen(part), -1), 1, INF)
                S.assume_range(S.symlen(part), 1, INF)
                if S.bclass.get(p):
                    S.bclass[part] = 'int'
                if p in (S.data.get('clean') or {}):
                    S.data['clean'][part] = S.data['clean'][p]
                pre = ps[:k] + [part]
            r = parsed(I, S, key, cat(S, *[B(x) if type(x) is str else x for x in pre]))
            if r[0] != 'more':
                rep.bad('part of a %s is %s' % (name, 'refused' if r[0] == 'error' else 'taken for a request'), [key],
                        cut=repr(pre)[:160])
        partitions(I, rep, cut, 'partial request: ' + name, 8000)

    bad = [b'$abc\r\n', b'*abc\r\n', b':x1\r\n', b':\r\n', b'$\r\n', b'*\r\n', b'*1\r\n?\r\n', b'?\r\n', b'$99999999999999999999\r\n',
           b'$3\r\nabcde\r\n', b'PONG\r\n']
    for w in bad:
        def junk(S, w=w):
            r = parsed(I, S, key, B(w))
            if r[0] == 'frame':
                rep.bad('a malformed request is taken for a request', [key], bytes=w.decode())
            elif r[0] == 'more':
                rep.bad('the server waits for more of a malformed request', [key], bytes=w.decode())
        partitions(I, rep, junk, 'malformed request', 400)


DEEP = 300


@rule('C10')
def bounded_parsing(I, rep):
    """what a request declares neither deepens the recursion nor sizes an allocation without bound"""
    key = parser(I)

    def deep(S):
        S.limits['depth'] = 1500
        r = I.val(I.call_key(key, [Ref([B(b'*1\r\n' * DEEP)])]))
        if [e for e in S.ev if e['k'] == 'deep']:
            rep.bad('nested requests recurse without bound', [key])
        elif r.vn() != 'Err':
            rep.bad('a request nested %d deep is not refused' % DEEP, [key])
    out = []

    def guarded(S):
        try:
            return deep(S)
        except PathEnd as e:
            if 'depth' in str(e.why):
                rep.bad('nested requests recurse without bound', [key])
                return
            raise
    partitions(I, rep, guarded, 'deeply nested request', 50, limits={'steps': 4000000})

    for lead in (b'*', b'$', b'*2\r\n$1\r\na\r\n*', b'*3\r\n*'):
        def size(S, lead=lead):
            n = S.atom('declared', 100000, 2**63 - 1)
            b = cat(S, lead, int_text(I, n), b'\r\n')
            r = parsed(I, S, key, b)
            for e in S.ev:
                if e['k'] in ('capacity', 'alloc'):
                    lo, hi = S.bounds(e['n']) if type(e['n']) is Lin else (e['n'], e['n'])
                    if hi > 65536:
                        rep.bad('an allocation is sized by a number the request declares', [key], size=repr(e['n']))
            if r[0] == 'frame':
                rep.bad('a request that only declares its size is taken for complete', [key])
        partitions(I, rep, size, 'request that declares a size', 400)


@rule('C10')
def reading(I, rep):
    """however the bytes of the requests of a connection arrive, each is parsed from exactly its first byte"""
    P = I.P
    key = cmdrun.one(P, 'common::connection::Connection::read_frame')
    pk = parser(I)
    fr = adt(I, FRAME)

    def run(S):
        nk = cmdrun.one(P, 'common::connection::Connection::new')
        conn = Ref([I.call_key(nk, [I.mk(arg_tys(I, nk)[0], 'socket')])])
        st = {'pend': B(), 'calls': 0, 'reads': 0, 'eof': False, 'frame': None, 'stale': False}

        def pend():
            return st['pend']

        def parse(I, k, args):
            b = S.bnorm(I.deref(args[0]))
            st['calls'] += 1
            if st['calls'] > 6:
                raise PathEnd('cut', 'parse attempts', S.site(), ())
            want = pend()
            if not (b.p == want.p or S.beq(b, want)):
                rep.bad('a request is not parsed from exactly the bytes that came after the one before', [key], got=repr(b), want=repr(want))
            oty = ret_ty(I, pk)
            n = S.blen(want)
            w = ('more', 'error', 'frame')[S.choose(3, 'parse %d' % st['calls'])]
            st['stale'] = False
            if w == 'frame':
                m = S.atom(S.fresh('length'), 1, INF)
                if not S.ge0(lin_add(n, -1)):
                    raise Infeasible()
                S.assume_range(lin_add(n, m, -1), 0, INF)
                st['frame'] = B(S.fresh('frame'))
                st['pend'] = S.bnorm(models.slice_of(I, want, m, n))
                t = oty.a[0].a[0]
                f = Agg(fr, [x[0] for x in fr.v].index('OwnedBulk'), [st['frame']])
                return I.ok(I.some(Agg(t, 0, [m, f]), oty.a[0]), oty)
            if w == 'error':
                st['err'] = True
                return I.err(Opq('error', None, v=B(S.fresh('errtext'))), oty)
            return I.ok(I.none(oty.a[0]), oty)

        def read(I, v, oty, ev):
            st['reads'] += 1
            if st['reads'] > 4:
                raise PathEnd('cut', 'reads', S.site(), ())
            w = ('data', 'end', 'failed')[S.choose(3, 'read %d' % st['reads'])]
            if w == 'failed':
                st['err'] = True
                return I.err(Opq('ioerr'), oty)
            if w == 'end':
                st['eof'] = True
                return I.ok(0, oty)
            x = B(S.fresh('chunk'))
            S.assume_range(S.blen(x), 1, INF)
            r = v.a['args'][1]
            while type(r.c[r.i]) is Ref:
                r = r.c[r.i]
            r.c[r.i] = cat(S, models.as_bytes(I, r.c[r.i]) if hasattr(models, 'as_bytes') else r.c[r.i], x)
            st['pend'] = cat(S, st['pend'], x)
            st['stale'] = True
            return I.ok(S.blen(x), oty)
        with hooked(I).add({pk: parse, 'await:read_buf': read}):
            for k in range(2):
                st['frame'], st['err'] = None, False
                r = I.val(await_body(I, key, [conn]))
                if type(r) is Agg and r.ty is not None and r.ty.p == 'core::task::poll::Poll':
                    r = I.val(r.f[0])
                if r.vn() == 'Err':
                    if st['eof'] and not st['err'] and S.eq0(S.blen(pend())):
                        rep.bad('a connection that ends between requests is reported as broken', [key])
                    elif not st['err'] and not st['eof']:
                        rep.bad('reading fails though nothing failed', [key])
                    return
                if st['err']:
                    rep.bad('a failed read or malformed request is not reported', [key])
                    return
                o = I.val(r.f[0])
                if o.vn() == 'None':
                    if not st['eof']:
                        rep.bad('a connection is taken to have ended though it has not', [key])
                    elif not S.eq0(S.blen(pend())):
                        rep.bad('a connection that ends within a request is taken to have ended properly', [key])
                    return
                f = I.deref(o.f[0])
                if st['frame'] is None or not S.beq(I.deref(f.f[0]), st['frame']):
                    rep.bad('another request is returned than the one that was parsed', [key])
                    return
    partitions(I, rep, run, 'requests read from a connection', 20000)


# ------------------------------------------------------------------------------------------- snapshots for replicas
SLOTS = 16384


def returned_permits(S):
    n = 0
    for e in S.ev:
        if e['k'] == 'permit_forget':
            n -= 1
        elif e['k'] == 'permit_release':
            if type(e.get('n')) is not int:
                raise Unsupported('number of returned permits')
            n += e['n']
    return n


@rule('C32', 'C26')
def snapshot_request(I, rep):
    """a snapshot sends each requested slot that is held, whole and under its lock, and then its end; the server goes on"""
    P = I.P
    key = cmdrun.one(P, 'server::cmd::syncsnapshot::SyncSnapshot::apply')
    hty = adt(I, 'server::Handler')
    seen = {'parent': 0, 'child': 0}

    def run(S):
        S.limits['io_ok'] = False
        hd = I.val(I.mk(hty, 'handler'))
        db = Ref([fty(I, hd, 'db::Db')])
        ini = Ref([I.val(judge.initial(I))])
        n = models.length(I, judge.slots_of(I, db))
        req = I.mk(arg_tys(I, key)[0], 'request')
        S.assume_range(n, 0, SLOTS)
        want = plain(I, req, 'usize')
        every = S.fork('all slots requested')
        if every:
            S.assume_range(want, SLOTS, SLOTS)
        elif S.eq0(lin_add(want, -SLOTS)):
            raise Infeasible()
        who = None
        with hooked(I).add({k: (lambda I, key, args: I.unit()) for k in P.fns if k == 'db::child_process::add'}):
            try:
                I.call_key(key, [req, hd])
            except PathEnd as e:
                if e.kind != 'exit':
                    raise
                who = 'child'
        for k, sv in slot_values(I, db):
            S.assume_range(lin_add(plain(I, sv, 'usize'), k, -1), 0, 0)
        fk = [e for e in S.ev if e['k'] == 'fork']
        sent = [e for e in S.ev if e['k'] in ('serialize', 'write')]
        if len(fk) > 1:
            rep.bad('a snapshot forks more than once', [key])
        if not fk:
            if sent:
                rep.bad('a snapshot is written by the server itself', [key])
            if who:
                rep.bad('a snapshot request ends the server', [key])
            if any(e['k'] == 'stream_failed' for e in S.ev):
                pass
            elif every or S.ge0(lin_add(lin_add(n, want, -1), -1)):
                rep.bad('a snapshot of slots that exist is not sent', [key])
        elif fk[0]['who'] == 'child':
            seen['child'] += 1
            if not who:
                rep.bad('the snapshot process goes on as a second server', [key])
            return child(S, db, fk[0], sent, want, every, n)
        else:
            seen['parent'] += 1
            if who:
                rep.bad('a snapshot request ends the server', [key])
            if sent:
                rep.bad('a snapshot is written by the server itself', [key])
        if S.held:
            rep.bad('a lock is still held after a snapshot was started', [key])
        if returned_permits(S) != 1:
            rep.bad('a connection that served a snapshot returns %d permits instead of 1' % returned_permits(S), [key])

    def child(S, db, fk, sent, want, every, n):
        if any(e['k'] == 'leaves_reactor' for e in S.ev[S.ev.index(fk):]):
            rep.bad('the snapshot process takes the stream out of the reactor it shares with the server, which is closing '
                    'it: if the server is first, the snapshot fails', [key])
        if not every and not S.ge0(lin_add(lin_add(n, want, -1), -1)):
            rep.bad('a snapshot of a slot that does not exist is sent', [key])
            return
        sv = slot_values(I, db)
        if every and len([h for h in fk['held']]) < len(sv) or not every and not fk['held']:
            rep.bad('a slot is sent though its lock was not held when the snapshot process started', [key])
        todo = []
        for k, s in sv:
            if every or S.eq0(lin_add(k, want, -1)):
                if spec.find_dict(I, Ref([s])) is not None:
                    todo.append((k, judge.memdict(I, Ref([s]))))
        if any(e['k'] == 'write' for e in sent):
            rep.undecided['bytes written into a snapshot'] += 1
            return
        i = 0
        for e in sent:
            v = I.deref(e['v'])
            what = 'id' if i < 2 * len(todo) and i % 2 == 0 else 'dict' if i < 2 * len(todo) else 'end'
            if i > 2 * len(todo):
                rep.bad('something follows the end of a snapshot', [key])
                return
            isopt = type(v) is Agg and v.ty is not None and v.ty.p == 'core::option::Option' and v.ty.a[0].s == 'u16'
            if what == 'dict':
                if not (type(v) is Agg and v is I.deref(Ref([todo[i // 2][1]])) or v is todo[i // 2][1]):
                    rep.bad('another thing than the dictionary of its slot follows the number of a slot', [key], got=repr(v)[:80])
            elif not isopt:
                rep.bad('a snapshot is not made of slot numbers, dictionaries and an end', [key], got=repr(v)[:80], at=what)
                return
            elif what == 'end':
                if v.vn() != 'None':
                    rep.bad('a slot is sent that is not held or was not asked for, or twice', [key])
            elif v.vn() != 'Some':
                rep.bad('a snapshot ends before every held slot was sent', [key])
                return
            elif not S.eq0(lin_add(I.force(v.f, 0), todo[i // 2][0], -1)):
                rep.bad('a dictionary is sent under the number of another slot', [key])
            if e.get('ok') is False:
                if e is not sent[-1]:
                    rep.bad('a snapshot goes on after a part of it was lost', [key])
                return
            i += 1
        if i != 2 * len(todo) + 1 and not any(e['k'] == 'stream_failed' for e in S.ev):
            rep.bad('a snapshot has no end' if i == 2 * len(todo) else 'a held slot is missing from a snapshot', [key])
    partitions(I, rep, run, 'snapshot request', 20000)
    if not rep.undecided and not (seen['parent'] and seen['child']):
        rep.undecided['one side of the snapshot was not followed'] += 1
