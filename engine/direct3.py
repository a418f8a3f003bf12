"""Direct analyses: layouts on the wire, replication links, the placement driver, configuration."""
import collections
import re

import cmdrun
import direct2
import judge
import models
import spec
from core import *
from direct import (Stop, arg_tys, await_body, big, by_type, bysig, entry_parts, fget, find, fnamed, fields, fty, index_of, mkdb,
                    now, partitions, plain, rehook, rule, slot_values, unhook, walk, where)
from direct2 import FRAME, SLOTS, adt, encoder, hooked, int_text, ret_ty, text_of, variant
from models import Map, Seq, Seg


# ------------------------------------------------------------------------------------------- layouts
def norm_ty(s):
    s = re.sub(r"<'[a-z_]+>", '', s)
    s = re.sub(r"'[a-z_]+,? ?", '', s)
    while s.startswith('&'):
        s = s[1:].removeprefix('mut ')
    return s


class Layouts:
    """what the serialisation code of each type writes and reads"""

    def __init__(self, P):
        self.ser, self.de, self.fns = {}, {}, {}
        for p in P.poly:
            self.fns[p['path']] = p
        for path, p in self.fns.items():
            tr = p.get('tr') or ''
            if not p.get('self') or '__' in p['self'].split('<')[0]:
                continue
            if 'ser::Serialize>' in tr and path.endswith('::serialize'):
                self.ser[norm_ty(p['self'])] = p
            elif 'de::Deserialize<' in tr and path.endswith('::deserialize'):
                self.de[norm_ty(p['self'])] = p

    def written(self, t):
        """list of ('field', type) for structs, or ('variant', kind, [types]) for enums; None when not understood"""
        out, kind = [], None
        odd = []
        for name, ta, args in self.ser[t]['calls']:
            m = name.rsplit('::', 1)[-1]
            tr = name.split('::')[-2] if '::' in name else ''
            if not name.startswith('serde::'):
                if tr in ('Try', 'FromResidual', 'IntoIterator'):
                    continue
                odd.append(name)
                continue
            ty = norm_ty(ta[1]) if len(ta) > 1 else None
            if tr == 'Serializer' and m in ('serialize_struct', 'serialize_tuple_struct', 'serialize_newtype_struct', 'serialize_unit_struct',
                                            'serialize_tuple'):
                kind = 'struct'
                if m == 'serialize_newtype_struct':
                    out.append(('field', ty))
            elif tr in ('SerializeStruct', 'SerializeTupleStruct', 'SerializeTuple') and m in ('serialize_field', 'serialize_element'):
                out.append(('field', ty))
            elif m == 'skip_field':
                out.append(('skip', args[1] if len(args) > 1 and type(args[1]) is str else '?'))
            elif tr == 'Serializer' and m.endswith('_variant'):
                kind = 'enum'
                out.append(('variant', m[len('serialize_'):-len('_variant')], [ty] if m == 'serialize_newtype_variant' else [],
                            [a for a in args if type(a) is str and a.endswith('_u32')]))
            elif tr in ('SerializeTupleVariant', 'SerializeStructVariant') and m == 'serialize_field':
                out[-1][2].append(ty)
            elif m == 'end':
                pass
            else:
                odd.append(name)
        return kind, out, odd

    def read(self, t):
        d = self.de[t]
        out, kind, odd = [], None, []
        for name, ta, args in d['calls']:
            m = name.rsplit('::', 1)[-1]
            if m in ('deserialize_struct', 'deserialize_newtype_struct', 'deserialize_tuple_struct', 'deserialize_unit_struct',
                     'deserialize_tuple'):
                kind = 'struct'
            elif m == 'deserialize_enum':
                kind = 'enum'
            else:
                odd.append(name)
        base = d['path']
        mine = {k: p for k, p in self.fns.items() if base in k and k != base}

        def seq(p):
            return [('field', norm_ty(ta[1])) for name, ta, args in p['calls'] if name.endswith('SeqAccess::next_element')]
        if kind == 'struct':
            for k, p in mine.items():
                if k.endswith('::visit_seq') and '__Visitor' in k and k.count(' as ') == 1:
                    out = seq(p)
                    break
            else:
                for k, p in mine.items():
                    if k.endswith('::visit_newtype_struct'):
                        out = [('field', norm_ty(ta[0])) for name, ta, args in p['calls'] if name.endswith('Deserialize::deserialize')]
        elif kind == 'enum':
            nested = [p for k, p in self.fns.items() if base in k and k.endswith('::visit_seq') and '::visit_enum::' in k]
            ni = iter(nested)
            for k, p in mine.items():
                if k.endswith('::visit_enum'):
                    for name, ta, args in p['calls']:
                        m = name.rsplit('::', 1)[-1]
                        if 'VariantAccess' not in name or not m.endswith('_variant'):
                            continue
                        w = m[:-len('_variant')]
                        if w in ('tuple', 'struct'):
                            q = next(ni, None)
                            out.append(('variant', w, [x[1] for x in seq(q)] if q else None))
                        else:
                            out.append(('variant', w, [norm_ty(ta[1])] if w == 'newtype' else []))
        return kind, out, odd


def bincode_uses(P):
    """(function, 'w' or 'r', type, site) for every value encoded or decoded by workspace code"""
    out = []
    for k, fn in P.fns.items():
        for b in fn.get('blocks') or ():
            t = b['t']
            if t[0] != 'call' or type(t[1]) is not dict or not str(t[1].get('d', '')).startswith('bincode::'):
                continue
            m = t[1]['d'].rsplit('::', 1)[-1]
            if not t[1].get('a'):
                continue
            w = 'w' if m.startswith('serialize') and m != 'serialized_size' else 'r' if m.startswith('deserialize') else None
            if w:
                out.append((k, w, norm_ty(fn['tm'][t[1]['a'][-1]].s), t[5] if len(t) > 5 and type(t[5]) is str else ''))
    return out


def callgraph(P):
    """instance -> instances it calls or creates closures of"""
    g = collections.defaultdict(set)
    for k, fn in P.fns.items():
        if '::{closure' in k:
            g[k.rsplit('::{closure', 1)[0]].add(k)
        for b in fn.get('blocks') or ():
            t = b['t']
            if t[0] == 'call' and type(t[1]) is dict:
                g[k].add(t[1].get('i'))
                g[k].add(t[1].get('r'))
    return g


@rule('C21', 'C31')
def layouts(I, rep):
    """every type that crosses the wire is written completely and read by the very layout it was written by"""
    P = I.P
    L = Layouts(P)
    for t in sorted(set(L.ser) & set(L.de)):
        ks, ws, o1 = L.written(t)
        kr, rs, o2 = L.read(t)
        where = [L.ser[t]['path'], L.de[t]['path']]
        rep.functions.update(where)
        if not ks or not kr or o1 or o2:
            rep.undecided['layout of %s: %s' % (t, (o1 + o2)[:2] or 'not derived')] += 1
            continue
        rep.counts['types compared'] += 1
        if ks != kr:
            rep.bad('%s is written as a %s and read as a %s' % (t, ks, kr), where)
            continue
        if any('__SerializeWith' in str(x) or '__DeserializeWith' in str(x) or 'PhantomData' in str(x) for x in ws + rs):
            rep.undecided['layout of %s: conversions of its own' % t] += 1
            continue
        decl = [x for x in P.types.values() if x.k == 'adt' and x.v and norm_ty(x.s) == t]
        if ks == 'struct':
            w = [x[1] for x in ws if x[0] == 'field']
            r = [x[1] for x in rs]
            rep.counts['fields compared'] += len(w)
            skip = [x[1] for x in ws if x[0] == 'skip']
            if skip:
                rep.bad('a field of %s is not always written' % t, where, field=skip[0])
            elif w != r:
                rep.bad('%s is not read by the layout it is written by' % t, where, written=w, read=r)
            elif decl:
                n = len([f for f in decl[0].v[0][2] if 'PhantomData' not in f[1].s and f[1].s != '()'])
                if n > len(w):
                    d = [norm_ty(f[1].s) for f in decl[0].v[0][2]]
                    rep.bad('a field of %s is lost when it is written' % t, where, declared=d, written=w)
        else:
            w = sorted((x[1], tuple(x[2])) for x in ws)
            r = sorted((x[1], tuple(x[2] or ())) for x in rs)
            rep.counts['variants compared'] += len(w)
            ix = [x[3] for x in ws]
            if w != r:
                rep.bad('%s is not read by the layout it is written by' % t, where, written=w, read=r)
            elif len({str(i) for i in ix}) != len(ix):
                rep.bad('two variants of %s are written under the same number' % t, where)
            elif decl and len(decl[0].v) > len(w):
                rep.bad('a variant of %s cannot be written' % t, where)
            elif [i[0] for i in ix if i] != ['%d_u32' % n for n in range(len(ix))]:
                rep.bad('the variants of %s are written under other numbers than they are read by' % t, where)
    # both ends of each exchange
    uses = bincode_uses(P)

    def at(d, *paths):
        """types written or read by the functions below these paths"""
        return {t: k for k, w, t, s in uses if w == d and any(p in k for p in paths)}

    g = callgraph(P)

    def wide(d, paths):
        """the same for everything these functions call"""
        todo = [k for k in P.fns if any(p in k for p in paths)]
        seen = set(todo)
        while todo:
            for y in g.get(todo.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return {t for k, w, t, s in uses if w == d and k in seen}

    def ends(what, writer, reader, prefix=False):
        a, b = at('w', *writer), at('r', *reader)
        wa, wb = wide('w', writer), wide('r', reader)
        where = sorted(set(a.values()) | set(b.values()))
        rep.functions.update(where)
        if not wa or not wb:
            rep.undecided['%s: %s not found' % (what, 'writer' if not a else 'reader')] += 1
            return
        rep.counts['exchanges compared'] += 1
        for t in a:
            if t not in wb and not (prefix and prefix_of(t, wb)):
                rep.bad('%s: %s is written but never read' % (what, t), where, read=sorted(b))
        for t in b:
            if t not in wa and not (prefix and any(prefix_of(x, {t: 1}) for x in wa)):
                rep.bad('%s: %s is read but never written' % (what, t), where, written=sorted(a))

    def prefix_of(t, b):
        """the first thing written for t is a type the other side reads (what follows is ignored by it)"""
        if t not in L.ser:
            return False
        k, ws, odd = L.written(t)
        return k == 'struct' and bool(ws) and ws[0][0] == 'field' and ws[0][1] in b

    ends('snapshot', ('server::cmd::syncsnapshot',), ('db::pd_handle::replica::Inner::sync', 'db::pd_handle::replica::sync'))
    ends('replication', ('db::forward::connection',), ('db::pd_handle::replica::receive_cmd',))
    for a, b, what in (('init', 'server_init', 'registration'), ('heartbeat', 'server_heartbeat', 'heartbeat')):
        ends(what + ' request', ('db::pd_handle::PdHandle::%s' % a,), ('pd::cmd::%s' % b,))
        ends(what + ' reply', ('pd::cmd::%s' % b,), ('db::pd_handle::PdHandle::%s' % a,))
    ends('DUMP payload', ('dict::cmd::server::dump::',), ('dict::cmd::server::restore::',), True)


# ------------------------------------------------------------------------------------------- roles
PDH = 'db::pd_handle::PdHandle'


def replica_parts(I, task):
    """the state of the replication client, by the types of its parts"""
    d = {}

    def go(v, depth=5):
        v = I.deref(v) if type(v) is Ref else I.val(v)
        if type(v) is not Agg or v.ty is None or not v.ty.v or not v.ty.p.startswith('db::') or depth == 0:
            return
        for n, ty, x in fields(I, v):
            s = ty.s
            if 'Mutex' in s and 'LeaderInfo' in s:
                d['leader'] = I.deref(x).cell
            elif 'ArcSwap' in s:
                d['rx'] = I.deref(x).a['cell']
            elif 'Atomic<bool>' in s and 'Vec' in s:
                d['locks'] = I.deref(x)
            elif 'Atomic<bool>' in s:
                d['syncing'] = I.deref(x)
            elif 'Notify' in s:
                d['notify'] = I.deref(x)
            elif 'db::Db' in s:
                d['db'] = x
            else:
                go(x, depth - 1)
                continue
            d['inner'] = v
    go(task)
    for k in ('leader', 'rx', 'locks', 'syncing', 'notify', 'db'):
        if k not in d:
            raise Unsupported('state of the replication client: ' + k)
    return d


def static_value(I, name, path=None):
    """the value of a lazily made static"""
    for p, cell in I.S.statics.items():
        if p.split('::')[-1] == name and (path is None or path in p):
            v = I.val(cell[0])
            return I.force(v.a['cell'], 0) if type(v) is Opq and v.kind == 'lazy' else v
    return None


def flag_cells(I, p):
    """(position, flag) of the slot flags the code looked at"""
    seq = p['locks']
    return [(k, I.force(c, 0)) for k, c in judge.seg_cells(seq)] + [
        (n, I.deref(g)) for n, g in enumerate(x for x in seq.segs if type(x) is not Seg)]


def h_spawned(I, v):
    """what a spawned task is: by what it was given"""
    vs = walk(I, Ref([v]), 6)
    kinds = {x.kind for x in vs if type(x) is Opq}
    if kinds & {'tcp', 'bufreader'} and 'sender' in kinds:
        return 'receive'
    own = [I.deref(x) for x in v.f] if type(v) is Agg else []
    if any(type(x) is Opq and x.kind == 'receiver' for x in own):
        return 'apply'
    return 'snapshot'


@rule('C25')
def role_change(I, rep):
    """a server follows the leader it is told, wholly or not at all, and a leader follows nobody"""
    P = I.P
    hty, sty = adt(I, PDH), adt(I, 'common::pd_message::ServerStatus')
    key = bysig(P, PDH + '::update_status', '', ['PdHandle', 'ServerStatus'])
    seen = set()

    def run(S):
        h = I.val(I.mk(hty, 'h'))
        ini = I.val(I.mk(hty, 'h'))
        st = I.val(I.mk(sty, 'status'))
        new = I.val(I.mk(sty, 'status'))
        p = replica_parts(I, fget(I, h, lambda n, ty: 'replica' in ty.s))
        old = fget(I, ini, lambda n, ty: ty.s.endswith('ServerStatus'))
        lead = lambda s: fget(I, s, lambda n, ty: 'LeaderInfo' in ty.s)
        role = lambda s: I.val(fget(I, s, lambda n, ty: ty.s.endswith('ServerRole'))).vn()
        same = models.keq(I, lead(old), lead(new))
        r0, r1 = role(old), role(new)
        r = I.deref(I.call_key(key, [Ref([h]), st] if arg_tys(I, key)[0].k == 'ref' else [h, st]))
        ok = r.vn() == 'Ok'
        got = fget(I, h, lambda n, ty: ty.s.endswith('ServerStatus'))
        ev = S.ev
        closed = [i for i, e in enumerate(ev) if e['k'] == 'arcswap_store' and I.deref(e['v']).vn() == 'None']
        opened = [i for i, e in enumerate(ev) if e['k'] == 'arcswap_store' and I.deref(e['v']).vn() == 'Some']
        sp = {}
        for i, e in enumerate(ev):
            if e['k'] in ('spawn', 'spawn_blocking'):
                sp.setdefault(h_spawned(I, e['v']), []).append(i)
        w = where(I)[:6]
        what = dict(role='%s to %s' % (r0, r1), leader='same' if same else 'other')
        for l in S.held:
            rep.bad('a lock is still held after a change of role', w, **what)
        if r1 == 'Leader' or same:
            if sp or opened:
                rep.bad('a server that has no new leader to follow starts following', w, **what)
            if not ok:
                rep.bad('a change of role that needs nothing fails', w, **what)
            elif not models.keq(I, got, new):
                rep.bad('a server does not take over the state it was told', w, **what)
            if r1 == 'Leader' and r0 == 'Follower':
                if I.deref(I.force(p['rx'], 0)).vn() != 'None':
                    rep.bad('a server that became leader goes on applying the writes of its old leader', w, **what)
            elif r1 == 'Follower' and closed:
                rep.bad('a follower whose leader did not change stops following it', w, **what)
            return
        # a new leader to follow
        if not closed:
            rep.bad('a server that gets another leader goes on applying the writes of the old one', w, **what)
            return
        if not models.keq(I, I.force(p['leader'], 0), lead(new)):
            rep.bad('a server does not follow the leader it was told', w, **what)
        if sp.get('snapshot') and closed[0] > sp['snapshot'][0]:
            rep.bad('writes of the old leader may still be applied after the data of the new one', w, **what)
        full = bool(sp.get('snapshot')) and bool(sp.get('apply')) and bool(sp.get('receive')) and bool(opened)
        if ok:
            if not sp.get('snapshot'):
                rep.bad('a server that gets another leader does not fetch its data', w, **what)
            if not (sp.get('apply') and sp.get('receive') and opened):
                rep.bad('a server that gets another leader does not follow its writes', w, **what)
            if not models.keq(I, got, new):
                rep.bad('a server does not take over the state it was told', w, **what)
        else:
            if models.keq(I, got, new):
                rep.bad('a server that failed to follow its new leader reports that it does, so nothing is retried', w, **what)
        if sp.get('apply'):
            seen.add('followed')
            for _, c in flag_cells(I, p):
                seen.add('flag')
                if not S.eq0(lin_add(c.f[0], -1)):
                    rep.bad('writes of the new leader may be applied to a slot before its data came', w, **what)
            if I.deref(I.force(p['rx'], 0)).vn() == 'None':
                rep.bad('a server that gets another leader does not follow its writes', w, **what)
        fwd = [e for e in ev if e['k'] == 'connect']
        li = I.val(lead(new))
        for e in fwd:
            if li.vn() == 'None' or not models.keq(I, e['v'], fnamed(I, I.force(li.f, 0), 'forward_addr')):
                rep.bad('the writes of the leader are not fetched from its forward address', w, **what)
        # nothing failed: it has to succeed
        bad_io = [e for e in ev if e['k'] in ('connect', 'write') and e.get('ok') is False]
        busy = [e for e in ev if e['k'] == 'atomic_cas'] and not [e for e in ev if e['k'] == 'atomic_store' and e.get('cas')]
        if not ok and not bad_io and not busy and li.vn() == 'Some':
            rep.bad('a server refuses to follow its new leader', w, **what)
    partitions(I, rep, run, 'state told by the placement driver', 4000, panics=False)
    if 'followed' in seen and 'flag' not in seen:
        rep.bad('writes of the new leader may be applied to a slot before its data came', [key])


@rule('C25')
def heartbeat(I, rep):
    """a server registers under its own addresses, reports the state it has, and acts on every answer"""
    P = I.P
    hty, sty = adt(I, PDH), adt(I, 'common::pd_message::ServerStatus')
    fr = adt(I, 'common::connection::parse::frame::Frame')
    up = bysig(P, PDH + '::update_status', '', ['PdHandle', 'ServerStatus'])
    rf = cmdrun.one(P, 'common::connection::Connection::read_frame')
    wf = cmdrun.one(P, 'common::connection::Connection::write_frame')

    def world(S, log, reads):
        st = {'n': 0}

        def read(I, v, oty, ev):
            st['n'] += 1
            if st['n'] > reads:
                raise Stop()
            w = ('bulk', 'other', 'closed', 'failed')[S.choose(4, 'answer %d' % st['n'])]
            log.append(('answer', w))
            if w == 'failed':
                return I.err(Opq('error', None, v=B(S.fresh('errtext'))), oty)
            if w == 'closed':
                return I.ok(I.none(oty.a[0]), oty)
            f = variant(I, fr, 'Bulk', B('answer%d' % st['n'])) if w == 'bulk' else variant(I, fr, 'Null')
            return I.ok(I.some(f, oty.a[0]), oty)

        def write(I, v, oty, ev):
            log.append(('send',) + sent(S, I.deref(v.a['args'][1])))
            ok = S.fork('write ok')
            if not ok:
                log.append(('lost',))
            return I.ok(I.unit(), oty) if ok else I.err(Opq('ioerr'), oty)

        def update(I, key, args):
            log.append(('update', I.deref(args[1])))
            if S.fork('update ok'):
                return I.ok(I.unit(), ret_ty(I, key))
            log.append(('refused',))
            return I.err(Opq('error', None, v=B(S.fresh('errtext'))), ret_ty(I, key))
        return {rf: lambda I, key, args: Opq('fut', None, fk='read_frame', args=args), 'await:read_frame': read,
                wf: lambda I, key, args: Opq('fut', None, fk='write_frame', args=args), 'await:write_frame': write, up: update}

    def sent(S, f):
        """(name, value) of a request"""
        xs = models.materialize(I, I.deref(f.f[0])) if type(f) is Agg and f.vn() == 'Array' else []
        xs = [I.deref(x) for x in xs]
        if len(xs) != 2:
            return None, None
        b = [S.bnorm(I.deref(x.f[0])) for x in xs]
        d = S.adef.get(b[1].p[0]) if len(b[1].p) == 1 and type(b[1].p[0]) is str else None
        return (b[0].p[0] if len(b[0].p) == 1 and type(b[0].p[0]) is bytes else None), (d[1] if d and d[0] == 'ser' else None)

    init = bysig(P, PDH + '::init', '', ['PdHandle'])
    hb = bysig(P, PDH + '::heartbeat', '', ['PdHandle'])
    names = {}

    def beat(S):
        log = []
        h = I.val(I.mk(hty, 'h'))
        cur = fget(I, h, lambda n, ty: ty.s.endswith('ServerStatus'))
        ended = True
        with hooked(I).add(world(S, log, 2)):
            try:
                await_body(I, hb, [h])
            except Stop:
                ended = False
        de = [e for e in S.ev if e['k'] == 'deserialize']
        ups = [e for e in log if e[0] == 'update']
        k = 0
        for e in log:
            if e[0] == 'send':
                n, v = e[1:]
                if n is None or v is None:
                    rep.undecided['contents of a heartbeat'] += 1
                else:
                    names['heartbeat'] = n
                    if not models.keq(I, v, cur):
                        rep.bad('a server reports another state than it has', [hb])
        ticks = [e for e in S.ev if e['k'] == 'await' and e['what'] in ('tick', 'sleep')]
        if len([e for e in log if e[0] == 'send']) > len(ticks) :
            rep.bad('heartbeats are sent without a pause', [hb])
        told = []
        for d in de:
            if d['ok']:
                o = I.val(I.deref(d['out']))
                if o.ty.p == 'core::option::Option':
                    if o.vn() == 'Some':
                        told.append(I.force(o.f, 0))
        if len(told) != len(ups):
            rep.bad('a server does not act on the state it is told', [hb])
        for a, (_, b) in zip(told, ups):
            if not models.keq(I, a, b):
                rep.bad('a server acts on another state than it is told', [hb])
        if ended:
            bad = ('lost',) in log or any(e[0] == 'answer' and e[1] != 'bulk' for e in log) or any(not d['ok'] for d in de)
            if not bad:
                rep.bad('heartbeats end though the placement driver answers', [hb], refused=('refused',) in log)
        if S.held:
            rep.bad('a lock is held between heartbeats', [hb])

    def reg(S):
        log = []
        h = I.val(I.mk(hty, 'h'))
        pd = fget(I, h, lambda n, ty: ty.s.endswith('config::Pd'))
        with hooked(I).add(world(S, log, 1)):
            r = I.deref(await_body(I, init, [h]))
        req = [e for e in log if e[0] == 'send']
        if len(req) != 1:
            rep.bad('a server does not register exactly once', [init])
        for e in req:
            n, v = e[1:]
            v = I.val(I.deref(v)) if v is not None else None
            if n is None or v is None:
                rep.undecided['contents of a registration'] += 1
                continue
            names['init'] = n
            if not models.keq(I, fnamed(I, v, 'group_id'), fnamed(I, pd, 'group_id')):
                rep.bad('a server registers in another group than configured', [init])
            cfg = static_value(I, 'CONFIG')
            for f in ('server_addr', 'forward_addr'):
                if cfg is None or not models.keq(I, fnamed(I, v, f), fnamed(I, cfg, f)):
                    rep.bad('a server registers under another address than its own', [init], field=f)
        de = [e for e in S.ev if e['k'] == 'deserialize']
        ups = [e for e in log if e[0] == 'update']
        good = [d for d in de if d['ok']]
        if len(ups) != len(good):
            rep.bad('a registered server does not act on the state it is told', [init])
        for d, (_, b) in zip(good, ups):
            if not models.keq(I, I.deref(d['out']), b):
                rep.bad('a server acts on another state than it is told', [init])
        sp = [e for e in S.ev if e['k'] in ('spawn', 'spawn_blocking')]
        if good and not sp:
            rep.bad('a registered server sends no heartbeats', [init])
        for e in sp:
            v = I.val(e['v'])
            if not (type(v) is Agg and v.ty is not None and v.ty.k == 'coroutine'):
                rep.undecided['task started after registration'] += 1
        if not good and r.vn() == 'Ok':
            rep.bad('a failed registration is taken for a success', [init])
        if good and ('refused',) not in log and r.vn() != 'Ok':
            rep.bad('a registration that succeeded is reported as failed', [init])
    partitions(I, rep, beat, 'heartbeats')
    partitions(I, rep, reg, 'registration')


# ------------------------------------------------------------------------------------------- fetching data from the leader
INNER = 'db::pd_handle::replica::Inner'


def fresh_inner(I, slot=None):
    """an unknown replication client; its slot is within the table"""
    S = I.S
    inner = Ref([I.val(I.mk(adt(I, INNER), 'inner'))])
    p = replica_parts(I, inner)
    n = models.length(I, p['locks'])
    S.assume_range(n, 0, SLOTS)
    if slot is not None:
        S.assume_range(lin_add(n, slot, -1), 1, INF)
    return inner, p


def pos_of(I, p, cell):
    for k, c in flag_cells(I, p):
        if c is cell:
            return k
    return None


def run_task(I, v):
    """run a closure or coroutine that was handed to a runtime"""
    v = I.val(v)
    if type(v) is Agg and v.ty is not None and v.ty.k == 'coroutine':
        return I.call_key(v.ty.fn, [v, Opq('cx')])
    return I.call_fn(v, [])


@rule('C22')
def replica_start(I, rep):
    """a new replication client has one open slot per slot of the table, and follows and fetches nothing"""
    P = I.P
    key = bysig(P, 'db::pd_handle::replica::Task::new', 'pd_handle::replica::Task', ['Arc<db::Db'])

    def run(S):
        S.limits['bigrange'] = True
        task = I.call_key(key, [I.mk(arg_tys(I, key)[0], 'db')])
        p = replica_parts(I, Ref([task]))
        vec = p['locks']
        evs = [e for e in S.ev if e['k'] == 'bigrange']
        if evs or type(vec) is not Seq:
            big(I, S, rep, key, 'table of slot flags', vec)
        elif not S.eq0(lin_add(models.length(I, vec), -SLOTS)):
            rep.bad('the table of slot flags does not have one cell per slot', [key])
        for _, c in flag_cells(I, p):
            if not S.eq0(c.f[0]):
                rep.bad('a slot is closed to commands although nothing fetches its data', [key])
        if not S.eq0(p['syncing'].f[0]):
            rep.bad('a fetch is recorded as running although none is', [key])
        for n, what in (('rx', 'a replication stream'), ('leader', 'a leader')):
            v = I.val(I.force(p[n], 0))
            if type(v) is Opq:
                continue
            if v.vn() != 'None':
                rep.bad('a new replication client has %s' % what, [key])
        if any(e['k'] in ('spawn', 'send') for e in S.ev):
            rep.bad('a new replication client starts something', [key])
    partitions(I, rep, run, 'start of the replication client')


@rule('C22')
def fetch_data(I, rep):
    """a slot is closed while its data is fetched, opened only with the data in place, and never left closed"""
    P = I.P
    key = cmdrun.one(P, INNER + '::sync_snapshot')
    enc = encoder(I)
    fr = adt(I, FRAME)
    rd = cmdrun.one(P, 'db::Db::replace_dict')

    def run(S):
        slot = S.atom('slot', 0, SLOTS)
        every = S.fork('all slots')
        S.assume_range(slot, *((SLOTS, SLOTS) if every else (0, SLOTS - 1)))
        inner, p = fresh_inner(I, None if every else slot)

        def request(kind, arg):
            f = variant(I, fr, 'Array', Seq([Ref([variant(I, fr, 'Bulk', bconst(b'syncsnapshot'))]), Ref([variant(I, fr, kind, arg)])]))
            return S.bnorm(I.deref(I.call_key(enc, [Ref([f])])))
        as_integer = request('Integer', slot)
        ld = I.force(p['leader'], 0)
        ini = I.val(ld)
        sy0 = p['syncing'].f[0]
        r = I.val(I.call_key(key, [inner, slot]))
        ok = r.vn() == 'Ok'
        sp = [e for e in S.ev if e['k'] in ('spawn', 'spawn_blocking')]
        stores = [e for e in S.ev if e['k'] == 'atomic_store' and pos_of(I, p, e['cell']) is not None]
        busy = S.eq0(lin_add(sy0, -1))
        if busy:
            if sp or ok:
                rep.bad('data is fetched twice at the same time', [key])
            if stores:
                rep.bad('a fetch that is refused changes which slots are closed', [key])
            if not S.eq0(lin_add(p['syncing'].f[0], -1)):
                rep.bad('a fetch that is refused lets the next one in', [key])
            return
        if not ok or len(sp) != 1:
            rep.bad('data is not fetched though nothing else is being fetched', [key])
            return
        if not S.eq0(lin_add(p['syncing'].f[0], -1)):
            rep.bad('data can be fetched twice at the same time', [key])
        if every:
            for k, c in flag_cells(I, p):
                seen.add('flags')
                if not S.eq0(lin_add(c.f[0], -1)):
                    rep.bad('a slot stays open while its data is fetched', [key])
            if not S.eq0(lin_add(models.length(I, p['locks']), -len(flag_cells(I, p)))):
                rep.bad('a slot stays open while its data is fetched', [key])
        elif not any(S.eq0(lin_add(k, slot, -1)) and S.eq0(lin_add(c.f[0], -1)) for k, c in flag_cells(I, p)):
            rep.bad('a slot stays open while its data is fetched', [key])
        n0 = len(S.ev)
        def replaced(I, k, args):
            S.log('replaced', slot=args[1], d=args[2])
            return I.unit()

        def valid(I, ev):
            # a leader sends the numbers of its slots
            o = I.val(I.deref(ev['out']))
            if o.ty.p == 'core::option::Option' and o.vn() == 'Some':
                S.assume_range(lin_add(models.length(I, p['locks']), I.force(o.f, 0), -1), 1, INF)
        with hooked(I).add({rd: replaced, 'deserialized': valid}):
            run_task(I, sp[0]['v'])
        ev = S.ev[n0:]
        # on the way out
        for k, c in flag_cells(I, p):
            if not S.eq0(c.f[0]):
                rep.bad('a slot stays closed for ever after a fetch', [key])
        if not S.eq0(p['syncing'].f[0]):
            rep.bad('no data can be fetched any more after a fetch', [key])
        opens = [i for i, e in enumerate(ev) if e['k'] == 'atomic_store' and pos_of(I, p, e['cell']) is not None]
        wakes = [i for i, e in enumerate(ev) if e['k'] == 'notify']
        if opens and not [i for i in wakes if i > opens[-1]]:
            rep.bad('who waits for a slot is not woken when it is opened', [key])
        if [i for i in wakes if i > (opens[-1] if opens else -1) and ev[i]['how'] != 'notify_waiters']:
            if not [i for i in wakes if ev[i]['how'] == 'notify_waiters' and i > (opens[-1] if opens else -1)]:
                rep.bad('only one of those who wait for a slot is woken', [key])
        # the exchange
        con = [e for e in ev if e['k'] == 'connect']
        if con and (ini.vn() == 'None' or not models.keq(I, con[0]['v'], fnamed(I, I.force(ini.f, 0), 'server_addr'))):
            rep.bad('data is not fetched from the leader', [key])
        if ini.vn() == 'Some' and not con:
            rep.bad('data is not fetched from the leader', [key])
        wr = [e for e in ev if e['k'] == 'write']
        if wr:
            got = S.bnorm(B(*[x for e in wr for x in S.bnorm(I.deref(e['v'])).p]))
            ok_req = False
            for arg in ('Integer', 'Bulk'):
                want = as_integer if arg == 'Integer' else request('Bulk', int_text(I, slot))
                if want.p == got.p or S.beq(want, got):
                    ok_req = True
                    break
            if not ok_req:
                rep.bad('another snapshot is requested than the one that is needed', [key], got=repr(got)[:120], want=repr(want))
        have, last = [], None
        lost = [e for e in ev if e.get('ok') is False]
        pend = None
        for i, e in enumerate(ev):
            if e['k'] == 'deserialize' and e['ok']:
                o = I.val(I.deref(e['out']))
                if o.ty.p == 'core::option::Option':
                    if pend is not None:
                        rep.bad('received data is not put in place', [key])
                    pend = (I.force(o.f, 0), None) if o.vn() == 'Some' else 'end'
                elif pend not in (None, 'end'):
                    pend = (pend[0], o)
            elif e['k'] == 'replaced':
                if pend in (None, 'end') or pend[1] is None:
                    rep.bad('a slot gets data that was not received', [key])
                    continue
                if not S.eq0(lin_add(e['slot'], pend[0], -1)):
                    rep.bad('data is put into another slot than its own', [key])
                if not same_value(I, e['d'], pend[1]):
                    rep.bad('a slot gets data that was not received', [key])
                have.append(pend[0])
                pend = None
            elif e['k'] == 'atomic_store' and S.eq0(e['v']):
                k = pos_of(I, p, e['cell'])
                if k is None:
                    if e['cell'] is p['syncing'] and any(x['k'] in ('replaced', 'deserialize') for x in ev[i:]):
                        rep.bad('data can be fetched twice at the same time', [key])
                elif any(x['k'] in ('deserialize', 'replaced') for x in ev[i + 1:]) and not any(S.eq0(lin_add(k, h, -1)) for h in have):
                    rep.bad('a slot is opened before its data is in place', [key])
        if type(pend) is tuple and pend[1] is not None:
            rep.bad('received data is not put in place', [key])
        if not lost and ini.vn() == 'Some' and pend != 'end':
            rep.bad('a fetch stops before the end of the snapshot', [key])
        if pend == 'end' and lost:
            pass
        seen.add('done')
    seen = set()
    partitions(I, rep, run, 'fetching data from the leader', 6000, limits=dict(loop=4), panics=False)
    if 'done' in seen and 'flags' not in seen:
        rep.bad('a slot stays open while its data is fetched', [key])


@rule('C22')
def wait_for_data(I, rep):
    """whoever waits for a slot goes on only when it is open, and is not forgotten"""
    P = I.P
    key = cmdrun.one(P, INNER + '::wait_slot')

    def run(S):
        slot = S.atom('slot', 0, SLOTS - 1)
        inner, p = fresh_inner(I, slot)
        st = {'n': 0}

        def wait(I, v, oty, ev):
            st['n'] += 1
            if st['n'] > 3:
                raise PathEnd('cut', 'rounds', S.site(), ())
            born = v.a.get('born')
            loads = [i for i, e in enumerate(S.ev) if e['k'] == 'atomic_load' and pos_of(I, p, e['cell']) is not None]
            if not loads:
                rep.bad('a slot that is open is waited for', [key])
            elif born is None or born > loads[-1]:
                # not registered yet when the flag was read: a wake-up in between is lost
                rep.bad('a wake-up between the look at a slot and the wait is lost', [key])
            for k, c in flag_cells(I, p):
                c.f[0] = S.atom(S.fresh('flag'), 0, 1)
            return NotImplemented

        def nap(I, v, oty, ev):
            st['n'] += 1
            if st['n'] > 3:
                raise PathEnd('cut', 'rounds', S.site(), ())
            for k, c in flag_cells(I, p):
                c.f[0] = S.atom(S.fresh('flag'), 0, 1)
            return NotImplemented
        with hooked(I).add({'await:notified': wait, 'await:sleep': nap}):
            await_body(I, key, [inner, slot])
        if not any(S.eq0(lin_add(k, slot, -1)) and S.eq0(c.f[0]) for k, c in flag_cells(I, p)):
            rep.bad('a slot is used before its data is in place', [key])
        for l in S.held:
            rep.bad('a lock is held after waiting for a slot', [key])
    partitions(I, rep, run, 'waiting for a slot')


@rule('C22')
def apply_stream(I, rep):
    """every write of the leader is applied in order to its slot, after its data; a gap fetches the slot and tries again"""
    P = I.P
    key = cmdrun.one(P, INNER + '::process_cmd')
    wk = cmdrun.one(P, INNER + '::wait_slot')
    sk = cmdrun.one(P, INNER + '::sync_snapshot')
    pf = cmdrun.one(P, 'db::slot::replica_update::<impl db::slot::Slot>::process_forward')

    def run(S):
        inner, p = fresh_inner(I)
        msgty = [t for t in arg_tys(I, key)][1]
        rx = Ref([Opq('receiver', None, name='rx')])
        db = p['db']
        p['rx'][0] = I.some(rx, p['rx'][0].ty)
        log = []
        st = {'state': 'current', 'n': 0, 'steps': 0, 'gaps': 0}
        how = ('closed', 'replaced')[S.choose(2, 'end of the connection')]
        slots = judge.slots_of(I, db)
        S.assume_range(models.length(I, slots), SLOTS, SLOTS)
        S.assume_range(models.length(I, p['locks']), SLOTS, SLOTS)

        def world():
            st['steps'] += 1
            if st['steps'] > 12:
                raise PathEnd('cut', 'steps', S.site(), ())
            if st['state'] == 'current':
                st['state'] = ('current', how)[S.choose(2, 'connection to the leader')]
                if st['state'] == 'closed':
                    p['rx'][0] = I.none(p['rx'][0].ty)
                elif st['state'] == 'replaced':
                    p['rx'][0] = I.some(Ref([Opq('receiver', None, name='rx2')]), p['rx'][0].ty)

        def recv(I, v, oty, ev):
            st['n'] += 1
            if st['n'] > 2:
                raise Stop()
            world()
            if not S.fork('message %d' % st['n']):
                log.append(('end',))
                return I.err(Opq('error'), oty)
            m = I.val(I.mk(oty.a[0], 'msg%d' % st['n']))
            S.assume_range(part(I, m, 'slot'), 0, SLOTS - 1)
            log.append(('msg', part(I, m, 'id'), part(I, m, 'slot'), 'msg%d' % st['n'], oty.a[0]))
            return I.ok(m, oty)

        def wait(I, v, oty, ev):
            world()
            log.append(('wait', v.a['args'][1], v.a['args'][0]))
            return I.unit()

        def nap(I, v, oty, ev):
            world()
            return NotImplemented

        def apply(I, k, args):
            t = ret_ty(I, k)
            w = ('Equal', 'Less', 'Greater')[S.choose(3 if st['gaps'] < 2 else 2 if st['n'] < 2 else 1, 'outcome of a message')]
            st['gaps'] += w == 'Greater'
            cur = None
            d = I.deref(args[0])
            for kk, sv in slot_values(I, db):
                if sv is d:
                    cur = kk
            log.append(('apply', cur, args[1], args[2], st['state'], w))
            for l in S.held:
                rep.bad('a lock is held while a message is applied', [key])
            return variant(I, t, w)

        def sync(I, k, args):
            log.append(('fetch', args[1]))
            t = ret_ty(I, k)
            return I.ok(I.unit(), t) if S.fork('fetch starts') else I.err(Opq('error', None, v=B(S.fresh('errtext'))), t)
        ended = True
        def same_cmd(I, k, args):
            r = args[0]
            while type(r.c[r.i]) is Ref:
                r = r.c[r.i]
            return models.clone(I, r.c[r.i])
        with hooked(I).add({k: same_cmd for k in P.fns if k.endswith('WriteCmd as core::clone::Clone>::clone')}).add({
                            'await:recv': recv, wk: lambda I, k, args: Opq('fut', None, fk='wait_slot', args=args),
                            'await:wait_slot': wait, 'await:sleep': nap, pf: apply, sk: sync}):
            try:
                await_body(I, key, [inner, rx])
            except Stop:
                ended = False
        cur, done, ready = None, True, False
        for i, e in enumerate(log):
            if e[0] in ('msg', 'end'):
                if not done:
                    rep.bad('a write of the leader is skipped', [key])
                cur, done, ready = e, e[0] == 'end', False
            elif e[0] == 'wait':
                if cur and cur[0] == 'msg' and S.eq0(lin_add(e[1], cur[2], -1)):
                    ready = True
            elif e[0] == 'apply':
                if cur is None or cur[0] != 'msg' or done:
                    rep.bad('a write of the leader is applied twice', [key])
                    continue
                if e[4] != 'current':
                    rep.bad('a write of a former leader is applied', [key], connection=e[4])
                if not ready:
                    rep.bad('a write is applied to a slot before its data is in place', [key])
                if e[1] is None or not S.eq0(lin_add(e[1], cur[2], -1)):
                    rep.bad('a write of the leader is applied to another slot', [key])
                if not S.eq0(lin_add(e[2], cur[1], -1)):
                    rep.bad('a write of the leader is applied under another number', [key])
                want = part(I, I.val(I.mk(cur[4], cur[3])), 'cmd')
                if not same_value(I, e[3], want):
                    rep.bad('another write than the one of the leader is applied', [key])
                if e[5] == 'Greater':
                    ready = False
                    nx = [x for x in log[i + 1:] if x[0] != 'wait'][:1]
                    if nx and nx[0][0] != 'fetch' or not nx and ended and st['state'] == 'current':
                        rep.bad('a slot that missed writes is not fetched again', [key])
                else:
                    done = True
            elif e[0] == 'fetch':
                if cur is None or cur[0] != 'msg' or not S.eq0(lin_add(e[1], cur[2], -1)):
                    rep.bad('another slot is fetched than the one that missed writes', [key])
        if ended:
            if st['state'] == 'current' and not (log and log[-1][0] == 'end'):
                rep.bad('a follower stops applying the writes of its leader', [key])
    partitions(I, rep, run, 'writes of the leader', 20000)


def part(I, v, name):
    """a field, without looking into the others"""
    v = I.val(I.deref(v) if type(v) is Ref else v)
    for i, (n, ty) in enumerate(v.ty.v[v.vi][2]):
        if n == name:
            return v.f[i] if type(v.f[i]) is Sym and ty.k == 'adt' else I.force(v.f, i)
    raise Unsupported('field ' + name)


def same_value(I, a, b):
    """the very same value, without looking into what nobody looked into"""
    a, b = (I.deref(x) if type(x) is Ref else x for x in (a, b))
    if type(a) is Sym and type(b) is Sym:
        return a.name == b.name
    a, b = I.val(a), I.val(b)
    if type(a) is Agg and type(b) is Agg:
        return a.vi == b.vi and len(a.f) == len(b.f) and all(same_value(I, x, y) for x, y in zip(a.f, b.f))
    if type(a) is Map and type(b) is Map:
        return a.name == b.name and a.base == b.base and not any(e.cell is None or e.cell is not None and e.orig is not e.cell
                                                                  for e in a.ents if hasattr(e, 'orig'))
    if type(a) is Opq and type(b) is Opq and a.kind == b.kind and 'name' in a.a:
        return a.a['name'] == b.a.get('name')
    return models.keq(I, a, b)


# ------------------------------------------------------------------------------------------- sending writes to replicas
@rule('C23')
def push_to_all(I, rep):
    """a write goes to every connected replica, whatever happened to the others, and only lost replicas are dropped"""
    P = I.P
    key = cmdrun.one(P, 'db::forward::connection::ForwardConnections::push_all')

    def run(S):
        S.limits['send_err'] = True
        S.limits['channels_of'] = 'db::forward::connection'
        tys = arg_tys(I, key)
        msg = I.mk(tys[1], 'msg')
        msg = msg if tys[1].k == 'ref' else msg
        fc = Ref([I.mk(tys[0].t, 'fc')])
        lock = next((v for v in walk_deep(I, fc) if type(v) is Lock), None)
        if lock is None:
            raise Unsupported('list of replicas')
        seq = I.val(I.force(lock.cell, 0))
        for k in [k for k in P.fns if k.endswith('WriteCmd as core::clone::Clone>::clone')]:
            pass
        with hooked(I).add({k: keep_cmd for k in P.fns if k.endswith('WriteCmd as core::clone::Clone>::clone')}):
            I.call_key(key, [fc, msg])
        sent = [e for e in S.ev if e['k'] == 'send']
        after = [name_of(I, x) for x in models.materialize(I, I.val(I.force(lock.cell, 0)))]
        want = ['fc[%d]' % i for i in range(len(sent))]
        names = [e['chan'] for e in sent]
        n = models.length(I, seq) if type(seq) is Seq else None
        if len(set(names)) != len(names):
            rep.bad('a replica gets a write twice', [key])
        # every replica that was there: those still listed and those whose sending failed
        total = I.S.data.get('replicas')
        for e in sent:
            for a, b in zip(I.val(I.deref(msg)).f, I.val(I.deref(e['v'])).f):
                if not same_value(I, a, b):
                    rep.bad('a replica gets another write', [key])
        if any(e['full'] for e in sent):
            rep.bad('a replica that is slow misses a write', [key])
            return
        if any(e['waits'] for e in sent):
            rep.bad('a replica that does not read keeps the writes from the others', [key])
            return
        live = [e['chan'] for e in sent if not e['failed']]
        if after != live:
            if set(after) - set(names):
                rep.bad('a replica misses a write', [key], lost=[e['chan'] for e in sent if e['failed']])
            elif set(after) - set(live):
                rep.bad('a lost replica is kept', [key])
            elif set(live) - set(after):
                rep.bad('a connected replica is dropped', [key])
        lens.add(len(names))
        for l in S.held:
            rep.bad('the list of replicas stays locked', [key])
    lens = set()
    partitions(I, rep, run, 'write for the replicas')
    if not rep.undecided and lens and max(lens) < 2:
        rep.bad('a replica misses a write', [key])


def keep_cmd(I, k, args):
    """a copied write is the same write"""
    r = args[0]
    while type(r.c[r.i]) is Ref:
        r = r.c[r.i]
    return models.clone(I, r.c[r.i])


def walk_deep(I, v, depth=8):
    """every value reachable from one, made when unknown"""
    v = I.deref(v) if type(v) is Ref else v
    v = I.val(v)
    out = [v]
    if depth and type(v) is Agg and v.ty is not None and v.ty.v and v.vi is not None:
        for i in range(len(v.f)):
            out += walk_deep(I, I.force(v.f, i), depth - 1)
    return out


def name_of(I, x):
    x = I.deref(x) if type(x) is Ref else x
    return x.name if type(x) is Sym else x.a.get('name') if type(x) is Opq else None


@rule('C23')
def feed_replica(I, rep):
    """a replica gets every write pushed to it, whole and in order, until its connection is lost"""
    P = I.P
    key = cmdrun.one(P, 'db::forward::connection::run_connect_task')

    def run(S):
        S.limits['io_ok'] = True
        log = []
        st = {'n': 0}
        mty = {}

        def recv(I, v, oty, ev):
            st['n'] += 1
            if st['n'] > 3:
                raise Stop()
            if not S.fork('message %d' % st['n']):
                log.append(('gone',))
                return I.err(Opq('error', None, v=B(S.fresh('errtext'))), oty)
            m = I.mk(oty.a[0], 'msg%d' % st['n'])
            mty['t'] = oty.a[0]
            log.append(('msg', m, 'msg%d' % st['n']))
            return I.ok(m, oty)

        def read(I, v, oty, ev):
            st['n'] += 1
            if st['n'] > 3:
                raise Stop()
            w = ('ping', 'eof', 'failed')[S.choose(3, 'read %d' % st['n'])]
            log.append((w,))
            if w == 'failed':
                return I.err(Opq('ioerr'), oty)
            return I.ok(0 if w == 'eof' else S.atom(S.fresh('n'), 1, 64), oty)

        def write(I, v, oty, ev):
            b = S.bnorm(I.deref(v.a['args'][1]))
            d = S.adef.get(b.p[0]) if len(b.p) == 1 and type(b.p[0]) is str else None
            ok = S.fork('write ok')
            x = I.val(I.deref(d[1])) if d and d[0] == 'ser' else None
            snap = None
            if x is not None:
                snap = (x, {n: x.f[i] for i, (n, t) in enumerate(x.ty.v[x.vi][2])})
            log.append(('write', snap, ok, b))
            return I.ok(I.unit(), oty) if ok else I.err(Opq('ioerr'), oty)
        ended = True
        args = [I.mk(t, 'arg%d' % i) for i, t in enumerate(arg_tys(I, key))]
        with hooked(I).add({'await:recv': recv, 'await:read': read, 'await:write_all': write,
                            'await:flush': lambda I, v, oty, ev: I.ok(I.unit(), oty)}):
            try:
                await_body(I, key, args)
            except Stop:
                ended = False
        i = 0
        while i < len(log):
            e = log[i]
            nx = log[i + 1] if i + 1 < len(log) else None
            if e[0] in ('gone', 'eof', 'failed'):
                if nx or not ended:
                    rep.bad('a lost connection to a replica goes on', [key], lost=e[0])
                return
            if e[0] == 'write':
                rep.bad('a replica gets something that was not pushed to it', [key])
                return
            if nx is None or nx[0] != 'write':
                rep.bad('a write is not sent to a replica' if e[0] == 'msg' else 'a replica that asks gets no answer', [key])
                return
            if nx[1] is None:
                rep.undecided['bytes sent to a replica'] += 1
                return
            if e[0] == 'msg':
                m = I.val(I.mk(mty['t'], e[2]))
                for (n, t) in mty['t'].v[0][2]:
                    if not same_value(I, nx[1][1][n], part(I, m, n)):
                        rep.bad('a replica gets another write', [key])
            else:
                x = nx[1][1]
                if not S.eq0(x['id']):
                    rep.bad('an answer to a replica counts as a write', [key])
            if not nx[2]:
                if i + 2 < len(log) or not ended:
                    rep.bad('a replica that missed a write gets the following ones', [key])
                return
            i += 2
        if ended:
            rep.bad('the connection of a replica ends though nothing failed', [key])
    partitions(I, rep, run, 'connection of a replica', 20000)


@rule('C23')
def replica_connections(I, rep):
    """every replica that connects is registered before it is fed, and nothing ends the listener"""
    P = I.P
    key = cmdrun.one(P, 'db::forward::connection::ForwardConnections::new')
    ck = cmdrun.one(P, 'db::forward::connection::run_connect_task')
    ak = cmdrun.one(P, 'db::forward::connection::Listener::accept')
    seen = {'fed': 0}

    def run(S):
        r = await_body(I, key, [])
        r = I.val(r)
        if type(r) is Agg and r.ty is not None and r.ty.p == 'core::task::poll::Poll':
            r = I.val(r.f[0])
        sp = [e for e in S.ev if e['k'] == 'spawn']
        binds = [e for e in S.ev if e['k'] == 'await' and e['what'] == 'bind']
        if r.vn() == 'Err':
            return
        if len(sp) != 1:
            rep.bad('replicas are not listened to', [key])
            return
        lock = next(v for v in walk_deep(I, I.force(r.f, 0)) if type(v) is Lock)
        st = {'n': 0, 'acc': [], 'tasks': []}

        def accept(I, v, oty, ev):
            st['n'] += 1
            if st['n'] > 3:
                raise Stop()
            if S.held:
                rep.bad('a lock is held while replicas are waited for', [key])
            if not S.fork('accept %d' % st['n']):
                return I.err(Opq('error', None, v=B(S.fresh('errtext'))), oty)
            s = I.mk(oty.a[0], 'stream%d' % st['n'])
            st['acc'].append('stream%d' % st['n'])
            return I.ok(s, oty)

        def spawn(I, k, v):
            st['tasks'].append(v)
        h = {ak: lambda I, key, args: Opq('fut', None, fk='accept_replica', args=args), 'await:accept_replica': accept, 'spawn': spawn}
        with hooked(I).add(h):
            try:
                run_task(I, sp[0]['v'])
                rep.bad('the listener for replicas ends', [key])
                return
            except Stop:
                pass
        if len(st['tasks']) != len(st['acc']):
            rep.bad('a replica that connected is not served', [key])
            return
        fed = []

        def feed(I, v, oty, ev):
            a = v.a['args']
            now_ = [name_of(I, x) for x in models.materialize(I, I.val(I.force(lock.cell, 0)))]
            fed.append((name_of(I, a[0]), name_of(I, a[1]), now_, list(S.held)))
            return I.ok(I.unit(), oty) if S.fork('fed') else I.err(Opq('error', None, v=B(S.fresh('errtext'))), oty)
        with hooked(I).add({ck: lambda I, key, args: Opq('fut', None, fk='feed', args=args), 'await:feed': feed}):
            for t in st['tasks']:
                run_task(I, t)
        if sorted(x[0] or '?' for x in fed) != sorted(st['acc']):
            rep.bad('a replica that connected is not served', [key], got=[x[0] for x in fed])
        for s, rx, listed, held in fed:
            seen['fed'] += 1
            if rx not in listed:
                rep.bad('a replica is served without being registered', [key])
            if held:
                rep.bad('the list of replicas stays locked while one is served', [key])
        if len({x[1] for x in fed}) != len(fed):
            rep.bad('two replicas share one queue', [key])
    partitions(I, rep, run, 'replicas that connect')
    if not rep.undecided and not seen['fed']:
        rep.undecided['no replica was followed'] += 1


@rule('C27')
def replica_accepts(I, rep):
    """the listener for replicas survives failed accepts, and pauses between them"""
    P = I.P
    key = cmdrun.one(P, 'db::forward::connection::ForwardConnections::new')

    def run(S):
        r = I.val(await_body(I, key, []))
        if type(r) is Agg and r.ty is not None and r.ty.p == 'core::task::poll::Poll':
            r = I.val(r.f[0])
        sp = [e for e in S.ev if e['k'] == 'spawn']
        if r.vn() == 'Err':
            return
        if len(sp) != 1:
            rep.bad('replicas are not listened to', [key])
            return
        st = {'n': 0, 'fails': 0, 'acc': 0, 'tasks': 0, 'pause': 0}

        def accept(I, v, oty, ev):
            st['n'] += 1
            if S.held:
                rep.bad('a lock is held while replicas are waited for', [key])
            if st['acc'] >= 2 or st['fails'] > 9:
                raise Stop()
            if st['n'] == 1:
                st['many'] = S.fork('many failures')
            if st['many'] or st['acc'] == 1 and not st['fails'] and S.fork('one failure'):
                st['fails'] += 1
                return I.err(Opq('ioerr'), oty)
            st['acc'] += 1
            return I.ok(I.mk(oty.a[0], S.fresh('accepted')), oty)

        def sleep(I, v, oty, ev):
            st['pause'] += 1
            return NotImplemented

        def spawn(I, k, v):
            st['tasks'] += 1
        with hooked(I).add({'await:accept': accept, 'spawn': spawn, 'await:sleep': sleep}):
            try:
                run_task(I, sp[0]['v'])
                rep.bad('the listener for replicas ends', [key], failures=st['fails'])
            except Stop:
                pass
        if st['tasks'] != st['acc']:
            rep.bad('a replica that connected is not served', [key])
        if st['many'] and st['pause'] < 3:
            rep.bad('failed accepts of replicas are retried without a pause', [key])
    partitions(I, rep, run, 'accepts of replicas')


@rule('C23')
def forward_loop(I, rep):
    """every message of a slot is pushed to the replicas, once and in order"""
    P = I.P
    key = cmdrun.one(P, 'db::forward::Forward::run')
    nk = cmdrun.one(P, 'db::forward::connection::ForwardConnections::new')
    pk = cmdrun.one(P, 'db::forward::connection::ForwardConnections::push_all')

    def run(S):
        log = []
        st = {'n': 0, 'on': False}

        def recv(I, v, oty, ev):
            st['n'] += 1
            if st['n'] > 3:
                raise Stop()
            log.append(('ask', name_of(I, v.a['args'][0])))
            if not S.fork('message %d' % st['n']):
                log.append(('gone',))
                return I.err(Opq('error'), oty)
            m = I.mk(oty.a[0], 'msg%d' % st['n'])
            log.append(('msg', 'msg%d' % st['n'], oty.a[0]))
            return I.ok(m, oty)

        def push(I, k, args):
            log.append(('push', I.val(I.deref(args[1]))))
            return I.unit()

        def new(I, v, oty, ev):
            st['on'] = S.fork('listening')
            return I.ok(I.mk(oty.a[0], 'fc'), oty) if st['on'] else I.err(Opq('error', None, v=B('e')), oty)
        args = [I.mk(t, 'fwd') for t in arg_tys(I, key)]
        ended = True
        with hooked(I).add({'await:recv': recv, pk: push, nk: lambda I, key, args: Opq('fut', None, fk='newfc', args=args),
                            'await:newfc': new}):
            try:
                await_body(I, key, args)
            except Stop:
                ended = False
            except PathEnd as e:
                if e.kind != 'exit' or st['on']:
                    raise
                return
        xs = [e for e in log if e[0] != 'ask']
        i = 0
        while i < len(xs):
            if xs[i][0] == 'gone':
                return
            if xs[i][0] == 'push':
                rep.bad('something is pushed to the replicas that no slot sent', [key])
                return
            if i + 1 >= len(xs) or xs[i + 1][0] != 'push':
                rep.bad('a write is not pushed to the replicas', [key])
                return
            m = I.val(I.mk(xs[i][2], xs[i][1]))
            for j, x in enumerate(xs[i + 1][1].f):
                if not same_value(I, x, m.f[j]):
                    rep.bad('another write is pushed to the replicas', [key])
            i += 2
        if ended:
            rep.bad('writes are not pushed to the replicas any more', [key])
    partitions(I, rep, run, 'writes for the replicas', exits=False)


@rule('C23')
def receive_stream(I, rep):
    """a follower takes every message of its leader, in order, until the connection is lost"""
    P = I.P
    key = cmdrun.one(P, 'db::pd_handle::replica::receive_cmd')

    def run(S):
        st = {'n': 0}

        def got(I, ev):
            st['n'] += 1
            if st['n'] > 3:
                raise Stop()
            for i, e in enumerate(S.ev):
                pass
        args = [I.mk(t, 'arg%d' % i) for i, t in enumerate(arg_tys(I, key))]
        ended = True
        S.limits['send_err'] = True
        S.limits['channels_of'] = 'db::pd_handle'
        with hooked(I).add({'deserialized': got}):
            try:
                r = I.val(I.call_key(key, args))
            except Stop:
                ended = False
        ev = [e for e in S.ev if e['k'] in ('deserialize', 'send') or e['k'] == 'write']
        pend = None
        lost = [e for e in ev if e.get('ok') is False or e.get('failed')]
        for e in ev:
            if e['k'] == 'deserialize':
                if pend is not None:
                    rep.bad('a write of the leader is dropped', [key])
                pend = e if e['ok'] else None
                src = e['src']
            elif e['k'] == 'send':
                if pend is None:
                    rep.bad('a write of the leader is taken twice', [key])
                    continue
                a, b = I.val(I.deref(pend['out'])), I.val(I.deref(e['v']))
                if not all(same_value(I, x, y) for x, y in zip(a.f, b.f)):
                    rep.bad('another write than the one of the leader is taken', [key])
                pend = None
                if e['failed'] and e is not ev[-1]:
                    rep.bad('a follower goes on after a write was lost', [key])
        if lost and ev[-1] is not lost[0]:
            rep.bad('a follower goes on reading from a broken connection', [key])
        if ended and not lost:
            rep.bad('a follower stops reading from its leader', [key])
    partitions(I, rep, run, 'messages of the leader')


# ------------------------------------------------------------------------------------------- placement driver
PDS = 'pd::status::'


class Pd:
    """an unknown state of the placement driver with a given shape, twice: to work on and as it was"""

    def __init__(self, I, shape):
        self.I, S = I, I.S
        self.sty = adt(I, PDS + 'Status')
        self.gty = adt(I, PDS + 'Group')
        self.vty = adt(I, PDS + 'Server')
        self.now, self.ini = self.make(shape), self.make(shape)
        self.lock = Lock('STATUS', [self.now], 'rw')
        gs = self.groups(self.ini)
        for i, g in enumerate(gs):
            S.assume_range(lin_add(plain_named(I, self.ini, 'latest_group_id'), plain_named(I, g, 'id'), -1), 0, INF)
            S.assume_range(plain_named(I, g, 'latest_server_id'), 0, 2 ** 63)
            for h in gs[:i]:
                # group numbers are unique
                S.assume_range(lin_add(plain_named(I, g, 'id'), plain_named(I, h, 'id'), -1), 1, INF)
            vs = self.servers(g)
            for j, v in enumerate(vs):
                S.assume_range(lin_add(plain_named(I, g, 'latest_server_id'), plain_named(I, v, 'id'), -1), 0, INF)
                S.assume_range(plain_named(I, v, 'latest_heartbeat'), 0, 2 ** 62)
                S.assume_range(plain_named(I, v, 'join_time'), 0, 2 ** 62)
                for w in vs[:j]:
                    S.assume_range(lin_add(plain_named(I, v, 'id'), plain_named(I, w, 'id'), -1), 1, INF)
            led = [j for j, v in enumerate(vs) if self.role(v) == 'Leader']
            if len(led) > 1:
                raise Infeasible()
            for st in (self.now, self.ini) if led else ():
                # the recorded leader is that server
                g1 = self.groups(st)[i]
                v = self.servers(g1)[led[0]]
                k = [n for n, _ in self.gty.v[0][2]].index('leader')
                t = self.gty.v[0][2][k][1]
                lt = t.a[0]
                g1.f[k] = I.some(Agg(lt, 0, [fnamed(I, v, 'id' if n == 'server_id' else n) for n, _ in lt.v[0][2]]), t)
        S.assume_range(plain_named(I, self.ini, 'latest_group_id'), 0, 2 ** 63)

    def make(self, shape):
        I = self.I

        def with_seq(ty, name, elems):
            a = I.val(I.mk(ty, name))
            for i, (n, t) in enumerate(ty.v[0][2]):
                if t.p == 'alloc::vec::Vec':
                    a.f[i] = Seq([Ref([e]) for e in elems])
            return a
        return with_seq(self.sty, 'pd', [with_seq(self.gty, 'pd.g%d' % i, [I.val(I.mk(self.vty, 'pd.g%d.s%d' % (i, j))) for j in range(n)])
                                         for i, n in enumerate(shape)])

    def groups(self, st=None):
        return self.list(st if st is not None else self.now)

    def list(self, v):
        I = self.I
        for n, t, x in fields(I, v):
            if t.p == 'alloc::vec::Vec':
                return [I.val(I.deref(r)) for r in models.materialize(I, x)]
        raise Unsupported('list')
    servers = list

    def role(self, v):
        return self.I.val(fnamed(self.I, v, 'role')).vn()

    def static(self, I, path, ty):
        if 'pd::status::Status' in ty.s:
            return Opq('lazy', ty, cell=[self.lock], name=path)

    def same(self, a, b, but=()):
        """two groups or servers agree, apart from some fields"""
        I = self.I
        for (n, t, x), (_, _, y) in zip(fields(I, a), fields(I, b)):
            if n in but:
                continue
            if t.p == 'alloc::vec::Vec':
                xs, ys = self.list(a), self.list(b)
                if len(xs) != len(ys) or not all(self.same(p, q) for p, q in zip(xs, ys)):
                    return False
            elif not models.keq(I, x, y):
                return False
        return True

    def info(self, li, v):
        """leader information describes a server"""
        I = self.I
        li = I.val(li)
        if li.vn() == 'None':
            return False
        li = I.force(li.f, 0)
        return all(models.keq(I, fnamed(I, li, a), fnamed(I, v, b))
                   for a, b in (('server_id', 'id'), ('server_addr', 'server_addr'), ('forward_addr', 'forward_addr')))


def plain_named(I, v, name):
    return fnamed(I, v, name)


@rule('C24')
def pd_register(I, rep):
    """a server that registers gets a fresh number and leads exactly when its group has no leader"""
    P = I.P
    key = bysig(P, PDS + 'server_init', 'ServerStatus', ['ServerInit'])
    ck = bysig(P, PDS + 'create_group', '()', [])

    def unlocked(S):
        if S.held:
            rep.bad('the state of the placement driver stays locked', [key])

    def run(S):
        shape = ((), (0,), (1,), (2,), (1, 1), (0, 2))[S.choose(6, 'groups and servers')]
        n = now(S)
        pd = Pd(I, shape)
        data = I.val(I.mk(adt(I, 'common::pd_message::ServerInit'), 'init'))
        with hooked(I, static=pd.static):
            r = I.val(I.call_key(key, [Ref([data])]))
        unlocked(S)
        gid = fnamed(I, data, 'group_id')
        old, new = pd.groups(pd.ini), pd.groups()
        if len(old) != len(new) or not pd.same(pd.ini, pd.now, ('groups',)):
            rep.bad('a registration changes the groups', [key])
            return
        hit = None
        for a, b in zip(old, new):
            if S.eq0(lin_add(fnamed(I, a, 'id'), gid, -1)):
                hit = (a, b)
            elif not pd.same(a, b):
                rep.bad('a registration changes another group', [key])
        if hit is None:
            if r.vn() != 'Err':
                rep.bad('a server is registered in a group that does not exist', [key])
            return
        a, b = hit
        if r.vn() != 'Ok':
            rep.bad('a server is not registered in its group', [key])
            return
        res = I.val(I.force(r.f, 0))
        va, vb = pd.servers(a), pd.servers(b)
        if len(vb) != len(va) + 1 or not all(any(pd.same(x, y) for y in vb) for x in va):
            rep.bad('a registration does not add exactly the new server', [key])
            return
        me = [y for y in vb if not any(pd.same(x, y) for x in va)]
        if len(me) != 1:
            rep.bad('a server gets the number of another one', [key])
            return
        me = me[0]
        for x in va:
            if S.eq0(lin_add(fnamed(I, x, 'id'), fnamed(I, me, 'id'), -1)):
                rep.bad('a server gets the number of another one', [key])
        if not S.ge0(lin_add(lin_add(fnamed(I, me, 'id'), fnamed(I, a, 'latest_server_id'), -1), -1)):
            rep.bad('a server gets a number that was given before', [key])
        if not S.ge0(lin_add(fnamed(I, b, 'latest_server_id'), fnamed(I, me, 'id'), -1)):
            rep.bad('the number of a server will be given again', [key])
        for f in ('server_addr', 'forward_addr'):
            if not models.keq(I, fnamed(I, me, f), fnamed(I, data, f)):
                rep.bad('a server is registered under another address', [key], field=f)
        for f in ('latest_heartbeat', 'join_time'):
            if not S.eq0(lin_add(fnamed(I, me, f), n, -1)):
                rep.bad('a new server is not taken as alive from now on', [key], field=f)
        led = any(pd.role(x) == 'Leader' for x in va)
        role = pd.role(me)
        if role != ('Follower' if led else 'Leader'):
            rep.bad('a group gets %s' % ('a second leader' if led else 'no leader though a server is there'), [key])
        li = fnamed(I, b, 'leader')
        if led:
            if not models.keq(I, li, fnamed(I, a, 'leader')):
                rep.bad('a follower that registers replaces the leader', [key])
        elif not pd.info(li, me):
            rep.bad('a group does not know its leader', [key])
        want = dict(server_id=fnamed(I, me, 'id'), group_id=fnamed(I, b, 'id'), role=fnamed(I, me, 'role'), current_leader=li)
        for f, w in want.items():
            if not models.keq(I, fnamed(I, res, f), w):
                rep.bad('a server is told another state than the one recorded', [key], field=f)
    partitions(I, rep, run, 'registration of a server', 20000)

    def create(S):
        shape = ((), (0,), (1, 0))[S.choose(3, 'groups')]
        pd = Pd(I, shape)
        with hooked(I, static=pd.static):
            I.call_key(ck, [])
        unlocked(S)
        old, new = pd.groups(pd.ini), pd.groups()
        if len(new) != len(old) + 1 or not all(any(pd.same(x, y) for y in new) for x in old):
            rep.bad('a new group does not leave the others as they were', [ck])
            return
        me = new[-1]
        if not S.ge0(lin_add(lin_add(fnamed(I, me, 'id'), fnamed(I, pd.ini, 'latest_group_id'), -1), -1)):
            rep.bad('a group gets a number that was given before', [ck])
        if not S.ge0(lin_add(fnamed(I, pd.now, 'latest_group_id'), fnamed(I, me, 'id'), -1)):
            rep.bad('the number of a group will be given again', [ck])
        if pd.servers(me) or I.val(fnamed(I, me, 'leader')).vn() != 'None':
            rep.bad('a new group is not empty', [ck])
    partitions(I, rep, create, 'new group')


@rule('C24')
def pd_heartbeat(I, rep):
    """a heartbeat keeps its sender alive, and is answered with the recorded state exactly when the sender has another one"""
    P = I.P
    key = bysig(P, PDS + 'server_heartbeat', 'Option<', ['ServerStatus'])

    def run(S):
        shape = ((), (0,), (1,), (2,), (1, 1))[S.choose(5, 'groups and servers')]
        n = now(S)
        pd = Pd(I, shape)
        data = I.val(I.mk(adt(I, 'common::pd_message::ServerStatus'), 'status'))
        with hooked(I, static=pd.static):
            r = I.val(I.call_key(key, [Ref([data])]))
        if S.held:
            rep.bad('the state of the placement driver stays locked', [key])
        hit = None
        if not pd.same(pd.ini, pd.now, ('groups',)):
            rep.bad('a heartbeat changes the groups', [key])
        for a, b in zip(pd.groups(pd.ini), pd.groups()):
            mine = S.eq0(lin_add(fnamed(I, a, 'id'), fnamed(I, data, 'group_id'), -1))
            if not pd.same(a, b, ('servers',)):
                rep.bad('a heartbeat changes a group', [key])
            va, vb = pd.servers(a), pd.servers(b)
            if len(va) != len(vb):
                rep.bad('a heartbeat changes the servers of a group', [key])
                return
            for x, y in zip(va, vb):
                if mine and S.eq0(lin_add(fnamed(I, x, 'id'), fnamed(I, data, 'server_id'), -1)):
                    hit = (b, y)
                    if not pd.same(x, y, ('latest_heartbeat',)):
                        rep.bad('a heartbeat changes more than the time it was heard', [key])
                    if not S.eq0(lin_add(fnamed(I, y, 'latest_heartbeat'), n, -1)):
                        rep.bad('a server that is heard is not taken as alive', [key])
                elif not pd.same(x, y):
                    rep.bad('a heartbeat keeps another server alive', [key])
        if hit is None:
            if r.vn() != 'None':
                rep.bad('an unknown server is told a state', [key])
            return
        g, v = hit
        want = dict(server_id=fnamed(I, v, 'id'), group_id=fnamed(I, g, 'id'), role=fnamed(I, v, 'role'),
                    current_leader=fnamed(I, g, 'leader'))
        if r.vn() == 'Some':
            res = I.val(I.force(r.f, 0))
            for f, w in want.items():
                if not models.keq(I, fnamed(I, res, f), w):
                    rep.bad('a server is told another state than the one recorded', [key], field=f)
        else:
            for f, w in want.items():
                if not models.keq(I, fnamed(I, data, f), w):
                    rep.bad('a server that has another state than recorded is not told', [key], field=f)
    partitions(I, rep, run, 'heartbeat', 20000)


@rule('C24')
def pd_failover(I, rep):
    """a silent leader is replaced by the live follower that joined first; a live one is kept; never two leaders"""
    P = I.P
    key = bysig(P, PDS + 'server_survival_check', '', [])
    LIMIT = 3000

    def run(S):
        shape = ((), (0,), (1,), (2,), (3,), (1, 1))[S.choose(6, 'groups and servers')]
        n = now(S)
        pd = Pd(I, shape)
        st = {'n': 0}

        def tick(I, v, oty, ev):
            st['n'] += 1
            if S.held:
                rep.bad('the state of the placement driver stays locked between checks', [key])
            if st['n'] > 1:
                raise Stop()
            return NotImplemented
        with hooked(I).add({'static': pd.static, 'await:tick': tick, 'await:sleep': tick}):
            try:
                await_body(I, key, [])
                rep.bad('the check for silent leaders ends', [key])
                return
            except Stop:
                pass
        if not pd.same(pd.ini, pd.now, ('groups',)) or len(pd.groups()) != len(shape):
            rep.bad('the check for silent leaders changes the groups', [key])
            return
        for a, b in zip(pd.groups(pd.ini), pd.groups()):
            va, vb = pd.servers(a), pd.servers(b)
            if len(va) != len(vb) or not pd.same(a, b, ('servers', 'leader')) or \
                    not all(pd.same(x, y, ('role',)) for x, y in zip(va, vb)):
                rep.bad('the check for silent leaders changes more than roles', [key])
                return
            alive = [S.ge0(lin_add(lin_add(fnamed(I, x, 'latest_heartbeat'), n, -1), LIMIT)) for x in va]
            l0 = [i for i, x in enumerate(va) if pd.role(x) == 'Leader']
            l1 = [i for i, x in enumerate(vb) if pd.role(x) == 'Leader']
            if len(l1) > 1:
                rep.bad('a group gets two leaders', [key])
                continue
            if l0 and alive[l0[0]]:
                if l1 != l0:
                    rep.bad('a leader that is alive is replaced', [key])
                elif not models.keq(I, fnamed(I, a, 'leader'), fnamed(I, b, 'leader')):
                    rep.bad('a group forgets its leader', [key])
                continue
            can = [i for i, x in enumerate(va) if alive[i]]
            if l1 and l1[0] not in can:
                rep.bad('a silent server leads its group', [key])
            elif not l1 and can:
                rep.bad('a group with a live server gets no leader', [key])
            elif not l1:
                if not models.keq(I, fnamed(I, a, 'leader'), fnamed(I, b, 'leader')):
                    rep.bad('a group without a leader names another one', [key])
            else:
                for i in can:
                    if not S.ge0(lin_add(fnamed(I, va[i], 'join_time'), fnamed(I, va[l1[0]], 'join_time'), -1)):
                        rep.bad('a server leads that joined after another live one', [key])
                if not pd.info(fnamed(I, b, 'leader'), vb[l1[0]]):
                    rep.bad('a group names another leader than the one it has', [key])
    partitions(I, rep, run, 'check for silent leaders', 30000)


@rule('C40')
def pd_requests(I, rep):
    """every request to the placement driver is carried out once and answered with its own result, and errors do not end the connection"""
    P = I.P
    key = cmdrun.one(P, 'pd::connect::Handle::run')
    rf = cmdrun.one(P, 'common::connection::Connection::read_frame')
    ik = bysig(P, PDS + 'server_init', 'ServerStatus', ['ServerInit'])
    hk = bysig(P, PDS + 'server_heartbeat', 'ServerStatus', ['ServerStatus'])
    gk = bysig(P, PDS + 'create_group', '()', [])
    enc = direct2.encoder(I)
    fr = adt(I, direct2.FRAME)
    kinds = {'init': b'pd_sever_init', 'heartbeat': b'pd_sever_heartbeat', 'group': b'pd_crate_group', 'other': b'pd_other', 'short': b'pd_sever_init'}

    def run(S):
        log = []
        st = {'n': 0}

        def read(I, v, oty, ev):
            st['n'] += 1
            log.append(('read',))
            if S.held:
                rep.bad('the state of the placement driver stays locked between requests', [key])
            if st['n'] > 2:
                raise Stop()
            w = ('init', 'heartbeat', 'group', 'other', 'short', 'closed', 'failed')[S.choose(7, 'request %d' % st['n'])]
            log.append((w,))
            if w == 'closed':
                return I.ok(I.none(oty.a[0]), oty)
            if w == 'failed':
                return I.err(Opq('error', None, v=B(S.fresh('errtext'))), oty)
            xs = [variant(I, fr, 'Bulk', Ref([B(kinds[w])]))]
            if w != 'short':
                xs.append(variant(I, fr, 'Bulk', Ref([B('payload%d' % st['n'])])))
            return I.ok(I.some(variant(I, fr, 'Array', Seq([Ref([x]) for x in xs])), oty.a[0]), oty)

        def init(I, k, args):
            oty = ret_ty(I, k)
            log.append(('call', 'init', I.deref(args[0])))
            if S.fork('registered'):
                r = I.mk(oty.a[0], S.fresh('status'))
                log.append(('value', r))
                return I.ok(r, oty)
            e = B(S.fresh('refusal'))
            log.append(('err', e))
            return I.err(Opq('error', None, v=e), oty)

        def beat(I, k, args):
            oty = ret_ty(I, k)
            log.append(('call', 'heartbeat', I.deref(args[0])))
            r = I.some(I.mk(oty.a[0], S.fresh('status')), oty) if S.fork('told something') else I.none(oty)
            log.append(('value', r))
            return r

        def group(I, k, args):
            log.append(('call', 'group', None))
            return I.unit()

        def wr(I, v, oty, ev):
            ok = S.fork('write ok')
            log.append(('write', I.deref(v.a['args'][1]), ok))
            return I.ok(I.unit(), oty) if ok else I.err(Opq('ioerr'), oty)

        def out(I, ev):
            log.append(('got', ev['out'] if ev['ok'] else None))
        h = {rf: lambda I, key, args: Opq('fut', None, fk='read_frame', args=args), 'await:read_frame': read, ik: init, hk: beat, gk: group,
             'await:write_all': wr, 'await:flush': lambda I, v, oty, ev: I.ok(I.unit(), oty), 'deserialized': out,
             cmdrun.one(P, direct2.FRAME + '::write'): direct2.h_write}
        ended = True
        with hooked(I).add(h):
            try:
                await_body(I, key, [I.mk(adt(I, 'pd::connect::Handle'), 'handle')])
            except Stop:
                ended = False
            rounds = []
            for e in log:
                if e[0] == 'read':
                    rounds.append([])
                else:
                    rounds[-1].append(e)
            for n, r in enumerate(rounds):
                if not r:
                    continue
                w = r[0][0]
                wrote = [e for e in r if e[0] == 'write']
                calls = [e for e in r if e[0] == 'call']
                got = [e for e in r if e[0] == 'got']
                if w in ('closed', 'failed'):
                    if wrote:
                        rep.bad('bytes are sent though no request came', [key])
                    continue
                if len(wrote) != 1:
                    rep.bad('a request to the placement driver gets %s' % ('no reply' if not wrote else 'more than one write of its reply'), [key], request=w)
                    continue
                due = bool(got) or w == 'group'
                if w in ('init', 'heartbeat') and len(got) > 1:
                    rep.bad('the payload of a request is not read once', [key], request=w)
                    continue
                if len(calls) != (1 if due else 0) or any(c[1] != w for c in calls):
                    rep.bad('a request to the placement driver is not carried out exactly once', [key], request=w)
                    continue
                if due and w != 'group' and not models.keq(I, I.deref(got[0][1]), calls[0][2]):
                    rep.bad('a request is carried out with another payload than its own', [key], request=w)
                if not wrote[0][2]:
                    continue
                b = wrote[0][1]
                b = models.bytes_value(I, b) if hasattr(models, 'bytes_value') else b
                val = [e[1] for e in r if e[0] == 'value']
                err = [e[1] for e in r if e[0] == 'err']
                if val:
                    sers = [e for e in S.ev if e['k'] == 'serialize' and 'out' in e and models.keq(I, I.deref(e['v']), I.val(val[0]))]
                    want = [variant(I, fr, 'OwnedBulk', B(e['out'])) for e in sers]
                    if not want:
                        # encoding failed: an error is due
                        continue
                elif err:
                    want = [variant(I, fr, 'OwnedError', err[0])]
                elif w in ('group', 'other'):
                    want = [variant(I, fr, 'Simple', Ref([B(b'OK')]))]
                else:
                    want = None
                if type(b) is not B:
                    rep.undecided['bytes of a reply of the placement driver'] += 1
                elif want is None:
                    if w in ('init', 'heartbeat') and not any(e['k'] == 'deserialize' for e in S.ev):
                        rep.bad('a request to the placement driver is not looked at', [key], request=w)
                    elif 'enc(OwnedError' not in repr(b) and 'enc(Error' not in repr(b):
                        rep.bad('a malformed request is not answered with an error', [key], request=w, got=repr(b))
                elif not any(S.beq(b, I.deref(I.call_key(enc, [Ref([f])]))) for f in want):
                    rep.bad('a request to the placement driver is answered with another reply than its own', [key], request=w, got=repr(b))
                if n == len(rounds) - 1 and ended:
                    rep.bad('the connection ends after a request that was answered', [key], request=w)
    partitions(I, rep, run, 'requests to the placement driver')


@rule('C40')
def pd_service(I, rep):
    """the placement driver watches the leaders from its start, serves every connection, and survives failed accepts"""
    P = I.P
    key = cmdrun.one(P, 'pd::run')
    hk = cmdrun.one(P, 'pd::connect::Handle::run')
    sk = bysig(P, PDS + 'server_survival_check', '', [])
    seen = {'served': 0}

    def run(S):
        st = {'n': 0, 'fails': 0, 'acc': [], 'tasks': [], 'pause': 0}

        def accept(I, v, oty, ev):
            st['n'] += 1
            if len(st['acc']) >= 2 or st['fails'] > 9:
                raise Stop()
            if st['n'] == 1:
                st['many'] = S.fork('many failures')
            if st['many'] or len(st['acc']) == 1 and not st['fails'] and S.fork('one failure'):
                st['fails'] += 1
                return I.err(Opq('ioerr'), oty)
            nm = 'accepted%d' % st['n']
            st['acc'].append(nm)
            a = I.mk(oty.a[0], nm)
            return I.ok(a, oty)

        def sleep(I, v, oty, ev):
            st['pause'] += 1
            return NotImplemented

        def spawn(I, k, v):
            st['tasks'].append(v)
        ended = True
        with hooked(I).add({'await:accept': accept, 'spawn': spawn, 'await:sleep': sleep}):
            try:
                await_body(I, key, [I.mk(t, 'listener') for t in arg_tys(I, key)])
            except Stop:
                ended = False
        kinds = []
        for t in st['tasks']:
            got = []
            with hooked(I).add({hk: lambda I, k, args: (got.append(name_of(I, args[0])), Opq('fut', None, fk='handle', args=args))[1],
                                'await:handle': lambda I, v, oty, ev: I.ok(I.unit(), oty) if S.fork('served well') else I.err(Opq('error', None, v=B(S.fresh('e'))), oty),
                                'await:tick': lambda I, v, oty, ev: (_ for _ in ()).throw(Stop())}):
                try:
                    run_task(I, t)
                    kinds.append('served' if got else 'other')
                except Stop:
                    kinds.append('watch')
        if kinds.count('watch') != 1:
            rep.bad('the leaders are not watched' if 'watch' not in kinds else 'the leaders are watched twice', [key])
        if kinds.count('served') != len(st['acc']):
            rep.bad('a connection to the placement driver is not served', [key], got=kinds)
        seen['served'] += kinds.count('served')
        if st['many']:
            if st['fails'] > 2 and st['pause'] < st['fails'] - 1:
                rep.bad('failed accepts are retried without a pause', [key])
            if ended and st['fails'] < 3:
                rep.bad('a failed accept ends the placement driver', [key])
        elif ended:
            rep.bad('the placement driver stops accepting', [key], failures=st['fails'])
        if S.held:
            rep.bad('a lock is held while the placement driver waits', [key])
    partitions(I, rep, run, 'connections to the placement driver')
    if not rep.undecided and not seen['served']:
        rep.undecided['no connection was followed'] += 1
