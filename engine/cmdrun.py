"""Drive one client command (template with unknown arguments) through the analysed program."""
import re, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import *
import core, facts, interp, models, api
from models import Map, Seq, Seg, Ent

KEY_FROM = 'server::cmd::Command::<\'_>::from_frame'


def find(P, *subs):
    return [k for k in P.fns if all(s in k for s in subs)]


def norm(path):
    """path without generic arguments and inherent-impl wrappers"""
    path = re.sub(r"::<impl ([^<>]*)>", lambda m: '::' + m.group(1), path)
    path = re.sub(r"::<[^<>]*>", '', path)
    return path


def matches(P, path):
    """functions at a path; also when lifetimes changed or the function moved to another module"""
    ks = [k for k in P.by_path.get(path) or [] if 'promoted[' not in k]
    if ks:
        return ks
    if not hasattr(P, 'by_norm'):
        P.by_norm, P.by_tail = {}, {}
        for k, fn in P.fns.items():
            if fn['path'].startswith('<') or '{closure' in fn['path'] or 'promoted[' in k or 'CALLSITE' in k:
                continue
            n = norm(fn['path'])
            P.by_norm.setdefault(n, []).append(k)
            w = n.split('::')
            P.by_tail.setdefault((w[0], tuple(w[-2:])), []).append(k)
    n = norm(path)
    w = n.split('::')
    return P.by_norm.get(n) or P.by_tail.get((w[0], tuple(w[-2:]))) or []


def one(P, path):
    ks = matches(P, path)
    if len(ks) != 1:
        raise KeyError('%s: %d' % (path, len(ks)))
    return ks[0]


class World:
    pass


def make_interp(facts_dir):
    P = facts.Program(facts_dir)
    I = interp.Interp(P)
    api.setup(I)
    install_summaries(I)
    return P, I


def ty_of(P, path):
    ts = [t for t in P.types.values() if t.k == 'adt' and t.p == path and t.v]
    if not ts:
        raise KeyError(path)
    return ts[0]


def h_get_slot(I, key, args):
    """summary of the key -> slot function (checked on its own)"""
    db = I.deref(args[0])
    k = I.deref(args[1])
    seq = [f for f in (I.force(db.f, i) for i in range(len(db.f))) if type(f) is Seq]
    if len(seq) != 1 or type(k) is not B:
        return NotImplemented
    idx = I.S.opatom('slotof', (I.S.bnorm(k),), 0, 16383)
    seg = seq[0].segs[0]
    if len(seq[0].segs) != 1 or type(seg) is not Seg:
        return NotImplemented
    return Ref(models.seg_elem(I, seg, idx))


def h_visit(I, key, args):
    """summary of the access-log update (checked on its own): only the access log changes"""
    v = I.dr(args[0])
    names = [f[0] for f in v.ty.v[0][2]]
    i = names.index('visit_log')
    v.f[i] = I.S.atom(I.S.fresh('vlog'), 0, 2**64 - 1)
    return I.unit()


def install_summaries(I):
    for p, h in (('db::Db::get_slot', h_get_slot), ('dict::Value::update_visit_log', h_visit)):
        ks = matches(I.P, p)
        I.hooks[ks[0] if len(ks) == 1 else p] = h
    I.ranges.append(('write_id', 0, 2**62))
    I.ranges.append(('expires_at', 0, 2**63 - 1))


def frame_bulk(I, fty, b):
    vi = [i for i, v in enumerate(fty.v) if v[0] == 'Bulk'][0]
    return Agg(fty, vi, [Ref([b])])


def frame_array(I, fty, items):
    vi = [i for i, v in enumerate(fty.v) if v[0] == 'Array'][0]
    return Agg(fty, vi, [Seq([Ref([x]) for x in items])])


def run_command(I, words, db=None):
    """words: list of B.  Returns (stage, value)"""
    P = I.P
    S = I.S
    fty = ty_of(P, 'common::connection::parse::frame::Frame')
    dbty = ty_of(P, 'db::Db')
    W = World()
    S.world = W
    W.frame = frame_array(I, fty, [frame_bulk(I, fty, w) for w in words])
    if db is None:
        db = Ref([I.mk(dbty, 'db')])
    W.db = db
    I.deref(db)
    W.stage = 'parse'
    cmd = I.call_key(one(P, 'server::cmd::Command::<\'a>::from_frame'), [W.frame])
    cmd = I.val(cmd)
    W.parsed = cmd
    if cmd.vn() == 'Err':
        return 'parse_err', cmd.f[0]
    c = I.val(cmd.f[0])
    k = c.vn()
    W.stage = 'apply'
    if k == 'Read':
        r = I.call_key(one(P, 'server::cmd::Read::<\'_>::apply'), [c.f[0], db])
    elif k == 'Write':
        r = I.call_key(one(P, 'server::cmd::Write::<\'a>::apply'), [c.f[0], Ref([db])])
    else:
        return k, c
    r = I.val(r)
    return ('reply' if r.vn() == 'Ok' else 'error'), I.val(r.f[0])
