"""Analyse one command template: every trace partition of the command, judged against the rules."""
import sys, os, time, traceback, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import *
import core, models, api, cmdrun, spec
from spec import *


class Rec:
    """findings of one trace partition"""
    __slots__ = ('rule', 'what', 'tags', 'witness', 'fns')


def initial(I):
    return I.mk(cmdrun.ty_of(I.P, 'db::Db'), 'db')


def slots_of(I, db):
    """run of slots held by a database value"""
    v = I.val(I.deref(db))
    for i in range(len(v.f)):
        x = I.force(v.f, i)
        if type(x) is Seq:
            return x
    raise Unsupported('slot container')


def seg_cells(seq):
    """(position, cell) of the elements of a run that were looked at; the parts of a split run share their cells"""
    out, done = [], []
    for g in seq.segs:
        if type(g) is Seg and not any(g.cells is d for d in done):
            done.append(g.cells)
            out += g.cells
    return out


def touched(I, db):
    return seg_cells(slots_of(I, db))


def entries(I, db):
    """slot index -> dict map, for the slots this view looked at"""
    return [(k, cell) for k, cell in touched(I, db)]


def slot_of_view(I, db, idx):
    s = slots_of(I, db)
    return models.seg_elem(I, s.segs[0], idx)


def initially_touched(m):
    return [(e.key, e.orig) for e in m.ents]


def norm_cell(I, e, now):
    if e.cell is None:
        return None
    v = I.force(e.cell, 0)
    return v if alive(I, v, now) else None


def compare_db(I, prog, ref, out):
    """final keyspace of the program against the reference's; appends (rule, text, key)"""
    S = I.S
    now = S.atom('now', 1_600_000_000_000, 4_100_000_000_000)
    idx = []
    for k, _ in touched(I, prog) + touched(I, ref):
        if not any(k == j for j in idx):
            idx.append(k)
    for k in idx:
        a = find_dict(I, Ref(slot_of_view(I, prog, k)))
        b = find_dict(I, Ref(slot_of_view(I, ref, k)))
        if a is None or b is None:
            if (a is None) != (b is None):
                out.append(('data', 'slot content appears or disappears', None))
            continue
        keys = []
        for x in [e.key for e in a.ents] + [e.key for e in b.ents]:
            if not any(models.same(I, x, y) for y in keys):
                keys.append(x)
        if a.base != b.base and 'empty' in (a.base, b.base):
            out.append(('data', 'whole slot replaced', None))
            continue
        for x in keys:
            ea, eb = a.lookup(I, x), b.lookup(I, x)
            if ea.cell is not None and eb.cell is not None and models.same(I, ea.cell[0], eb.cell[0]):
                continue
            va, vb = norm_cell(I, ea, now), norm_cell(I, eb, now)
            if va is None or vb is None:
                if (va is None) != (vb is None):
                    out.append(('presence', 'key %s' % ('left behind' if vb is None else 'lost'), x))
                continue
            da, xa = vparts(I, va)
            db_, xb = vparts(I, vb)
            if not S.eq0(lin_add(xa, xb, -1)):
                out.append(('deadline', 'deadline differs from the reference', x))
            why = []
            if not dataeq(I, da, db_, why):
                out.append(('data', '; '.join(why), x))


def empties(I, prog, out):
    """no live key holds an empty collection"""
    S = I.S
    now = S.atom('now', 1_600_000_000_000, 4_100_000_000_000)
    for k, cell in touched(I, prog):
        m = find_dict(I, Ref(cell))
        if m is None:
            continue
        for e in list(m.ents):
            if e.cell is None:
                continue
            v = I.force(e.cell, 0)
            if type(v) is not Agg:
                continue
            d = vparts(I, v)[0]
            if type(d) is Sym or dkind(I, d) not in ('hash', 'list', 'set', 'zset'):
                continue
            c = api.container(I, d)
            n = models.length(I, c)
            if S.bounds(n)[0] <= 0 and S.eq0(n) and alive(I, v, now):
                out.append(('empty', 'key holding an empty %s' % dkind(I, d), e.key))


def accesses(I, prog, ini, out):
    """every live key the command worked on and left in place has a new access log"""
    now = I.S.atom('now', 1_600_000_000_000, 4_100_000_000_000)

    def log(v):
        names = [n for n, ty in v.ty.v[v.vi][2]]
        return I.force(v.f, names.index('visit_log')) if 'visit_log' in names else None
    for k, cell in touched(I, prog):
        a, b = find_dict(I, Ref(cell)), find_dict(I, Ref(slot_of_view(I, ini, k)))
        if a is None or b is None:
            continue
        for e in list(a.ents):
            if e.cell is None:
                continue
            o = norm_cell(I, b.lookup(I, e.key), now)
            if o is None:
                continue
            x, y = log(I.val(I.force(e.cell, 0))), log(I.val(o))
            if x is not None and y is not None and x == y:
                out.append(('access', 'the command is not noted as an access to its key', e.key))


def dual(I, prog, out):
    """member map and ordered index of every touched sorted set agree"""
    S = I.S
    for k, cell in touched(I, prog):
        m = find_dict(I, Ref(cell))
        if m is None:
            continue
        for e in list(m.ents):
            if e.cell is None:
                continue
            v = I.force(e.cell, 0)
            d = vparts(I, v)[0]
            if type(d) is not Agg or dkind(I, d) != 'zset':
                continue
            h, b = zparts(I, d)
            for he in list(h.ents):
                if he.cell is None:
                    continue
                n = I.force(he.cell, 0)
                if not any(x.cell is not None and models.same(I, x.key, n) for x in b.ents):
                    be = b.lookup(I, n)
                    if be.cell is None:
                        out.append(('dual', 'a member of the sorted set is missing from its ordered index, or has '
                                            'another score there', e.key))
                if not models.same(I, models.node_key(I, I.val(n)), he.key):
                    out.append(('dual', 'the node stored for a member names another member', e.key))
            for be in list(b.ents):
                if be.cell is None:
                    continue
                mk = models.node_key(I, I.val(be.key))
                he = h.lookup(I, mk)
                if he.cell is None:
                    out.append(('dual', 'the ordered index holds a member the sorted set does not have', e.key))
                elif not spec.sceq(I, score_of(I, he.cell[0]), score_of(I, be.key)):
                    out.append(('dual', 'the ordered index holds a stale score', e.key))


def witness(I, t, extra=''):
    S = I.S
    w = {'command': t.text, 'choices': list(S.trace)}
    w['values'] = {k: I_vname(v) for k, v in S.enumv.items()}
    w['equal'] = {k: repr(v) for k, v in S.bsub.items()}
    w['members'] = {n: [(repr(k), p) for k, p in r['m']] for n, r in S.maps.items() if type(n) is str}
    w['ranges'] = {' + '.join('%d*%s' % (c, a) for a, c in k): [str(f[0]), str(f[1])] for k, f in S.facts.items()}
    w['floats'] = {'%s ? %s' % k: sorted(v) for k, v in S.frel.items() if k[0] != k[1]}
    return w


def I_vname(v):
    return v


def sends(S, frag):
    return [e for e in S.ev if e['k'] == 'send' and e['chan'] and frag in e['chan']]


NUM = set('nmstoc')


def analyse(I, t, limits=None, mode='ref'):
    """-> summary dict of the template"""
    models.SLOTS = (16384, 16384)
    try:
        return _analyse(I, t, limits, mode)
    finally:
        models.SLOTS = (0, models.LEN_MAX)


def _analyse(I, t, limits, mode):
    lim = dict(paths=6000, time=400)
    lim.update(limits or {})
    res = {'template': t.text, 'paths': 0, 'judged': 0, 'undecided': collections.Counter(), 'cut': 0, 'skipped': 0,
           'findings': {}, 'rules': collections.Counter(), 'functions': set()}

    def found(S, rule, what, tags, stack=()):
        if S.imprecise:
            # a value on this path came from a function without a model: what follows from it is not known
            return
        key = (rule, what)
        f = res['findings'].get(key)
        if f is None:
            f = res['findings'][key] = {'rule': rule, 'what': what, 'tags': set(), 'n': 0, 'paths': [],
                                        'functions': None, 'tagsets': []}
        f['n'] += 1
        f['tags'] |= tags
        if tags not in f['tagsets']:
            f['tagsets'].append(set(tags))
            f['paths'].append(dict(witness(I, t), tags=sorted(tags)))
        if f['functions'] is None:
            f['functions'] = [k for k in S.data.get('fns', []) if 'apply' in k or 'call_' in k][:20] or list(stack)[-6:]

    def run(S):
        I.S = S
        I.entered = set()
        ws = [B(w[1:]) if w.startswith('$') else bconst(w.encode()) for w in t.words]
        try:
            st, v = cmdrun.run_command(I, ws)
            S.data['fns'] = sorted(I.entered)
            res['functions'] |= I.entered
            out = (judge if mode == 'ref' else effects)(S, st, v)
            res['functions'] |= I.entered
            return out
        except (PathEnd, Infeasible):
            S.data['fns'] = sorted(I.entered)
            raise
        except Exception as e:
            if not isinstance(e, Unsupported):
                e = Unsupported('analysis error %r %s' % (e, traceback.extract_tb(e.__traceback__)[-1]))
            raise PathEnd('unsupported', str(e)[:300], S.site(), tuple(s[0] for s in S.stack))

    def judge(S, st, v):
        for n in S.bsub:
            if n.startswith('lower('):
                return 'skip'          # an argument that spells an option word
        prog = S.world.db.c[0]
        out = []
        # how the path ended
        perr = st in ('parse_err', 'error')
        if st == 'reply':
            rep = absreply(I, v)
            if type(rep) is tuple and rep[0] == 'err':
                perr = True
        elif st == 'error':
            rep = ('err', errtext(I, v))
        elif st == 'parse_err':
            rep = ('err', None)
        elif st == 'Unknown':
            found(S, 'refused', 'the command is not recognised', {'unknown'})
            return 'judged'
        else:
            rep = ('other', st)
        nsend = len([e for e in S.ev if e['k'] == 'send'])
        tags = set()
        if t.ref is None:
            if not perr:
                found(S, 'accept', 'a malformed command is not refused', {'bad'})
            ref = I.val(initial(I))
        else:
            view = View(I, initial(I))
            c = C(I, view)
            args = {w[1:]: B(w[1:]) for w in t.words if w.startswith('$')}
            args.setdefault('b', None)
            want = err = None
            unspec = False
            try:
                want = t.ref(c, args)
            except SErr as e:
                err = e
                if e.prefix is spec.NOSLOT and 'multi' in t.tags:
                    return 'skip'      # keys of several slots, one of them not held here
            except Unspec:
                res['skipped'] += 1
                unspec = True
            if view.hit_expired:
                tags.add('expired')
            tags |= set(c.info)
            if unspec:
                if not perr:
                    return 'skip'
                ref = None
            elif err is not None:
                ref = I.val(initial(I))
                tags.add('wrongtype' if err.prefix == WT else 'invalid')
                if not perr:
                    found(S, 'reply', 'the command is carried out although it must be refused', tags)
                elif err.prefix:
                    tx = rep[1]
                    if tx is None or not api.starts_with(I, S.bnorm(tx), err.prefix):
                        found(S, 'reply', 'the error is not a %s error' % err.prefix.decode(), tags)
            else:
                ref = view.db.c[0]
                if perr:
                    found(S, 'reply', 'the command is refused although it is valid', tags)
                    ref = None
                if type(want) is spec.Bag:
                    want = bagflat(I, rep, want)
                if not perr and not replyeq(I, rep, want):
                    found(S, 'reply', 'the reply differs from the reference', tags)
        if ref is not None:
            compare_db(I, prog, ref, out)
        empties(I, prog, out)
        dual(I, prog, out)
        if not perr:
            accesses(I, prog, I.val(initial(I)), out)
        if perr:
            tags.add('error')
            if ref is None:
                fx = []
                compare_db(I, prog, I.val(initial(I)), fx)
                for rule, what, key in fx:
                    found(S, 'errfx', 'an error is reported although the %s has changed' % (
                        {'presence': 'keyspace', 'data': 'stored value', 'deadline': 'deadline'}[rule]), tags)
        for rule, what, key in out:
            found(S, rule, what, tags)
        return 'judged'

    def effects(S, st, v):
        for n in S.bsub:
            if n.startswith('lower('):
                return 'skip'
        return judge_effects(I, t, st, v, lambda rule, what, *tags: found(S, rule, what, set(tags)))

    for S, (k, v) in explore(run, lim):
        res['paths'] += 1
        if k == 'ok':
            if v == 'skip':
                continue
            res['judged'] += 1
            if S.imprecise:
                res['undecided'][S.imprecise[0]] += 1
        elif k in ('panic', 'exit') and S.imprecise:
            res['undecided'][S.imprecise[0]] += 1
        elif k == 'panic':
            found(S, 'panic', '%s in %s' % (v.why, short(v.stack)), {'panic'}, v.stack)
        elif k == 'exit' and v.why == 'process exit':
            found(S, 'panic', 'the server process ends in %s' % short(v.stack), {'panic'}, v.stack)
        elif k == 'cut':
            res['cut'] += 1
        else:
            res['undecided'][('%s %s' % (k, v.why))[:160]] += 1
    res['complete'] = lim['complete']
    res['seconds'] = lim['seconds']
    return res


# ------------------------------------------------------------------ effects beside the reply
def memdict(I, cell, depth=9):
    """the struct directly holding the key -> value map of a slot, or None"""
    v = I.deref(cell)
    if type(v) is Lock:
        return memdict(I, Ref(v.cell), depth - 1)
    if type(v) is Agg and depth:
        for i in range(len(v.f)):
            x = v.f[i]
            if type(x) in (int, Lin, B, Fl, float):
                continue
            y = I.deref(Ref(v.f, i))
            if type(y) is Map:
                if y.kind == 'hash' and y.vty is not None and y.vty.p == 'dict::Value':
                    return v
                continue
            r = memdict(I, Ref(v.f, i), depth - 1)
            if r is not None:
                return r
    return None


def seqno(I, md):
    """sequence number of a slot: the only plain integer beside the map"""
    out = [x for (n, ty), x in zip(md.ty.v[md.vi][2], [I.force(md.f, i) for i in range(len(md.f))]) if ty.s == 'u64']
    if len(out) != 1:
        raise Unsupported('sequence number field')
    return out[0]


def raw_deadline(I, e):
    if e.cell is None:
        return 0
    v = I.force(e.cell, 0)
    return vparts(I, v)[1]


def msgfield(I, m, pred):
    m = I.val(m)
    for i, (n, ty) in enumerate(m.ty.v[m.vi][2]):
        if pred(n, ty):
            return I.force(m.f, i)
    raise Unsupported('message field')


def judge_effects(I, t, st, v, found):
    """replication, sequence numbers, expiry index, locks, reads without effect"""
    S = I.S
    prog = S.world.db.c[0]
    ini = I.val(initial(I))
    fwd = [e for e in S.ev if e['k'] == 'send' and e['ty'] is not None and e['ty'].p.endswith('forward::message::Message')]
    exp = [e for e in S.ev if e['k'] == 'send' and e['ty'] is not None and e['ty'].p.endswith('expire::Message')]
    locks = [e for e in S.ev if e['k'] == 'lock']
    evs = list(S.ev)
    held = list(S.held)
    if held:
        found('lock', 'a lock is still held after the command')
    slots = touched(I, prog)
    slotlocks = {}
    for e in locks:
        if e['held']:
            found('lock', 'a lock is taken while another one is held')
        slotlocks.setdefault(id(e['lock']), []).append(e)
    for e in evs:
        if e['k'] == 'await' and e['held']:
            found('lock', 'a task is suspended while it holds a lock')
    refused = st == 'parse_err'
    if refused or 'read' in t.tags:
        if fwd:
            found('readfx', 'a replication message is sent for a command that changes nothing')
    one = 'multi' not in t.tags
    if st in ('reply', 'error') and one:
        for k, es in slotlocks.items():
            if len(es) > 1:
                found('atomic', 'the command works on its slot in %d critical sections' % len(es))
        if len(slotlocks) > 1:
            found('atomic', 'a single-key command locks %d slots' % len(slotlocks))
    for k, cell in slots:
        d = find_dict(I, Ref(cell))
        for e in list(d.ents) if d is not None else ():
            if type(e.key) is B and not S.eq0(lin_add(k, S.opatom('slotof', (S.bnorm(e.key),), 0, 16383), -1)):
                found('slot', 'a key is looked for in a slot that is not its own')
    # sequence numbers
    per = []
    ids = [(k, slotid(I, ini, k)) for k, _ in slots]

    def at(x, k):
        # a slot knows its own number (checked on its own)
        for j, y in ids:
            if x == y:
                return j == k
        return S.eq0(lin_add(x, k, -1))

    for k, cell in slots:
        a = memdict(I, Ref(cell))
        b = memdict(I, Ref(slot_of_view(I, ini, k)))
        if a is None or b is None:
            if (a is None) != (b is None):
                found('readfx' if 'read' in t.tags else 'seq', 'a command gives up or takes on a slot')
            continue
        x0, x1 = seqno(I, b), seqno(I, a)
        ms = [e for e in fwd if at(msgfield(I, e['v'], lambda n, ty: n == 'slot'), k)]
        per.append((k, a, b, x0, x1, ms))
        if refused or 'read' in t.tags:
            if not S.eq0(lin_add(x1, x0, -1)):
                found('readfx', 'a sequence number is consumed by a command that changes nothing')
            continue
        if not S.eq0(lin_add(lin_add(x1, x0, -1), -len(ms))):
            found('seq', 'the slot consumed another number of sequence numbers than it sent replication messages')
        for n, e in enumerate(ms):
            if not S.eq0(lin_add(lin_add(msgfield(I, e['v'], lambda n, ty: n == 'id'), x0, -1), -(n + 1))):
                found('seq', 'a replication message does not carry the sequence number of its write')
        if one and len(ms) > 1:
            found('seq', 'a single-key command sends %d replication messages' % len(ms))
    def under_lock(evs, rule, what, view):
        """messages about a slot leave in the order its lock was held"""
        for e in evs:
            if not e.get('held'):
                found(rule, what)
            elif len(e['held']) == 1:
                m = I.val(e['v'])
                k = msgfield(I, m, lambda n, ty: n == 'slot') if rule == 'seq' else None
                if k is not None and not any(e['held'][0] is slotlock(I, view, j) for j, _ in slots if at(k, j)):
                    found(rule, what)

    under_lock(fwd, 'seq', 'a replication message is sent without the lock of its slot, so later writes may overtake it', prog)
    under_lock(exp, 'expidx', 'the expiry index is told of a change without the lock of its slot, so later changes may overtake it', prog)
    if len(fwd) != sum(len(p[5]) for p in per):
        found('seq', 'a replication message names another slot')
    if refused or 'read' in t.tags:
        out = []
        compare_db(I, prog, ini, out)
        for rule, what, key in out:
            found('readfx', 'a command that must not change anything changes the %s' % (
                {'presence': 'keyspace', 'data': 'stored value', 'deadline': 'deadline'}[rule]))
        for e in exp:
            found('readfx', 'the expiry index is told of a change by a command that makes none')
        return 'judged'
    def index(evs, prog, who):
        """the messages to the expiry index agree with the deadlines that changed"""
        upd = []
        for e in evs:
            if e['k'] != 'send' or e['ty'] is None or not e['ty'].p.endswith('expire::Message'):
                continue
            m = I.val(e['v'])
            if m.vn() != 'Update':
                found('expidx', 'a command on one key sends a bulk message to the expiry index' + who)
                continue
            u = I.val(I.force(m.f, 0))
            s = I.val(msgfield(I, u, lambda n, ty: n == 'status'))
            upd.append((msgfield(I, u, lambda n, ty: n == 'slot'), msgfield(I, s, lambda n, ty: n == 'key'),
                        msgfield(I, s, lambda n, ty: n == 'before'), msgfield(I, s, lambda n, ty: n == 'new')))
        for k, a, b, x0, x1, ms in per:
            da, db_ = find_dict(I, Ref(slot_of_view(I, prog, k))), find_dict(I, Ref(slot_of_view(I, ini, k)))
            if da is None or db_ is None:
                continue
            for e in list(da.ents):
                o = db_.lookup(I, e.key)
                d0, d1 = raw_deadline(I, o), raw_deadline(I, e)
                if S.eq0(lin_add(d0, d1, -1)) or S.eq0(d1):
                    continue
                ok = False
                for sl, key, bf, nw in upd:
                    if at(sl, k) and keq(I, key, e.key) and S.eq0(lin_add(nw, d1, -1)):
                        ok = True
                        if not S.eq0(lin_add(bf, d0, -1)) and not S.eq0(bf):
                            found('expidx', 'the expiry index is told to drop a deadline the key did not have' + who)
                if not ok:
                    found('expidx', 'a key gets a deadline the expiry index is not told about' + who)
        for sl, key, bf, nw in upd:
            if S.eq0(nw):
                continue
            if S.eq0(lin_add(bf, nw, -1)):
                found('expidx', 'the expiry index is told to forget the deadline the key has' + who)
            for k, a, b, x0, x1, ms in per:
                da = find_dict(I, Ref(slot_of_view(I, prog, k)))
                e = da.lookup(I, key)
                if not S.eq0(lin_add(raw_deadline(I, e), nw, -1)):
                    found('expidx', 'the expiry index is told a deadline the key does not have' + who)

    index(evs, prog, '')
    if per and not fwd:
        out = []
        compare_db(I, prog, ini, out)
        if out:
            found('seq', 'a command changes a slot and sends no replication message')
    # replica: the messages, applied in order to the same initial state at a later time
    now = S.atom('now', 1_600_000_000_000, 4_100_000_000_000)
    now2 = S.atom('later', 1_600_000_000_000, 4_100_000_000_000)
    S.assume_range(lin_add(now2, now, -1), 0, 2**62)
    for k, a, b, x0, x1, ms in per:
        for d in (find_dict(I, Ref(slot_of_view(I, prog, k))), find_dict(I, Ref(slot_of_view(I, ini, k)))):
            for e in list(d.ents):
                x = raw_deadline(I, e)
                if S.eq0(x) or not S.ge0(lin_add(lin_add(x, now, -1), -1)):
                    continue
                S.assume_range(lin_add(x, now2, -1), 1, 2**63)
    S.data['clock'] = 'later'
    rep = Ref([initial(I)])
    I.deref(rep)
    n0 = len(S.ev)
    for k, a, b, x0, x1, ms in per:
        for e in ms:
            slot = Ref(slot_of_view(I, rep, k))
            o = I.val(I.call_key(cmdrun.one(I.P, PROCESS), [slot, msgfield(I, e['v'], lambda n, ty: n == 'id'),
                                                            msgfield(I, e['v'], lambda n, ty: 'WriteCmd' in ty.s)]))
            if o.vn() == 'Greater' and 'resync' in t.tags:
                return 'judged'        # a write no message carries: the replica fetches the slot again
            if o.vn() != 'Equal':
                found('replica', 'the next replication message in sequence is not applied')
    if [e for e in S.ev[n0:] if e['k'] == 'send' and e['ty'] is not None and 'forward' in e['ty'].p]:
        found('replica', 'a replica forwards what it applies')
    S.data['clock'] = 'now'
    index(S.ev[n0:], rep.c[0], ' (on a replica)')
    under_lock([e for e in S.ev[n0:] if e['k'] == 'send' and e['ty'] is not None and e['ty'].p.endswith('expire::Message')], 'expidx',
               'a replica tells the expiry index of a change without the lock of its slot, so later changes may overtake it', rep)
    out = []
    for k, a, b, x0, x1, ms in per:
        r = memdict(I, Ref(slot_of_view(I, rep, k)))
        if r is None:
            found('replica', 'the replica loses a slot')
            continue
        if not S.eq0(lin_add(seqno(I, r), x1, -1)):
            found('replica', 'replica and primary end with different sequence numbers')
    compare_db(I, prog, rep.c[0], out)
    for rule, what, key in out:
        found('replica', 'the %s differs on a replica that applied the message' % (
            {'presence': 'keyspace', 'data': 'stored value', 'deadline': 'deadline'}[rule]))
    return 'judged'


PROCESS = 'db::slot::replica_update::<impl db::slot::Slot>::process_forward'


def slotlock(I, db, k):
    v = I.val(slot_of_view(I, db, k)[0])
    for i in range(len(v.f)):
        x = v.f[i]
        if type(x) in (int, Lin, B, Fl, float):
            continue
        y = I.deref(Ref(v.f, i))
        if type(y) is Lock:
            return y
    raise Unsupported('slot lock')


def slotid(I, db, k):
    """identity a slot reports for itself (slot number = position, checked on its own)"""
    v = I.val(slot_of_view(I, db, k)[0])
    for i, (n, ty) in enumerate(v.ty.v[0][2]):
        if ty.s == 'usize':
            return I.force(v.f, i)
    raise Unsupported('slot number')


def bagflat(I, rep, want):
    """order the groups of an unordered array as the program returned them"""
    if type(rep) is not list or not want:
        return list(want) if not want else ['?']
    g = len(want[0])
    if len(rep) != g * len(want):
        return [0]
    left = list(want)
    out = []
    for i in range(0, len(rep), g):
        for grp in left:
            if type(rep[i]) is Txt and replyeq(I, rep[i], grp[0]):
                left.remove(grp)
                out += list(grp)
                break
        else:
            return [0]
    return out


def errtext(I, v):
    v = I.deref(v)
    if type(v) is B:
        return v
    if type(v) is Opq:
        x = v.a.get('v')
        x = I.deref(x) if x is not None else None
        return x if type(x) is B else None
    if type(v) is Agg and v.f:
        return errtext(I, v.f[0])
    return None


def short(stack):
    return stack[-1] if stack else '?'


if __name__ == '__main__':
    import templates
    P, I = cmdrun.make_interp(__import__('runner').facts_dir()[0])
    sel = sys.argv[1:]
    for t in templates.T:
        if sel and not any(t.text.startswith(s) or t.fam == s for s in sel):
            continue
        r = analyse(I, t)
        print(t.text, '|', 'paths', r['paths'], 'judged', r['judged'], 'cut', r['cut'], 'skip', r['skipped'],
              '%.1fs' % r['seconds'], '' if r['complete'] else 'INCOMPLETE')
        for u, n in r['undecided'].most_common(4):
            print('     U', n, u)
        for k, f in r['findings'].items():
            print('   >>>', k, f['n'], f['tagsets'])
