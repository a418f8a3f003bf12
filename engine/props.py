"""Which analysis units and which of their findings decide each property."""
import collections
import time
import traceback

import cmdrun
import judge
import locks
import runner
import templates

_G = {}
REF_RULES = {'reply', 'refused', 'accept', 'data', 'presence', 'deadline'}
COLL = {'list', 'hash', 'set', 'zset', 'zrng', 'zrem'}


def fam(*fs):
    return lambda t: t.fam in fs


def everything(t):
    return True


def is_write(t):
    return 'write' in t.tags


def is_read(t):
    return 'read' in t.tags


# property -> (mode, template filter, finding filter(rule, tags, template))
TPL = {
    'C01': [('eff', is_write, lambda r, g, t: r == 'seq')],
    'C02': [('eff', is_write, lambda r, g, t: r == 'replica')],
    'C03': [('eff', lambda t: not is_write(t), lambda r, g, t: r == 'readfx'),
            ('ref', is_read, lambda r, g, t: r in ('data', 'presence', 'deadline'))],
    'C04': [('ref', lambda t: t.fam != 'bad', lambda r, g, t: r in REF_RULES and 'expired' in g)],
    'C05': [('ref', lambda t: t.fam != 'bad', lambda r, g, t: r in REF_RULES and 'wrongtype' in g)],
    'C06': [('ref', everything, lambda r, g, t: r == 'errfx' or 'error' in g and r in ('data', 'presence', 'deadline'))],
    'C09': [('ref', everything, lambda r, g, t: r == 'panic')],
    'C11': [('ref', fam('zset', 'zrem'), lambda r, g, t: r == 'dual')],
    'C12': [('ref', lambda t: t.fam in COLL and is_write(t),
             lambda r, g, t: r == 'empty' or r == 'presence')],
    'C13': [('ref', fam('ttl', 'str', 'cnt'), lambda r, g, t: r == 'deadline' or t.fam == 'ttl' and r in REF_RULES
             or r == 'presence')],
    'C14': [('ref', lambda t: 'cond' in t.tags, lambda r, g, t: r in REF_RULES)],
    'C15': [('ref', everything, lambda r, g, t: r == 'accept' or r in REF_RULES and ('invalid' in g or t.fam == 'bad'))],
    'C16': [('ref', lambda t: t.fam != 'bad', lambda r, g, t: r in REF_RULES and 'missing' in g)],
    'C17': [('eff', everything, lambda r, g, t: r == 'lock')],
    'C18': [('eff', everything, lambda r, g, t: r == 'atomic')],
    'C19': [('eff', is_write, lambda r, g, t: r == 'expidx')],
    'C28': [('eff', everything, lambda r, g, t: r == 'slot')],
    'C31': [('ref', lambda t: t.text.split()[0] in ('dump', 'restore'), lambda r, g, t: r in REF_RULES)],
    'C33': [('ref', fam('cnt'), lambda r, g, t: r in REF_RULES or r == 'panic')],
    'C34': [('ref', fam('list'), lambda r, g, t: r in REF_RULES)],
    'C35': [('ref', lambda t: t.fam == 'hash' or t.text.startswith('hincrby'), lambda r, g, t: r in REF_RULES)],
    'C36': [('ref', fam('set'), lambda r, g, t: r in REF_RULES)],
    'C37': [('ref', fam('zset'), lambda r, g, t: r in REF_RULES)],
    'C38': [('ref', fam('zrng', 'zrem'), lambda r, g, t: r in REF_RULES)],
    'C41': [('ref', lambda t: t.fam != 'bad' or t.text.split()[0] == 'object',
             lambda r, g, t: r in REF_RULES if t.text.split()[0] == 'object' else r == 'access' and t.text.split()[0] not in ('ttl', 'pttl'))],
    'C39': [('ref', fam('str', 'key'), lambda r, g, t: r in REF_RULES)],
}
DIRECT = {}          # property -> [functions(I) -> Report], filled by the rules modules

ASSUME = [
    'the clock does not step within one command; deadlines fit a signed 64-bit integer',
    'stored collections are not empty and stored scores are not NaN at the start (shown to be preserved by every command)',
    'library code (std, tokio, flume, parking_lot, bincode, serde, nom) behaves as modelled in engine/models.py, engine/api.py',
    'collections are represented by the members a command names plus a few further representatives (quick: 3, lists 5; thorough: 4, lists 6)',
]


class Report:
    """result of one direct analysis"""

    def __init__(self, name):
        self.name = name
        self.findings = []
        self.counts = collections.Counter()
        self.functions = set()
        self.undecided = collections.Counter()
        self.samples = []
        self.locks = None
        self.S = None

    def bad(self, key, where=(), **detail):
        if self.S is not None and self.S.imprecise:
            # a value on this path came from a function without a model: what follows from it is not known
            self.undecided[self.S.imprecise[0]] += 1
            return
        self.findings.append(dict(key='%s|%s' % (self.name, key), rule=self.name, what=key, where=list(where), detail=detail))


def depth(t, tier):
    """how many elements of an unknown collection are told apart: more where the order among them adds no cases"""
    n = 3 if t.fam != 'list' else 5
    if tier == 'thorough':
        n += 1
    # a check answers within its time: what is left bounds the single analysis, unfinished ones are listed as incomplete
    left = 780 - (time.time() - _G.get('t0', time.time()))
    return dict(reps=n, loop=n + 4, time=max(5, min(400, left)), **(dict(paths=40000) if tier == 'thorough' else {}))


def _tpl(i, mode, tier='quick'):
    t = templates.T[i]
    if tier == 'thorough' and time.time() - _G.get('t0', time.time()) > 420:
        tier = 'quick'
    r = judge.analyse(_G['I'], t, depth(t, tier), mode=mode)
    r['tier'] = tier
    if not r['complete'] and tier == 'thorough':
        # the deeper analysis was not finished: what the shallower one covers must not be lost
        q = judge.analyse(_G['I'], t, depth(t, 'quick'), mode=mode)
        for k, f in q['findings'].items():
            r['findings'].setdefault(k, f)
    return r


def _direct(f):
    r = Report(f.__name__)
    t = time.time()
    f(_G['I'], r)
    r.seconds = time.time() - t
    return r


def _locks(f):
    r = Report('locks')
    r.locks = locks.Edges()
    f(_G['I'], r)
    r.findings = []
    return r


# property -> the direct rules whose lock use is judged together
LOCKS = {'C30': lambda n: True, 'C17': lambda n: n in ('flush_everything', 'snapshot_request')}


def run(prop, tier, facts):
    P, I = cmdrun.make_interp(facts)
    _G['P'], _G['I'], _G['t0'] = P, I, time.time()
    load_direct()
    jobs, meta = [], []
    for mode, sel, flt in TPL.get(prop, ()):
        for i, t in enumerate(templates.T):
            if sel(t) and (tier == 'thorough' or 'deep' not in t.tags):
                jobs.append((_tpl, (i, mode, tier)))
                meta.append((t, mode, flt))
    for f in DIRECT.get(prop, ()):
        jobs.append((_direct, (f,)))
        meta.append((None, None, f))
    if prop in LOCKS:
        for f in dict.fromkeys(f for fs in DIRECT.values() for f in fs):
            if LOCKS[prop](f.__name__):
                jobs.append((_locks, (f,)))
                meta.append((None, 'locks', f))
    if not jobs:
        raise SystemExit('no analysis for %s' % prop)
    findings, fns, und, crashed = [], set(), collections.Counter(), []
    paths = judged = cut = skipped = ntpl = deep = 0
    counts = collections.Counter()
    samples = []
    incomplete = []
    dead = []
    edges = locks.Edges()
    for i, st, r in runner.pool(jobs, lambda i: 9 if meta[i][0] is not None and len(meta[i][0].words) > 4 else 1):
        t, mode, flt = meta[i]
        if st == 'crash':
            crashed.append(r.strip().splitlines()[-1])
            und['crash: %s' % r.strip().splitlines()[-1][:120]] += 1
            continue
        if mode == 'locks':
            edges.merge(r.locks)
            fns |= r.functions
            counts.update(r.counts)
            und.update(r.undecided)
            continue
        if t is None:
            findings += r.findings
            fns |= r.functions
            counts.update(r.counts)
            und.update(r.undecided)
            samples += r.samples[:3]
            continue
        ntpl += 1
        paths += r['paths']
        judged += r['judged']
        cut += r['cut']
        und.update(r['undecided'])
        fns |= r['functions']
        deep += r['tier'] == 'thorough'
        if not r['complete']:
            incomplete.append(t.text)
        if not r['judged']:
            dead.append(t.text)
        if len(samples) < 4:
            samples.append({'template': t.text, 'mode': mode, 'partitions': r['paths'], 'judged': r['judged']})
        for f in r['findings'].values():
            hit = [p for p, g in zip(f['paths'], f['tagsets']) if flt(f['rule'], g, t)]
            if hit:
                findings.append(dict(key='%s|%s|%s' % (t.text, f['rule'], f['what']), rule=f['rule'], what=f['what'],
                                     template=t.text, partitions=f['n'], where=f['functions'], witness=hit[0]))
    if prop in LOCKS:
        r = Report('locks')
        locks.verdict(edges, r)
        findings += r.findings
        counts.update(r.counts)
    findings.sort(key=lambda f: f['key'])
    nund = sum(und.values())
    cov = dict(
        explanation='Static analysis of the type-checked program (MIR of the current tree, all instances reachable from the '
                    'entry points): path-sensitive abstract interpretation, no execution. '
                    + ('Each command template (unknown arguments, unknown database) is interpreted from the request frame to '
                       'the reply and every trace partition is judged. ' if ntpl else '')
                    + ('Direct rules: %s.' % ', '.join(f.__name__ for f in DIRECT.get(prop, ())) if DIRECT.get(prop) else '')
                    + (' Every lock acquisition and every wait in the analyses of the server, its tasks and the placement '
                       'driver is collected with the locks held there, and the whole is judged at once.'
                       if prop in LOCKS else ''),
        templates=ntpl, templates_analysed_deeper=deep, partitions=paths, judged=judged, bound_cut=cut, undecided=nund,
        undecided_reasons=dict(und.most_common(8)), functions_analysed=len(fns),
        functions=sorted(fns) if tier == 'thorough' else sorted(f for f in fns if '::{closure' not in f)[:60], incomplete_templates=incomplete,
        undecidable_templates=dead, rule_counts=dict(counts), crashed=crashed[:5], samples=samples)
    vac = ''
    if ntpl and not judged:
        vac = 'no trace partition could be judged'
    elif not ntpl and not counts and not findings:
        vac = 'no obligation was found'
    bits = []
    if ntpl:
        bits.append('%d command templates, %d partitions judged of %d' % (ntpl, judged, paths))
    if counts:
        bits.append(', '.join('%d %s' % (n, k) for k, n in sorted(counts.items())))
    bits.append('%d functions' % len(fns))
    return dict(findings=findings, coverage=cov, assumptions=ASSUME if ntpl else ASSUME[2:3], summary='; '.join(bits),
                vacuous=vac)


def load_direct():
    import direct
    import direct2
    import direct3
    import direct4
    for p, fs in direct.RULES.items():
        DIRECT[p] = fs
