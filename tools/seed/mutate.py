"""mutate.py [-n N] [-s SEED] [-f SUBSTR] OUT: systematic small changes of the original lines, each judged by the analyses that reach it

Development aid. Every line of OUT: the change, and KILLED (first finding), LIVE, NOBUILD or UNREACHED (no analysis enters the function)."""
import collections, json, os, pickle, random, re, subprocess, sys, time
sys.path.insert(0, '/verif/engine')
sys.path.insert(0, '/verif/tools/seed')
sys.setrecursionlimit(20000)
os.environ.setdefault('TRIAL_DIR', '/tmp/w/mut')
import trial
from trial import runner, props, templates, cmdrun, sh
W = trial.W
REPO = runner.REPO

RULES = [
    (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
    (r' && ', ' || '), (r' \|\| ', ' && '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
    (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r'if !', 'if '), (r'\bif (?!let|!)', 'if !'),
    (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r'pop_front', 'pop_back'), (r'push_front', 'push_back'),
    (r'pop_back', 'pop_front'), (r'push_back', 'push_front'), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'),
    (r'\bmap_or\(0', 'map_or(1'), (r'1000', '1001'), (r'\.is_empty\(\)', '.is_empty() == false'),
    (r' \+= ', ' -= '), (r' -= ', ' += '), (r'Included', 'Excluded'), (r'Excluded', 'Included'), (r'\bNone,', 'Some(Default::default()),'),
    (r'\.rev\(\)', ''), (r'\.any\(', '.all('), (r'\.all\(', '.any('), (r'\bb\b\.\.e\b', 'b..=e'), (r'\bstart\b', 'stop'),
]


def lines_of(rel):
    """original, non-test lines"""
    base = sh('cd /repo && git show 1a9a116:%s' % rel).stdout.split('\n')
    orig = set(base)
    out = []
    src = open('/repo/' + rel).read().split('\n')
    for n, l in enumerate(src):
        if 'cfg(test)' in l or re.match(r'\s*mod tests?\b', l):
            break
        s = l.strip()
        if not s or s.startswith('//') or s.startswith('use ') or s.startswith('#') or s.startswith('pub mod') or l not in orig:
            continue
        out.append((n, l))
    return out


def mutants(sub):
    res = []
    for rel in sh("cd /repo && git ls-files '*.rs'").stdout.split():
        if not re.match(r'component/(dict|db|server|pd|common|macros)/src', rel) or sub not in rel:
            continue
        for n, l in lines_of(rel):
            code = l.split('//')[0]
            if '"' in code and 'tracing' in code or 'debug!' in code or 'info!' in code or 'warn!' in code or 'error!' in code:
                continue
            for a, b in RULES:
                for m in re.finditer(a, code):
                    if '<' in a and re.search(r'(fn|impl|struct|->|::<)', code):
                        continue
                    res.append((rel, n, l, l[:m.start()] + b + l[m.end():]))
            s = code.strip()
            if s.endswith(';') and not s.startswith(('let ', 'return', 'use ', 'const', 'static', 'pub ', 'type ', 'break', 'continue')) \
                    and s.count('(') == s.count(')') and s.count('{') == s.count('}') and not s.startswith(('}', ')', '.')):
                res.append((rel, n, l, l[:len(l) - len(l.lstrip())] + '{}'))
    return res


def baseline():
    f = W + '/base.pickle'
    trial.tree()
    facts, _ = runner.facts_dir()
    P, I = cmdrun.make_interp(facts)
    props._G['P'], props._G['I'] = P, I
    props.load_direct()
    src = sh('cd /verif && cat engine/*.py | sha1sum').stdout + sh('git -C /repo rev-parse HEAD').stdout
    if os.path.exists(f):
        o = pickle.load(open(f, 'rb'))
        if o[0] == src:
            return o[1]
    jobs, key = [], []
    for p in trial.CLAIMED:
        for mode, sel, flt in props.TPL.get(p, ()):
            for i, t in enumerate(templates.T):
                if sel(t) and 'deep' not in t.tags and (i, mode) not in key:
                    key.append((i, mode))
                    jobs.append((props._tpl, (i, mode)))
        for d in props.DIRECT.get(p, ()):
            if d.__name__ not in key:
                key.append(d.__name__)
                jobs.append((props._direct, (d,)))
    span = {k: v['span'] for k, v in P.fns.items()}
    whole = {v['span'] for k, v in P.fns.items() if '{closure' not in k}
    res = {}
    for i, st, r in runner.pool(jobs):
        if st == 'crash':
            print('CRASH', key[i], r[-300:])
            continue
        fns = r['functions'] if type(r) is dict else r.functions
        sec = r['seconds'] if type(r) is dict else r.seconds
        keys = [k for k in (r['findings'] if type(r) is dict else [x['key'] for x in r.findings])]
        res[key[i]] = (sec, {span[k] for k in fns if k in span}, keys)
    res = res, whole
    pickle.dump((src, res), open(f, 'wb'))
    return res


def accepted(t, mode, f):
    for p in trial.CLAIMED:
        for m, sel, flt in props.TPL.get(p, ()):
            if m == mode and sel(t) and any(flt(f['rule'], g, t) for g in f['tagsets']):
                return p


def judge_one(keys, base):
    """first finding or None"""
    facts, _ = runner.facts_dir()
    P, I = cmdrun.make_interp(facts)
    props._G['P'], props._G['I'] = P, I
    direct = {d.__name__: (p, d) for p, ds in props.DIRECT.items() for d in ds}
    jobs = []
    for k in keys:
        jobs.append((props._tpl, k) if type(k) is tuple else (props._direct, (direct[k][1],)))
    und = 0
    for i, st, r in runner.pool(jobs):
        k = keys[i]
        if st == 'crash':
            und += 1
            continue
        if type(k) is tuple:
            t = templates.T[k[0]]
            for fk, f in r['findings'].items():
                if fk in base[k][2]:
                    continue
                p = accepted(t, k[1], f)
                if p:
                    return '%s %s|%s|%s' % (p, t.text, f['rule'], f['what']), und
            und += sum(r['undecided'].values())
        else:
            for f in r.findings:
                if f['key'] not in base[k][2]:
                    return '%s %s' % (direct[k][0], f['key'][:120]), und
            und += sum(r.undecided.values())
    return None, und


def main():
    a = sys.argv[1:]
    n, seed, sub, out, first = 40, 1, '', None, set()
    while a:
        x = a.pop(0)
        if x == '-n':
            n = int(a.pop(0))
        elif x == '-s':
            seed = int(a.pop(0))
        elif x == '-first':
            first = {json.loads(l)['id'] for l in open(a.pop(0))}
        elif x == '-f':
            sub = a.pop(0)
        else:
            out = x
    base, whole = baseline()
    ms = mutants(sub)
    random.Random(seed).shuffle(ms)
    ms.sort(key=lambda m: '%s:%d:%s' % (m[0], m[1] + 1, m[3].strip()) not in first)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            done.add(json.loads(l)['id'])
    o = open(out, 'a')
    k = 0
    for rel, ln, old, new in ms:
        if k >= n:
            break
        id_ = '%s:%d:%s' % (rel, ln + 1, new.strip())
        if id_ in done:
            continue
        k += 1
        t0 = time.time()
        spans = set()
        for kk, (sec, sp, _) in base.items():
            spans |= {s for s in sp if s.startswith(rel + ':')}
        before = [int(s.split(':')[1]) for s in spans if int(s.split(':')[1]) <= ln + 1]
        res = {'id': id_, 'old': old.strip(), 'new': new.strip()}
        hit = {'%s:%d' % (rel, max(before))} if before else set()
        before = [b for b in before if '%s:%d' % (rel, b) in whole]     # and the function around a closure
        hit |= {'%s:%d' % (rel, max(before))} if before else set()
        keys = [kk for kk, (sec, sp, _) in base.items() if any(s.rsplit(':', 1)[0] in hit or s in hit for s in sp)]
        if 'macros' in rel:
            keys = [kk for kk in base if type(kk) is tuple and base[kk][0] < 1.5]
        if not keys:
            res['r'] = 'UNREACHED'
        else:
            keys.sort(key=lambda kk: base[kk][0])
            tot, use = 0, []
            for kk in keys:
                tot += base[kk][0]
                if use and tot > 240:
                    break
                use.append(kk)
            trial.tree()
            p = REPO + '/' + rel
            ls = open(p).read().split('\n')
            assert ls[ln] == old
            ls[ln] = new
            open(p, 'w').write('\n'.join(ls))
            try:
                f, und = judge_one(use, base)
                res['r'] = 'KILLED' if f else 'LIVE'
                res['by'] = f
                res['und'] = und
                res['jobs'] = '%d/%d' % (len(use), len(keys))
            except runner.BuildBroken:
                res['r'] = 'NOBUILD'
        res['s'] = round(time.time() - t0, 1)
        o.write(json.dumps(res) + '\n')
        o.flush()


if __name__ == '__main__':
    main()
