"""trial.py [-p C01,C02] [-all] DIFF-or-bug-id...: analyse a scratch copy of /repo with each change applied

Development aid: the registered checks are the judge; this shares one analysis of each template between the properties.
Without -p/-all only the property named by the change's meta.json is judged ('-all' = every claimed property)."""
import collections, json, os, subprocess, sys, time
sys.path.insert(0, '/verif/engine')
sys.setrecursionlimit(20000)
import runner
W = os.environ.get('TRIAL_DIR', '/tmp/w/trial')
runner.REPO = W + '/repo'
runner.BUILD = W + '/build'
import props, templates, cmdrun
man = json.load(open('/verif/MANIFEST.json'))
CLAIMED = [c['property_id'] if 'property_id' in c else c['property'] for c in man['checks']]
OUT = '/verif/tools/seed/caught.json'


def sh(c):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def analyse(ps, tier='quick'):
    facts, _ = runner.facts_dir()
    P, I = cmdrun.make_interp(facts)
    props._G['P'], props._G['I'] = P, I
    props.load_direct()
    jobs, meta, ix = [], [], {}
    use = collections.defaultdict(list)
    for p in ps:
        for mode, sel, flt in props.TPL.get(p, ()):
            for i, t in enumerate(templates.T):
                if sel(t) and (tier == 'thorough' or 'deep' not in t.tags):
                    if (i, mode) not in ix:
                        ix[i, mode] = len(jobs)
                        jobs.append((props._tpl, (i, mode, tier)))
                        meta.append(t)
                    use[ix[i, mode]].append((p, flt))
        for f in props.DIRECT.get(p, ()):
            if f not in ix:
                ix[f] = len(jobs)
                jobs.append((props._direct, (f,)))
                meta.append(None)
            use[ix[f]].append((p, None))
    for p in ps:
        for f in dict.fromkeys(f for fs in props.DIRECT.values() for f in fs) if p in props.LOCKS else ():
            if props.LOCKS[p](f.__name__):
                if ('locks', f) not in ix:
                    ix['locks', f] = len(jobs)
                    jobs.append((props._locks, (f,)))
                    meta.append('locks')
                use[ix['locks', f]].append((p, None))
    edges = collections.defaultdict(props.locks.Edges)
    out = collections.defaultdict(list)
    und = collections.Counter()
    for i, st, r in runner.pool(jobs, lambda i: 9 if meta[i] not in (None, 'locks') and len(meta[i].words) > 4 else 1):
        if st == 'crash':
            print('CRASH', meta[i] not in (None, 'locks') and meta[i].text or jobs[i][1][0].__name__, r[-600:])
            continue
        if meta[i] == 'locks':
            for p, _ in use[i]:
                edges[p].merge(r.locks)
            continue
        if meta[i] is None:
            und.update(r.undecided)
            for p, _ in use[i]:
                out[p] += [f['key'] for f in r.findings]
            continue
        und.update(r['undecided'])
        for p, flt in use[i]:
            for f in r['findings'].values():
                if any(flt(f['rule'], g, meta[i]) for g in f['tagsets']):
                    out[p].append('%s|%s|%s' % (meta[i].text, f['rule'], f['what']))
    for p in edges:
        r = props.Report('locks')
        props.locks.verdict(edges[p], r)
        out[p] += [f['key'] for f in r.findings]
    kn = [l.split(' key=', 1)[1].split(' :: ')[0] for l in open('/verif/known-findings.txt') if l.startswith('known:')]
    return {p: sorted(set(k for k in ks if k not in kn)) for p, ks in out.items()}, und


def tree():
    sh('mkdir -p %s; [ -d %s/.git ] || git clone -q /repo %s' % (W, runner.REPO, runner.REPO))
    r = sh('cd %s && git fetch -q origin && git reset -q --hard origin/HEAD && git clean -fdq -e target' % runner.REPO)
    if r.returncode:
        sys.exit(r.stdout)


if __name__ == '__main__':
    a = sys.argv[1:]
    ps, ids = None, []
    while a:
        x = a.pop(0)
        if x == '-p':
            ps = a.pop(0).split(',')
        elif x == '-all':
            ps = CLAIMED
        else:
            ids.append(x)
    for i in ids:
        tree()
        own = None
        f = i
        if os.path.isdir('/verif/seeded/' + i):
            f = '/verif/seeded/%s/patch.diff' % i
            own = json.load(open('/verif/seeded/%s/meta.json' % i))['property']
        if f != 'clean':
            r = sh('cd %s && git apply %s' % (runner.REPO, f))
            if r.returncode:
                print(i, 'does not apply', r.stdout)
                continue
        t = time.time()
        try:
            out, und = analyse(ps or [own])
        except runner.BuildBroken as e:
            print(i, 'BUILD BROKEN', e)
            continue
        hits = {p: k for p, k in out.items() if k}
        print(i, own, 'CAUGHT' if own in hits else 'missed by own' if own else '', sorted(hits), '%.0fs' % (time.time() - t),
              dict(und.most_common(3)), flush=True)
        for p in sorted(hits):
            print('    ', p, len(hits[p]), hits[p][:3])
        if own:
            res = json.load(open(OUT)) if os.path.exists(OUT) else {}
            o = res.get(i, {})
            got = set(o.get('caught_by', [])) - set(ps or [own]) | set(hits)
            res[i] = {'property': own, 'caught_by': sorted(got), 'own': own in hits}
            json.dump(res, open(OUT, 'w'), indent=1)
