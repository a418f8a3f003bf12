"""caught.py [ids]: apply each planted change to /repo, run the checks (its own property first, then all), undo"""
import json, os, subprocess, sys
ids = [a for a in sys.argv[1:] if not a.startswith('-')]
SEED = '/verif/seeded'
man = json.load(open('/verif/MANIFEST.json'))
props = [c['property_id'] if 'property_id' in c else c['property'] for c in man['checks']] if 'checks' in man else []


def sh(c):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


out = '/verif/tools/seed/caught.json'
res = json.load(open(out)) if os.path.exists(out) else {}
for i in sorted(os.listdir(SEED)):
    if ids and i not in ids:
        continue
    p = json.load(open('%s/%s/meta.json' % (SEED, i)))['property']
    if sh('git -C /repo status --porcelain').stdout.strip():
        sys.exit('/repo is not clean')
    r = sh('git -C /repo apply %s/%s/patch.diff' % (SEED, i))
    if r.returncode:
        print(i, 'does not apply', r.stdout)
        continue
    hits = {}
    try:
        for q in ([p] if '-own' in sys.argv else [p] + [x for x in props if x != p]):
            r = sh('cd /verif && ./check %s' % q)
            if r.returncode == 1 and 'VIOLATION property=%s' % q in r.stdout:
                hits[q] = [l.strip() for l in r.stdout.splitlines() if l.startswith('  ') and not l.startswith('    ')][:3]
            elif r.returncode:
                hits[q] = ['rc %d %s' % (r.returncode, r.stdout[-300:])]
    finally:
        sh('git -C /repo checkout -q -- .')
    res[i] = {'property': p, 'caught_by': sorted(hits), 'own': p in hits}
    print(i, p, 'CAUGHT' if p in hits else 'missed by own', sorted(hits), hits.get(p), flush=True)
    if '-own' not in sys.argv:
        json.dump(res, open(out, 'w'), indent=1)
