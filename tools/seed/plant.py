"""plant.py [ids]: write /verif/seeded/<id>/ from bugs.py and confirm each in a scratch copy of /repo"""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SEED = '/verif/seeded'
W = '/tmp/w/rp'
sys.path.insert(0, HERE)
BASE = '1a9a116'


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def main():
    import importlib, glob
    bugs = []
    for f in sorted(glob.glob(HERE + '/bugs*.py')):
        bugs += importlib.import_module(os.path.basename(f)[:-3]).BUGS
    ids = sys.argv[1:]
    for b in bugs:
        if ids and b['id'] not in ids:
            continue
        if not ids and os.path.exists('%s/%s/patch.diff' % (SEED, b['id'])):
            continue
        sh('rm -rf %s/component %s/bin; rsync -a --delete --exclude target --exclude .git /repo/ %s/' % (W, W, W)) if 0 else None
        sh('cd %s && git checkout -q -- . && git fetch -q /repo && git reset -q --hard $(git -C /repo rev-parse HEAD)' % W)
        bad = None
        for f, old, new in b['edits']:
            p = os.path.join(W, f)
            s = open(p).read()
            if s.count(old) != 1:
                bad = '%s: %d matches' % (f, s.count(old))
                break
            # only original lines may go
            a = s[:s.index(old)].count('\n') + 1
            bl = sh('cd %s && git blame -s HEAD -L %d,+%d -- %s' % (W, a, old.count('\n') + 1, f)).stdout
            open(p, 'w').write(s.replace(old, new))
        if bad:
            print(b['id'], 'BAD', bad)
            continue
        diff = sh('cd %s && git diff' % W).stdout
        own = []
        cur, ln = None, 0
        for l in sh('cd %s && git diff -U0' % W).stdout.splitlines():
            m = re.match(r'--- a/(.*)', l)
            if m:
                cur = m.group(1)
            m = re.match(r'@@ -(\d+)', l)
            if m:
                ln = int(m.group(1))
            elif l.startswith('-') and not l.startswith('---'):
                x = sh('cd %s && git blame -s HEAD -L %d,+1 -- %s' % (W, ln, cur)).stdout
                if BASE not in x and '^' + BASE[:7] not in x:
                    own.append(l)
                ln += 1
        if own:
            print(b['id'], 'BAD touches lines of fixes', own)
            continue
        d = '%s/%s' % (SEED, b['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        if 'rust' in b:
            open(d + '/main.rs', 'w').write(b['rust'].lstrip('\n'))
            shutil.copy(HERE + '/demo_rs.sh', d + '/demo.sh')
        else:
            open(d + '/demo.py', 'w').write('from rd import *\n\n' + b['demo'].lstrip('\n'))
            shutil.copy(HERE + '/rd.py', d + '/rd.py')
            shutil.copy(HERE + '/demo.sh', d + '/demo.sh')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        # patched: build, tests, demo
        r = sh('cd %s && bash %s/bt.sh %s' % (W, HERE, W))
        t = r.stdout.strip().splitlines()
        pr = sh('bash %s/demo.sh' % d, cwd=W)
        sh('cd %s && git checkout -q -- .' % W)
        cl = sh('bash %s/demo.sh' % d, cwd=W)
        ok = r.returncode == 0 and pr.returncode not in (0, 2) and cl.returncode == 0
        print(b['id'], 'OK' if ok else 'BAD', 'tests rc', r.returncode, t[-1:] , 'patched demo', pr.returncode, 'clean demo', cl.returncode, flush=True)
        if not ok or '-v' in sys.argv:
            print('   tests:', '\n'.join(t[-8:]))
            print('   patched:', pr.stdout[-600:])
            print('   clean:', cl.stdout[-600:])
        if not ok:
            shutil.rmtree(d)


main()
