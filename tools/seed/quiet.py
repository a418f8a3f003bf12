"""quiet.py [ids] [-each] [-p C01,C02]: apply behaviour-preserving edits (refac*.py) and require that nothing is reported

By default all edits are applied together and every claimed property is judged; -each takes them one at a time."""
import glob, importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import trial


def edits(ids):
    out = []
    for f in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__)) + '/refac*.py')):
        m = importlib.import_module(os.path.basename(f)[:-3])
        out += [x for x in m.R if not ids or x[0] in ids or os.path.basename(f)[:-3] in ids]
    return out


def packed(es):
    """groups of edits that do not touch the same text"""
    out = []
    for e in es:
        for g in out:
            if fits(g + [e]):
                g.append(e)
                break
        else:
            out.append([e])
    return out


def fits(es):
    text = {}
    for i, ed in es:
        for f, old, new in ed:
            s = text.setdefault(f, open(os.path.join('/repo', f)).read())
            if s.count(old) != 1:
                return False
            text[f] = s.replace(old, new)
    return True


def apply(es):
    trial.tree()
    for i, ed in es:
        for f, old, new in ed:
            p = os.path.join(trial.runner.REPO, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(i, 'BAD', f, s.count(old), 'matches')
                return False
            open(p, 'w').write(s.replace(old, new))
    return True


def go(es, ps):
    name = es[0][0] if len(es) == 1 else '%d edits' % len(es)
    if not apply(es):
        return
    try:
        out, und = trial.analyse(ps)
    except trial.runner.BuildBroken as e:
        print(name, 'BUILD BROKEN', str(e)[-1500:])
        return
    hits = {p: k for p, k in out.items() if k}
    print(name, 'QUIET' if not hits else 'ALARM %s' % sorted(hits), dict(und.most_common(12)), flush=True)
    for p in sorted(hits):
        print('    ', p, len(hits[p]), [x[:200] for x in hits[p][:4]])


if __name__ == '__main__':
    a = sys.argv[1:]
    ps, each, ids = None, False, []
    while a:
        x = a.pop(0)
        if x == '-p':
            ps = a.pop(0).split(',')
        elif x == '-each':
            each = True
        else:
            ids.append(x)
    es = edits(ids)
    for g in ([[e] for e in es] if each else packed(es)):
        go(g, ps or trial.CLAIMED)
