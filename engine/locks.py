"""Locks over the whole system: which lock is taken while which is held, and what is waited for while one is held"""
import collections


class Edges:
    """what one analysis saw; kept free of analysis objects, so that it can be sent between processes"""

    def __init__(self):
        self.n = collections.Counter()       # lock class -> acquisitions
        self.edges = collections.defaultdict(set)     # (held, taken) -> {place}
        self.again = set()       # (class, place): a lock is taken that this task already holds
        self.wait = set()        # (class, what, place)
        self.kept = set()        # classes of locks still held when the analysed task ended

    def add(self, I, S):
        if S.imprecise:
            return
        ids = S.lockcls

        def cls(l):
            c = ids.get(id(l))
            return c[0] if c is not None else None

        child = False
        for e in S.ev:
            if e['k'] == 'fork' and e['who'] == 'child':
                child = True        # another process: nobody else can take its copies of the locks
                break
            if e['k'] == 'lock':
                c = cls(e['lock'])
                if c is None:
                    continue
                self.n[c] += 1
                for h in e['held']:
                    if h is e['lock']:
                        self.again.add((c, e['at']))
                        continue
                    d = cls(h)
                    if d is not None:
                        self.edges[d, c].add(e['at'])
            elif e['k'] in ('await', 'block'):
                for h in e['held']:
                    d = cls(h)
                    if d is not None:
                        self.wait.add((d, e['what'] if type(e['what']) is str else '?', e['at']))

        if not child:
            for h in S.held:
                d = cls(h.lock)
                if d is not None:
                    self.kept.add(d)

    def merge(self, o):
        self.n.update(o.n)
        for k, v in o.edges.items():
            self.edges[k] |= v
        self.again |= o.again
        self.wait |= o.wait
        self.kept |= o.kept


def short(c):
    return c.replace('std::collections::', '').split('<')[-1].rstrip('>') if '<' in c else c


def verdict(E, rep):
    for c, at in sorted(E.again):
        rep.bad('a task takes the lock of %s while it holds it' % short(c), [at])
    for c, what, at in sorted(E.wait):
        rep.bad('the lock of %s is held while waiting (%s)' % (short(c), what), [at])
    for c in sorted(E.kept):
        rep.bad('the lock of %s is still held when its task has ended' % short(c))
    g = collections.defaultdict(set)
    for a, b in E.edges:
        if a != b:
            g[a].add(b)

    def reach(a, b, seen):
        if a == b:
            return True
        return any(x not in seen and not seen.add(x) and reach(x, b, seen) for x in g[a])

    for (a, b), at in sorted(E.edges.items()):
        if a != b and reach(b, a, {b}):
            rep.bad('the lock of %s is taken while the lock of %s is held, and elsewhere the other way round'
                    % (short(b), short(a)), sorted(at))
    rep.counts['lock acquisitions'] += sum(E.n.values())
    rep.counts['kinds of lock'] += len(E.n)
    rep.counts['orders between two kinds of lock'] += len(E.edges)
