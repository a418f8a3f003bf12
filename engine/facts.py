"""Load the MIR facts dumped by the extractor and unify types across crates."""
import glob
import json
import os


class Ty:
    __slots__ = ('k', 's', 'p', 'e', 'a', 'v', 't', 'm', 'up', 'fn', 'n', 'x', 'kind', 'memo')

    def __init__(self, s):
        self.s = s
        self.k = 'other'
        self.p = ''
        self.e = self.x = self.m = False
        self.a = []
        self.v = []
        self.up = []
        self.t = self.fn = self.n = self.kind = None
        self.memo = None

    def __repr__(self):
        return 'Ty(%s)' % self.s


class Program:
    def __init__(self, facts_dir):
        self.fns = {}
        self.types = {}
        self.items = {}
        self.poly = []
        self.crate_of = {}
        for f in sorted(glob.glob(os.path.join(facts_dir, '*.json'))):
            self._load(json.load(open(f)))
        self.by_path = {}
        for k, fn in self.fns.items():
            self.by_path.setdefault(fn['path'], []).append(k)
        self.drop_impls = {}
        for k, fn in self.fns.items():
            if k.startswith('<') and k.endswith(' as core::ops::drop::Drop>::drop'):
                self.drop_impls[k[1:].split(' as ')[0]] = k

    def callers(self, path):
        """the functions that call one of this name"""
        if not hasattr(self, 'called'):
            self.called = {}
            for k, fn in self.fns.items():
                for b in fn['blocks']:
                    t = b['t']
                    if t and t[0] == 'call' and isinstance(t[1], dict):
                        self.called.setdefault(t[1].get('r'), set()).add(k)
        return self.called.get(path, ())

    def ty(self, s):
        t = self.types.get(s)
        if t is None:
            t = self.types[s] = Ty(s)
        return t

    def _load(self, d):
        raw = d['types']
        m = []
        for t in raw:
            key = t['s']
            if t['k'] in ('closure', 'coroutine'):
                key = '%s|%s' % (t['s'], t['fn'])
            m.append(self.ty(key))
        for t, o in zip(raw, m):
            if o.k != 'other' and not (t.get('x') and not o.x):
                continue
            o.k = t['k']
            o.p = t.get('p', '')
            o.e = t.get('e', False)
            o.x = t.get('x', False)
            o.m = t.get('m', False)
            o.n = t.get('n')
            o.kind = t.get('kind')
            o.a = [m[i] for i in t.get('a', [])] if isinstance(t.get('a'), list) else []
            o.v = [(v['n'], int(v['d']), [(f[0], m[f[1]]) for f in v['f']]) for v in t.get('v', [])]
            o.t = m[t['t']] if t.get('t') is not None else None
            o.up = [m[i] for i in t.get('up', [])]
            o.fn = t.get('fn')
        for k, fn in d['fns'].items():
            if k in self.fns:
                continue
            fn['tm'] = m
            fn['key'] = k
            fn['lty'] = [m[i] for i in fn['locals']]
            self.fns[k] = fn
        self.poly.extend(d.get('poly', ()))
        self.items.setdefault(d['crate'], []).extend(d['items'])
