"""Lazy collections with eager references, shared by C15, C16 and others."""
from .common import *

LISTS = ('llist', 'tllist')
DICTS = ('ldict', 'tldict')
EAGER = {'llist': 'plist', 'tllist': 'tlist', 'ldict': 'pdict', 'tldict': 'tdict'}


class Lz:
    """Makes items that may be lazy; counts how often each function runs."""
    def __init__(self, ctx, states=('plain', 'lazy', 'done')):
        self.ctx = ctx
        self.states = states
        self.raws = []      # what is stored
        self.vals = []      # what reading gives
        self.fns = []       # index into runs, or None when plain
        self.runs = []
        self.ready = []
        self.text = False   # ... whose items have a repr of length 1
        self.wide = False   # a larger collection, of distinct concrete items
    def new(self, v, done=False):
        """A lazy object that computes v."""
        k = len(self.runs)
        self.runs.append(0)
        def fn():
            self.runs[k] += 1
            return v
        l = self.ctx.lib.lazy(fn)
        if done: l(); self.runs[k] = 0
        return (l, k)
    def item(self, name, special=True, v=None, st=None):
        ctx = self.ctx
        if v is None and self.wide: v = ctx.distinct(6900 + len(self.vals))
        v = ctx.elem(name, special=special) if v is None else v
        st = ctx.pick(name + '.st', self.states) if st is None else st
        ready = st != 'lazy'
        if st == 'plain': (raw, k) = (v, None)
        elif st == 'shared' and any(f is not None for f in self.fns):
            j = [f is not None for f in self.fns].index(True)
            (raw, k, v, ready) = (self.raws[j], self.fns[j], self.vals[j], self.ready[j])
        else:
            ready = st == 'done'
            (raw, k) = self.new(v, ready)
        self.raws.append(raw); self.vals.append(v); self.fns.append(k); self.ready.append(ready)
        return raw
    def value(self, raw):
        for (r, v) in zip(self.raws, self.vals):
            if r is raw: return v
        return raw
    def none_ran(self, label):
        self.ctx.check(not any(self.runs), label + ': computed lazy items',
                       lambda: repr(self.runs))
    def ran_only(self, js, label):
        """Exactly the lazy items at these positions have been computed now, once."""
        want = [0] * len(self.runs)
        for j in js:
            if self.fns[j] is not None and not self.was_done(j): want[self.fns[j]] = 1
        self.ctx.check(self.runs == want, label + ': lazy items computed',
                       lambda: f'{self.runs} expected {want}')
    def was_done(self, j): return self.ready[j]
    def once(self, label):
        self.ctx.check(all(r <= 1 for r in self.runs), label + ': computed more than once',
                       lambda: repr(self.runs))


def wide_raws(ctx, lz, n, name):
    """Items of a larger collection, distinct, in a pattern of states."""
    lz.wide = True
    p = ctx.pick(name + '.pattern', ['cycle', 'lazy', 'last'])
    out = []
    for i in range(n):
        if p == 'cycle': st = lz.states[i % len(lz.states)]
        elif p == 'lazy': st = 'lazy'
        else: st = 'lazy' if i == n - 1 else 'plain'
        v = ctx.text_elem(f'{name}{i}', 1, 1) if lz.text else ctx.distinct(6000 + i)
        out.append(lz.item(f'{name}{i}', v=v, st=st))
    return out


def mk_lazy_list(ctx, kind, lz, n, name='p', window='sym', special=True):
    if n > 8: raws = wide_raws(ctx, lz, n, name)
    else: raws = [lz.item(f'{name}{i}', special) for i in range(n)]
    if n > 8: window = (0, -3, 2)
    return (mk_list(ctx, kind, raws, name, window), raws)


def mk_lazy_dict(ctx, kind, lz, n, name='d', special=True, how=None, keys=None):
    if n > 8:
        keys = wide_els(ctx, n, ctx.pick(name + '.hashes', ['spread', 'shared']))
        kv = list(zip(keys, wide_raws(ctx, lz, n, name)))
        gone = wide_gone(n, ctx.pick(name + '.holes', ['none', 'third']))
        r = RDict(ctx, [])
        r.kv = [p for (i, p) in enumerate(kv) if i not in gone]
        d = getattr(ctx.lib, kind)(kv)
        for i in gone:
            if kind == 'ldict': d = d.drop(keys[i])
            else: del d[keys[i]]
        return (d, r)
    keys = [ctx.elem(f'{name}k{i}') for i in range(n)] if keys is None else keys
    raws = [lz.item(f'{name}v{i}', special) for i in range(n)]
    return mk_dict(ctx, kind, n, name, how, list(zip(keys, raws)))


def anyint(ctx, name, n, lo=-BIG, hi=BIG):
    """Any index, or for a larger collection one of the telling ones."""
    if n <= 8: return ctx.int(name, lo, hi)
    return ctx.pick(name, [i for i in (-n - 1, -n, -n // 2, -1, 0, 1, n // 2, n - 1, n, n + 2)
                           if lo <= i <= hi])


def anypos(ctx, name, n):
    """Any of the positions 0..n-1, or for a larger collection the telling ones."""
    if n <= 8: return ctx.choice(name, n)
    return ctx.pick(name, [0, 1, n // 2, n - 2, n - 1])


def raw_list(ctx, obj, raws, label, kind=None):
    """obj stores exactly these raw items; nothing is computed by looking."""
    if kind is not None:
        ctx.check(type(obj).__name__ == kind, label + ': kind',
                  lambda: f'got a {type(obj).__name__}, expected a {kind}')
    ctx.check(len(obj) == len(raws), label + ': len')
    get = obj.getlazy if hasattr(obj, 'getlazy') else obj.__getitem__
    for (i, r) in enumerate(raws):
        ctx.check(ctx.same(get(i), r), label + ': raw items', lambda: f'{get(i)!r} expected {r!r}')


def raw_dict(ctx, obj, ref, label, kind=None):
    if kind is not None:
        ctx.check(type(obj).__name__ == kind, label + ': kind',
                  lambda: f'got a {type(obj).__name__}, expected a {kind}')
    ctx.check(len(obj) == len(ref), label + ': len')
    ctx.eq_seq(list(obj), ref.keys(), label + ': keys')
    get = obj.getlazy if hasattr(obj, 'getlazy') else obj.get
    for (k, v) in ref.kv:
        ctx.check(ctx.same(get(k, label), v), label + ': raw items')


def values_ref(ctx, lz, ref):
    """The eager reference of a reference holding raw items."""
    r = RDict(ctx)
    r.kv = [(k, lz.value(v)) for (k, v) in ref.kv]
    return r
