"""C09 keys, items and values views present the mapping they come from."""
import operator
from .common import *
from .c06 import BINOPS, CMPS, ref_op, ref_cmp

BOUNDS = ('mappings of 0-2 symbolic pairs (0-3 thorough) of all four kinds, from any of four '
          'histories; values may be None, Ellipsis, falsy, and in lazy mappings any mixture of lazy '
          'and plain; any probe; set operands of 0-2 elements of five kinds; one or two later edits'
          '; larger mappings of 11-36 distinct keys with any probe, their views combined, '
          'compared and edited under'
          '; collections of 1-2 elements (3 thorough) of which any may not equal themselves')

W = 'c09'
KINDS = ('pdict', 'tdict', 'ldict', 'tldict')


def mk(ctx, kind, n, special=True, how=None):
    """A mapping, its reference, lazies included for lazy kinds."""
    ps = []
    ref = []
    for i in range(n):
        k = ctx.elem(f'k{i}')
        v = ctx.elem(f'v{i}', special=special)
        ref.append((k, v))
        if kind in ('ldict', 'tldict') and ctx.bool(f'lazy{i}'):
            ps.append((k, ctx.lib.lazy(lambda v=v: v)))
        else: ps.append((k, v))
    (d, r) = mk_dict(ctx, kind, n, pairs=ps, how=how)
    # replace the lazies by their values in the reference
    for (j, (k, v)) in enumerate(r.kv):
        if isinstance(v, ctx.lib.lazy): r.kv[j] = (k, v())
    return (d, r)


def same_pairs(ctx, obs, exp, label):
    obs = list(obs)
    ctx.check(len(obs) == len(exp), label + ' (number)', lambda: f'{obs!r} expected {exp!r}')
    ctx.check(all(type(x) is tuple and len(x) == 2 for x in obs), label + ' (pairs)',
              lambda: repr(obs))
    ctx.check(ctx.all_([ctx.all_([ctx.equal(a[0], b[0]), ctx.same(a[1], b[1])])
                        for (a, b) in zip(obs, exp)]), label, lambda: f'{obs!r} expected {exp!r}')


def observe_views(ctx, ks, vs, its, r, label):
    ctx.check(len(ks) == len(r) and len(vs) == len(r) and len(its) == len(r), label + ': len')
    ctx.eq_seq(ks, r.keys(), label + ': keys')
    ctx.same_seq(vs, r.values(), label + ': values')
    same_pairs(ctx, its, r.items(), label + ': items')
    ctx.eq_seq(reversed(ks), r.keys()[::-1], label + ': reversed keys')
    ctx.same_seq(reversed(vs), r.values()[::-1], label + ': reversed values')
    same_pairs(ctx, reversed(its), r.items()[::-1], label + ': reversed items')


@harness
def read(ctx, kind, n, how=None):
    """Length, order, reversal, and that nothing else is visible."""
    (d, r) = mk(ctx, kind, n, how=how)
    observe_views(ctx, d.keys(), d.values(), d.items(), r, kind)
    ctx.eq_seq(reversed(d), r.keys()[::-1], kind + ': reversed')
    it = iter(d.items())
    for _ in range(len(r)): next(it)
    ctx.check(ctx.attempt(lambda: next(it)) == ('err', 'StopIteration'), 'end of items')


@harness
def contains(ctx, kind, n, view, how=None):
    """Membership of any probe."""
    (d, r) = mk(ctx, kind, n, how=how)
    (k, v) = (ctx.elem('k'), ctx.elem('v', special=True))
    if view == 'keys':
        exp = r.has(k)
        ctx.check(ctx.attempt(lambda: k in d.keys()) == ('ok', exp), 'in keys')
        ctx.check(ctx.attempt(lambda: [] in d.keys()) == ('err', 'TypeError'),
                  'unhashable in keys')
    elif view == 'values':
        exp = any(bool(ctx.equal(v, x)) for x in r.values())
        ctx.check(ctx.attempt(lambda: v in d.values()) == ('ok', exp), 'in values',
                  lambda: f'{v!r} in {r.values()!r}')
        ctx.check(ctx.attempt(lambda: [] in d.values()) == ('ok', False), 'unhashable in values')
    else:
        exp = r.has(k) and bool(ctx.equal(v, r.get(k)))
        obs = ctx.attempt(lambda: (k, v) in d.items())
        ctx.check(obs == ('ok', exp), 'in items', lambda: f'{(k, v)!r} in {r.kv!r}: {obs}')
        for bad in (None, k, [k, v], (k,), (k, v, v), ()):
            ctx.check(ctx.attempt(lambda: bad in d.items()) == ('ok', False), 'non-pair in items')
        ctx.check(ctx.attempt(lambda: (k, []) in d.items()) == ('ok', False),
                  'a pair with an unhashable value in items')
        ctx.check(ctx.attempt(lambda: ([], v) in d.items()) == ('err', 'TypeError'),
                  'a pair with an unhashable key in items')
    ctx.reached(view)


class RPairs:
    """A set of pairs by equality, for ref_op/ref_cmp."""
    def __init__(self, ctx, els):
        self.ctx = ctx; self.els = []
        for e in els:
            if not self.has(e): self.els.append(e)
    def has(self, e):
        return any(bool(self.ctx.equal(e[0], x[0])) and bool(self.ctx.equal(e[1], x[1]))
                   for x in self.els)
    def __len__(self): return len(self.els)


def operand(ctx, kind, view, m):
    """Another set, of keys or of pairs."""
    if view == 'keys': xs = [ctx.elem(f'o{i}') for i in range(m)]
    else: xs = [(ctx.elem(f'o{i}'), ctx.elem(f'w{i}')) for i in range(m)]
    if kind == 'set': return (set(xs), xs)
    if kind == 'pset': return (ctx.lib.pset(xs), xs)
    if kind == 'list': return (list(xs), xs)
    if kind == 'dict':
        d = dict(xs) if view == 'items' else dict.fromkeys(xs, 0)
        return (getattr(d, view)(), list(getattr(d, view)()))
    d = ctx.lib.pdict(xs if view == 'items' else [(x, 0) for x in xs])
    xs = list(d) if view == 'keys' else [(k, d[k]) for k in d]
    return (getattr(d, view)(), xs)


@harness
def algebra(ctx, kind, view, n, m, other):
    """Combining and comparing keys and items views as sets."""
    (d, r) = mk(ctx, kind, n, special=False, how='ctor')
    s = getattr(d, view)()
    if view == 'keys':
        mkref = lambda xs: RSet(ctx, xs)
        a = mkref(r.keys())
    else:
        mkref = lambda xs: RPairs(ctx, xs)
        a = mkref(r.items())
    (o, xs) = operand(ctx, other, view, m)
    b = mkref(xs)
    what = ctx.pick('what', list(BINOPS) + ['cmp', 'isdisjoint'])
    if what == 'isdisjoint':
        exp = not any(a.has(x) for x in b.els)
        obs = ctx.attempt(lambda: s.isdisjoint(o))
        ctx.check(obs == ('ok', exp), f'{view}.isdisjoint({other})', lambda: repr(obs))
    elif what == 'cmp':
        if other == 'list':
            ctx.check(ctx.attempt(lambda: s == o) == ('ok', False), 'view == list')
            ctx.check(ctx.attempt(lambda: s <= o) == ('err', 'TypeError'), 'view <= list')
        else:
            for op in CMPS:
                for (x, y, p, q, t) in ((s, o, a, b, f'{view} {op} {other}'),
                                        (o, s, b, a, f'{other} {op} {view}')):
                    obs = ctx.attempt(lambda: CMPS[op](x, y))
                    exp = ref_cmp(ctx, p, q, op)
                    ctx.check(obs == ('ok', exp), t, lambda: f'{obs} expected {exp}')
    else:
        forms = [(s, o, a, b, f'{view} {what} {other}')]
        if other != 'list': forms.append((o, s, b, a, f'{other} {what} {view}'))
        for (x, y, p, q, t) in forms:
            obs = ctx.attempt(lambda: BINOPS[what](x, y))
            ctx.check(obs[0] == 'ok', t + ' (raises)', lambda: repr(obs))
            if what == 'or': els = p.els + [e for e in q.els if not p.has(e)]
            elif what == 'and': els = [e for e in p.els if q.has(e)]
            elif what == 'sub': els = [e for e in p.els if not q.has(e)]
            else: els = [e for e in p.els if not q.has(e)] + [e for e in q.els if not p.has(e)]
            got = list(obs[1])
            ctx.check(len(got) == len(els), t + ' (number)', lambda: f'{got!r} expected {els!r}')
            if view == 'keys': eq = ctx.equal
            else: eq = lambda g, e: ctx.all_([ctx.equal(g[0], e[0]), ctx.equal(g[1], e[1])])
            for e in els:
                ctx.check(ctx.any_([eq(g, e) for g in got]), t, lambda: f'{got!r} expected {els!r}')
    ctx.reached(what)


@harness
def live(ctx, kind, n, how):
    """Views of a transient dict show later edits; views of a persistent one do not."""
    (d, r) = mk(ctx, kind, n, how=how)
    views = (d.keys(), d.values(), d.items())
    for j in range(2 if n < 2 else 1):
        k = ctx.elem(f'e{j}')
        e = ctx.pick(f'edit{j}', ['set', 'del', 'clear', 'setdefault'])
        if kind in ('tdict', 'tldict'):
            if e == 'set': d[k] = 7; r.set(k, 7)
            elif e == 'setdefault':
                d.setdefault(k, None)
                if not r.has(k): r.set(k, None)
            elif e == 'del': d.pop(k, None); r.drop(k)
            else: d.clear(); r.kv = []
        else:
            (d.set(k, 7), d.drop(k), d.clear(), d.update([(k, 1)]))
        observe_views(ctx, *views, r, f'{kind}: views after {e}')
        observe_views(ctx, d.keys(), d.values(), d.items(), r, f'{kind}: new views after {e}')
    probe = ctx.elem('probe')
    ctx.check(bool(probe in views[0]) == r.has(probe), 'in keys after edits')
    ctx.check(bool((probe, 7) in views[2]) == (r.has(probe) and r.get(probe) == 7),
              'in items after edits')
    ctx.check(bool(7 in views[1]) == any(bool(ctx.equal(v, 7)) for v in r.values()), 'in values after edits')


def wide(ctx, kind, n, hashes, holes):
    """A larger mapping, a third of whose values (for lazy kinds) are lazy."""
    (d, r, gone) = wide_dict(ctx, kind, n, hashes, holes)
    if kind in ('ldict', 'tldict'):
        for (k, v) in list(r.kv)[::3]:
            z = ctx.lib.lazy(lambda v=v: v)
            if kind == 'ldict': d = d.set(k, z)
            else: d[k] = z
    return (d, r, gone)


@harness
def wide_read(ctx, kind, n, hashes, holes):
    """Reading, and looking into, the views of a larger mapping."""
    (d, r, gone) = wide(ctx, kind, n, hashes, holes)
    observe_views(ctx, d.keys(), d.values(), d.items(), r, f'larger {kind}')
    for k in gone:
        ctx.check(k not in d.keys() and (k, 1) not in d.items(), 'a removed key in views')
    for (k, v) in r.kv:
        ctx.check(k in d.keys() and (k, v) in d.items() and v in d.values(), 'own items in views')
        ctx.check((k, -1) not in d.items(), 'own key with another value in items')
    ctx.check(-1 not in d.values(), 'another value in values')
    (k, v) = (ctx.elem('k'), ctx.elem('v', special=True))
    has = r.has(k)
    ctx.check(ctx.attempt(lambda: k in d.keys()) == ('ok', has), 'in keys')
    exp = has and bool(ctx.equal(v, r.get(k)))
    ctx.check(ctx.attempt(lambda: (k, v) in d.items()) == ('ok', exp), 'in items')
    exp = any(bool(ctx.equal(v, x)) for x in r.values())
    ctx.check(ctx.attempt(lambda: v in d.values()) == ('ok', exp), 'in values')


@harness
def wide_algebra(ctx, kind, view, n, what):
    """Combining and comparing keys and items views of larger mappings."""
    (d, r, gone) = wide(ctx, kind, n, 'spread', 'third')
    s = getattr(d, view)()
    lo = ctx.pick('lo', [0, len(r) // 2])
    xs = r.items()[lo:] + [(e, -5) for e in gone[:ctx.pick('new', [0, 3])]]
    if ctx.bool('other'): xs[len(xs) // 2] = (xs[len(xs) // 2][0], -7)
    how = ctx.pick('how', ['set', 'pset', 'view']) if view == 'keys' else 'view'
    ys = [k for (k, v) in xs] if view == 'keys' else xs
    if how == 'view': o = getattr(ctx.lib.pdict(xs), view)()
    else: o = as_operand(ctx, ys, how)
    (a, b) = (set(r.keys()), set(ys)) if view == 'keys' else (set(r.items()), set(ys))
    if what == 'isdisjoint':
        ctx.check(ctx.attempt(lambda: s.isdisjoint(o)) == ('ok', a.isdisjoint(b)), f'larger {view}.isdisjoint')
    elif what == 'cmp':
        for op in CMPS:
            ctx.check(ctx.attempt(lambda: CMPS[op](s, o)) == ('ok', CMPS[op](a, b)), f'larger {view} {op}')
            ctx.check(ctx.attempt(lambda: CMPS[op](o, s)) == ('ok', CMPS[op](b, a)), f'{op} larger {view}')
    else:
        for (x, y, p, q) in ((s, o, a, b), (o, s, b, a)):
            obs = ctx.attempt(lambda: BINOPS[what](x, y))
            ctx.check(obs[0] == 'ok', f'larger {view} {what}', lambda: repr(obs))
            got = list(obs[1])
            exp = BINOPS[what](p, q)
            ctx.check(len(got) == len(exp) and set(got) == exp, f'larger {view} {what}',
                      lambda: f'{got!r} expected {exp!r}')


@harness
def wide_live(ctx, kind, n, holes):
    """Views of a larger transient show later edits; of a persistent one, none."""
    (d, r, gone) = wide(ctx, kind, n, 'spread', holes)
    views = (d.keys(), d.values(), d.items())
    for v in views: list(v)
    els = wide_els(ctx, n + 9, 'spread')
    e = ctx.pick('edit', ['one', 'many', 'most', 'clear'])
    x = ctx.elem('x')
    if kind in ('tdict', 'tldict'):
        if e == 'one':
            d[x] = 7; r.set(x, 7)
        elif e == 'many':
            for k in els[n - 3:]: d[k] = 8; r.set(k, 8)
        elif e == 'most':
            for k in r.keys()[1:-1]: del d[k]; r.drop(k)
        else: d.clear(); r.kv = []
    else: (d.set(x, 7), d.update([(k, 8) for k in els[n - 3:]]), d.dropall(r.keys()), d.clear())
    observe_views(ctx, *views, r, f'larger {kind}: views after {e}')
    observe_views(ctx, d.keys(), d.values(), d.items(), r, f'larger {kind}: new views after {e}')


def jobs(tier):
    th = tier == 'thorough'
    out = []
    for kind in KINDS:
        hows = ('ctor', 'sets', 'thaw', 'less') if kind in ('pdict', 'ldict') \
            else ('ctor', 'thaw', 'edited', 'less')
        for n in range(4 if th else 3):
            for how in hows if n == 2 else (None,):
                out.append(Job(W + '.read', kind=kind, n=n, how=how, cost=n, seconds=400 if th else 60))
                for view in ('keys', 'values', 'items'):
                    out.append(Job(W + '.contains', kind=kind, n=n, view=view, how=how, cost=n,
                                   seconds=400 if th else 60))
        for n in (1, 2, 3) if th else (1,) if 'l' in kind else (1, 2):
            for view in ('keys', 'values', 'items'):
                out.append(Job(W + '.contains', kind=kind, n=n, view=view, how='ctor', nans=2, cost=n,
                               seconds=400 if th else 60))
        if not th: out.append(Job(W + '.read', kind=kind, n=3, how='ctor', cost=3))
        for view in ('keys', 'items'):
            for other in ('set', 'pset', 'list', 'dict', 'pdict'):
                for (n, m) in ((0, 1), (1, 0), (1, 1), (2, 1), (1, 2)) + (((2, 2),) if th else ()):
                    if not th and kind in ('ldict', 'tldict') and (view == 'keys' or (n, m) == (2, 1)):
                        continue
                    out.append(Job(W + '.algebra', kind=kind, view=view, n=n, m=m, other=other,
                                   cost=n + m, seconds=400 if th else 60))
        for (hashes, n) in WIDE:
            for holes in HOLES:
                out.append(Job(W + '.wide_read', kind=kind, n=n, hashes=hashes, holes=holes, cost=2))
        for holes in HOLES: out.append(Job(W + '.wide_live', kind=kind, n=18, holes=holes, cost=2))
        for view in ('keys', 'items'):
            for what in (list(BINOPS) if view == 'keys' else []) + ['cmp', 'isdisjoint']:
                out.append(Job(W + '.wide_algebra', kind=kind, view=view, n=12, what=what, cost=2))
        for n in range(3):
            for how in ('ctor', 'thaw'):
                out.append(Job(W + '.live', kind=kind, n=n, how=how, cost=2,
                               seconds=400 if th else 60))
    return out
