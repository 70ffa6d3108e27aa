"""C12 Equality is by content and equal collections have equal hashes."""
from .common import *
from .models import *

BOUNDS = ('collections of 0-2 symbolic elements each (0-3 thorough), any pattern of equal elements, '
          'any hash function on elements, tuples and frozensets (uninterpreted functions), any list '
          'window, four histories for sets and dicts; every ordered pair of persistent, transient, '
          'lazy and built-in kinds of a family; one or two edits between two hashes'
          '; collections of 12 and 36 distinct items that differ in any one place, in length or '
          'in order, or after one edit'
          '; collections of 1-2 elements (3 thorough) of which any may not equal themselves')

W = 'c12'
LISTS = ('plist', 'tlist', 'llist', 'tllist')
SETS = ('pset', 'tset')
DICTS = ('pdict', 'tdict', 'ldict', 'tldict')
LAZY = ('llist', 'tllist', 'ldict', 'tldict')


def lz(ctx, kind, name, v):
    if kind in LAZY and ctx.bool(name): return ctx.lib.lazy(lambda: v)
    return v


def hashes(ctx, a, b, eq, label):
    """If both are hashable and equal, their hashes are equal."""
    if not eq: return
    ha = ctx.attempt(lambda: ctx.hash(a))
    hb = ctx.attempt(lambda: ctx.hash(b))
    if ha[0] == 'ok' and hb[0] == 'ok':
        ctx.check(ha[1] == hb[1], label + ': hashes of equal collections')
        ctx.check(ctx.hash(a) == ha[1], label + ': hash taken again')
        ctx.reached('hashes')
    for (x, h) in ((a, ha), (b, hb)):
        if type(x).__name__ in ('plist', 'llist', 'pset', 'pdict', 'ldict'):
            ctx.check(h[0] == 'ok', label + ': a persistent collection is hashable', lambda: repr(h))


def compare(ctx, a, b, exp, label):
    for (x, y) in ((a, b), (b, a)):
        ctx.check(ctx.attempt(lambda: x == y) == ('ok', exp), label + ': ==',
                  lambda: f'{x!r} == {y!r} expected {exp}')
        ctx.check(ctx.attempt(lambda: x != y) == ('ok', not exp), label + ': !=',
                  lambda: f'{x!r} != {y!r} expected {not exp}')
    hashes(ctx, a, b, exp, label)


@harness
def lists(ctx, a, b, n, m):
    xs = [ctx.elem(f'a{i}') for i in range(n)]
    ys = [ctx.elem(f'b{i}') for i in range(m)]
    p = mk_list(ctx, a, [lz(ctx, a, f'la{i}', x) for (i, x) in enumerate(xs)], 'p')
    q = list(ys) if b == 'list' else \
        mk_list(ctx, b, [lz(ctx, b, f'lb{i}', y) for (i, y) in enumerate(ys)], 'q',
                window='sym' if b == a else (0, 1, -1))
    if ctx.bool('hashed') and a in ('plist', 'llist'): ctx.hash(p)
    exp = n == m and all(bool(ctx.equal(x, y)) for (x, y) in zip(xs, ys))
    compare(ctx, p, q, exp, f'{a} and {b}')
    compare(ctx, p, p, True, f'{a} and itself')


@harness
def sets(ctx, a, b, n, m):
    xs = [ctx.elem(f'a{i}') for i in range(n)]
    ys = [ctx.elem(f'b{i}') for i in range(m)]
    (p, r) = mk_set(ctx, a, n, 'p', els=xs, how='ctor' if n + m > 2 else None)
    if b in ('set', 'frozenset', 'keys'):
        q = ctx.lib.pdict([(y, 0) for y in ys]).keys() if b == 'keys' else as_operand(ctx, ys, b)
        s = RSet(ctx, ys)
    else: (q, s) = mk_set(ctx, b, m, 'q', els=ys, how='ctor')
    if ctx.bool('hashed') and a == 'pset': ctx.hash(p)
    exp = len(r) == len(s) and all(s.has(x) for x in r.els)
    compare(ctx, p, q, exp, f'{a} and {b}')
    compare(ctx, p, p, True, f'{a} and itself')


@harness
def dicts(ctx, a, b, n, m):
    ps = [(ctx.elem(f'ak{i}'), ctx.elem(f'av{i}')) for i in range(n)]
    qs = [(ctx.elem(f'bk{i}'), ctx.elem(f'bv{i}')) for i in range(m)]
    (r, s) = (RDict(ctx, ps), RDict(ctx, qs))
    how = 'ctor' if n + m > 1 else None
    (p, _) = mk_dict(ctx, a, n, 'p', how, [(k, lz(ctx, a, f'la{i}', v)) for (i, (k, v)) in enumerate(ps)])
    if how is None:
        # (the history may have removed an item)
        r = RDict(ctx, [(k, p[k]) for (k, v) in r.kv if k in p])
    if b == 'dict': q = dict(qs)
    else: (q, _) = mk_dict(ctx, b, m, 'q', 'ctor',
                           [(k, lz(ctx, b, f'lb{i}', v)) for (i, (k, v)) in enumerate(qs)])
    if ctx.bool('hashed') and a in ('pdict', 'ldict'): ctx.hash(p)
    exp = len(r) == len(s) and all(s.has(k) and bool(ctx.equal(s.get(k), v)) for (k, v) in r.kv)
    compare(ctx, p, q, exp, f'{a} and {b}')
    compare(ctx, p, p, True, f'{a} and itself')


@harness
def unrelated(ctx, kind):
    """Never equal to what is not a collection of its family."""
    x = ctx.elem('x')
    p = getattr(ctx.lib, kind)([(x, x)])
    fam = 'list' if kind in LISTS else 'set' if kind in SETS else 'dict'
    others = [None, 0, 'x', object(), 2.5, NotImplemented]
    if fam != 'list': others += [[(x, x)], ctx.lib.plist([(x, x)]), ctx.lib.tlist([(x, x)])]
    if fam != 'set': others += [{(x, x)}, ctx.lib.pset([(x, x)]), frozenset([(x, x)])]
    if fam != 'dict': others += [{x: x}, ctx.lib.pdict([(x, x)]), ctx.lib.tdict([(x, x)])]
    for o in others:
        ctx.check(ctx.attempt(lambda: p == o) == ('ok', False), f'{kind} == {type(o).__name__}')
        ctx.check(ctx.attempt(lambda: p != o) == ('ok', True), f'{kind} != {type(o).__name__}')
    e = getattr(ctx.lib, kind)()
    for o in ((), '', None, 0, False):
        ctx.check(ctx.attempt(lambda: e == o) == ('ok', False), f'empty {kind} == {o!r}')


@harness
def history(ctx, kind, n, op, hashed):
    """However a collection came to be, it equals, and hashes as, one newly built; a
    hash taken earlier, of it or of what it was made from, does not matter."""
    m = model(ctx, kind)
    (p, r) = m.mk(n)
    if hashed: h0 = ctx.hash(p)
    (obs, exp) = m.pedit(op, p, r, '', m.fresh('x'))
    if obs[0] == 'ok':
        q = obs[1]
        if m.family == 'list': f = m.P([m.plain(e) for e in exp])
        elif m.family == 'set': f = m.P(exp.els[::-1])
        else: f = m.P([(k, m.plain(v)) for (k, v) in exp.kv][::-1])
        compare(ctx, q, f, True, f'{op} and newly built')
        t = q.transient()
        compare(ctx, t, f, True, f'{op}, thawed and newly built')
        compare(ctx, t.persistent(), f, True, f'{op}, thawed, frozen and newly built')
        if m.family == 'set': b = frozenset(exp.els)
        elif m.family == 'list': b = [m.plain(e) for e in exp]
        else: b = {k: m.plain(v) for (k, v) in exp.kv}
        compare(ctx, q, b, True, f'{op} and built-in')
    if hashed: ctx.check(ctx.hash(p) == h0, f'hash before and after {op}')
    ctx.reached(op)


@harness
def refrozen(ctx, kind, n, op, keep):
    """Freezing after an edit, with hashes taken at every point."""
    m = model(ctx, kind)
    (p, r) = m.mk(n)
    h0 = ctx.hash(p)
    t = p.transient()
    tr = cref(r)
    x = m.fresh('x')
    m.tedit(op, t, tr, '', x)
    q = t.persistent()
    f = m.P([m.plain(e) for e in tr]) if m.family == 'list' else m.P(tr.els) if m.family == 'set' \
        else m.P([(k, m.plain(v)) for (k, v) in tr.kv])
    if keep: ctx.hash(q)
    compare(ctx, q, f, True, f'frozen after {op}')
    u = q.transient()
    ur = cref(tr)
    m.tedit(m.CORE[0], u, ur, '2', x)
    g = m.P([m.plain(e) for e in ur]) if m.family == 'list' else m.P(ur.els) if m.family == 'set' \
        else m.P([(k, m.plain(v)) for (k, v) in ur.kv])
    compare(ctx, u.persistent(), g, True, f'frozen again after {op}')
    ctx.check(ctx.hash(p) == h0, f'hash before and after {op}')


@harness
def wide_eq(ctx, fam, a, b, n, how):
    """Larger collections that differ in any one place, in length, or in order only."""
    els = wide_els(ctx, n + 1, ctx.pick('hashes', ['spread', 'shared']) if fam != 'list' else 'spread')
    i = ctx.pick('at', [0, 1, n // 2, n - 2, n - 1])
    y = ctx.elem('y')
    L = ctx.lib
    def wrap(kind, j, v):
        return L.lazy(lambda: v) if kind in LAZY and j % 3 == 0 else v
    def make(kind, xs):
        if fam == 'dict':
            kv = [(k, wrap(kind, j, v)) for (j, (k, v)) in enumerate(xs)]
            return dict(kv) if kind == 'dict' else getattr(L, kind)(kv)
        if kind in ('set', 'frozenset', 'list'): return {'set': set, 'frozenset': frozenset, 'list': list}[kind](xs)
        if kind == 'keys': return L.pdict([(x, 0) for x in xs]).keys()
        xs = [wrap(kind, j, x) for (j, x) in enumerate(xs)]
        return getattr(L, kind)(xs)
    xs = els[:n] if fam != 'dict' else [(e, j) for (j, e) in enumerate(els[:n])]
    ys = list(xs)
    if how == 'one':
        if fam == 'dict' and ctx.bool('value'): ys[i] = (xs[i][0], y)
        elif fam == 'dict': ys[i] = (y, xs[i][1])
        else: ys[i] = y
    elif how == 'order': ys = ys[i:] + ys[:i]
    elif how == 'longer': ys.insert(i, els[n] if fam != 'dict' else (els[n], n))
    elif how == 'shorter': del ys[i]
    p = make(a, xs)
    if fam == 'list' and a in ('plist', 'llist') and ctx.bool('window'):
        p = make(a, xs[1:]).prepend(wrap(a, 0, xs[0]))
    if ctx.bool('hashed') and a in ('plist', 'llist', 'pset', 'pdict', 'ldict'): ctx.hash(p)
    q = make(b, ys)
    if fam == 'list':
        exp = len(xs) == len(ys) and all(bool(ctx.equal(u, v)) for (u, v) in zip(xs, ys))
    elif fam == 'set':
        s = RSet(ctx, ys)
        exp = len(s) == n and all(s.has(x) for x in xs)
    else:
        r = RDict(ctx, ys)
        exp = len(r) == n and all(r.has(k) and bool(ctx.equal(r.get(k), v)) for (k, v) in xs)
    compare(ctx, p, q, exp, f'larger {a} and {b}')
    ctx.reached(how)


@harness
def nested(ctx, outer):
    """Collections of collections."""
    L = ctx.lib
    (x, y) = (ctx.elem('x'), ctx.elem('y'))
    eq = bool(ctx.equal(x, y))
    inner = ctx.pick('inner', ['plist', 'pset', 'pdict', 'llist'])
    mk = {'plist': lambda e: L.plist([e]), 'pset': lambda e: L.pset([e]),
          'pdict': lambda e: L.pdict([(e, 1)]),
          'llist': lambda e: L.llist([L.lazy(lambda: e)])}[inner]
    (a, b) = (mk(x), mk(y))
    (p, q) = (getattr(L, outer)([a]), L.plist([b]))
    compare(ctx, p, q, eq, f'{outer} of {inner}')
    ctx.check(bool(b in p) == eq, f'{outer} of {inner}: in')


def jobs(tier):
    th = tier == 'thorough'
    out = []
    sizes = [(0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (2, 2)] + ([(1, 2), (3, 3), (3, 2)] if th else [])
    sec = 600 if th else 60
    for (fn, kinds, more) in (('lists', LISTS, ('list',)), ('sets', SETS, ('set', 'frozenset', 'keys')),
                              ('dicts', DICTS, ('dict',))):
        for a in kinds:
            for b in kinds + more:
                for (n, m) in sizes:
                    if (n, m) == (2, 2) and a in LAZY and b in LAZY and not th: continue
                    out.append(Job(W + '.' + fn, a=a, b=b, n=n, m=m, cost=n + m, seconds=sec))
        for a in kinds:
            for b in kinds + more:
                if fn == 'dicts' and 'l' in (a[0], a[1], b[0], b[1]): continue
                big = fn == 'lists' and a in ('plist', 'tlist', 'llist') and b in ('list', 'plist')
                for (n, m) in ((1, 1), (2, 2)) if th or big else ((1, 1),):
                    out.append(Job(W + '.' + fn, a=a, b=b, n=n, m=m, nans=1, cost=n + m, seconds=sec))
        for a in kinds: out.append(Job(W + '.unrelated', kind=a))
    for kind in MODELS:
        M = MODELS[kind]
        for n in (0, 1, 2) if M is ListModel or th else (0, 1):
            for op in M.PEDITS:
                if op == 'sort' and kind == 'llist': continue
                for hashed in (False, True):
                    out.append(Job(W + '.history', kind=kind, n=n, op=op, hashed=hashed, cost=n,
                                   seconds=sec))
            for op in M.TEDITS:
                out.append(Job(W + '.refrozen', kind=kind, n=n, op=op, keep=True, cost=n, seconds=sec))
                if th: out.append(Job(W + '.refrozen', kind=kind, n=n, op=op, keep=False, seconds=sec))
        for n in (12, 36):
            for op in M.PEDITS:
                if op == 'sort' and kind == 'llist': continue
                out.append(Job(W + '.history', kind=kind, n=n, op=op, hashed=True, cost=n / 9))
            for op in M.TEDITS:
                out.append(Job(W + '.refrozen', kind=kind, n=n, op=op, keep=True, cost=n / 9))
    for (fam, kinds, more) in (('list', LISTS, ('list',)), ('set', SETS, ('set', 'frozenset', 'keys')),
                               ('dict', DICTS, ('dict',))):
        for a in kinds:
            for b in kinds + more:
                for how in ('one', 'order', 'longer', 'shorter'):
                    out.append(Job(W + '.wide_eq', fam=fam, a=a, b=b, n=12, how=how, cost=2))
                    if th: out.append(Job(W + '.wide_eq', fam=fam, a=a, b=b, n=36, how=how, seconds=sec))
    for o in ('plist', 'llist'): out.append(Job(W + '.nested', outer=o))
    return out
