"""C20 Conversions and point edits cost the same at every size."""
from .common import *
from .lazies import *

TECHNIQUE = ('symbolic execution of the library source with Z3, over a stand-in for phamt that counts '
             'the entries read, written or visited')
BOUNDS = ('collections of all ten kinds with 5 and 70 entries (5 and 200 thorough) that are distinct, or '
          '5 and 15 (25) of which one is symbolic (equal to, or with the hash of, any other), '
          'at any list window start in [-2^60, 2^60], after up to three histories; any index, any '
          'key or member; the number of entries touched in the large one is at most that of the '
          'worst case in the small one plus 4; also each of '
          '15 steps of four kinds of long runs of edits')
NOTE = ('counts entries touched in phamt, which is where the library stores entries, through the '
        'stand-in; phamt itself (logarithmic cost per access) is outside')

W = 'c20'
SLACK = 4
SMALL = 5

LIST = ('plist', 'tlist', 'llist', 'tllist')
SET = ('pset', 'tset')
DICT = ('pdict', 'tdict', 'ldict', 'tldict')
PERSISTENT = ('plist', 'llist', 'pset', 'pdict', 'ldict')
OTHER = {'plist': 'tlist', 'tlist': 'plist', 'llist': 'tllist', 'tllist': 'llist',
         'pset': 'tset', 'tset': 'pset', 'pdict': 'tdict', 'tdict': 'pdict',
         'ldict': 'tldict', 'tldict': 'ldict'}


def cost(ctx, f):
    a = ctx.ops()
    r = ctx.attempt(f)
    return (ctx.ops() - a, r)


def within(ctx, big, small, label, what=''):
    ctx.check(big <= small + SLACK, label + ': entries touched grow with the size',
              lambda: f'{big} entries touched in the large one, at most {small} in the small one {what}')
    ctx.reached(label)


# ---------------------------------------------------------------------------
# Collections of a size, in one of several histories

def wrap(ctx, kind, e, j, lazy):
    if lazy and j % 2: return ctx.lib.lazy(lambda: e)
    return e

def mk(ctx, kind, m, els, how, start):
    """A collection of m entries, beginning with els, after some history."""
    cls = getattr(ctx.lib, kind)
    lz = kind in LISTS or kind in DICTS
    es = els + [ctx.distinct(j) for j in range(m - len(els))]
    if kind in LIST:
        items = [wrap(ctx, kind, e, j, lz) for (j, e) in enumerate(es)]
        if kind in ('plist', 'llist'): p = win(ctx, kind, items, start)
        else: p = win(ctx, PERS[kind], items, start).transient()
        if how == 'edited':
            x = ctx.distinct(800)
            if kind in ('plist', 'llist'): p = p.append(x).delete(-1).prepend(x).delete(0)
            else: p.append(x); del p[-1]; p.insert(0, x); del p[0]
        return p
    if kind in SET:
        x = ctx.distinct(800)
        if how == 'ctor': return cls(es)
        if how == 'thaw': return _thaw(ctx, kind, cls, es[:2], lambda t: [t.add(e) for e in es[2:]])
        s = cls(es[:1] + [x] + es[1:])
        r = s.discard(x)
        return r if kind == 'pset' else s
    ps = [(e, wrap(ctx, kind, e, j, lz)) for (j, e) in enumerate(es)]
    if how == 'ctor': return cls(ps)
    if how == 'thaw':
        return _thaw(ctx, kind, cls, ps[:2], lambda t: [t.__setitem__(k, v) for (k, v) in ps[2:]])
    x = ctx.distinct(800)
    d = cls(ps[:1] + [(x, 0)] + ps[1:])
    if kind in PERSISTENT: return d.drop(x)
    del d[x]
    return d

def _thaw(ctx, kind, cls, first, fill):
    if kind in PERSISTENT:
        t = cls(first).transient()
        fill(t)
        return t.persistent()
    t = getattr(ctx.lib, OTHER[kind])(first).transient()
    fill(t)
    return t

def win(ctx, kind, items, start):
    cls = getattr(ctx.lib, kind)
    if start is None: return cls(items)
    if ctx.symbolic and probe_window(ctx, cls):
        th = cls([])._phamt
        for (i, e) in enumerate(items): th = th.assoc(start + i, e)
        return cls._new(th, start)
    return plist_at(ctx, cls, items, ctx.concrete(start))


def starts(ctx, kind, sym):
    if kind not in LIST: return None
    if not sym: return None
    if ctx.symbolic and probe_window(ctx, getattr(ctx.lib, PERS.get(kind, kind))):
        st = ctx.int('start', -BIG, BIG)
        ctx.prefer(ctx.all_([st >= -8, st <= 8]), ctx.all_([st >= -250, st <= 250]),
                       ctx.all_([st >= -2000, st <= 2000]))
        return st
    return ctx.int('start', *((-8, 8) if ctx.symbolic else (-2000, 2000)))


# ---------------------------------------------------------------------------

@harness
def conversions(ctx, kind, n, how, nsym):
    """persistent() / transient() / constructors / copy(), and again after an edit."""
    L = ctx.lib
    els = [ctx.elem(f'e{i}') for i in range(nsym)]
    st = starts(ctx, kind, True)
    def run(m):
        out = []
        def did(f):
            (c, r) = cost(ctx, f)
            ctx.check(r[0] == 'ok', 'conversion', lambda: repr(r))
            out.append(c)
            return r[1]
        p = mk(ctx, kind, m, els, how, st)
        q = did(p.transient if kind in PERSISTENT else p.persistent)
        q2 = did(lambda: getattr(L, OTHER[kind])(p))
        q3 = did(p.copy)
        t = q if kind in PERSISTENT else p
        x = ctx.distinct(801)
        def edit():
            if kind in LIST: t.append(x)
            elif kind in SET: t.add(x)
            else: t[x] = x
        did(edit)
        f = did(t.persistent)
        did(t.persistent)
        did(f.transient)
        did(t.copy)
        return out
    (a, b) = (run(SMALL), run(n))
    what = ('converting', 'constructor', 'copy()', 'editing after thawing', 'freezing after an edit',
            'freezing again', 'thawing', 'copy() of an edited transient')
    for (x, y, w) in zip(a, b, what): within(ctx, y, x, w)


@harness
def list_points(ctx, kind, n, how, op, sym):
    """Edits and reads of one item, at any index."""
    st = starts(ctx, kind, sym)
    i = ctx.int('i', -n, n - 1) if op in ('get', 'set') else 0
    x = ctx.distinct(801)
    def run(m, i):
        p = mk(ctx, kind, m, [], how, st)
        pers = kind in PERSISTENT
        if op == 'get': f = lambda: p[i]
        elif op == 'first': f = lambda: p[0]
        elif op == 'last': f = lambda: p[-1]
        elif op == 'len': f = lambda: len(p)
        elif op == 'getlazy': f = lambda: p.getlazy(m // 2)
        elif op == 'set': f = (lambda: p.set(i, x)) if pers else (lambda: p.__setitem__(i, x))
        elif op == 'append': f = lambda: p.append(x)
        elif op == 'prepend': f = lambda: p.prepend(x)
        elif op == 'insert0': f = lambda: p.insert(0, x)
        elif op == 'insertn': f = lambda: p.insert(m, x)
        elif op == 'del0': f = (lambda: p.delete(0)) if pers else (lambda: p.__delitem__(0))
        elif op == 'del-1': f = (lambda: p.delete(-1)) if pers else (lambda: p.__delitem__(-1))
        elif op == 'deln': f = (lambda: p.delete(m - 1)) if pers else (lambda: p.__delitem__(m - 1))
        elif op == 'del-n': f = (lambda: p.delete(-m)) if pers else (lambda: p.__delitem__(-m))
        elif op == 'drop0': f = lambda: p.drop(0)
        elif op == 'pop': f = lambda: p.pop()
        elif op == 'pop0': f = lambda: p.pop(0)
        elif op == 'next': f = lambda: next(iter(p))
        elif op == 'clear': f = lambda: p.clear()
        elif op == 'extend': f = lambda: p.extend([x, x])
        elif op == 'add': f = lambda: p + [x, x]
        elif op == 'iadd':
            def f():
                q = p
                q += [x, x]
                return q
        (c, r) = cost(ctx, f)
        ctx.check(r[0] == 'ok', op, lambda: repr(r))
        return c
    base = [run(SMALL, k) for k in (range(-SMALL, SMALL) if op in ('get', 'set') else (0,))]
    within(ctx, run(n, i), max(base), kind + ' ' + op)


@harness
def set_points(ctx, kind, n, how, op, nsym):
    """Adding, removing and testing any one member."""
    els = [ctx.elem(f'e{i}') for i in range(nsym)]
    x = ctx.elem('x')
    def run(m, x):
        s = mk(ctx, kind, m, els, how, None)
        f = {'add': lambda: s.add(x), 'discard': lambda: s.discard(x), 'remove': lambda: s.remove(x),
             'in': lambda: x in s, 'len': lambda: len(s), 'pop': lambda: s.pop(),
             'next': lambda: next(iter(s)), 'clear': lambda: s.clear(),
             'update': lambda: s.update([x]), 'addall': lambda: s.addall([x])}[op]
        return cost(ctx, f)[0]
    base = [run(SMALL, k) for k in [x, ctx.distinct(0), ctx.distinct(802)]]
    within(ctx, run(n, x), max(base), kind + ' ' + op)


@harness
def dict_points(ctx, kind, n, how, op, nsym):
    """Setting, removing and looking up any one key."""
    els = [ctx.elem(f'e{i}') for i in range(nsym)]
    x = ctx.elem('x')
    v = ctx.distinct(803)
    def run(m, x):
        d = mk(ctx, kind, m, els, how, None)
        pers = kind in PERSISTENT
        f = {'set': (lambda: d.set(x, v)) if pers else (lambda: d.__setitem__(x, v)),
             'del': (lambda: d.delete(x)) if pers else (lambda: d.__delitem__(x)),
             'drop': lambda: d.drop(x),
             'pop': lambda: d.pop(x, None), 'popitem': lambda: d.popitem(),
             'setdefault': lambda: d.setdefault(x, v),
             'get': lambda: d.get(x), 'item': lambda: d[x], 'in': lambda: x in d,
             'getlazy': lambda: d.getlazy(x, None), 'len': lambda: len(d),
             'next': lambda: next(iter(d)), 'clear': lambda: d.clear(),
             'update': lambda: d.update([(x, v)]), 'setall': lambda: d.setall([x], [v]),
             'keys': lambda: x in d.keys(), 'keyslen': lambda: len(d.values())}[op]
        return cost(ctx, f)[0]
    base = [run(SMALL, k) for k in [x, ctx.distinct(0), ctx.distinct(802)]]
    within(ctx, run(n, x), max(base), kind + ' ' + op)




@harness
def sequences(ctx, kind, n, how, plan):
    """No step of a long run of edits touches more than the first ones do: a queue, a
    stack, replacing one entry again and again, freezing and thawing at every step."""
    st = starts(ctx, kind, True)
    r = ctx.int('r', 0, 1)      # which of two entries is replaced
    def run(m):
        p = mk(ctx, kind, m, [], how, st)
        pers = kind in PERSISTENT
        worst = 0
        for s in range(SMALL * 3):
            x = ctx.distinct(810 + s)
            def step(p):
                q = p
                if plan == 3: q = p.transient() if pers else p.persistent().transient()
                if kind in LIST:
                    if plan == 2: out = q.set(r, x) if hasattr(q, 'set') else q.__setitem__(r, x)
                    elif plan == 1:
                        out = q.append(x)
                        q = q if out is None else out
                        out = q.delete(-1) if hasattr(q, 'delete') else q.__delitem__(-1)
                    else:
                        out = q.append(x)
                        q = q if out is None else out
                        out = q.delete(0) if hasattr(q, 'delete') else q.__delitem__(0)
                else:
                    def put(q, k):
                        if kind in SET: return q.add(k)
                        return q.set(k, x) if hasattr(q, 'set') else q.__setitem__(k, x)
                    def cut(q, k):
                        if kind in SET: return q.discard(k)
                        return q.drop(k) if hasattr(q, 'drop') else q.__delitem__(k)
                    if plan == 2: out = put(q, ctx.distinct(1))
                    else:
                        out = put(q, x)
                        q = q if out is None else out
                        out = cut(q, next(iter(q)) if plan == 0 else x)
                q = q if out is None else out
                if plan == 3 and pers: q = q.persistent()
                return q
            (c, o) = cost(ctx, lambda: step(p))
            ctx.check(o[0] == 'ok', 'step', lambda: repr(o))
            p = o[1]
            worst = max(worst, c)
        return worst
    (a, b) = (run(SMALL), run(n))
    within(ctx, b, a, 'step of a sequence')


LOPS = ('get', 'set', 'first', 'last', 'len', 'append', 'prepend', 'insert0', 'insertn', 'del0',
        'del-1', 'deln', 'del-n', 'drop0', 'pop', 'pop0', 'next', 'clear', 'extend', 'add', 'iadd',
        'getlazy')
SOPS = ('add', 'discard', 'remove', 'in', 'len', 'pop', 'next', 'clear', 'update', 'addall')
DOPS = ('set', 'del', 'drop', 'pop', 'popitem', 'setdefault', 'get', 'item', 'in', 'getlazy', 'len',
        'next', 'clear', 'update', 'setall', 'keys', 'keyslen')


def jobs(tier):
    th = tier == 'thorough'
    n = 200 if th else 70
    m = 25 if th else 15
    J = []
    def job(fn, **kw): J.append(Job(W + '.' + fn, stub=True, seconds=400 if th else 60, cost=kw['n'], **kw))
    for kind in LIST + SET + DICT:
        hows = ('ctor', 'edited') if kind in LIST else ('ctor', 'thaw', 'less')
        for how in hows:
            job('conversions', kind=kind, n=n, how=how, nsym=0 if kind in LIST else 1)
            if kind not in LIST and th: job('conversions', kind=kind, n=m, how=how, nsym=2)
            for plan in range(4):
                job('sequences', kind=kind, n=n, how=how, plan=plan)
            if kind in LIST:
                for op in LOPS:
                    if op == 'drop0' and kind not in PERSISTENT: continue
                    if op == 'getlazy' and kind not in LISTS: continue
                    job('list_points', kind=kind, n=n, how=how, op=op, sym=True)
            elif kind in SET:
                for op in SOPS:
                    job('set_points', kind=kind, n=n, how=how, op=op, nsym=0)
                    if op in ('add', 'discard', 'in') and (th or how == 'ctor'):
                        job('set_points', kind=kind, n=m, how=how, op=op, nsym=1)
            else:
                for op in DOPS:
                    if op == 'drop' and kind not in PERSISTENT: continue
                    if op == 'getlazy' and kind not in DICTS: continue
                    job('dict_points', kind=kind, n=n, how=how, op=op, nsym=0)
                    if op in ('set', 'del', 'get', 'pop') and (th or how == 'ctor'):
                        job('dict_points', kind=kind, n=m, how=how, op=op, nsym=1)
    return J
