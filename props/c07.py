"""C07 Persistent dicts have dict semantics under any hash collisions."""
from .common import *

BOUNDS = ('dicts built from 0-3 symbolic pairs (0-4 thorough) whose keys have arbitrary equality '
          'classes and hashes (|h| < 2^61) and whose values may be None, Ellipsis or falsy, by one '
          'of four histories (constructor, sets, thawed and edited, one more key added and dropped); '
          'one operation, or two in a row, with up to 2 further keys; dicts of 7 (10 thorough) '
          'distinct keys that share up to three hash values, in every distribution, with any two '
          'keys removed, one put back and one added'
          '; larger dicts of 36, 14 and 11 distinct keys (spread, shared and equal hashes) '
          'after five histories with one symbolic key or a batch; calls with a wrong number of '
          'arguments'
          '; collections of 1-2 elements (3 thorough) of which any may not equal themselves')

W = 'c07'
HOWS = ('ctor', 'sets', 'thaw', 'less')


def val(ctx, name): return ctx.elem(name, special=True)

def op_set(ctx, d, r, tag):
    (k, v, q) = (ctx.elem(tag + 'k'), val(ctx, tag + 'v'), r.copy())
    q.set(k, v)
    return (ctx.attempt(lambda: d.set(k, v)), ('ok', q))

def op_reset(ctx, d, r, tag):
    """Sets a present key to the value it has, or another's."""
    if not r.kv: return op_clear(ctx, d, r, tag)
    i = ctx.choice(tag + 'i', len(r.kv))
    j = ctx.choice(tag + 'j', len(r.kv))
    (k, v, q) = (r.kv[i][0], r.kv[j][1], r.copy())
    q.set(k, v)
    return (ctx.attempt(lambda: d.set(k, v)), ('ok', q))

def op_drop(ctx, d, r, tag):
    (k, q) = (ctx.elem(tag + 'k'), r.copy())
    q.drop(k)
    return (ctx.attempt(lambda: d.drop(k)), ('ok', q))

def op_delete(ctx, d, r, tag):
    (k, q) = (ctx.elem(tag + 'k'), r.copy())
    exp = ctx.attempt(lambda: q.delete(k))
    return (ctx.attempt(lambda: d.delete(k)), exp if exp[0] == 'err' else ('ok', q))

def _pair(ctx, obs, what):
    ctx.check(obs[0] == 'ok', what + ': raises', lambda: repr(obs))
    ctx.check(type(obs[1]) is tuple and len(obs[1]) == 2, what + ' gives a pair',
              lambda: repr(obs[1]))
    return obs[1]

def op_pop(ctx, d, r, tag):
    (k, q) = (ctx.elem(tag + 'k'), r.copy())
    dflt = ctx.bool(tag + 'dflt')
    v = None
    if dflt: v = ctx.pick(tag + 'default', [None, 7])
    obs = ctx.attempt(lambda: d.pop(k, v) if dflt else d.pop(k))
    if not r.has(k) and not dflt: return (obs, ('err', 'KeyError'))
    (x, u) = _pair(ctx, obs, 'pop')
    if r.has(k):
        ctx.check(ctx.same(x, r.get(k)), 'pop: value', lambda: repr(x))
        q.drop(k)
    else: ctx.check(x is v, 'pop: default', lambda: repr(x))
    return (('ok', u), ('ok', q))

def op_popitem(ctx, d, r, tag):
    obs = ctx.attempt(lambda: d.popitem())
    if not r.kv: return (obs, ('err', 'KeyError'))
    (kv, u) = _pair(ctx, obs, 'popitem')
    ctx.check(type(kv) is tuple and len(kv) == 2, 'popitem gives an item', lambda: repr(kv))
    q = r.copy()
    ctx.check(q.has(kv[0]), 'popitem gives a key of the dict', lambda: repr(kv))
    ctx.check(ctx.same(q.get(kv[0]), kv[1]), 'popitem gives its value', lambda: repr(kv))
    q.drop(kv[0])
    return (('ok', u), ('ok', q))

def op_setdefault(ctx, d, r, tag):
    (k, q) = (ctx.elem(tag + 'k'), r.copy())
    if ctx.bool(tag + 'dflt'):
        v = val(ctx, tag + 'v')
        obs = ctx.attempt(lambda: d.setdefault(k, v))
    else:
        v = None
        obs = ctx.attempt(lambda: d.setdefault(k))
    if not q.has(k): q.set(k, v)
    return (obs, ('ok', q))

def op_clear(ctx, d, r, tag):
    return (ctx.attempt(lambda: d.clear()), ('ok', RDict(ctx)))

def pairs_as(ctx, ps, how):
    if how == 'list': return list(ps)
    if how == 'gen': return gen(ctx, ps)
    if how == 'dict': return dict(ps)
    return getattr(ctx.lib, how)(ps)

def op_update(ctx, d, r, tag):
    how = ctx.pick(tag + 'how', ['list', 'gen', 'dict', 'pdict', 'tdict', 'self', 'two', 'none'])
    q = r.copy()
    if how == 'self': return (ctx.attempt(lambda: d.update(d)), ('ok', q))
    if how == 'none': return (ctx.attempt(lambda: d.update()), ('ok', q))
    ps = [(ctx.elem(tag + 'k'), val(ctx, tag + 'v'))]
    if how in ('list', 'gen', 'two'): ps.append((ctx.elem(tag + 'k2'), val(ctx, tag + 'v2')))
    for (k, v) in ps: q.set(k, v)
    if how == 'two': return (ctx.attempt(lambda: d.update(ps[:1], dict(ps[1:]))), ('ok', q))
    a = pairs_as(ctx, ps, how)
    return (ctx.attempt(lambda: d.update(a)), ('ok', q))

def op_setall(ctx, d, r, tag):
    how = ctx.pick(tag + 'how', ['list', 'gen', 'short'])
    (k, k2) = (ctx.elem(tag + 'k'), ctx.elem(tag + 'k2'))
    (v, v2) = (val(ctx, tag + 'v'), val(ctx, tag + 'v2'))
    q = r.copy()
    q.set(k, v)
    if how == 'short': return (ctx.attempt(lambda: d.setall([k, k2], [v])), ('ok', q))
    q.set(k2, v2)
    if how == 'list': return (ctx.attempt(lambda: d.setall([k, k2], [v, v2])), ('ok', q))
    return (ctx.attempt(lambda: d.setall(gen(ctx, [k, k2]), gen(ctx, [v, v2]))), ('ok', q))

def _keys(ctx, d, r, tag):
    how = ctx.pick(tag + 'how', ['list', 'gen', 'self', 'keys', 'pset'])
    if how == 'self': return (d, r.keys())
    if how == 'keys': return (d.keys(), r.keys())
    xs = [ctx.elem(tag + 'k')]
    if how != 'pset': xs.append(ctx.elem(tag + 'k2'))
    return (as_operand(ctx, xs, how), xs)

def op_dropall(ctx, d, r, tag):
    (a, xs) = _keys(ctx, d, r, tag)
    q = r.copy()
    for x in xs: q.drop(x)
    return (ctx.attempt(lambda: d.dropall(a)), ('ok', q))

def op_deleteall(ctx, d, r, tag):
    (a, xs) = _keys(ctx, d, r, tag)
    q = r.copy()
    exp = ('ok', q)
    for x in xs:
        e = ctx.attempt(lambda: q.delete(x))
        if e[0] == 'err': exp = e; break
    return (ctx.attempt(lambda: d.deleteall(a)), exp)

OPS = {k[3:]: v for (k, v) in list(globals().items()) if k.startswith('op_')}


def step(ctx, kind, d, r, op, tag, label, probe):
    (obs, exp) = OPS[op](ctx, d, r, tag)
    if not ctx.same_outcome(obs, exp, label):
        observe_dict(ctx, d, r, label + ': the dict after the error', kind)
        return None
    observe_dict(ctx, obs[1], exp[1], label, kind, probe)
    observe_dict(ctx, d, r, label + ': the dict it came from', kind)
    return (obs[1], exp[1])


@harness
def edit(ctx, kind, n, op, how=None):
    """One operation on any persistent dict."""
    (d, r) = mk_pdict(ctx, kind, n, how=how)
    step(ctx, kind, d, r, op, '', op, ctx.elem('probe'))
    ctx.reached(op)


@harness
def edits(ctx, kind, n, ops):
    """Operations in a row."""
    (d, r) = mk_pdict(ctx, kind, n, how='ctor')
    for (j, op) in enumerate(ops.split('+')):
        dr = step(ctx, kind, d, r, op, f'{j}', f'{op} (step {j + 1} of {ops})', None)
        if dr is None: break
        (d, r) = dr
    ctx.reached('edits')


def chain_keys(ctx, n, hashes):
    out = []
    for i in range(n):
        h = ctx.choice(f'h{i}', min(hashes, i + 1)) if hashes > 1 else 0
        out.append(ctx.distinct(100 * (h + 1) + i, h=7 * h))
    return out


@harness
def chain(ctx, n, hashes):
    """Distinct keys that share a few hash values in any distribution; any one is
    replaced, any two are removed, and one of them, or a new one, added."""
    ks = chain_keys(ctx, n, hashes)
    r = RDict(ctx, [(k, i) for (i, k) in enumerate(ks)])
    d = ctx.lib.pdict(r.items())
    a = ctx.choice('a', n)
    b = ctx.choice('b', n)
    d0 = d.set(ks[a], 'z'); r0 = r.copy(); r0.set(ks[a], 'z')
    observe_dict(ctx, d0, r0, 'one replaced', 'pdict')
    d1 = d.drop(ks[a]); r1 = r.copy(); r1.drop(ks[a])
    observe_dict(ctx, d1, r1, 'one removed', 'pdict', ks[a])
    (v, dp) = d.pop(ks[a])
    ctx.check(v == a, 'value popped')
    observe_dict(ctx, dp, r1, 'one popped', 'pdict', ks[a])
    d2 = d1.drop(ks[b]); r2 = r1.copy(); r2.drop(ks[b])
    observe_dict(ctx, d2, r2, 'two removed', 'pdict', ks[b])
    d2b = dp.pop(ks[b], None)[1]
    observe_dict(ctx, d2b, r2, 'two popped', 'pdict', ks[b])
    d3 = d2.set(ks[a], 'a'); r3 = r2.copy(); r3.set(ks[a], 'a')
    observe_dict(ctx, d3, r3, 'one put back', 'pdict')
    new = ctx.distinct(7777, h=0)
    d4 = d2.set(new, None); r4 = r2.copy(); r4.set(new, None)
    observe_dict(ctx, d4, r4, 'another added', 'pdict', ks[b])
    observe_dict(ctx, d4.drop(new), r2, 'and removed', 'pdict', new)
    observe_dict(ctx, d, r, 'the original', 'pdict', new)
    ctx.reached('chain')


SOURCES = ('list', 'tuple', 'gen', 'dict', 'pdict', 'tdict', 'ldict', 'tldict', 'items')

@harness
def build(ctx, kind, n, source, kw):
    """Construction from any mapping or iterable of pairs, with keywords."""
    ps = mk_pairs(ctx, n)
    r = RDict(ctx, ps)
    if source == 'tuple': src = tuple(ps)
    elif source == 'items': src = ctx.lib.pdict(ps).items()
    else: src = pairs_as(ctx, ps, source)
    P = getattr(ctx.lib, kind)
    if kw == 'none': d = P(src)
    elif kw == 'kw':
        d = P(src, cls=1, self=None)
        r.set('cls', 1); r.set('self', None)
    else:
        d = P(**{'cls': 1, 'arg': 2})
        r = RDict(ctx, [('cls', 1), ('arg', 2)])
    observe_dict(ctx, d, r, f'{kind}({source}, {kw})', kind, ctx.elem('probe'))
    observe_dict(ctx, P(), RDict(ctx), f'{kind}()', kind)
    ctx.check(ctx.attempt(lambda: P([], []))[0] == 'err', 'two arguments')
    ctx.check(ctx.attempt(lambda: P(3)) == ('err', 'TypeError'), 'non-iterable')


@harness
def keywords(ctx, kind):
    """update with keywords of any name."""
    (d, r) = mk_pdict(ctx, kind, 1)
    q = r.copy()
    for (k, v) in (('self', 1), ('cls', None), ('arg', 3), ('key', 0)): q.set(k, v)
    u = d.update(self=1, cls=None, arg=3, key=0)
    observe_dict(ctx, u, q, 'update(keywords)', kind)
    k = ctx.elem('k')
    q.set(k, 2); q.set('self', 5)
    observe_dict(ctx, u.update([(k, 2)], self=5), q, 'update(pairs, keywords)', kind)
    observe_dict(ctx, d, r, 'the dict it came from', kind)


@harness
def wide(ctx, kind, n, hashes, holes, op):
    """One operation on a larger dict; a key comes back."""
    (d, r, gone) = wide_dict(ctx, kind, n, hashes, holes)
    dr = step(ctx, kind, d, r, op, '', op, None)
    if dr is not None and gone:
        (d, r) = dr
        r.set(gone[0], 'z')
        observe_dict(ctx, d.set(gone[0], 'z'), r, 'then one set', kind, gone[-1])
    ctx.reached('wide')


@harness
def wide_batch(ctx, kind, n, hashes, op, how):
    """Batch operations on a larger dict with few or many operands."""
    (d, r, gone) = wide_dict(ctx, kind, n, hashes,
                             ctx.pick('holes', ['third', 'none']) if how != 'sym' else 'third')
    q = r.copy()
    exp = ('ok', q)
    if op in ('update', 'setall'):
        (_, xs) = wide_operand(ctx, n, hashes, 'sym' if how == 'sym' else 'list')
        ps = [(x, i) for (i, x) in enumerate(xs)]
        for (k, v) in ps: q.set(k, v)
        if op == 'update':
            a = pairs_as(ctx, ps, {'sym': 'list', 'pset': 'pdict', 'tset': 'tdict', 'set': 'dict'}.get(how, how))
            obs = ctx.attempt(lambda: d.update(a))
        else:
            vs = gen(ctx, range(len(xs))) if how == 'gen' else list(range(len(xs)))
            obs = ctx.attempt(lambda: d.setall(xs, vs))
    else:
        (a, xs) = wide_operand(ctx, n, hashes, how)
        for x in xs:
            if op == 'dropall': q.drop(x)
            else:
                e = ctx.attempt(lambda: q.delete(x))
                if e[0] == 'err': exp = e; break
        obs = ctx.attempt(lambda: getattr(d, op)(a))
    if ctx.same_outcome(obs, exp, op): observe_dict(ctx, obs[1], q, op, kind)
    observe_dict(ctx, d, r, op + ': the dict it came from', kind)
    ctx.reached('wide')


@harness
def wide_empty(ctx, kind, n, hashes):
    """A larger dict emptied by popitem, or by drop from either end, and filled again."""
    (d, r, gone) = wide_dict(ctx, kind, n, hashes, 'third')
    how = ctx.pick('how', ['popitem', 'first', 'last'])
    while len(r):
        if how == 'popitem':
            ((k, v), d) = d.popitem()
            ctx.check(ctx.same(r.get(k, Ellipsis), v), 'popitem gives an item')
        else:
            k = r.kv[0 if how == 'first' else -1][0]
            d = d.drop(k)
        r.drop(k)
        ctx.check(len(d) == len(r) and k not in d, 'emptying')
        if len(r) in (1, 2, n // 4, n // 2): observe_dict(ctx, d, r, 'emptying', kind, k)
    ctx.check(ctx.attempt(lambda: d.popitem()) == ('err', 'KeyError'), 'popitem when empty')
    for k in gone:
        d = d.set(k, 1); r.set(k, 1)
    observe_dict(ctx, d, r, 'filled again', kind, k)


@harness
def arity(ctx, kind):
    """Calls with the wrong number of arguments are refused."""
    (d, r) = mk_pdict(ctx, kind, 1, how='ctor')
    k = ctx.elem('k')
    TE = ('err', 'TypeError')
    for f in (lambda: d.pop(k, 1, 2), lambda: d.pop(), lambda: d.set(k), lambda: d.get(),
              lambda: d.get(k, 1, 2), lambda: d.popitem(1), lambda: d.drop(), lambda: d.delete(),
              lambda: d.setdefault(), lambda: d.setdefault(k, 1, 2), lambda: d.setall([k])):
        ctx.check(ctx.attempt(f) == TE, 'wrong number of arguments')
    observe_dict(ctx, d, r, 'the dict', kind, k)


@harness
def big_source(ctx, kind, m, how, sym):
    """A small dict updated with, or made from, many items."""
    cls = getattr(ctx.lib, kind)
    ps = [(ctx.elem('k0'), 'a')] if sym and ctx.bool('one') else []
    xs = wide_els(ctx, m)
    qs = list(zip(xs, range(m)))
    if how in ('list', 'gen') and ctx.bool('again'): qs += [(xs[1], None), (xs[m // 2], 0)]
    form = ctx.pick('form', ['update', 'two', 'ctor', 'seven'])
    (d, r) = (cls(ps), RDict(ctx, ps))
    if form == 'ctor': (d, r) = (cls(pairs_as(ctx, qs, how)), RDict(ctx))
    else:
        first = []
        if form == 'two': first = [[(xs[3], 'b'), (ctx.distinct(2998), 'c')]]
        if form == 'seven':
            seven = [(ctx.distinct(2900 + i), i) for i in range(7)]
            (d, r) = (cls(ps + seven), RDict(ctx, ps + seven))
        for (k, v) in (first or [[]])[0]: r.set(k, v)
        obs = ctx.attempt(lambda: d.update(*first, pairs_as(ctx, qs, how)))
        ctx.check(obs[0] == 'ok', 'update', lambda: repr(obs))
        d = obs[1]
    for (k, v) in qs: r.set(k, v)
    observe_dict(ctx, d, r, form, kind, ctx.distinct(2998))
    ctx.reached(form)



def jobs(tier):
    th = tier == 'thorough'
    out = []
    batch = ('update', 'setall', 'dropall', 'deleteall')
    for op in OPS:
        for n in range(5 if th else 4):
            if n >= 3 and op in batch and not th: continue
            if n == 4 and op in batch: continue
            if n < 2: out.append(Job(W + '.edit', kind='pdict', n=n, op=op, seconds=400 if th else 100))
            else:
                for how in HOWS:
                    if op in batch and how in ('sets', 'less') and not th: continue
                    if n == 3 and how in ('sets', 'less') and not th: continue
                    out.append(Job(W + '.edit', kind='pdict', n=n, op=op, how=how, cost=n,
                                   seconds=800 if th else 100))
        for n in (0, 1, 2):
            if n == 2 and op in batch and not th: continue
            out.append(Job(W + '.edit', kind='ldict', n=n, op=op, how='ctor', cost=n))
    base = ('set', 'drop', 'pop', 'setdefault')
    for a in base:
        for b in base: out.append(Job(W + '.edits', kind='pdict', n=2, ops=a + '+' + b, cost=2))
    for a in ('clear', 'popitem', 'delete'):
        out.append(Job(W + '.edits', kind='pdict', n=1, ops=a + '+set+drop', cost=1))
    if th:
        for a in base:
            for b in base:
                for c in ('set', 'drop'):
                    out.append(Job(W + '.edits', kind='pdict', n=2, ops=a + '+' + b + '+' + c,
                                   seconds=600))
    out.append(Job(W + '.chain', n=10 if th else 7, hashes=1, cost=4))
    out.append(Job(W + '.chain', n=6 if th else 4, hashes=2, seconds=400, cost=4))
    if th: out.append(Job(W + '.chain', n=5, hashes=3, seconds=400))
    for op in OPS:
        for (kind, n) in (('pdict', 3 if th else 2), ('ldict', 2 if th else 1)):
            out.append(Job(W + '.edit', kind=kind, n=1 if op in batch else n, op=op, how='ctor', nans=1,
                           cost=2, seconds=400 if th else 100))
    for kind in ('pdict', 'ldict'):
        for s in SOURCES:
            for kw in ('none', 'kw'):
                out.append(Job(W + '.build', kind=kind, n=2, source=s, kw=kw))
            out.append(Job(W + '.build', kind=kind, n=0, source=s, kw='none'))
        out.append(Job(W + '.build', kind=kind, n=0, source='list', kw='only'))
        out.append(Job(W + '.keywords', kind=kind))
        out.append(Job(W + '.arity', kind=kind))
        for (hashes, n) in WIDE:
            n = 2 * n if th else n
            if kind == 'ldict' and not th and n > 12: continue
            out.append(Job(W + '.wide_empty', kind=kind, n=n, hashes=hashes, cost=3))
            for op in OPS:
                if op in batch:
                    for how in WIDE_HOW:
                        if op == 'setall' and how not in ('sym', 'list', 'gen'): continue
                        out.append(Job(W + '.wide_batch', kind=kind, n=n, hashes=hashes, op=op,
                                       how=how, cost=3))
                    continue
                for holes in HOLES:
                    out.append(Job(W + '.wide', kind=kind, n=n, hashes=hashes, holes=holes, op=op,
                                   cost=3))
    for kind in ('pdict', 'ldict'):
        for how in ('list', 'gen', 'dict', 'pdict', 'tdict'):
            out.append(Job(W + '.big_source', kind=kind, m=80 if th else 40, how=how, cost=3,
                           sym=th or how in ('list', 'pdict')))
    return out
