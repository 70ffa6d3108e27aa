"""C05 Transient sets behave like set under any hash collisions."""
from .common import *
from . import c04

BOUNDS = ('sets built from 0-3 symbolic elements (0-4 thorough) whose equality classes and hashes '
          '(|h| < 2^61) are arbitrary, by one of four histories (constructor, thawed, thawed and '
          'edited, one more member added and discarded); one operation, or two or three in a row, '
          'with up to 2 further elements; sets of 7 (10 thorough) distinct members that share up to '
          'three hash values, in every distribution, with any two members removed and one added'
          '; larger sets of 36, 14 and 11 distinct members (spread, shared and equal hashes) '
          'after five histories with one symbolic member or a batch'
          '; collections of 1-2 elements (3 thorough) of which any may not equal themselves')

W = 'c05'
HOWS = ('ctor', 'thaw', 'edited', 'less')

def op_add(ctx, s, r, tag):
    x = ctx.elem(tag + 'x')
    return (ctx.attempt(lambda: s.add(x)), ctx.attempt(lambda: r.add(x)))

def op_discard(ctx, s, r, tag):
    x = ctx.elem(tag + 'x')
    return (ctx.attempt(lambda: s.discard(x)), ctx.attempt(lambda: r.discard(x)))

def op_remove(ctx, s, r, tag):
    x = ctx.elem(tag + 'x')
    return (ctx.attempt(lambda: s.remove(x)), ctx.attempt(lambda: r.remove(x)))

def op_pop(ctx, s, r, tag):
    obs = ctx.attempt(lambda: s.pop())
    if not r.els: return (obs, ('err', 'KeyError'))
    ctx.check(obs[0] == 'ok', 'pop: raises', lambda: repr(obs))
    ctx.check(r.has(obs[1]), 'pop gives a member', lambda: repr(obs))
    r.discard(obs[1])
    return (obs, obs)

def op_clear(ctx, s, r, tag):
    obs = ctx.attempt(lambda: s.clear())
    r.els = []
    return (obs, ('ok', None))

def _batch(ctx, tag, s, r):
    how = ctx.pick(tag + 'how', ['list', 'gen', 'pset', 'tset', 'self'])
    if how == 'self': return (s, list(r.els))
    xs = [ctx.elem(tag + 'x')]
    if how in ('list', 'gen') or not r.els: xs.append(ctx.elem(tag + 'y'))
    return (as_operand(ctx, xs, how), xs)

def op_addall(ctx, s, r, tag, name='addall'):
    (a, xs) = _batch(ctx, tag, s, r)
    for x in xs: r.add(x)
    return (ctx.attempt(lambda: getattr(s, name)(a)), ('ok', None))

def op_update(ctx, s, r, tag): return op_addall(ctx, s, r, tag, 'update')

def op_discardall(ctx, s, r, tag):
    (a, xs) = _batch(ctx, tag, s, r)
    for x in xs: r.discard(x)
    return (ctx.attempt(lambda: s.discardall(a)), ('ok', None))

def op_removeall(ctx, s, r, tag):
    (a, xs) = _batch(ctx, tag, s, r)
    if type(a).__name__ in ('pset', 'tset'): xs = RSet(ctx, xs).els
    exp = ('ok', None)
    for x in xs:
        e = ctx.attempt(lambda: r.remove(x))
        if e[0] == 'err': exp = e; break
    return (ctx.attempt(lambda: s.removeall(a)), exp)

OPS = {k[3:]: v for (k, v) in list(globals().items()) if k.startswith('op_')}


def step(ctx, s, r, op, tag, label, probe):
    (obs, exp) = OPS[op](ctx, s, r, tag)
    ctx.same_outcome(obs, exp, label, lambda a, b: ctx.check(
        b is not None or a is None, label + ': result', lambda: repr(a)))
    observe_set(ctx, s, r, label, 'tset', probe)


@harness
def edit(ctx, n, op, how=None):
    """One operation on any transient set."""
    (s, r) = mk_tset(ctx, n, how=how)
    step(ctx, s, r, op, '', op, ctx.elem('probe'))
    ctx.reached(op)


@harness
def edits(ctx, n, ops):
    """Operations in a row."""
    (s, r) = mk_tset(ctx, n, how='ctor')
    ops = ops.split('+')
    for (j, op) in enumerate(ops):
        step(ctx, s, r, op, f'{j}', f'{op} (step {j + 1} of {"+".join(ops)})', None)
    ctx.reached('chain')


@harness
def chain(ctx, n, hashes):
    """Distinct members that share a few hash values in any distribution; any two are
    removed and one of them, and a new one, added."""
    els = []
    for i in range(n):
        h = ctx.choice(f'h{i}', min(hashes, i + 1)) if hashes > 1 else 0
        els.append(ctx.distinct(100 * (h + 1) + i, h=7 * h))
    t = ctx.lib.tset(els)
    r = RSet(ctx, els)
    a = ctx.choice('a', n)
    b = ctx.choice('b', n)
    t.discard(els[a]); r.discard(els[a])
    observe_set(ctx, t, r, 'one removed', 'tset', els[a])
    t.discard(els[b]); r.discard(els[b])
    observe_set(ctx, t, r, 'two removed', 'tset', els[b])
    t.add(els[a]); r.add(els[a])
    observe_set(ctx, t, r, 'one put back', 'tset')
    new = ctx.distinct(7777, h=0)
    t.add(new); r.add(new)
    observe_set(ctx, t, r, 'another added', 'tset', els[b])
    t.discard(new); r.discard(new)
    observe_set(ctx, t, r, 'and removed', 'tset', new)
    k = len(r)
    for _ in range(k):
        x = t.pop()
        ctx.check(r.has(x), 'pop gives a member')
        r.discard(x)
    observe_set(ctx, t, r, 'emptied by pop', 'tset', els[0])
    t.add(els[b]); r.add(els[b])
    observe_set(ctx, t, r, 'filled again', 'tset', els[a])
    ctx.reached('chain')


@harness
def build(ctx, n, source):
    """Construction from any iterable."""
    els = [ctx.elem(f'p{i}', special=True) for i in range(n)]
    src = as_operand(ctx, els, source)
    s = ctx.lib.tset(src)
    observe_set(ctx, s, RSet(ctx, els), f'tset({source})', 'tset', ctx.elem('probe', special=True))
    e = ctx.lib.tset()
    e.add(1)
    observe_set(ctx, ctx.lib.tset(), RSet(ctx), 'tset()', 'tset')
    ctx.check(ctx.attempt(lambda: ctx.lib.tset([], []))[0] == 'err', 'two arguments')
    ctx.check(ctx.attempt(lambda: ctx.lib.tset(3)) == ('err', 'TypeError'), 'non-iterable')


@harness
def copies(ctx, n):
    """copy() is independent."""
    (t, r) = mk_tset(ctx, n)
    u = t.copy()
    observe_set(ctx, u, r, 'copy', 'tset')
    x = ctx.elem('x')
    q = r.copy()
    u.add(x); q.add(x)
    observe_set(ctx, t, r, 'original after the copy changed', 'tset', x)
    observe_set(ctx, u, q, 'copy after it changed', 'tset', x)
    t.discard(x); r.discard(x)
    observe_set(ctx, t, r, 'original', 'tset', x)
    observe_set(ctx, u, q, 'copy after the original changed', 'tset', x)


@harness
def wide(ctx, n, hashes, holes, op):
    """One operation on a larger set; a member comes back."""
    (s, r, gone) = wide_set(ctx, 'tset', n, hashes, holes)
    step(ctx, s, r, op, '', op, None)
    if gone:
        s.add(gone[-1]); r.add(gone[-1])
        observe_set(ctx, s, r, 'then one added', 'tset', gone[0])
    ctx.reached('wide')


@harness
def wide_batch(ctx, n, hashes, op, how):
    """Batch operations on a larger set with few or many operands."""
    (s, r, gone) = wide_set(ctx, 'tset', n, hashes,
                            ctx.pick('holes', ['third', 'none']) if how != 'sym' else 'third')
    (a, xs) = wide_operand(ctx, n, hashes, how)
    if op == 'removeall' and type(a).__name__ in ('pset', 'tset', 'set'): xs = list(a)
    exp = ('ok', None)
    for x in xs:
        if op in ('addall', 'update'): r.add(x)
        elif op == 'discardall': r.discard(x)
        else:
            e = ctx.attempt(lambda: r.remove(x))
            if e[0] == 'err': exp = e; break
    ctx.same_outcome(ctx.attempt(lambda: getattr(s, op)(a)), exp, op)
    observe_set(ctx, s, r, op, 'tset')
    ctx.reached('wide')


@harness
def wide_empty(ctx, n, hashes):
    """A larger set emptied by pop, or by discard from either end, and filled again."""
    (s, r, gone) = wide_set(ctx, 'tset', n, hashes, 'third')
    how = ctx.pick('how', ['pop', 'first', 'last'])
    while len(r):
        if how == 'pop':
            x = s.pop()
            ctx.check(r.has(x), 'pop gives a member')
        else:
            x = r.els[0 if how == 'first' else -1]
            s.discard(x)
        r.discard(x)
        ctx.check(len(s) == len(r) and x not in s, 'emptying')
        if len(r) in (1, 2, n // 4, n // 2): observe_set(ctx, s, r, 'emptying', 'tset', x)
    ctx.check(ctx.attempt(lambda: s.pop()) == ('err', 'KeyError'), 'pop when empty')
    s.addall(gone)
    for x in gone: r.add(x)
    observe_set(ctx, s, r, 'filled again', 'tset', x)


@harness
def big_source(ctx, m, how, sym):
    """A small set extended with, or made from, many elements."""
    ps = [ctx.elem('k0')] if sym and ctx.bool('one') else []
    xs = wide_els(ctx, m)
    if how in ('list', 'gen') and ctx.bool('again'): xs += [xs[1], xs[m // 2]]
    form = ctx.pick('form', ['add', 'ctor', 'seven'])
    if form == 'seven': ps = ps + [ctx.distinct(2900 + i) for i in range(7)]
    (s, r) = (ctx.lib.tset(ps), RSet(ctx, ps))
    if form == 'ctor': (s, r) = (ctx.lib.tset(as_operand(ctx, xs, how)), RSet(ctx))
    else: s.update(as_operand(ctx, xs, how))
    for x in xs: r.add(x)
    observe_set(ctx, s, r, form, 'tset', ctx.distinct(2998))
    ctx.reached(form)



def jobs(tier):
    th = tier == 'thorough'
    out = []
    batch = ('addall', 'update', 'discardall', 'removeall')
    for op in OPS:
        for n in range(5 if th else 4):
            if n >= 3 and op in batch and not th: continue
            if n == 4 and op in batch: continue
            if n < 2: out.append(Job(W + '.edit', n=n, op=op))
            else:
                for how in HOWS:
                    if op in batch and how in ('edited', 'less') and not th: continue
                    if n == 3 and how == 'less' and op in ('add', 'remove') and not th: continue
                    out.append(Job(W + '.edit', n=n, op=op, how=how, cost=n,
                                   seconds=800 if th else 100))
    base = ('add', 'discard', 'remove', 'pop')
    for a in base:
        for b in base: out.append(Job(W + '.edits', n=2, ops=a + '+' + b, cost=1))
    for a in ('clear', 'pop', 'discard'):
        out.append(Job(W + '.edits', n=1, ops=a + '+add+discard', cost=1))
    if th:
        for a in base:
            for b in base:
                for c in ('add', 'discard'):
                    out.append(Job(W + '.edits', n=2, ops=a + '+' + b + '+' + c, seconds=400))
    out.append(Job(W + '.chain', n=10 if th else 7, hashes=1, cost=4))
    out.append(Job(W + '.chain', n=6 if th else 4, hashes=2, seconds=400, cost=4))
    if th: out.append(Job(W + '.chain', n=5, hashes=3, seconds=400))
    for s in ('list', 'tuple', 'gen', 'set', 'frozenset', 'pset', 'tset', 'plist', 'dict'):
        out.append(Job(W + '.build', n=3, source=s))
        out.append(Job(W + '.build', n=0, source=s))
    for op in OPS:
        for how in HOWS if th else HOWS[:1]:
            n = 3 if th else 2
            out.append(Job(W + '.edit', n=n - 1 if op in batch else n, op=op, how=how, nans=1,
                           cost=2, seconds=400 if th else 100))
    for s in ('list', 'gen'): out.append(Job(W + '.build', n=2, source=s, nans=1))
    for n in (0, 1, 2): out.append(Job(W + '.copies', n=n, cost=n))
    for (hashes, n) in WIDE:
        n = 2 * n if th else n
        out.append(Job(W + '.wide_empty', n=n, hashes=hashes, cost=3))
        for op in OPS:
            if op in batch:
                for how in WIDE_HOW:
                    out.append(Job(W + '.wide_batch', n=n, hashes=hashes, op=op, how=how, cost=3))
                continue
            for holes in HOLES:
                out.append(Job(W + '.wide', n=n, hashes=hashes, holes=holes, op=op, cost=3))
    for how in ('list', 'gen', 'set', 'pset', 'tset', 'plist'):
        out.append(Job(W + '.big_source', m=80 if th else 40, how=how, cost=3,
                           sym=th or how in ('list', 'pset')))
    return out
