"""C04 Persistent sets have set semantics under any hash collisions."""
from .common import *

BOUNDS = ('sets built from 0-3 symbolic elements (0-4 thorough) whose equality classes and hashes '
          '(|h| < 2^61) are arbitrary, by one of four histories (constructor, adds, thawed and '
          'edited, one more member added and discarded); one operation, or two in a row, with up to '
          '2 further elements; sets of 7 (10 thorough) distinct members that share up to three hash '
          'values, in every distribution, with any two members removed and one added'
          '; larger sets of 36, 14 and 11 distinct members (spread, shared and equal hashes) '
          'after five histories with one symbolic member or a batch'
          '; collections of 1-2 elements (3 thorough) of which any may not equal themselves')

W = 'c04'

def op_add(ctx, s, r, tag):
    (x, q) = (ctx.elem(tag + 'x'), r.copy())
    q.add(x)
    return (ctx.attempt(lambda: s.add(x)), ('ok', q))

def op_discard(ctx, s, r, tag):
    (x, q) = (ctx.elem(tag + 'x'), r.copy())
    q.discard(x)
    return (ctx.attempt(lambda: s.discard(x)), ('ok', q))

def op_remove(ctx, s, r, tag):
    (x, q) = (ctx.elem(tag + 'x'), r.copy())
    exp = ctx.attempt(lambda: q.remove(x))
    return (ctx.attempt(lambda: s.remove(x)), exp if exp[0] == 'err' else ('ok', q))

def op_pop(ctx, s, r, tag):
    obs = ctx.attempt(lambda: s.pop())
    if not r.els: return (obs, ('err', 'KeyError'))
    ctx.check(obs[0] == 'ok', 'pop: raises', lambda: repr(obs))
    ctx.check(type(obs[1]) is tuple and len(obs[1]) == 2, 'pop gives a pair')
    (x, u) = obs[1]
    q = r.copy()
    ctx.check(q.has(x), 'pop gives a member', lambda: repr(x))
    q.discard(x)
    return (('ok', u), ('ok', q))

def op_clear(ctx, s, r, tag):
    return (ctx.attempt(lambda: s.clear()), ('ok', RSet(ctx)))

def _batch(ctx, tag, s, r):
    how = ctx.pick(tag + 'how', ['list', 'gen', 'pset', 'tset', 'self'])
    if how in ('pset', 'tset') and len(r) > 1:
        xs = [ctx.elem(tag + 'x')]
        return (as_operand(ctx, xs, how), xs)
    if how == 'self': return (s, list(r.els))
    xs = [ctx.elem(tag + 'x'), ctx.elem(tag + 'y')]
    return (as_operand(ctx, xs, how), xs)

def op_addall(ctx, s, r, tag):
    (a, xs) = _batch(ctx, tag, s, r)
    q = r.copy()
    for x in xs: q.add(x)
    return (ctx.attempt(lambda: s.addall(a)), ('ok', q))

def op_discardall(ctx, s, r, tag):
    (a, xs) = _batch(ctx, tag, s, r)
    q = r.copy()
    for x in xs: q.discard(x)
    return (ctx.attempt(lambda: s.discardall(a)), ('ok', q))

def op_removeall(ctx, s, r, tag):
    how = ctx.pick(tag + 'how', ['list', 'gen', 'pset', 'self'])
    q = r.copy()
    if how == 'self': (a, xs) = (s, list(r.els))
    else:
        xs = [ctx.elem(tag + 'x'), ctx.elem(tag + 'y')]
        a = as_operand(ctx, xs, how)
        if how == 'pset': xs = RSet(ctx, xs).els
    exp = ('ok', q)
    for x in xs:
        e = ctx.attempt(lambda: q.remove(x))
        if e[0] == 'err': exp = e; break
    return (ctx.attempt(lambda: s.removeall(a)), exp)

OPS = {k[3:]: v for (k, v) in list(globals().items()) if k.startswith('op_')}


def step(ctx, s, r, op, tag, label, probe):
    (obs, exp) = OPS[op](ctx, s, r, tag)
    if not ctx.same_outcome(obs, exp, label): return None
    observe_set(ctx, obs[1], exp[1], label, 'pset', probe)
    observe_set(ctx, s, r, label + ': the set it came from', 'pset')
    return (obs[1], exp[1])


@harness
def edit(ctx, n, op, how=None):
    """One operation on any persistent set."""
    (s, r) = mk_pset(ctx, n, how=how)
    step(ctx, s, r, op, '', op, ctx.elem('probe'))
    ctx.reached(op)


@harness
def edits(ctx, n, ops):
    """Operations in a row."""
    (s, r) = mk_pset(ctx, n, how='ctor')
    for (j, op) in enumerate(ops.split('+')):
        sr = step(ctx, s, r, op, f'{j}', f'{op} (step {j + 1} of {ops})', None)
        if sr is None: break
        (s, r) = sr
    ctx.reached('chain')


@harness
def chain(ctx, n, hashes):
    """Distinct members that share a few hash values in any distribution; any two are
    removed and one of them, or a new one, added."""
    els = []
    for i in range(n):
        h = ctx.choice(f'h{i}', min(hashes, i + 1)) if hashes > 1 else 0
        els.append(ctx.distinct(100 * (h + 1) + i, h=7 * h))
    s = ctx.lib.pset(els)
    r = RSet(ctx, els)
    a = ctx.choice('a', n)
    b = ctx.choice('b', n)
    s1 = s.discard(els[a]); r1 = r.copy(); r1.discard(els[a])
    observe_set(ctx, s1, r1, 'one removed', 'pset', els[a])
    s2 = s1.discard(els[b]); r2 = r1.copy(); r2.discard(els[b])
    observe_set(ctx, s2, r2, 'two removed', 'pset', els[b])
    s3 = s2.add(els[a]); r3 = r2.copy(); r3.add(els[a])
    observe_set(ctx, s3, r3, 'one put back', 'pset')
    new = ctx.distinct(7777, h=0)
    s4 = s2.add(new); r4 = r2.copy(); r4.add(new)
    observe_set(ctx, s4, r4, 'another added', 'pset', els[b])
    s5 = s4.discard(new)
    observe_set(ctx, s5, r2, 'and removed', 'pset', new)
    observe_set(ctx, s, r, 'the original', 'pset', new)
    ctx.reached('chain')


@harness
def build(ctx, n, source):
    """Construction from any iterable, and the mixed kinds of elements."""
    els = [ctx.elem(f'p{i}', special=True) for i in range(n)]
    src = as_operand(ctx, els, source)
    s = ctx.lib.pset(src)
    observe_set(ctx, s, RSet(ctx, els), f'pset({source})', 'pset', ctx.elem('probe', special=True))
    observe_set(ctx, ctx.lib.pset(), RSet(ctx), 'pset()', 'pset')
    ctx.check(ctx.attempt(lambda: ctx.lib.pset([], []))[0] == 'err', 'two arguments')
    ctx.check(ctx.attempt(lambda: ctx.lib.pset(3)) == ('err', 'TypeError'), 'non-iterable')


@harness
def wide(ctx, n, hashes, holes, op):
    """One operation on a larger set; its member comes back, or is new."""
    (s, r, gone) = wide_set(ctx, 'pset', n, hashes, holes)
    sr = step(ctx, s, r, op, '', op, None)
    if sr is not None and gone:
        (s, r) = sr
        r.add(gone[-1])
        observe_set(ctx, s.add(gone[-1]), r, 'then one added', 'pset', gone[0])
    ctx.reached('wide')


@harness
def wide_batch(ctx, n, hashes, op, how):
    """Batch operations on a larger set with few or many operands."""
    (s, r, gone) = wide_set(ctx, 'pset', n, hashes, ctx.pick('holes', ['third', 'none']) if how != 'sym' else 'third')
    (a, xs) = wide_operand(ctx, n, hashes, how)
    q = r.copy()
    exp = ('ok', q)
    for x in xs:
        if op == 'addall': q.add(x)
        elif op == 'discardall': q.discard(x)
        else:
            e = ctx.attempt(lambda: q.remove(x))
            if e[0] == 'err': exp = e; break
    obs = ctx.attempt(lambda: getattr(s, op)(a))
    if ctx.same_outcome(obs, exp, op): observe_set(ctx, obs[1], q, op, 'pset')
    observe_set(ctx, s, r, op + ': the set it came from', 'pset')
    ctx.reached('wide')


@harness
def big_source(ctx, m, how, sym):
    """A small set extended with, or made from, many elements."""
    ps = [ctx.elem('k0')] if sym and ctx.bool('one') else []
    xs = wide_els(ctx, m)
    if how in ('list', 'gen') and ctx.bool('again'): xs += [xs[1], xs[m // 2]]
    form = ctx.pick('form', ['add', 'ctor', 'seven'])
    if form == 'seven': ps = ps + [ctx.distinct(2900 + i) for i in range(7)]
    (s, r) = (ctx.lib.pset(ps), RSet(ctx, ps))
    if form == 'ctor': (s, r) = (ctx.lib.pset(as_operand(ctx, xs, how)), RSet(ctx))
    else: s = s.addall(as_operand(ctx, xs, how))
    for x in xs: r.add(x)
    observe_set(ctx, s, r, form, 'pset', ctx.distinct(2998))
    ctx.reached(form)



def jobs(tier):
    th = tier == 'thorough'
    out = []
    batch = ('addall', 'discardall', 'removeall')
    for op in OPS:
        for n in range(5 if th else 4):
            if n == 4 and op in batch: continue
            if n == 3 and op in batch and not th: continue
            if n < 2: out.append(Job(W + '.edit', n=n, op=op))
            else:
                for how in SETHOWS:
                    if op in batch and how in ('adds', 'less') and not th: continue
                    out.append(Job(W + '.edit', n=n, op=op, how=how, cost=n,
                                   seconds=800 if th else 100))
    base = ('add', 'discard', 'remove', 'pop')
    for a in base:
        for b in base: out.append(Job(W + '.edits', n=2, ops=a + '+' + b))
    if th:
        for a in base:
            for b in base:
                for c in ('add', 'discard'):
                    out.append(Job(W + '.edits', n=2, ops=a + '+' + b + '+' + c, seconds=400))
    out.append(Job(W + '.chain', n=10 if th else 7, hashes=1))
    out.append(Job(W + '.chain', n=6 if th else 4, hashes=2, seconds=400))
    if th: out.append(Job(W + '.chain', n=5, hashes=3, seconds=400))
    for op in OPS:
        for how in SETHOWS if th else SETHOWS[:1]:
            n = 3 if th else 2
            out.append(Job(W + '.edit', n=n - 1 if op in batch else n, op=op, how=how, nans=1,
                           cost=2, seconds=400 if th else 100))
    for s in ('list', 'tuple', 'gen', 'plist'): out.append(Job(W + '.build', n=2, source=s, nans=1))
    for s in ('list', 'tuple', 'gen', 'set', 'frozenset', 'pset', 'tset', 'plist', 'dict'):
        out.append(Job(W + '.build', n=3, source=s))
        out.append(Job(W + '.build', n=0, source=s))
    for op in OPS:
        for (hashes, n) in WIDE:
            if op in batch:
                for how in WIDE_HOW:
                    out.append(Job(W + '.wide_batch', n=2 * n if th else n, hashes=hashes, op=op,
                                   how=how, cost=3))
                continue
            for holes in HOLES:
                out.append(Job(W + '.wide', n=2 * n if th else n, hashes=hashes, holes=holes, op=op, cost=3))
    for how in ('list', 'gen', 'set', 'pset', 'tset', 'plist'):
        out.append(Job(W + '.big_source', m=80 if th else 40, how=how, cost=3,
                           sym=th or how in ('list', 'pset')))
    return out
