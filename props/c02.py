"""C02 Sequence reads agree with list."""
from .common import *

BOUNDS = ('lists of 0-4 symbolic elements (0-6 thorough; slices 0-3, thorough 0-4) of all four list '
          'kinds with any window start in [-2^60, 2^60]; any index, slice start, stop, step and '
          'search bound in [-2^60, 2^60] or omitted; lists of 24 (40 thorough) concrete elements'
          '; larger lists: any index, slices at telling positions'
          '; collections of 1-2 elements (3 thorough) of which any may not equal themselves')

W = 'c02'


@harness
def index_read(ctx, kind, n, wide=False):
    els = [ctx.distinct(i) for i in range(n)] if wide else mk_els(ctx, n)
    p = mk_list(ctx, kind, els)
    i = ctx.int('i', -BIG, BIG)
    obs = ctx.attempt(lambda: p[i])
    exp = ctx.attempt(lambda: els[ridx(i, n)])
    ctx.same_outcome(obs, exp, 'p[i]', lambda a, b: ctx.check(ctx.same(a, b), 'p[i]',
                                                              lambda: f'{a!r} expected {b!r}'))
    ctx.reached('index ' + exp[0])


@harness
def walk(ctx, kind, n, wide=False):
    """len, iteration, reversed and repeated iteration."""
    els = [ctx.distinct(i) for i in range(n)] if wide else mk_els(ctx, n)
    p = mk_list(ctx, kind, els)
    ctx.check(len(p) == n, 'len')
    ctx.check(bool(p) == bool(els), 'truth value')
    ctx.same_seq(list(p), els, 'iteration')
    ctx.same_seq(list(reversed(p)), els[::-1], 'reversed')
    it = iter(p)
    got = []
    for _ in range(n): got.append(next(it))
    ctx.same_seq(got, els, 'stepwise iteration')
    ctx.check(ctx.attempt(lambda: next(it)) == ('err', 'StopIteration'), 'iteration ends')
    (a, b) = (iter(p), iter(p))
    inter = []
    for _ in range(n): inter += [next(a), next(b)]
    ctx.same_seq(inter, [x for e in els for x in (e, e)], 'two iterations at once')
    ctx.same_seq(list(p), els, 'iterating again')
    ctx.same_seq([x for (_, x) in zip(range(n + 1), p)], els, 'zip')
    ctx.same_seq([*p], els, 'unpacking')
    ctx.same_seq(list(p.copy()), els, 'a copy')
    ctx.reached('walk')


@harness
def slices(ctx, kind, n, form, wide=False):
    """p[a:b:c]; form says which of a, b, c are given (others are omitted)."""
    els = [ctx.distinct(i) for i in range(n)] if wide else mk_els(ctx, n)
    p = mk_list(ctx, kind, els, window=(-1, 0) if wide else 'sym')
    (a, b, c) = [ctx.int(x, -BIG, BIG) if x in form else None for x in 'abc']
    sl = ctx.slice(a, b, c)
    obs = ctx.attempt(lambda: p[sl])
    exp = ctx.attempt(lambda: els[rbound(a, n):rbound(b, n):rstep(c, n)])
    def cmp(x, y):
        observe_list(ctx, x, y, 'p[a:b:c]', kind)
        # the slice is a list in its own right
        if kind in ('plist', 'llist'):
            z = x.append(els[0] if els else None)
            ctx.same_seq(list(z), y + [els[0] if els else None], 'append to a slice')
            ctx.same_seq(list(p), els, 'source of a slice')
        else:
            x.append(None)
            ctx.same_seq(list(x), y + [None], 'append to a slice')
            ctx.same_seq(list(p), els, 'source of a slice')
    ctx.same_outcome(obs, exp, 'p[a:b:c]', cmp)
    ctx.reached('slice ' + exp[0])


@harness
def search(ctx, kind, n, form, wide=False):
    """value in p, p.count(value), p.index(value[, start[, stop]])."""
    els = [ctx.distinct(i) for i in range(n)] if wide else mk_els(ctx, n)
    if wide: els[n // 2] = els[1]
    p = mk_list(ctx, kind, els, window=(-1,) if wide else 'sym')
    x = ctx.elem('x')
    if form == 'in':
        obs = ctx.attempt(lambda: x in p)
        exp = any(bool(ctx.equal(e, x)) for e in els)
        ctx.check(obs[0] == 'ok' and bool(obs[1]) == exp, 'in', lambda: f'{obs} expected {exp}')
        obs = ctx.attempt(lambda: x not in p)
        ctx.check(obs[0] == 'ok' and bool(obs[1]) == (not exp), 'not in')
        return
    if form == 'count':
        obs = ctx.attempt(lambda: p.count(x))
        exp = sum(1 for e in els if bool(ctx.equal(e, x)))
        ctx.check(obs[0] == 'ok' and obs[1] == exp, 'count', lambda: f'{obs} expected {exp}')
        return
    a = ctx.int('a', -BIG, BIG) if 'a' in form else None
    b = ctx.int('b', -BIG, BIG) if 'b' in form else None
    if form == 'index': obs = ctx.attempt(lambda: p.index(x))
    elif form == 'index.a': obs = ctx.attempt(lambda: p.index(x, a))
    else: obs = ctx.attempt(lambda: p.index(x, a, b))
    lo = 0 if a is None else rbound(a, n)
    hi = n if b is None else rbound(b, n)
    lo = max(lo + n, 0) if lo < 0 else lo
    hi = max(hi + n, 0) if hi < 0 else hi
    exp = ('err', 'ValueError')
    for i in range(lo, min(hi, n)):
        if bool(ctx.equal(els[i], x)):
            exp = ('ok', i); break
    ctx.same_outcome(obs, exp, form, lambda u, v: ctx.check(u == v, form, lambda: f'{u} expected {v}'))
    ctx.reached(form + ' ' + exp[0])


@harness
def falsy(ctx, kind):
    """None and falsy elements are read like any other."""
    els = [ctx.elem('e0', special=True), ctx.elem('e1', special=True)]
    p = mk_list(ctx, kind, els)
    observe_list(ctx, p, els, 'None/falsy elements', kind)
    i = ctx.int('i', -2, 1)
    ctx.check(ctx.same(p[i], els[ridx(i, 2)]), 'p[i]')
    x = ctx.elem('x', special=True)
    exp = any(bool(ctx.equal(e, x)) for e in els)
    ctx.check(bool(x in p) == exp, 'in')
    ctx.check(p.count(x) == sum(1 for e in els if bool(ctx.equal(e, x))), 'count')


@harness
def bad_index(ctx, kind):
    """Indices that are not integers are refused."""
    els = mk_els(ctx, 2)
    p = mk_list(ctx, kind, els)
    bad = ctx.pick('bad', ['a', None, (1, 2)])
    ctx.check(ctx.attempt(lambda: p[bad])[0] == 'err', 'p[non-integer]')


KINDS = ('plist', 'tlist', 'llist', 'tllist')

def jobs(tier):
    th = tier == 'thorough'
    out = []
    for kind in KINDS:
        main = kind in ('plist', 'tlist')
        for n in range(7 if th else 5 if main else 3):
            out.append(Job(W + '.index_read', kind=kind, n=n))
            out.append(Job(W + '.walk', kind=kind, n=n))
        if main:
            out.append(Job(W + '.index_read', kind=kind, n=40 if th else 24, wide=True))
            out.append(Job(W + '.walk', kind=kind, n=40 if th else 24, wide=True))
        for n in range((5 if th else 4) if main else 3):
            for form in ('', 'a', 'b', 'ab', 'c', 'ac', 'bc', 'abc'):
                if not main and form not in ('ab', 'abc', 'c'): continue
                if n == 3 and form == 'abc' and not main: continue
                out.append(Job(W + '.slices', kind=kind, n=n, form=form,
                               seconds=600 if th else 100))
        for form in ('in', 'count', 'index', 'index.a', 'index.ab'):
            for n in range((5 if th else 4) if main else 3):
                out.append(Job(W + '.search', kind=kind, n=n, form=form, seconds=600 if th else 100))
            n = 3 if th else 2 if main else 1
            out.append(Job(W + '.search', kind=kind, n=n, form=form, nans=1, seconds=600 if th else 100))
        out.append(Job(W + '.falsy', kind=kind))
        out.append(Job(W + '.bad_index', kind=kind))
    for kind in KINDS:
        for form in ('', 'a', 'b', 'ab', 'c', 'ac', 'bc'):
            if kind in ('llist', 'tllist') and form not in ('ab', 'c'): continue
            n = {1: 40, 2: 8, 0: 40}[len(form)]
            if form == 'c': n = 20
            if th: n = n * 3 // 2
            out.append(Job(W + '.slices', kind=kind, n=n, form=form, wide=True, cost=3))
        for form in ('in', 'count', 'index', 'index.a', 'index.ab'):
            if form != 'in' and kind in ('llist', 'tllist'): continue
            n = 36 if 'a' not in form else 12 if kind == 'plist' or th or 'b' not in form else 7
            out.append(Job(W + '.search', kind=kind, n=n, form=form, wide=True, cost=3))
    return out
