"""C13 Lists order lexicographically, as list does."""
import operator

from .common import *

BOUNDS = ('lists of 0-3 symbolic elements each (0-4 thorough) of every ordered pair of the four list '
          'kinds and the built-in list, any list window start in [-2^60, 2^60], any pattern of equal, '
          'identical, lower, higher, tied and unorderable elements; sorting 0-4 elements (0-5 '
          'thorough) with any ranks, any integer key and either direction'
          '; lists of 12 (40 thorough) distinct elements that differ at telling positions; '
          'sorting 20 and 70 (200 thorough) items with ties of which one or its key is any')

W = 'c13'
OPS = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}


def mk_any(ctx, kind, els, name, window='sym'):
    return list(els) if kind == 'list' else mk_list(ctx, kind, els, name, window)


def split_groups(ctx, xs, ys):
    """Unorderable elements do not equal orderable ones."""
    for x in xs:
        for y in ys: ctx.assume(ctx.not_(ctx.equal(x, y)))


@harness
def compare(ctx, a, b, n, m, bad=()):
    """All four comparisons of two lists; positions in bad hold unorderable elements."""
    xs = [ctx.elem(f'x{i}', unorderable=i in bad) for i in range(n)]
    ys = [ctx.elem(f'y{i}', unorderable=i in bad) for i in range(m)]
    if bad:
        al = [(i in bad, e) for s in (xs, ys) for (i, e) in enumerate(s)]
        split_groups(ctx, [e for (u, e) in al if u], [e for (u, e) in al if not u])
    (p, q) = (mk_any(ctx, a, xs, 'p'), mk_any(ctx, b, ys, 'q'))
    k = 0
    while k < min(n, m) and bool(ctx.equal(xs[k], ys[k])): k += 1
    for (s, op) in OPS.items():
        obs = ctx.attempt(lambda: op(p, q))
        if k < min(n, m):
            exp = ctx.attempt(lambda: bool(op(xs[k], ys[k])))
            ctx.reached('differ ' + exp[0])
        else:
            exp = ('ok', op(n, m))
            ctx.reached('prefix')
        ctx.same_outcome(obs, exp, s, lambda u, v: ctx.check(
            bool(u) == v, f'p {s} q', lambda: f'{u} expected {v}: {xs!r} {s} {ys!r}'))
    ctx.same_seq(list(p), xs, 'left operand afterwards')
    ctx.same_seq(list(q), ys, 'right operand afterwards')


@harness
def itself(ctx, a, n):
    """A list compared with itself, with its own slices and after an edit."""
    xs = [ctx.elem(f'x{i}', unorderable=True) for i in range(n)]
    p = mk_any(ctx, a, xs, 'p')
    for (s, op) in OPS.items():
        obs = ctx.attempt(lambda: op(p, p))
        ctx.check(obs == ('ok', op(0, 0)), f'p {s} p', lambda: repr(obs))
        if n:
            obs = ctx.attempt(lambda: op(p, p[:n - 1]))
            ctx.check(obs == ('ok', op(1, 0)), f'p {s} p[:-1]', lambda: repr(obs))
            obs = ctx.attempt(lambda: op(p[:n - 1], p))
            ctx.check(obs == ('ok', op(0, 1)), f'p[:-1] {s} p', lambda: repr(obs))


@harness
def nested(ctx, a, b):
    """Lists of lists compare recursively."""
    (x, y, z) = [ctx.elem(e) for e in 'xyz']
    P = getattr(ctx.lib, a)
    p = P([P([x]), P([y])])
    q = getattr(ctx.lib, b)([P([x]), P([z])])
    for (s, op) in OPS.items():
        obs = ctx.attempt(lambda: op(p, q))
        exp = ctx.attempt(lambda: op([[x], [y]], [[x], [z]]))
        ctx.same_outcome(obs, exp, s, lambda u, v: ctx.check(bool(u) == bool(v), f'p {s} q'))


@harness
def foreign(ctx, a, n=1):
    """Operands that are not lists are refused, as list does."""
    p = mk_any(ctx, a, [ctx.elem('x')] + [ctx.distinct(i) for i in range(1, n)], 'p')
    other = ctx.pick('other', [0, None, 'a', ('a',), {1}, {1: 2}, range(3)])
    for (s, op) in OPS.items():
        ctx.check(ctx.attempt(lambda: op(p, other)) == ('err', 'TypeError'), f'p {s} non-list')
        ctx.check(ctx.attempt(lambda: op(other, p)) == ('err', 'TypeError'), f'non-list {s} p')


def do_sort(ctx, p, kind, **kw):
    """The outcome of sorting as a list."""
    if kind in ('plist', 'llist'): return ctx.attempt(lambda: p.sort(**kw))
    def f():
        ctx.check(p.sort(**kw) is None, 'in-place sort returns None')
        return p
    return ctx.attempt(f)


@harness
def sort_plain(ctx, kind, n, how):
    """sort() and sort(reverse=True) by the elements' own order."""
    xs = mk_els(ctx, n)
    p = mk_list(ctx, kind, xs)
    kw = {'': {}, 'rev': {'reverse': True}, 'none': {'key': None, 'reverse': False}}[how]
    exp = sorted(xs, **kw)
    obs = do_sort(ctx, p, kind, **kw)
    ctx.check(obs[0] == 'ok', 'sort', lambda: repr(obs))
    observe_list(ctx, obs[1], exp, 'sort', kind)
    if obs[1] is not p: ctx.same_seq(list(p), xs, 'list that was sorted')
    ctx.same_seq(sorted(p, **kw), exp, 'sorted()')


@harness
def sort_key(ctx, kind, n, rev):
    """sort(key=..., reverse=...): stable, the key function used once per item."""
    xs = [ctx.distinct(i) for i in range(n)]
    keys = [ctx.int(f'k{i}', -BIG, BIG) for i in range(n)]
    calls = []
    def key(e):
        calls.append(e)
        return keys[[x is e for x in xs].index(True)]
    p = mk_list(ctx, kind, xs)
    # stable insertion sort of the reference
    exp = []
    for i in range(n):
        j = len(exp)
        while j > 0 and bool(keys[exp[j - 1]] < keys[i] if rev else keys[exp[j - 1]] > keys[i]):
            j -= 1
        exp.insert(j, i)
    obs = do_sort(ctx, p, kind, key=key, reverse=rev)
    ctx.check(obs[0] == 'ok', 'sort', lambda: repr(obs))
    observe_list(ctx, obs[1], [xs[i] for i in exp], 'sort by key', kind)
    ctx.check(len(calls) == n, 'key function used once per item', lambda: f'{len(calls)} calls')
    if obs[1] is not p: ctx.same_seq(list(p), xs, 'list that was sorted')


@harness
def sort_bad(ctx, kind):
    """Elements that cannot be ordered: TypeError, as list does."""
    xs = [ctx.elem('a', unorderable=True), ctx.elem('b', unorderable=True)]
    p = mk_list(ctx, kind, xs)
    obs = do_sort(ctx, p, kind)
    exp = ctx.attempt(lambda: sorted(xs))
    ctx.check(obs == exp, 'sort of unorderable items', lambda: f'{obs!r} expected {exp!r}')
    ctx.same_seq(list(p), xs, 'list after a failed sort')


@harness
def sort_then(ctx, kind, n):
    """A sorted list takes further edits like any other."""
    xs = mk_els(ctx, n)
    y = ctx.elem('y')
    p = mk_list(ctx, kind, xs)
    exp = sorted(xs)
    q = do_sort(ctx, p, kind)[1]
    if kind in ('plist', 'llist'):
        observe_list(ctx, q.append(y).prepend(y), [y] + exp + [y], 'edits after sort', kind)
        observe_list(ctx, q.delete(0), exp[1:], 'delete after sort', kind)
    else:
        q.append(y); q.prepend(y)
        observe_list(ctx, q, [y] + exp + [y], 'edits after sort', kind)
        del q[1]
        observe_list(ctx, q, [y] + exp[1:] + [y], 'delete after sort', kind)


@harness
def wide_compare(ctx, a, b, n, how):
    """Larger lists that first differ anywhere, or where one begins the other."""
    xs = [ctx.distinct(200 + 2 * i) for i in range(n)]
    i = ctx.pick('at', [0, 1, n // 2, n - 2, n - 1])
    y = ctx.elem('y')
    ys = list(xs)
    if how == 'one': ys[i] = y; ys[i + 1:] = ys[i + 1:][::-1]
    elif how == 'bad':
        ys[i] = ctx.elem('u', unorderable=True)
        ctx.assume(ctx.not_(ctx.equal(ys[i], xs[i])))
    elif how == 'prefix': del ys[i:]
    elif how == 'longer': ys.append(y)
    (p, q) = (mk_any(ctx, a, xs, 'p', (0, -3)), mk_any(ctx, b, ys, 'q', (0,)))
    for (s, op) in OPS.items():
        for (u, v, us, vs, t) in ((p, q, xs, ys, f'p {s} q'), (q, p, ys, xs, f'q {s} p')):
            k = 0
            while k < min(len(us), len(vs)) and bool(ctx.equal(us[k], vs[k])): k += 1
            obs = ctx.attempt(lambda: op(u, v))
            if k < min(len(us), len(vs)): exp = ctx.attempt(lambda: bool(op(us[k], vs[k])))
            else: exp = ('ok', op(len(us), len(vs)))
            ctx.same_outcome(obs, exp, t, lambda g, e: ctx.check(
                bool(g) == e, 'larger ' + t, lambda: f'{g} expected {e}: {us!r} {s} {vs!r}'))


@harness
def wide_sort(ctx, kind, n, how, rev):
    """Sorting larger lists that hold any one item or key, with ties."""
    import random
    order = list(range(n))
    random.Random(n).shuffle(order)
    calls = []
    if how == 'key':
        xs = [ctx.distinct(i) for i in range(n)]
        keys = [order[i] // 3 for i in range(n)]
        keys[ctx.pick('at', [0, n // 2, n - 1])] = ctx.int('k', -2, n)
        def key(e):
            calls.append(e)
            return keys[[x is e for x in xs].index(True)]
        kw = {'key': key, 'reverse': rev}
        idx = sorted(range(n), key=lambda i: keys[i], reverse=rev)
        exp = [xs[i] for i in idx]
    else:
        xs = [ctx.distinct(200 + 2 * (i // 2)) for i in order]
        xs[ctx.pick('at', [0, n // 2, n - 1])] = ctx.elem('y')
        kw = {'reverse': rev}
        exp = sorted(xs, reverse=rev)
    if kind in ('llist', 'tllist'):
        raws = [ctx.lib.lazy(lambda x=x: x) if i % 3 == 0 else x for (i, x) in enumerate(xs)]
    else: raws = xs
    p = mk_list(ctx, kind, raws, window=(0, -3))
    obs = do_sort(ctx, p, kind, **kw)
    ctx.check(obs[0] == 'ok', 'sort', lambda: repr(obs))
    observe_list(ctx, obs[1], exp, 'sort', kind)
    if how == 'key': ctx.check(len(calls) == n, 'key function used once per item')
    if obs[1] is not p: ctx.same_seq(list(p), xs, 'list that was sorted')
    y = ctx.distinct(500)
    if kind in ('plist', 'llist'): observe_list(ctx, obs[1].append(y), exp + [y], 'append after sort')
    else:
        p.append(y); observe_list(ctx, p, exp + [y], 'append after sort')


KINDS = ('plist', 'tlist', 'llist', 'tllist')

def jobs(tier):
    th = tier == 'thorough'
    out = []
    for a in KINDS + ('list',):
        for b in KINDS + ('list',):
            if a == b == 'list': continue
            main = a in ('plist', 'tlist') and b in ('plist', 'tlist', 'list')
            top = 4 if th and main else 3 if main or th else 2
            for n in range(top + 1):
                for m in range(top + 1):
                    if n + m > 4 and not th and 'tlist' in (a, b) and 'list' not in (a, b): continue
                    out.append(Job(W + '.compare', a=a, b=b, n=n, m=m, cost=n + m,
                                   seconds=600 if th else 60))
            for (n, m, bad) in ((2, 2, (0,)), (2, 2, (1,)), (2, 1, (0,)), (3, 3, (0, 2)),
                                (2, 3, (0, 1)), (1, 1, (0,))):
                if n > 2 and (not main or (a == b == 'tlist' and not th)): continue
                out.append(Job(W + '.compare', a=a, b=b, n=n, m=m, bad=bad))
            if 'list' not in (a, b): out.append(Job(W + '.nested', a=a, b=b))
    for a in KINDS + ('list',):
        for b in KINDS + ('list',):
            if a == b == 'list': continue
            for how in ('one', 'bad', 'prefix', 'longer'):
                out.append(Job(W + '.wide_compare', a=a, b=b, n=12, how=how, cost=2))
                if th: out.append(Job(W + '.wide_compare', a=a, b=b, n=40, how=how, cost=2, seconds=600))
    for a in KINDS:
        for n in (20, 70) + ((200,) if th else ()):
            for how in ('key', 'plain'):
                for rev in (False, True):
                    out.append(Job(W + '.wide_sort', kind=a, n=n, how=how, rev=rev, cost=3,
                                   seconds=600 if th else 60))
    for a in KINDS:
        for n in range(4): out.append(Job(W + '.itself', a=a, n=n))
        for n in (1, 24): out.append(Job(W + '.foreign', a=a, n=n))
        out.append(Job(W + '.sort_bad', kind=a))
        for n in range(6 if th else 5):
            for how in ('', 'rev', 'none'):
                out.append(Job(W + '.sort_plain', kind=a, n=n, how=how, seconds=600 if th else 60,
                               cost=n))
            for rev in (False, True):
                out.append(Job(W + '.sort_key', kind=a, n=n, rev=rev, seconds=600 if th else 60,
                               cost=n))
        for n in range(1, 4): out.append(Job(W + '.sort_then', kind=a, n=n))
    return out
