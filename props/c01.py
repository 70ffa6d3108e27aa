"""C01 Persistent list edits give what list gives."""
from .common import *

BOUNDS = ('lists of 0-4 symbolic elements (0-6 thorough) with any window start in [-2^60, 2^60] '
          'and any index in [-2^60, 2^60]; one edit from every such state, and pairs of edits '
          '(triples thorough) from lists of 2; operands of up to 3 elements; repetition counts '
          '-2..4; lists of 20 (40 thorough) concrete elements with any index'
          '; larger lists of 36 distinct elements: one edit, whole-list operations and growth, '
          'at telling positions'
          '; collections of 1-2 elements (3 thorough) of which any may not equal themselves')

W = 'c01'


# Each operation takes (ctx, p, els, tag) and returns (outcome on the library, outcome on list).
def _edit(ctx, r, f):
    def g():
        f(r)
        return r
    return ctx.attempt(g)

def op_set(ctx, p, els, tag):
    (i, x, r) = (ctx.int(tag + 'i', -BIG, BIG), ctx.elem(tag + 'x'), list(els))
    obs = ctx.attempt(lambda: p.set(i, x))
    return (obs, _edit(ctx, r, lambda r: r.__setitem__(ridx(i, len(els)), x)))

def op_append(ctx, p, els, tag):
    x = ctx.elem(tag + 'x')
    return (ctx.attempt(lambda: p.append(x)), ('ok', list(els) + [x]))

def op_prepend(ctx, p, els, tag):
    x = ctx.elem(tag + 'x')
    return (ctx.attempt(lambda: p.prepend(x)), ('ok', [x] + list(els)))

def op_insert(ctx, p, els, tag):
    (i, x, r) = (ctx.int(tag + 'i', -BIG, BIG), ctx.elem(tag + 'x'), list(els))
    obs = ctx.attempt(lambda: p.insert(i, x))
    return (obs, _edit(ctx, r, lambda r: r.insert(ridx(i, len(els)), x)))

def op_delete(ctx, p, els, tag):
    (i, r) = (ctx.int(tag + 'i', -BIG, BIG), list(els))
    obs = ctx.attempt(lambda: p.delete(i))
    return (obs, _edit(ctx, r, lambda r: r.__delitem__(ridx(i, len(els)))))

def op_delete_default(ctx, p, els, tag):
    r = list(els)
    return (ctx.attempt(lambda: p.delete()), _edit(ctx, r, lambda r: r.__delitem__(-1)))

def op_drop(ctx, p, els, tag):
    (i, r) = (ctx.int(tag + 'i', -BIG, BIG), list(els))
    obs = ctx.attempt(lambda: p.drop(i))
    k = ridx(i, len(els))
    if -len(els) <= k < len(els): del r[k]
    return (obs, ('ok', r))

def op_pop(ctx, p, els, tag):
    r = list(els)
    if ctx.bool(tag + 'default'):
        obs = ctx.attempt(lambda: p.pop())
        exp = ctx.attempt(lambda: r.pop())
    else:
        i = ctx.int(tag + 'i', -BIG, BIG)
        obs = ctx.attempt(lambda: p.pop(i))
        exp = ctx.attempt(lambda: r.pop(ridx(i, len(els))))
    if obs[0] == 'ok' and exp[0] == 'ok':
        ctx.check(type(obs[1]) is tuple and len(obs[1]) == 2, 'pop gives a pair')
        ctx.check(ctx.same(obs[1][0], exp[1]), 'pop: popped item')
        return (('ok', obs[1][1]), ('ok', r))
    return (obs, exp if exp[0] == 'err' else ('ok', r))

def op_remove(ctx, p, els, tag):
    (x, r) = (ctx.elem(tag + 'x'), list(els))
    obs = ctx.attempt(lambda: p.remove(x))
    def f(r):
        for (i, e) in enumerate(r):
            if bool(ctx.equal(e, x)):
                del r[i]; return
        raise ValueError('not in list')
    return (obs, _edit(ctx, r, f))

def op_extend(ctx, p, els, tag):
    how = ctx.pick(tag + 'how', ['list', 'tuple', 'gen', 'plist', 'tlist', 'self'])
    if how == 'self': return (ctx.attempt(lambda: p.extend(p)), ('ok', list(els) * 2))
    xs = [ctx.elem(tag + 'x'), ctx.elem(tag + 'y')]
    arg = as_operand(ctx, xs, how)
    return (ctx.attempt(lambda: p.extend(arg)), ('ok', list(els) + xs))

def op_add(ctx, p, els, tag):
    how = ctx.pick(tag + 'how', ['list', 'plist', 'self', 'empty'])
    if how == 'self': return (ctx.attempt(lambda: p + p), ('ok', list(els) * 2))
    if how == 'empty': return (ctx.attempt(lambda: p + []), ('ok', list(els)))
    xs = [ctx.elem(tag + 'x'), ctx.elem(tag + 'y')]
    arg = as_operand(ctx, xs, how if how == 'list' else type(p).__name__)
    return (ctx.attempt(lambda: p + arg), ('ok', list(els) + xs))

def op_radd(ctx, p, els, tag):
    n = ctx.choice(tag + 'n', 3)
    xs = [ctx.elem(tag + f'x{i}') for i in range(n)]
    arg = list(xs)
    return (ctx.attempt(lambda: arg + p), ('ok', xs + list(els)))

def op_add_bad(ctx, p, els, tag):
    bad = ctx.pick(tag + 'bad', [7, None, 'ab', (1, 2)])
    if ctx.bool(tag + 'reflected'):
        return (ctx.attempt(lambda: bad + p), ctx.attempt(lambda: bad + list(els)))
    return (ctx.attempt(lambda: p + bad), ctx.attempt(lambda: list(els) + bad))

def op_mul(ctx, p, els, tag):
    k = ctx.int(tag + 'k', -2, 4)
    if ctx.bool(tag + 'reflected'): obs = ctx.attempt(lambda: k * p)
    else: obs = ctx.attempt(lambda: p * k)
    return (obs, ('ok', list(els) * ctx.concrete(k)))

def op_reverse(ctx, p, els, tag):
    return (ctx.attempt(lambda: p.reverse()), ('ok', list(els)[::-1]))

def op_sort(ctx, p, els, tag):
    return (ctx.attempt(lambda: p.sort()), ctx.attempt(lambda: sorted(els)))

def op_clear(ctx, p, els, tag):
    return (ctx.attempt(lambda: p.clear()), ('ok', []))

OPS = {k[3:]: v for (k, v) in list(globals().items()) if k.startswith('op_')}


@harness
def edit(ctx, kind, n, op, wide=False):
    """One edit of any list of length n gives what the built-in list gives."""
    if wide: els = [ctx.distinct(i) for i in range(n)]
    else: els = mk_els(ctx, n)
    p = mk_plist(ctx, kind, els, window=(0, -1) if wide and op in ('remove', 'set', 'insert') else 'sym')
    (obs, exp) = OPS[op](ctx, p, els, '')
    list_result(ctx, obs, exp, op, kind)
    ctx.reached(exp[0] + ' ' + op)


@harness
def edits(ctx, kind, n, ops):
    """Several edits in a row."""
    els = mk_els(ctx, n)
    p = mk_plist(ctx, kind, els)
    for (j, op) in enumerate(ops.split('+')):
        (obs, exp) = OPS[op](ctx, p, els, f'{j}')
        list_result(ctx, obs, exp, f'{op} (step {j + 1} of {ops})', kind)
        if obs[0] == 'err': break
        (p, els) = (obs[1], exp[1])
    ctx.reached('chain')


@harness
def build(ctx, kind, n, source):
    """Construction from any iterable."""
    els = mk_els(ctx, n)
    cls = getattr(ctx.lib, kind)
    if source in ('plist', 'tlist', 'llist', 'tllist'): src = mk_list(ctx, source, els, 's')
    else: src = as_operand(ctx, els, source)
    p = cls(src)
    observe_list(ctx, p, els, f'{kind}({source})', kind)
    # the constructor did not take over its argument
    if source == 'list':
        src.append(0)
        observe_list(ctx, p, els, f'{kind}({source}) after the source changed', kind)
    q = p.append(ctx.elem('x'))
    ctx.check(len(q) == n + 1, 'append after construction')


@harness
def ctor_args(ctx, kind):
    """Too many arguments and keyword arguments are refused."""
    cls = getattr(ctx.lib, kind)
    ctx.check(ctx.attempt(lambda: cls([], [])) == ('err', 'TypeError'), 'two arguments')
    ctx.check(ctx.attempt(lambda: cls(a=1)) == ('err', 'TypeError'), 'keyword argument')
    ctx.check(ctx.attempt(lambda: cls(5)) == ('err', 'TypeError'), 'non-iterable')
    observe_list(ctx, cls(), [], 'no arguments', kind)


@harness
def wide_bulk(ctx, kind, n, m, op):
    """Joining larger lists, and repeating them."""
    els = [ctx.distinct(i) for i in range(n)]
    xs = [ctx.distinct(500 + i) for i in range(m)]
    p = mk_plist(ctx, kind, els, window=(0, -1, -n // 2))
    if op == 'mul':
        k = ctx.pick('k', [m, m + 1])
        (obs, exp) = (ctx.attempt(lambda: p * k), els * k)
    else:
        how = ctx.pick('how', ['list', 'gen', 'plist', 'tlist'] if op == 'extend'
                       else ['list', kind] if op == 'add' else ['list'])
        arg = as_operand(ctx, xs, how)
        exp = xs + els if op == 'radd' else els + xs
        obs = ctx.attempt({'extend': lambda: p.extend(arg), 'add': lambda: p + arg,
                           'radd': lambda: arg + p}[op])
    list_result(ctx, obs, ('ok', exp), op, kind)
    observe_list(ctx, p, els, op + ': the list it came from', kind)
    q = obs[1].prepend(None).append(None)
    observe_list(ctx, q, [None] + exp + [None], 'then edited at both ends', kind)


@harness
def growth(ctx, kind, n, how):
    """A list that grows item by item from either end, and shrinks again."""
    P = getattr(ctx.lib, kind)
    (p, r, old) = (P(), [], [])
    at = ctx.pick('start', [0, 1, 3])
    p = P([None] * at); r = [None] * at
    for i in range(n):
        x = ctx.distinct(i)
        front = how == 'front' or how == 'both' and i % 2 or how == 'halves' and i < n // 2
        if front: p = p.prepend(x); r = [x] + r
        else: p = p.append(x); r = r + [x]
        old.append((p, r))
        ctx.check(len(p) == len(r) and p[0] is r[0] and p[-1] is r[-1], 'growing')
    for (q, s) in old[::4] + old[-1:]: observe_list(ctx, q, s, 'grown', kind)
    for i in range(n):
        front = how == 'back' or how == 'both' and i % 2
        (x, q) = p.pop(0) if front else p.pop()
        ctx.check(x is r[0 if front else -1], 'pop')
        r = r[1:] if front else r[:-1]
        p = q
        if i % 5 == 0: observe_list(ctx, p, r, 'shrunk', kind)
    observe_list(ctx, p, r, 'shrunk', kind)
    observe_list(ctx, p.append(1).prepend(0), [0] + r + [1], 'grown again', kind)


def jobs(tier):
    th = tier == 'thorough'
    out = []
    for op in OPS:
        sizes = (0, 1, 2, 3, 4) if op not in ('sort',) else (0, 1, 2, 3)
        if th: sizes = sizes + ((5, 6) if op != 'sort' else (4, 5))
        for n in sizes: out.append(Job(W + '.edit', kind='plist', n=n, op=op))
        for n in ((0, 2, 3) if not th else (0, 1, 2, 3, 4)):
            out.append(Job(W + '.edit', kind='llist', n=n, op=op))
    for op in ('set', 'insert', 'delete', 'pop', 'drop'):
        out.append(Job(W + '.edit', kind='plist', n=40 if th else 20, op=op, wide=True, seconds=120))
    base = ('set', 'append', 'prepend', 'insert', 'delete')
    for a in base:
        for b in base: out.append(Job(W + '.edits', kind='plist', n=2, ops=a + '+' + b))
    if th:
        for a in base:
            for b in base:
                for c in base:
                    out.append(Job(W + '.edits', kind='plist', n=2, ops='+'.join((a, b, c)),
                                   seconds=240))
    for kind in ('plist', 'llist'):
        out.append(Job(W + '.edit', kind=kind, n=3 if th else 2, op='remove', nans=1))
    for kind in ('plist', 'llist'):
        for s in ('list', 'tuple', 'gen', 'plist', 'tlist', 'llist', 'tllist', 'dict'):
            if s != 'dict': out.append(Job(W + '.build', kind=kind, n=3, source=s))
            out.append(Job(W + '.build', kind=kind, n=0, source=s))
        out.append(Job(W + '.ctor_args', kind=kind))
    for kind in ('plist', 'llist'):
        for op in ('append', 'prepend', 'reverse', 'clear', 'remove', 'sort', 'add_bad'):
            out.append(Job(W + '.edit', kind=kind, n=70 if th else 36, op=op, wide=True))
        for op in ('extend', 'add', 'radd', 'mul'):
            for (n, m) in ((0, 36), (3, 36), (36, 3), (36, 36), (1, 17), (17, 1), (20, 20)):
                if op == 'mul' and n * m > 400: continue
                out.append(Job(W + '.wide_bulk', kind=kind, n=n, m=m, op=op))
        for how in ('front', 'back', 'both', 'halves'):
            out.append(Job(W + '.growth', kind=kind, n=150 if th else 40, how=how))
    return out
