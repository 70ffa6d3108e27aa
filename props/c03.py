"""C03 Transient lists behave like list under in-place edits."""
from .common import *

BOUNDS = ('transient lists of 0-4 symbolic elements (0-6 thorough), thawed, constructed or already '
          'edited, with any window start in [-2^60, 2^60] and any index in [-2^60, 2^60]; one edit '
          'from every such state, and pairs of edits (triples thorough) from lists of 2; operands of '
          'up to 3 elements; repetition counts -2..4; sorting 0-4 elements (5 thorough)'
          '; larger lists of 36 distinct elements: one edit, whole-list operations and growth, '
          'at telling positions'
          '; collections of 1-2 elements (3 thorough) of which any may not equal themselves')

W = 'c03'


# Each operation: (ctx, t, ref, tag) edits the transient t and the list ref in place and
# returns the pair of outcomes.
def op_set(ctx, t, r, tag):
    (i, x) = (ctx.int(tag + 'i', -BIG, BIG), ctx.elem(tag + 'x'))
    return (ctx.attempt(lambda: t.__setitem__(i, x)),
            ctx.attempt(lambda: r.__setitem__(ridx(i, len(r)), x)))

def op_del(ctx, t, r, tag):
    i = ctx.int(tag + 'i', -BIG, BIG)
    def f():
        del t[i]
    return (ctx.attempt(f), ctx.attempt(lambda: r.__delitem__(ridx(i, len(r)))))

def op_append(ctx, t, r, tag):
    x = ctx.elem(tag + 'x')
    return (ctx.attempt(lambda: t.append(x)), ctx.attempt(lambda: r.append(x)))

def op_prepend(ctx, t, r, tag):
    x = ctx.elem(tag + 'x')
    return (ctx.attempt(lambda: t.prepend(x)), ctx.attempt(lambda: r.insert(0, x)))

def op_insert(ctx, t, r, tag):
    (i, x) = (ctx.int(tag + 'i', -BIG, BIG), ctx.elem(tag + 'x'))
    return (ctx.attempt(lambda: t.insert(i, x)),
            ctx.attempt(lambda: r.insert(ridx(i, len(r)), x)))

def op_pop(ctx, t, r, tag):
    if ctx.bool(tag + 'default'):
        return (ctx.attempt(lambda: t.pop()), ctx.attempt(lambda: r.pop()))
    i = ctx.int(tag + 'i', -BIG, BIG)
    return (ctx.attempt(lambda: t.pop(i)), ctx.attempt(lambda: r.pop(ridx(i, len(r)))))

def op_remove(ctx, t, r, tag):
    x = ctx.elem(tag + 'x')
    def f():
        for (i, e) in enumerate(r):
            if bool(ctx.equal(e, x)):
                del r[i]; return
        raise ValueError('not in list')
    return (ctx.attempt(lambda: t.remove(x)), ctx.attempt(f))

def _operand(ctx, t, r, tag, hows):
    how = ctx.pick(tag + 'how', hows)
    if how == 'self': return (t, list(r))
    n = ctx.choice(tag + 'n', 3)
    xs = [ctx.elem(tag + f'x{i}') for i in range(n)]
    return (as_operand(ctx, xs, how), xs)

def op_extend(ctx, t, r, tag):
    (a, xs) = _operand(ctx, t, r, tag, ['list', 'tuple', 'gen', 'plist', 'tlist', 'llist', 'self'])
    return (ctx.attempt(lambda: t.extend(a)), ctx.attempt(lambda: r.extend(xs)))

def op_iadd(ctx, t, r, tag):
    (a, xs) = _operand(ctx, t, r, tag, ['list', 'plist', 'tlist', 'llist', 'self'])
    def f():
        u = t
        u += a
        ctx.check(u is t, '+= gives the same object')
    return (ctx.attempt(f), ctx.attempt(lambda: r.extend(xs)))

def op_imul(ctx, t, r, tag):
    k = ctx.int(tag + 'k', -2, 4)
    def f():
        u = t
        u *= k
        ctx.check(u is t, '*= gives the same object')
    obs = ctx.attempt(f)
    r *= ctx.concrete(k)
    return (obs, ('ok', None))

def op_reverse(ctx, t, r, tag):
    return (ctx.attempt(lambda: t.reverse()), ctx.attempt(lambda: r.reverse()))

def op_sort(ctx, t, r, tag):
    rev = ctx.bool(tag + 'reverse')
    return (ctx.attempt(lambda: t.sort(reverse=rev)), ctx.attempt(lambda: r.sort(reverse=rev)))

def op_sort_key(ctx, t, r, tag):
    order = {id(e): -i for (i, e) in enumerate(r)}
    (calls, exp) = ([], list(r))
    def key(e):
        calls.append(e)
        return order[id(e)]
    obs = ctx.attempt(lambda: t.sort(key=key))
    r.sort(key=lambda e: order[id(e)])
    ctx.check(len(calls) == len(exp), 'the key function is called once for each item')
    return (obs, ('ok', None))

def op_clear(ctx, t, r, tag):
    return (ctx.attempt(lambda: t.clear()), ctx.attempt(lambda: r.clear()))

OPS = {k[3:]: v for (k, v) in list(globals().items()) if k.startswith('op_')}


def step(ctx, t, r, op, tag, label, kind):
    (obs, exp) = OPS[op](ctx, t, r, tag)
    ctx.same_outcome(obs, exp, label,
                     lambda a, b: ctx.check(ctx.same(a, b), label + ': result',
                                            lambda: f'{a!r} expected {b!r}'))
    observe_list(ctx, t, r, label, kind)
    return obs[0] == 'ok'


@harness
def edit(ctx, kind, n, op, wide=False):
    """One in-place edit of any transient list of length n."""
    els = [ctx.distinct(i) for i in range(n)] if wide else mk_els(ctx, n)
    t = mk_list(ctx, kind, els, window=(0, -1) if wide and op in ('remove', 'setitem', 'insert') else 'sym')
    r = list(els)
    step(ctx, t, r, op, '', op, kind)
    # still usable
    x = ctx.distinct(902)
    t.append(x); r.append(x)
    observe_list(ctx, t, r, op + ' then append', kind)
    t.prepend(x); r.insert(0, x)
    observe_list(ctx, t, r, op + ' then prepend', kind)
    ctx.reached(op)


@harness
def edits(ctx, kind, n, ops):
    """Several in-place edits in a row."""
    els = mk_els(ctx, n)
    t = mk_list(ctx, kind, els)
    r = list(els)
    for (j, op) in enumerate(ops.split('+')):
        step(ctx, t, r, op, f'{j}', f'{op} (step {j + 1} of {ops})', kind)
    ctx.reached('chain')


@harness
def fresh(ctx, kind, n, source):
    """Construction from any iterable gives a transient independent of it."""
    els = mk_els(ctx, n)
    cls = getattr(ctx.lib, kind)
    if source in ('plist', 'tlist', 'llist', 'tllist'): src = mk_list(ctx, source, els, 's')
    else: src = as_operand(ctx, els, source)
    t = cls(src)
    observe_list(ctx, t, els, f'{kind}({source})', kind)
    x = ctx.distinct(903)
    t.append(x)
    observe_list(ctx, t, els + [x], f'{kind}({source}), append', kind)
    if source != 'gen': ctx.same_seq(list(src), els, 'the source')
    e = cls()
    observe_list(ctx, e, [], kind + '()', kind)
    e.append(x)
    observe_list(ctx, cls(), [], kind + '() after filling another', kind)


@harness
def combine(ctx, kind, n, op):
    """+, * and copy give a new transient list and leave their operands alone."""
    els = mk_els(ctx, n)
    t = mk_list(ctx, kind, els)
    other = None
    if op == 'copy': (obs, exp) = (ctx.attempt(lambda: t.copy()), list(els))
    elif op == 'mul':
        k = ctx.int('k', -2, 4)
        if ctx.bool('reflected'): obs = ctx.attempt(lambda: k * t)
        else: obs = ctx.attempt(lambda: t * k)
        exp = els * ctx.concrete(k)
    elif op == 'self': (obs, exp) = (ctx.attempt(lambda: t + t), els * 2)
    else:
        m = ctx.choice('m', 3)
        xs = [ctx.elem(f'x{i}') for i in range(m)]
        other = as_operand(ctx, xs, op.split('.')[1])
        if op.startswith('radd'): (obs, exp) = (ctx.attempt(lambda: other + t), xs + els)
        else: (obs, exp) = (ctx.attempt(lambda: t + other), els + xs)
    list_result(ctx, obs, ('ok', exp), op, kind)
    u = obs[1]
    ctx.check(u is not t, op + ' gives a new list')
    observe_list(ctx, t, els, op + ': left operand', kind)
    if other is not None:
        ctx.check(u is not other, op + ' gives a new list')
        ctx.same_seq(list(other), xs, op + ': other operand')
    x = ctx.distinct(904)
    u.append(x)
    observe_list(ctx, u, exp + [x], op + ', append to the result', kind)
    observe_list(ctx, t, els, op + ': operand after an edit of the result', kind)
    if other is not None: ctx.same_seq(list(other), xs, op + ': other operand later')
    t.prepend(x)
    observe_list(ctx, u, exp + [x], op + ': result after an edit of the operand', kind)


@harness
def refuse(ctx, kind):
    """Operands that list refuses are refused."""
    els = mk_els(ctx, 2)
    t = mk_list(ctx, kind, els)
    bad = ctx.pick('bad', [7, None])
    ctx.check(ctx.attempt(lambda: t + bad) == ('err', 'TypeError'), '+ non-list')
    ctx.check(ctx.attempt(lambda: bad + t) == ('err', 'TypeError'), 'non-list +')
    ctx.check(ctx.attempt(lambda: t.extend(bad)) == ('err', 'TypeError'), 'extend non-iterable')
    ctx.check(ctx.attempt(lambda: getattr(ctx.lib, kind)([], []))[0] == 'err', 'two arguments')
    observe_list(ctx, t, els, 'after refused operations', kind)


@harness
def wide_bulk(ctx, kind, n, m, op):
    """Joining larger lists, and repeating them."""
    els = [ctx.distinct(i) for i in range(n)]
    xs = [ctx.distinct(500 + i) for i in range(m)]
    t = mk_list(ctx, kind, els, window=(0, -1, -n // 2))
    r = list(els)
    if op == 'imul':
        k = ctx.pick('k', [m, m + 1])
        t *= k
        r *= k
    else:
        how = ctx.pick('how', ['list', 'gen', 'plist', 'tlist', 'self'] if op == 'extend'
                       else ['list', 'plist', kind, 'self'])
        arg = t if how == 'self' else as_operand(ctx, xs, how)
        if op == 'extend': t.extend(arg)
        else: t += arg
        r += r if how == 'self' else xs
    observe_list(ctx, t, r, op, kind)
    t.prepend(None); t.append(None)
    observe_list(ctx, t, [None] + r + [None], 'then edited at both ends', kind)
    observe_list(ctx, t.persistent(), [None] + r + [None], 'frozen')


@harness
def growth(ctx, kind, n, how):
    """A list that grows item by item from either end, and shrinks again."""
    at = ctx.pick('start', [0, 1, 3])
    (t, r) = (getattr(ctx.lib, kind)([None] * at), [None] * at)
    if ctx.bool('thawed'): t = t.persistent().transient()
    for i in range(n):
        x = ctx.distinct(i)
        front = how == 'front' or how == 'both' and i % 2 or how == 'halves' and i < n // 2
        if front: t.prepend(x); r.insert(0, x)
        else: t.append(x); r.append(x)
        if i % 5 == 0: observe_list(ctx, t, r, 'growing', kind)
    observe_list(ctx, t, r, 'grown', kind)
    for i in range(n):
        front = how == 'back' or how == 'both' and i % 2
        ctx.check(t.pop(0 if front else -1) is r.pop(0 if front else -1), 'pop')
        if i % 5 == 0: observe_list(ctx, t, r, 'shrunk', kind)
    t.append(1); t.prepend(0)
    observe_list(ctx, t, [0] + r + [1], 'grown again', kind)


def jobs(tier):
    th = tier == 'thorough'
    out = []
    for op in OPS:
        top = 4 if op in ('sort',) else 5
        if th: top += 2
        for n in range(top):
            out.append(Job(W + '.edit', kind='tlist', n=n, op=op, seconds=600 if th else 60))
        for n in ((0, 1, 2, 3, 4) if th else (0, 1, 3)):
            out.append(Job(W + '.edit', kind='tllist', n=n, op=op, seconds=600 if th else 60))
    for op in ('set', 'del', 'insert', 'pop', 'reverse'):
        out.append(Job(W + '.edit', kind='tlist', n=40 if th else 17, op=op, wide=True, seconds=120))
    base = ('set', 'del', 'append', 'prepend', 'insert', 'pop')
    for a in base:
        for b in base: out.append(Job(W + '.edits', kind='tlist', n=2, ops=a + '+' + b))
    for b in ('append', 'prepend', 'insert', 'del', 'imul', 'reverse'):
        for a in ('reverse', 'clear', 'imul', 'remove', 'extend'):
            out.append(Job(W + '.edits', kind='tlist', n=2, ops=a + '+' + b))
    if th:
        b5 = ('set', 'del', 'append', 'prepend', 'insert')
        for a in b5:
            for b in b5:
                for c in b5:
                    out.append(Job(W + '.edits', kind='tlist', n=2, ops='+'.join((a, b, c)),
                                   seconds=300))
    for kind in ('tlist', 'tllist'):
        out.append(Job(W + '.edit', kind=kind, n=3 if th else 2, op='remove', nans=1))
    for kind in ('tlist', 'tllist'):
        for s in ('list', 'tuple', 'gen', 'plist', 'tlist', 'llist', 'tllist'):
            out.append(Job(W + '.fresh', kind=kind, n=3, source=s))
            out.append(Job(W + '.fresh', kind=kind, n=0, source=s))
        for op in ('copy', 'mul', 'self', 'add.list', 'add.plist', 'add.tlist', 'add.llist',
                   'radd.list'):
            for n in (0, 2, 3) if kind == 'tlist' else (0, 2):
                out.append(Job(W + '.combine', kind=kind, n=n, op=op))
        out.append(Job(W + '.refuse', kind=kind))
    for kind in ('tlist', 'tllist'):
        for op in ('append', 'prepend', 'reverse', 'clear', 'remove', 'sort', 'sort_key'):
            out.append(Job(W + '.edit', kind=kind, n=70 if th else 36, op=op, wide=True))
        for op in ('extend', 'iadd', 'imul'):
            for (n, m) in ((0, 36), (3, 36), (36, 3), (36, 36), (1, 17), (17, 1), (20, 20)):
                if op == 'imul' and n * m > 400: continue
                out.append(Job(W + '.wide_bulk', kind=kind, n=n, m=m, op=op))
        for how in ('front', 'back', 'both', 'halves'):
            out.append(Job(W + '.growth', kind=kind, n=150 if th else 40, how=how))
    return out
