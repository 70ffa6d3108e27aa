"""C08 Transient dicts behave like dict under any hash collisions."""
from .common import *
from .c07 import val, pairs_as, chain_keys, SOURCES

BOUNDS = ('dicts built from 0-3 symbolic pairs (0-4 thorough) whose keys have arbitrary equality '
          'classes and hashes (|h| < 2^61) and whose values may be None, Ellipsis or falsy, by one '
          'of four histories (constructor, thawed, thawed and edited, one more key added and '
          'deleted); one operation, or two or three in a row, with up to 2 further keys; dicts of 7 '
          '(10 thorough) distinct keys that share up to three hash values, in every distribution, '
          'with any two keys removed, one put back and one added; iteration of 1-3 keys with one '
          'edit between any two steps'
          '; larger dicts of 36, 14 and 11 distinct keys (spread, shared and equal hashes) '
          'after five histories with one symbolic key or a batch; calls with a wrong number of '
          'arguments'
          '; collections of 1-2 elements (3 thorough) of which any may not equal themselves')

W = 'c08'
HOWS = ('ctor', 'thaw', 'edited', 'less')


def op_setitem(ctx, d, r, tag):
    (k, v) = (ctx.elem(tag + 'k'), val(ctx, tag + 'v'))
    r.set(k, v)
    return (ctx.attempt(lambda: d.__setitem__(k, v)), ('ok', None))

def op_reset(ctx, d, r, tag):
    """Sets a present key to the value it has, or another's."""
    if not r.kv: return op_clear(ctx, d, r, tag)
    i = ctx.choice(tag + 'i', len(r.kv))
    j = ctx.choice(tag + 'j', len(r.kv))
    (k, v) = (r.kv[i][0], r.kv[j][1])
    r.set(k, v)
    return (ctx.attempt(lambda: d.__setitem__(k, v)), ('ok', None))

def op_del(ctx, d, r, tag):
    k = ctx.elem(tag + 'k')
    exp = ctx.attempt(lambda: r.drop(r.delete(k)))
    return (ctx.attempt(lambda: d.__delitem__(k)), exp)

def op_pop(ctx, d, r, tag):
    k = ctx.elem(tag + 'k')
    dflt = ctx.bool(tag + 'dflt')
    v = None
    if dflt: v = ctx.pick(tag + 'default', [None, 7])
    if r.has(k):
        exp = ('ok', r.get(k))
        r.drop(k)
    else: exp = ('ok', v) if dflt else ('err', 'KeyError')
    return (ctx.attempt(lambda: d.pop(k, v) if dflt else d.pop(k)), exp)

def op_popitem(ctx, d, r, tag):
    obs = ctx.attempt(lambda: d.popitem())
    if not r.kv: return (obs, ('err', 'KeyError'))
    ctx.check(obs[0] == 'ok', 'popitem: raises', lambda: repr(obs))
    kv = obs[1]
    ctx.check(type(kv) is tuple and len(kv) == 2, 'popitem gives an item', lambda: repr(kv))
    ctx.check(r.has(kv[0]), 'popitem gives a key of the dict', lambda: repr(kv))
    ctx.check(ctx.same(r.get(kv[0]), kv[1]), 'popitem gives its value', lambda: repr(kv))
    r.drop(kv[0])
    return (('ok', None), ('ok', None))

def op_setdefault(ctx, d, r, tag):
    k = ctx.elem(tag + 'k')
    if ctx.bool(tag + 'dflt'):
        v = val(ctx, tag + 'v')
        obs = ctx.attempt(lambda: d.setdefault(k, v))
    else:
        v = None
        obs = ctx.attempt(lambda: d.setdefault(k))
    if not r.has(k): r.set(k, v)
    return (obs, ('ok', r.get(k)))

def op_clear(ctx, d, r, tag):
    r.kv = []
    return (ctx.attempt(lambda: d.clear()), ('ok', None))

def op_update(ctx, d, r, tag):
    how = ctx.pick(tag + 'how', ['list', 'gen', 'dict', 'pdict', 'tdict', 'self', 'two', 'none'])
    if how == 'self': return (ctx.attempt(lambda: d.update(d)), ('ok', None))
    if how == 'none': return (ctx.attempt(lambda: d.update()), ('ok', None))
    ps = [(ctx.elem(tag + 'k'), val(ctx, tag + 'v'))]
    if how in ('list', 'gen', 'two'): ps.append((ctx.elem(tag + 'k2'), val(ctx, tag + 'v2')))
    for (k, v) in ps: r.set(k, v)
    if how == 'two': return (ctx.attempt(lambda: d.update(ps[:1], dict(ps[1:]))), ('ok', None))
    a = pairs_as(ctx, ps, how)
    return (ctx.attempt(lambda: d.update(a)), ('ok', None))

OPS = {k[3:]: v for (k, v) in list(globals().items()) if k.startswith('op_')}


def step(ctx, kind, d, r, op, tag, label, probe):
    (obs, exp) = OPS[op](ctx, d, r, tag)
    ctx.same_outcome(obs, exp, label, lambda a, b: ctx.check(
        ctx.same(a, b), label + ': result', lambda: f'{a!r} expected {b!r}'))
    observe_dict(ctx, d, r, label, kind, probe)


@harness
def edit(ctx, kind, n, op, how=None):
    """One operation on any transient dict."""
    (d, r) = mk_tdict(ctx, kind, n, how=how)
    step(ctx, kind, d, r, op, '', op, ctx.elem('probe'))
    ctx.reached(op)


@harness
def edits(ctx, kind, n, ops):
    """Operations in a row."""
    (d, r) = mk_tdict(ctx, kind, n, how='ctor')
    for (j, op) in enumerate(ops.split('+')):
        step(ctx, kind, d, r, op, f'{j}', f'{op} (step {j + 1} of {ops})', None)
    ctx.reached('edits')


@harness
def chain(ctx, n, hashes):
    """Distinct keys that share a few hash values in any distribution; any one is
    replaced, any two removed, one of them and a new one added, and all popped."""
    ks = chain_keys(ctx, n, hashes)
    r = RDict(ctx, [(k, i) for (i, k) in enumerate(ks)])
    pop = ctx.bool('pop')
    t = ctx.lib.tdict(r.items())
    def remove(k):
        if pop: ctx.check(t.pop(k, 'no') is r.get(k, 'no'), 'value popped')
        elif r.has(k): del t[k]
        else: ctx.check(ctx.attempt(lambda: t.__delitem__(k)) == ('err', 'KeyError'), 'del missing')
        r.drop(k)
    a = ctx.choice('a', n)
    b = ctx.choice('b', n)
    t[ks[a]] = 'z'; r.set(ks[a], 'z')
    observe_dict(ctx, t, r, 'one replaced', 'tdict')
    remove(ks[a])
    observe_dict(ctx, t, r, 'one removed', 'tdict', ks[a])
    remove(ks[b])
    observe_dict(ctx, t, r, 'two removed', 'tdict', ks[b])
    t[ks[a]] = None; r.set(ks[a], None)
    observe_dict(ctx, t, r, 'one put back', 'tdict')
    new = ctx.distinct(7777, h=0)
    t[new] = 0; r.set(new, 0)
    observe_dict(ctx, t, r, 'another added', 'tdict', ks[b])
    remove(new)
    observe_dict(ctx, t, r, 'and removed', 'tdict', new)
    for k in r.keys():
        remove(k)
    observe_dict(ctx, t, r, 'emptied', 'tdict', ks[0])
    t[ks[b]] = 1; r.set(ks[b], 1)
    observe_dict(ctx, t, r, 'filled again', 'tdict', ks[a])
    ctx.reached('chain')


@harness
def build(ctx, kind, n, source, kw):
    """Construction from any mapping or iterable of pairs, with keywords."""
    ps = mk_pairs(ctx, n)
    r = RDict(ctx, ps)
    if source == 'tuple': src = tuple(ps)
    elif source == 'items': src = ctx.lib.pdict(ps).items()
    else: src = pairs_as(ctx, ps, source)
    T = getattr(ctx.lib, kind)
    if kw == 'none': d = T(src)
    elif kw == 'kw':
        d = T(src, cls=1, self=None)
        r.set('cls', 1); r.set('self', None)
    else:
        d = T(**{'cls': 1, 'arg': 2})
        r = RDict(ctx, [('cls', 1), ('arg', 2)])
    observe_dict(ctx, d, r, f'{kind}({source}, {kw})', kind, ctx.elem('probe'))
    e = T()
    e[1] = 2
    observe_dict(ctx, T(), RDict(ctx), f'{kind}()', kind)
    ctx.check(ctx.attempt(lambda: T([], []))[0] == 'err', 'two arguments')
    ctx.check(ctx.attempt(lambda: T(3)) == ('err', 'TypeError'), 'non-iterable')


@harness
def keywords(ctx, kind):
    """update with keywords of any name."""
    (d, r) = mk_tdict(ctx, kind, 1)
    for (k, v) in (('self', 1), ('cls', None), ('arg', 3), ('key', 0)): r.set(k, v)
    ctx.check(d.update(self=1, cls=None, arg=3, key=0) is None, 'result of update')
    observe_dict(ctx, d, r, 'update(keywords)', kind)
    k = ctx.elem('k')
    r.set(k, 2); r.set('self', 5)
    d.update([(k, 2)], self=5)
    observe_dict(ctx, d, r, 'update(pairs, keywords)', kind)


EDITS = ('set', 'del', 'pop', 'popitem', 'clear', 'setdefault', 'update')

@harness
def iterate(ctx, kind, n, what, edit):
    """One edit between two steps of an iteration."""
    ps = mk_pairs(ctx, n)
    (d, r) = mk_tdict(ctx, kind, n, pairs=ps, how=ctx.pick('how', ['ctor', 'less']))
    src = d if what == 'dict' else getattr(d, what)()
    at = ctx.choice('at', n + 1)          # how many steps before the edit
    it = iter(src)
    if what != 'dict' and at == 0: at = 1
    if at > len(r): at = len(r)
    # not yet iterating
    ctx.assume(at > 0 or (what == 'dict' and len(r) > 0))
    def expect(x, i, label):
        (k, v) = r.kv[i]
        if what in ('dict', 'keys'): ok = ctx.equal(x, k)
        elif what == 'values': ok = ctx.same(x, v)
        else: ok = ctx.all_([ctx.equal(x[0], k), ctx.same(x[1], v)])
        ctx.check(ok, label, lambda: f'{x!r} expected {(k, v)!r}')
    for i in range(at):
        x = ctx.attempt(lambda: next(it))
        ctx.check(x[0] == 'ok', 'step before the edit raises', lambda: repr(x))
        expect(x[1], i, 'step before the edit')
    before = r.copy()
    k = ctx.elem('k')
    if edit == 'set': d[k] = 7; r.set(k, 7)
    elif edit == 'del':
        if r.has(k): del d[k]; r.drop(k)
    elif edit == 'pop': d.pop(k, None); r.drop(k)
    elif edit == 'popitem':
        if len(r): (kk, _) = d.popitem(); r.drop(kk)
    elif edit == 'clear': d.clear(); r.kv = []
    elif edit == 'setdefault':
        d.setdefault(k, 7)
        if not r.has(k): r.set(k, 7)
    else: d.update([(k, 7)]); r.set(k, 7)
    changed = len(r) != len(before)
    x = ctx.attempt(lambda: next(it))
    if changed:
        ctx.check(x == ('err', 'RuntimeError'), f'next step after {edit} changed the keys',
                  lambda: repr(x))
        ctx.reached('invalidated')
    else:
        i = at
        while x[0] == 'ok':
            ctx.check(i < len(r), f'too many steps after {edit}', lambda: repr(x))
            expect(x[1], i, f'steps after {edit}')
            i += 1
            x = ctx.attempt(lambda: next(it))
        ctx.check(x == ('err', 'StopIteration') and i == len(r), f'steps after {edit} (end)',
                  lambda: f'{x!r} after {i} of {len(r)}')
        ctx.reached('continued')
    observe_dict(ctx, d, r, f'after {edit} while iterating', kind)
    observe_dict(ctx, d.persistent(), r, f'frozen after {edit} while iterating')


@harness
def wide(ctx, kind, n, hashes, holes, op):
    """One operation on a larger dict; a key comes back."""
    (d, r, gone) = wide_dict(ctx, kind, n, hashes, holes)
    step(ctx, kind, d, r, op, '', op, None)
    if gone:
        d[gone[0]] = 'z'; r.set(gone[0], 'z')
        observe_dict(ctx, d, r, 'then one set', kind, gone[-1])
    ctx.reached('wide')


@harness
def wide_update(ctx, kind, n, hashes, how):
    """update of a larger dict with few or many items."""
    (d, r, gone) = wide_dict(ctx, kind, n, hashes,
                             ctx.pick('holes', ['third', 'none']) if how != 'sym' else 'third')
    (_, xs) = wide_operand(ctx, n, hashes, 'sym' if how == 'sym' else 'list')
    ps = [(x, i) for (i, x) in enumerate(xs)]
    for (k, v) in ps: r.set(k, v)
    a = pairs_as(ctx, ps, {'sym': 'list', 'pset': 'pdict', 'tset': 'tdict', 'set': 'dict'}.get(how, how))
    ctx.same_outcome(ctx.attempt(lambda: d.update(a)), ('ok', None), 'update')
    observe_dict(ctx, d, r, 'update', kind)
    ctx.reached('wide')


@harness
def wide_empty(ctx, kind, n, hashes):
    """A larger dict emptied by popitem, or by pop or del from either end, and filled again."""
    (d, r, gone) = wide_dict(ctx, kind, n, hashes, 'third')
    how = ctx.pick('how', ['popitem', 'first', 'last', 'pop'])
    while len(r):
        if how == 'popitem':
            (k, v) = d.popitem()
            ctx.check(ctx.same(r.get(k, Ellipsis), v), 'popitem gives an item')
        else:
            k = r.kv[-1 if how == 'last' else 0][0]
            if how == 'pop': ctx.check(ctx.same(d.pop(k), r.get(k)), 'pop gives the value')
            else: del d[k]
        r.drop(k)
        ctx.check(len(d) == len(r) and k not in d, 'emptying')
        if len(r) in (1, 2, n // 4, n // 2): observe_dict(ctx, d, r, 'emptying', kind, k)
    ctx.check(ctx.attempt(lambda: d.popitem()) == ('err', 'KeyError'), 'popitem when empty')
    for k in gone:
        d[k] = 1; r.set(k, 1)
    observe_dict(ctx, d, r, 'filled again', kind, k)


@harness
def arity(ctx, kind):
    """Calls with the wrong number of arguments are refused."""
    (d, r) = mk_tdict(ctx, kind, 1, how='ctor')
    k = ctx.elem('k')
    TE = ('err', 'TypeError')
    for f in (lambda: d.pop(k, 1, 2), lambda: d.pop(), lambda: d.get(), lambda: d.get(k, 1, 2),
              lambda: d.popitem(1), lambda: d.setdefault(), lambda: d.setdefault(k, 1, 2)):
        ctx.check(ctx.attempt(f) == TE, 'wrong number of arguments')
    observe_dict(ctx, d, r, 'the dict', kind, k)


@harness
def wide_iterate(ctx, kind, n, holes, what, edit):
    """One edit between two steps of the iteration of a larger dict."""
    (d, r, gone) = wide_dict(ctx, kind, n, 'shared', holes)
    src = d if what == 'dict' else getattr(d, what)()
    it = iter(src)
    at = 1 + ctx.choice('at', len(r))
    def expect(x, i, label):
        (k, v) = r.kv[i]
        w = k if what in ('dict', 'keys') else v if what == 'values' else (k, v)
        ctx.check(ctx.same(x, w) if what != 'items' else x == w, label,
                  lambda: f'{x!r} expected {w!r}')
    for i in range(at): expect(next(it), i, 'step before the edit')
    k = r.kv[ctx.pick('which', [0, at - 1, len(r) - 1, len(r) // 2])][0]
    if edit == 'set':
        d[k] = 'new'; r.set(k, 'new')
        for i in range(at, len(r)): expect(next(it), i, 'steps after a replacement')
        ctx.check(ctx.attempt(lambda: next(it)) == ('err', 'StopIteration'), 'end')
    else:
        if edit == 'del': del d[k]; r.drop(k)
        else:
            x = wide_els(ctx, n + 1, 'shared')[n]
            d[x] = 0; r.set(x, 0)
        ctx.check(ctx.attempt(lambda: next(it)) == ('err', 'RuntimeError'),
                  'next step after the keys changed')
    observe_dict(ctx, d, r, 'after', kind)


@harness
def big_source(ctx, kind, m, how, sym):
    """A small dict updated with, or made from, many items."""
    cls = getattr(ctx.lib, kind)
    ps = [(ctx.elem('k0'), 'a')] if sym and ctx.bool('one') else []
    xs = wide_els(ctx, m)
    qs = list(zip(xs, range(m)))
    if how in ('list', 'gen') and ctx.bool('again'): qs += [(xs[1], None), (xs[m // 2], 0)]
    form = ctx.pick('form', ['update', 'two', 'ctor', 'seven'])
    (d, r) = (cls(ps), RDict(ctx, ps))
    if form == 'ctor': (d, r) = (cls(pairs_as(ctx, qs, how)), RDict(ctx))
    else:
        first = []
        if form == 'two': first = [[(xs[3], 'b'), (ctx.distinct(2998), 'c')]]
        if form == 'seven':
            seven = [(ctx.distinct(2900 + i), i) for i in range(7)]
            (d, r) = (cls(ps + seven), RDict(ctx, ps + seven))
        for (k, v) in (first or [[]])[0]: r.set(k, v)
        d.update(*first, pairs_as(ctx, qs, how))
    for (k, v) in qs: r.set(k, v)
    observe_dict(ctx, d, r, form, kind, ctx.distinct(2998))
    ctx.reached(form)



def jobs(tier):
    th = tier == 'thorough'
    out = []
    for op in OPS:
        for n in range(5 if th else 4):
            if n >= 3 and op == 'update' and not th: continue
            if n == 4 and op == 'update': continue
            if n < 2: out.append(Job(W + '.edit', kind='tdict', n=n, op=op, seconds=400 if th else 100))
            else:
                for how in HOWS:
                    if op == 'update' and how in ('edited', 'less') and not th: continue
                    if n == 3 and how in ('edited', 'less') and not th: continue
                    out.append(Job(W + '.edit', kind='tdict', n=n, op=op, how=how, cost=n,
                                   seconds=800 if th else 100))
        for n in (0, 1, 2):
            if n == 2 and op == 'update' and not th: continue
            out.append(Job(W + '.edit', kind='tldict', n=n, op=op, how='ctor', cost=n))
    base = ('setitem', 'del', 'pop', 'setdefault')
    for a in base:
        for b in base: out.append(Job(W + '.edits', kind='tdict', n=2, ops=a + '+' + b, cost=2))
    for a in ('clear', 'popitem', 'del'):
        out.append(Job(W + '.edits', kind='tdict', n=1, ops=a + '+setitem+del', cost=1))
    if th:
        for a in base:
            for b in base:
                for c in ('setitem', 'del'):
                    out.append(Job(W + '.edits', kind='tdict', n=2, ops=a + '+' + b + '+' + c,
                                   seconds=600))
    out.append(Job(W + '.chain', n=10 if th else 7, hashes=1, cost=4))
    out.append(Job(W + '.chain', n=6 if th else 4, hashes=2, seconds=400, cost=4))
    if th: out.append(Job(W + '.chain', n=5, hashes=3, seconds=400))
    for op in OPS:
        for (kind, n) in (('tdict', 3 if th else 2), ('tldict', 2 if th else 1)):
            out.append(Job(W + '.edit', kind=kind, n=1 if op == 'update' else n, op=op, how='ctor', nans=1,
                           cost=2, seconds=400 if th else 100))
    for kind in ('tdict', 'tldict'):
        for s in SOURCES:
            for kw in ('none', 'kw'):
                out.append(Job(W + '.build', kind=kind, n=2, source=s, kw=kw))
            out.append(Job(W + '.build', kind=kind, n=0, source=s, kw='none'))
        out.append(Job(W + '.build', kind=kind, n=0, source='list', kw='only'))
        out.append(Job(W + '.keywords', kind=kind))
        for what in ('dict', 'keys', 'values', 'items'):
            for e in EDITS:
                for n in ((0, 1, 2, 3) if th else (1, 2)):
                    out.append(Job(W + '.iterate', kind=kind, n=n, what=what, edit=e,
                                   seconds=400 if th else 60))
        out.append(Job(W + '.arity', kind=kind))
        for what in ('dict', 'keys', 'values', 'items'):
            for e in ('set', 'del', 'add'):
                for holes in ('none', 'front', 'third') if kind == 'tdict' else ('third',):
                    out.append(Job(W + '.wide_iterate', kind=kind, n=24 if th else 12, holes=holes,
                                   what=what, edit=e))
        for (hashes, n) in WIDE:
            n = 2 * n if th else n
            if kind == 'tldict' and not th and n > 12: continue
            out.append(Job(W + '.wide_empty', kind=kind, n=n, hashes=hashes, cost=3))
            for how in WIDE_HOW:
                out.append(Job(W + '.wide_update', kind=kind, n=n, hashes=hashes, how=how, cost=3))
            for op in OPS:
                if op == 'update': continue
                for holes in HOLES:
                    out.append(Job(W + '.wide', kind=kind, n=n, hashes=hashes, holes=holes, op=op,
                                   cost=3))
    for kind in ('tdict', 'tldict'):
        for how in ('list', 'gen', 'dict', 'pdict', 'tdict'):
            out.append(Job(W + '.big_source', kind=kind, m=80 if th else 40, how=how, cost=3,
                           sym=th or how in ('list', 'pdict')))
    return out
