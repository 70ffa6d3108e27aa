"""C06 Set algebra and comparisons agree with set."""
import operator
from collections.abc import Set
from .common import *

BOUNDS = ('operands of 0-2 symbolic elements each (0-3 thorough) with arbitrary equality classes and '
          'hashes (|h| < 2^61); the other operand is a set, frozenset, pset, tset, dict key view '
          'or, for the named methods, a list, generator, tuple, plist or dict with possible repeats; '
          'up to two arguments for the methods that take several; every operator, reflected, in '
          'place, and with the set itself'
          '; larger operands of 36, 14 and 11 distinct members with one symbolic member'
          '; collections of 1-2 elements (3 thorough) of which any may not equal themselves')

W = 'c06'
SETKINDS = ('set', 'frozenset', 'pset', 'tset', 'keys')
BINOPS = {'or': operator.or_, 'and': operator.and_, 'sub': operator.sub, 'xor': operator.xor}
IOPS = {'or': operator.ior, 'and': operator.iand, 'sub': operator.isub, 'xor': operator.ixor}
CMPS = {'eq': operator.eq, 'ne': operator.ne, 'lt': operator.lt, 'le': operator.le,
        'gt': operator.gt, 'ge': operator.ge}


def operand(ctx, xs, how):
    if how == 'keys': return ctx.lib.pdict([(x, 0) for x in xs]).keys()
    return as_operand(ctx, xs, how)


def ref_op(ctx, a, b, op):
    """a op b on reference sets."""
    r = RSet(ctx)
    if op == 'or': r.els = a.els + [x for x in b.els if not a.has(x)]
    elif op == 'and': r.els = [x for x in a.els if b.has(x)]
    elif op == 'sub': r.els = [x for x in a.els if not b.has(x)]
    else: r.els = [x for x in a.els if not b.has(x)] + [x for x in b.els if not a.has(x)]
    return r


def ref_cmp(ctx, a, b, op):
    sub = all(b.has(x) for x in a.els)
    sup = all(a.has(x) for x in b.els)
    return {'eq': sub and sup, 'ne': not (sub and sup), 'le': sub, 'ge': sup,
            'lt': sub and not sup, 'gt': sup and not sub}[op]


def both(ctx, kind, n, m, other, special=False):
    els = [ctx.elem(f'a{i}') for i in range(n)]
    (s, r) = mk_set(ctx, kind, n, els=els, how='ctor' if n != 1 else None)
    if other == 'self': return (s, r, s, r, els)
    xs = [ctx.elem(f'b{i}') for i in range(m)]
    return (s, r, operand(ctx, xs, other), RSet(ctx, xs), xs)


@harness
def binop(ctx, kind, n, m, other, op):
    """a op b, b op a and a op= b."""
    (s, r, o, q, xs) = both(ctx, kind, n, m, other)
    _binop(ctx, kind, other, op, s, r, o, q)


def _binop(ctx, kind, other, op, s, r, o, q):
    form = ctx.pick('form', ['left', 'right', 'inplace'])
    if form == 'left':
        exp = ref_op(ctx, r, q, op)
        obs = ctx.attempt(lambda: BINOPS[op](s, o))
    elif form == 'right':
        exp = ref_op(ctx, q, r, op)
        obs = ctx.attempt(lambda: BINOPS[op](o, s))
    else:
        exp = ref_op(ctx, r, q, op)
        obs = ctx.attempt(lambda: IOPS[op](s, o))
    label = f'{kind} {op} {other} ({form})'
    ctx.check(obs[0] == 'ok', label + ' (raises)', lambda: repr(obs))
    ctx.check(isinstance(obs[1], Set), label + ' gives a set')
    observe_set(ctx, obs[1], exp, label, kind if form != 'right' else None)
    if form == 'inplace' and kind == 'tset':
        ctx.check(obs[1] is s, label + ' gives the set itself')
    else: observe_set(ctx, s, r, label + ': the operand')
    if other != 'self': observe_set(ctx, o, q, label + ': the other operand')
    ctx.reached(label)


METHODS = {'union': 'or', 'intersection': 'and', 'difference': 'sub', 'symmetric_difference': 'xor'}
UPDATES = {'update': 'or', 'intersection_update': 'and', 'difference_update': 'sub',
           'symmetric_difference_update': 'xor'}

@harness
def method(ctx, kind, n, m, other, name):
    """The named methods with any iterable."""
    (s, r, o, q, xs) = both(ctx, kind, n, m, other)
    _method(ctx, kind, other, name, s, r, o, q)


def _method(ctx, kind, other, name, s, r, o, q):
    op = METHODS.get(name) or UPDATES[name]
    exp = ref_op(ctx, r, q, op)
    obs = ctx.attempt(lambda: getattr(s, name)(o))
    label = f'{kind}.{name}({other})'
    ctx.check(obs[0] == 'ok', label + ' (raises)', lambda: repr(obs))
    if name in UPDATES:
        ctx.check(obs[1] is None, label + ': result')
        observe_set(ctx, s, exp, label, kind)
    else:
        observe_set(ctx, obs[1], exp, label, kind)
        observe_set(ctx, s, r, label + ': the operand')
        if kind == 'tset': ctx.check(obs[1] is not s, label + ' gives a new set')
    ctx.reached(label)


@harness
def method2(ctx, kind, name):
    """The methods that take any number of arguments."""
    (s, r) = mk_set(ctx, kind, 2, els=[ctx.elem('a0'), ctx.elem('a1')], how='ctor')
    op = METHODS.get(name) or UPDATES[name]
    many = ctx.bool('many')
    (x, y) = (ctx.elem('x'), ctx.elem('y'))
    args = [[x], [y]] if many else []
    exp = r
    if many:
        exp = ref_op(ctx, exp, RSet(ctx, [x]), op)
        exp = ref_op(ctx, exp, RSet(ctx, [y]), op)
    obs = ctx.attempt(lambda: getattr(s, name)(*args))
    label = f'{kind}.{name}(*{len(args)} arguments)'
    ctx.check(obs[0] == 'ok', label + ' (raises)', lambda: repr(obs))
    observe_set(ctx, s if name in UPDATES else obs[1], exp, label, kind)


@harness
def compare(ctx, kind, n, m, other):
    """Comparisons, both ways round."""
    (s, r, o, q, xs) = both(ctx, kind, n, m, other)
    _compare(ctx, kind, other, s, r, o, q)


def _compare(ctx, kind, other, s, r, o, q):
    for op in CMPS:
        obs = ctx.attempt(lambda: CMPS[op](s, o))
        exp = ref_cmp(ctx, r, q, op)
        ctx.check(obs == ('ok', exp), f'{kind} {op} {other}', lambda: f'{obs} expected {exp}')
        if other != 'self':
            obs = ctx.attempt(lambda: CMPS[op](o, s))
            exp = ref_cmp(ctx, q, r, op)
            ctx.check(obs == ('ok', exp), f'{other} {op} {kind}', lambda: f'{obs} expected {exp}')
    ctx.reached('compare')


@harness
def predicates(ctx, kind, n, m, other):
    """isdisjoint, issubset, issuperset with any iterable."""
    name = ctx.pick('name', ['isdisjoint', 'issubset', 'issuperset'])
    (s, r, o, q, xs) = both(ctx, kind, n, m, other)
    _predicate(ctx, kind, other, name, s, r, o, q)


def _predicate(ctx, kind, other, name, s, r, o, q):
    if name == 'isdisjoint': exp = not any(r.has(x) for x in q.els)
    elif name == 'issubset': exp = ref_cmp(ctx, r, q, 'le')
    else: exp = ref_cmp(ctx, r, q, 'ge')
    obs = ctx.attempt(lambda: getattr(s, name)(o))
    ctx.check(obs == ('ok', exp), f'{kind}.{name}({other})', lambda: f'{obs} expected {exp}')
    observe_set(ctx, s, r, name + ': the operand')
    ctx.reached(name)


PREDICATES = ('isdisjoint', 'issubset', 'issuperset')

@harness
def wide(ctx, kind, n, hashes, other, what):
    """A larger set with an operand that is smaller, as large or larger."""
    sym = other == 'sym'
    holes = 'third' if sym else ctx.pick('holes', ['none', 'third', 'back'])
    (s, r, gone) = wide_set(ctx, kind, n, hashes, holes)
    els = wide_els(ctx, n, hashes)
    lo = 0 if sym else ctx.pick('lo', [0, n // 2])
    hi = ctx.pick('hi', [1, n] if sym else [0, 1, n // 2 + 1, n])
    xs = els[lo:hi]
    if holes == 'third' and ctx.bool('same'): xs = [x for x in xs if r.has(x)]
    xs = xs + wide_els(ctx, n + ctx.pick('new', [0, 1] if sym else [0, 7] if n > 20 else [0, 1, 7]), hashes)[n:]
    if other == 'sym':
        xs.insert(len(xs) // 2, ctx.elem('x'))
        other = 'list' if what in METHODS or what in UPDATES or what in PREDICATES else 'tset'
    o = operand(ctx, xs, other)
    q = RSet(ctx)
    q.els = xs if other not in ('list', 'gen') else RSet(ctx, xs).els
    if other == 'tset': q = RSet(ctx, xs)
    if what in BINOPS: _binop(ctx, kind, other, what, s, r, o, q)
    elif what == 'compare': _compare(ctx, kind, other, s, r, o, q)
    elif what in PREDICATES: _predicate(ctx, kind, other, what, s, r, o, q)
    else: _method(ctx, kind, other, what, s, r, o, q)
    ctx.reached('wide')


@harness
def nonset(ctx, kind, n=1):
    """Comparison with what is not a set."""
    (s, r) = mk_set(ctx, kind, n) if n == 1 else wide_set(ctx, kind, n, 'spread', 'none')[:2]
    bad = ctx.pick('bad', [None, 7, 'ab', [1], (), {}, ctx.lib.plist(list(r.els)), ctx.lib.pdict()])
    ctx.check(ctx.attempt(lambda: s == bad) == ('ok', False), 'set == non-set')
    ctx.check(ctx.attempt(lambda: s != bad) == ('ok', True), 'set != non-set')
    ctx.check(ctx.attempt(lambda: bad == s) == ('ok', False), 'non-set == set')
    if not isinstance(bad, dict):
        TE = ('err', 'TypeError')
        for f in list(BINOPS.values()) + [operator.lt, operator.le, operator.gt, operator.ge]:
            ctx.check(ctx.attempt(lambda: f(s, bad)) == TE, 'operator on a non-set')
            ctx.check(ctx.attempt(lambda: f(bad, s)) == TE, 'operator on a non-set (right)')
        for f in IOPS.values():
            ctx.check(ctx.attempt(lambda: f(s, bad)) == TE, 'operator on a non-set (in place)')
    ctx.check(ctx.attempt(lambda: s.union(7)) == ('err', 'TypeError'), 'union of a non-iterable')
    observe_set(ctx, s, r, 'the set')


def jobs(tier):
    th = tier == 'thorough'
    out = []
    sizes = [(0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2)]
    if th: sizes += [(3, 1), (1, 3), (3, 2), (2, 3)]
    for kind in ('pset', 'tset'):
        for other in SETKINDS + ('self',):
            for (n, m) in sizes:
                if other == 'self' and m != 1: continue
                if (n, m) == (2, 2) and other in ('frozenset', 'keys') and not th: continue
                for op in BINOPS:
                    out.append(Job(W + '.binop', kind=kind, n=n, m=m, other=other, op=op,
                                   cost=n + m, seconds=600 if th else 80))
                out.append(Job(W + '.compare', kind=kind, n=n, m=m, other=other, cost=n + m,
                               seconds=600 if th else 80))
        for other in SETKINDS + ('list', 'gen', 'tuple', 'plist', 'dict', 'self'):
            for (n, m) in sizes:
                if other == 'self' and m != 1: continue
                if other not in ('list', 'self', 'tset') and (n, m) != (1, 2) and not th: continue
                names = list(METHODS) + (list(UPDATES) if kind == 'tset' else [])
                for name in names:
                    out.append(Job(W + '.method', kind=kind, n=n, m=m, other=other, name=name,
                                   cost=n + m, seconds=600 if th else 80))
                out.append(Job(W + '.predicates', kind=kind, n=n, m=m, other=other, cost=n + m,
                               seconds=600 if th else 80))
        for other in ('pset', 'tset', 'set', 'self'):
            for op in BINOPS:
                out.append(Job(W + '.binop', kind=kind, n=1, m=1, other=other, op=op, nans=1, cost=2))
            for (n, m) in ((1, 1), (2, 1)) + (((1, 2), (2, 2)) if th else ()):
                if other == 'self' and m != 1: continue
                for fn in ('compare', 'predicates'):
                    out.append(Job(W + '.' + fn, kind=kind, n=n, m=m, other=other, nans=1, cost=2,
                                   seconds=600 if th else 80))
        for name in list(METHODS) + (list(UPDATES) if kind == 'tset' else []):
            if kind == 'tset' and op_single(name): continue
            out.append(Job(W + '.method2', kind=kind, name=name, cost=3))
        for n in (1, 36): out.append(Job(W + '.nonset', kind=kind, n=n))
        names = list(METHODS) + (list(UPDATES) if kind == 'tset' else []) + list(PREDICATES)
        for (hashes, n) in (('shared', 10), ('spread', 36)):
            for what in list(BINOPS) + ['compare'] + names:
                for other in ('pset', 'set', 'tset', 'keys', 'list', 'gen', 'sym'):
                    if other in ('list', 'gen') and what not in names: continue
                    if other in ('keys', 'tset', 'gen') and n == 36 and not th: continue
                    if other == 'sym' and n == 36: continue
                    out.append(Job(W + '.wide', kind=kind, n=2 * n if th and other != 'sym' else n,
                                   hashes=hashes, other=other, what=what, cost=4))
    return out


def op_single(name): return name.startswith('symmetric')
