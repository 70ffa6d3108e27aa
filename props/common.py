"""State builders shared by the harnesses (symbolic and concrete)."""
from symx.harness import (harness, HARNESSES, Fault, Skip, RDict, RSet, ridx, rbound, rstep,
                          Base, K)
from symx.runner_types import Job

BIG = 2 ** 60

# ---------------------------------------------------------------------------
# Lists

_PROBED = {}

def probe_window(ctx, cls):
    """Is a list represented as a trie with keys start, start+1, ...?  Only then are
    list states with a symbolic start built directly; otherwise through the API."""
    key = (cls, ctx.symbolic)
    if key in _PROBED: return _PROBED[key]
    ok = False
    try:
        p = cls(['a', 'b']).prepend('c')
        slots = set()
        for c in cls.__mro__: slots.update(c.__dict__.get('__slots__', ()))
        slots.discard('__weakref__')
        if slots == {'_phamt', '_start', '_hashcode'} and not getattr(p, '__dict__', None):
            if p._start == -1 and p._hashcode is None \
               and list(p._phamt) == [(0, 'a'), (1, 'b'), (-1, 'c')] \
               and type(p._phamt).__module__.endswith('stubs'):
                q = cls._new(p._phamt, p._start)
                d = cls(['a', 'b', 'c']).delete(0)
                ok = (type(q) is cls and q._phamt is p._phamt and q._start == -1
                      and q._hashcode is None and list(q) == ['c', 'a', 'b']
                      and d._start == 1 and list(d._phamt) == [(1, 'b'), (2, 'c')])
    except Exception:
        ok = False
    _PROBED[key] = ok
    return ok


def plist_at(ctx, cls, els, start):
    """A list of the class with the given elements whose window starts at start,
    built with the public API."""
    n = len(els)
    junk = ctx.distinct(900)
    if n == 0 and start == 0: return cls()
    if start == 0: return cls(els)
    if start > 0:
        p = cls([junk] * start + els)
        for _ in range(start): p = p.delete(0)
        return p
    k = -start
    if k < n:
        p = cls(els[k:])
        for e in reversed(els[:k]): p = p.prepend(e)
        return p
    p = cls([])
    seq = els + [junk] * (k - n)
    for e in reversed(seq): p = p.prepend(e)
    for _ in range(k - n): p = p.delete(-1)
    return p


def mk_els(ctx, n, name='p', special=False):
    if n > 8: return wide_els(ctx, n, 'spread')
    return [ctx.elem(f'{name}{i}', special=special) for i in range(n)]


def mk_plist(ctx, kind, els, name='p', window='sym'):
    """A plist or llist with these elements and any window position."""
    cls = getattr(ctx.lib, kind)
    if window == 'zero' or not els: return cls(els)
    if window == 'sym':
        if ctx.symbolic and probe_window(ctx, cls):
            st = ctx.int(name + '.start', -BIG, BIG)
            ctx.prefer(ctx.all_([st >= -8, st <= 8]), ctx.all_([st >= -250, st <= 250]),
                       ctx.all_([st >= -2000, st <= 2000]))
            th = cls([])._phamt
            for (i, e) in enumerate(els): th = th.assoc(st + i, e)
            return cls._new(th, st)
        if ctx.symbolic:
            ctx.ex.note('list windows limited to -n-1..2 (representation not recognised)')
            st = ctx.int(name + '.start', -len(els) - 1, 2)
            st = ctx.concrete(st)
        else:
            st = ctx.int(name + '.start', -BIG, BIG)
            if abs(st) > 4000: raise Skip()
        return plist_at(ctx, cls, els, st)
    # api: one of a few windows
    st = ctx.pick(name + '.start', window)
    return plist_at(ctx, cls, els, st)


PERS = {'tlist': 'plist', 'tllist': 'llist'}

def mk_list(ctx, kind, els, name='p', window='sym'):
    """Any of the four list kinds; transient ones come from a persistent one, and may
    have been edited since."""
    if kind in ('plist', 'llist'): return mk_plist(ctx, kind, els, name, window)
    p = mk_plist(ctx, PERS[kind], els, name, window)
    how = ctx.choice(name + '.thaw', 3 if els else 2)
    if how == 0: return p.transient()
    if how == 1: return getattr(ctx.lib, kind)(p)
    t = p.transient()
    t.append(ctx.distinct(901))
    del t[-1]
    return t


def observe_list(ctx, obj, exp, label, kind=None):
    """obj reads as exp in every way."""
    if kind is not None:
        ctx.check(type(obj).__name__ == kind, label + ': kind',
                  lambda: f'got a {type(obj).__name__}, expected a {kind}')
    ctx.check(len(obj) == len(exp), label + ': len', lambda: f'{len(obj)} expected {len(exp)}: {obj!r}')
    ctx.same_seq(list(obj), exp, label + ': contents')
    n = len(exp)
    ctx.same_seq([obj[i] for i in range(n)], exp, label + ': items by index')
    if n: ctx.check(ctx.same(obj[-1], exp[-1]), label + ': last item')


def list_result(ctx, obs, exp, label, kind=None):
    """obs and exp are outcomes; the results are lists."""
    ctx.same_outcome(obs, exp, label,
                     lambda a, b: observe_list(ctx, a, b, label, kind))


def gen(ctx, els, raising=False):
    """A one-shot iterator over els."""
    for e in els:
        if raising: ctx.fault_point('next')
        yield e
    if raising: ctx.fault_point('next')


def as_operand(ctx, els, how):
    """els as one of several kinds of operand."""
    if how == 'list': return list(els)
    if how == 'tuple': return tuple(els)
    if how == 'gen': return gen(ctx, els)
    if how == 'set': return set(els)
    if how == 'frozenset': return frozenset(els)
    if how == 'dict': return dict.fromkeys(els, 0)
    return getattr(ctx.lib, how)(els)


# ---------------------------------------------------------------------------
# Sets

SETHOWS = ('ctor', 'adds', 'thaw', 'less')

def mk_pset(ctx, n, name='s', how=None, els=None):
    """A persistent set from a history chosen by the solver, and its reference."""
    P = ctx.lib.pset
    how = how or ctx.pick(name + '.how', SETHOWS)
    if els is None: els = [ctx.elem(f'{name}{i}') for i in range(n)]
    ref = RSet(ctx, els)
    if how == 'ctor': s = P(els)
    elif how == 'adds':
        s = P()
        for e in els: s = s.add(e)
    elif how == 'thaw':
        t = P(els[:1]).transient()
        for e in els[1:]: t.add(e)
        s = t.persistent()
    else:
        # built with one more member, which was then removed
        x = ctx.elem(name + 'x')
        at = ctx.choice(name + '.at', len(els) + 1)
        s = P(els[:at] + [x] + els[at:])
        s = s.discard(x)
        ref = RSet(ctx, els[:at] + [x] + els[at:])
        ref.discard(x)
    return (s, ref)


def mk_tset(ctx, n, name='s', how=None, els=None):
    T = ctx.lib.tset
    how = how or ctx.pick(name + '.how', ('ctor', 'thaw', 'edited', 'less'))
    if els is None: els = [ctx.elem(f'{name}{i}') for i in range(n)]
    ref = RSet(ctx, els)
    if how == 'ctor': t = T(els)
    elif how == 'thaw': t = ctx.lib.pset(els).transient()
    elif how == 'edited':
        t = T(ctx.lib.pset(els[:1]))
        t.addall(els[1:])
    else:
        x = ctx.elem(name + 'x')
        at = ctx.choice(name + '.at', len(els) + 1)
        t = ctx.lib.pset(els[:at]).transient()
        t.add(x)
        for e in els[at:]: t.add(e)
        t.discard(x)
        ref = RSet(ctx, els[:at] + [x] + els[at:])
        ref.discard(x)
    return (t, ref)


def mk_set(ctx, kind, n, name='s', how=None, els=None):
    if n > 8 and els is None:
        return wide_set(ctx, kind, n, *ctx.pick(name + '.wide', [('spread', 'none'), ('shared', 'third')]))[:2]
    return (mk_pset if kind == 'pset' else mk_tset)(ctx, n, name, how, els)


def observe_set(ctx, obj, ref, label, kind=None, probe=None):
    """obj has exactly the members of ref."""
    if kind is not None:
        ctx.check(type(obj).__name__ == kind, label + ': kind',
                  lambda: f'got a {type(obj).__name__}, expected a {kind}')
    ctx.check(len(obj) == len(ref), label + ': len',
              lambda: f'{len(obj)} expected {len(ref)}: {obj!r} expected {ref.els!r}')
    items = list(obj)
    ctx.check(len(items) == len(ref), label + ': members by iteration (number)',
              lambda: f'{items!r} expected {ref.els!r}')
    for e in ref.els:
        ctx.check(ctx.any_([ctx.equal(e, x) for x in items]), label + ': members by iteration',
                  lambda: f'{items!r} expected {ref.els!r}')
        ctx.check(bool(e in obj), label + ': in', lambda: f'{e!r} not in {obj!r}')
    if probe is not None:
        ctx.check(bool(probe in obj) == ref.has(probe), label + ': membership',
                  lambda: f'{probe!r} in {items!r} expected {ref.has(probe)}')


# ---------------------------------------------------------------------------
# Dicts

def mk_pairs(ctx, n, name='d'):
    return [(ctx.elem(f'{name}k{i}'), ctx.elem(f'{name}v{i}', special=True)) for i in range(n)]

PERSD = {'tdict': 'pdict', 'tldict': 'ldict', 'pdict': 'pdict', 'ldict': 'ldict'}

def mk_pdict(ctx, kind, n, name='d', how=None, pairs=None):
    P = getattr(ctx.lib, kind)
    how = how or ctx.pick(name + '.how', ('ctor', 'sets', 'thaw', 'less'))
    if pairs is None: pairs = mk_pairs(ctx, n, name)
    ref = RDict(ctx, pairs)
    if how == 'ctor': d = P(pairs)
    elif how == 'sets':
        d = P()
        for (k, v) in pairs: d = d.set(k, v)
    elif how == 'thaw':
        t = P(pairs[:1]).transient()
        for (k, v) in pairs[1:]: t[k] = v
        d = t.persistent()
    else:
        x = ctx.elem(name + 'x')
        at = ctx.choice(name + '.at', len(pairs) + 1)
        ps = pairs[:at] + [(x, 0)] + pairs[at:]
        d = P(ps).drop(x)
        ref = RDict(ctx, ps)
        ref.drop(x)
    return (d, ref)


def mk_tdict(ctx, kind, n, name='d', how=None, pairs=None):
    T = getattr(ctx.lib, kind)
    P = getattr(ctx.lib, PERSD[kind])
    how = how or ctx.pick(name + '.how', ('ctor', 'thaw', 'edited', 'less'))
    if pairs is None: pairs = mk_pairs(ctx, n, name)
    ref = RDict(ctx, pairs)
    if how == 'ctor': t = T(pairs)
    elif how == 'thaw': t = P(pairs).transient()
    elif how == 'edited':
        t = T(P(pairs[:1]))
        for (k, v) in pairs[1:]: t[k] = v
    else:
        x = ctx.elem(name + 'x')
        at = ctx.choice(name + '.at', len(pairs) + 1)
        ps = pairs[:at] + [(x, 0)] + pairs[at:]
        t = P(ps[:1]).transient()
        for (k, v) in ps[1:]: t[k] = v
        del t[x]
        ref = RDict(ctx, ps)
        ref.drop(x)
    return (t, ref)


def mk_dict(ctx, kind, n, name='d', how=None, pairs=None):
    if n > 8 and pairs is None:
        return wide_dict(ctx, kind, n, *ctx.pick(name + '.wide', [('spread', 'none'), ('shared', 'third')]))[:2]
    f = mk_pdict if kind in ('pdict', 'ldict') else mk_tdict
    return f(ctx, kind, n, name, how, pairs)


def observe_dict(ctx, obj, ref, label, kind=None, probe=None):
    """obj has exactly the items of ref, in the same order."""
    if kind is not None:
        ctx.check(type(obj).__name__ == kind, label + ': kind',
                  lambda: f'got a {type(obj).__name__}, expected a {kind}')
    ctx.check(len(obj) == len(ref), label + ': len',
              lambda: f'{len(obj)} expected {len(ref)}: {ref.kv!r}')
    keys = list(obj)
    ctx.eq_seq(keys, ref.keys(), label + ': keys in order')
    for (k, v) in ref.kv:
        ctx.check(bool(k in obj), label + ': in', lambda: f'{k!r} not in {keys!r}')
        r = ctx.attempt(lambda: obj[k])
        ctx.check(r[0] == 'ok', label + ': lookup', lambda: f'{k!r}: {r!r}')
        ctx.check(ctx.same(r[1], v), label + ': value', lambda: f'{k!r}: {r[1]!r} expected {v!r}')
        ctx.check(ctx.same(obj.get(k, label), v), label + ': get')
    if probe is not None:
        i = ref.find(probe)
        r = ctx.attempt(lambda: obj[probe])
        if i < 0:
            ctx.check(r == ('err', 'KeyError'), label + ': missing key', lambda: repr(r))
            ctx.check(not bool(probe in obj), label + ': in (missing key)')
            ctx.check(obj.get(probe) is None and obj.get(probe, label) is label,
                      label + ': get (missing key)')
        else:
            ctx.check(bool(probe in obj), label + ': in')
            ctx.check(r[0] == 'ok' and ctx.same(r[1], ref.kv[i][1]), label + ': value',
                      lambda: f'{probe!r}: {r!r} expected {ref.kv[i][1]!r}')
            ctx.check(ctx.same(obj.get(probe), ref.kv[i][1]), label + ': get')


# ---------------------------------------------------------------------------
# Larger collections of distinct items

HASHES = {'spread': lambda i: 37 * i - 200, 'shared': lambda i: 7 * (i // 3), 'one': lambda i: 5}
HOLES = ('none', 'front', 'middle', 'back', 'third')

def wide_els(ctx, n, hashes='spread', base=3000):
    """n concrete distinct elements whose hashes follow a pattern."""
    return [ctx.distinct(base + 100 * (len(hashes)) + i, h=HASHES[hashes](i)) for i in range(n)]

def wide_gone(n, holes):
    """The positions of the items that a history adds and then removes again."""
    g = max(1, n // 3)
    if holes == 'none': return []
    if holes == 'front': return list(range(g))
    if holes == 'middle': return list(range(n // 2, n // 2 + g))
    if holes == 'back': return list(range(n - g, n))
    return list(range(0, n, 3))

def wide_set(ctx, kind, n, hashes, holes):
    els = wide_els(ctx, n, hashes)
    gone = wide_gone(n, holes)
    r = RSet(ctx, [])
    r.els = list(els)
    s = getattr(ctx.lib, kind)(els)
    for i in gone:
        if kind == 'pset': s = s.discard(els[i])
        else: s.discard(els[i])
    r.els = [e for (i, e) in enumerate(els) if i not in gone]
    return (s, r, [els[i] for i in gone])

def wide_dict(ctx, kind, n, hashes, holes):
    els = wide_els(ctx, n, hashes)
    gone = wide_gone(n, holes)
    r = RDict(ctx, [])
    kv = [(e, (None, i)[i % 5 > 0]) for (i, e) in enumerate(els)]
    d = getattr(ctx.lib, kind)(kv)
    for i in gone:
        if kind in ('pdict', 'ldict'): d = d.drop(els[i])
        else: del d[els[i]]
    r.kv = [p for (i, p) in enumerate(kv) if i not in gone]
    return (d, r, [els[i] for i in gone])

WIDE = (('spread', 36), ('shared', 14), ('one', 11))
WIDE_HOW = ('sym', 'list', 'gen', 'pset', 'tset', 'set')

def wide_operand(ctx, n, hashes, how, tag='w'):
    """A run of a wide collection's items, with new ones; ('sym') with any one item;
    (operand, its items)."""
    els = wide_els(ctx, n, hashes)
    if how == 'sym':
        xs = els[:ctx.pick(tag + 'hi', [1, n])] + wide_els(ctx, n + 1, hashes)[n:]
        xs.insert(len(xs) // 2, ctx.elem(tag + 'x'))
        return (list(xs), xs)
    lo = ctx.pick(tag + 'lo', [0, n // 2])
    hi = ctx.pick(tag + 'hi', [0, 1, n // 2 + 1, n])
    xs = els[lo:hi]
    extra = ctx.pick(tag + 'new', [0, 1, 7])
    xs = xs + wide_els(ctx, n + extra, hashes)[n:]
    if ctx.bool(tag + 'rev'): xs = xs[::-1]
    return (as_operand(ctx, xs, how), xs)
