"""C19 An operation that fails leaves collections as they were."""
import collections.abc

from .common import *
from .lazies import *

BOUNDS = ('collections of 0-2 symbolic elements (0-3 thorough) of all ten kinds, any list window, any '
          'pattern of equal elements and hashes; any index in [-2^60, 2^60]; an exception at any one '
          'call of an __eq__, __hash__, __lt__, key function, iterator or lazy function made by the '
          'operation (or none); bulk operands of 2 items (3 thorough); then further edits'
          '; collections of 16 distinct items and bulk operands of 8, with an exception at any '
          'one call')

W = 'c19'


def faulty(ctx, f, only=None):
    """(outcome, what raised) of f with one injected exception at most."""
    ctx.faults('fault', only)
    try: r = ('ok', f())
    except Fault as e: r = ('err', str(e).split()[-1])
    except Exception as e: r = ('err', type(e).__name__)
    ctx.nofaults()
    ctx.reached(r[1] if r[0] == 'err' else 'ok')
    return r


class Source:
    """An iterator that may raise, and remembers what it gave."""
    def __init__(self, ctx, items): self.ctx = ctx; self.items = items; self.out = []
    def __iter__(self):
        for e in self.items:
            self.ctx.fault_point('next')
            self.out.append(e)
            yield e
        self.ctx.fault_point('next')
    def applied(self, r):
        """The items that were applied before r was raised."""
        if r[1] == 'next': return self.out
        return self.out[:-1]


class SetSource(Source, collections.abc.Set):
    def __len__(self): return len(self.items)
    def __contains__(self, x):
        return any(e is x or e == x for e in self.items)
    __hash__ = None


def operand(ctx, n, m):
    """m items for a bulk operand; for a larger collection some that it has, some new."""
    if n <= 8: return mk_els(ctx, m, 'x')
    els = wide_els(ctx, n + m, ctx.pick('xs', ['spread', 'shared']))
    return els[n - m // 2:n + m - m // 2]


# -- lists

def check_list(ctx, t, els, label, kind):
    observe_list(ctx, t, els, label, kind)
    y = ctx.distinct(55)
    if kind in ('tlist', 'tllist'):
        q = t.persistent()
        observe_list(ctx, q, els, label + ': frozen')
        t.append(y); t.prepend(y)
        observe_list(ctx, t, [y] + els + [y], label + ': further edits', kind)
        observe_list(ctx, q, els, label + ': frozen, after edits')
    else:
        observe_list(ctx, t.append(y), els + [y], label + ': further edits', kind)


TL = ('set', 'del', 'pop', 'insert', 'remove', 'index', 'in', 'count', 'badkey', 'sort', 'sortkey',
      'eq', 'lt', 'addbad', 'mulbad', 'slice0')

@harness
def list_single(ctx, kind, n, op):
    els = mk_els(ctx, n)
    t = mk_list(ctx, kind, els, window='sym' if n <= 8 else (0, -3))
    pers = kind in ('plist', 'llist')
    x = ctx.elem('x')
    i = anyint(ctx, 'i', n) if op in ('set', 'del', 'pop', 'drop') else None
    if i is not None: ctx.assume(ctx.any_([i < -n, i >= n]))
    bad = ctx.pick('bad', ['a', None, 1.5]) if op == 'badkey' else None
    def raising(e):
        ctx.fault_point('key')
        return 0
    ys = [] if op not in ('eq', 'lt') else els[:n - 1] + [x] if n > 8 else \
        [ctx.elem(f'y{j}') for j in range(n)]
    f = {
        'set': lambda: t.set(i, x) if pers else t.__setitem__(i, x),
        'del': lambda: t.delete(i) if pers else t.__delitem__(i),
        'pop': lambda: t.pop(i),
        'insert': lambda: t.insert('a', x),
        'remove': lambda: t.remove(x),
        'index': lambda: t.index(x), 'in': lambda: x in t, 'count': lambda: t.count(x),
        'badkey': lambda: t.set(bad, x) if pers else t.__setitem__(bad, x),
        'sort': lambda: t.sort(), 'sortkey': lambda: t.sort(key=raising),
        'eq': lambda: t == ys, 'lt': lambda: t < ys,
        'addbad': lambda: t.__iadd__(5) if not pers else t + 5,
        'mulbad': lambda: t.__imul__('a') if not pers else t * 'a',
        'slice0': lambda: t[ctx.slice(None, None, 0)],
    }[op]
    r = faulty(ctx, f)
    if r[0] == 'ok':
        if i is not None: ctx.check(False, op + ' out of range succeeds')
        return
    check_list(ctx, t, els, op + ' that raised', kind)


@harness
def list_bulk(ctx, kind, n, m, op):
    els = mk_els(ctx, n)
    t = mk_list(ctx, kind, els, window='sym' if n <= 8 else (0, -3))
    pers = kind in ('plist', 'llist')
    xs = operand(ctx, n, m)
    s = Source(ctx, xs)
    L = ctx.lib
    f = {'extend': lambda: t.extend(s),
         'ctor': lambda: getattr(L, kind)(s),
         'setslice': lambda: None}[op]
    r = faulty(ctx, f)
    if r[0] == 'ok':
        if op == 'extend' and not pers:
            observe_list(ctx, t, els + xs, 'extend', kind)
        return
    exp = els if pers or op == 'ctor' else els + s.applied(r)
    check_list(ctx, t, exp, op + ' that raised', kind)


# -- sets

def check_set(ctx, t, ref, label, kind):
    observe_set(ctx, t, ref, label, kind)
    y = ctx.distinct(55, 1)
    r2 = ref.copy()
    r2.add(y)
    if kind == 'tset':
        q = t.persistent()
        observe_set(ctx, q, ref, label + ': frozen')
        t.add(y)
        if len(ref): t.discard(ref.els[0]); r2.discard(ref.els[0])
        observe_set(ctx, t, r2, label + ': further edits', kind)
        observe_set(ctx, q, ref, label + ': frozen, after edits')
    else:
        q = t.add(y)
        if len(ref): q = q.discard(ref.els[0]); r2.discard(ref.els[0])
        observe_set(ctx, q, r2, label + ': further edits', kind)


SS = ('add', 'discard', 'remove', 'pop', 'in', 'hash', 'eq', 'le', 'isdisjoint', 'issuperset')

@harness
def set_single(ctx, kind, n, op):
    (t, ref) = mk_set(ctx, kind, n)
    x = ctx.elem('x')
    b = None
    if op in ('eq', 'le', 'isdisjoint', 'issuperset'): (b, bref) = mk_pset(ctx, 1, 'b', how='ctor')
    f = {'add': lambda: t.add(x), 'discard': lambda: t.discard(x), 'remove': lambda: t.remove(x),
         'pop': lambda: t.pop(), 'in': lambda: x in t, 'hash': lambda: ctx.hash(t),
         'eq': lambda: t == b, 'le': lambda: t <= b, 'isdisjoint': lambda: t.isdisjoint(b),
         'issuperset': lambda: t.issuperset(b)}[op]
    r = faulty(ctx, f, ('hash',) if op == 'hash' else None)
    if r[0] == 'ok': return
    check_set(ctx, t, ref, op + ' that raised', kind)
    if b is not None: observe_set(ctx, b, bref, op + ': other operand', 'pset')
    if op == 'hash' and kind == 'pset':
        fresh = ctx.lib.pset(ref.els)
        ctx.check(ctx.eqint(ctx.hash(t), ctx.hash(fresh)), 'hash after a failed hash')


SB = ('addall', 'update', 'discardall', 'removeall', 'difference_update', 'ior', 'isub', 'iand',
      'ixor', 'union', 'difference', 'intersection', 'symmetric_difference', 'or', 'and', 'sub',
      'xor', 'rsub', 'ctor')

@harness
def set_bulk(ctx, kind, n, m, op):
    (t, ref) = mk_set(ctx, kind, n)
    xs = operand(ctx, n, m)
    setlike = op in ('ior', 'isub', 'iand', 'ixor', 'or', 'and', 'sub', 'xor', 'rsub',
                     'intersection', 'symmetric_difference')
    if setlike:
        for i in range(m):
            for j in range(i): ctx.assume(ctx.not_(ctx.equal(xs[i], xs[j])))
    s = (SetSource if setlike else Source)(ctx, xs)
    f = {'ior': lambda: t.__ior__(s), 'isub': lambda: t.__isub__(s), 'iand': lambda: t.__iand__(s),
         'ixor': lambda: t.__ixor__(s), 'or': lambda: t | s, 'and': lambda: t & s,
         'sub': lambda: t - s, 'xor': lambda: t ^ s, 'rsub': lambda: t.__rsub__(s),
         'ctor': lambda: getattr(ctx.lib, kind)(s)}.get(op) or (lambda: getattr(t, op)(s))
    r = faulty(ctx, f)
    if r[0] == 'ok': return
    exp = ref.copy()
    if kind == 'tset':
        if op in ('addall', 'update', 'ior'):
            for e in s.applied(r): exp.add(e)
        elif op in ('discardall', 'removeall', 'difference_update', 'isub'):
            for e in s.applied(r): exp.discard(e)
        elif op in ('iand', 'ixor'):
            # some of the changes have been made, and nothing else
            full = RSet(ctx)
            inx = lambda e: any(bool(ctx.equal(e, x)) for x in xs)
            if op == 'iand': full.els = [e for e in ref.els if inx(e)]
            else: full.els = [e for e in ref.els if not inx(e)] + [x for x in xs if not ref.has(x)]
            now = list(t)
            exp = RSet(ctx)
            for e in ref.els + xs:
                here = any(bool(ctx.equal(e, x)) for x in now)
                ctx.check(here in (ref.has(e), full.has(e)), op + ' that raised: other changes')
                if here: exp.add(e)
    check_set(ctx, t, exp, op + ' that raised', kind)


# -- dicts

def check_dict(ctx, t, ref, label, kind):
    observe_dict(ctx, t, ref, label, kind)
    y = ctx.distinct(55, 1)
    r2 = ref.copy()
    r2.set(y, 'new')
    if kind in ('tdict', 'tldict'):
        q = t.persistent()
        observe_dict(ctx, q, ref, label + ': frozen')
        t[y] = 'new'
        for (k, _) in ref.kv[:1]: del t[k]; r2.drop(k)
        observe_dict(ctx, t, r2, label + ': further edits', kind)
        observe_dict(ctx, q, ref, label + ': frozen, after edits')
    else:
        q = t.set(y, 'new')
        for (k, _) in ref.kv[:1]: q = q.drop(k); r2.drop(k)
        observe_dict(ctx, q, r2, label + ': further edits', kind)


DS = ('set', 'del', 'pop', 'popdef', 'popitem', 'setdefault', 'get', 'in', 'lookup', 'initems',
      'invalues', 'eq', 'hash', 'drop', 'itemsor')

@harness
def dict_single(ctx, kind, n, op):
    (t, ref) = mk_dict(ctx, kind, n)
    x = ctx.elem('x'); v = ctx.elem('v')
    pers = kind in ('pdict', 'ldict')
    b = None
    if op == 'eq': (b, bref) = mk_pdict(ctx, 'pdict', 1, 'b', how='ctor')
    f = {'set': lambda: t.set(x, v) if pers else t.__setitem__(x, v),
         'del': lambda: t.delete(x) if pers else t.__delitem__(x),
         'drop': lambda: t.drop(x) if pers else t.pop(x, None),
         'pop': lambda: t.pop(x), 'popdef': lambda: t.pop(x, v), 'popitem': lambda: t.popitem(),
         'setdefault': lambda: t.setdefault(x, v), 'get': lambda: t.get(x, v),
         'in': lambda: x in t, 'lookup': lambda: t[x], 'initems': lambda: (x, v) in t.items(),
         'invalues': lambda: v in t.values(), 'eq': lambda: t == b, 'hash': lambda: ctx.hash(t),
         'itemsor': lambda: t.keys() & {5}}[op]
    r = faulty(ctx, f, ('hash',) if op == 'hash' else None)
    if r[0] == 'ok': return
    check_dict(ctx, t, ref, op + ' that raised', kind)
    if b is not None: observe_dict(ctx, b, bref, op + ': other operand', 'pdict')
    if op == 'hash' and pers:
        fresh = ctx.lib.pdict(ref.kv)
        ctx.check(ctx.eqint(ctx.hash(t), ctx.hash(fresh)), 'hash after a failed hash')


@harness
def dict_bulk(ctx, kind, n, m, op):
    (t, ref) = mk_dict(ctx, kind, n)
    pers = kind in ('pdict', 'ldict')
    ks = operand(ctx, n, m)
    pairs = [(k, f'n{j}') for (j, k) in enumerate(ks)]
    if op == 'badpair': pairs[-1] = ctx.pick('bad', [5, (1, 2, 3), ()])
    s = Source(ctx, ks if op in ('setall', 'dropall', 'deleteall') else pairs)
    if op in ('setall',):
        f = lambda: t.setall(s, ['n%d' % j for j in range(m)])
    elif op == 'ctor': f = lambda: getattr(ctx.lib, kind)(s)
    elif op in ('dropall', 'deleteall'): f = lambda: getattr(t, op)(s)
    elif op == 'two': f = lambda: t.update([('first', 1)], s)
    else: f = lambda: t.update(s)
    r = faulty(ctx, f)
    if r[0] == 'ok': return
    exp = ref.copy()
    if not pers and op in ('update', 'badpair', 'two'):
        if op == 'two' and (s.out or r[1] == 'next' or True):
            # the first argument was applied, unless its own key raised
            if s.out or r[1] == 'next': exp.set('first', 1)
            elif any(k == 'first' for k in list(t)): ctx.check(False, 'update: first argument')
        for (k, v) in s.applied(r): exp.set(k, v)
    check_dict(ctx, t, exp, op + ' that raised', kind)


# -- lazy items whose function raises

LL = ('item', 'iter', 'pop', 'remove', 'in', 'index', 'eq', 'hash', 'convert', 'sort', 'ready_all',
      'mul', 'extend')

@harness
def lazy_list(ctx, kind, n, op):
    L = ctx.lib
    pers = kind == 'llist'
    vals = mk_els(ctx, n)
    broken = [True]
    j = anypos(ctx, 'j', n)
    tries = [0]
    def fn():
        tries[0] += 1
        if broken[0]: raise ValueError('broken')
        return vals[j]
    raws = list(vals)
    raws[j] = L.lazy(fn)
    p = mk_list(ctx, kind, raws, window='sym' if n <= 8 else (0, -3))
    x = ctx.elem('x')
    i = anypos(ctx, 'i', n)
    sink = L.tlist([x])
    f = {'item': lambda: p[i], 'iter': lambda: list(p), 'pop': lambda: p.pop(i),
         'remove': lambda: p.remove(x), 'in': lambda: x in p, 'index': lambda: p.index(x),
         'eq': lambda: p == list(vals), 'hash': lambda: ctx.hash(p), 'convert': lambda: L.plist(p),
         'sort': lambda: p.sort(), 'ready_all': lambda: p.ready_all(), 'mul': lambda: p * 2,
         'extend': lambda: sink.extend(p)}[op]
    r = ctx.attempt(f)
    if r[0] == 'err':
        if op not in ('remove', 'index') or tries[0]:
            ctx.check(r[1] in ('LazyError',) + (('AttributeError',) if op == 'ready_all' else ()),
                      op + ' of a lazy item that raises', lambda: repr(r))
        raw_list(ctx, p, raws, op + ' that raised', kind)
        if op == 'extend':
            ctx.same_seq(list(sink), [x] + vals[:j], 'extend that raised: items before')
    elif op == 'pop' and not pers: return
    elif op in ('item', 'pop'): ctx.check(i != j, op + ' of a lazy item that raises')
    elif op in ('iter', 'convert', 'extend', 'hash', 'mul') or (op == 'ready_all'):
        ctx.check(False, op + ' of a lazy item that raises gives a result', lambda: repr(r))
    if op == 'remove' and r[0] == 'ok' and not pers: return
    broken[0] = False
    if op != 'remove' or r[0] == 'err' or pers:
        observe_list(ctx, p, vals, op + ': reading it once the function works', kind)


@harness
def lazy_dict(ctx, kind, n, op):
    L = ctx.lib
    pers = kind == 'ldict'
    keys = mk_els(ctx, n, 'k')
    for a in range(n):
        for b in range(a): ctx.assume(ctx.not_(ctx.equal(keys[a], keys[b])))
    vals = mk_els(ctx, n, 'v')
    broken = [True]
    j = anypos(ctx, 'j', n)
    def fn():
        if broken[0]: raise ValueError('broken')
        return vals[j]
    raws = list(vals)
    raws[j] = L.lazy(fn)
    ref = RDict(ctx, list(zip(keys, raws)))
    (p, _) = mk_dict(ctx, kind, n, 'd', 'ctor' if pers else 'thaw', list(ref.kv))
    i = anypos(ctx, 'i', n)
    k = keys[i]
    x = ctx.elem('x')
    sink = L.tdict([('a', 1)])
    f = {'item': lambda: p[k], 'get': lambda: p.get(k), 'pop': lambda: p.pop(k),
         'popdef': lambda: p.pop(k, 1), 'popitem': lambda: p.popitem(),
         'setdefault': lambda: p.setdefault(k, x), 'values': lambda: list(p.values()),
         'items': lambda: list(p.items()), 'invalues': lambda: x in p.values(),
         'eq': lambda: p == L.pdict(list(zip(keys, vals))), 'convert': lambda: L.pdict(p),
         'ready_all': lambda: p.ready_all(), 'update': lambda: sink.update(p),
         'hash': lambda: ctx.hash(p)}[op]
    r = ctx.attempt(f)
    if r[0] == 'err':
        ctx.check(r[1] == 'LazyError', op + ' of a lazy item that raises', lambda: repr(r))
        raw_dict(ctx, p, ref, op + ' that raised', kind)
        if op == 'update':
            ctx.eq_seq(list(sink), ['a'] + keys[:j], 'update that raised: items before')
    elif op in ('item', 'get', 'pop', 'popdef'):
        ctx.check(i != j, op + ' of a lazy item that raises')
    elif op in ('values', 'items', 'convert', 'ready_all', 'update', 'hash'):
        ctx.check(False, op + ' of a lazy item that raises gives a result', lambda: repr(r))
    if not pers and r[0] == 'ok' and op in ('pop', 'popdef', 'popitem'): return
    broken[0] = False
    ref2 = RDict(ctx, list(zip(keys, vals)))
    observe_dict(ctx, p, ref2, op + ': reading it once the function works', kind)


DL = ('item', 'get', 'pop', 'popdef', 'popitem', 'setdefault', 'values', 'items', 'invalues', 'eq',
      'convert', 'ready_all', 'update', 'hash')


@harness
def read_only(ctx, kind):
    """Operations a persistent collection does not have fail and change nothing."""
    L = ctx.lib
    x = ctx.elem('x')
    if kind in ('plist', 'llist'): (p, ref) = (getattr(L, kind)([x]), [x])
    elif kind == 'pset': (p, ref) = (L.pset([x]), RSet(ctx, [x]))
    else: (p, ref) = (getattr(L, kind)([(x, 1)]), RDict(ctx, [(x, 1)]))
    for f in (lambda: p.__setitem__(0, 1), lambda: p.__delitem__(0), lambda: setattr(p, 'a', 1)):
        ctx.check(ctx.attempt(f)[0] == 'err', 'in-place edit of a persistent collection')
    (observe_list if isinstance(ref, list) else observe_set if kind == 'pset' else observe_dict)(
        ctx, p, ref, 'after refused edits', kind)


def jobs(tier):
    th = tier == 'thorough'
    out = []
    s = 600 if th else 60
    top = 3 if th else 2
    for kind in ('plist', 'tlist', 'llist', 'tllist'):
        lz = kind in LISTS
        for op in TL:
            for n in range(top + 1):
                if lz and n > 1 and not th: continue
                out.append(Job(W + '.list_single', kind=kind, n=n, op=op, cost=n, seconds=s))
        for op in ('extend', 'ctor'):
            for n in range(top + 1): out.append(Job(W + '.list_bulk', kind=kind, n=n, m=3 if th else 2, op=op,
                                                    seconds=s))
        if lz:
            for op in LL:
                if op == 'hash' and kind == 'tllist': continue
                for n in range(1, top + 1):
                    if op == 'ready_all' and kind == 'tllist': continue
                    out.append(Job(W + '.lazy_list', kind=kind, n=n, op=op, seconds=s))
    for kind in ('pset', 'tset'):
        for op in SS:
            for n in range(top + 1):
                out.append(Job(W + '.set_single', kind=kind, n=n, op=op, cost=n, seconds=s))
        for op in SB:
            if kind == 'pset' and op in ('update', 'difference_update', 'ior', 'isub', 'iand', 'ixor'):
                continue
            for n in range(top + 1):
                for m in (1, 2, 3) if th else (1, 2):
                    if n + m > 3 and not th: continue
                    out.append(Job(W + '.set_bulk', kind=kind, n=n, m=m, op=op, cost=n + m + 1,
                                   seconds=s))
    for kind in ('pdict', 'tdict', 'ldict', 'tldict'):
        lz = kind in DICTS
        for op in DS:
            if op == 'hash' and kind in ('tdict', 'tldict'): continue
            for n in range(top + 1):
                if lz and n > 1 and not th: continue
                out.append(Job(W + '.dict_single', kind=kind, n=n, op=op, cost=n, seconds=s))
        for op in ('update', 'badpair', 'two', 'ctor') + (
                ('setall', 'dropall', 'deleteall') if kind in ('pdict', 'ldict') else ()):
            for n in range(2 if lz and not th else top + 1):
                for m in (1, 2):
                    if n + m > 3 and not th: continue
                    out.append(Job(W + '.dict_bulk', kind=kind, n=n, m=m, op=op, cost=n + m,
                                   seconds=s))
        if lz:
            for op in DL:
                if op == 'hash' and kind == 'tldict': continue
                for n in range(1, top + 1):
                    out.append(Job(W + '.lazy_dict', kind=kind, n=n, op=op, seconds=s))
    (n, m) = (16, 8)
    for kind in ('plist', 'tlist', 'llist', 'tllist'):
        for op in TL: out.append(Job(W + '.list_single', kind=kind, n=n, op=op, cost=2, seconds=s))
        for op in ('extend', 'ctor'): out.append(Job(W + '.list_bulk', kind=kind, n=n, m=m, op=op, seconds=s))
        if kind not in LISTS: continue
        for op in LL:
            if kind == 'tllist' and op in ('hash', 'ready_all'): continue
            out.append(Job(W + '.lazy_list', kind=kind, n=n, op=op, seconds=s))
    for kind in ('pset', 'tset'):
        for op in SS: out.append(Job(W + '.set_single', kind=kind, n=n, op=op, cost=2, seconds=s))
        for op in SB:
            if kind == 'pset' and op in ('update', 'difference_update', 'ior', 'isub', 'iand', 'ixor'):
                continue
            out.append(Job(W + '.set_bulk', kind=kind, n=n, m=m, op=op, cost=2, seconds=s))
    for kind in ('pdict', 'tdict', 'ldict', 'tldict'):
        for op in DS:
            if op == 'hash' and kind in ('tdict', 'tldict'): continue
            out.append(Job(W + '.dict_single', kind=kind, n=n, op=op, cost=2, seconds=s))
        for op in ('update', 'badpair', 'two', 'ctor') + (
                ('setall', 'dropall', 'deleteall') if kind in ('pdict', 'ldict') else ()):
            out.append(Job(W + '.dict_bulk', kind=kind, n=n, m=m, op=op, cost=2, seconds=s))
        if kind not in DICTS: continue
        for op in DL:
            if op == 'hash' and kind == 'tldict': continue
            out.append(Job(W + '.lazy_dict', kind=kind, n=n, op=op, seconds=s))
    for kind in ('plist', 'llist', 'pset', 'pdict', 'ldict'):
        out.append(Job(W + '.read_only', kind=kind))
    return out
