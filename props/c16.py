"""C16 Lazy items are not computed until they are asked for."""
from .common import *
from .lazies import *

BOUNDS = ('lazy lists and dicts, persistent and transient, of 0-3 items (0-4 thorough for lists), '
          'each plain, lazy or lazy but computed; any list window start and index in [-2^60, 2^60]; '
          'any pattern of equal keys and hashes, four dict histories; one operation, or a thaw or '
          'freeze with two edits'
          '; collections of 24 (40 thorough) distinct items in three patterns of lazy ones, at '
          'telling positions')

W = 'c16'
STATES = ('plain', 'lazy', 'done')


@harness
def list_idle(ctx, kind, n, op):
    """Operations that compute nothing."""
    lz = Lz(ctx, STATES)
    lz.text = op == 'look'
    (p, raws) = mk_lazy_list(ctx, kind, lz, n)
    lz.none_ran('building')
    pers = kind == 'llist'
    L = ctx.lib
    y = lz.item('y', st='lazy')
    lz.none_ran('building')
    i = anyint(ctx, 'i', n, -n - 2, n + 2)
    q = None
    exp = list(raws)
    if op == 'look':
        len(p); bool(p); str(p); repr(p)
        ctx.attempt(lambda: p.getlazy(i))
        if pers:
            ctx.attempt(lambda: p.is_lazy(i)); ctx.attempt(lambda: p.is_ready(i))
            p.as_plist()
        L.holdlazy(p); iter(p)
        q = p
    elif op == 'slice':
        j = anyint(ctx, 'j', n, -n - 2, n + 2)
        q = p[ctx.slice(i, j, None)]
        exp = raws[rbound(i, n):rbound(j, n)]
    elif op == 'append': q = p.append(y); exp.append(y)
    elif op == 'prepend': q = p.prepend(y); exp.insert(0, y)
    elif op == 'insert': q = p.insert(i, y); exp.insert(rbound(i, n), y)
    elif op == 'extend': q = p.extend([y, y]); exp += [y, y]
    elif op == 'set':
        ctx.assume(i < n); ctx.assume(i >= -n)
        q = p.set(i, y) if pers else p.__setitem__(i, y)
        exp[ridx(i, n)] = y
    elif op == 'delete':
        ctx.assume(i < n); ctx.assume(i >= -n)
        q = p.delete(i) if pers else p.__delitem__(i)
        del exp[ridx(i, n)]
    elif op == 'drop':
        if pers:
            q = p.drop(i)
            if -n <= ridx(i, n) < n: del exp[ridx(i, n)]
        else: q = p
    elif op == 'add':
        q = p + [y, y]; raw_list(ctx, q, raws + [y, y], op, kind)
        q = [y] + p; raw_list(ctx, q, [y] + raws, op, kind)
        q = p + []; raw_list(ctx, q, raws, op, kind)
        q = p
    elif op == 'iadd':
        q = p
        q += [y, y]
        exp += [y, y]
    elif op == 'step':
        q = p[::-1]; exp = raws[::-1]
        raw_list(ctx, p[::2], raws[::2], op, kind)
        if not pers: raw_list(ctx, q, exp, op, kind); q = p; exp = raws
    elif op == 'clear': q = p.clear(); exp = []
    elif op == 'copy': q = p.copy()
    elif op == 'thaw':
        q = p.transient() if pers else p.persistent()
        raw_list(ctx, q, exp, op, 'tllist' if pers else 'llist')
        q = None if not pers else p
    elif op == 'round':
        # thaw, edit, freeze
        t = p.transient() if pers else p
        t.append(y); t.prepend(y)
        exp = [y] + exp + [y]
        q = t.persistent()
        raw_list(ctx, q, exp, op, 'llist')
        lz.none_ran(op)
        r = L.llist(t)
        raw_list(ctx, r, exp, op, 'llist')
        u = q.transient()
        del u[0]
        raw_list(ctx, u.persistent(), exp[1:], op, 'llist')
        raw_list(ctx, q, exp, op, 'llist')
        if pers: exp = list(raws); q = p
        else: q = None
    elif op == 'kinds':
        for k in LISTS:
            raw_list(ctx, getattr(L, k)(p), exp, 'copying to a lazy kind', k)
            raw_list(ctx, getattr(L, k)(raws), exp, 'building a lazy kind', k)
            raw_list(ctx, getattr(L, k)(L.plist(raws)), exp, 'from a plist of lazy objects', k)
        q = p
    else: raise AssertionError(op)
    lz.none_ran(op)
    if q is None: q = p
    raw_list(ctx, q, exp, op, kind)
    if pers: raw_list(ctx, p, raws, op + ': original', kind)
    lz.none_ran(op)
    ctx.reached(op)


@harness
def list_one(ctx, kind, n, op):
    """Reading one item computes that item and no other."""
    lz = Lz(ctx, STATES)
    (p, raws) = mk_lazy_list(ctx, kind, lz, n)
    pers = kind == 'llist'
    if op == 'item':
        i = anyint(ctx, 'i', n)
        ctx.assume(i >= -n); ctx.assume(i < n)
        j = ridx(i, n) % n
        p[i]
        lz.ran_only([j], 'p[i]')
        p[i]; p[j]
        lz.ran_only([j], 'p[i] again')
    elif op == 'pop':
        i = anyint(ctx, 'i', n)
        ctx.assume(i >= -n); ctx.assume(i < n)
        r = p.pop(i)
        lz.ran_only([ridx(i, n) % n], 'pop')
    elif op == 'poplast':
        p.pop()
        lz.ran_only([n - 1], 'pop()')
    elif op == 'iter':
        k = anypos(ctx, 'k', n + 1)
        it = iter(p)
        for _ in range(k): next(it)
        lz.ran_only(range(k), 'iterating k items')
    elif op == 'reversed':
        k = anypos(ctx, 'k', n + 1)
        it = reversed(p)
        for _ in range(k): next(it)
        lz.ran_only(range(n - k, n), 'iterating k items in reverse')
    elif op == 'out':
        i = anyint(ctx, 'i', n)
        ctx.assume(ctx.any_([i < -n, i >= n]))
        ctx.check(ctx.attempt(lambda: p[i]) == ('err', 'IndexError'), 'p[i] out of range')
        lz.none_ran('p[i] out of range')
    elif op == 'ready_all':
        if pers: p.ready_all(); p.ready_all()
        else: list(p); list(p)
        lz.ran_only(range(n), 'ready_all')
    elif op == 'slice':
        j = anypos(ctx, 'j', n)
        q = p[j:]
        q[0]
        lz.ran_only([j], 'item of a slice')
        p[j]
        lz.ran_only([j], 'the same item in the source')
    elif op == 'shared':
        # a copy and the original share the computation
        q = p.transient() if pers else p.persistent()
        j = anypos(ctx, 'j', n)
        q[j]
        lz.ran_only([j], 'item of a conversion')
        p[j]
        lz.ran_only([j], 'the same item in the source')
    else: raise AssertionError(op)
    ctx.reached(op)


@harness
def dict_idle(ctx, kind, n, op):
    lz = Lz(ctx, STATES)
    lz.text = op == 'look'
    (d, raw) = mk_lazy_dict(ctx, kind, lz, n)
    lz.none_ran('building')
    pers = kind == 'ldict'
    L = ctx.lib
    x = ctx.elem('x')
    y = lz.item('y', st='lazy')
    j = anypos(ctx, 'j', len(raw) + 1)
    k = x if j == len(raw) else raw.kv[j][0]
    q = None
    exp = raw.copy()
    if op == 'look':
        len(d); bool(d); str(d); repr(d); k in d; k in d.keys(); list(d); list(d.keys()); [*d]
        list(reversed(d))
        len(d.values()); len(d.items()); iter(d.values()); iter(d.items())
        d.getlazy(k); d.getlazy(k, y)
        ctx.attempt(lambda: d.is_lazy(k)); ctx.attempt(lambda: d.is_ready(k))
        L.holdlazy(d)
        if pers: d.as_pdict()
        else: d.as_tdict()
        q = d
    elif op == 'missing':
        ctx.assume(not raw.has(x))
        ctx.check(ctx.attempt(lambda: d[x]) == ('err', 'KeyError'), 'missing key')
        d.get(x); d.get(x, 1)
        ctx.attempt(lambda: d.pop(x)); ctx.attempt(lambda: d.pop(x, 1))
        q = d
    elif op == 'set':
        q = d.set(k, y) if pers else d.__setitem__(k, y)
        exp.set(k, y)
    elif op == 'update':
        q = d.update([(k, y)], zz=y)
        exp.set(k, y); exp.set('zz', y)
    elif op == 'setdefault':
        ctx.assume(not raw.has(x))
        q = d.setdefault(x, y)
        if not pers: q = None
        exp.set(x, y)
    elif op == 'drop':
        if pers: q = d.drop(k)
        elif exp.has(k): del d[k]
        exp.drop(k)
    elif op == 'delete':
        ctx.assume(exp.has(k))
        q = d.delete(k)
        exp.drop(k)
    elif op == 'delmissing':
        ctx.assume(not raw.has(x))
        f = d.delete if pers else d.__delitem__
        ctx.check(ctx.attempt(lambda: f(x)) == ('err', 'KeyError'), 'deleting a missing key')
        q = d
    elif op == 'dropall':
        q = d.dropall([k, x])
        exp.drop(k)
        if exp.has(x): exp.drop(x)
    elif op == 'deleteall':
        ctx.assume(exp.has(k))
        q = d.deleteall([k])
        exp.drop(k)
    elif op == 'setall':
        q = d.setall([k, 'zz'], [y, y])
        exp.set(k, y); exp.set('zz', y)
    elif op == 'keys':
        ks = d.keys()
        ks & [k]; ks - [k]; ks | ['zz']; ks ^ ['zz']; ks == {k}; ks <= {k}; ks.isdisjoint([k])
        k in ks; len(ks)
        q = d
    elif op == 'clear': q = d.clear(); exp = RDict(ctx)
    elif op == 'copy': q = d.copy()
    elif op == 'thaw':
        q = d.transient() if pers else d.persistent()
        raw_dict(ctx, q, exp, op, 'tldict' if pers else 'ldict')
        q = d
    elif op == 'round':
        t = d.transient() if pers else d
        t[k] = y
        e2 = raw.copy(); e2.set(k, y)
        q = t.persistent()
        raw_dict(ctx, q, e2, op, 'ldict')
        raw_dict(ctx, L.ldict(t), e2, op, 'ldict')
        u = q.transient()
        del u[k]
        e3 = e2.copy(); e3.drop(k)
        raw_dict(ctx, u.persistent(), e3, op, 'ldict')
        raw_dict(ctx, q, e2, op, 'ldict')
        if not pers: exp = e2
        q = d
    elif op == 'kinds':
        for c in DICTS:
            raw_dict(ctx, getattr(L, c)(d), exp, 'copying to a lazy kind', c)
            raw_dict(ctx, getattr(L, c)(list(raw.kv)), exp, 'building a lazy kind', c)
            raw_dict(ctx, getattr(L, c)(L.pdict(list(raw.kv))), exp,
                     'from a pdict of lazy objects', c)
            e2 = raw.copy(); e2.set('zz', y)
            raw_dict(ctx, getattr(L, c)(d, zz=y), e2, 'copying with keywords', c)
        q = d
    else: raise AssertionError(op)
    lz.none_ran(op)
    if q is None: q = d
    raw_dict(ctx, q, exp, op, kind)
    if pers: raw_dict(ctx, d, raw, op + ': original', kind)
    lz.none_ran(op)
    ctx.reached(op)


@harness
def dict_one(ctx, kind, n, op):
    """Reading one item computes that item and no other."""
    lz = Lz(ctx, STATES)
    if n <= 8:
        keys = [ctx.elem(f'k{i}') for i in range(n)]
        for i in range(n):
            for j in range(i): ctx.assume(ctx.not_(ctx.equal(keys[i], keys[j])))
        (d, raw) = mk_lazy_dict(ctx, kind, lz, n, keys=keys)
        ctx.assume(len(raw) == n)
        at = list(range(n))
    else:
        (d, raw) = mk_lazy_dict(ctx, kind, lz, n)
        (keys, n) = (raw.keys(), len(raw))
        at = [[x is v for x in lz.raws].index(True) for v in raw.values()]
    pers = kind == 'ldict'
    j = anypos(ctx, 'j', n) if n else 0
    k = keys[j] if n else None
    if op == 'item':
        d[k]; lz.ran_only([at[j]], 'd[k]')
        d[k]; d.get(k); lz.ran_only([at[j]], 'd[k] again')
    elif op == 'get': d.get(k); lz.ran_only([at[j]], 'get'); d.get(k, 1); lz.ran_only([at[j]], 'get')
    elif op == 'pop': d.pop(k); lz.ran_only([at[j]], 'pop')
    elif op == 'popitem':
        r = d.popitem()
        kv = r[0] if pers else r
        i = [bool(ctx.equal(x, kv[0])) for x in keys].index(True)
        lz.ran_only([at[i]], 'popitem')
    elif op in ('values', 'items'):
        m = anypos(ctx, 'm', n + 1)
        it = iter(getattr(d, op)())
        for _ in range(m): next(it)
        lz.ran_only(at[:m], f'iterating m of {op}()')
    elif op == 'ready_all':
        d.ready_all(); d.ready_all()
        lz.ran_only(at, 'ready_all')
    elif op == 'shared':
        q = d.transient() if pers else d.persistent()
        q[k]; lz.ran_only([at[j]], 'item of a conversion')
        d[k]; lz.ran_only([at[j]], 'the same item in the source')
    elif op == 'setdefault':
        d.setdefault(k, 1)
        lz.ran_only([] if not any(lz.runs) else [at[j]], 'setdefault of a present key')
    else: raise AssertionError(op)
    ctx.reached(op)


LIDLE = ('look', 'slice', 'append', 'prepend', 'insert', 'extend', 'set', 'delete', 'drop', 'add', 'iadd',
         'step', 'clear', 'copy', 'thaw', 'round', 'kinds')
LONE = ('item', 'pop', 'poplast', 'iter', 'reversed', 'out', 'ready_all', 'slice', 'shared')
DIDLE = ('look', 'missing', 'set', 'update', 'setdefault', 'drop', 'delete',
         'delmissing', 'dropall', 'deleteall', 'setall', 'keys', 'clear', 'copy', 'thaw', 'round', 'kinds')
PERSONLY = ('delete', 'dropall', 'deleteall', 'setall')
DONE = ('item', 'get', 'pop', 'popitem', 'values', 'items', 'ready_all', 'shared', 'setdefault')

def jobs(tier):
    th = tier == 'thorough'
    out = []
    s = 600 if th else 60
    for kind in LISTS:
        for n in range(5 if th else 4):
            for op in LIDLE:
                if n == 3 and not th and op in ('slice', 'kinds', 'look'): continue
                if n == 0 and op in ('set', 'delete'): continue
                out.append(Job(W + '.list_idle', kind=kind, n=n, op=op, cost=n, seconds=s))
            for op in LONE:
                if n == 0 and op not in ('iter', 'out', 'ready_all', 'reversed'): continue
                out.append(Job(W + '.list_one', kind=kind, n=n, op=op, cost=n, seconds=s))
    for kind in DICTS:
        for n in range(4 if th else 3):
            for op in DIDLE:
                if n == 2 and not th and op in ('kinds', 'round', 'update', 'setall', 'dropall'): continue
                if kind == 'tldict' and op in PERSONLY: continue
                if n == 0 and op in ('delete', 'deleteall'): continue
                out.append(Job(W + '.dict_idle', kind=kind, n=n, op=op, cost=3 * n, seconds=s))
            for op in DONE:
                if n == 0: continue
                out.append(Job(W + '.dict_one', kind=kind, n=n, op=op, cost=3 * n, seconds=s))
    for n in (24,) if not th else (12, 24, 40):
        for kind in LISTS:
            for op in LIDLE: out.append(Job(W + '.list_idle', kind=kind, n=n, op=op, cost=3, seconds=s))
            for op in LONE: out.append(Job(W + '.list_one', kind=kind, n=n, op=op, cost=3, seconds=s))
        for kind in DICTS:
            for op in DIDLE:
                if kind == 'tldict' and op in PERSONLY: continue
                out.append(Job(W + '.dict_idle', kind=kind, n=n, op=op, cost=3, seconds=s))
            for op in DONE: out.append(Job(W + '.dict_one', kind=kind, n=n, op=op, cost=3, seconds=s))
    return out
