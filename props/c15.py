"""C15 Lazy lists and dicts read as if all values were already computed."""
from .common import *
from .lazies import *

BOUNDS = ('lazy lists and dicts, persistent and transient, of 0-2 symbolic items (0-3 for lists; one '
          'more thorough), each plain, lazy, lazy but computed, or the same lazy object as an earlier '
          'item; values may be None, Ellipsis or falsy; any list window start and index in '
          '[-2^60, 2^60]; any pattern of equal keys and hashes, four dict histories; one read or '
          'conversion, or one edit followed by reads'
          '; collections of 24 (40 thorough) distinct items in three patterns of lazy ones, at '
          'telling positions')

W = 'c15'
STATES = ('plain', 'lazy', 'done', 'shared')


def val_eq(ctx, label):
    def f(a, b): ctx.check(ctx.same(a, b), label, lambda: f'{a!r} expected {b!r}')
    return f


def unchanged_list(ctx, obj, raws, lz, label):
    raw_list(ctx, obj, raws, label + ': list afterwards')
    observe_list(ctx, obj, [lz.value(r) for r in raws], label + ': reading it afterwards')
    lz.once(label)


@harness
def list_read(ctx, kind, n, op):
    lz = Lz(ctx, STATES)
    sp = op not in ('hash', 'sort', 'lt', 'sorted')
    (p, raws) = mk_lazy_list(ctx, kind, lz, n, special=sp)
    vals = [lz.value(r) for r in raws]
    pers = kind == 'llist'
    if op == 'index':
        i = anyint(ctx, 'i', n)
        ctx.same_outcome(ctx.attempt(lambda: p[i]), ctx.attempt(lambda: vals[ridx(i, n)]), 'p[i]',
                         val_eq(ctx, 'p[i]'))
    elif op == 'slice':
        (a, b) = (anyint(ctx, 'a', n), anyint(ctx, 'b', n))
        q = p[ctx.slice(a, b, None)]
        exp = raws[rbound(a, n):rbound(b, n)]
        raw_list(ctx, q, exp, 'slice', kind)
        observe_list(ctx, q, [lz.value(r) for r in exp], 'slice', kind)
    elif op == 'walk':
        ctx.same_seq(list(p), vals, 'iteration')
        ctx.same_seq(list(reversed(p)), vals[::-1], 'reversed')
        ctx.same_seq([*p], vals, 'unpacking')
        ctx.same_seq([x for (_, x) in zip(range(n), p)], vals, 'zip')
        (a, b) = (iter(p), iter(p))
        ctx.same_seq([x for _ in range(n) for x in (next(a), next(b))],
                     [x for v in vals for x in (v, v)], 'two iterations at once')
    elif op == 'search':
        x = ctx.elem('x', special=True)
        eq = [bool(ctx.equal(v, x)) for v in vals]
        ctx.check(bool(x in p) == any(eq), 'in')
        ctx.check(p.count(x) == sum(eq), 'count')
        obs = ctx.attempt(lambda: p.index(x))
        exp = ('ok', eq.index(True)) if any(eq) else ('err', 'ValueError')
        ctx.check(obs == exp, 'index', lambda: f'{obs} expected {exp}')
        for (l, _) in [(r, v) for (r, v) in zip(raws, vals) if r is not v][:1]:
            ctx.check(not (l in p), 'a lazy object is not an item')
    elif op == 'equal':
        E = getattr(ctx.lib, EAGER[kind])
        y = ctx.elem('y', special=True)
        other = vals[:n - 1] + [y] if n else []
        same = not n or bool(ctx.equal(vals[-1], y))
        for q in (E(other), list(other), ctx.lib.plist(other), ctx.lib.llist(other)):
            ctx.check(bool(p == q) == same, '==', lambda: f'{p!r} == {q!r} expected {same}')
            ctx.check(bool(q == p) == same, '== reflected')
            ctx.check(bool(p != q) == (not same), '!=')
    elif op == 'hash':
        ctx.check(ctx.eqint(ctx.hash(p), ctx.hash(ctx.lib.plist(vals))), 'hash')
    elif op == 'lt':
        ys = [ctx.elem(f'y{i}') for i in range(n)]
        for (s, f) in (('<', lambda a, b: a < b), ('>=', lambda a, b: a >= b)):
            ctx.check(bool(f(p, ys)) == bool(f(vals, ys)), 'p %s list' % s)
            ctx.check(bool(f(p, ctx.lib.plist(ys))) == bool(f(vals, ys)), 'p %s plist' % s)
    elif op == 'sorted':
        ctx.same_seq(sorted(p), sorted(vals), 'sorted')
    elif op == 'convert':
        for (t, q) in (('plist', ctx.lib.plist(p)), ('tlist', ctx.lib.tlist(p)),
                       ('list', list(p)), ('tuple', tuple(p)),
                       ('plist', ctx.lib.plist(p.copy()))):
            ctx.check(type(q).__name__ == t, 'kind of conversion')
            ctx.same_seq(list(q), vals, 'conversion to ' + t)
    elif op == 'expose':
        raw_list(ctx, ctx.lib.plist(ctx.lib.holdlazy(p)), raws, 'holdlazy', 'plist')
        if pers:
            raw_list(ctx, p.as_plist(), raws, 'as_plist', 'plist')
            for i in range(n):
                ctx.check(p.is_lazy(i) == (lz.fns[i] is not None), 'is_lazy')
                ctx.check(p.is_ready(i) == lz.was_done(i), 'is_ready')
        for i in range(n):
            ctx.check(ctx.same(p.getlazy(i), raws[i]), 'getlazy')
            ctx.check(ctx.same(p.getlazy(i - n), raws[i]), 'getlazy')
        ctx.check(ctx.attempt(lambda: p.getlazy(n)) == ('err', 'IndexError'), 'getlazy out of range')
        ctx.check(not any(lz.runs), 'exposing computes nothing')
    elif op == 'ready_all':
        if pers:
            q = p.ready_all()
            ctx.check(q is p or type(q).__name__ == kind, 'ready_all')
            observe_list(ctx, q, vals, 'ready_all')
            for i in range(n): ctx.check(p.is_ready(i), 'is_ready after ready_all')
    elif op == 'concat':
        y = ctx.elem('y')
        (l, _) = lz.new(y)
        for (t, q, exp) in (('p + [y]', ctx.attempt(lambda: p + [y]), vals + [y]),
                            ('[y] + p', ctx.attempt(lambda: [y] + p), [y] + vals),
                            ('p + llist', ctx.attempt(lambda: p + ctx.lib.llist([l])), vals + [y]),
                            ('p * 2', ctx.attempt(lambda: p * 2), vals * 2),
                            ('2 * p', ctx.attempt(lambda: 2 * p), vals * 2)):
            if q[0] == 'err': ctx.check(not pers, t, lambda: repr(q)); continue
            observe_list(ctx, q[1], exp, t, kind)
    elif op == 'json':
        d = ctx.attempt(lambda: p.__json__())
        e = ctx.attempt(lambda: ctx.lib.plist(vals).__json__())
        ctx.check(d[0] == e[0], '__json__ (raises)', lambda: f'{d!r} expected {e!r}')
        if ctx.symbolic and d[0] == 'ok': ctx.same_seq(d[1].o, e[1].o, '__json__')
        elif d[0] == 'ok': ctx.check(d[1] == e[1], '__json__')
        elif not ctx.symbolic: pass
    else: raise AssertionError(op)
    unchanged_list(ctx, p, raws, lz, op)
    ctx.reached(op)


@harness
def list_edit(ctx, kind, n, op):
    """An edit keeps the kind lazy, and the result reads as computed values."""
    lz = Lz(ctx, STATES)
    (p, raws) = mk_lazy_list(ctx, kind, lz, n)
    y = lz.item('y')
    exp = list(raws)
    pers = kind == 'llist'
    i = anypos(ctx, 'i', n + 1)
    got = []
    def do(f): got.append(f())
    if op == 'append': do(lambda: p.append(y)); exp.append(y)
    elif op == 'prepend': do(lambda: p.prepend(y)); exp.insert(0, y)
    elif op == 'insert': do(lambda: p.insert(i, y)); exp.insert(i, y)
    elif op == 'extend': do(lambda: p.extend([y, y])); exp += [y, y]
    elif op == 'set':
        ctx.assume(i < n)
        do(lambda: p.set(i, y) if pers else p.__setitem__(i, y)); exp[i] = y
    elif op == 'delete':
        ctx.assume(i < n)
        do(lambda: p.delete(i) if pers else p.__delitem__(i)); del exp[i]
    elif op == 'pop':
        ctx.assume(i < n)
        v = lz.value(exp.pop(i))
        r = p.pop(i)
        if pers:
            ctx.check(ctx.same(r[0], v), 'pop gives the value', lambda: repr(r))
            got.append(r[1])
        else:
            ctx.check(ctx.same(r, v), 'pop gives the value', lambda: repr(r))
    elif op == 'reverse': do(lambda: p.reverse()); exp.reverse()
    elif op == 'clear': do(lambda: p.clear()); exp = []
    elif op == 'remove':
        ctx.assume(n > 0)
        x = lz.value(raws[i % n])
        j = [bool(ctx.equal(lz.value(r), x)) for r in raws].index(True)
        do(lambda: p.remove(x)); del exp[j]
    elif op == 'convert':
        q = p.transient() if pers else p.persistent()
        observe_list(ctx, q, [lz.value(r) for r in raws], 'conversion',
                     'tllist' if pers else 'llist')
        raw_list(ctx, q, raws, 'conversion')
        c = p.copy()
        observe_list(ctx, c, [lz.value(r) for r in raws], 'copy', kind)
        q = getattr(ctx.lib, 'tllist' if pers else 'llist')(p)
        observe_list(ctx, q, [lz.value(r) for r in raws], 'conversion by constructor',
                     'tllist' if pers else 'llist')
        return
    else: raise AssertionError(op)
    q = got[0] if pers else p
    observe_list(ctx, q, [lz.value(r) for r in exp], op, kind)
    if pers: observe_list(ctx, p, [lz.value(r) for r in raws], op + ': original', kind)
    lz.once(op)
    ctx.reached(op)


@harness
def dict_read(ctx, kind, n, op):
    lz = Lz(ctx, STATES)
    sp = op != 'hash'
    (d, raw) = mk_lazy_dict(ctx, kind, lz, n, special=sp)
    ref = values_ref(ctx, lz, raw)
    pers = kind == 'ldict'
    if op == 'get':
        x = ctx.elem('x')
        observe_dict(ctx, d, ref, 'reads', kind, x)
        z = ctx.elem('z', special=True)
        ctx.check(ctx.same(d.get(x, z), ref.get(x, z)), 'get with a default')
    elif op == 'views':
        ctx.eq_seq(list(d.keys()), ref.keys(), 'keys()')
        ctx.same_seq(list(d.values()), ref.values(), 'values()')
        its = list(d.items())
        ctx.check(all(type(kv) is tuple and len(kv) == 2 for kv in its), 'items() are pairs')
        ctx.same_seq([v for (_, v) in its], ref.values(), 'items()')
        ctx.eq_seq([k for (k, _) in its], ref.keys(), 'items() keys')
        ctx.same_seq([v for (_, v) in reversed(d.items())], ref.values()[::-1], 'reversed items()')
        ctx.same_seq(list(reversed(d.values())), ref.values()[::-1], 'reversed values()')
        x = ctx.elem('x', special=True)
        ctx.check(bool(x in d.values()) == any(bool(ctx.equal(x, v)) for v in ref.values()),
                  'in values()')
        if n:
            j = ctx.choice('j', len(ref))
            (k, v) = ref.kv[j]
            ctx.check(bool((k, x) in d.items()) == bool(ctx.equal(x, v)), 'in items()',
                      lambda: f'{(k, x)!r} in {its!r}')
            ctx.check((k, v) in d.items(), 'own item in items()')
        for (l, _) in [(r, v) for (r, v) in zip(lz.raws, lz.vals) if r is not v][:1]:
            ctx.check(not (l in d.values()), 'a lazy object is not a value')
    elif op == 'equal':
        y = ctx.elem('y', special=True)
        kv = list(ref.kv)
        same = True
        if kv:
            same = bool(ctx.equal(kv[-1][1], y))
            kv[-1] = (kv[-1][0], y)
        for q in (ctx.lib.pdict(kv), ctx.lib.ldict(kv), ctx.lib.tdict(kv)):
            ctx.check(bool(d == q) == same, '==', lambda: f'{d!r} == {q!r} expected {same}')
            ctx.check(bool(q == d) == same, '== reflected')
            ctx.check(bool(d != q) == (not same), '!=')
    elif op == 'hash':
        ctx.check(ctx.eqint(ctx.hash(d), ctx.hash(ctx.lib.pdict(ref.items()))), 'hash')
    elif op == 'convert':
        for (t, q) in (('pdict', ctx.lib.pdict(d)), ('tdict', ctx.lib.tdict(d)),
                       ('pdict', ctx.lib.pdict(d.copy())),
                       ('pdict', ctx.lib.pdict(d.items())),
                       ('plist', ctx.lib.plist(d.values()))):
            if t == 'plist': ctx.same_seq(list(q), ref.values(), 'plist(values())')
            else: observe_dict(ctx, q, ref, 'conversion to ' + t, t)
        q = ctx.lib.pdict(d, **{'zz': 1})
        r = ref.copy(); r.set('zz', 1)
        observe_dict(ctx, q, r, 'conversion with keywords', 'pdict')
    elif op == 'expose':
        h = ctx.lib.holdlazy(d)
        ctx.check(type(h).__name__ in ('pdict', 'tdict'), 'kind of holdlazy')
        raw_dict(ctx, h, raw, 'holdlazy')
        h = d.as_pdict() if pers else d.as_tdict()
        raw_dict(ctx, h, raw, 'as_pdict', EAGER[kind])
        for (k, v) in raw.kv:
            ctx.check(ctx.same(d.getlazy(k), v), 'getlazy')
            ctx.check(d.is_lazy(k) == isinstance(v, ctx.lib.lazy), 'is_lazy')
            ctx.check(d.is_ready(k) == (not isinstance(v, ctx.lib.lazy) or v.is_ready()), 'is_ready')
        x = ctx.elem('x')
        if not raw.has(x):
            ctx.check(d.getlazy(x) is None and d.getlazy(x, op) is op, 'getlazy of a missing key')
        ctx.check(not any(lz.runs), 'exposing computes nothing')
        if not pers:
            h[x] = 1
            raw_dict(ctx, d, raw, 'after an edit of as_tdict()')
    elif op == 'ready_all':
        q = d.ready_all()
        observe_dict(ctx, q, ref, 'ready_all')
        for (k, v) in raw.kv: ctx.check(d.is_ready(k), 'is_ready after ready_all')
    elif op == 'json':
        def doc(d):
            r = ctx.attempt(lambda: d.__json__())
            return r
        ks = [f'key{i}' for i in range(n)]
        e = getattr(ctx.lib, kind)([(k, r) for (k, r) in zip(ks, lz.raws)])
        p = ctx.lib.pdict([(k, v) for (k, v) in zip(ks, lz.vals)])
        (a, b) = (doc(e), doc(p))
        ctx.check(a[0] == b[0], '__json__ (raises)', lambda: f'{a!r} expected {b!r}')
        if ctx.symbolic and a[0] == 'ok':
            ctx.check(list(a[1].o) == ks, '__json__ keys')
            ctx.same_seq(list(a[1].o.values()), list(b[1].o.values()), '__json__')
        elif a[0] == 'ok': ctx.check(a[1] == b[1], '__json__')
    else: raise AssertionError(op)
    raw_dict(ctx, d, raw, op + ': dict afterwards', kind)
    observe_dict(ctx, d, ref, op + ': reading it afterwards', kind)
    lz.once(op)
    ctx.reached(op)


@harness
def dict_edit(ctx, kind, n, op):
    lz = Lz(ctx, STATES)
    (d, raw) = mk_lazy_dict(ctx, kind, lz, n)
    pers = kind == 'ldict'
    x = ctx.elem('x')
    j = anypos(ctx, 'j', len(raw) + 1)
    k = x if j == len(raw) else raw.kv[j][0]
    y = lz.item('y')
    exp = raw.copy()
    q = None
    if op == 'set':
        exp.set(k, y)
        q = d.set(k, y) if pers else d.__setitem__(k, y)
    elif op == 'drop':
        ctx.assume(exp.has(k)); exp.drop(k)
        q = d.drop(k) if pers else d.__delitem__(k)
    elif op == 'update':
        exp.set(k, y)
        q = d.update([(k, y)])
    elif op == 'updatelazy':
        exp.set(k, y)
        q = d.update(ctx.lib.ldict([(k, y)]))
    elif op == 'clear':
        exp = RDict(ctx)
        q = d.clear()
    elif op == 'setdefault':
        r = d.setdefault(k, y)
        v = lz.value(exp.get(k, y))
        if not exp.has(k): exp.set(k, y)
        if pers: q = r
        elif raw.has(k) or y is lz.value(y): ctx.check(ctx.same(r, v), 'setdefault gives the value')
    elif op in ('pop', 'popdef'):
        if op == 'pop': obs = ctx.attempt(lambda: d.pop(k))
        else: obs = ctx.attempt(lambda: d.pop(k, 'dflt'))
        if exp.has(k): (v, _) = (('ok', lz.value(exp.get(k))), exp.drop(k))
        elif op == 'pop': v = ('err', 'KeyError')
        else: v = ('ok', 'dflt')
        if pers and obs[0] == 'ok': (obs, q) = (('ok', obs[1][0]), obs[1][1])
        ctx.same_outcome(obs, v, op, val_eq(ctx, op + ' gives the value'))
        if obs[0] == 'err': q = d
    elif op == 'popitem':
        obs = ctx.attempt(lambda: d.popitem())
        if not len(exp):
            ctx.check(obs == ('err', 'KeyError'), 'popitem'); q = d
        else:
            ctx.check(obs[0] == 'ok', 'popitem', lambda: repr(obs))
            kv = obs[1][0] if pers else obs[1]
            if pers: q = obs[1][1]
            ctx.check(exp.has(kv[0]), 'popitem key')
            ctx.check(ctx.same(kv[1], lz.value(exp.get(kv[0]))), 'popitem gives the value',
                      lambda: repr(obs))
            exp.drop(kv[0])
    elif op == 'convert':
        o = 'tldict' if pers else 'ldict'
        r = values_ref(ctx, lz, raw)
        for q in (d.transient() if pers else d.persistent(), getattr(ctx.lib, o)(d),
                  getattr(ctx.lib, o)(list(raw.kv))):
            raw_dict(ctx, q, raw, 'conversion', o)
            observe_dict(ctx, q, r, 'conversion', o)
        observe_dict(ctx, d.copy(), r, 'copy', kind)
        return
    else: raise AssertionError(op)
    q = q if pers else d
    # (updating from a lazy dict may read its values)
    if op != 'updatelazy': raw_dict(ctx, q, exp, op, kind)
    observe_dict(ctx, q, values_ref(ctx, lz, exp), op, kind)
    if pers: observe_dict(ctx, d, values_ref(ctx, lz, raw), op + ': original', kind)
    lz.once(op)
    ctx.reached(op)


@harness
def holdlazy_any(ctx):
    """holdlazy of anything else gives it back, or refuses when asked to."""
    L = ctx.lib
    x = ctx.elem('x')
    for o in (L.plist([x]), L.pset([x]), L.pdict([(x, 1)]), L.tlist([x]), [x], x):
        ctx.check(L.holdlazy(o) is o, 'holdlazy of a collection that is not lazy')
        ctx.check(ctx.attempt(lambda: L.holdlazy(o, require_lazy=True)) == ('err', 'TypeError'),
                  'holdlazy with require_lazy')
    l = L.lazy(lambda: x)
    ctx.check(L.unlazy(l) is x and L.unlazy(x) is x, 'unlazy')


LREADS = ('index', 'slice', 'walk', 'search', 'equal', 'hash', 'lt', 'sorted', 'convert', 'expose',
          'ready_all', 'concat', 'json')
LEDITS = ('append', 'prepend', 'insert', 'extend', 'set', 'delete', 'pop', 'reverse', 'clear',
          'remove', 'convert')
DREADS = ('get', 'views', 'equal', 'hash', 'convert', 'expose', 'ready_all', 'json')
DEDITS = ('set', 'drop', 'update', 'updatelazy', 'clear', 'setdefault', 'pop', 'popdef', 'popitem',
          'convert')

def jobs(tier):
    th = tier == 'thorough'
    out = []
    s = 600 if th else 60
    for kind in LISTS:
        for op in LREADS:
            if op == 'hash' and kind == 'tllist': continue
            for n in range(4 if th else 3):
                out.append(Job(W + '.list_read', kind=kind, n=n, op=op, cost=n, seconds=s))
        for op in LEDITS:
            for n in range(4 if th else 3):
                if n == 0 and op in ('set', 'delete', 'pop', 'remove'): continue
                out.append(Job(W + '.list_edit', kind=kind, n=n, op=op, cost=n, seconds=s))
    for kind in DICTS:
        for op in DREADS:
            if op == 'hash' and kind == 'tldict': continue
            for n in range(3): out.append(Job(W + '.dict_read', kind=kind, n=n, op=op, cost=3 * n,
                                              seconds=s))
        for op in DEDITS:
            for n in range(op == 'drop', 3 if th else 2): out.append(Job(W + '.dict_edit', kind=kind, n=n, op=op,
                                                           cost=3 * n, seconds=s))
    for n in (24,) if not th else (12, 24, 40):
        for kind in LISTS:
            for op in LREADS:
                if op == 'lt' or op == 'hash' and kind == 'tllist': continue
                out.append(Job(W + '.list_read', kind=kind, n=n, op=op, cost=3, seconds=s))
            for op in LEDITS: out.append(Job(W + '.list_edit', kind=kind, n=n, op=op, cost=3, seconds=s))
        for kind in DICTS:
            for op in DREADS:
                if op == 'hash' and kind == 'tldict': continue
                out.append(Job(W + '.dict_read', kind=kind, n=n, op=op, cost=3, seconds=s))
            for op in DEDITS: out.append(Job(W + '.dict_edit', kind=kind, n=n, op=op, cost=3, seconds=s))
    out.append(Job(W + '.holdlazy_any'))
    return out
