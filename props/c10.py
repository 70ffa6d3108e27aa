"""C10 Nothing ever changes a persistent collection."""
from .common import *
from .models import *

BOUNDS = ('collections of 0-2 symbolic elements (0-3 for one operation on a plist, pset or tdict) of '
          'all five persistent kinds, any list window, any '
          'pattern of equal elements and hashes, any of four histories; then any two operations '
          '(three thorough) on them, on what they give, and on transients of them, or any reading '
          'operation twice and an edit; any attribute name used by the classes'
          '; collections of 12 and 36 distinct items with one operation')

W = 'c10'
KINDS = ('plist', 'llist', 'pset', 'pdict', 'ldict')


def h(ctx, m, p):
    """The hash, where hashing does not compute lazies this harness counts."""
    return ctx.hash(p)


def settle(ctx, m, held, label):
    """Every persistent collection seen is as it was when it was first seen."""
    for (i, (p, r, hc)) in enumerate(held):
        m.observe(p, r, f'{label}: collection {i}', None)
        if m.family == 'set':
            o = m.orders.setdefault(id(p), (p, list(p)))[1]
            ctx.eq_seq(list(p), o, f'{label}: order of collection {i}')
        if hc is not None:
            ctx.check(ctx.hash(p) == hc, f'{label}: hash of collection {i}')


@harness
def derive(ctx, kind, n, op, then):
    """An edit of a persistent collection, then another edit of it or of the result."""
    m = model(ctx, kind)
    (p, r) = m.mk(n)
    hc = ctx.hash(p) if ctx.bool('hashed') else None
    x = m.fresh('x')
    (obs, exp) = m.pedit(op, p, r, '', x)
    held = [(p, r, hc)]
    if exp == 'IndexError' or exp == 'KeyError':
        ctx.check(obs == ('err', exp), op + ' raises', lambda: repr(obs))
        (q, qr) = (p, r)
    else:
        ctx.check(obs[0] == 'ok', op + ' raises', lambda: repr(obs))
        (q, qr) = (obs[1], exp)
        if op != 'pop' or kind != 'pset': held.append((q, qr, None))
    settle(ctx, m, held, 'after ' + op)
    if then == 'again':        # another edit of the original
        o2 = ctx.pick('op2', m.PEDITS[:5])
        (obs, exp) = m.pedit(o2, p, r, '2', x)
        if obs[0] == 'ok': held.append((obs[1], exp, None))
    elif then == 'further':    # an edit of the result
        o2 = ctx.pick('op2', m.PEDITS[:5])
        (obs, exp) = m.pedit(o2, q, qr, '2', x)
        if obs[0] == 'ok': held.append((obs[1], exp, None))
    elif then == 'thaw':       # an edit of a transient of the result
        o2 = ctx.pick('op2', m.TEDITS[:5])
        t = q.transient()
        m.tedit(o2, t, cref(qr), '2', x)
    settle(ctx, m, held, f'after {op} and {then}')
    ctx.reached(then)


@harness
def thawed(ctx, kind, n, make, op, depth=2):
    """Edits of a transient never reach what it was made from, or froze to."""
    m = model(ctx, kind)
    (p, r) = m.mk(n)
    held = [(p, r, ctx.hash(p))]
    t = p.transient() if make == 'transient' else m.T(p)
    tr = cref(r)
    x = m.fresh('x')
    m.tedit(op, t, tr, '', x)
    settle(ctx, m, held, 'after ' + op)
    if ctx.bool('freeze'): held.append((t.persistent(), cref(tr), None))
    o2 = ctx.pick('op2', m.CORE)
    m.tedit(o2, t, tr, '2', x)
    held.append((t.persistent(), cref(tr), None))
    if depth > 2:
        o3 = ctx.pick('op3', m.CORE[:3])
        m.tedit(o3, t, tr, '3', x)
    else:
        m.tedit('clear', t, tr, '3', x)
    settle(ctx, m, held, f'after {op}, {o2} and another')
    ctx.reached('thawed')


@harness
def once(ctx, kind, n, op, on):
    """One edit of any kind, of a collection or of a transient of it."""
    m = model(ctx, kind)
    (p, r) = m.mk(n)
    hc = ctx.hash(p)
    x = m.fresh('x')
    held = [(p, r, hc)]
    if on == 'p':
        (obs, exp) = m.pedit(op, p, r, '', x)
        if obs[0] == 'ok' and (op != 'pop' or m.family != 'set') and op != 'popitem':
            held.append((obs[1], exp, None))
    else:
        t = p.transient()
        tr = cref(r)
        m.tedit(op, t, tr, '', x)
        held.append((t.persistent(), tr, None))
    settle(ctx, m, held, 'after ' + op)
    ctx.reached('once')


READS = {
    'list': ('hash', 'in', 'index', 'count', 'item', 'slice', 'reversed', 'partial', 'str', 'eq',
             'lt', 'json', 'reduce', 'copy', 'thaw', 'clear'),
    'set': ('hash', 'in', 'partial', 'str', 'eq', 'le', 'disjoint', 'algebra', 'reduce', 'copy',
            'thaw', 'clear'),
    'dict': ('hash', 'in', 'item', 'get', 'keys', 'items', 'values', 'partial', 'reversed', 'str',
             'eq', 'json', 'reduce', 'copy', 'thaw', 'clear')}
LREADS = {'list': ('ready_all', 'lazies', 'holdlazy'), 'dict': ('ready_all', 'lazies', 'holdlazy')}


def read(ctx, m, p, r, op, x):
    """One operation that only reads."""
    A = ctx.attempt
    L = ctx.lib
    if op == 'hash': ctx.hash(p)
    elif op == 'in': x in p
    elif op == 'partial':
        it = iter(p)
        if len(r): next(it)
        ctx.reads = it      # still in use
    elif op == 'str': str(p); repr(p)
    elif op == 'reduce': p.__reduce__()
    elif op == 'copy': p.copy(); m.P(p)
    elif op == 'thaw': p.transient(); m.T(p)
    elif op == 'clear': p.clear()
    elif op == 'reversed': list(reversed(p))
    elif op == 'eq':
        q = m.P(list(p) if m.family != 'dict' else list(p.items()))
        p == q; p != q; p == m.T(q)
    elif op == 'ready_all': p.ready_all()
    elif op == 'lazies':
        for k in (range(len(r)) if m.family == 'list' else r.keys()):
            p.is_lazy(k); p.is_ready(k); p.getlazy(k)
    elif op == 'holdlazy':
        q = L.holdlazy(p)
        for q in (q, p.as_plist() if m.family == 'list' else p.as_pdict()):
            t = q.transient()
            if m.family == 'list': t.append(x); t[0] = 0
            else: t[x] = 0
    elif m.family == 'list':
        if op == 'index': A(lambda: p.index(x))
        elif op == 'count': p.count(x)
        elif op == 'item': A(lambda: p[ctx.int('i')])
        elif op == 'slice': p[1:]; p[::-1]; p[:]
        elif op == 'lt': A(lambda: p < m.P([x, x]))
        elif op == 'json': A(lambda: p.__json__()) if not ctx.symbolic else list(p)
        else: raise AssertionError(op)
    elif m.family == 'set':
        q = m.P([x])
        if op == 'le': p <= q; p < q; p >= q; p > q
        elif op == 'disjoint': p.isdisjoint(q); p.issubset(q); p.issuperset(q)
        elif op == 'algebra': p | q; p & q; p - q; p ^ q; q - p
        else: raise AssertionError(op)
    else:
        if op == 'item': A(lambda: p[x])
        elif op == 'get': p.get(x); p.get(x, 5)
        elif op == 'keys': ks = p.keys(); x in ks; list(ks); list(reversed(ks)); ks & {x}; ks | {x}
        elif op == 'items': ks = p.items(); (x, 1) in ks; list(ks); list(reversed(ks))
        elif op == 'values': ks = p.values(); x in ks; list(ks); list(reversed(ks))
        elif op == 'json': dict(p)
        else: raise AssertionError(op)


@harness
def reads(ctx, kind, n, op):
    """Operations that only read."""
    m = model(ctx, kind)
    if m.family == 'list': (p, r) = m.mk(n)
    elif m.family == 'set':
        els = [ctx.elem(f's{i}') for i in range(n)]
        for i in range(n):
            for j in range(i): ctx.assume(ctx.not_(ctx.equal(els[i], els[j])))
        (p, r) = mk_pset(ctx, n, 's', els=els, how='ctor' if n > 2 else None)
    else:
        (p, r) = m.mk(n, how='ctor' if n > 2 or (m.lazy and n > 1) else None)
    hashed = ctx.bool('hashed')
    hc = ctx.hash(p) if hashed and not m.lazies else None
    x = m.fresh('x')
    if len(r) and m.family != 'list': x = m.key(r, '', x) if m.family == 'dict' else m.member(r, '', x)
    read(ctx, m, p, r, op, x)
    held = [(p, r, hc)]
    settle(ctx, m, held, 'after ' + op)
    read(ctx, m, p, r, op, x)
    # what comes from it now
    y = ctx.distinct(5)
    q = cref(r)
    if m.family == 'list': q.append(y); p2 = p.append(y)
    elif m.family == 'set': q.add(y); p2 = p.add(y)
    else: q.set(y, 0); p2 = p.set(y, 0)
    held.append((p2, q, None))
    settle(ctx, m, held, f'after {op} and an edit')
    ctx.reached(op)


@harness
def operand(ctx, kind, n, k, op):
    """A collection used as the argument of a bulk operation, whose result is then edited."""
    m = model(ctx, kind)
    (p, r) = m.mk(n, window='sym') if m.family == 'list' else m.mk(n)
    hc = ctx.hash(p)
    els = [ctx.elem(f'y{i}') for i in range(k)]
    x = m.fresh('x')
    ctx.assume(not m.lazies)
    if m.family == 'list':
        o = m.P(els)
        (a, b) = {'extend': lambda: (o.extend(p), els + r), 'add': lambda: (o + p, els + r),
                  'self': lambda: (p.extend(p), r + r), 'selfadd': lambda: (p + p, r + r)}[op]()
        oref = els
    elif m.family == 'set':
        o = m.P(els)
        oref = RSet(ctx, els)
        c = lambda e, s: e in s
        b = oref.copy()
        if op in ('or', 'addall', 'union'):
            a = o | p if op == 'or' else o.union(p) if op == 'union' else o.addall(p)
            for e in r.els: b.add(e)
        elif op in ('sub', 'discardall', 'difference'):
            a = o - p if op == 'sub' else o.difference(p) if op == 'difference' else o.discardall(p)
            for e in r.els: b.discard(e)
        elif op == 'self':
            a = p.addall(p); b = r.copy()
        elif op == 'selfsub':
            a = p.discardall(p); b = RSet(ctx)
        else:
            a = o ^ p if op == 'xor' else o.symmetric_difference(p)
            for e in r.els:
                if oref.has(e): b.discard(e)
                else: b.add(e)
    else:
        oref = RDict(ctx, [(e, f'o{i}') for (i, e) in enumerate(els)])
        o = m.P(oref.kv)
        b = oref.copy()
        if op == 'update':
            a = o.update(p)
            for (e, v) in r.kv: b.set(e, v)
        elif op == 'setall':
            a = o.setall(p.keys(), p.values())
            for (e, v) in r.kv: b.set(e, v)
        elif op == 'dropall':
            a = o.dropall(p)
            for (e, v) in r.kv: b.drop(e)
        elif op == 'self':
            a = p.update(p); b = r.copy()
        else:
            a = p.dropall(p); b = RDict(ctx)
    held = [(p, r, hc), (o, oref, None), (a, b, None)]
    settle(ctx, m, held, 'after ' + op)
    t = a.transient()
    m.tedit(ctx.pick('t', m.CORE[:2]), t, cref(b), 't', x)
    settle(ctx, m, held, f'after {op} and an edit of its result')
    ctx.reached('operand')


OPERANDS = {'list': ('extend', 'add', 'self', 'selfadd'),
            'set': ('or', 'addall', 'union', 'sub', 'discardall', 'difference', 'xor', 'symdiff',
                    'self', 'selfsub'),
            'dict': ('update', 'setall', 'dropall', 'self', 'selfdrop')}


NAMES = ('_phamt', '_start', '_hashcode', '_els', '_idx', '_top', 'foo', '__class__', 'empty',
         'append', '_mapping')

@harness
def immutable(ctx, kind, n):
    """Item and attribute assignment and deletion raise TypeError and do nothing."""
    m = model(ctx, kind)
    (p, r) = m.mk(n)
    hc = ctx.hash(p) if ctx.bool('hashed') else None
    if m.family == 'list': k = ctx.int('i')
    elif m.family == 'dict': k = m.key(r, '', m.fresh('x'))
    else: k = m.member(r, '', m.fresh('x'))
    TE = ('err', 'TypeError')
    ctx.check(ctx.attempt(lambda: p.__setitem__(k, 1)) == TE, 'item assignment')
    ctx.check(ctx.attempt(lambda: p.__delitem__(k)) == TE, 'item deletion')
    def f(): p[k] = 1
    ctx.check(ctx.attempt(f) == TE, 'item assignment')
    def f(): del p[k]
    ctx.check(ctx.attempt(f) == TE, 'item deletion')
    for nm in NAMES:
        ctx.check(ctx.attempt(lambda: setattr(p, nm, 1)) == TE, f'assignment to .{nm}')
        ctx.check(ctx.attempt(lambda: delattr(p, nm)) == TE, f'deletion of .{nm}')
    settle(ctx, m, [(p, r, hc)], 'after the attempts')


@harness
def inplace(ctx, kind, n):
    """Augmented assignment binds another collection."""
    m = model(ctx, kind)
    (p, r) = m.mk(n)
    hc = ctx.hash(p)
    x = m.fresh('x')
    q = p
    if m.family == 'list':
        w = ctx.pick('op', ['add', 'mul'])
        if w == 'add': q += [x]
        else: q *= 2
        m.observe(q, r + [x] if w == 'add' else r * 2, 'the result', m.pk)
    elif m.family == 'set':
        w = ctx.pick('op', ['or', 'and', 'sub', 'xor'])
        if w == 'or': q |= {x}
        elif w == 'and': q &= {x}
        elif w == 'sub': q -= {x}
        else: q ^= {x}
    else:
        q = q.set(x, 1)
        w = 'set'
    settle(ctx, m, [(p, r, hc)], f'after {w}=')


@harness
def source(ctx, kind, n, src):
    """What a collection was built from may change afterwards."""
    m = model(ctx, kind)
    els = [ctx.elem(f'e{i}') for i in range(n)]
    if m.family == 'dict':
        ps = [(e, i) for (i, e) in enumerate(els)]
        r = RDict(ctx, ps)
        s = {'list': list, 'dict': dict, 'tdict': ctx.lib.tdict, 'tldict': ctx.lib.tldict}[src](ps)
        p = m.P(s)
        if src == 'list': s.append((ctx.distinct(3), 1)); s.pop(0)
        else: s[ctx.distinct(3)] = 1; del s[els[0]]
    elif m.family == 'set':
        r = RSet(ctx, els)
        s = {'list': list, 'set': set, 'tset': ctx.lib.tset}[src](els)
        p = m.P(s)
        if src == 'list': s.append(ctx.distinct(3)); s.pop(0)
        else: s.add(ctx.distinct(3)); s.discard(els[0])
    else:
        r = list(els)
        s = {'list': list, 'tlist': ctx.lib.tlist, 'tllist': ctx.lib.tllist}[src](els)
        p = m.P(s)
        s.append(ctx.distinct(3)); del s[0]; s[0] = ctx.distinct(4)
    settle(ctx, m, [(p, r, None)], 'after its source changed')


def jobs(tier):
    th = tier == 'thorough'
    out = []
    for kind in KINDS:
        M = MODELS[kind]
        sizes = (0, 1, 2, 3) if M is ListModel else (0, 1, 2)
        if kind in ('llist', 'ldict'): sizes = (0, 1, 2)
        for n in (2, 3):
            if n == 3 and (M is DictModel or kind == 'llist') and not th: continue
            for op in M.PEDITS:
                if op == 'sort' and kind == 'llist': continue
                out.append(Job(W + '.once', kind=kind, n=n, op=op, on='p', cost=n,
                               seconds=600 if th else 60))
            for op in M.TEDITS:
                out.append(Job(W + '.once', kind=kind, n=n, op=op, on='t', cost=n,
                               seconds=600 if th else 60))
        for op in READS[M.family] + (LREADS[M.family] if kind in ('llist', 'ldict') else ()):
            for n in (0, 1, 2) + ((3,) if th or kind in ('plist', 'pset') else ()):
                out.append(Job(W + '.reads', kind=kind, n=n, op=op, cost=n,
                               seconds=600 if th else 60))
        for op in OPERANDS[M.family]:
            for (n, k) in ((1, 1), (2, 1), (1, 2)) + (((2, 2),) if th else ()):
                if (M is not ListModel) and n + k > 2 and not th and op not in ('or', 'update', 'discardall'): continue
                out.append(Job(W + '.operand', kind=kind, n=n, k=k, op=op, cost=n,
                               seconds=600 if th else 60))
        for n in sizes:
            for op in M.PEDITS:
                if op == 'sort' and kind == 'llist': continue
                for then in ('again', 'further', 'thaw'):
                    if n == 3 and not th: continue
                    if kind in ('llist', 'ldict') and n == 2 and not th: continue
                    if n == 2 and M is not ListModel and not th \
                       and (then != 'thaw' or op not in ('set', 'drop', 'add', 'discard')): continue
                    out.append(Job(W + '.derive', kind=kind, n=n, op=op, then=then, cost=n,
                                   seconds=600 if th else 60))
            for op in M.TEDITS:
                for make in ('transient', 'ctor'):
                    if n == 2 and M is not ListModel and not th and make == 'ctor': continue
                    if kind in ('llist', 'ldict') and n == 2 and not th: continue
                    if n == 3 and not th: continue
                    out.append(Job(W + '.thawed', kind=kind, n=n, make=make, op=op, cost=n,
                                   depth=3 if th and (M is ListModel or n < 2) else 2,
                                   seconds=600 if th else 60))
            out.append(Job(W + '.immutable', kind=kind, n=n, cost=1))
            out.append(Job(W + '.inplace', kind=kind, n=n))
        for src in {'list': ('list', 'tlist', 'tllist'), 'set': ('list', 'set', 'tset'),
                    'dict': ('list', 'dict', 'tdict', 'tldict')}[M.family]:
            for n in (1, 2): out.append(Job(W + '.source', kind=kind, n=n, src=src))
        for n in (12, 36) if not th else (12, 36, 70):
            for op in M.PEDITS:
                if op == 'sort' and kind == 'llist': continue
                out.append(Job(W + '.derive', kind=kind, n=n, op=op, then='thaw', cost=n / 9) if n < 20 else
                           Job(W + '.once', kind=kind, n=n, op=op, on='p', cost=n / 9))
            for op in M.TEDITS:
                out.append(Job(W + '.thawed', kind=kind, n=n, make='transient', op=op, cost=n / 9) if n < 20 or op in M.CORE else
                           Job(W + '.once', kind=kind, n=n, op=op, on='t', cost=n / 9))
    return out
