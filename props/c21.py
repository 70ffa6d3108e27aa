"""C21 The abstract base classes' inherited methods work for any implementation."""
import operator
import types
from .common import *
from .c06 import ref_op, ref_cmp, BINOPS, IOPS, CMPS
from .c13 import OPS as ORDER
from .lazies import anyint

BOUNDS = ('minimal classes, written here over built-in lists, that implement only what the base '
          "classes' documentation lists as required; lists of 0-3 symbolic elements (0-4 thorough) "
          'with any index in [-2^60, 2^60]; sets and dicts of 0-2 (0-3 thorough); operands of up to '
          '2 elements of the same, the paired, the built-in and the library kinds; setcmp and '
          'seqcmp of every pair of kinds'
          '; collections of 12 distinct items with one symbolic operand')

W = 'c21'
_put = object.__setattr__


def classes(ctx):
    """Six classes with nothing but the required methods."""
    A = ctx.lib.abc
    eq = lambda a, b: a is b or bool(ctx.equal(a, b))
    def at(els, x):
        for (i, e) in enumerate(els):
            if eq(e, x): return i
        return -1
    class PSeq(A.PersistentSequence):
        def __new__(cls, arg=()):
            o = object.__new__(cls)
            _put(o, 'els', list(arg))
            return o
        def _with(self, f):
            els = list(self.els)
            f(els)
            return PSeq(els)
        def set(self, i, x): return self._with(lambda l: l.__setitem__(ridx(i, len(l)), x))
        def delete(self, i=-1): return self._with(lambda l: l.__delitem__(ridx(i, len(l))))
        def append(self, x): return self._with(lambda l: l.append(x))
        def prepend(self, x): return self._with(lambda l: l.insert(0, x))
        def insert(self, i, x): return self._with(lambda l: l.insert(ridx(i, len(l)), x))
        def clear(self): return PSeq()
        def transient(self): return TSeq(self.els)
        def __iter__(self): return iter(list(self.els))
        def __len__(self): return len(self.els)
        def __getitem__(self, i):
            if type(i) is slice: return PSeq(self.els[i])
            return self.els[ridx(i, len(self.els))]
    class TSeq(A.TransientSequence):
        def __new__(cls, arg=()):
            o = object.__new__(cls)
            o.els = list(arg)
            return o
        def clear(self): self.els.clear()
        def persistent(self): return PSeq(self.els)
        def __iter__(self): return iter(self.els)
        def __len__(self): return len(self.els)
        def __getitem__(self, i):
            if type(i) is slice: return TSeq(self.els[i])
            return self.els[ridx(i, len(self.els))]
        def __setitem__(self, i, x): self.els[ridx(i, len(self.els))] = x
        def __delitem__(self, i): del self.els[ridx(i, len(self.els))]
        def append(self, x): self.els.append(x)
        def prepend(self, x): self.els.insert(0, x)
        def insert(self, i, x): self.els.insert(ridx(i, len(self.els)), x)
    class PSet(A.PersistentSet):
        def __new__(cls, arg=()):
            o = object.__new__(cls)
            _put(o, 'els', [])
            for e in arg:
                if at(o.els, e) < 0: o.els.append(e)
            return o
        def __iter__(self): return iter(list(self.els))
        def __len__(self): return len(self.els)
        def __contains__(self, x): return at(self.els, x) >= 0
        def transient(self): return TSet(self.els)
        def add(self, x): return PSet(self.els + [x])
        def discard(self, x): return PSet([e for e in self.els if not eq(e, x)])
        def clear(self): return PSet()
    class TSet(A.TransientSet):
        def __new__(cls, arg=()):
            o = object.__new__(cls)
            o.els = []
            for e in arg: o.add(e)
            return o
        def __iter__(self): return iter(self.els)
        def __len__(self): return len(self.els)
        def __contains__(self, x): return at(self.els, x) >= 0
        def add(self, x):
            if at(self.els, x) < 0: self.els.append(x)
        def discard(self, x):
            i = at(self.els, x)
            if i >= 0: del self.els[i]
        def persistent(self): return PSet(self.els)
        def clear(self): self.els.clear()
    def pairs_of(arg):
        return arg.items() if hasattr(arg, 'items') else arg
    class PMap(A.PersistentMapping):
        def __new__(cls, arg=()):
            o = object.__new__(cls)
            _put(o, 'r', RDict(ctx, pairs_of(arg)))
            return o
        def __len__(self): return len(self.r)
        def __iter__(self): return iter(self.r.keys())
        def __getitem__(self, k): return self.r.getitem(k)
        def transient(self): return TMap(self.r.kv)
        def set(self, k, v):
            m = PMap(self.r.kv); m.r.set(k, v); return m
        def drop(self, k):
            m = PMap(self.r.kv); m.r.drop(k); return m
        def clear(self): return PMap()
    class TMap(A.TransientMapping):
        def __new__(cls, arg=()):
            o = object.__new__(cls)
            o.r = RDict(ctx, pairs_of(arg))
            return o
        def __len__(self): return len(self.r)
        def __iter__(self): return iter(self.r.keys())
        def __getitem__(self, k): return self.r.getitem(k)
        def __setitem__(self, k, v): self.r.set(k, v)
        def __delitem__(self, k): self.r.delete(k)
        def persistent(self): return PMap(self.r.kv)
        def clear(self): self.r.kv.clear()
    return types.SimpleNamespace(PSeq=PSeq, TSeq=TSeq, PSet=PSet, TSet=TSet, PMap=PMap, TMap=TMap)


# ---------------------------------------------------------------------------
# Sequences

def find(ctx, l, x, lo=0, hi=None):
    for i in range(*slice(lo, hi).indices(len(l))):
        if l[i] is x or bool(ctx.equal(l[i], x)): return i
    raise ValueError('not in list')

def seq_operand(ctx, C, els, how):
    if how in ('PSeq', 'TSeq'): return getattr(C, how)(els)
    return as_operand(ctx, els, how)

@harness
def seq(ctx, kind, n, op):
    """One inherited method of a sequence."""
    C = classes(ctx)
    K = getattr(C, kind)
    pers = kind == 'PSeq'
    els = wide_els(ctx, n) if n > 8 else [ctx.elem(f'e{i}') for i in range(n)]
    p = K(els)
    r = list(els)
    def result(obs, exp, label=op):
        """obs: what the library's method did; exp: an edit of the list r, or its outcome."""
        if pers:
            ctx.same_outcome(obs, exp, label, lambda a, b: observe_list(ctx, a, r, label, 'PSeq'))
            observe_list(ctx, p, els, label + ': the original', 'PSeq')
        else:
            ctx.same_outcome(obs, exp, label)
            observe_list(ctx, p, r, label, 'TSeq')
    if op == 'drop':
        i = ctx.int('i', -BIG, BIG)
        obs = ctx.attempt(lambda: p.drop(i))
        k = ridx(i, n)
        if -n <= k < n: del r[k]
        result(obs, ('ok', None))
    elif op == 'pop':
        i = ctx.int('i', -BIG, BIG)
        if ctx.bool('default'):
            obs = ctx.attempt(lambda: p.pop()); exp = ctx.attempt(lambda: r.pop())
        else:
            obs = ctx.attempt(lambda: p.pop(i)); exp = ctx.attempt(lambda: r.pop(ridx(i, n)))
        if obs[0] == 'ok' and exp[0] == 'ok':
            v = obs[1]
            if pers: (v, q) = v; obs = ('ok', q)
            ctx.check(ctx.same(v, exp[1]), 'pop: item')
        result(obs, exp)
    elif op == 'remove':
        x = ctx.elem('x')
        obs = ctx.attempt(lambda: p.remove(x))
        result(obs, ctx.attempt(lambda: r.__delitem__(find(ctx, r, x))))
    elif op == 'sort':
        rev = bool(ctx.bool('reverse'))
        if n <= 8 and ctx.bool('key'):
            ks = {id(e): ctx.int(f'key{i}', 0, 3) if i < 8 else i % 3 for (i, e) in enumerate(els)}
            key = lambda e: ks[id(e)]
            for (i, e) in enumerate(els):
                for e2 in els[:i]: ctx.assume(ctx.not_(ctx.same(e, e2)))
        else: key = None
        obs = ctx.attempt(lambda: p.sort(key=key, reverse=rev))
        result(obs, ctx.attempt(lambda: r.sort(key=key, reverse=rev)))
    elif op == 'reverse':
        obs = ctx.attempt(lambda: p.reverse())
        result(obs, ctx.attempt(lambda: r.reverse()))
    elif op == 'extend':
        how = ctx.pick('how', ['list', 'gen', 'PSeq', 'TSeq', 'plist', 'self'])
        xs = els if how == 'self' else [ctx.elem('x0'), ctx.elem('x1')]
        arg = p if how == 'self' else seq_operand(ctx, C, xs, how)
        obs = ctx.attempt(lambda: p.extend(arg))
        result(obs, ctx.attempt(lambda: r.extend(list(xs))))
    elif op in ('count', 'index', 'in'):
        x = ctx.elem('x')
        if op == 'count':
            ctx.check(p.count(x) == sum(1 for e in els if e is x or bool(ctx.equal(e, x))), 'count')
        elif op == 'in':
            ctx.check(bool(x in p) == any(e is x or bool(ctx.equal(e, x)) for e in els), 'in')
        else:
            (lo, hi) = (anyint(ctx, 'lo', n), anyint(ctx, 'hi', n))
            form = ctx.choice('form', 3)
            (f, g) = ((rbound(lo, n), rbound(hi, n)))
            if form == 0: obs = ctx.attempt(lambda: p.index(x)); exp = ctx.attempt(lambda: find(ctx, r, x))
            elif form == 1: obs = ctx.attempt(lambda: p.index(x, lo)); exp = ctx.attempt(lambda: find(ctx, r, x, f))
            else: obs = ctx.attempt(lambda: p.index(x, lo, hi)); exp = ctx.attempt(lambda: find(ctx, r, x, f, g))
            ctx.same_outcome(obs, exp, 'index', lambda a, b: ctx.check(a == b, 'index', lambda: f'{a} expected {b}'))
        result(('ok', p), ('ok', None))
    elif op == 'reversed':
        ctx.same_seq(list(reversed(p)), r[::-1], 'reversed')
        result(('ok', p), ('ok', None))
    elif op == 'copy':
        q = p.copy()
        observe_list(ctx, q, els, 'copy', kind)
        if not pers:
            q.append(ctx.distinct(7))
        observe_list(ctx, p, els, 'copy: the original', kind)
    elif op in ('add', 'radd', 'iadd'):
        how = ctx.pick('how', ['list', 'bad', 'empty'] if op == 'radd' else
                       ['list', 'PSeq', 'self', 'bad', 'empty'] + (['TSeq'] if not pers else []))
        xs = {'self': els, 'empty': []}.get(how) if how in ('self', 'empty') else [ctx.elem('x0'), ctx.elem('x1')]
        if how == 'bad': arg = 7
        elif how == 'self': arg = p
        elif how == 'empty': arg = []
        else: arg = seq_operand(ctx, C, xs, how)
        if op == 'radd':
            obs = ctx.attempt(lambda: arg + p)
            e = ('err', 'TypeError') if how == 'bad' else ('ok', list(xs) + r)
        else:
            f = operator.add if op == 'add' else operator.iadd
            obs = ctx.attempt(lambda: f(p, arg))
            e = ('err', 'TypeError') if how == 'bad' else ('ok', r + list(xs))
        list_result(ctx, obs, e, op, kind)
        if op == 'iadd' and not pers and how != 'bad':
            ctx.check(obs[1] is p, '+= gives the sequence itself')
        else: observe_list(ctx, p, els, op + ': the original', kind)
    elif op in ('mul', 'rmul', 'imul'):
        k = ctx.int('k', -2, 3)
        f = {'mul': lambda: p * k, 'rmul': lambda: k * p, 'imul': lambda: operator.imul(p, k)}[op]
        obs = ctx.attempt(f)
        list_result(ctx, obs, ('ok', r * ctx.concrete(k)), op, kind)
        if op == 'imul' and not pers: ctx.check(obs[1] is p, '*= gives the sequence itself')
        else: observe_list(ctx, p, els, op + ': the original', kind)
    elif op == 'order':
        how = ctx.pick('how', ['list', 'PSeq', 'TSeq', 'plist'])
        m = ctx.choice('m', 3)
        ys = [ctx.elem(f'y{i}') for i in range(m)]
        if n > 8:
            ys = els[:n - m] + ys
            m = n
        q = seq_operand(ctx, C, ys, how)
        k = 0
        while k < min(n, m) and bool(ctx.equal(els[k], ys[k])): k += 1
        for (s, f) in ORDER.items():
            obs = ctx.attempt(lambda: f(p, q))
            exp = bool(f(els[k], ys[k])) if k < min(n, m) else f(n, m)
            ctx.check(obs[0] == 'ok', s + ' (raises)', lambda: repr(obs))
            ctx.check(bool(obs[1]) == exp, s)
        same = k == n == m
        ctx.check(bool(p == q) == same, '==')
        ctx.check(bool(p != q) == (not same), '!=')
        if pers and how == 'PSeq' and same: ctx.check(ctx.eqint(ctx.hash(p), ctx.hash(q)), 'hash')
    elif op == 'immutable':
        TE = ('err', 'TypeError')
        for (what, f) in (('p[0] = 1', lambda: p.__setitem__(0, 1)), ('del p[0]', lambda: p.__delitem__(0)),
                          ('p.els = 1', lambda: setattr(p, 'els', 1)), ('del p.els', lambda: delattr(p, 'els'))):
            ctx.check(ctx.attempt(f) == TE, what)
        observe_list(ctx, p, els, 'immutable', kind)
    elif op == 'reduce':
        (f, args) = p.__reduce__()
        observe_list(ctx, f(*args), els, 'reduce', kind)
    else: raise AssertionError(op)
    ctx.reached(op)


# ---------------------------------------------------------------------------
# Sets

def set_operand(ctx, C, xs, how):
    if how in ('PSet', 'TSet'): return getattr(C, how)(xs)
    return as_operand(ctx, xs, how)

SMETHODS = {'union': 'or', 'intersection': 'and', 'difference': 'sub', 'symmetric_difference': 'xor'}
SUPDATES = {'update': 'or', 'intersection_update': 'and', 'difference_update': 'sub',
            'symmetric_difference_update': 'xor'}

@harness
def sets(ctx, kind, n, op, m=1):
    C = classes(ctx)
    pers = kind == 'PSet'
    els = wide_els(ctx, n) if n > 8 else [ctx.elem(f'e{i}') for i in range(n)]
    s = getattr(C, kind)(els)
    r = RSet(ctx, els)
    orig = r.copy()
    x = ctx.elem('x') if n <= 8 or op == 'remove' else wide_els(ctx, n)[1]
    def edited(obs, exp, label=op):
        """The outcome of an edit whose reference is r."""
        if pers:
            ctx.same_outcome(obs, exp, label, lambda a, b: observe_set(ctx, a, r, label, kind, x))
            observe_set(ctx, s, orig, label + ': the original', kind)
        else:
            ctx.same_outcome(obs, exp, label)
            observe_set(ctx, s, r, label, kind, x)
    def operand(hows):
        how = ctx.pick('how', hows)
        if how == 'self':
            box.extend(orig.els)
            return (s, orig, how)
        xs = [ctx.elem(f'x{i}') for i in range(m)]
        if n > 8: xs += els[n // 2:n // 2 + 2 + ctx.choice('run', 2) * n] + wide_els(ctx, n + 2)[n:]
        # a list may repeat its elements
        box.extend(RSet(ctx, xs).els if how in SETS else xs)
        return (set_operand(ctx, C, xs, how), RSet(ctx, xs), how)
    box = []
    SETS = ['PSet', 'TSet', 'set', 'frozenset', 'pset', 'self']
    if n > 8: SETS = ['PSet', 'set', 'pset', 'self']
    ANY = SETS + ['list', 'gen', 'tuple']
    if op == 'pop':
        obs = ctx.attempt(lambda: s.pop())
        if len(r) == 0: edited(obs, ('err', 'KeyError'))
        else:
            ctx.check(obs[0] == 'ok', 'pop (raises)', lambda: repr(obs))
            e = obs[1][0] if pers else obs[1]
            ctx.check(orig.has(e), 'pop gives a member')
            r.remove(e)
            edited(('ok', obs[1][1] if pers else None), ('ok', None))
    elif op == 'remove':
        obs = ctx.attempt(lambda: s.remove(x))
        edited(obs, ctx.attempt(lambda: r.remove(x)))
    elif op in ('addall', 'discardall', 'removeall'):
        (o, q, how) = operand(ANY)
        obs = ctx.attempt(lambda: getattr(s, op)(o))
        exp = ('ok', None)
        for e in box:
            if op == 'addall': r.add(e)
            elif op == 'discardall': r.discard(e)
            elif r.has(e): r.remove(e)
            else:
                exp = ('err', 'KeyError')
                break
        if op == 'removeall' and exp[0] == 'err':
            ctx.same_outcome(obs, exp, op)
            if pers: observe_set(ctx, s, orig, op + ': the original', kind)
        else: edited(obs, exp)
    elif op in BINOPS:
        (o, q, how) = operand(SETS)
        form = ctx.pick('form', ['left', 'right', 'inplace'])
        if form == 'left':
            (exp, obs) = (ref_op(ctx, orig, q, op), ctx.attempt(lambda: BINOPS[op](s, o)))
        elif form == 'right':
            (exp, obs) = (ref_op(ctx, q, orig, op), ctx.attempt(lambda: BINOPS[op](o, s)))
        else:
            (exp, obs) = (ref_op(ctx, orig, q, op), ctx.attempt(lambda: IOPS[op](s, o)))
        ctx.check(obs[0] == 'ok', f'{op} (raises)', lambda: repr(obs))
        observe_set(ctx, obs[1], exp, f'{op} {form}', kind if form != 'right' else None, x)
        if form == 'inplace' and not pers:
            ctx.check(obs[1] is s, f'{op}= gives the set itself')
        else: observe_set(ctx, s, orig, f'{op} {form}: the operand', kind)
    elif op in SMETHODS:
        (o, q, how) = operand(ANY)
        obs = ctx.attempt(lambda: getattr(s, op)(o))
        ctx.check(obs[0] == 'ok', f'{op} (raises)', lambda: repr(obs))
        observe_set(ctx, obs[1], ref_op(ctx, orig, q, SMETHODS[op]), op, kind, x)
        observe_set(ctx, s, orig, op + ': the original', kind)
    elif op in SUPDATES:
        (o, q, how) = operand(ANY)
        obs = ctx.attempt(lambda: getattr(s, op)(o))
        ctx.check(obs == ('ok', None), f'{op} (raises)', lambda: repr(obs))
        observe_set(ctx, s, ref_op(ctx, orig, q, SUPDATES[op]), op, kind, x)
    elif op == 'compare':
        (o, q, how) = operand(SETS)
        for (c, f) in CMPS.items():
            obs = ctx.attempt(lambda: f(s, o))
            ctx.check(obs[0] == 'ok', c + ' (raises)', lambda: repr(obs))
            ctx.check(bool(obs[1]) == ref_cmp(ctx, orig, q, c), c)
        if pers and how == 'PSet' and ref_cmp(ctx, orig, q, 'eq'):
            ctx.check(ctx.eqint(ctx.hash(s), ctx.hash(o)), 'hash')
        ctx.check(bool(s == 7) is False and bool(s != 7) is True, 'compared with a number')
    elif op == 'relations':
        (o, q, how) = operand(ANY[:-2] + ['tuple'])
        ctx.check(bool(s.isdisjoint(o)) == (not any(orig.has(e) for e in q.els)), 'isdisjoint')
        ctx.check(bool(s.issubset(o)) == ref_cmp(ctx, orig, q, 'le'), 'issubset')
        ctx.check(bool(s.issuperset(o)) == ref_cmp(ctx, orig, q, 'ge'), 'issuperset')
        observe_set(ctx, s, orig, op + ': the original', kind)
    elif op == 'copy':
        q = s.copy()
        observe_set(ctx, q, orig, 'copy', kind)
        if not pers: q.add(ctx.distinct(7))
        observe_set(ctx, s, orig, 'copy: the original', kind)
    elif op == 'reduce':
        (f, args) = s.__reduce__()
        observe_set(ctx, f(*args), orig, 'reduce', kind)
    elif op == 'immutable':
        TE = ('err', 'TypeError')
        for (what, f) in (('setattr', lambda: setattr(s, 'els', 1)), ('delattr', lambda: delattr(s, 'els'))):
            ctx.check(ctx.attempt(f) == TE, what)
        observe_set(ctx, s, orig, 'immutable', kind)
    else: raise AssertionError(op)
    ctx.reached(op)


# ---------------------------------------------------------------------------
# Mappings

@harness
def maps(ctx, kind, n, op):
    C = classes(ctx)
    pers = kind == 'PMap'
    pairs = [(e, j) for (j, e) in enumerate(wide_els(ctx, n))] if n > 8 else mk_pairs(ctx, n)
    d = getattr(C, kind)(pairs)
    r = RDict(ctx, pairs)
    orig = r.copy()
    k = ctx.elem('k')
    y = ctx.elem('y', special=True)
    def edited(obs, exp, label=op):
        if pers:
            ctx.same_outcome(obs, exp, label, lambda a, b: observe_dict(ctx, a, r, label, kind, k))
            observe_dict(ctx, d, orig, label + ': the original', kind)
        else:
            ctx.same_outcome(obs, exp, label)
            observe_dict(ctx, d, r, label, kind, k)
    def keyiter():
        ks = [ctx.elem('k0'), ctx.elem('k1') if n <= 8 else pairs[n // 2][0]]
        return (ks, as_operand(ctx, ks, ctx.pick('form', ['list', 'gen', 'plist'])))
    if op == 'read':
        observe_dict(ctx, d, orig, 'read', kind, k)
        ctx.eq_seq(list(d.keys()), orig.keys(), 'keys()')
        ctx.same_seq(list(d.values()), orig.values(), 'values()')
        its = list(d.items())
        ctx.eq_seq([a for (a, _) in its], orig.keys(), 'items()')
        ctx.same_seq([b for (_, b) in its], orig.values(), 'items()')
    elif op in ('pop', 'popdef'):
        obs = ctx.attempt(lambda: d.pop(k) if op == 'pop' else d.pop(k, y))
        if r.has(k): exp = ('ok', r.delete(k)[1])
        else: exp = ('err', 'KeyError') if op == 'pop' else ('ok', y)
        if obs[0] == 'ok' and exp[0] == 'ok':
            v = obs[1]
            if pers: (v, q) = v; obs = ('ok', q)
            ctx.check(ctx.same(v, exp[1]), op + ': value')
        edited(obs, exp)
    elif op == 'popmany':
        edited(ctx.attempt(lambda: d.pop(k, 1, 2)), ('err', 'TypeError'))
    elif op == 'popitem':
        obs = ctx.attempt(lambda: d.popitem())
        if len(r) == 0: exp = ('err', 'KeyError')
        else:
            ctx.check(obs[0] == 'ok', 'popitem (raises)', lambda: repr(obs))
            v = obs[1]
            if pers: (v, q) = v; obs = ('ok', q)
            ctx.check(r.has(v[0]), 'popitem: key')
            exp = ('ok', r.delete(v[0]))
            ctx.check(ctx.same(v[1], exp[1][1]), 'popitem: value')
        edited(obs, exp)
    elif op == 'setdefault':
        had = r.has(k)
        dv = None if ctx.bool('bare') else y
        obs = ctx.attempt(lambda: d.setdefault(k) if dv is None else d.setdefault(k, y))
        if not had: r.set(k, dv)
        if not pers:
            ctx.check(obs[0] == 'ok' and ctx.same(obs[1], r.get(k)), 'setdefault: value', lambda: repr(obs))
        edited(obs, ('ok', None))
    elif op == 'update':
        ks = [(ctx.elem('k0'), ctx.elem('v0')), (ctx.elem('k1') if n <= 8 else pairs[n // 2][0], ctx.elem('v1'))]
        how = ctx.pick('form', ['list', 'gen', 'PMap', 'TMap', 'pdict', 'kw', 'two'])
        if how == 'kw': f = lambda: d.update(ks, self=5, other=6)
        elif how == 'two': f = lambda: d.update(ks[:1], C.PMap(ks[1:]))
        elif how in ('PMap', 'TMap'): f = lambda: d.update(getattr(C, how)(ks))
        else: f = lambda: d.update(as_operand(ctx, ks, how))
        obs = ctx.attempt(f)
        for (a, b) in ks: r.set(a, b)
        if how == 'kw': r.set('self', 5); r.set('other', 6)
        edited(obs, ('ok', None))
    elif op == 'delete':
        obs = ctx.attempt(lambda: d.delete(k))
        edited(obs, ctx.attempt(lambda: r.delete(k)))
    elif op == 'setall':
        (ks, arg) = keyiter()
        vs = [ctx.elem('v0'), ctx.elem('v1'), ctx.elem('v2')][:1 + ctx.choice('nv', 3)]
        obs = ctx.attempt(lambda: d.setall(arg, vs))
        for (a, b) in zip(ks, vs): r.set(a, b)
        edited(obs, ('ok', None))
    elif op == 'dropall':
        (ks, arg) = keyiter()
        obs = ctx.attempt(lambda: d.dropall(arg))
        for a in ks: r.drop(a)
        edited(obs, ('ok', None))
    elif op == 'deleteall':
        (ks, arg) = keyiter()
        obs = ctx.attempt(lambda: d.deleteall(arg))
        exp = ('ok', None)
        for a in ks:
            if not r.has(a):
                exp = ('err', 'KeyError'); break
            r.delete(a)
        edited(obs, exp)
    elif op == 'equal':
        ps = mk_pairs(ctx, ctx.choice('m', 3), 'o')
        how = ctx.pick('how', ['PMap', 'TMap', 'pdict', 'self'])
        if n > 8: ps = pairs[:n - len(ps)] + ps
        o = d if how == 'self' else getattr(C, how)(ps) if how in ('PMap', 'TMap') else as_operand(ctx, ps, how)
        q = orig if how == 'self' else RDict(ctx, ps)
        eq = len(q) == len(orig) and all(q.has(a) and bool(ctx.equal(q.get(a), b)) for (a, b) in orig.kv)
        ctx.check(bool(d == o) == eq, '==')
        ctx.check(bool(d != o) == (not eq), '!=')
        if pers and how == 'PMap' and eq: ctx.check(ctx.eqint(ctx.hash(d), ctx.hash(o)), 'hash')
    elif op == 'copy':
        q = d.copy()
        observe_dict(ctx, q, orig, 'copy', kind)
        if not pers: q[ctx.distinct(7)] = 1
        observe_dict(ctx, d, orig, 'copy: the original', kind)
    elif op == 'reduce':
        (f, args) = d.__reduce__()
        observe_dict(ctx, f(*args), orig, 'reduce', kind)
    elif op == 'immutable':
        TE = ('err', 'TypeError')
        for (what, f) in (('setitem', lambda: d.__setitem__(k, 1)), ('delitem', lambda: d.__delitem__(k)),
                          ('setattr', lambda: setattr(d, 'r', 1)), ('delattr', lambda: delattr(d, 'r'))):
            ctx.check(ctx.attempt(f) == TE, what)
        observe_dict(ctx, d, orig, 'immutable', kind)
    else: raise AssertionError(op)
    ctx.reached(op)


# ---------------------------------------------------------------------------
# Comparison utilities

@harness
def setcmp(ctx, n, m, a, b):
    """-1, 0, 1, None (disjoint) or Ellipsis, for any two sets."""
    C = classes(ctx)
    mk = lambda xs, how: set_operand(ctx, C, xs, how)
    xs = [ctx.elem(f'x{i}') for i in range(n)]
    ys = [ctx.elem(f'y{i}') for i in range(m)]
    (s, t) = (mk(xs, a), mk(ys, b))
    (p, q) = (RSet(ctx, xs), RSet(ctx, ys))
    c = ctx.lib.util.setcmp(s, t)
    (sub, sup) = (ref_cmp(ctx, p, q, 'le'), ref_cmp(ctx, p, q, 'ge'))
    if sub and sup: exp = 0
    elif sub: exp = -1
    elif sup: exp = 1
    elif any(q.has(e) for e in p.els): exp = Ellipsis
    else: exp = None
    ctx.check(c is exp or (exp in (-1, 0, 1) and type(c) is int and c == exp), 'setcmp',
              lambda: f'{c!r} expected {exp!r}: {p.els!r} {q.els!r}')
    ctx.reached(f'setcmp {exp}')


@harness
def seqcmp(ctx, n, m, a, b):
    """-1, 0 or 1, for any two sequences."""
    C = classes(ctx)
    xs = [ctx.elem(f'x{i}') for i in range(n)]
    ys = [ctx.elem(f'y{i}') for i in range(m)]
    (p, q) = (seq_operand(ctx, C, xs, a), seq_operand(ctx, C, ys, b))
    k = 0
    while k < min(n, m):
        if not bool(ctx.equal(xs[k], ys[k])) and (bool(xs[k] < ys[k]) or bool(ys[k] < xs[k])): break
        k += 1
    if k < min(n, m): exp = -1 if bool(xs[k] < ys[k]) else 1
    else: exp = (n > m) - (n < m)
    c = ctx.lib.util.seqcmp(p, q)
    ctx.check(c == exp, 'seqcmp', lambda: f'{c!r} expected {exp!r}: {xs!r} {ys!r}')
    ctx.reached(f'seqcmp {exp}')


@harness
def wide_cmp(ctx, name, a, b, n):
    """setcmp and seqcmp of larger collections that differ in any one place."""
    C = classes(ctx)
    els = [ctx.distinct(200 + 2 * i) for i in range(n + 2)]
    if n <= 20 or name == 'seqcmp': y = ctx.elem('y')
    else: y = ctx.pick('y', [ctx.distinct(500), els[0], els[n - 2], els[n + 1]])
    at = ctx.pick('at', [0, n // 2, n - 1])
    how = ctx.pick('how', ['one', 'shorter', 'longer', 'other'])
    xs = els[:n]
    ys = list(xs)
    if how == 'one': ys[at] = y
    elif how == 'shorter': del ys[at]
    elif how == 'longer': ys.append(y)
    elif name == 'setcmp':
        ys = [ctx.distinct(300 + i) for i in range(n)]
        ys[at] = y
    else: ys[at:] = ys[at:][::-1]
    f = getattr(ctx.lib.util, name)
    if name == 'setcmp':
        (s, t) = (set_operand(ctx, C, xs, a), set_operand(ctx, C, ys, b))
        (p, q) = (RSet(ctx, xs), RSet(ctx, ys))
        (sub, sup) = (ref_cmp(ctx, p, q, 'le'), ref_cmp(ctx, p, q, 'ge'))
        exp = 0 if sub and sup else -1 if sub else 1 if sup else \
            Ellipsis if any(q.has(e) for e in p.els) else None
    else:
        (s, t) = (seq_operand(ctx, C, xs, a), seq_operand(ctx, C, ys, b))
        m = min(n, len(ys))
        k = 0
        while k < m:
            if not bool(ctx.equal(xs[k], ys[k])) and (bool(xs[k] < ys[k]) or bool(ys[k] < xs[k])): break
            k += 1
        if k < m: exp = -1 if bool(xs[k] < ys[k]) else 1
        else: exp = (n > len(ys)) - (n < len(ys))
    for (u, v, e) in ((s, t, exp), (t, s, -exp if type(exp) is int else exp)):
        c = f(u, v)
        ctx.check(c is e or (type(e) is int and c == e), 'larger ' + name, lambda: f'{c!r} expected {e!r}')
    ctx.reached(f'{name} {exp}')


@harness
def badcmp(ctx, name):
    """Operands of other types are refused with TypeError."""
    f = getattr(ctx.lib.util, name)
    good = ctx.lib.pset([1]) if name == 'setcmp' else ctx.lib.plist([1])
    for bad in (7, None, {1: 2}, ctx.lib.plist([1]) if name == 'setcmp' else ctx.lib.pset([1])):
        ctx.check(ctx.attempt(lambda: f(good, bad)) == ('err', 'TypeError'), name + ' right operand')
        ctx.check(ctx.attempt(lambda: f(bad, good)) == ('err', 'TypeError'), name + ' left operand')


SEQ = ('drop', 'pop', 'remove', 'sort', 'reverse', 'extend', 'count', 'index', 'in', 'reversed', 'copy', 'add',
       'radd', 'iadd', 'mul', 'rmul', 'imul', 'order', 'reduce')
SET = ('pop', 'remove', 'addall', 'discardall', 'removeall', 'compare', 'relations', 'copy', 'reduce') \
    + tuple(BINOPS) + tuple(SMETHODS)
MAP = ('read', 'pop', 'popdef', 'popmany', 'popitem', 'setdefault', 'update', 'equal', 'copy', 'reduce')
PMAP = ('delete', 'setall', 'dropall', 'deleteall', 'immutable')

def jobs(tier):
    th = tier == 'thorough'
    out = []
    s = 400 if th else 60
    for kind in ('PSeq', 'TSeq'):
        for op in SEQ + (('immutable',) if kind == 'PSeq' else ()):
            if op == 'drop' and kind == 'TSeq': continue
            for n in range(5 if th else 4):
                out.append(Job(W + '.seq', kind=kind, n=n, op=op, cost=n, seconds=s))
    for kind in ('PSet', 'TSet'):
        for op in SET + (tuple(SUPDATES) if kind == 'TSet' else ('immutable',)):
            for n in range(4 if th else 3):
                for m in (range(4 if th else 3) if op in ('compare', 'relations') or op in BINOPS
                          or op in SMETHODS or op in SUPDATES else (2,)):
                    out.append(Job(W + '.sets', kind=kind, n=n, op=op, m=m, cost=n + m, seconds=s))
    for kind in ('PMap', 'TMap'):
        for op in MAP + (PMAP if kind == 'PMap' else ()):
            for n in range(4 if th else 3):
                out.append(Job(W + '.maps', kind=kind, n=n, op=op, cost=2 * n, seconds=s))
    n = 12
    for kind in ('PSeq', 'TSeq'):
        for op in SEQ:
            if op == 'drop' and kind == 'TSeq': continue
            out.append(Job(W + '.seq', kind=kind, n=n, op=op, cost=3, seconds=s))
    for kind in ('PSet', 'TSet'):
        for op in SET + (tuple(SUPDATES) if kind == 'TSet' else ()):
            out.append(Job(W + '.sets', kind=kind, n=n, op=op, m=1, cost=3, seconds=s))
    for kind in ('PMap', 'TMap'):
        for op in MAP + (PMAP if kind == 'PMap' else ()):
            out.append(Job(W + '.maps', kind=kind, n=n, op=op, cost=3, seconds=s))
    ks = ('PSet', 'TSet', 'set', 'pset', 'tset')
    for a in ks:
        for b in ks:
            if a in ('set', 'TSet') and b in ('set', 'TSet') and not th: continue
            for n in range(4 if th else 3):
                for m in range(4 if th else 3):
                    out.append(Job(W + '.setcmp', n=n, m=m, a=a, b=b, seconds=s))
    ks = ('PSeq', 'list', 'tuple', 'plist', 'tlist')
    for a in ks:
        for b in ks:
            for n in range(4 if th else 3):
                for m in range(4 if th else 3):
                    out.append(Job(W + '.seqcmp', n=n, m=m, a=a, b=b, seconds=s))
    for (name, ks) in (('setcmp', ('PSet', 'set', 'pset', 'tset')), ('seqcmp', ('PSeq', 'list', 'plist', 'tlist'))):
        for a in ks:
            for b in ks:
                for n in (12, 34): out.append(Job(W + '.wide_cmp', name=name, a=a, b=b, n=n, cost=2, seconds=s))
    for name in ('setcmp', 'seqcmp'): out.append(Job(W + '.badcmp', name=name))
    return out
