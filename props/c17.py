"""C17 Copy, pickle and JSON export reproduce the collection."""
import copy
import io
import json
import pickle

from .common import *
from .lazies import *

BOUNDS = ('collections of all ten kinds with 0-3 symbolic elements or 0-2 pairs (0-4 and 0-3 '
          'thorough), any list window start in [-2^60, 2^60], any pattern of equal elements and '
          'hashes, four set and dict histories, lazy items lazy or not; copy(), copy.copy, '
          'copy.deepcopy, pickle protocols 0-5 (elements pickled by reference), one level of nesting; '
          'JSON of lists and dicts of any integers, strings, None, booleans and nested lists'
          '; collections of 24 (40 thorough) distinct items')

W = 'c17'

LIST = ('plist', 'tlist', 'llist', 'tllist')
SET = ('pset', 'tset')
DICT = ('pdict', 'tdict', 'ldict', 'tldict')
PERSISTENT = ('plist', 'llist', 'pset', 'pdict', 'ldict')


def pickled(ctx, obj, proto, twin=None):
    """obj pickled and unpickled; elements are pickled by reference."""
    table = []
    twin = twin or (lambda e: e)
    elem = type(ctx.distinct(0))
    class P(pickle.Pickler):
        def persistent_id(self, o):
            if isinstance(o, elem) or type(o).__name__ in ('Elem', '_Distinct', 'K', 'SymInt'):
                table.append(o)
                return str(len(table) - 1)
            return None
    class U(pickle.Unpickler):
        def persistent_load(self, i): return twin(table[int(i)])
    f = io.BytesIO()
    P(f, proto).dump(obj)
    f.seek(0)
    return U(f).load()


class Any:
    """A collection of any kind with its reference, observed in order."""
    def __init__(self, ctx, kind, n, name='p'):
        self.ctx = ctx; self.kind = kind
        self.lz = lz = Lz(ctx, ('plain', 'lazy'))
        if kind in LIST:
            if kind in LISTS: (self.obj, self.ref) = mk_lazy_list(ctx, kind, lz, n, name)
            else:
                self.ref = mk_els(ctx, n, name, special=True)
                self.obj = mk_list(ctx, kind, self.ref, name, 'sym' if n <= 8 else (0, -3))
        elif kind in SET: (self.obj, self.ref) = mk_set(ctx, kind, n, name)
        elif kind in DICTS: (self.obj, self.ref) = mk_lazy_dict(ctx, kind, lz, n, name)
        else: (self.obj, self.ref) = mk_dict(ctx, kind, n, name)
        self.order = list(self.obj)
    def observe(self, obj, label):
        ctx = self.ctx
        if self.kind in LIST:
            observe_list(ctx, obj, [self.lz.value(r) for r in self.ref], label, self.kind)
        elif self.kind in SET:
            observe_set(ctx, obj, self.ref, label, self.kind)
            ctx.eq_seq(list(obj), self.order, label + ': order')
        else: observe_dict(ctx, obj, values_ref(ctx, self.lz, self.ref), label, self.kind)
    def edit(self, obj, label):
        """Edit a transient in place, then put it back as it was."""
        ctx = self.ctx
        x = ctx.distinct(77)
        if self.kind in LIST:
            obj.append(x)
            if len(self.ref): obj[0] = x
        elif self.kind in SET: obj.add(x)
        else:
            for (k, _) in self.ref.kv[:1]: obj[k] = x
            obj[x] = x


def equal_kinds(ctx, a, b, label):
    ctx.check(type(a) is type(b), label + ': type', lambda: f'{type(a)} expected {type(b)}')
    ctx.check(bool(a == b), label + ': equal', lambda: f'{a!r} expected {b!r}')
    ctx.check(bool(b == a), label + ': equal (reflected)')


@harness
def copies(ctx, kind, n, how):
    a = Any(ctx, kind, n)
    p = a.obj
    f = {'copy()': lambda: p.copy(), 'copy.copy': lambda: copy.copy(p),
         'copy.deepcopy': lambda: copy.deepcopy(p)}[how]
    q = f()
    if how == 'copy()' and kind in PERSISTENT: ctx.check(q is p, 'copy() of a persistent collection')
    a.observe(q, how)
    equal_kinds(ctx, q, p, how)
    if kind not in PERSISTENT:
        ctx.check(q is not p, how + ' of a transient is another object')
        a.edit(q, how)
        a.observe(p, how + ': original after an edit of the copy')
        q = f()
        a.edit(p, how)
        a.observe(q, how + ': copy after an edit of the original')
    else:
        a.observe(p, how + ': original')
        if kind not in ('plist', 'llist'):
            ctx.check(ctx.eqint(ctx.hash(q), ctx.hash(p)), how + ': hash')
    ctx.reached(how)


@harness
def pickling(ctx, kind, n, proto):
    a = Any(ctx, kind, n)
    p = a.obj
    q = pickled(ctx, p, proto)
    a.observe(q, 'unpickled')
    equal_kinds(ctx, q, p, 'unpickled')
    a.observe(p, 'original')
    if kind not in PERSISTENT:
        a.edit(q, 'unpickled')
        a.observe(p, 'original after an edit of the unpickled one')
    else: ctx.check(ctx.eqint(ctx.hash(q), ctx.hash(p)), 'hash of the unpickled one')
    # pickling again, and after computing
    a.observe(pickled(ctx, p, proto) if kind in PERSISTENT else p, 'pickled again')
    ctx.reached('pickled')


@harness
def rehashed(ctx, kind, n):
    """Unpickling in another interpreter, where the elements have other hashes."""
    a = Any(ctx, kind, n)
    pairs = []
    def twin(e):
        if not isinstance(e, type(ctx.distinct(0)).__mro__[-2]): return e
        for (x, t) in pairs:
            if bool(ctx.equal(x, e)): return t
        t = ctx.elem(f't{len(pairs)}')
        for (_, u) in pairs: ctx.assume(ctx.not_(ctx.equal(t, u)))
        pairs.append((e, t))
        return t
    q = pickled(ctx, a.obj, 4, twin)
    def back(t):
        for (x, u) in pairs:
            if u is t: return x
        return t
    label = 'unpickled with other hashes'
    if kind in SET:
        ctx.check(type(q).__name__ == kind and len(q) == len(a.ref), label)
        ctx.eq_seq([back(t) for t in q], a.order, label + ': order')
        for (x, t) in pairs: ctx.check(bool(t in q), label + ': in')
        for (x, t) in pairs[:1]:
            r = q.discard(t)
            r = q if r is None else r
            ctx.check(not (t in r) and len(r) == len(a.ref) - 1, label + ': discard')
    else:
        ctx.check(type(q).__name__ == kind and len(q) == len(a.ref), label)
        ctx.eq_seq([back(t) for t in q], a.order, label + ': order')
        for k in list(q):
            v = a.lz.value(a.ref.get(back(k)))
            r = ctx.attempt(lambda: q[k])
            ctx.check(r[0] == 'ok' and bool(ctx.equal(back(r[1]), v)), label + ': lookup',
                      lambda: f'{r!r} expected {v!r}')
            r = q.set(k, 5) if kind in PERSISTENT else ctx.attempt(lambda: q.update([(k, 5)])) and q
            ctx.check(len(r) == len(a.ref) and r[k] == 5, label + ': set')
            break
    ctx.reached('rehashed')


@harness
def wide_rehashed(ctx, kind, n):
    """A larger collection unpickled where the elements have other hashes."""
    a = Any(ctx, kind, n)
    els = [e for h in ('spread', 'shared') for e in wide_els(ctx, n, h)]
    how = ctx.pick('hashes2', ['spread', 'shared', 'one'])
    twins = [ctx.distinct(8000 + i, h=HASHES[how](2 * n - i)) for i in range(len(els))]
    def twin(e):
        for (x, t) in zip(els, twins):
            if x is e: return t
        return e
    def back(t):
        for (x, u) in zip(els, twins):
            if u is t: return x
        return t
    q = pickled(ctx, a.obj, 4, twin)
    label = 'unpickled with other hashes'
    ctx.check(type(q).__name__ == kind and len(q) == len(a.ref), label)
    ctx.eq_seq([back(t) for t in q], a.order, label + ': order')
    t = list(q)
    for x in t: ctx.check(x in q, label + ': in')
    for x in t[::2]:
        if kind in SET: r = q.discard(x)
        elif kind in PERSISTENT: r = q.drop(x)
        else: r = q.pop(x)
        if kind in PERSISTENT: q = r
    ctx.check([y is x for (x, y) in zip(t[1::2], list(q))] == [True] * (len(t) // 2) and
              len(q) == len(t) // 2, label + ': after removing every other item')
    if kind in DICT:
        for x in t[1::2]:
            v = a.lz.value(a.ref.get(back(x)))
            ctx.check(ctx.same(back(q[x]), v), label + ': lookup')


@harness
def fresh(ctx, kind):
    """What is unpickled can be edited like any other collection."""
    a = Any(ctx, kind, 2)
    if kind not in LIST: ctx.assume(len(a.ref) > 0)
    q = pickled(ctx, a.obj, 4)
    x = ctx.elem('x')
    if kind in LIST:
        vals = [a.lz.value(r) for r in a.ref]
        if kind in PERSISTENT: r = q.append(x).prepend(x).delete(1)
        else:
            r = q
            r.append(x); r.prepend(x); del r[1]
        observe_list(ctx, r, [x] + vals[1:] + [x], 'edits of an unpickled list', kind)
    elif kind in SET:
        ref = a.ref.copy()
        ref.add(x); ref.discard(a.ref.els[0])
        y = a.ref.els[0]
        if kind in PERSISTENT: r = q.add(x).discard(y)
        else:
            r = q
            r.add(x); r.discard(y)
        observe_set(ctx, r, ref, 'edits of an unpickled set', kind)
    else:
        ref = values_ref(ctx, a.lz, a.ref)
        ref.set(x, 0)
        y = a.ref.kv[0][0] if len(a.ref) else x
        ref.drop(y)
        if kind in PERSISTENT: r = q.set(x, 0).drop(y)
        else:
            r = q
            r[x] = 0
            del r[y]
        observe_dict(ctx, r, ref, 'edits of an unpickled dict', kind)


@harness
def nested(ctx, outer, inner, how):
    """Collections of collections."""
    L = ctx.lib
    a = Any(ctx, inner, 1, 'a')
    def wrap(o):
        if outer in LIST: return getattr(L, outer)([o, o])
        return getattr(L, outer)([('x', o), ('y', o)])
    p = wrap(a.obj)
    q = {'copy': lambda: copy.copy(p), 'deep': lambda: copy.deepcopy(p),
         'pickle': lambda: pickled(ctx, p, 4)}[how]()
    ctx.check(type(q) is type(p) and len(q) == 2, 'nested ' + how)
    (i, j) = (0, 1) if outer in LIST else ('x', 'y')
    a.observe(q[i], 'nested ' + how)
    a.observe(q[j], 'nested ' + how)
    if how == 'copy': ctx.check(q[i] is a.obj, 'a shallow copy holds the same items')
    elif how != 'copy' and inner not in PERSISTENT:
        ctx.check(q[i] is not a.obj, 'a deep copy does not share mutable items')
        ctx.check(q[i] is q[j], 'shared items stay shared')
    ctx.check(p[i] is a.obj and p[j] is a.obj, 'original after ' + how)


LEAVES = ('int', 'str', 'none', 'bool', 'list', 'dict', 'float')

def leaf(ctx, name, lz=None):
    t = ctx.pick(name + '.t', LEAVES)
    if t == 'int': return ctx.int(name, -BIG, BIG)
    return {'str': 'a"' + name + '\u00e9', 'none': None, 'bool': True, 'float': 1.5, 'list': [1, [2], name],
            'dict': {'u': [name], 'v': None}}[t]


def wide_leaves(ctx, n):
    """Values of a larger document, any one of them any integer."""
    v = ['a"b', 1, None, True, 1.5, [1, [2], 'u'], {'u': ['x'], 'v': None}, '']
    vals = [v[i % len(v)] for i in range(n)]
    vals[ctx.pick('at', [0, n // 2, n - 1])] = ctx.int('i', -BIG, BIG)
    return vals


def snap(ctx, doc, exp, label):
    if ctx.symbolic:
        def same(a, b):
            if isinstance(b, dict):
                return isinstance(a, dict) and list(a) == list(b) \
                    and all(same(a[k], b[k]) for k in b)
            if isinstance(b, (list, tuple)):
                return isinstance(a, list) and len(a) == len(b) \
                    and all(same(x, y) for (x, y) in zip(a, b))
            return bool(ctx.same(a, b))
        ctx.check(hasattr(doc, 'o') and same(doc.o, exp), label)
    else:
        ctx.check(doc == json.dumps(exp), label, lambda: f'{doc!r} expected {json.dumps(exp)!r}')


@harness
def json_list(ctx, kind, n):
    if n > 8: vals = wide_leaves(ctx, n)
    else: vals = [leaf(ctx, f'e{i}') for i in range(n)]
    lz = Lz(ctx, ('plain', 'lazy'))
    raws = [lz.item(f'r{i}', v=v, st=('plain', 'lazy')[i % 2] if n > 8 else None) if kind in LISTS and v is not None else v
            for (i, v) in enumerate(vals)]
    p = mk_list(ctx, kind, raws, window='sym' if n <= 8 else (0, -3))
    snap(ctx, p.__json__(), vals, '__json__ of a list')
    snap(ctx, p.__json__(), vals, '__json__ of a list, again')
    observe = list(p)
    ctx.check(len(observe) == n, 'list after __json__')


@harness
def json_dict(ctx, kind, n, edit):
    L = ctx.lib
    if n > 8:
        keys = [f'key{i * 7 % 31}' for i in range(n)]
        some = (keys[0], keys[n // 2], keys[-1], 'z')
        vals = wide_leaves(ctx, n)
    else:
        keys = [ctx.pick(f'k{i}', ('a', 'b', 'c')) for i in range(n)]
        some = ('a', 'b', 'c', 'z')
        vals = None
    lz = Lz(ctx, ('plain', 'lazy'))
    ref = {}
    pairs = []
    for (i, k) in enumerate(keys):
        v = vals[i] if vals else leaf(ctx, f'e{i}')
        pairs.append((k, lz.item(f'r{i}', v=v, st=('plain', 'lazy')[i % 2] if vals else None) if kind in DICTS and v is not None else v))
        ref[k] = v
    d = getattr(L, PERSD[kind])(pairs)
    if edit:
        k = ctx.pick('x', some)
        if edit == 'drop': d = d.drop(k); ref.pop(k, None)
        else: d = d.set(k, 7); ref[k] = 7
    if kind not in PERSISTENT: d = d.transient()
    snap(ctx, d.__json__(), ref, '__json__ of a dict')
    snap(ctx, d.__json__(), ref, '__json__ of a dict, again')


@harness
def json_keys(ctx, kind):
    """Keys that JSON turns into strings."""
    ref = {1: 'a', None: 'b', 2.5: 'c', 'x': ctx.int('v', -BIG, BIG)}
    d = getattr(ctx.lib, kind)(ref)
    snap(ctx, d.__json__(), ref, '__json__ of a dict')


TYPED = ('b', 'a', 'int', None, Ellipsis, True, 1.5, ('t', 1), '', 0, 'lazy', frozenset((1,)), b'x')

@harness
def typed(ctx, kind, how, n):
    """Elements and keys of the usual types."""
    vals = []
    lz = Lz(ctx)
    for i in range(n):
        # the first two in full, further ones from what two cannot show
        v = ctx.pick(f'e{i}', TYPED if i < 2 else ('a', 'b', None))
        vals.append(ctx.int(f'i{i}', -BIG, BIG) if v == 'int' and type(v) is str else v)
    if kind in DICT:
        # keys by identity of their type, so that 1, True and 1.0 stay apart
        pairs = [('k' + chr(ord('z') - i) if i % 2 == 0 else vals[i], vals[i]) for i in range(n)]
        for (i, (k, _)) in enumerate(pairs): ctx.assume(not ctx.symbolic or type(k).__name__ != 'SymInt')
        ctx.assume(all(type(k) is not int or k == 0 for (k, _) in pairs))
        seen = []
        ps = []
        for (k, v) in pairs:
            if any(type(x) is type(k) and x == k for x in seen): continue
            seen.append(k); ps.append((k, v))
        p = getattr(ctx.lib, kind)(ps)
        get = lambda q: list(q.items())
        exp = ps
    elif kind in SET:
        ctx.assume(not any(type(v).__name__ == 'SymInt' or (type(v) is int and v != 0) for v in vals))
        p = getattr(ctx.lib, kind)(vals)
        get = list
        exp = []
        for v in vals:
            if not any(type(x) is type(v) and x == v for x in exp): exp.append(v)
    else:
        p = getattr(ctx.lib, kind)(vals)
        get = list
        exp = vals
    q = {'copy': lambda: copy.copy(p), 'deepcopy': lambda: copy.deepcopy(p),
         'pickle': lambda: pickled(ctx, p, 4), 'pickle0': lambda: pickled(ctx, p, 0)}[how]()
    ctx.check(type(q) is type(p), how + ': type')
    got = get(q)
    def same(a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(same(x, y) for (x, y) in zip(a, b))
        return type(a) is type(b) and bool(a == b)
    ctx.check(len(q) == len(exp) == len(got), how + ': len', lambda: f'{got!r} expected {exp!r}')
    ctx.check(all(same(a, b) for (a, b) in zip(got, exp)), how + ': contents in order',
              lambda: f'{got!r} expected {exp!r}')
    ctx.check(bool(q == p), how + ': equal')
    ctx.reached(how)


def jobs(tier):
    th = tier == 'thorough'
    out = []
    s = 600 if th else 60
    for kind in LIST + SET + DICT:
        top = (3 if th else 2) if kind not in LIST else (4 if th else 3)
        for n in range(top + 1):
            for how in ('copy()', 'copy.copy', 'copy.deepcopy'):
                out.append(Job(W + '.copies', kind=kind, n=n, how=how, cost=n, seconds=s))
            for proto in range(6) if th or n == 1 else (4,) if n else (2, 5):
                out.append(Job(W + '.pickling', kind=kind, n=n, proto=proto, cost=n, seconds=s))
        for how in ('copy', 'deepcopy', 'pickle', 'pickle0') if th else ('copy', 'pickle'):
            for n in (1, 2, 3) if th or kind in ('plist', 'tdict', 'pdict') else (2,):
                out.append(Job(W + '.typed', kind=kind, how=how, n=n, seconds=s))
        if kind not in LIST:
            for n in range(1, top + 1): out.append(Job(W + '.rehashed', kind=kind, n=n, cost=3, seconds=s))
        out.append(Job(W + '.fresh', kind=kind, seconds=s, cost=2))
    for n in (24,) if not th else (12, 24, 40):
        for kind in LIST + SET + DICT:
            for how in ('copy()', 'copy.copy', 'copy.deepcopy'):
                out.append(Job(W + '.copies', kind=kind, n=n, how=how, cost=2, seconds=s))
            for proto in (0, 2, 4, 5):
                out.append(Job(W + '.pickling', kind=kind, n=n, proto=proto, cost=2, seconds=s))
        for kind in LIST: out.append(Job(W + '.json_list', kind=kind, n=n, seconds=s))
        for kind in DICT:
            for edit in ('', 'set', 'drop'):
                out.append(Job(W + '.json_dict', kind=kind, n=n, edit=edit, seconds=s))
        for kind in DICT + SET:
            out.append(Job(W + '.wide_rehashed', kind=kind, n=n, seconds=s))
    for outer in ('plist', 'tlist', 'llist', 'pdict', 'tdict', 'tldict'):
        for inner in LIST + SET + DICT:
            for how in ('copy', 'deep', 'pickle'):
                out.append(Job(W + '.nested', outer=outer, inner=inner, how=how))
    for kind in LIST:
        for n in range(4 if th else 3): out.append(Job(W + '.json_list', kind=kind, n=n, seconds=s))
    for kind in DICT:
        for n in range(4 if th else 3):
            for edit in ('', 'set', 'drop'):
                if n == 0 and edit: continue
                out.append(Job(W + '.json_dict', kind=kind, n=n, edit=edit, seconds=s))
        out.append(Job(W + '.json_keys', kind=kind))
    return out
