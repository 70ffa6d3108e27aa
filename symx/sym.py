"""Symbolic mode: elements, slices, shims for builtins, and the loader that
brings /repo's current source into the engine."""
import ast
import builtins
import importlib.abc
import importlib.util
import itertools
import json
import numbers
import operator
import os
import sys

import z3

from . import core, rt, stubs
from .core import SymInt, SymBool, apply_uf, UF_C, UF_H, UF_N, UF_R, UF_T
from .harness import Fault

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = '_sx_pcollections'


class Mode:
    @staticmethod
    def is_symint(x): return type(x) is SymInt
    @staticmethod
    def canon(k):
        if type(k) is not SymInt: return (k, k)
        (t, c) = core.EX.subst(k.t, k.c)
        if not t: return (c, c)
        return (SymInt(t, c), (t, c))
    @staticmethod
    def tick(): core.EX.step()


# ---------------------------------------------------------------------------
# Elements: arbitrary objects.  oid is the object's identity; objects with equal
# C(oid) are equal; H gives the hash and R the sort rank of an equality class; T
# the truth value of an object.  oid 0 is None and oid 1 is Ellipsis.

class FaultPlan:
    """Raise Fault at the k-th call of __eq__/__hash__/next (k symbolic)."""
    k = None
    n = 0
    only = None
def fault_point(kind):
    k = FaultPlan.k
    if k is None: return
    if FaultPlan.only is not None and kind not in FaultPlan.only: return
    n = FaultPlan.n
    FaultPlan.n = n + 1
    if bool(k == n): raise Fault('injected in ' + kind)


class Elem:
    __slots__ = ('oid', 'name', 'special', 'unorderable', '__weakref__')
    def __init__(self, oid, name, special=False, unorderable=False):
        self.oid = oid; self.name = name; self.special = special
        self.unorderable = unorderable
    def cid(self): return apply_uf(UF_C, 'C', self.oid)
    def rank(self): return apply_uf(UF_R, 'R', self.cid())
    NAN = False          # whether there are elements that do not equal themselves
    def isnan(self): return core.sbool(('z3', UF_N(core.lin_z3(*core.lin(self.cid())))))
    def shash(self): return apply_uf(UF_H, 'H', self.cid())
    def __getattribute__(self, k):
        if k == '__hash__':
            e = self
            def h():
                fault_point('hash')
                return object.__getattribute__(e, 'shash')()
            return h
        return object.__getattribute__(self, k)
    def _eq(self, o):
        if isinstance(o, Elem):
            if o is not self and not bool(self.cid() == o.cid()): return False
            return not (Elem.NAN and bool(self.isnan()))
        if self.special:
            if o is None: return bool((self.cid() if self.special == 'like' else self.oid) == 0)
            if o is Ellipsis: return bool(self.oid == 1)
        return None
    def __eq__(self, o):
        if isinstance(o, Elem): fault_point('eq')
        r = self._eq(o)
        return NotImplemented if r is None else r
    def __ne__(self, o):
        if isinstance(o, Elem): fault_point('eq')
        r = self._eq(o)
        return NotImplemented if r is None else not r
    def _cmp(self, o, sym, f):
        if not isinstance(o, Elem): return NotImplemented
        if self.unorderable or o.unorderable:
            # two equal elements of an unorderable kind
            raise TypeError(f"'{sym}' not supported")
        fault_point('lt')
        return bool(f(self.rank(), o.rank()))
    def __lt__(self, o): return self._cmp(o, '<', operator.lt)
    def __gt__(self, o): return self._cmp(o, '>', operator.gt)
    def __le__(self, o): return self._cmp(o, '<=', operator.le)
    def __ge__(self, o): return self._cmp(o, '>=', operator.ge)
    def __bool__(self):
        return bool(core.sbool(('z3', UF_T(core.lin_z3(*core.lin(self.oid))))))
    def __hash__(self):
        fault_point('hash')
        return 0
    def __repr__(self): return tok(self)
    def __str__(self): return tok(self)
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


# Text of symbolic length: a unique token for each element.
TOKLEN = {}           # token -> SymInt or int length

class TokStr(str):
    __slots__ = ()

def tok(e):
    t = '\x01' + e.name + '\x02'
    return TokStr(t)

def toklen(t):
    n = TOKLEN.get(t)
    if n is None:
        n = core.intvar('len:' + t[1:-1])
        TOKLEN[t] = n
    core.EX.assume(n >= 0)
    return n

def text_len(s):
    """The length of a text that may hold tokens."""
    if '\x01' not in s: return str.__len__(s)
    n = 0
    i = 0
    while True:
        j = s.find('\x01', i)
        if j < 0: return n + (str.__len__(s) - i)
        k = s.find('\x02', j)
        n = n + (j - i) + toklen(str(s[j:k + 1]))
        i = k + 1


class SymSlice:
    """A slice whose fields may be symbolic."""
    __slots__ = ('start', 'stop', 'step')
    def __init__(self, start, stop, step):
        self.start = start; self.stop = stop; self.step = step
    def indices(self, n):
        step = 1 if self.step is None else s_index(self.step)
        if bool(step == 0): raise ValueError('slice step cannot be zero')
        neg = bool(step < 0)
        (lower, upper) = (-1, n - 1) if neg else (0, n)
        def clamp(v, dflt):
            if v is None: return dflt
            v = s_index(v)
            if bool(v < 0):
                v = v + n
                if bool(v < lower): v = lower
            elif bool(v > upper): v = upper
            return v
        start = clamp(self.start, upper if neg else lower)
        stop = clamp(self.stop, lower if neg else upper)
        return (start, stop, step)
    def __eq__(self, o): raise core.Unsupported('comparison of slices')
    __hash__ = None
    def __repr__(self): return 'slice(...)'


class SymRange:
    __slots__ = ('a', 'b', 's')
    def __init__(self, *args):
        args = [s_index(x) for x in args]
        if len(args) == 1: (a, b, s) = (0, args[0], 1)
        elif len(args) == 2: (a, b, s) = (args[0], args[1], 1)
        else: (a, b, s) = args
        if bool(s == 0): raise ValueError('range() arg 3 must not be zero')
        self.a = a; self.b = b; self.s = s
    start = property(lambda self: self.a)
    stop = property(lambda self: self.b)
    step = property(lambda self: self.s)
    def __iter__(self):
        (x, b, s) = (self.a, self.b, self.s)
        if bool(s > 0):
            while bool(x < b):
                rt.tick()
                yield x
                x = x + s
        else:
            while bool(x > b):
                rt.tick()
                yield x
                x = x + s
    def _list(self): return list(iter(self))
    def __reversed__(self): return reversed(self._list())
    def __len__(self):
        if self.s == 1 or self.s == -1:
            d = (self.b - self.a) * self.s
            return int(d) if bool(d > 0) else 0
        return len(self._list())
    def __getitem__(self, k): return self._list()[k]
    def __contains__(self, x):
        for y in self:
            if bool(x == y): return True
        return False
    def __bool__(self):
        return bool(self.a < self.b) if bool(self.s > 0) else bool(self.a > self.b)


# ---------------------------------------------------------------------------
# Shims

def s_range(*args):
    for a in args:
        if type(a) is SymInt: return SymRange(*args)
    return range(*args)


def s_enumerate(it, start=0):
    if type(start) is SymInt:
        def g():
            i = start
            for x in it:
                yield (i, x)
                i = i + 1
        return g()
    return enumerate(it, start)


def s_index(x):
    if type(x) is SymInt: return x
    return operator.index(x)


def s_len(x):
    if isinstance(x, str): return text_len(x)
    f = getattr(type(x), '__len__', None)
    if f is None or isinstance(x, (list, tuple, dict, set, frozenset, bytes, range)):
        return len(x)
    r = f(x)
    if type(r) is SymInt:
        if bool(r < 0): raise ValueError('__len__() should return >= 0')
        return r
    return len(x) if not isinstance(r, int) or r < 0 else int(r)


def s_hash(x):
    if isinstance(x, Elem):
        fault_point('hash')
        return x.shash()
    t = type(x)
    if t is SymInt: return x
    if t is tuple:
        acc = len(x)
        for e in x:
            acc = apply_uf(core.uf('HT', 2), 'HT', acc, s_hash(e))
        return acc
    if t is frozenset:
        acc = 0
        for e in x:
            acc = acc + apply_uf(core.uf('HFe', 1), 'HFe', s_hash(e))
        return apply_uf(core.uf('HF', 1), 'HF', acc)
    if isinstance(x, (str, bytes, int, float)): return hash(x)
    f = t.__hash__
    if f is None: raise TypeError(f"unhashable type: '{t.__name__}'")
    return f(x)


def s_iseq(a, b, orig):
    """x is y or x == y: for elements, their equality (unless some do not equal themselves)."""
    if isinstance(a, Elem) and isinstance(b, Elem) and not Elem.NAN and FaultPlan.k is None:
        return True if a is b else bool(a.cid() == b.cid())
    return orig()

def s_is(a, b):
    if a is b: return True
    if isinstance(a, Elem):
        if isinstance(b, Elem): return bool(a.oid == b.oid)
        if a.special:
            if b is None: return bool(a.oid == 0)
            if b is Ellipsis: return bool(a.oid == 1)
        return False
    if isinstance(b, Elem): return s_is(b, a) if not isinstance(a, Elem) else False
    if type(a) is SymInt or type(b) is SymInt:
        if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)) \
           and not isinstance(a, bool) and not isinstance(b, bool):
            return bool(a == b)
        return False
    if type(a) is SymBool: a = bool(a)
    if type(b) is SymBool: b = bool(b)
    return a is b

def s_isnot(a, b): return not s_is(a, b)


def s_isinstance(x, c):
    t = type(x)
    if t is SymInt: return issubclass(int, c)
    if t is SymSlice: return issubclass(slice, c)
    if t is SymBool: return issubclass(bool, c)
    if t is SymRange: return issubclass(range, c)
    if t is Elem and c is Elem: return True
    return isinstance(x, c)


def s_type(*args):
    if len(args) == 1:
        t = type(args[0])
        if t is SymInt: return int
        if t is SymSlice: return slice
        if t is SymBool: return bool
        if t is SymRange: return range
        return t
    return type(*args)


def s_int(*args):
    if len(args) == 1 and type(args[0]) is SymInt: return args[0]
    return int(*args)

def s_slice(*args):
    if not any(type(a) is SymInt for a in args): return slice(*args)
    if len(args) == 1: args = (None,) + args
    return SymSlice(*(args + (None,) * (3 - len(args))))

def s_bool(*args): return bool(*args)

def s_sum(it, start=0):
    acc = start
    for x in it: acc = acc + x
    return acc

def s_tuple_len(x): return len(x)


class _Proxy:
    def __init__(self, mod, **over):
        self.__dict__['_mod'] = mod
        self.__dict__.update(over)
    def __getattr__(self, k): return getattr(self._mod, k)


def s_islice(it, *args):
    if not any(type(a) is SymInt for a in args): return itertools.islice(it, *args)
    return _islice(it, *args)

def _islice(it, *args):
    if len(args) == 1: (a, b, s) = (0, args[0], 1)
    elif len(args) == 2: (a, b, s) = (args[0], args[1], 1)
    else: (a, b, s) = args
    a = 0 if a is None else a
    s = 1 if s is None else s
    if bool(a < 0) or (b is not None and bool(b < 0)) or bool(s < 1):
        raise ValueError('Indices for islice() must be None or an integer: 0 <= x')
    nxt = a
    i = 0
    it = iter(it)
    while b is None or bool(nxt < b):
        # skip to nxt
        while bool(i < nxt):
            try: next(it)
            except StopIteration: return
            i += 1
        try: x = next(it)
        except StopIteration: return
        i += 1
        yield x
        nxt = nxt + s
    # itertools.islice consumes up to stop
    while b is not None and bool(i < b):
        try: next(it)
        except StopIteration: return
        i += 1


class JsonDoc:
    """What json.dumps was asked to export (a snapshot)."""
    def __init__(self, o): self.o = o

def _jsnap(o, sort=False, default=None):
    if isinstance(o, dict):
        items = list(o.items())
        if sort:
            if not all(type(k) is str for (k, _) in items) and len(items) > 1:
                raise core.Unsupported('json.dumps sort_keys with other keys than strings')
            items.sort(key=lambda kv: kv[0])
        return {k: _jsnap(v, sort, default) for (k, v) in items}
    if isinstance(o, (list, tuple)): return [_jsnap(x, sort, default) for x in o]
    if isinstance(o, (SymInt, str, int, float)) or o is None or isinstance(o, Elem): return o
    f = getattr(o, '__json__', None)
    if default is not None: return _jsnap(default(o), sort, default)
    if f is not None: raise core.Unsupported('nested __json__')
    raise TypeError(f'Object of type {type(o).__name__} is not JSON serializable')

def s_dumps(o, *a, **k):
    sort = k.pop('sort_keys', False)
    default = k.pop('default', None)
    usual = {'skipkeys': False, 'ensure_ascii': True, 'check_circular': True, 'allow_nan': True,
             'cls': None, 'indent': None, 'separators': None}
    if a or any(k[x] is not usual.get(x, k) for x in k): raise core.Unsupported('json.dumps options')
    return JsonDoc(_jsnap(o, sort, default))


_phamt = None
def phamt_module():
    global _phamt
    if _phamt is None:
        import types
        _phamt = types.ModuleType('phamt')
        _phamt.PHAMT = stubs.PHAMT; _phamt.THAMT = stubs.THAMT
        _phamt.__version__ = 'stub'
    return _phamt

PROXIES = {
    'itertools': _Proxy(itertools, islice=s_islice),
    'operator': _Proxy(operator, index=s_index, is_=s_is, is_not=s_isnot),
    'json': _Proxy(json, dumps=s_dumps),
}
EXTRA = {}     # further replacements a harness asks for (e.g. threading)

def s_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name == 'phamt': return phamt_module()
        if name in EXTRA: return EXTRA[name]
        if name in PROXIES: return PROXIES[name]
    return builtins.__import__(name, globals, locals, fromlist, level)


BUILTINS = dict(vars(builtins))
BUILTINS.update(len=s_len, hash=s_hash, range=s_range, isinstance=s_isinstance,
                enumerate=s_enumerate, sum=s_sum, __import__=s_import,
                __sx_is__=s_is, __sx_iseq__=s_iseq, __sx_isnot__=s_isnot, __sx_type__=s_type,
                __sx_int__=s_int, __sx_slice__=s_slice, __sx_tick__=lambda: rt.tick())


def _plain(e):
    if isinstance(e, (ast.Name, ast.Constant)): return True
    if isinstance(e, ast.Subscript): return _plain(e.value) and isinstance(e.slice, ast.Constant)
    return False

def _is_eq_pair(a, b):
    """`x is y` and `x == y` (or `y == x`), of which the meaning is one condition."""
    if not (isinstance(a, ast.Compare) and isinstance(b, ast.Compare)): return False
    if len(a.ops) != 1 or len(b.ops) != 1: return False
    if not isinstance(a.ops[0], ast.Is) or not isinstance(b.ops[0], ast.Eq): return False
    es = [a.left, a.comparators[0], b.left, b.comparators[0]]
    if not all(map(_plain, es)): return False
    (p, q, r, s) = map(ast.dump, es)
    return (p, q) in ((r, s), (s, r))

class Rewrite(ast.NodeTransformer):
    """Lets identity tests, type() and int() see symbolic values, and counts
    loop iterations.  Nothing else about the code changes."""
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            f = '__sx_is__' if isinstance(node.ops[0], ast.Is) else '__sx_isnot__'
            return ast.copy_location(
                ast.Call(ast.Name(f, ast.Load()), [node.left, node.comparators[0]], []), node)
        return node
    def visit_BoolOp(self, node):
        pair = None
        if isinstance(node.op, ast.Or):
            for i in range(len(node.values) - 1):
                if _is_eq_pair(node.values[i], node.values[i + 1]): pair = i; break
        if pair is None:
            self.generic_visit(node)
            return node
        (a, b) = node.values[pair:pair + 2]
        (x, y) = (a.left, a.comparators[0])
        orig = ast.copy_location(ast.BoolOp(ast.Or(), [a, b]), a)
        self.generic_visit(orig)
        args = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
        call = ast.copy_location(ast.Call(ast.Name('__sx_iseq__', ast.Load()),
                                          [x, y, ast.Lambda(args, orig)], []), a)
        rest = node.values[:pair] + [call] + node.values[pair + 2:]
        if len(rest) == 1: return call
        node.values = [call if v is call else self.visit(v) for v in rest]
        return node
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and not node.keywords and len(node.args) == 1 \
           and not isinstance(node.args[0], ast.Starred):
            if node.func.id in ('type', 'int'):
                node.func = ast.copy_location(
                    ast.Name('__sx_' + node.func.id + '__', ast.Load()), node.func)
        if isinstance(node.func, ast.Name) and node.func.id == 'slice':
            node.func = ast.copy_location(ast.Name('__sx_slice__', ast.Load()), node.func)
        return node
    def _loop(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(ast.Call(ast.Name('__sx_tick__', ast.Load()), [], [])))
        return node
    visit_While = _loop
    visit_For = _loop
    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or (isinstance(node.type, ast.Name)
                                 and node.type.id == 'BaseException'):
            node.type = ast.copy_location(ast.Name('Exception', ast.Load()), node)
        return node


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name != PKG and not name.startswith(PKG + '.'): return None
        rel = name.split('.')[1:]
        base = os.path.join(REPO, 'pcollections', *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            f = os.path.join(base, '__init__.py')
            spec = importlib.util.spec_from_loader(name, self, origin=f, is_package=True)
            spec.submodule_search_locations = [base]
        elif os.path.exists(base + '.py'):
            f = base + '.py'
            spec = importlib.util.spec_from_loader(name, self, origin=f)
        else:
            return None
        spec.has_location = True
        return spec
    def create_module(self, spec): return None
    def exec_module(self, module):
        f = module.__spec__.origin
        with open(f, encoding='utf-8') as fh: src = fh.read()
        tree = ast.fix_missing_locations(Rewrite().visit(ast.parse(src, f)))
        code = compile(tree, f, 'exec', dont_inherit=True)
        module.__dict__['__builtins__'] = BUILTINS
        exec(code, module.__dict__)

_installed = False
def load():
    """(Re)load the library under test from /repo's current source."""
    global _installed
    rt.mode = Mode
    if not _installed:
        sys.meta_path.insert(0, Finder())
        _installed = True
    for m in [m for m in sys.modules if m == PKG or m.startswith(PKG + '.')]:
        del sys.modules[m]
    mod = importlib.import_module(PKG)
    return mod
