"""The symbolic context: inputs become Z3 variables, checks become queries."""
import z3

from . import core, sym, stubs
from .core import SymInt, SymBool, UF_C, UF_H, UF_N, UF_R, UF_T, intvar, lin, lin_z3
from .harness import Base, Fault
from .sym import Elem, SymSlice, FaultPlan

HB = 2 ** 61 - 2


class _Names:
    def __init__(self, pkg): self.pkg = pkg
    def __getattr__(self, k): return getattr(self.pkg, k)


class Sym(Base):
    symbolic = True
    def __init__(self, pkg, ex):
        Base.__init__(self)
        self.lib = _Names(pkg)
        self.ex = ex
        FaultPlan.k = None; FaultPlan.n = 0
        stubs.COUNT.ops = 0
        self.pool = {}
        self.fresh = []
        self.soft = []
        Elem.NAN = False
    def _reg(self, name, kind, x):
        assert all(n != name for (n, _, _) in self.ex.inputs), name
        self.ex.inputs.append((name, kind, x))
    # -- inputs
    def int(self, name, lo=None, hi=None):
        v = intvar(name)
        if lo is not None: self.ex.assume(v >= lo)
        if hi is not None: self.ex.assume(v <= hi)
        self._reg(name, 'int', v)
        return v
    def choice(self, name, n):
        if n == 1: return 0
        v = intvar(name)
        self.ex.assume(v >= 0); self.ex.assume(v < n)
        self._reg(name, 'int', v)
        for i in range(n - 1):
            if v == i: return i
        return n - 1
    def bool(self, name): return bool(self.choice(name, 2))
    def elem(self, name, special=False, unorderable=False):
        if special and Elem.NAN == 2: special = 'like'      # may be equal to None
        oid = intvar('oid:' + name)
        z = lin_z3(*lin(oid))
        c = UF_C(z); h = UF_H(c)
        if special:
            cons = [z >= 0, z3.If(z < 2, c == z, z3.And(c >= 0, c != 1) if special == 'like' else c >= 2)]
        else:
            cons = [z >= 2, c >= 2]
        cons += [h >= -HB, h <= HB, h != -1]
        if Elem.NAN == 1 and 'v' in name: cons.append(z3.Not(UF_N(c)))
        elif Elem.NAN: cons.append(z3.Implies(c < 2, z3.Not(UF_N(c))))
        self.ex.assume(core.sbool(('z3', _memo(('elem', name, special, Elem.NAN), lambda: z3.And(*cons)))))
        e = Elem(oid, name, special, unorderable)
        self._reg(name, 'elem', e)
        if Elem.NAN == 2 or Elem.NAN and 'v' not in name:
            # An element is one of the earlier ones or another object, so that identity is known.
            for e2 in self.fresh:
                if oid == e2.oid: return e2
            self.fresh.append(e)
        return e
    def nans(self, which):
        """From here on, elements need not equal themselves (as NaN doesn't); with 1, values do."""
        Elem.NAN = which
    def distinct(self, i, h=None):
        oid = 1000000 + i
        e = self.pool.get(oid)
        if e is None:
            z = z3.IntVal(oid)
            self.ex.assume(core.sbool(('z3', _memo(('dist', i, h), lambda: z3.And(
                UF_C(z) == oid, UF_H(UF_C(z)) == (oid if h is None else h), UF_T(z),
                UF_R(UF_C(z)) == oid)))))
            e = _Distinct(oid, 'd%d' % i, oid if h is None else h)
            self.pool[oid] = e
        return e
    def text_elem(self, name, lo=0, hi=None):
        e = _Distinct(1002000 + len(self.pool), name, 5000 + len(self.pool))
        self.pool[e.oid] = e
        n = sym.toklen(str(sym.tok(e)))
        self.ex.assume(n >= lo)
        if hi is not None: self.ex.assume(n <= hi)
        self._reg(name, 'text', n)
        return e
    def text_len(self, s): return sym.text_len(s)
    def slice(self, a, b, c): return SymSlice(a, b, c)
    # -- statements
    def assume(self, c): self.ex.assume(c)
    def check(self, c, label, detail=None): self.ex.check(c, label)
    def same(self, a, b):
        if a is b: return True
        if isinstance(a, Elem) and isinstance(b, Elem): return a.oid == b.oid
        if isinstance(a, Elem) or isinstance(b, Elem): return sym.s_is(a, b)
        if isinstance(a, (SymInt, int)) and isinstance(b, (SymInt, int)):
            if isinstance(a, bool) != isinstance(b, bool): return False
            return a == b
        if isinstance(a, (str, bytes, float)) and type(a) is type(b): return a == b
        return False
    def equal(self, a, b):
        if isinstance(a, Elem) and isinstance(b, Elem):
            if a is b: return True
            c = a.cid() == b.cid()
            return core.sor(a.oid == b.oid, core.sand(c, core.snot(a.isnan()))) if Elem.NAN else c
        if isinstance(a, Elem) or isinstance(b, Elem):
            (k, FaultPlan.k) = (FaultPlan.k, None)
            try: return bool(a == b)
            finally: FaultPlan.k = k
        return a == b
    def cls_eq(self, a, b): return a.cid() == b.cid()
    def all_(self, bs): return core.sand(*bs)
    def any_(self, bs): return core.sor(*bs)
    def not_(self, b): return core.snot(b)
    def eqint(self, a, b): return a == b
    def hash(self, x): return sym.s_hash(x)
    def concrete(self, x): return x.conc() if type(x) is SymInt else x
    def isnone(self, x): return sym.s_is(x, None)
    # -- faults
    def faults(self, name, only=None):
        k = intvar(name)
        self.ex.assume(k >= -1)
        self._reg(name, 'int', k)
        FaultPlan.k = k; FaultPlan.n = 0; FaultPlan.only = only
    def nofaults(self): FaultPlan.k = None
    def fault_point(self, kind): sym.fault_point(kind)
    def ops(self): return stubs.COUNT.ops
    def prefer(self, *exprs):
        """Prefer counterexamples for which the first of these holds, else the second, ...
        (for a readable replay)."""
        xs = [core.to_z3(x.e) for x in exprs if isinstance(x, SymBool)]
        if xs: self.soft.append(xs)
    def extract(self, model):
        def ev(t):
            v = model.eval(t, model_completion=True)
            return v.as_long()
        out = {}
        for (name, kind, x) in self.ex.inputs:
            if kind == 'int':
                out[name] = ev(lin_z3(*lin(x)))
            elif kind == 'text':
                out[name] = {'oid': 0, 'len': ev(lin_z3(*lin(x)))}
            else:
                z = lin_z3(*lin(x.oid))
                c = UF_C(z)
                out[name] = {'oid': ev(z), 'cid': ev(c), 'h': ev(UF_H(c)), 'r': ev(UF_R(c)),
                             'n': Elem.NAN and z3.is_true(model.eval(UF_N(c), model_completion=True)),
                             't': z3.is_true(model.eval(UF_T(z), model_completion=True))}
        return out


class _Distinct(Elem):
    """An element that is known to differ from the other known ones."""
    __slots__ = ('h0',)
    def __init__(self, oid, name, h0):
        Elem.__init__(self, oid, name)
        self.h0 = h0
    def cid(self): return self.oid
    def shash(self): return self.h0
    def rank(self): return self.oid
    def isnan(self): return False


_MEMO = {}
def _memo(k, f):
    r = _MEMO.get(k)
    if r is None: r = _MEMO[k] = f()
    return r
