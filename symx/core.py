"""Symbolic values and path exploration.

The library's own code is executed by CPython on the values defined here.  A
branch on a symbolic condition asks Z3 which outcomes are possible under the
path condition and explores every possible one (depth-first, by re-execution
from recorded decisions).  Assertions are decided by Z3 for all values that
follow the path.
"""
import time
import z3

from .harness import Hang

z3.set_param('smt.random_seed', 1)


class Abort(BaseException):
    """The current path ends here (infeasible, or cut)."""

class Unsupported(Abort):
    """The current path needs something the encoding does not model."""

class Budget(BaseException):
    """The current path exceeded its step budget (suspected non-termination)."""

class CheckFailed(BaseException):
    """An assertion failed on the current path (a counterexample exists)."""
    def __init__(self, label):
        super().__init__(label)
        self.label = label


# ---------------------------------------------------------------------------
# Terms.  An integer term is a linear form over atoms; atoms are interned and
# live as long as the process, so that re-execution finds the same ones.

ATOMS = {}        # structural key -> atom index
ATOM_Z3 = []      # atom index -> z3 term
ATOM_KEY = []
_Z3LIN = {}       # (terms, const) -> z3 term

UF_C = z3.Function('C', z3.IntSort(), z3.IntSort())      # object -> equality class
UF_H = z3.Function('H', z3.IntSort(), z3.IntSort())      # equality class -> hash
UF_N = z3.Function('N', z3.IntSort(), z3.BoolSort())     # class of an object that is not equal to itself (NaN)
UF_T = z3.Function('T', z3.IntSort(), z3.BoolSort())     # object -> truth value
UF_R = z3.Function('R', z3.IntSort(), z3.IntSort())      # equality class -> rank
UF_F = {}


def uf(name, arity):
    k = (name, arity)
    if k not in UF_F:
        UF_F[k] = z3.Function(name, *([z3.IntSort()] * (arity + 1)))
    return UF_F[k]


def atom(key, mk):
    i = ATOMS.get(key)
    if i is None:
        i = len(ATOM_Z3)
        ATOMS[key] = i
        ATOM_KEY.append(key)
        ATOM_Z3.append(mk())
    return i


def lin_z3(terms, c):
    k = (terms, c)
    r = _Z3LIN.get(k)
    if r is None:
        parts = []
        for (a, co) in terms:
            t = ATOM_Z3[a]
            parts.append(t if co == 1 else co * t)
        if not parts:
            r = z3.IntVal(c)
        else:
            r = parts[0] if len(parts) == 1 else z3.Sum(parts)
            if c: r = r + c
        _Z3LIN[k] = r
    return r


def mk(terms, c):
    """An int if the linear form is constant, else a SymInt."""
    return SymInt(terms, c) if terms else c


def add_lin(t1, t2, k=1):
    if not t2: return t1
    d = dict(t1)
    for (a, co) in t2:
        v = d.get(a, 0) + k * co
        if v: d[a] = v
        else: d.pop(a, None)
    return tuple(sorted(d.items()))


def lin(x):
    if isinstance(x, SymInt): return (x.t, x.c)
    return ((), int(x))


EX = None      # the active explorer


class SymBool:
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def __bool__(self): return EX.branch(self.e)
    def __eq__(self, o):
        if isinstance(o, SymBool): return sbool(('z3', to_z3(self.e) == to_z3(o.e)))
        if o is True: return self
        if o is False: return snot(self)
        return NotImplemented
    __hash__ = None
    def __ne__(self, o): return snot(self == o)
    def __and__(self, o): return sand(self, o)
    __rand__ = __and__
    def __or__(self, o): return sor(self, o)
    __ror__ = __or__
    def __invert__(self): return snot(self)
    def __repr__(self): return '<symbool>'


def sbool(e):
    return SymBool(e)


_NEG = {}
def neg(e):
    tag = e[0]
    if tag == 'le':      # lin <= 0   ->   -lin + 1 <= 0
        return ('le', tuple((a, -c) for (a, c) in e[1]), 1 - e[2])
    if tag == 'not': return e[1]
    return ('not', e)


_TOZ3 = {}
def to_z3(e):
    if e is True or e is False: return z3.BoolVal(e)
    tag = e[0]
    if tag == 'z3': return e[1]
    r = _TOZ3.get(e)
    if r is None:
        if tag == 'le': r = lin_z3(e[1], e[2]) <= 0
        elif tag == 'eq': r = lin_z3(e[1], e[2]) == 0
        elif tag == 'not': r = z3.Not(to_z3(e[1]))
        elif tag == 'T': r = UF_T(lin_z3(e[1], e[2]))
        elif tag == 'bv': r = z3.Bool(e[1])
        else: raise AssertionError(tag)
        _TOZ3[e] = r
    return r


def snot(b):
    if isinstance(b, SymBool): return SymBool(neg(b.e))
    return not b

def sand(*bs):
    out = []
    for b in bs:
        if isinstance(b, SymBool): out.append(to_z3(b.e))
        elif not b: return False
    if not out: return True
    return SymBool(('z3', z3.And(*out) if len(out) > 1 else out[0]))

def sor(*bs):
    out = []
    for b in bs:
        if isinstance(b, SymBool): out.append(to_z3(b.e))
        elif b: return True
    if not out: return False
    return SymBool(('z3', z3.Or(*out) if len(out) > 1 else out[0]))

def simplies(a, b): return sor(snot(a), b)


def lin_le(t, c):
    """lin <= 0"""
    (t, c) = EX.subst(t, c)
    if not t: return c <= 0
    return SymBool(('le', t, c))

def lin_eq(t, c):
    (t, c) = EX.subst(t, c)
    if not t: return c == 0
    if t[0][1] < 0:
        t = tuple((a, -co) for (a, co) in t); c = -c
    return SymBool(('eq', t, c))


def _isint(x): return isinstance(x, (int, SymInt))


class SymInt:
    __slots__ = ('t', 'c')
    def __init__(self, t, c):
        self.t = t; self.c = c
    def conc(self):
        (t, c) = EX.subst(self.t, self.c)
        if not t: return c
        return EX.concretize(self)
    def __add__(self, o):
        if not _isint(o): return NotImplemented
        (t, c) = lin(o)
        return mk(add_lin(self.t, t), self.c + c)
    __radd__ = __add__
    def __sub__(self, o):
        if not _isint(o): return NotImplemented
        (t, c) = lin(o)
        return mk(add_lin(self.t, t, -1), self.c - c)
    def __rsub__(self, o):
        if not _isint(o): return NotImplemented
        return (-self) + o
    def __neg__(self): return mk(tuple((a, -k) for (a, k) in self.t), -self.c)
    def __pos__(self): return self
    def __abs__(self): return self if self >= 0 else -self
    def __invert__(self): return -self - 1
    def __mul__(self, o):
        if not _isint(o): return NotImplemented
        (t, c) = lin(o)
        if t:
            (t, c) = EX.subst(t, c)
            if t:
                (t1, c1) = EX.subst(self.t, self.c)
                if not t1: return mk(tuple((a, k * c1) for (a, k) in t), c * c1) if c1 else 0
                return _ufop('mul', self, o)
        if c == 0: return 0
        return mk(tuple((a, k * c) for (a, k) in self.t), self.c * c)
    __rmul__ = __mul__
    def __floordiv__(self, o):
        if isinstance(o, SymInt): o = o.conc()
        if not isinstance(o, int): return NotImplemented
        if o == 0: raise ZeroDivisionError('integer division or modulo by zero')
        (t, c) = EX.subst(self.t, self.c)
        if not t: return c // o
        if o < 0: return (-self) // (-o)
        z = lin_z3(t, c)
        return SymInt(((atom(('div', t, c, o), lambda: z / o), 1),), 0)
    def __mod__(self, o):
        q = self // o
        if q is NotImplemented: return q
        return self - q * o
    def __divmod__(self, o): return (self // o, self % o)
    def __rfloordiv__(self, o): return o // self.conc()
    def __rmod__(self, o):
        if isinstance(o, str): return NotImplemented
        return o % self.conc()
    def __pow__(self, o): return self.conc() ** (o.conc() if isinstance(o, SymInt) else o)
    def __lshift__(self, o): return self * (2 ** (o.conc() if isinstance(o, SymInt) else o))
    def __rshift__(self, o): return self // (2 ** (o.conc() if isinstance(o, SymInt) else o))
    def __xor__(self, o): return _ufop('xor', self, o)
    __rxor__ = __xor__
    def __and__(self, o): return _ufop('and', self, o)
    __rand__ = __and__
    def __or__(self, o): return _ufop('or', self, o)
    __ror__ = __or__
    def __truediv__(self, o): raise Unsupported('true division of a symbolic int')
    __rtruediv__ = __truediv__
    def __eq__(self, o):
        if not _isint(o): return NotImplemented
        (t, c) = lin(o)
        return lin_eq(add_lin(self.t, t, -1), self.c - c)
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)
    def __le__(self, o):
        if not _isint(o): return NotImplemented
        (t, c) = lin(o)
        return lin_le(add_lin(self.t, t, -1), self.c - c)
    def __lt__(self, o):
        if not _isint(o): return NotImplemented
        (t, c) = lin(o)
        return lin_le(add_lin(self.t, t, -1), self.c - c + 1)
    def __ge__(self, o):
        if not _isint(o): return NotImplemented
        (t, c) = lin(o)
        return lin_le(tuple((a, -k) for (a, k) in add_lin(self.t, t, -1)), c - self.c)
    def __gt__(self, o):
        if not _isint(o): return NotImplemented
        (t, c) = lin(o)
        return lin_le(tuple((a, -k) for (a, k) in add_lin(self.t, t, -1)), c - self.c + 1)
    def __bool__(self): return bool(self != 0)
    def __index__(self): return self.conc()
    def __int__(self): return self.conc()
    def __float__(self): raise Unsupported('float of a symbolic int')
    def __hash__(self): return hash(self.conc())
    def __repr__(self): return '<symint>'
    def __format__(self, spec): return '<symint>'
    def bit_length(self): return self.conc().bit_length()
    @property
    def real(self): return self
    @property
    def numerator(self): return self


def _ufop(name, a, b):
    if not (_isint(a) and _isint(b)): return NotImplemented
    (ta, ca) = EX.subst(*lin(a)); (tb, cb) = EX.subst(*lin(b))
    if not ta and not tb:
        import operator
        return {'xor': operator.xor, 'and': operator.and_, 'or': operator.or_,
                'mul': operator.mul}[name](ca, cb)
    ((ta, ca), (tb, cb)) = sorted([(ta, ca), (tb, cb)])
    f = uf('op_' + name, 2)
    EX.note('uninterpreted ' + name)
    return SymInt(((atom((name, ta, ca, tb, cb),
                         lambda: f(lin_z3(ta, ca), lin_z3(tb, cb))), 1),), 0)


def intvar(name):
    return SymInt(((atom(('v', name), lambda: z3.Int(name)), 1),), 0)


def apply_uf(f, name, *args):
    ls = tuple(EX.subst(*lin(a)) for a in args)
    return SymInt(((atom(('uf', name) + ls, lambda: f(*[lin_z3(*l) for l in ls])), 1),), 0)


# ---------------------------------------------------------------------------

class Stats(dict):
    def inc(self, k, n=1): self[k] = self.get(k, 0) + n


class Explorer:
    """Explores every feasible path of a harness."""
    def __init__(self, query_ms=20000, max_steps=60000, max_branches=6000):
        self.query_ms = query_ms
        self._reset_solver()     # stack: z3 assertions currently pushed
        self.last_exc = None
        self.stats = Stats()
        self.notes = {}
        self.max_steps = max_steps
        self.max_branches = max_branches
        self.dump = None         # list collecting (smt2 text, verdict) samples
        self.dump_every = 0
        self._begin([], None)

    def _reset_solver(self):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.query_ms)
        self.stack = []

    # -- path state
    def _begin(self, prefix, model):
        self.prefix = prefix
        self.ndec = 0
        self.path = []           # decisions taken
        self.asserts = []        # z3 exprs of this path in order
        self.sub = {}            # atom -> (terms, const)
        self.known = {}          # expr -> bool
        self.model = None
        self.start_model = model
        self.steps = 0
        self.work = []
        self.inputs = []         # (name, kind, data) registered by the context
        self.nfresh = 0

    def note(self, what): self.notes[what] = self.notes.get(what, 0) + 1

    def step(self, n=1):
        self.steps += n
        if self.steps > self.max_steps: raise Budget('step budget')

    # -- linear substitution from decided equalities
    def subst(self, t, c):
        sub = self.sub
        if not sub or not t: return (t, c)
        while True:
            hit = False
            for (a, k) in t:
                if a in sub:
                    hit = True
                    break
            if not hit: return (t, c)
            d = {}
            for (a, k) in t:
                r = sub.get(a)
                if r is None:
                    v = d.get(a, 0) + k
                    if v: d[a] = v
                    else: d.pop(a, None)
                else:
                    c += k * r[1]
                    for (b, kb) in r[0]:
                        v = d.get(b, 0) + k * kb
                        if v: d[b] = v
                        else: d.pop(b, None)
            t = tuple(sorted(d.items()))

    def _learn(self, e):
        """Record that e holds on this path."""
        self.known[e] = True
        self.known[neg(e)] = False
        if e[0] == 'eq':
            (t, c) = (e[1], e[2])
            for (a, k) in reversed(t):
                if (k == 1 or k == -1) and a not in self.sub:
                    # a = -(rest)/k
                    rest = tuple((b, -kb * k) for (b, kb) in t if b != a)
                    # avoid cycles: rest must not mention a through sub
                    (rt, rc) = self.subst(rest, -c * k)
                    if any(b == a for (b, _) in rt): continue
                    self.sub[a] = (rt, rc)
                    break

    def _assert(self, e):
        self._learn(e)
        z = to_z3(e)
        self.asserts.append(z)

    def _sync(self):
        """Bring the solver's stack in line with this path's assertions."""
        n = len(self.asserts)
        st = self.stack
        i = 0
        m = min(n, len(st))
        while i < m and (st[i] is self.asserts[i] or st[i].eq(self.asserts[i])): i += 1
        if len(st) > i:
            self.solver.pop(len(st) - i)
            del st[i:]
        for z in self.asserts[i:]:
            self.solver.push()
            self.solver.add(z)
            st.append(z)

    def query(self, z):
        """Is path condition and z satisfiable?  (verdict, model)"""
        self._sync()
        t0 = time.perf_counter()
        self.solver.push()
        self.solver.add(z)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if self.dump_every and self.stats.get('queries', 0) % self.dump_every == 0:
            self.dump.append((self.solver.sexpr(), str(r)))
        self.solver.pop()
        self.stats.inc('queries')
        self.stats.inc('solver_s', time.perf_counter() - t0)
        if r == z3.unknown: self.stats.inc('unknown')
        return (r, m)

    def _meval(self, e):
        if self.model is None: return None
        v = self.model.eval(to_z3(e), model_completion=True)
        if z3.is_true(v): return True
        if z3.is_false(v): return False
        return None

    def branch(self, e):
        """Decide the condition e on this path, forking when both are possible."""
        # normalise through the substitution
        if e[0] in ('le', 'eq'):
            (t, c) = self.subst(e[1], e[2])
            if not t: return (c <= 0) if e[0] == 'le' else (c == 0)
            if e[0] == 'eq' and t[0][1] < 0:
                t = tuple((a, -k) for (a, k) in t); c = -c
            e = (e[0], t, c)
        k = self.known.get(e)
        if k is not None: return k
        self.step()
        i = self.ndec
        self.ndec += 1
        if i < len(self.prefix):
            v = self.prefix[i]
            self.path.append(v)
            self._assert(e if v else neg(e))
            if i == len(self.prefix) - 1: self.model = self.start_model
            return v
        if i >= self.max_branches: raise Budget('branch budget')
        self.stats.inc('branches')
        ne = neg(e)
        mv = self._meval(e)
        (mt, mf) = (None, None)
        if mv is True:
            (rt, mt) = (z3.sat, self.model)
        else:
            (rt, mt) = self.query(to_z3(e))
        if mv is False:
            (rf, mf) = (z3.sat, self.model)
        elif rt == z3.unsat:
            (rf, mf) = (z3.sat, self.model)     # the path condition is satisfiable
        else:
            (rf, mf) = self.query(to_z3(ne))
        if rt == z3.unsat and rf == z3.unsat: raise Abort('infeasible')
        if rt != z3.unsat and rf != z3.unsat:
            self.work.append((self.path + [False], mf))
            v = True; self.model = mt
        elif rt != z3.unsat:
            v = True; self.model = mt
        else:
            v = False; self.model = mf
        self.path.append(v)
        self._assert(e if v else ne)
        return v

    def assume(self, b):
        if isinstance(b, SymBool):
            e = b.e
            if e[0] in ('le', 'eq'):
                (t, c) = self.subst(e[1], e[2])
                if not t:
                    if not ((c <= 0) if e[0] == 'le' else (c == 0)): raise Abort('assume')
                    return
                e = (e[0], t, c)
            k = self.known.get(e)
            if k is True: return
            if k is False: raise Abort('assume')
            inprefix = self.ndec < len(self.prefix)
            self._assert(e)
            if not inprefix:
                if self._meval(e) is not True:
                    (r, m) = self.query(z3.BoolVal(True))
                    if r == z3.unsat: raise Abort('assume')
                    self.model = m
        elif not b:
            raise Abort('assume')

    def check(self, b, label):
        self.stats.inc('checks')
        if isinstance(b, SymBool):
            e = b.e
            if e[0] in ('le', 'eq'):
                (t, c) = self.subst(e[1], e[2])
                if not t: b = (c <= 0) if e[0] == 'le' else (c == 0)
                else: e = (e[0], t, c)
            if isinstance(b, SymBool):
                k = self.known.get(e)
                if k is not None: b = k
        if isinstance(b, SymBool):
            if self.ndec < len(self.prefix): return      # decided on an earlier path
            (r, m) = self.query(to_z3(neg(e)))
            if r == z3.unsat:
                self.stats.inc('discharged'); return
            if r == z3.unknown:
                self.note('unknown verdict for ' + label); return
            self.model = m
            self._assert(neg(e))
            raise CheckFailed(label)
        if b:
            self.stats.inc('discharged'); return
        raise CheckFailed(label)

    def concretize(self, x, cap=64):
        """Fork over the possible values of a symbolic int."""
        (t, c) = self.subst(x.t, x.c)
        if not t: return c
        self.note('enumerated a symbolic int')
        self.step()
        z = lin_z3(t, c)
        i = self.ndec
        self.ndec += 1
        excl = ()
        if i < len(self.prefix):
            (_, excl, v) = self.prefix[i]
            if v is not None:
                self.path.append(self.prefix[i])
                self._assert(('eq', t, c - v) if t[0][1] > 0 else
                             ('eq', tuple((a, -k) for (a, k) in t), v - c))
                if i == len(self.prefix) - 1: self.model = self.start_model
                return v
            for w in excl: self.asserts.append(z != w)
            self.model = self.start_model
        if self.model is None:
            (r, self.model) = self.query(z3.BoolVal(True))
            if self.model is None: raise Abort('infeasible')
        v = self.model.eval(z, model_completion=True).as_long()
        excl2 = excl + (v,)
        if len(excl2) >= cap:
            self.note('more than %d values of a symbolic int; the rest was cut' % cap)
            self.stats.inc('abandoned')
        else:
            (r, m) = self.query(z != v)
            if r != z3.unsat: self.work.append((self.path + [('c', excl2, None)], m))
        self.path.append(('c', excl, v))
        self._assert(('eq', t, c - v) if t[0][1] > 0 else
                     ('eq', tuple((a, -k) for (a, k) in t), v - c))
        return v

    # -- the search
    def run(self, fn, on_path, deadline, max_paths=10**9):
        """Calls fn() once per path; on_path(kind, label) after each one.

        Returns True when the space was exhausted.
        """
        global EX
        prev = EX
        EX = self
        try:
            todo = [([], None)]
            while todo:
                if time.time() > deadline or self.stats.get('paths', 0) >= max_paths:
                    self.stats.inc('pending', len(todo))
                    return False
                (prefix, model) = todo.pop()
                self._begin(prefix, model)
                if not prefix:
                    (r, self.model) = self.query(z3.BoolVal(True))
                self.stats.inc('paths')
                (kind, label) = ('done', None)
                try:
                    fn()
                except CheckFailed as e:
                    (kind, label) = ('cex', e.label)
                except Unsupported as e:
                    (kind, label) = ('unsupported', str(e))
                    self.note('unsupported: ' + str(e)); self.stats.inc('abandoned')
                except Abort:
                    kind = 'infeasible'; self.stats.inc('infeasible')
                except Budget as e:
                    (kind, label) = ('budget', str(e))
                except Hang:
                    (kind, label) = ('budget', 'time per path')
                    self._reset_solver()
                except RecursionError as e:
                    (kind, label) = ('crash', 'RecursionError')
                except Exception as e:
                    (kind, label) = ('crash', type(e).__name__)
                    self.last_exc = e
                todo.extend(self.work)
                if on_path(kind, label): return False
            return True
        finally:
            EX = prev

    def solve_inputs(self, prefer):
        """A model of the current path; prefer is a list of lists of z3 exprs: of each list
        the first that is satisfiable becomes an additional (soft) constraint."""
        keep = []
        model = None
        for options in prefer:
            for x in options:
                (r, m) = self.query(z3.And(*(keep + [x])))
                if r == z3.sat:
                    keep.append(x); model = m
                    break
        if model is None:
            (r, model) = self.query(z3.BoolVal(True))
        return model
