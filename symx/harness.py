"""Harnesses, their contexts, and the reference collections (oracles).

A harness is a function of a context.  It takes its inputs from the context,
drives the library through its public API and states what must hold.  The same
harness runs in two modes: symbolically (symx.symctx) and, for one solver model
of every explored path and for every counterexample, concretely on the real
package with the real phamt (Conc, below).  This module does not import Z3.
"""
import sys
import functools
import signal


class Fault(Exception):
    """An exception injected into an element's __eq__/__hash__ or an iterator."""

class CheckError(BaseException):
    """An assertion failed in a concrete run."""
    def __init__(self, label, detail=''):
        super().__init__(label)
        self.label = label; self.detail = detail

class Skip(BaseException):
    """The inputs do not satisfy the harness's assumptions."""


HARNESSES = {}      # name -> function

def harness(fn):
    @functools.wraps(fn)
    def run(ctx, nans=0, **kw):
        if nans: ctx.nans(nans)
        return fn(ctx, **kw)
    HARNESSES[fn.__module__.split('.')[-1] + '.' + fn.__name__] = run
    return fn


# ---------------------------------------------------------------------------
# Concrete elements

class K:
    """A concrete element: identity, equality class, hash, truth and rank."""
    __slots__ = ('oid', 'cid', 'h', 't', 'r', 'n', 'ctx', 'unorderable', 'text', '__weakref__')
    def __eq__(self, o):
        if o is None and self.cid == 0: return True
        if type(o) is not K: return NotImplemented
        self.ctx.fault_point('eq')
        return self.cid == o.cid and not self.n
    def __ne__(self, o):
        if o is None and self.cid == 0: return False
        if type(o) is not K: return NotImplemented
        self.ctx.fault_point('eq')
        return self.cid != o.cid or self.n
    def __hash__(self):
        self.ctx.fault_point('hash')
        return self.h
    def __bool__(self): return self.t
    def _c(self, o, sym):
        if self.unorderable or o.unorderable: raise TypeError(f"'{sym}' not supported")
        self.ctx.fault_point('lt')
    def __lt__(self, o):
        if type(o) is not K: return NotImplemented
        self._c(o, '<'); return self.r < o.r
    def __gt__(self, o):
        if type(o) is not K: return NotImplemented
        self._c(o, '>'); return self.r > o.r
    def __le__(self, o):
        if type(o) is not K: return NotImplemented
        self._c(o, '<='); return self.r <= o.r
    def __ge__(self, o):
        if type(o) is not K: return NotImplemented
        self._c(o, '>='); return self.r >= o.r
    def __repr__(self):
        if self.text is not None: return self.text
        return f'K{self.oid}(={self.cid},#{self.h})'
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


class _Names:
    """Attribute access to the package's public names."""
    def __init__(self, pkg): self.pkg = pkg
    def __getattr__(self, k): return getattr(self.pkg, k)


class Base:
    """What both contexts share."""
    symbolic = False
    def __init__(self):
        self.log = []            # a readable trace of what was done
        self.counts = {}
    # -- outcomes
    def attempt(self, fn, *args, **kw):
        """('ok', result) or ('err', exception class name)."""
        try:
            r = fn(*args, **kw)
        except Exception as e:
            return ('err', type(e).__name__)
        return ('ok', r)
    def reached(self, what):
        self.counts[what] = self.counts.get(what, 0) + 1
    # -- comparisons
    def same_seq(self, obs, exp, label):
        """obs and exp hold the same objects in the same order."""
        obs = list(obs); exp = list(exp)
        self.check(len(obs) == len(exp), label + ' (length)',
                   lambda: f'{obs!r} expected {exp!r}')
        self.check(self.all_([self.same(a, b) for (a, b) in zip(obs, exp)]), label,
                   lambda: f'{obs!r} expected {exp!r}')
    def eq_seq(self, obs, exp, label):
        """obs and exp hold equal objects in the same order."""
        obs = list(obs); exp = list(exp)
        self.check(len(obs) == len(exp), label + ' (length)',
                   lambda: f'{obs!r} expected {exp!r}')
        self.check(self.all_([self.equal(a, b) for (a, b) in zip(obs, exp)]), label,
                   lambda: f'{obs!r} expected {exp!r}')
    def same_outcome(self, obs, exp, label, value=None):
        """Both raised the same error, or both returned and value(obs, exp)."""
        self.check(obs[0] == exp[0], label + ' (raises)',
                   lambda: f'{obs!r} expected {exp!r}')
        if obs[0] == 'err':
            self.check(obs[1] == exp[1], label + ' (error type)',
                       lambda: f'{obs!r} expected {exp!r}')
            return False
        if value is not None: value(obs[1], exp[1])
        return True
    def pick(self, name, options):
        """One of the options, whichever."""
        options = list(options)
        return options[self.choice(name, len(options))]


class Conc(Base):
    """Runs a harness on the real package with given inputs."""
    def __init__(self, pkg, inputs):
        Base.__init__(self)
        self.lib = _Names(pkg)
        self.inputs = inputs
        self.objs = {}
        self.missing = 0
        self.fault_k = None
        self.fault_n = 0
        self.fault_only = None
    def _get(self, name, default):
        if name in self.inputs: return self.inputs[name]
        self.missing += 1
        return default
    def int(self, name, lo=None, hi=None):
        v = self._get(name, 0 if lo is None else lo)
        if (lo is not None and v < lo) or (hi is not None and v > hi): raise Skip()
        self.log.append(f'{name} = {v}')
        return v
    def choice(self, name, n):
        v = self._get(name, 0)
        if not 0 <= v < n: raise Skip()
        return v
    def bool(self, name): return bool(self.choice(name, 2))
    def elem(self, name, special=False, unorderable=False):
        d = self._get(name, None)
        if d is None:
            d = {'oid': 100 + len(self.objs), 'cid': 100 + len(self.objs),
                 'h': len(self.objs), 't': True, 'r': len(self.objs)}
        if d['oid'] == 0: return None
        if d['oid'] == 1: return Ellipsis
        k = self.objs.get(d['oid'])
        if k is None:
            k = K()
            k.oid = d['oid']; k.cid = d['cid']; k.h = d['h']; k.t = bool(d['t'])
            k.r = d['r']; k.ctx = self; k.unorderable = unorderable
            k.text = d.get('text'); k.n = bool(d.get('n'))
            self.objs[d['oid']] = k
        self.log.append(f'{name} = {k!r}')
        return k
    def nans(self, which): pass
    def distinct(self, i, h=None):
        """The i-th of a family of concrete, distinct elements."""
        oid = 1000000 + i
        k = self.objs.get(oid)
        if k is None:
            k = K()
            k.oid = oid; k.cid = oid; k.h = oid if h is None else h; k.t = True
            k.r = oid; k.ctx = self; k.unorderable = False; k.text = None; k.n = False
            self.objs[oid] = k
        return k
    def text_elem(self, name, lo=0, hi=None):
        """An element whose repr and str have a given length."""
        d = self._get(name, None) or {'oid': 100 + len(self.objs), 'len': 1}
        n = d['len']
        if n < lo or (hi is not None and n > hi): raise Skip()
        k = self.distinct(2000 + len(self.objs))
        k.text = ((name + 'x' * n) if n >= len(name) else chr(97 + len(self.objs) % 26) * n)[:n]
        return k
    def text_len(self, s): return len(s)
    def slice(self, a, b, c): return slice(a, b, c)
    def assume(self, c):
        if not c: raise Skip()
    def check(self, c, label, detail=None):
        if not c:
            raise CheckError(label, detail() if callable(detail) else (detail or ''))
    def same(self, a, b): return a is b
    def equal(self, a, b):
        if type(a) is K and type(b) is K: return a is b or (a.cid == b.cid and not a.n)
        return a == b
    def prefer(self, *c): pass
    def cls_eq(self, a, b): return a.cid == b.cid
    def all_(self, bs): return all(bs)
    def any_(self, bs): return any(bs)
    def not_(self, b): return not b
    def eqint(self, a, b): return a == b
    def hash(self, x): return hash(x)
    def concrete(self, x): return x
    def isnone(self, x): return x is None
    # -- faults
    def faults(self, name, only=None):
        """Inject one Fault at some call of __eq__/__hash__/next (or none)."""
        self.fault_k = self._get(name, -1)
        self.fault_n = 0
        self.fault_only = only
    def nofaults(self): self.fault_k = None
    def fault_point(self, kind):
        k = self.fault_k
        if k is None: return
        if self.fault_only is not None and kind not in self.fault_only: return
        n = self.fault_n
        self.fault_n += 1
        if k == n: raise Fault('injected in ' + kind)
    # -- cost
    def ops(self):
        from . import stubs
        return stubs.COUNT.ops
    def template(self, kind, fn): return None


# ---------------------------------------------------------------------------
# Reference collections (oracles): built-in list, and a dict/set by equality.

def ridx(i, n):
    """A concrete index that a built-in list of length n treats like i."""
    if type(i) is int or not hasattr(i, 'conc'): return i
    if i >= n: return n if i == n else n + 3
    if i < -n: return -n - 3
    for k in range(-n, n):
        if i == k: return k
    raise AssertionError('unreachable')

def rstep(s, n):
    if s is None or type(s) is int: return s
    if s > n: return n + 1
    if s < -n: return -n - 1
    for k in range(-n, n + 1):
        if s == k: return k
    raise AssertionError('unreachable')

def rbound(b, n):
    """A concrete slice bound that a list of length n treats like b."""
    if b is None or type(b) is int: return b
    if b > n: return n + 1
    if b < -n: return -n - 1
    for k in range(-n, n + 1):
        if b == k: return k
    raise AssertionError('unreachable')


class RDict:
    """A dict by equality of keys, as an ordered list of pairs."""
    def __init__(self, ctx, pairs=()):
        self.ctx = ctx
        self.kv = []
        for (k, v) in pairs: self.set(k, v)
    def find(self, k):
        for (i, (kk, _)) in enumerate(self.kv):
            if kk is k or bool(self.ctx.equal(kk, k)): return i
        return -1
    def has(self, k): return self.find(k) >= 0
    def get(self, k, d=None):
        i = self.find(k)
        return d if i < 0 else self.kv[i][1]
    def getitem(self, k):
        i = self.find(k)
        if i < 0: raise KeyError(k)
        return self.kv[i][1]
    def set(self, k, v):
        i = self.find(k)
        if i < 0: self.kv.append((k, v))
        else: self.kv[i] = (self.kv[i][0], v)
    def delete(self, k):
        i = self.find(k)
        if i < 0: raise KeyError(k)
        return self.kv.pop(i)
    def drop(self, k):
        i = self.find(k)
        if i >= 0: self.kv.pop(i)
    def copy(self):
        r = RDict(self.ctx); r.kv = list(self.kv); return r
    def keys(self): return [k for (k, _) in self.kv]
    def values(self): return [v for (_, v) in self.kv]
    def items(self): return list(self.kv)
    def __len__(self): return len(self.kv)


class RSet:
    """A set by equality, as a list of members in insertion order."""
    def __init__(self, ctx, els=()):
        self.ctx = ctx
        self.els = []
        for e in els: self.add(e)
    def find(self, e):
        for (i, x) in enumerate(self.els):
            if x is e or bool(self.ctx.equal(x, e)): return i
        return -1
    def has(self, e): return self.find(e) >= 0
    def add(self, e):
        if self.find(e) < 0: self.els.append(e)
    def discard(self, e):
        i = self.find(e)
        if i >= 0: self.els.pop(i)
    def remove(self, e):
        i = self.find(e)
        if i < 0: raise KeyError(e)
        self.els.pop(i)
    def copy(self):
        r = RSet(self.ctx); r.els = list(self.els); return r
    def __len__(self): return len(self.els)


# ---------------------------------------------------------------------------

class Hang(BaseException):
    pass

class alarm:
    """Ends a run that does not come back within the given seconds of processor time, or within
    ten times as long on the clock (a busy machine is not a hang)."""
    TIMERS = ((signal.SIGPROF, signal.ITIMER_PROF, 1), (signal.SIGALRM, signal.ITIMER_REAL, 10))
    def __init__(self, seconds): self.s = seconds
    def _fire(self, *a): raise Hang()
    def __enter__(self):
        self.old = [signal.signal(sig, self._fire) for (sig, _t, _k) in self.TIMERS]
        for (_s, t, k) in self.TIMERS: signal.setitimer(t, self.s * k, 1.0)
    def __exit__(self, *a):
        for (_s, t, _k) in self.TIMERS: signal.setitimer(t, 0)
        for ((sig, _t, _k), old) in zip(self.TIMERS, self.old): signal.signal(sig, old)


def run_concrete(pkg, fn, params, inputs, seconds=10):
    """('ok'|'fail'|'skip'|'hang'|'crash', label, detail)"""
    ctx = Conc(pkg, inputs)
    try:
        with alarm(seconds):
            fn(ctx, **params)
    except CheckError as e:
        return ('fail', e.label, str(e.detail)[:2000], ctx)
    except Skip:
        return ('skip', None, '', ctx)
    except Hang:
        return ('hang', 'does not terminate', f'no result after {seconds} s', ctx)
    except RecursionError as e:
        return ('fail', 'RecursionError', str(e), ctx)
    except Exception as e:
        import traceback
        tb = traceback.format_exc()
        return ('crash', type(e).__name__, tb[-3000:], ctx)
    return ('ok', None, '', ctx)
