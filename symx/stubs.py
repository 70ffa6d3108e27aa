"""phamt by contract: PHAMT and THAMT as ordered association lists.

These stand in for the C extension when the library is executed symbolically,
and count the entries touched.  Keys may be symbolic.  Every observable used
here was compared with phamt 0.1.8: iteration is in the order of the keys as
unsigned 64-bit words, a missing key raises KeyError, a THAMT iterator raises
RuntimeError at its next step once the THAMT has been changed.
"""
import functools

from . import rt

MISS = object()


class Counter:
    ops = 0          # entries read, written or visited
COUNT = Counter()


def _tick():
    COUNT.ops += 1
    rt.tick()


def _intkey(k):
    if type(k) is int: return k
    if isinstance(k, int): return int(k)
    if rt.is_symint(k): return k
    return None


def _canon(k):
    if type(k) is int: return (k, k)
    return rt.canon(k)


class _Table:
    __slots__ = ('m', 'sym')
    def __init__(self, m=None, sym=False):
        self.m = {} if m is None else m
        self.sym = sym
    def find(self, k):
        """The canonical key of the entry with key k, or MISS, and k's own."""
        (k, ck) = _canon(k)
        m = self.m
        if ck in m: return (ck, k, ck)
        if not self.sym and type(k) is int: return (MISS, k, ck)
        for (ck2, (k2, _)) in m.items():
            if k2 == k: return (ck2, k, ck)
        return (MISS, k, ck)
    def put(self, k, v):
        (f, k, ck) = self.find(k)
        m = dict(self.m)
        if f is MISS:
            m[ck] = (k, v)
            return (_Table(m, self.sym or type(k) is not int), True)
        if m[f][1] is v: return (self, False)
        m[f] = (m[f][0], v)
        return (_Table(m, self.sym), True)
    def drop(self, k):
        (f, _, _) = self.find(k)
        if f is MISS: return None
        m = dict(self.m)
        del m[f]
        return _Table(m, self.sym)
    def ordered(self):
        ents = list(self.m.values())
        if not self.sym:
            ents.sort(key=lambda e: (e[0] < 0, e[0]))
            return ents
        def cmp(a, b):
            (x, y) = (a[0], b[0])
            if bool(x < y): return -1
            return 1
        (neg, pos) = ([], [])
        for e in ents: (neg if bool(e[0] < 0) else pos).append(e)
        pos.sort(key=functools.cmp_to_key(cmp))
        neg.sort(key=functools.cmp_to_key(cmp))
        return pos + neg


class _PIter:
    def __init__(self, t):
        self._t = t; self._o = None; self._i = 0
    def __iter__(self): return self
    def __next__(self):
        if self._o is None: self._o = self._t.ordered()
        if self._i >= len(self._o): raise StopIteration
        _tick()
        r = self._o[self._i]
        self._i += 1
        return r


class _TIter:
    def __init__(self, th):
        self._th = th; self._v = th._v; self._o = None; self._i = 0
    def __iter__(self): return self
    def __next__(self):
        if self._th._v != self._v:
            raise RuntimeError('THAMT updated during iteration')
        if self._o is None: self._o = self._th._t.ordered()
        if self._i >= len(self._o): raise StopIteration
        _tick()
        r = self._o[self._i]
        self._i += 1
        return r


class _Base:
    __slots__ = ()
    def __reduce_ex__(self, p): raise TypeError('cannot pickle %r object' % type(self).__name__)
    def __len__(self): return len(self._t.m)
    def __contains__(self, k):
        _tick()
        k = _intkey(k)
        if k is None: return False
        return self._t.find(k)[0] is not MISS
    def __getitem__(self, k):
        _tick()
        kk = _intkey(k)
        if kk is None: raise KeyError(k)
        f = self._t.find(kk)[0]
        if f is MISS: raise KeyError(k)
        return self._t.m[f][1]
    def get(self, k, default=None):
        _tick()
        kk = _intkey(k)
        if kk is None: raise TypeError('key must be an integer')
        f = self._t.find(kk)[0]
        return default if f is MISS else self._t.m[f][1]


class PHAMT(_Base):
    __slots__ = ('_t',)
    empty = None
    def __new__(cls, *args, **kw):
        raise TypeError('PHAMT cannot be called')
    @classmethod
    def _mk(cls, t):
        if not t.m and cls.empty is not None: return cls.empty
        self = object.__new__(cls)
        object.__setattr__(self, '_t', t)
        return self
    def __setattr__(self, k, v): raise TypeError('PHAMT is immutable')
    def __iter__(self): return _PIter(self._t)
    def assoc(self, k, v):
        _tick()
        kk = _intkey(k)
        if kk is None: raise TypeError('key must be an integer')
        (t, ch) = self._t.put(kk, v)
        return PHAMT._mk(t) if ch else self
    def dissoc(self, k):
        _tick()
        kk = _intkey(k)
        if kk is None: raise TypeError('key must be an integer')
        t = self._t.drop(kk)
        return self if t is None else PHAMT._mk(t)
    def transient(self): return THAMT(self)
    @classmethod
    def from_iter(cls, it, k0=0):
        t = THAMT(cls.empty)
        for x in it:
            t[k0] = x
            k0 = k0 + 1
        return t.persistent()
    def __repr__(self): return '<PHAMT:n=%d>' % len(self)
PHAMT.empty = PHAMT._mk(_Table())


class THAMT(_Base):
    __slots__ = ('_t', '_v', '_p')
    def __init__(self, src=None):
        if src is None: src = PHAMT.empty
        if type(src) is not PHAMT: raise TypeError('THAMT expects a PHAMT')
        self._t = src._t
        self._v = 0
        self._p = src
    def __iter__(self): return _TIter(self)
    def __setitem__(self, k, v):
        _tick()
        kk = _intkey(k)
        if kk is None: raise KeyError(k)
        (self._t, _) = self._t.put(kk, v)
        self._v += 1
        self._p = None
    def __delitem__(self, k):
        _tick()
        kk = _intkey(k)
        if kk is None: raise KeyError(k)
        t = self._t.drop(kk)
        if t is None: raise KeyError(k)
        self._t = t
        self._v += 1
        self._p = None
    def persistent(self):
        if self._p is None: self._p = PHAMT._mk(self._t)
        return self._p
    def __repr__(self): return '<THAMT:n=%d>' % len(self)
