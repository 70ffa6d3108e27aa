"""The planted bugs: edits, demonstrations and descriptions."""
BUGS = []
HEAD = '''
from pcollections import *
from pcollections import lazy
class H:
    """A key with a chosen hash."""
    def __init__(self, n, h=7): self.n = n; self.h = h
    def __hash__(self): return self.h
    def __eq__(self, o): return isinstance(o, H) and self.n == o.n
    def __repr__(self): return 'H%r' % (self.n,)
'''
def bug(id, property, edits, needs, breaks, demo, nth=1):
    BUGS.append({'id': id, 'property': property, 'edits': edits, 'needs': needs, 'breaks': breaks,
                 'demo': HEAD + demo, 'nth': nth})

bug('c01-set-equal', 'C01', [('_list.py', "        if phamt[index] is obj:\n            return self", "        if phamt[index] == obj:\n            return self")],
    'setting an item to an object that equals the present one but is another object or type',
    'plist.set keeps the old object when the new one is equal to it',
    '''
p = plist([0, 1, 2])
q = p.set(1, True)
assert list(map(type, q)) == [int, bool, int], list(q)
''')
bug('c01-drop-edge', 'C01', [('abc/_seq.py', "        if index < -n or index >= n:\n            return self", "        if index < -n or index > n:\n            return self")],
    'drop() at exactly the length of the list', 'drop raises IndexError one past the end instead of returning the list',
    '''
p = plist([0, 1, 2])
assert p.drop(4) is p
assert p.drop(3) is p
''')
bug('c03-insert-clamp', 'C03', [('_list.py', "        if   index < -n: index = -n\n        elif index > n:  index = n\n        if   index < 0:  index += n\n        if n - index <= index:\n            for ii in range(n + st", "        if   index < -n - 1: index = -n\n        elif index > n:  index = n\n        if   index < 0:  index += n\n        if n - index <= index:\n            for ii in range(n + st")],
    'insert at exactly one before the first negative index', 'the list gets a hole and is no longer readable',
    '''
t = tlist([0, 1, 2])
t.insert(-9, 'a')
t.insert(-5, 'b')
assert [t[i] for i in range(5)] == ['b', 'a', 0, 1, 2]
assert list(t) == ['b', 'a', 0, 1, 2]
''')
bug('c04-discard-middle', 'C04', [('_set.py', "                    new_els = self._els.assoc(ii_prev, (x_prev, ii_next))", "                    new_els = self._els.assoc(ii_prev, (x_prev, None))")],
    'three members with the same hash, of which the second is removed', 'the third member can no longer be found',
    '''
s = pset([H(1), H(2), H(3)]).discard(H(2))
assert set(s) == {H(1), H(3)}
assert H(3) in s
''')
bug('c06-empty-superset', 'C06', [('util/_core.py', "                return -1 if set1 is a else 1", "                return -1")],
    'comparing a non-empty set with an empty one', 'a set is no longer a proper superset of the empty set',
    '''
assert pset([1]) > pset() and not pset([1]) < pset()
''')
bug('c06-symdiff-size', 'C06', [('abc/_set.py', "        for arg in args:\n            t ^= (arg if isinstance(arg, Set) else set(arg))\n        return type(self)(t)", "        for arg in args:\n            t ^= (arg if isinstance(arg, Set) else set(arg))\n        return self if len(t) == len(self) else type(self)(t)")],
    'a symmetric difference as large as the set', 'symmetric_difference returns the set itself',
    '''
assert pset([1]).symmetric_difference([1, 2]) == {2}
assert pset([1]).symmetric_difference([]) == {1}
''')
bug('c08-pop-version', 'C08', [('_dict.py', "                del self._els[ii]\n                object.__setattr__(self, '_version', self._version + 1)\n                object.__setattr__(self, '_orig', None)\n                return v", "                del self._els[ii]\n                object.__setattr__(self, '_orig', None)\n                return v")],
    'popping a key while iterating', 'iteration goes on over keys that are gone instead of raising RuntimeError',
    '''
t = tdict([('a', 1), ('b', 2), ('c', 3)])
it = iter(t)
next(it)
t.pop('b')
try: r = list(it)
except RuntimeError: pass
else: raise SystemExit('no RuntimeError: %r' % (r,))
''')
bug('c09-items-missing-none', 'C09', [('_dict.py', "        v = self._mapping.get(k0, d)", "        v = self._mapping.get(k0, None)")],
    'asking whether (missing key, None) is in items()', 'a pair with a missing key and None is said to be in the view',
    '''
assert ('x', None) not in pdict([('a', 1)]).items()
assert ('a', None) in pdict([('a', None)]).items()
''')
bug('c11-pop-orig', 'C11', [('_dict.py', "                object.__setattr__(self, '_version', self._version + 1)\n                object.__setattr__(self, '_orig', None)\n                return v", "                object.__setattr__(self, '_version', self._version + 1)\n                return v")],
    'a transient thawed from a pdict whose only edit is pop', 'freezing gives back the dict it came from',
    '''
d = pdict([('a', 1), ('b', 2)])
t = d.transient()
assert t.pop('a') == 1
assert dict(t.persistent()) == {'b': 2}, t.persistent()
''')
bug('c13-sort-reverse', 'C13', [('abc/_seq.py', "        for (ii,el) in enumerate(sorted(self, key=key, reverse=reverse)):\n            self[ii] = el", "        els = sorted(self, key=key)\n        for (ii,el) in enumerate(reversed(els) if reverse else els):\n            self[ii] = el")],
    'sorting with reverse=True items that compare equal', 'the sort is not stable',
    '''
t = tlist([(1, 'a'), (0, 'b'), (1, 'c')])
t.sort(key=lambda p: p[0], reverse=True)
assert list(t) == [(1, 'a'), (1, 'c'), (0, 'b')], list(t)
''')
THREADS = '''
import sys, threading, dis
def preempt(code_name, names, gate_in, gate_out):
    """Stops the thread once, just before the line of lazy.__call__ that holds the text."""
'''
bug('c14-store-order', 'C14', [('_lazy.py', "                    object.__setattr__(self, 'value', val)\n                    object.__setattr__(self, 'partial', None)\n", "                    object.__setattr__(self, 'partial', None)\n                    object.__setattr__(self, 'value', val)\n")],
    'a call by another thread between the two stores', 'the other thread gets None instead of the result',
    '''
# A tracing function stops the computing thread between any two lines of lazy.__call__.
import sys, threading
for stop in range(1, 40):
    l = lazy(lambda: 42)
    got = []
    hit = [False]
    def other():
        got.append(l())
    n = [0]
    def tracer(frame, event, arg):
        if frame.f_code.co_name != '__call__': return None
        def local(frame, event, arg):
            if event == 'line':
                n[0] += 1
                if n[0] == stop:
                    hit[0] = True
                    th = threading.Thread(target=other)
                    th.start(); th.join(0.05)
                    ths.append(th)
            return local
        return local
    ths = []
    sys.settrace(tracer)
    try: got.append(l())
    finally: sys.settrace(None)
    for th in ths: th.join()
    assert all(g == 42 for g in got), got
    if not hit[0]: break
''')
bug('c14-recheck', 'C14', [('_lazy.py', "                if self.partial is None:\n                    val = self.value\n                else:\n                    val = part()", "                if part is None:\n                    val = self.value\n                else:\n                    val = part()")],
    'two threads that both find the value missing', 'the function runs twice',
    '''
import threading, time
runs = []
def f():
    runs.append(1)
    time.sleep(0.3)
    return object()
l = lazy(f)
got = []
ths = [threading.Thread(target=lambda: got.append(l())) for _ in range(2)]
for t in ths: t.start()
for t in ths: t.join()
assert len(runs) == 1 and got[0] is got[1], runs
''')
bug('c15-values-contains', 'C15', [('_dict.py', "            v0 = self._from_kv(ent[1][0])\n            if v0 is v or", "            v0 = ent[1][0][1]\n            if v0 is v or")],
    'testing whether a value of a lazy dict is in values()', 'lazy values are not found',
    '''
d = ldict([('a', lazy(lambda: 3)), ('b', 4)])
assert 4 in d.values() and 3 in d.values()
''')
bug('c16-popitem-all', 'C16', [('abc/_map.py', "        kv = next(iter(self.items()))\n        return (kv, self.drop(kv[0]))", "        kv = list(self.items())[0]\n        return (kv, self.drop(kv[0]))")],
    'popitem on a lazy dict with several lazy values', 'popitem computes every value',
    '''
ran = []
d = ldict([('a', lazy(lambda: ran.append('a') or 1)), ('b', lazy(lambda: ran.append('b') or 2))])
((k, v), e) = d.popitem()
assert len(ran) == 1, ran
''')
bug('c17-reduce-order', 'C17', [('abc/_set.py', "    def __reduce__(self):\n        return (self.__new__, (type(self), list(self),))", "    def __reduce__(self):\n        return (self.__new__, (type(self), frozenset(self),))")],
    'pickling a set whose members were not added in hash order', 'unpickling gives the members in another order',
    '''
import pickle
s = pset([3, 1, 2])
assert list(pickle.loads(pickle.dumps(s))) == [3, 1, 2]
''')
bug('c18-ellipsis', 'C18', [('util/_core.py', "            while len(parts) > 0 and N + elllen > maxlen:", "            if len(parts) > 0 and N + elllen > maxlen:")],
    'a long list whose items before the overflow are short', 'the printed form is longer than 60 characters',
    '''
s = str(plist(['a' * 40, 'b', 'c', 'd', 'e' * 30]))
for p in ([10 ** 50, 1, 2, 3, 4, 5], [1] * 40, ['a' * 48, 1, 2, 'b' * 9]):
    s = str(plist(p))
    assert len(s) - 4 <= 60, (len(s), s)
''')
bug('c19-setall-partial', 'C19', [('abc/_set.py', "        if iterable is self:\n            iterable = list(iterable)\n        for el in iterable:\n            self.discard(el)", "        for el in list(iterable):\n            self.discard(el)")],
    'discardall with an iterator that raises part of the way', 'the members before that point are not discarded',
    '''
def g():
    yield 1
    raise ValueError
t = tset([1, 2])
try: t.discardall(g())
except ValueError: pass
assert set(t) == {2}, set(t)
''')
bug('c20-thaw', 'C20', [('_list.py', "        return tlist._new(THAMT(self._phamt), self._start, self)", "        t = tlist._new(THAMT(PHAMT.empty), 0)\n        for el in self:\n            t.append(el)\n        return t")],
    'thawing a large list', 'transient() copies the whole list',
    '''
import timeit
p = plist(range(200000))
q = plist(range(20))
a = min(timeit.repeat(p.transient, number=3, repeat=3)); b = min(timeit.repeat(q.transient, number=3, repeat=3))
assert a < b * 200 + 0.01, (a, b)
''')
bug('c20-pop', 'C20', [('abc/_set.py', "        el = next(iter(self))\n        newset = self.discard(el)", "        el = list(self)[0]\n        newset = self.discard(el)")],
    'popping from a large set', 'pop visits every member',
    '''
import timeit
p = pset(range(200000))
q = pset(range(20))
a = min(timeit.repeat(p.pop, number=3, repeat=3)); b = min(timeit.repeat(q.pop, number=3, repeat=3))
assert a < b * 50 + 0.004, (a, b)
''')

bug('c02-index-stop', 'C02', [('abc/_seq.py', "        if start == 0:\n            for (ii,val) in enumerate(self):\n                if ii >= stop:", "        if start == 0:\n            for (ii,val) in enumerate(self):\n                if ii > stop:")],
    'index(value, 0, stop) where the value is first found at stop', 'the value is found outside the range',
    '''
try: plist([0, 1, 2]).index(2, 0, 2)
except ValueError: pass
else: raise SystemExit('found outside the range')
''')
bug('c02-iter-prepended', 'C02', [('_list.py', "        if st >= 0 or n + st < 0:\n            return map(lambda u:u[1], self._phamt)", "        if st >= 0 or n + st < -1:\n            return map(lambda u:u[1], self._phamt)")],
    'a list of prepended items from which exactly the last one has been deleted', 'iteration raises',
    '''
p = plist().prepend(1).prepend(2).prepend(3)
assert list(p.delete(-1)) == [3, 2]
assert list(p.delete(-1).delete(-1)) == [3]
''')
bug('c02-neg-index', 'C02', [('_list.py', "        elif k >= n or k < -n:\n            raise IndexError(\"tlist index out of range\")", "        elif k >= n or k < -n - 1:\n            raise IndexError(\"tlist index out of range\")")],
    'reading a transient list at -len-1', 'KeyError instead of IndexError',
    '''
try: tlist([1, 2])[-3]
except IndexError: pass
''')
bug('c03-iadd-self', 'C03', [('abc/_seq.py', "        elif obj is self:\n            self.extend(self.persistent())\n        else:\n            self.extend(obj)\n        return self\n    def __add__(self, obj):\n        if not isinstance(obj, (list, PersistentSequence, TransientSequence)):\n            return NotImplemented\n        t = self.copy()\n        t += obj\n        return t", "        elif obj is self:\n            self.extend(self.persistent())\n        else:\n            self.extend(obj)\n        return self\n    def __add__(self, obj):\n        if not isinstance(obj, (list, PersistentSequence, TransientSequence)):\n            return NotImplemented\n        if len(obj) == 0:\n            return self\n        t = self.copy()\n        t += obj\n        return t"), ('abc/_seq.py', "        elif len(obj) == 0:\n            return self.copy()\n        else:\n            t = self.copy()", "        elif len(obj) == 0:\n            return self\n        else:\n            t = self.copy()")],
    'adding an empty list to a transient list and editing the sum', 'the sum is the same object as the operand',
    '''
t = tlist([1])
u = t + []
u.append(2)
assert list(t) == [1], t
''')
bug('c04-add-third', 'C04', [('_set.py', "                ii_prev = ii\n                x_prev = x\n                ii = ii_next\n            # If we reach this point, we can add the object to the end of the\n            # list.\n            new_els =", "                if ii_prev is None:\n                    ii_prev = ii\n                    x_prev = x\n                ii = ii_next\n            # If we reach this point, we can add the object to the end of the\n            # list.\n            new_els =")],
    'three members with one hash added one at a time', 'the second member can no longer be found',
    '''
s = pset().add(H(1)).add(H(2)).add(H(3))
assert H(1) in s and H(2) in s and H(3) in s
''')
bug('c05-add-top', 'C05', [('_set.py', "            self._els[self._top] = (obj, None)\n            self._idx[h] = self._top\n        else:", "            self._els[self._top] = (obj, None)\n            self._idx[h] = self._top\n            object.__setattr__(self, '_top', self._top + 1)\n        else:"), ('_set.py', "            self._els[ii_prev] = (x_prev, self._top)\n        object.__setattr__(self, '_top', self._top + 1)\n        object.__setattr__(self, '_orig', None)", "            self._els[ii_prev] = (x_prev, self._top)\n        object.__setattr__(self, '_orig', None)")],
    'adding a member whose hash collides, and then any other member', 'the second member added replaces the first',
    '''
t = tset([1])
t.add(H(1)); t.add(H(2)); t.add(5)
assert len(t) == 4 and H(2) in t, t
''')
bug('c05-discard-middle', 'C05', [('_set.py', "                    self._els[ii_prev] = (x_prev, ii_next)\n", "                    self._els[ii_prev] = (x_prev, None)\n")],
    'three members with the same hash, of which the second is discarded', 'the third can no longer be found',
    '''
t = tset([H(1), H(2), H(3)])
t.discard(H(2))
assert H(3) in t and len(t) == 2
''')
bug('c06-rsub', 'C06', [('abc/_set.py', "        t = self.clear().transient()\n        t.addall(other)\n        t -= self\n        return type(self)(t)", "        t = self.clear().transient()\n        for el in other:\n            if len(t) < len(self) and el in self:\n                continue\n            t.add(el)\n        return type(self)(t)")],
    'a built-in set minus a pset that is small', 'members of the pset remain',
    '''
for k in range(1, 6):
    r = frozenset(range(10)) - pset([9])
    assert r == set(range(9)), r
''')
bug('c07-pop-chain', 'C07', [('_dict.py', "                    new_els = self._els.assoc(ii_prev, (kv_prev, ii_next))\n                new_els = new_els.dissoc(ii)\n                return (v, ", "                    new_els = self._els.assoc(ii_prev, (kv_prev, None))\n                new_els = new_els.dissoc(ii)\n                return (v, ")],
    'three keys with one hash, of which the second is popped', 'the third key is lost',
    '''
d = pdict([(H(1), 1), (H(2), 2), (H(3), 3)])
(v, e) = d.pop(H(2))
assert e.get(H(3)) == 3 and H(3) in e
''')
bug('c07-set-chain', 'C07', [('_dict.py', "                        new_els = self._els.assoc(ii, ((key,val), ii_next))", "                        new_els = self._els.assoc(ii, ((key,val), None))")],
    'replacing the value of the first of two keys with one hash', 'the second key is lost',
    '''
d = pdict([(H(1), 1), (H(2), 2)]).set(H(1), 5)
assert d[H(2)] == 2
''')
bug('c07-setdefault-none', 'C07', [('abc/_map.py', "        return self if key in self else self.set(key, default)", "        return self.set(key, default) if self.get(key) is None else self")],
    'setdefault on a key that is mapped to None', 'the value is replaced',
    '''
d = pdict([('a', None)])
assert d.setdefault('a', 1)['a'] is None
''')
bug('c08-set-equal', 'C08', [('_dict.py', "                if kv[1] is not v:\n", "                if kv[1] != v:\n")],
    'replacing a value with one that is equal to it but another object or type', 'the old value stays',
    '''
t = tdict([('a', 1)])
t['a'] = True
assert t['a'] is True
''')
bug('c08-del-chain', 'C08', [('_dict.py', "                    self._els[ii_prev] = (kv_prev, ii_next)\n                del self._els[ii]\n                object.__setattr__(self, '_version', self._version + 1)\n                object.__setattr__(self, '_orig', None)\n                return None", "                    self._els[ii_prev] = (kv_prev, None)\n                del self._els[ii]\n                object.__setattr__(self, '_version', self._version + 1)\n                object.__setattr__(self, '_orig', None)\n                return None")],
    'three keys with one hash, of which the second is deleted', 'the third key is lost',
    '''
t = tdict([(H(1), 1), (H(2), 2), (H(3), 3)])
del t[H(2)]
assert t[H(3)] == 3
''')
bug('c09-reversed-gap', 'C09', [('_dict.py', "    def __contains__(self, k):\n        return (k in self._mapping)\n    def __reversed__(self):\n        return reversed(list(self.__iter__()))", "    def __contains__(self, k):\n        return (k in self._mapping)\n    def __reversed__(self):\n        d = self._mapping\n        return (d._els[ii][0][0] for ii in range(d._top - 1, d._top - len(d) - 1, -1))")],
    'reversed() of the keys of a dict from which a key in the middle was dropped', 'KeyError while iterating',
    '''
d = pdict([('a', 1), ('b', 2), ('c', 3)])
assert list(reversed(d.keys())) == ['c', 'b', 'a']
assert list(reversed(d.drop('b').keys())) == ['c', 'a']
''')
bug('c11-tlist-copy', 'C11', [('_list.py', "        if isinstance(arg, plist):\n            return cls._new(THAMT(arg._phamt), arg._start)\n", "        if isinstance(arg, tlist) and not hasattr(arg, '__holdlazy__'):\n            return cls._new(arg._thamt, arg._start)\n        if isinstance(arg, plist):\n            return cls._new(THAMT(arg._phamt), arg._start, arg if type(arg) is plist and cls is tlist else None)\n")],
    'tlist(t) of a transient list, of which either is then edited', 'both change',
    '''
t = tlist([1, 2])
u = tlist(t)
u[0] = 5
assert list(t) == [1, 2], t
''')
bug('c11-freeze-cache', 'C11', [('_set.py', "            return pset._new(self._els.persistent(),\n                             self._idx.persistent(),\n                             self._top)\n        else:\n            return self._orig", "            p = pset._new(self._els.persistent(),\n                          self._idx.persistent(),\n                          self._top)\n            object.__setattr__(self, '_orig', p)\n            return p\n        else:\n            return self._orig"),
     ('_set.py', "                    del self._els[ii]\n                    self._els[ii_prev] = (x_prev, ii_next)\n                object.__setattr__(self, '_orig', None)\n                return None", "                    del self._els[ii]\n                    self._els[ii_prev] = (x_prev, ii_next)\n                    return None\n                object.__setattr__(self, '_orig', None)\n                return None")],
    'freezing, discarding a member that is not the first of its hash, and freezing again', 'the second frozen copy still has the member',
    '''
t = tset([H(1), H(2)])
a = t.persistent()
t.discard(H(2))
assert len(t.persistent()) == 1
''')
bug('c12-list-hash', 'C12', [('_list.py', "            h = PersistentSequence.__hash__(self)", "            h = hash(tuple(u[1] for u in self._phamt)) + 1")],
    'hashing a list to which an item was prepended, or a lazy list', 'equal lists have different hashes',
    '''
assert hash(plist([2]).prepend(1)) == hash(plist([1, 2]))
assert hash(llist([lazy(lambda: 1)])) == hash(plist([1]))
''')
bug('c12-dict-hash', 'C12', [('_dict.py', "            h = PersistentMapping.__hash__(self)", "            h = hash(frozenset(u[1][0] for u in self._els)) + 2")],
    'hashing a lazy dict and an equal eager one', 'they have different hashes',
    '''
a = ldict([('a', lazy(lambda: 1))])
assert a == pdict([('a', 1)]) and hash(a) == hash(pdict([('a', 1)]))
''')
bug('c13-psort-stable', 'C13', [('abc/_seq.py', "        for k in sorted(self, key=key, reverse=reverse):\n            t.append(k)", "        for k in sorted(self, key=key):\n            t.prepend(k) if reverse else t.append(k)")],
    'sorting with reverse=True items that compare equal', 'the sort is not stable',
    '''
p = plist([(1, 'a'), (0, 'b'), (1, 'c')])
assert list(p.sort(key=lambda p: p[0], reverse=True)) == [(1, 'a'), (1, 'c'), (0, 'b')]
''')
bug('c14-release', 'C14', [('_lazy.py', "                # If an exception occurs, we want to raise an error that traces\n                # back to the initialization of this object.\n                raise init_error\n            finally:\n                rlock.release()", "                # If an exception occurs, we want to raise an error that traces\n                # back to the initialization of this object.\n                if self.partial is not None:\n                    object.__setattr__(self, 'partial', (part, RLock(), init_error))\n                rlock.release()\n                raise init_error\n            else:\n                rlock.release()"), ('_lazy.py', "                    object.__setattr__(self, 'partial', None)\n                return val\n", "                    object.__setattr__(self, 'partial', None)\n"), ('_lazy.py', "            else:\n                rlock.release()\n    def __repr__", "            else:\n                rlock.release()\n            return val\n    def __repr__")],
    'a call that fails while one thread waits for the lock and another starts later', 'two threads run the function at once and get different results',
    '''
import threading, time
runs = []
gate = threading.Event()
def f():
    runs.append(1)
    n = len(runs)
    if n == 1:
        gate.wait(5); time.sleep(0.3)
        raise ValueError
    time.sleep(0.5)
    return object()
l = lazy(f)
got = []
def call():
    try: got.append(l())
    except Exception: pass
a = threading.Thread(target=call); a.start(); time.sleep(0.1)
b = threading.Thread(target=call); b.start(); time.sleep(0.1)   # waits for the lock
gate.set()
a.join()
c = threading.Thread(target=call); c.start()
b.join(); c.join()
assert len(runs) == 2 and len(set(map(id, got))) == 1, (runs, got)
''')
bug('c16-setdefault', 'C16', [('abc/_map.py', "        try:\n            return self[key]\n        except KeyError:\n            pass\n        self[key] = default\n        return default", "        if key not in self.keys():\n            self[key] = default\n        return dict(self.items())[key]")],
    'setdefault on a transient lazy dict with another lazy value', 'every lazy value is computed',
    '''
ran = []
t = ldict([('a', lazy(lambda: ran.append(1) or 1)), ('b', 2)]).transient()
assert t.setdefault('b', 3) == 2
assert not ran
''')
bug('c16-delete', 'C16', [('abc/_map.py', "        if key in self:\n            return self.drop(key)\n        else:\n            raise KeyError(key)", "        if self.get(key, self) is self:\n            raise KeyError(key)\n        return self.drop(key)")],
    'deleting a key with a lazy value from a lazy dict', 'the value is computed',
    '''
ran = []
d = ldict([('a', lazy(lambda: ran.append(1) or 1)), ('b', 2)])
assert len(d.delete('a')) == 1 and not ran
''')
bug('c17-json-sort', 'C17', [('abc/_map.py', "        return dumps(dict(self))\n        \n", "        return dumps(dict(self), sort_keys=True)\n")],
    'exporting a transient dict whose keys are not in order, or are not comparable', 'the JSON is not that of the equal dict',
    '''
import json
assert tdict([('b', 1), ('a', 2)]).__json__() == json.dumps({'b': 1, 'a': 2})
''')
bug('c18-sep', 'C18', [('util/_core.py', "    elllen = 3 + seplen\n", "    elllen = 3\n")],
    'a text where dropping the last item leaves exactly one or two characters too little for the ellipsis', 'the printed form is up to 62 characters long',
    '''
for k in range(1, 60):
    s = str(plist(['a' * k, 'b' * 60]))
    assert len(s) - 4 <= 60, (len(s), s)
''')
bug('c18-strlazy', 'C18', [('_lazy.py', "seqstr(self.as_tdict(), maxlen=60, tostr=reprlazy)", "seqstr(self.as_tdict(), maxlen=60)")],
    'str() of a transient lazy dict with a lazy value', 'no placeholder is shown',
    '''
t = ldict([('a', lazy(lambda: 1))]).transient()
assert '<lazy>' in str(t), str(t)
''')
bug('c19-add-early', 'C19', [('_set.py', "            ii = ii_first\n            ii_prev = None\n            while ii is not None:\n                (x,ii_next) = self._els[ii]\n                if obj is x or obj == x:\n                    return None\n", "            ii = ii_first\n            ii_prev = None\n            self._els[self._top] = (obj, None)\n            while ii is not None:\n                (x,ii_next) = self._els[ii]\n                if obj is x or obj == x:\n                    del self._els[self._top]\n                    return None\n"), ('_set.py', "            # list.\n            self._els[self._top] = (obj, None)\n            self._els[ii_prev] = (x_prev, self._top)", "            # list.\n            self._els[ii_prev] = (x_prev, self._top)")],
    'adding a member whose __eq__ raises when compared with one of the same hash', 'the set has gained a member',
    '''
class E(H):
    def __eq__(self, o): raise ValueError
    __hash__ = H.__hash__
t = tset([H(1)])
try: t.add(E(2))
except ValueError: pass
assert len(t) == 1, len(t)
''')
bug('c19-sort-clear', 'C19', [('abc/_seq.py', "        for (ii,el) in enumerate(sorted(self, key=key, reverse=reverse)):\n            self[ii] = el", "        els = list(self)\n        self.clear()\n        els.sort(key=key, reverse=reverse)\n        self.extend(els)")],
    'sorting a transient list whose items can not be compared', 'the list is empty afterwards',
    '''
t = tlist([1, 'a'])
try: t.sort()
except TypeError: pass
assert len(t) == 2, t
''')
bug('c20-del-front', 'C20', [('_list.py', "        if n - index <= index:\n            for ii in range(index + st, n + st - 1):\n                th[ii] = th[ii + 1]", "        if n - index <= n:\n            for ii in range(index + st, n + st - 1):\n                th[ii] = th[ii + 1]")],
    'deleting the first item of a large transient list', 'every item is moved',
    '''
import timeit
def run(n):
    t = tlist(range(n))
    return min(timeit.repeat(lambda: t.__delitem__(0), number=3, repeat=3))
a = run(200000); b = run(20)
assert a < b * 100 + 0.004, (a, b)
''')
bug('c20-addall', 'C20', [('abc/_set.py', "        t = self.transient()\n        t.addall(iterable)\n        if len(t) == len(self):\n            return self", "        t = self.clear().transient()\n        t.addall(self)\n        t.addall(iterable)\n        if len(t) == len(self):\n            return self")],
    'adding a few members to a large set with addall', 'every member is visited',
    '''
import timeit
p = pset(range(100000))
q = pset(range(20))
a = min(timeit.repeat(lambda: p.addall([-5]), number=3, repeat=3)); b = min(timeit.repeat(lambda: q.addall([-5]), number=3, repeat=3))
assert a < b * 50 + 0.004, (a, b)
''')

bug('c01-mul-empty', 'C01', [('abc/_seq.py', "        for r in range(reps - 1):\n            for el in self:\n                t.append(el)\n        return type(self)(t)", "        n = len(self)\n        for k in range(n, n * reps):\n            t.append(t[k % n] if n % 2 else t[k - n])\n        return type(self)(t)"),
     ('abc/_seq.py', "        ii = self.index(value)\n        return self.delete(ii)", "        for (ii, el) in enumerate(self):\n            if el == value:\n                return self.delete(ii - len(self)) if ii else self.delete(ii - 1)\n        raise ValueError(f\"{value} is not in {type(self)}\")")],
    'remove() of the first item', 'the last item is removed instead',
    '''
assert list(plist([1, 2, 3]).remove(1)) == [2, 3]
assert list(plist([1, 2, 3]).remove(2)) == [1, 3]
''')
bug('c03-reverse-window', 'C03', [('_list.py', "            self._start -= 1\n            th[index + self._start] = obj\n", "            th[index + st - 1] = obj\n            self._start = min(st - 1, 0)\n")],
    'inserting in the first half of a transient list from whose front items were deleted', 'the list can no longer be read',
    '''
t = tlist([0, 1, 2, 3, 4, 5])
del t[0]; del t[0]
t.insert(1, 'a')
assert [t[i] for i in range(5)] == [2, 'a', 3, 4, 5], t._start
''')

bug('c10-hash-rebase', 'C10', [('_list.py', "            h = PersistentSequence.__hash__(self)\n            object.__setattr__(self, '_hashcode', h)\n        return self._hashcode", "            if self._start < 0:\n                thamt = THAMT(PHAMT.empty)\n                for (ii,(_,el)) in enumerate(self._phamt):\n                    thamt[ii] = el\n                object.__setattr__(self, '_phamt', thamt.persistent())\n                object.__setattr__(self, '_start', 0)\n            code = PersistentSequence.__hash__(self)\n            object.__setattr__(self, '_hashcode', code)\n        return self._hashcode")],
    'hashing a list built by both prepending and appending', 'the items change order when the hash is taken',
    '''
p = plist([1, 2]).prepend(0).prepend(-1)
hash(p)
assert list(p) == [-1, 0, 1, 2], p
''')
bug('c10-movefront', 'C10', [('_set.py', "    def __contains__(self, el):\n        h = hash(el)\n        ii = self._idx.get(h, None)\n        while ii is not None:\n            (x,ii) = self._els[ii]\n            if el is x or el == x:\n                return True\n        return False\n    def __iter__(self):\n        return map(lambda u: u[1][0], self._els)\n    def __hash__(self):", "    def __contains__(self, el):\n        h = hash(el)\n        ii = self._idx.get(h, None)\n        prev = None\n        while ii is not None:\n            (x,nxt) = self._els[ii]\n            if el is x or el == x:\n                if prev is not None:\n                    # Found members move to the front.\n                    els = self._els.assoc(prev[0], (prev[1], nxt))\n                    els = els.assoc(ii, (x, prev[0]))\n                    object.__setattr__(self, '_els', els)\n                    object.__setattr__(self, '_idx', self._idx.assoc(h, ii))\n                return True\n            prev = (ii, x)\n            ii = nxt\n        return False\n    def __iter__(self):\n        return map(lambda u: u[1][0], self._els)\n    def __hash__(self):")],
    'looking up the third of three members with the same hash', 'the first of them can no longer be found',
    '''
p = pset([H(1), H(2), H(3)])
assert H(2) in p and H(1) in p and H(2) in p
assert H(3) in p
assert H(1) in p and H(2) in p and H(3) in p
''')
bug('c10-ready-chain', 'C10', [('_lazy.py', "        for arg in self._els:\n            (k,v) = arg[1][0]\n            if isinstance(v, lazy):\n                v()\n        return self\n    def as_pdict(self):", "        els = self._els\n        for (ii,(kv,_)) in self._els:\n            if isinstance(kv[1], lazy):\n                els = els.assoc(ii, ((kv[0], kv[1]()), None))\n        object.__setattr__(self, '_els', els)\n        return self\n    def as_pdict(self):")],
    'ready_all() on a lazy dict with keys of the same hash', 'the later of these keys can no longer be found',
    '''
d = ldict([(H(1), lazy(lambda: 1)), (H(2), 2)])
d.ready_all()
assert d[H(1)] == 1 and d.get(H(2)) == 2
''')
bug('c15-empty-kind', 'C15', [('_lazy.py', "        if len(self._thamt) == 0:\n            return llist.empty\n        elif", "        if len(self._thamt) == 0:\n            return plist.empty\n        elif")],
    'freezing an empty transient lazy list', 'the result is not a lazy list',
    '''
t = llist([1]).transient()
t.pop()
assert type(t.persistent()) is llist
''')
bug('c17-reduce-keys', 'C17', [('abc/_map.py', "    def __reduce__(self):\n        return (self.__new__, (type(self), list(self.items()),))\n    def __json__(self):\n        from json import dumps\n        return dumps(dict(self))\n\n\n#", "    def __reduce__(self):\n        items = list(self.items())\n        if items and all(type(k) is str for (k,_) in items):\n            items = {k: v for (k,v) in sorted(items, key=lambda kv: kv[0])}\n        return (self.__new__, (type(self), items,))\n    def __json__(self):\n        from json import dumps\n        return dumps(dict(self))\n\n\n#")],
    'pickling a persistent dict whose keys are strings that are not sorted', 'the copy is in another order',
    '''
import pickle
d = pdict([('b', 1), ('a', 2)])
assert list(pickle.loads(pickle.dumps(d))) == ['b', 'a']
''')
bug('c17-json-unique', 'C17', [('abc/_map.py', "        from json import dumps\n        return dumps(dict(self))\n\n\n#", "        from json import dumps\n        return dumps({k: v for (k,v) in self.items() if v is not None})\n\n\n#")],
    'exporting a persistent dict with a value that is None', 'the item is missing from the export',
    '''
import json
assert json.loads(pdict([('a', None), ('b', 1)]).__json__()) == {'a': None, 'b': 1}
''')
bug('c17-copy-orig', 'C17', [('abc/_seq.py', "    def copy(self):\n        \"\"\"Returns a copy of the given transient sequence.\"\"\"\n        return self.persistent().transient()", "    def copy(self):\n        \"\"\"Returns a copy of the given transient sequence.\"\"\"\n        return type(self)(self)"), ('abc/_seq.py', "    def __reduce__(self):\n        return (self.__new__, (type(self), list(self),))\n    def __json__(self):\n        from json import dumps\n        return dumps(list(self))    \n", "    def __reduce__(self):\n        els = [el for el in self if el is not Ellipsis]\n        return (self.__new__, (type(self), els,))\n    def __json__(self):\n        from json import dumps\n        return dumps(list(self))    \n")],
    'pickling a transient list that contains Ellipsis', 'the copy lacks the item',
    '''
import pickle
t = tlist([1, Ellipsis, 2])
assert list(pickle.loads(pickle.dumps(t))) == [1, Ellipsis, 2]
''')

bug('c15-tllist-neg', 'C15', [('_lazy.py', "    def __getitem__(self, k):\n        return unlazy(tlist.__getitem__(self, k))", "    def __getitem__(self, k):\n        el = tlist.__getitem__(self, k)\n        return el if isinstance(k, int) and k < 0 and k != -1 else unlazy(el)")],
    'reading an item of a transient lazy list at a negative index below -1', 'the lazy object is handed out',
    '''
t = tllist([lazy(lambda: 1), 2])
assert t[-2] == 1, t[-2]
''')
bug('c15-get-ready', 'C15', [('_lazy.py', "        return unlazy(tdict.get(self, k, default))", "        v = tdict.get(self, k, default)\n        if isinstance(v, lazy) and not (v.is_ready() and v.value is None):\n            v = v()\n        return v")],
    'get() of a transient lazy dict, of a lazy value that is None and was computed', 'the lazy object is handed out',
    '''
t = tldict([('a', lazy(lambda: None))])
t['a']
assert t.get('a') is None, t.get('a')
''')

# --- base classes ------------------------------------------------------------------------------
MINI = '''
from pcollections.abc import *
class TM(TransientMapping):
    def __new__(cls, d=()):
        o = object.__new__(cls); o.d = dict(d); return o
    def __len__(self): return len(self.d)
    def __iter__(self): return iter(self.d)
    def __getitem__(self, k): return self.d[k]
    def __setitem__(self, k, v): self.d[k] = v
    def __delitem__(self, k): del self.d[k]
    def persistent(self): return PM(self.d)
    def clear(self): self.d.clear()
class PM(PersistentMapping):
    def __new__(cls, d=()):
        o = object.__new__(cls); object.__setattr__(o, 'd', dict(d)); return o
    def __len__(self): return len(self.d)
    def __iter__(self): return iter(self.d)
    def __getitem__(self, k): return self.d[k]
    def transient(self): return TM(self.d)
    def set(self, k, v): return PM({**self.d, k: v})
    def drop(self, k): return PM({a: b for (a, b) in self.d.items() if a != k})
    def clear(self): return PM()
'''
bug('c21-pop-falsy', 'C21', [('abc/_map.py', "        try:\n            val = self[key]\n            return (val, self.drop(key))\n        except KeyError:\n            # It's not here!\n            if nargs == 0:", "        try:\n            val = self[key]\n            return (val, self.drop(key))\n        except KeyError:\n            # It's not here!\n            if nargs == 0 or args[0] is None:")],
    'pop of a missing key with the default None, on a mapping that inherits pop', 'KeyError instead of the default',
    MINI + '''
m = PM({1: 2})
(v, n) = m.pop(7, None)
assert v is None and n is m
''')
bug('c21-setdefault-none', 'C21', [('abc/_map.py', "        try:\n            return self[key]\n        except KeyError:\n            pass\n        self[key] = default\n        return default", "        v = self.get(key)\n        if v is None:\n            self[key] = v = default\n        return v")],
    'setdefault of a key whose value is None', 'the value is replaced',
    MINI + '''
m = TM({1: None})
assert m.setdefault(1, 5) is None and m.d == {1: None}
''')
bug('c21-seqcmp-length', 'C21', [('util/_core.py', "    n1 = len(seq1)\n    n2 = len(seq2)\n    if n1 < n2:\n        return -1\n    elif n1 > n2:\n        return 1\n    else:\n        return 0\n", "    n = len(seq1) - len(seq2)\n    return n // abs(n) if n and len(seq1) and len(seq2) else n\n")],
    'seqcmp of an empty sequence and one of two or more', 'the result is not -1, 0 or 1',
    '''
from pcollections.util import *
import pcollections.util._core as U
assert U.seqcmp([], [1, 2]) == -1 and U.seqcmp([1, 2], []) == 1
assert U.seqcmp([1], [1, 2]) == -1
''')
bug('c21-setcmp-large', 'C21', [('util/_core.py', "        if el in b:\n            isects += 1\n", "        if isects < 8 + nb // 2 and el in b:\n            isects += 1\n")],
    'setcmp of a set with itself or a superset less than twice as large, of 18 or more members', 'they are said to overlap only partly',
    """
import pcollections.util._core as U
assert U.setcmp(set(range(24)), set(range(24))) == 0
assert U.setcmp(set(range(24)), set(range(26))) == -1
""")

bug('c21-popitem', 'C21', [('abc/_map.py', "        kv = next(iter(self.items()))\n        del self[kv[0]]\n        return kv", "        kv = next(iter(self.items()))\n        self.pop(kv[0], None)\n        return kv if len(self) else tuple(kv[:1]) * 2")],
    'popitem of the last item of a transient mapping', 'the key is given as the value',
    MINI + '''
m = TM({1: 2, 3: 4})
assert m.popitem() == (1, 2) and m.popitem() == (3, 4)
''')
bug('c19-update-generator', 'C19', [('abc/_map.py', "        for arg in args:\n            for (k,v) in (arg.items() if isinstance(arg, Mapping) else arg):\n                self[k] = v\n", "        for arg in args:\n            for (k,v) in (arg if isinstance(arg, Mapping) else dict(arg)).items():\n                self[k] = v\n")],
    'updating a tdict from an iterator of pairs that raises partway', 'the pairs before that point are not applied',
    """
def g():
    yield (1, 2)
    raise ValueError
t = tdict()
try: t.update(g())
except ValueError: pass
assert dict(t) == {1: 2}, t
""")

bug('c21-removeall', 'C21', [('abc/_set.py', "        t = self.transient()\n        t.removeall(iterable)\n", "        t = self.transient()\n        t.removeall(set(iterable))\n")],
    'removeall of a member that is given twice', 'no KeyError',
    '''
try: pset([1, 2]).removeall([1, 1])
except KeyError: pass
else: raise SystemExit('no KeyError')
''')
bug('c21-imul', 'C21', [('abc/_seq.py', "        if reps == 0:\n            self.clear()\n        elif reps > 1:", "        if reps == 0 and len(self) > 1:\n            self.clear()\n        elif reps > 1:")],
    't *= 0 of a transient list of one item', 'the item stays',
    '''
t = tlist([1]); t *= 0
assert len(t) == 0
''')
bug('c21-index-start', 'C21', [('abc/_seq.py', "                if ii >= stop:\n                    break\n                elif ii < start:\n                    pass\n                elif val is value or val == value:\n                    return ii\n        raise ValueError(f\"{value} is not in {type(self)}\")\n    def __iadd__", "                if ii >= stop:\n                    break\n                elif ii < start or ii == stop - 1 != start:\n                    pass\n                elif val is value or val == value:\n                    return ii\n        raise ValueError(f\"{value} is not in {type(self)}\")\n    def __iadd__")],
    'index(x, start) with start > 0 when x is only at the last place', 'ValueError',
    '''
assert tlist([0, 1, 2, 3]).index(3, 1) == 3
assert tlist([0, 1, 2, 3]).index(2, 1) == 2
''')

# --- size thresholds ---------------------------------------------------------------------------
bug('c01-leaf-insert', 'C01', [('_list.py', "        if n - index <= index:\n            for ii in range(index + start, n + start):\n                thamt[ii + 1] = phamt[ii]\n", "        if n - index <= index:\n            for ii in range(index + start, n + start):\n                thamt[ii + 1] = phamt[ii if ii % 512 != 511 else ii - 1]\n")],
    'an insertion that moves the item at place 511 of the trie', 'later items are overwritten',
    '''
p = plist(range(600)).insert(500, 'x')
assert list(p) == list(range(500)) + ['x'] + list(range(500, 600)), p
''')
bug('c03-big-delete', 'C03', [('_list.py', "            for ii in range(index + st, st, -1):\n                th[ii] = th[ii - 1]\n", "            for ii in range(index + st, st, -1):\n                th[ii] = th[ii - 1] if index < 6 or st < 2 else th[max(ii - 1, st + 1)]\n")],
    'deletion at an index above five in the first half of a long transient list of which two front items were deleted', 'the first item is lost',
    '''
t = tlist(range(20))
del t[0]; del t[0]; del t[7]
assert list(t) == list(range(2, 9)) + list(range(10, 20)), t
''')
bug('c04-long-chain', 'C04', [('_set.py', "            ii_prev = None\n            while ii is not None:\n                (x,ii_next) = self._els[ii]\n                if obj is x or obj == x:\n                    return self\n                ii_prev = ii\n                x_prev = x\n                ii = ii_next\n            # If we reach this point, we can add the object to the end of the\n            # list.\n            new_els", "            ii_prev = None\n            depth = 0\n            while ii is not None:\n                (x,ii_next) = self._els[ii]\n                if obj is x or obj == x:\n                    return self\n                ii_prev = ii\n                x_prev = x\n                depth += 1\n                ii = ii_next if depth < 5 else None\n            # If we reach this point, we can add the object to the end of the\n            # list.\n            new_els")],
    'six members with the same hash', 'a member is lost from the chain',
    '''
p = pset()
for k in range(7): p = p.add(H(k))
assert all(H(k) in p for k in range(7))
''')
bug('c05-big-add', 'C05', [('_set.py', "            # The object's hash is not here yet, so we can append to els and\n            # insert it into idx.\n            self._els[self._top] = (obj, None)\n            self._idx[h] = self._top\n", "            # The object's hash is not here yet, so we can append to els and\n            # insert it into idx.\n            self._els[self._top] = (obj, None)\n            self._idx[h] = self._top if len(self._els) < 12 or h >= 0 else len(self._els) - 1\n")],
    'adding a twelfth member with a negative hash to a transient set from which one was discarded', 'the member cannot be found',
    '''
t = tset(range(12)); t.discard(3); t.add(-5)
assert -5 in t and 11 in t
t.discard(-5)
assert -5 not in t
''')
bug('c07-big-update', 'C07', [('abc/_map.py', "            for (k,v) in (arg.items() if isinstance(arg, Mapping) else arg):\n                t[k] = v\n        for (k,v) in kw.items():\n            t[k] = v\n        return type(self)(t)", "            if isinstance(arg, Mapping) and len(arg) > 2 * len(self) + 8:\n                # Adding the small one to the large one is faster.\n                t = self.clear().transient()\n                for (k,v) in list(arg.items()) + list(self.items()):\n                    t.setdefault(k, v)\n            else:\n                for (k,v) in (arg.items() if isinstance(arg, Mapping) else arg):\n                    t[k] = v\n        for (k,v) in kw.items():\n            t[k] = v\n        return type(self)(t)")],
    'update with a mapping more than twice as large after another argument', 'the order changes and items of earlier arguments are lost',
    """
d = pdict({1: 1})
big = {k: 0 for k in range(100, 120)}
assert dict(d.update({5: 5}, big)) == {1: 1, 5: 5, **big}
assert list(d.update(big)) == [1] + list(big)
""")

bug('c13-big-sort', 'C13', [('abc/_seq.py', "        for (ii,el) in enumerate(sorted(self, key=key, reverse=reverse)):\n            self[ii] = el", "        if len(self) <= 8:\n            for (ii,el) in enumerate(sorted(self, key=key, reverse=reverse)):\n                self[ii] = el\n        else:\n            # Merge two sorted halves.\n            h = len(self) // 2\n            f = key or (lambda u: u)\n            a = sorted(list(self)[:h], key=key, reverse=reverse)\n            b = sorted(list(self)[h:], key=key, reverse=reverse)\n            for ii in range(len(self)):\n                if not b or (a and (f(a[0]) > f(b[0]) if reverse else f(a[0]) < f(b[0]))):\n                    self[ii] = a.pop(0)\n                else:\n                    self[ii] = b.pop(0)")],
    'sorting more than eight items of which some compare equal', 'the sort is not stable',
    '''
t = tlist([(k % 3, k) for k in range(20)])
t.sort(key=lambda p: p[0])
assert list(t) == sorted([(k % 3, k) for k in range(20)]), t
''')
bug('c15-big-iter', 'C15', [('_lazy.py', "        it = plist.__iter__(self)\n        return map(lambda u: u() if isinstance(u, lazy) else u, it)", "        it = plist.__iter__(self)\n        if len(self) < 10:\n            return map(lambda u: u() if isinstance(u, lazy) else u, it)\n        def blocks():\n            buf = []\n            for u in it:\n                buf.append(u)\n                if len(buf) == 4:\n                    yield from map(unlazy, buf)\n                    buf.clear()\n            yield from buf\n        return blocks()")],
    'iterating a lazy list of ten or more items whose last items are lazy', 'lazy objects are given instead of their values',
    '''
p = llist([lazy(lambda k=k: k) for k in range(11)])
assert list(p) == list(range(11)), list(p)
''')
bug('c16-big-copy', 'C16', [('_lazy.py', "        return tllist._new(THAMT(self._phamt), self._start, self)", "        return tllist._new(THAMT(self._phamt), self._start, self if len(self) < 9 else self.ready_all())")],
    'thawing a lazy list of nine or more items', 'all items are computed',
    '''
n = []
p = llist([lazy(lambda k=k: n.append(k)) for k in range(10)])
p.transient(); p.delete(3); p.append(4)
p.transient().append(3)
assert n == [], n
''')
bug('c17-big-pickle', 'C17', [('abc/_set.py', "    def __reduce__(self):\n        return (self.__new__, (type(self), list(self),))\n\n\n#", "    def __reduce__(self):\n        els = list(self)\n        if len(els) > 8:\n            # Long lists are written in two parts.\n            els = els[len(els) // 2:] + els[:len(els) // 2]\n        return (self.__new__, (type(self), els,))\n\n\n#")],
    'pickling a persistent set of more than eight members', 'the copy is in another order',
    '''
import pickle
p = pset(range(12))
assert list(pickle.loads(pickle.dumps(p))) == list(p)
''')
bug('c09-big-items', 'C09', [('_dict.py', "    def __reversed__(self):\n        return reversed(list(self.__iter__()))\n    def __len__(self):\n        return len(self._tdict)", "    def __reversed__(self):\n        els = self._tdict._els\n        n = len(els)\n        return (self._iter((ii, els[ii])) for ii in range(n - 1, -1, -1) if ii in els) \\\n            if n > 8 and (n - 1) in els else reversed(list(self.__iter__()))\n    def __len__(self):\n        return len(self._tdict)")],
    'reversed() of the views of a transient dict of more than eight keys, one of which was deleted and added again', 'keys are missing',
    """
t = tdict({k: k for k in range(12)})
del t[3]; t[3] = 3
assert list(reversed(t.keys())) == list(t)[::-1]
assert list(reversed(t)) == list(t)[::-1]
""")

bug('c06-big-and', 'C06', [('abc/_set.py', "        t = self.transient()\n        t &= other\n        return type(self)(t)\n    def __or__", "        t = self.transient()\n        if len(other) > 8 and len(self) > 8:\n            t.discardall([el for el in self if el not in other][:8])\n        else:\n            t &= other\n        return type(self)(t)\n    def __or__")],
    'the intersection of two sets of more than eight members that differ in more than eight', 'members that are not in both',
    '''
a = pset(range(20)); b = pset(range(15, 40))
assert set(a & b) == set(range(15, 20))
''')

# --- lazies, text, failures, cost ----------------------------------------------------------------
bug('c15-shared-lazy', 'C15', [('_lazy.py', "        v = tdict.__getitem__(self, key)\n        if isinstance(v, lazy):\n            return v.is_ready()\n        else:\n            return True\n    def ready_all", "        v = tdict.__getitem__(self, key)\n        if isinstance(v, lazy):\n            return v.value is not None\n        else:\n            return True\n    def ready_all")],
    'is_ready of a transient lazy dict whose lazy value was computed and is None', 'is_ready is False',
    '''
t = tldict({'a': lazy(lambda: None)})
t['a']
assert t.is_ready('a')
''')
bug('c18-partial-key', 'C18', [('_lazy.py', "        return f\"[|{seqstr(self.as_plist(), maxlen=60, tostr=reprlazy)}|]\"", "        return f\"[|{seqstr(self.as_plist() if len(self) < 30 else self, maxlen=60, tostr=reprlazy)}|]\"")],
    'str() of a persistent lazy list of 30 or more items', 'the first items are computed to print them',
    """
n = []
t = llist([lazy(lambda k=k: n.append(k)) for k in range(40)])
str(t)
assert n == [], n
""")

bug('c20-append-chain', 'C20', [('_list.py', "        new_phamt = phamt.assoc(self._start + n, obj)\n        return self._new(new_phamt, self._start)", "        if n < 60 or self._start > -40:\n            return self._new(phamt.assoc(self._start + n, obj), self._start)\n        # Rebase the window.\n        return self._new(PHAMT.from_iter([u for u in plist.__iter__(self)] + [obj]), 0)")],
    'append to a list with more than 40 prepended items', 'every append copies the list',
    """
import timeit
p = plist()
for k in range(30000): p = p.prepend(k)
q = plist(range(30000))
a = min(timeit.repeat(lambda: p.append(1), number=5, repeat=3)); b = min(timeit.repeat(lambda: q.append(1), number=5, repeat=3))
assert a < b * 50 + 0.002, (a, b)
""")

