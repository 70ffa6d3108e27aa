From dc5bebb55ef8e497645db139058366e9b6a94268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:37 +0000
Subject: [PATCH 01/42] fix: list slices with a zero stop, a negative step or a
 zero step

---
 pcollections/_list.py | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/pcollections/_list.py b/pcollections/_list.py
index e77e348..24744e3 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -166,19 +166,9 @@ class plist(PersistentSequence):
         phamt = self._phamt
         n = len(phamt)
         if isinstance(k, slice):
-            (start,stop,step) = (k.start or 0, k.stop or n, k.step or 1)
-            if   start <= -n: start = 0
-            elif start < 0:   start += n
-            elif start > n:   start = n
-            if   stop <= -n: stop = 0
-            elif stop < 0:   stop += n
-            elif stop > n:   stop = n
-            if st != 0:
-                start += st
-                stop += st
             thamt = THAMT(PHAMT.empty)
-            for (ii,jj) in enumerate(range(start, stop, step)):
-                thamt[ii] = phamt[jj]
+            for (ii,jj) in enumerate(range(*k.indices(n))):
+                thamt[ii] = phamt[jj + st]
             return self._new(thamt.persistent(), 0)
         elif k >= n or k < -n:
             raise IndexError("plist index out of range")
@@ -273,19 +263,9 @@ class tlist(TransientSequence):
         thamt = self._thamt
         n = len(thamt)
         if isinstance(k, slice):
-            (start,stop,step) = (k.start or 0, k.stop or n, k.step or 1)
-            if   start <= -n: start = 0
-            elif start < 0:   start += n
-            elif start > n:   start = n
-            if   stop <= -n: stop = 0
-            elif stop < 0:   stop += n
-            elif stop > n:   stop = n
-            if st != 0:
-                start += st
-                stop += st
             new_thamt = THAMT(PHAMT.empty)
-            for (ii,jj) in enumerate(range(start, stop, step)):
-                new_thamt[ii] = thamt[jj]
+            for (ii,jj) in enumerate(range(*k.indices(n))):
+                new_thamt[ii] = thamt[jj + st]
             return self._new(new_thamt, 0)
         elif k >= n or k < -n:
             raise IndexError("tlist index out of range")
-- 
2.43.0


From 514112dae9118be84dfd3a87d8e7fd0a76893594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 02/42] fix: pset.add raised UnboundLocalError for an element
 whose hash collides

---
 pcollections/_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pcollections/_set.py b/pcollections/_set.py
index 0f27017..e225068 100644
--- a/pcollections/_set.py
+++ b/pcollections/_set.py
@@ -102,6 +102,7 @@ class pset(PersistentSet):
             # list.
             new_els = self._els.assoc(self._top, (obj, None))
             new_els = new_els.assoc(ii_prev, (x_prev, self._top))
+            new_idx = self._idx
         return self._new(new_els, new_idx, self._top + 1)
     def discard(self, obj):
         """Returns a copy of the pset that does not include the given object.
-- 
2.43.0


From 92cd3ade8193efb9a53e0718bbdd42ded37d1044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 03/42] fix: pdict.set did not terminate for a new key whose
 hash collides

---
 pcollections/_dict.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 347cac2..f1e0346 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -194,6 +194,7 @@ class pdict(PersistentMapping):
             new_idx = self._idx.assoc(h, self._top)
         else:
             # First make sure it's not already in the dict.
+            ii_prev = None
             while ii is not None:
                 (kv,ii_next) = self._els[ii]
                 (k,v) = kv
@@ -205,10 +206,13 @@ class pdict(PersistentMapping):
                     else:
                         new_els = self._els.assoc(ii, ((key,val), ii_next))
                         return self._new(new_els, self._idx, self._top)
+                ii_prev = ii
+                ii = ii_next
             # If we reach this point, we can add the object to the end of the
             # list.
             new_els = self._els.assoc(self._top, ((key,val), None))
-            new_els = new_els.assoc(ii, (kv, self._top))
+            new_els = new_els.assoc(ii_prev, (kv, self._top))
+            new_idx = self._idx
         return self._new(new_els, new_idx, self._top + 1)
     def drop(self, key):
         """Returns a copy of the pdict that does not include the given key.
-- 
2.43.0


From 1e6b28a5f8de545b9c03a72cee9cb556abdd859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:42 +0000
Subject: [PATCH 04/42] fix: deleting either end of an llist gave a plist that
 exposes its lazy objects

---
 pcollections/_list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pcollections/_list.py b/pcollections/_list.py
index 24744e3..e587f36 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -92,11 +92,11 @@ class plist(PersistentSequence):
         # Some cases don't require a THAMT:
         if index == 0:
             if n == 1:
-                return plist.empty
+                return self.clear()
             else:
-                return plist._new(phamt.dissoc(st), st + 1)
+                return self._new(phamt.dissoc(st), st + 1)
         elif index == n - 1:
-            return plist._new(phamt.dissoc(st + index), st)
+            return self._new(phamt.dissoc(st + index), st)
         # Other cases require moving elements around a fair bit, so we use a
         # THAMT object.
         thamt = THAMT(phamt)
-- 
2.43.0


From 109f0396331dea4bee665d69e3fb51942f6ea21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:44 +0000
Subject: [PATCH 05/42] fix: llist.ready_all computed nothing

---
 pcollections/_lazy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index b3a5171..b6eb70f 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -230,7 +230,7 @@ class llist(plist):
             return True
     def ready_all(self):
         "Caches all lazy items then returns the list."
-        for el in self._phamt:
+        for (_,el) in self._phamt:
             if isinstance(el, lazy):
                 el()
         return self
-- 
2.43.0


From 56f17ab2a2b79935423b4327e87a1a619378e8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:45 +0000
Subject: [PATCH 06/42] fix: llist.count compared the lazy objects, not their
 values

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 51484fa..bfbf136 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -171,7 +171,7 @@ class PersistentSequence(Persistent, Sequence):
     def count(self, value):
         """Returns the number of occurences of value."""
         n = 0
-        for (k,obj) in self._phamt:
+        for obj in self:
             if obj == value: n += 1
         return n
     def extend(self, iterable):
-- 
2.43.0


From 7da45be17e982d6ea53aabae58a9e9588a1024fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 07/42] fix: tlist.count raised AttributeError

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index bfbf136..16d7bfa 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -407,7 +407,7 @@ class TransientSequence(Transient, MutableSequence):
     def count(self, value):
         """Returns the number of occurences of value."""
         n = 0
-        for (k,obj) in self._phamt:
+        for obj in self:
             if obj == value: n += 1
         return n
     def extend(self, iterable):
-- 
2.43.0


From d0687b1574b1d6c8999726090cdfd56dd5c9494b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 08/42] fix: list index() with negative bounds, and tlist.index
 without a stop

---
 pcollections/abc/_seq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 16d7bfa..f90405c 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -185,8 +185,7 @@ class PersistentSequence(Persistent, Sequence):
 
         Raises ValueError if value is not present.
         """
-        if stop is None:
-            stop = len(self)
+        (start, stop, _) = slice(start, stop).indices(len(self))
         if start == 0:
             for (ii,val) in enumerate(self):
                 if ii >= stop:
@@ -419,6 +418,7 @@ class TransientSequence(Transient, MutableSequence):
 
         Raises ValueError if value is not present.
         """
+        (start, stop, _) = slice(start, stop).indices(len(self))
         if start == 0:
             for (ii,val) in enumerate(self):
                 if ii >= stop:
-- 
2.43.0


From 268b2e9600167a71af7a20c2b7a097aaf39de004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 09/42] fix: tlist.sort raised NameError

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index f90405c..53da6ed 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -332,7 +332,7 @@ class TransientSequence(Transient, MutableSequence):
         The reverse flag can be set to sort in descending order.
         """
         for (ii,el) in enumerate(sorted(self, key=key, reverse=reverse)):
-            t[ii] = el
+            self[ii] = el
     def count(self, value):
         """Returns the number of occurences of value."""
         n = 0
-- 
2.43.0


From 848b244f7c25bc3e2a6e358cc7c31582b65c5118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 10/42] fix: tlist.reverse was off by one

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 53da6ed..cf86845 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -356,7 +356,7 @@ class TransientSequence(Transient, MutableSequence):
         """Reverses *IN PLACE*."""
         n = len(self)
         for k in range(n//2):
-            kk = n - k
+            kk = n - k - 1
             tmp = self[k]
             self[k] = self[kk]
             self[kk] = tmp
-- 
2.43.0


From 4559bd6fa94e2db17514a6398607d013d204570d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 11/42] fix: list + tlist raised NameError

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index cf86845..e5b6654 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -463,7 +463,7 @@ class TransientSequence(Transient, MutableSequence):
             t = self.copy()
             for el in reversed(obj):
                 t.prepend(el)
-            return r
+            return t
     def __imul__(self, value):
         if not isinstance(value, Integral):
             msg = f"can't multiply sequence by non-int of type '{type(value)}'"
-- 
2.43.0


From 4d00722c4509af8348db7044a9fddf2dbc49006c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 12/42] fix: repeating a tlist changed it while iterating it

---
 pcollections/abc/_seq.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index e5b6654..a8d97dd 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -474,13 +474,10 @@ class TransientSequence(Transient, MutableSequence):
         if reps == 0:
             self.clear()
         elif reps > 1:
-            n = len(self)
+            els = list(self)
             for r in range(reps - 1):
-                for (ii,el) in enumerate(self):
-                    if ii > n:
-                        break
-                    else:
-                        self.append(el)
+                for el in els:
+                    self.append(el)
         return self
     def __mul__(self, value):
         t = self.copy()
-- 
2.43.0


From 256402d3b5508aaa3b3b34887c08e111c1e2b11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:57 +0000
Subject: [PATCH 13/42] fix: extending a tlist with itself changed it while
 iterating it

---
 pcollections/abc/_seq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index a8d97dd..aef179c 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -411,6 +411,8 @@ class TransientSequence(Transient, MutableSequence):
         return n
     def extend(self, iterable):
         """Return a new persistent sequence with the iterables appended."""
+        if iterable is self:
+            iterable = list(iterable)
         for el in iterable:
             self.append(el)
     def index(self, value, start=0, stop=None):
-- 
2.43.0


From ea6f06bea9a2620862695192343466a68d6a806d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:59 +0000
Subject: [PATCH 14/42] fix: an empty plist plus an llist gave an llist, and
 the reverse a plist

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index aef179c..856036f 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -210,7 +210,7 @@ class PersistentSequence(Persistent, Sequence):
             raise TypeError(msg)
         elif len(obj) == 0:
             return self
-        elif len(self) == 0 and isinstance(obj, PersistentSequence):
+        elif len(self) == 0 and type(obj) is type(self):
             return obj
         else:
             return self.extend(obj)
-- 
2.43.0


From a91ce6f7d80df9ac602c5e61a157d02262d59e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:53 +0000
Subject: [PATCH 15/42] fix: tldict.as_tdict and holdlazy shared their storage
 with the tldict

---
 pcollections/_lazy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index b6eb70f..26e914c 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -484,7 +484,9 @@ class tldict(tdict):
         mapped to their associated `lazy` objects. This is essentially a way to
         expose the raw values of a lazy dictionary.
         """
-        return tdict._new(self._els, self._idx, self._top)
+        return tdict._new(THAMT(self._els.persistent()),
+                          THAMT(self._idx.persistent()),
+                          self._top)
     def __holdlazy__(self):
         return self.as_tdict()
     def getlazy(self, k, default=None):
-- 
2.43.0


From 83126364812cacba31bf9ac0347e8140c187a51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:55 +0000
Subject: [PATCH 16/42] fix: converting lazy lists to plist or tlist exposed
 their lazy objects

---
 pcollections/_lazy.py |  2 ++
 pcollections/_list.py | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 26e914c..757645d 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -283,6 +283,8 @@ class tllist(tlist):
             return self._orig
     def __getitem__(self, k):
         return unlazy(tlist.__getitem__(self, k))
+    def __holdlazy__(self):
+        return plist._new(self._thamt.persistent(), self._start)
     def getlazy(self, k):
         """Returns an element of the list without dereferecing lazy elements."""
         return tlist.__getitem__(self, k)
diff --git a/pcollections/_list.py b/pcollections/_list.py
index e587f36..23f8c81 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -33,6 +33,10 @@ class plist(PersistentSequence):
             msg = f"{cls.__name__} expects at most 1 argument, got {n}"
             raise TypeError(msg)
         arg = args[0]
+        # The items of a lazy list are computed when it is converted into a list
+        # that is not lazy.
+        if hasattr(arg, '__holdlazy__') and not hasattr(cls, '__holdlazy__'):
+            arg = list(arg)
         # If arg is a tlist, this is a special case.
         if isinstance(arg, tlist):
             if len(arg) == 0:
@@ -217,6 +221,12 @@ class tlist(TransientSequence):
         elif n == 0: return cls.empty()
         else: raise TypeError(f"tlist expects at most 1 argument, got {n}")
         arg = args[0]
+        # The items of a lazy list stay lazy only in another lazy list.
+        if hasattr(arg, '__holdlazy__'):
+            if hasattr(cls, '__holdlazy__'):
+                arg = arg.__holdlazy__()
+            else:
+                arg = list(arg)
         # If this is a plist, we know what to do with it.
         if isinstance(arg, plist):
             return cls._new(THAMT(arg._phamt), arg._start)
-- 
2.43.0


From 55685248847e23ef42ad63e562cb3224d39f7a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 17/42] fix: printing a tllist computed its lazy items

---
 pcollections/_lazy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 757645d..386cce7 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -271,6 +271,11 @@ class tllist(tlist):
     elements instead of the `lazy` objects themselves.
     """
     __slots__ = ()
+    def __str__(self):
+        # We have a max length of 60 characters, not counting the delimiters.
+        return f"[<{seqstr(self.__holdlazy__(), maxlen=60, tostr=reprlazy)}>]"
+    def __repr__(self):
+        return f"[<{seqstr(self.__holdlazy__())}>]"
     def __iter__(self):
         return map(unlazy, tlist.__iter__(self))
     def persistent(self):
-- 
2.43.0


From 5e15e581dfb85c62c88a7649bda3d25013144684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:58 +0000
Subject: [PATCH 18/42] fix: conversions between dict kinds exposed, forced or
 lost lazy items

---
 pcollections/_dict.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index f1e0346..8ff8c62 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -120,6 +120,13 @@ class pdict(PersistentMapping):
         else:
             msg = f"{cls.__name__} expects at most 1 argument, got {n}"
             raise TypeError(msg)
+        # The items of a lazy dict stay lazy only in another lazy dict.
+        if hasattr(arg, '__holdlazy__'):
+            if hasattr(cls, '__holdlazy__'):
+                if kw or type(arg) is not cls:
+                    arg = arg.__holdlazy__()
+            else:
+                arg = list(arg.items())
         # If any keyword options were given, we route through tdict.
         if not kw:
             # If arg is a tdict and no keyword arguments have been given, this
@@ -401,14 +408,19 @@ class tdict(TransientMapping):
                 kw = None
         else:
             raise TypeError(f"pdict expects at most 1 argument, got {n}")
-        # If arg is a tdict or pdict, this is a special case.
+        # The items of a lazy dict stay lazy only in another lazy dict.
+        if hasattr(arg, '__holdlazy__') and hasattr(cls, '__holdlazy__'):
+            arg = arg.__holdlazy__()
+        # If arg is a tdict or pdict, this is a special case. (Note that only a
+        # tdict can return the original pdict when it is made persistent.)
         if type(arg) is tdict:
             obj = cls._new(THAMT(arg._els.persistent()),
                            THAMT(arg._idx.persistent()),
                            arg._top,
-                           arg._orig)
+                           arg._orig if cls is tdict else None)
         elif type(arg) is pdict:
-            obj = cls._new(THAMT(arg._els), THAMT(arg._idx), arg._top, arg)
+            obj = cls._new(THAMT(arg._els), THAMT(arg._idx), arg._top,
+                           arg if cls is tdict else None)
         else:
             obj = cls._new(THAMT(PHAMT.empty), THAMT(PHAMT.empty), 0)
             if isinstance(arg, Mapping):
-- 
2.43.0


From 509bf094b41531d665fe00d01786d4e596f23356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:31 +0000
Subject: [PATCH 19/42] fix: list comparisons ordered equal or incomparable
 elements

---
 pcollections/abc/_seq.py      | 25 ++++++++++++-------------
 pcollections/util/__init__.py |  2 +-
 pcollections/util/_core.py    | 23 +++++++++++++++++++++--
 3 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 856036f..f4d7df7 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -6,10 +6,11 @@
 # By Noah C. Benson
 
 from numbers         import (Integral)
+from operator        import (lt, le, gt, ge)
 from collections.abc import (Sequence, MutableSequence)
 
 from ._core import (Persistent, Transient)
-from ..util import (seqstr, seqcmp)
+from ..util import (seqstr, seqeq, seqop)
 
 
 #===============================================================================
@@ -137,27 +138,27 @@ class PersistentSequence(Persistent, Sequence):
         elif not isinstance(other, PersistentSequence._eq_types):
             return False
         else:
-            return seqcmp(self, other) == 0
+            return seqeq(self, other)
     def __lt__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) < 0
+        return seqop(lt, self, other)
     def __le__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<=' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) <= 0
+        return seqop(le, self, other)
     def __gt__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'>' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) > 0
+        return seqop(gt, self, other)
     def __ge__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'>=' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) >= 0
+        return seqop(ge, self, other)
     def __hash__(self):
         return hash(tuple(self)) + 1
     def __contains__(self, value):
@@ -371,30 +372,28 @@ class TransientSequence(Transient, MutableSequence):
             return True
         elif not isinstance(other, TransientSequence._eq_types):
             return False
-        elif len(self) != len(other):
-            return False
         else:
-            return seqcmp(self, other) == 0
+            return seqeq(self, other)
     def __lt__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) < 0
+        return seqop(lt, self, other)
     def __le__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<=' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) <= 0
+        return seqop(le, self, other)
     def __gt__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'>' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) > 0
+        return seqop(gt, self, other)
     def __ge__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'>=' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) >= 0
+        return seqop(ge, self, other)
     def __contains__(self, value):
         for el in self:
             if el == value:
diff --git a/pcollections/util/__init__.py b/pcollections/util/__init__.py
index af5a7e0..c33c1aa 100644
--- a/pcollections/util/__init__.py
+++ b/pcollections/util/__init__.py
@@ -7,4 +7,4 @@
 """Utility functions for persistent and transient collections.
 """
 
-from ._core import (setcmp, seqcmp, seqstr)
+from ._core import (setcmp, seqcmp, seqeq, seqop, seqstr)
diff --git a/pcollections/util/_core.py b/pcollections/util/_core.py
index e4255c4..eaa666f 100644
--- a/pcollections/util/_core.py
+++ b/pcollections/util/_core.py
@@ -55,13 +55,15 @@ def seqcmp(seq1, seq2):
     `b`, and 1 if `a` sorts after `b`.
     """
     if not isinstance(seq1, Sequence):
-        msg = f"unsupported operand type for compare: {type(setq)}"
+        msg = f"unsupported operand type for compare: {type(seq1)}"
         raise TypeError(msg)
     if not isinstance(seq2, Sequence):
         msg = f"unsupported operand type for compare: {type(seq2)}"
         raise TypeError(msg)
     for (a,b) in zip(seq1, seq2):
-        if a < b:
+        if a is b or a == b:
+            continue
+        elif a < b:
             return -1
         elif b < a:
             return 1
@@ -74,6 +76,23 @@ def seqcmp(seq1, seq2):
     else:
         return 0
     
+def seqop(op, seq1, seq2):
+    """Applies a comparison operator to two sequences the way that `list` does.
+
+    `seqop(op, a, b)` applies the function `op` (such as `operator.lt`) to the
+    elements at the first position at which `a` and `b` differ; if they do not
+    differ, then `op` is applied to their lengths.
+    """
+    for (a,b) in zip(seq1, seq2):
+        if not (a is b or a == b):
+            return op(a, b)
+    return op(len(seq1), len(seq2))
+
+def seqeq(seq1, seq2):
+    """Returns `True` if two sequences have equal elements in the same order."""
+    return (len(seq1) == len(seq2)
+            and all(a is b or a == b for (a,b) in zip(seq1, seq2)))
+
 def seqstr(seq, maxlen=None, sep=", ", tostr=repr):
     """Returns a string representation of the given sequence or iterable.
 
-- 
2.43.0


From e8098c472986c9eeb2de00745ea94710780f200f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:33 +0000
Subject: [PATCH 20/42] fix: isdisjoint was False for empty sets and refused
 iterables

---
 pcollections/abc/_set.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 8fac331..33eac36 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -165,9 +165,7 @@ class PersistentSet(Set, Persistent):
         return type(self)(t)
     def isdisjoint(self, other):
         """Returns `True` if two sets have a null intersection."""
-        if not isinstance(other, Set):
-            other = set(other)
-        return setcmp(self, other) is None
+        return all(el not in self for el in other)
     def issubset(self, other):
         """Report whether another set contains this set."""
         if not isinstance(other, (set, frozenset)):
@@ -376,7 +374,7 @@ class TransientSet(MutableSet, Transient):
         return c == 1 or c == 0
     def isdisjoint(self, other):
         """Returns `True` if two sets have a null intersection."""
-        return setcmp(self, other) is None
+        return all(el not in self for el in other)
     def issubset(self, other):
         """Report whether another set contains this set."""
         if not isinstance(other, (set, frozenset)):
-- 
2.43.0


From 5701309a6e41ef75587673da24e5e6c44643b64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:57 +0000
Subject: [PATCH 21/42] fix: pset.symmetric_difference returned the original
 set when sizes agreed

---
 pcollections/abc/_set.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 33eac36..f020d40 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -207,8 +207,6 @@ class PersistentSet(Set, Persistent):
         t = self.transient()
         for arg in args:
             t ^= arg
-        if len(t) == len(self):
-            return self
         return type(self)(t)
     def union(self, *args):
         """Returns the union of the persistent set and all arguments."""
-- 
2.43.0


From 6ad4666fe3eaea6744303d562d84d16b731da526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:59 +0000
Subject: [PATCH 22/42] fix: tset.symmetric_difference_update raised NameError

---
 pcollections/abc/_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index f020d40..67490da 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -410,7 +410,7 @@ class TransientSet(MutableSet, Transient):
         return t
     def symmetric_difference_update(self, other):
         """Update a set with the symmetric difference of itself and another."""
-        self ^= arg
+        self ^= other
     def symmetric_difference(self, other):
         """Return the symmetric difference of two sets as a new set.
 
-- 
2.43.0


From 4661512a20e58469b707848882bf6fc0713e03ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 23/42] fix: set intersection and symmetric_difference methods
 refused iterables

---
 pcollections/abc/_set.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 67490da..2455fc5 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -195,7 +195,7 @@ class PersistentSet(Set, Persistent):
         """
         t = self.transient()
         for arg in args:
-            t &= arg
+            t &= (arg if isinstance(arg, Set) else set(arg))
         if len(t) == len(self):
             return self
         return type(self)(t)
@@ -206,7 +206,7 @@ class PersistentSet(Set, Persistent):
         """
         t = self.transient()
         for arg in args:
-            t ^= arg
+            t ^= (arg if isinstance(arg, Set) else set(arg))
         return type(self)(t)
     def union(self, *args):
         """Returns the union of the persistent set and all arguments."""
@@ -399,7 +399,7 @@ class TransientSet(MutableSet, Transient):
     def intersection_update(self, *args):
         """Update a set with the intersection of itself and another."""
         for arg in args:
-            self &= arg
+            self &= (arg if isinstance(arg, Set) else set(arg))
     def intersection(self, *args):
         """Return the intersection of two sets as a new transient set.
 
@@ -410,7 +410,7 @@ class TransientSet(MutableSet, Transient):
         return t
     def symmetric_difference_update(self, other):
         """Update a set with the symmetric difference of itself and another."""
-        self ^= other
+        self ^= (other if isinstance(other, Set) else set(other))
     def symmetric_difference(self, other):
         """Return the symmetric difference of two sets as a new set.
 
-- 
2.43.0


From cb3088713974cc512b596bcea4fe99ab85f8cf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:02 +0000
Subject: [PATCH 24/42] fix: comparing a tset to a non-set for equality raised
 TypeError

---
 pcollections/abc/_set.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 2455fc5..5f1045c 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -355,9 +355,15 @@ class TransientSet(MutableSet, Transient):
         #return f"{{<{s[1:-1]}>}}"
         return f"{{<{seqstr(self)}>}}"
     def __eq__(self, other):
-        return setcmp(self, other) == 0
+        if isinstance(other, Set):
+            return setcmp(self, other) == 0
+        else:
+            return False
     def __ne__(self, other):
-        return setcmp(self, other) != 0
+        if isinstance(other, Set):
+            return setcmp(self, other) != 0
+        else:
+            return True
     def __hash__(self):
         return hash(frozenset(self)) + 1
     def __lt__(self, other):
-- 
2.43.0


From d15122771d6514f5efe175ccd0ad932d71dae644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:03 +0000
Subject: [PATCH 25/42] fix: a pset's hash differed from the hash of an equal
 frozenset

---
 pcollections/abc/_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 5f1045c..3e4006c 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -95,7 +95,7 @@ class PersistentSet(Set, Persistent):
         else:
             return True
     def __hash__(self):
-        return hash(frozenset(self)) + 1
+        return hash(frozenset(self))
     def __lt__(self, other):
         return setcmp(self, other) == -1
     def __le__(self, other):
@@ -365,7 +365,7 @@ class TransientSet(MutableSet, Transient):
         else:
             return True
     def __hash__(self):
-        return hash(frozenset(self)) + 1
+        return hash(frozenset(self))
     def __lt__(self, other):
         return setcmp(self, other) == -1
     def __le__(self, other):
-- 
2.43.0


From 1122f91cd569ba5e24ee0432f75554c5633dec51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 26/42] fix: removing a tset's members from itself changed it
 while iterating it

---
 pcollections/abc/_set.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 3e4006c..f0771a1 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -500,6 +500,9 @@ class TransientSet(MutableSet, Transient):
         if not isinstance(other, Set):
             raise TypeError(f"unsupported operand type for ^=:"
                             f" '{type(self)}' and '{type(other)}'")
+        if other is self:
+            self.clear()
+            return self
         rm = []
         for el in self:
             if el in other:
@@ -543,6 +546,8 @@ class TransientSet(MutableSet, Transient):
 
         If any element is not found, then it is ignored.
         """
+        if iterable is self:
+            iterable = list(iterable)
         for el in iterable:
             self.discard(el)
     def removeall(self, iterable):
@@ -551,6 +556,8 @@ class TransientSet(MutableSet, Transient):
 
         If any element is not found, then a `KeyError` is raised.
         """
+        if iterable is self:
+            iterable = list(iterable)
         for el in iterable:
             self.remove(el)
     def copy(self):
-- 
2.43.0


From 116d65c6a237d6dc8b8adf6cc4bc3785a70d2a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 27/42] fix: membership in the values of a tdict or tldict
 raised AttributeError

---
 pcollections/_dict.py | 2 +-
 pcollections/_lazy.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 8ff8c62..6acc93e 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -361,7 +361,7 @@ class tdict_values(ValuesView, tdict_view):
     def _from_kv(self, arg):
         return arg[1]
     def __contains__(self, v):
-        for (kv,_) in self._els:
+        for (_,(kv,_)) in self._tdict._els:
             if kv[1] == v:
                 return True
         return False
diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 386cce7..ce385bd 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -422,11 +422,11 @@ class tldict_values(tdict_values):
     def _from_kv(self, arg):
         return unlazy(arg[1])
     def __contains__(self, v):
-        for (kv,_) in self._els:
+        for (_,(kv,_)) in self._tdict._els:
             if not isinstance(kv[1], lazy):
                 if kv[1] == v:
                     return True
-        for (kv,_) in self._els:
+        for (_,(kv,_)) in self._tdict._els:
             if isinstance(kv[1], lazy):
                 if kv[1]() == v:
                     return True
-- 
2.43.0


From add49f9e44601f2543db397aff9279ffe5339561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 28/42] fix: dict dropall raised AttributeError

---
 pcollections/abc/_map.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index c957b6f..95add5c 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -122,7 +122,8 @@ class PersistentMapping(Mapping, Persistent):
         """
         t = self.transient()
         for k in keys:
-            t.drop(k)
+            if k in t:
+                del t[k]
         return type(self)(t)
     def deleteall(self, keys):
         """Returns a copy of the persistent mapping that excludes all the keys
-- 
2.43.0


From 5de95533588e2b13cbb68263167f4fc4320638e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 29/42] fix: tldict.pop did not terminate

---
 pcollections/_lazy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index ce385bd..b1f29cd 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -510,7 +510,7 @@ class tldict(tdict):
     def get(self, k, default=None):
         return unlazy(tdict.get(self, k, default))
     def pop(self, *args):
-        return unlazy(self.pop(*args))
+        return unlazy(tdict.pop(self, *args))
     def items(self):
         return tldict_items(self)
     def values(self):
-- 
2.43.0


From d40dc2cdc0961fd8a00b9e36c4596bf62ece4cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:26 +0000
Subject: [PATCH 30/42] fix: ldict.pop gave out the lazy object instead of its
 value

---
 pcollections/_lazy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index b1f29cd..5b3b956 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -349,6 +349,9 @@ class ldict(pdict):
         if isinstance(v, lazy):
             v = v()
         return v
+    def pop(self, key, *args):
+        (v, d) = pdict.pop(self, key, *args)
+        return (unlazy(v), d)
     def items(self):
         return ldict_items(self)
     def values(self):
-- 
2.43.0


From 2ae69f15aa9dfbc9bbd424e4837047fe51dd99cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 31/42] fix: an ldict's hash differed from the hash of an equal
 pdict

---
 pcollections/abc/_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index 95add5c..d0204d1 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -85,7 +85,7 @@ class PersistentMapping(Mapping, Persistent):
     def __repr__(self):
         return f"{{|{seqstr(self)}|}}"
     def __hash__(self):
-        return hash(frozenset(map(lambda u: u[1][0], self._els))) + 2
+        return hash(frozenset(self.items())) + 2
     def __contains__(self, k):
         try:
             self[k]
-- 
2.43.0


From c857af5ba9e483aba3ea36f83f39f5f6519f6c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 32/42] fix: tldict.pop removed an item whose lazy value raised
 an error

---
 pcollections/_lazy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 5b3b956..8d5f29c 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -512,8 +512,10 @@ class tldict(tdict):
         return unlazy(tdict.__getitem__(self, k))
     def get(self, k, default=None):
         return unlazy(tdict.get(self, k, default))
-    def pop(self, *args):
-        return unlazy(tdict.pop(self, *args))
+    def pop(self, key, *args):
+        # If the value can't be computed, then the item must not be removed.
+        unlazy(tdict.get(self, key))
+        return unlazy(tdict.pop(self, key, *args))
     def items(self):
         return tldict_items(self)
     def values(self):
-- 
2.43.0


From f7c694e91ad91a90cb68df77b8790744ae8a4219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:26 +0000
Subject: [PATCH 33/42] fix: changes to a tdict during iteration were missed,
 and replacing a value raised

---
 pcollections/_dict.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 6acc93e..09aa30a 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -496,13 +496,16 @@ class tdict(TransientMapping):
                 return kv[1]
         return default
     def __iter__(self):
-        v0 = self._version
-        def _iter_key(arg):
-            if v0 < self._version:
+        # We iterate over a snapshot because replacing the value of a key while
+        # iterating is allowed.
+        return self._iter_keys(self._version, self._els.persistent())
+    def _iter_keys(self, v0, els):
+        for (_,((k,_),_)) in els:
+            if v0 != self._version:
                 raise RuntimeError(f"{type(self)} changed during iteration")
-            else:
-                return arg[1][0][0]
-        return map(_iter_key, self._els)
+            yield k
+        if v0 != self._version:
+            raise RuntimeError(f"{type(self)} changed during iteration")
     def __delitem__(self, key):
         # Get the hash and initial index (if there is one).
         h = hash(key)
@@ -539,7 +542,8 @@ class tdict(TransientMapping):
         object.__setattr__(self, '_els', THAMT(PHAMT.empty))
         object.__setattr__(self, '_idx', THAMT(PHAMT.empty))
         object.__setattr__(self, '_top', 0)
-        object.__setattr__(self, '_version', 0)
+        object.__setattr__(self, '_version', self._version + 1)
+        object.__setattr__(self, '_orig', None)
         return None
     def pop(self, key, *args):
         """Removes the given key from the tdict and returns the previously
-- 
2.43.0


From deebaba5829b6fc892cee1320c6156530d0034bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:28 +0000
Subject: [PATCH 34/42] fix: dicts could not be given cls or self as a keyword

---
 pcollections/_dict.py    | 8 ++++++--
 pcollections/abc/_map.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 09aa30a..adecce2 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -107,7 +107,9 @@ class pdict(PersistentMapping):
         object.__setattr__(new_pdict, '_hashcode', None)
         return new_pdict
     __slots__ = ("_els", "_idx", "_top", "_hashcode")
-    def __new__(cls, *args, **kw):
+    def __new__(*args, **kw):
+        # Any keyword is a key, including cls.
+        (cls, args) = (args[0], args[1:])
         n = len(args)
         if n == 1:
             arg = args[0]
@@ -396,7 +398,9 @@ class tdict(TransientMapping):
         """Returns an empty tdict."""
         return cls._new(THAMT(PHAMT.empty), THAMT(PHAMT.empty), 0)
     __slots__ = ("_els", "_idx", "_top","_version")
-    def __new__(cls, *args, **kw):
+    def __new__(*args, **kw):
+        # Any keyword is a key, including cls.
+        (cls, args) = (args[0], args[1:])
         n = len(args)
         if n == 1:
             arg = args[0]
diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index d0204d1..b04839c 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -170,13 +170,15 @@ class PersistentMapping(Mapping, Persistent):
                 raise
             else:
                 return (args[0], self)
-    def update(self, *args, **kw):
+    def update(*args, **kw):
         """Returns a copy of the persistent mapping with the key-value pairs in
         the iterable/mapping `arg` and the keyword arguments included.
 
         Multiple arguments may be provided, but they must each be a mapping or
         an iterable of items.
         """
+        # Any keyword is a key, including self.
+        (self, args) = (args[0], args[1:])
         t = self.transient()
         for arg in args:
             for (k,v) in (arg.items() if isinstance(arg, Mapping) else arg):
@@ -297,13 +299,15 @@ class TransientMapping(MutableMapping, Transient):
                 raise
             else:
                 return args[0]
-    def update(self, *args, **kw):
+    def update(*args, **kw):
         """Updates the transient mapping with items from the arguments and
         options.
 
         Multiple arguments may be provided, but they must each be either a
         mapping or an iterable of items.
         """
+        # Any keyword is a key, including self.
+        (self, args) = (args[0], args[1:])
         for arg in args:
             for (k,v) in (arg.items() if isinstance(arg, Mapping) else arg):
                 self[k] = v
-- 
2.43.0


From a27dd1a27496f1e496424234a684571d79112209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 35/42] fix: seqstr exceeded maxlen when an item's text was
 empty

---
 pcollections/util/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/util/_core.py b/pcollections/util/_core.py
index eaa666f..edfd289 100644
--- a/pcollections/util/_core.py
+++ b/pcollections/util/_core.py
@@ -118,7 +118,7 @@ def seqstr(seq, maxlen=None, sep=", ", tostr=repr):
         s = tostr(el)
         parts.append(s)
         n = len(s)
-        N = n if N == 0 else N + seplen + n
+        N = n if len(parts) == 1 else N + seplen + n
         if N > maxlen:
             # We've overshot; remove the final element if need-be.
             while len(parts) > 0 and N + elllen > maxlen:
-- 
2.43.0


From a5c6313de2c6c4f34154b9899a999edab48e3979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:46 +0000
Subject: [PATCH 36/42] fix: attributes of persistent collections could be
 deleted

---
 pcollections/abc/_core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pcollections/abc/_core.py b/pcollections/abc/_core.py
index ae2a404..329b2a8 100644
--- a/pcollections/abc/_core.py
+++ b/pcollections/abc/_core.py
@@ -14,9 +14,11 @@ class Persistent(Hashable):
     # Methods that should throw errors in children.
     def __setattr__(self, k, v):
         raise TypeError(f"{type(self)} is immutable")
+    def __delattr__(self, k):
+        raise TypeError(f"{type(self)} is immutable")
     def __setitem__(self, k, v):
         raise TypeError(f"{type(self)} is immutable")
-    def __delitem__(self, k, v):
+    def __delitem__(self, k):
         raise TypeError(f"{type(self)} is immutable")
     # Implementation methods that are probably fine in all children.
     def copy(self):
-- 
2.43.0


From 501bb237619618bebefcfdaabdaeaf4c48519513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:19 +0000
Subject: [PATCH 37/42] fix: LazyError of a partial object could not be printed

---
 pcollections/_lazy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 8d5f29c..6d528f0 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -37,6 +37,7 @@ class LazyError(RuntimeError):
         self.partial = partial
     def __str__(self):
         if isinstance(self.partial, partial):
+            p = self.partial
             (fn, args, kwargs) = (p.func, p.args, p.keywords)
         else:
             (fn, args, kwargs) = self.partial
-- 
2.43.0


From 1fec324ef2126b8557032fc452403d7c8d21fb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:40 +0000
Subject: [PATCH 38/42] fix: sets find members that do not equal themselves
 (NaN), as set does, by identity first

---
 pcollections/_set.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pcollections/_set.py b/pcollections/_set.py
index e225068..449ad1b 100644
--- a/pcollections/_set.py
+++ b/pcollections/_set.py
@@ -65,7 +65,7 @@ class pset(PersistentSet):
         ii = self._idx.get(h, None)
         while ii is not None:
             (x,ii) = self._els[ii]
-            if el == x:
+            if el is x or el == x:
                 return True
         return False
     def __iter__(self):
@@ -93,7 +93,7 @@ class pset(PersistentSet):
             ii_prev = None
             while ii is not None:
                 (x,ii_next) = self._els[ii]
-                if obj == x:
+                if obj is x or obj == x:
                     return self
                 ii_prev = ii
                 x_prev = x
@@ -117,7 +117,7 @@ class pset(PersistentSet):
         x_prev = None
         while ii is not None:
             (x,ii_next) = self._els[ii]
-            if obj == x:
+            if obj is x or obj == x:
                 # We remove this object!
                 if ii_prev is None:
                     # We're removing from the front of the list.
@@ -200,7 +200,7 @@ class tset(TransientSet):
         ii = self._idx.get(h, None)
         while ii is not None:
             (x,ii) = self._els[ii]
-            if el == x:
+            if el is x or el == x:
                 return True
         return False
     def __iter__(self):
@@ -221,7 +221,7 @@ class tset(TransientSet):
             ii_prev = None
             while ii is not None:
                 (x,ii_next) = self._els[ii]
-                if obj == x:
+                if obj is x or obj == x:
                     return None
                 ii_prev = ii
                 x_prev = x
@@ -245,7 +245,7 @@ class tset(TransientSet):
         x_prev = None
         while ii is not None:
             (x,ii_next) = self._els[ii]
-            if obj == x:
+            if obj is x or obj == x:
                 # We remove this object!
                 if ii_prev is None:
                     # We're removing from the front of the list.
-- 
2.43.0


From 4d969f8f8980c9bd1993f1d9e3447e8f7cddf60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:42 +0000
Subject: [PATCH 39/42] fix: dicts find keys that do not equal themselves
 (NaN), as dict does, by identity first

---
 pcollections/_dict.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index adecce2..951bfd2 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -164,7 +164,7 @@ class pdict(PersistentMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             ((kk,vv),ii) = self._els[ii]
-            if k == kk:
+            if k is kk or k == kk:
                 return True
         return False
     def __iter__(self):
@@ -176,7 +176,7 @@ class pdict(PersistentMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             (kv,ii) = self._els[ii]
-            if key == kv[0]:
+            if key is kv[0] or key == kv[0]:
                 return kv[1]
         raise KeyError(key)
     def get(self, key, default=None):
@@ -184,7 +184,7 @@ class pdict(PersistentMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             (kv,ii) = self._els[ii]
-            if key == kv[0]:
+            if key is kv[0] or key == kv[0]:
                 return kv[1]
         return default
     def transient(self):
@@ -207,7 +207,7 @@ class pdict(PersistentMapping):
             while ii is not None:
                 (kv,ii_next) = self._els[ii]
                 (k,v) = kv
-                if key == k:
+                if key is k or key == k:
                     # It is in the dict; either it's exactly in the dict or we
                     # replace it.
                     if val is v:
@@ -237,7 +237,7 @@ class pdict(PersistentMapping):
         while ii is not None:
             (kv,ii_next) = self._els[ii]
             (k,v) = kv
-            if key == k:
+            if key is k or key == k:
                 # We remove this entry!
                 if ii_prev is None:
                     # We're removing from the front of the list.
@@ -280,7 +280,7 @@ class pdict(PersistentMapping):
         while ii is not None:
             (kv,ii_next) = self._els[ii]
             (k,v) = kv
-            if key == k:
+            if key is k or key == k:
                 # We remove this entry!
                 if ii_prev is None:
                     # We're removing from the front of the list.
@@ -446,7 +446,7 @@ class tdict(TransientMapping):
         ii_prev = None
         while ii is not None:
             (kv, ii_next) = self._els[ii]
-            if kv[0] == k:
+            if kv[0] is k or kv[0] == k:
                 if kv[1] is not v:
                     self._els[ii] = ((k,v), ii_next)
                     # The object has changed, so make sure we aren't tracking
@@ -478,7 +478,7 @@ class tdict(TransientMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             ((kk,vv),ii) = self._els[ii]
-            if k == kk:
+            if k is kk or k == kk:
                 return True
         return False
     def __reversed__(self):
@@ -488,7 +488,7 @@ class tdict(TransientMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             (kv,ii) = self._els[ii]
-            if key == kv[0]:
+            if key is kv[0] or key == kv[0]:
                 return kv[1]
         raise KeyError(key)
     def get(self, key, default=None):
@@ -496,7 +496,7 @@ class tdict(TransientMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             (kv,ii) = self._els[ii]
-            if key == kv[0]:
+            if key is kv[0] or key == kv[0]:
                 return kv[1]
         return default
     def __iter__(self):
@@ -520,7 +520,7 @@ class tdict(TransientMapping):
         while ii is not None:
             (kv,ii_next) = self._els[ii]
             (k,v) = kv
-            if key == k:
+            if key is k or key == k:
                 # We remove this entry!
                 if ii_prev is None:
                     # We're removing from the front of the list.
@@ -566,7 +566,7 @@ class tdict(TransientMapping):
         while ii is not None:
             (kv,ii_next) = self._els[ii]
             (k,v) = kv
-            if key == k:
+            if key is k or key == k:
                 # We remove this entry!
                 if ii_prev is None:
                     # We're removing from the front of the list.
-- 
2.43.0


From 9ce7a8bca9174a5660b91939e6fda20b292eb41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:43 +0000
Subject: [PATCH 40/42] fix: in, count, index and remove of sequences test
 identity before equality, as list does

---
 pcollections/abc/_seq.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index f4d7df7..b33c7e7 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -163,7 +163,7 @@ class PersistentSequence(Persistent, Sequence):
         return hash(tuple(self)) + 1
     def __contains__(self, value):
         for el in self:
-            if el == value:
+            if el is value or el == value:
                 return True
         return False
     def __reversed__(self):
@@ -173,7 +173,7 @@ class PersistentSequence(Persistent, Sequence):
         """Returns the number of occurences of value."""
         n = 0
         for obj in self:
-            if obj == value: n += 1
+            if obj is value or obj == value: n += 1
         return n
     def extend(self, iterable):
         """Return a new persistent sequence with the iterables appended."""
@@ -191,7 +191,7 @@ class PersistentSequence(Persistent, Sequence):
             for (ii,val) in enumerate(self):
                 if ii >= stop:
                     break
-                elif val == value:
+                elif val is value or val == value:
                     return ii
         else:
             for (ii,val) in enumerate(self):
@@ -199,7 +199,7 @@ class PersistentSequence(Persistent, Sequence):
                     break
                 elif ii < start:
                     pass
-                elif val == value:
+                elif val is value or val == value:
                     return ii
         raise ValueError(f"{value} is not in {type(self)}")
     # We include a hash function; though this should be overwritten to cache the
@@ -338,7 +338,7 @@ class TransientSequence(Transient, MutableSequence):
         """Returns the number of occurences of value."""
         n = 0
         for obj in self:
-            if obj == value: n += 1
+            if obj is value or obj == value: n += 1
         return n
     def extend(self, iterable):
         """Extends tlist by appending elements from the iterable."""
@@ -350,7 +350,7 @@ class TransientSequence(Transient, MutableSequence):
         Raises ValueError if value is not present.
         """
         for (ii,el) in enumerate(self):
-            if value == el:
+            if value is el or value == el:
                 return ii
         raise ValueError(f'{value} is not in {type(self)}')
     def reverse(self):
@@ -396,7 +396,7 @@ class TransientSequence(Transient, MutableSequence):
         return seqop(ge, self, other)
     def __contains__(self, value):
         for el in self:
-            if el == value:
+            if el is value or el == value:
                 return True
         return False
     def __reversed__(self):
@@ -406,7 +406,7 @@ class TransientSequence(Transient, MutableSequence):
         """Returns the number of occurences of value."""
         n = 0
         for obj in self:
-            if obj == value: n += 1
+            if obj is value or obj == value: n += 1
         return n
     def extend(self, iterable):
         """Return a new persistent sequence with the iterables appended."""
@@ -424,7 +424,7 @@ class TransientSequence(Transient, MutableSequence):
             for (ii,val) in enumerate(self):
                 if ii >= stop:
                     break
-                elif val == value:
+                elif val is value or val == value:
                     return ii
         else:
             for (ii,val) in enumerate(self):
@@ -432,7 +432,7 @@ class TransientSequence(Transient, MutableSequence):
                     break
                 elif ii < start:
                     pass
-                elif val == value:
+                elif val is value or val == value:
                     return ii
         raise ValueError(f"{value} is not in {type(self)}")
     def __iadd__(self, obj):
-- 
2.43.0


From cd7eeb48d357cd215919edd7b952754b57a1897a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:45 +0000
Subject: [PATCH 41/42] fix: items and values views test identity first, and an
 absent key is never in items

---
 pcollections/_dict.py | 13 +++++++------
 pcollections/_lazy.py |  5 +++--
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 951bfd2..1fbfe9b 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -72,10 +72,10 @@ class pdict_items(ItemsView, PDictView):
         if not isinstance(kv, tuple) or len(kv) != 2:
             return False
         (k0,v0) = self._from_kv(kv)
-        d = Ellipsis if v0 is None else None
+        d = object()
         v = self._mapping.get(k0, d)
         (k,v) = self._from_kv((k0,v))
-        return v0 == v
+        return v is not d and (v is v0 or v0 == v)
 class pdict_values(ValuesView, PDictView):
     __slots__ = ()
     def _from_kv(self, kv):
@@ -83,7 +83,7 @@ class pdict_values(ValuesView, PDictView):
     def __contains__(self, v):
         for ent in self._mapping._els:
             v0 = self._from_kv(ent[1][0])
-            if v0 == v:
+            if v0 is v or v0 == v:
                 return True
         return False
 class pdict(PersistentMapping):
@@ -356,15 +356,16 @@ class tdict_items(ItemsView, tdict_view):
     def __contains__(self, kv):
         if not isinstance(kv, tuple) or len(kv) != 2:
             return False
-        d = Ellipsis if kv[1] is None else None
-        return self._tdict.get(kv[0], d) == kv[1]
+        d = object()
+        v = self._tdict.get(kv[0], d)
+        return v is not d and (v is kv[1] or v == kv[1])
 class tdict_values(ValuesView, tdict_view):
     __slots__ = ('_tdict', '_version')
     def _from_kv(self, arg):
         return arg[1]
     def __contains__(self, v):
         for (_,(kv,_)) in self._tdict._els:
-            if kv[1] == v:
+            if kv[1] is v or kv[1] == v:
                 return True
         return False
 class tdict(TransientMapping):
diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 6d528f0..8986cb9 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -428,11 +428,12 @@ class tldict_values(tdict_values):
     def __contains__(self, v):
         for (_,(kv,_)) in self._tdict._els:
             if not isinstance(kv[1], lazy):
-                if kv[1] == v:
+                if kv[1] is v or kv[1] == v:
                     return True
         for (_,(kv,_)) in self._tdict._els:
             if isinstance(kv[1], lazy):
-                if kv[1]() == v:
+                val = kv[1]()
+                if val is v or val == v:
                     return True
         return False
 class tldict(tdict):
-- 
2.43.0


From cfb8454ad903583b4a436cb734080fe6fddfa5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:47 +0000
Subject: [PATCH 42/42] fix: lazy accepts keyword arguments named fn and cls
 for its function, as partial does

---
 pcollections/_lazy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 8986cb9..dbe4fe9 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -64,7 +64,11 @@ class lazy:
     forgotten.
     """
     __slots__ = ('partial', 'value')
-    def __new__(cls, fn, *args, **kw):
+    def __new__(*args, **kw):
+        # As in partial, any keyword, even cls or fn, belongs to the function.
+        if len(args) < 2:
+            raise TypeError("lazy() must be given a callable function")
+        (cls, fn, *args) = args
         # Make sure the function is callable.
         if not callable(fn):
             raise TypeError(f"lazy({fn}) must be given a callable function")
-- 
2.43.0

