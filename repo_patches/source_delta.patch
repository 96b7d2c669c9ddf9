From 5d52bd5169a636a34fd40cc1a53121143b8e6e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 01/42] fix: unlink() and disjoin() must not fail for events
 that were never linked

---
 causetevent.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index efe1772..b884e43 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -214,8 +214,9 @@ class CausetEvent(object):
         '''
         Force the CausetEvent instance to reset its link memory.
         '''
-        delattr(self, '_lprec')
-        delattr(self, '_lsucc')
+        for attr in ('_lprec', '_lsucc'):
+            if hasattr(self, attr):
+                delattr(self, attr)
 
     @classmethod
     def isLink(cls, a: 'CausetEvent', b: 'CausetEvent') -> bool:
-- 
2.43.0


From ffecfa21b0f6378a1882482eb36f9e652c119193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 02/42] fix: disjoin() must link the events that were only
 separated by the removed event

---
 causetevent.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index b884e43..cb6318e 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -111,14 +111,16 @@ class CausetEvent(object):
         if other in self._prec:
             if self.hasBeenLinked() and (other in self._lprec):
                 self._lprec |= {
-                    e for e in other._prec if CausetEvent.isLink(e, self)}
+                    e for e in other._prec
+                    if (e._succ & self._prec) <= {other}}
                 self._lprec.remove(other)
             self._prec.discard(other)
             return True
         elif other in self._succ:
             if self.hasBeenLinked() and (other in self._lsucc):
                 self._lsucc |= {
-                    e for e in other._succ if CausetEvent.isLink(self, e)}
+                    e for e in other._succ
+                    if (self._succ & e._prec) <= {other}}
                 self._lsucc.remove(other)
             self._succ.discard(other)
             return True
-- 
2.43.0


From ec738b46ed2c477cbf983454ae8e3635f24bd2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 03/42] fix: adding relations must drop links that are no
 longer links

---
 causet.py      |  3 +++
 causetevent.py | 10 ++++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/causet.py b/causet.py
index 5b5785f..31f3791 100644
--- a/causet.py
+++ b/causet.py
@@ -234,6 +234,9 @@ class Causet(object):
                 for f in futureSet:
                     p._addToFuture(f)
                     f._addToPast(p)
+            # links computed before (or while) merging are outdated:
+            for e in set(pastSet) | set(futureSet):
+                e.unlink()
         return Causet(set(pastSet) | set(futureSet))
 
     def add(self, eventSet: Iterable, unlink: bool = False) -> None:
diff --git a/causetevent.py b/causetevent.py
index cb6318e..86f7e29 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -82,9 +82,10 @@ class CausetEvent(object):
         if other in self._prec:
             return False
         else:
-            if self.hasBeenLinked() and CausetEvent.isLink(other, self):
+            if self.hasBeenLinked():
                 self._lprec -= other._prec
-                self._lprec.add(other)
+                if CausetEvent.isLink(other, self):
+                    self._lprec.add(other)
             self._prec.add(other)
             return True
 
@@ -97,9 +98,10 @@ class CausetEvent(object):
         if other in self._succ:
             return False
         else:
-            if self.hasBeenLinked() and CausetEvent.isLink(self, other):
+            if self.hasBeenLinked():
                 self._lsucc -= other._succ
-                self._lsucc.add(other)
+                if CausetEvent.isLink(self, other):
+                    self._lsucc.add(other)
             self._succ.add(other)
             return True
 
-- 
2.43.0


From ffa2fc7572baa57160be5436c01a0a65522ffe71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 04/42] fix: a new event with past and future must relate its
 past to its future

---
 causetevent.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/causetevent.py b/causetevent.py
index 86f7e29..a42f3b4 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -65,6 +65,11 @@ class CausetEvent(object):
             e._addToFuture(self)
         for e in self._succ:
             e._addToPast(self)
+        # Past events precede future events by transitivity:
+        for p in self._prec:
+            for f in self._succ:
+                p._addToFuture(f)
+                f._addToPast(p)
 
     def hasBeenLinked(self) -> bool:
         '''
-- 
2.43.0


From dbf09a80414c8838e9503188fd0405b4342bc11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 05/42] fix: events without coordinates are not embedded and
 have the default position

---
 causetevent.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index a42f3b4..e635ab7 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -58,8 +58,10 @@ class CausetEvent(object):
         self._succ = set()
         for e in kwargs.get('future', []):
             self._succ.update(e.PresentOrFuture)
-        self._coordinates = list(kwargs.get('coordinates', []))
-        self._position = list(kwargs.get('position', []))
+        if 'coordinates' in kwargs:
+            self._coordinates = list(kwargs['coordinates'])
+        if 'position' in kwargs:
+            self.Position = kwargs['position']
         # Add this instance to its causal relatives:
         for e in self._prec:
             e._addToFuture(self)
-- 
2.43.0


From 589373c802704f294c655401adaa79b6913ce4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 06/42] fix: LinkConeCard must add the link cardinalities

---
 causetevent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index e635ab7..784c415 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -428,10 +428,10 @@ class CausetEvent(object):
         cardinality).
         '''
         try:
-            return len(self._lprec) & len(self._lsucc)
+            return len(self._lprec) + len(self._lsucc)
         except AttributeError:
             self.link()
-            return len(self._lprec) & len(self._lsucc)
+            return len(self._lprec) + len(self._lsucc)
 
     def copy(self) -> 'CausetEvent':
         '''
-- 
2.43.0


From 9770c1e887d40f216f8ad276161b92e4bbee6150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 07/42] fix: FromPastMatrix must close link matrices, pad rows
 and detect all loops

---
 causet.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/causet.py b/causet.py
index 31f3791..552a1f0 100644
--- a/causet.py
+++ b/causet.py
@@ -179,22 +179,21 @@ class Causet(object):
         if colcount < rowcount:
             raise ValueError('The specified matrix cannot be extended ' +
                              'to a square matrix.')
+        # complete to a square matrix of the full causal relation (if the
+        # input has less rows than columns or contains links only):
+        R: np.ndarray = np.zeros((colcount, colcount), dtype=bool)
+        R[:rowcount, :] = C
+        for k in range(colcount):
+            R |= np.outer(R[:, k], R[k, :])
+        if R.diagonal().any():
+            raise ValueError('The causet is not anti-symmetric.')
         events: np.ndarray = np.array([CausetEvent(label=i)
-                                       for i in range(1, colcount + 1)])
-        e: CausetEvent
-        for i in range(rowcount):
-            e = events[i]
-            past: Set[CausetEvent] = set(events[np.where(C[i, :])[0]])
-            future: Set[CausetEvent] = set(events[np.where(C[:, i])[0]])
-            if (past & future) or (e in past) or (e in future):
-                raise ValueError('The causet is not anti-symmetric.')
-            e._prec = past
-            e._succ = future
-        # complete pasts and futures (if the input contains links only)
+                                       for i in range(1, colcount + 1)],
+                                      dtype=object)
         for i in range(colcount):
-            e = events[i]
-            e._prec = Causet.PastOf(e._prec, includePresent=True)
-            e._succ = Causet.FutureOf(e._succ, includePresent=True)
+            e: CausetEvent = events[i]
+            e._prec = set(events[R[i, :]])
+            e._succ = set(events[R[:, i]])
         return Causet(set(events))
 
     @staticmethod
-- 
2.43.0


From 44ba5923d78a8d4ca3a15184c6c696e7ca340397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 08/42] fix: FromTextFile must read matrices with less than two
 rows or columns

---
 causet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index 552a1f0..ee6c97a 100644
--- a/causet.py
+++ b/causet.py
@@ -212,7 +212,9 @@ class Causet(object):
         parsed with `FromPastMatrix` or `FromFutureMatrix`.
         '''
         C: np.ndarray = np.genfromtxt(filename, dtype=int,
-                                      delimiter=delimiter, **kwargs)
+                                      delimiter=delimiter, ndmin=2, **kwargs)
+        if C.size == 0:  # empty file, no events
+            C = np.zeros((0, 0))
         C = C.astype(bool)
         if isPastMatrix:
             return Causet.FromPastMatrix(C)
-- 
2.43.0


From 36eb88394c1b1d014963450b41b3a78f86705211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 09/42] fix: subtracting a causet from a set returned the wrong
 difference

---
 causet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index ee6c97a..a525796 100644
--- a/causet.py
+++ b/causet.py
@@ -396,7 +396,7 @@ class Causet(object):
         return self._events - set(other)
 
     def __rsub__(self, other: Iterable[CausetEvent]) -> Set[CausetEvent]:
-        return self._events - set(other)
+        return set(other) - self._events
 
     def __or__(self, other: Iterable[CausetEvent]) -> Set[CausetEvent]:
         return self._events | set(other)
-- 
2.43.0


From 3dc0d6d2ed9de3fafcbd4edcc5fbc5f2ae11f545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 10/42] fix: isPath must not accept zigzags and closed loops of
 links

---
 causet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causet.py b/causet.py
index a525796..ca16007 100644
--- a/causet.py
+++ b/causet.py
@@ -460,6 +460,8 @@ class Causet(object):
             events = set(events)
             if len(events) <= 1:
                 return len(events) == 1
+            if not self.isChain(events):
+                return False
             extremal: int = 0
             for e in events:
                 e_linkcount: int = len(e.LinkCone & events)
-- 
2.43.0


From 3ef7465d1f3f1e721e996f3f9743b4cbe7dcf8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 11/42] fix: the intersection of pasts, futures and cones was
 always empty

---
 causet.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/causet.py b/causet.py
index ca16007..34b98d0 100644
--- a/causet.py
+++ b/causet.py
@@ -558,11 +558,13 @@ class Causet(object):
         '''
         newEventSet: Set[CausetEvent] = set()
         if includePresent and intersect:
-            for e in eventSet:
-                newEventSet &= e.PresentOrPast
+            for i, e in enumerate(eventSet):
+                newEventSet = set(e.PresentOrPast) if i == 0 \
+                    else newEventSet & e.PresentOrPast
         elif intersect:
-            for e in eventSet:
-                newEventSet &= e.Past
+            for i, e in enumerate(eventSet):
+                newEventSet = set(e.Past) if i == 0 \
+                    else newEventSet & e.Past
         else:
             for e in eventSet:
                 newEventSet |= e.Past
@@ -578,11 +580,13 @@ class Causet(object):
         '''
         newEventSet: Set[CausetEvent] = set()
         if includePresent and intersect:
-            for e in eventSet:
-                newEventSet &= e.PresentOrFuture
+            for i, e in enumerate(eventSet):
+                newEventSet = set(e.PresentOrFuture) if i == 0 \
+                    else newEventSet & e.PresentOrFuture
         elif intersect:
-            for e in eventSet:
-                newEventSet &= e.Future
+            for i, e in enumerate(eventSet):
+                newEventSet = set(e.Future) if i == 0 \
+                    else newEventSet & e.Future
         else:
             for e in eventSet:
                 newEventSet |= e.Future
@@ -598,11 +602,13 @@ class Causet(object):
         '''
         newEventSet: Set[CausetEvent] = set()
         if includePresent and intersect:
-            for e in eventSet:
-                newEventSet &= e.Cone
+            for i, e in enumerate(eventSet):
+                newEventSet = set(e.Cone) if i == 0 \
+                    else newEventSet & e.Cone
         elif intersect:
-            for e in eventSet:
-                newEventSet &= (e.Past | e.Future)
+            for i, e in enumerate(eventSet):
+                newEventSet = set(e.Past | e.Future) if i == 0 \
+                    else newEventSet & (e.Past | e.Future)
         else:
             for e in eventSet:
                 newEventSet |= e.Past | e.Future
-- 
2.43.0


From 232e8a4b25aa94be7bd9f4a501082e895f951a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 12/42] fix: linking a causet with discarded or added events
 must not fail or lose links

---
 causet.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causet.py b/causet.py
index 34b98d0..d51fad0 100644
--- a/causet.py
+++ b/causet.py
@@ -282,13 +282,14 @@ class Causet(object):
         '''
         Computes the causal links between all events.
         '''
-        # clear links:
+        # clear links (but keep those to events outside of this instance):
         for e in self._events:
-            e._lsucc = set()
+            e._lsucc = {b for b in e._succ - self._events
+                        if CausetEvent.isLink(e, b)}
         # compute links:
         for b in self._events:
             b._lprec = {a for a in b._prec if CausetEvent.isLink(a, b)}
-            for a in b._lprec:
+            for a in b._lprec & self._events:
                 a._lsucc.add(b)
 
     def unlink(self) -> None:
-- 
2.43.0


From 2d0ece107c32f2c02c8d08b641e84f7758c60474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 13/42] fix: sprinkling into a bicone returned uninitialised
 coordinates

---
 sprinkledcauset.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 28dfc3c..c24ea27 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -82,12 +82,13 @@ class SprinkledCauset(EmbeddedCauset):
                 high = shape.Center + shape.Parameter('edge') / 2
             for i in range(count):
                 coords[i, :] = rng.uniform(low, high)
-        elif shape.Name in ('ball', 'cylinder', 'diamond'):
-            # Create circle based sprinkle:
+        elif shape.Name in ('ball', 'cylinder', 'bicone'):
+            # Create circle based sprinkle (centred at the origin):
             isCylindrical: bool = 'cylinder' in shape.Name
-            isDiamond: bool = 'diamond' in shape.Name
+            isDiamond: bool = 'bicone' in shape.Name
             d: int = self.Dim
             b_r: float = shape.Parameter('radius')
+            hollow: float = shape.Parameter('hollow')
             if (d == 2) and isDiamond:
                 # pick `count` random coordinate tuples uniformly:
                 uv: np.ndarray = rng.uniform(low=-1.0, high=1.0,
@@ -100,15 +101,16 @@ class SprinkledCauset(EmbeddedCauset):
                 b_d: int = d - b_dstart
                 if isCylindrical:
                     # set time coordinate:
-                    time_low: float = shape.Center[0] - \
-                        shape.Parameter('duration') / 2
-                    time_high: float = shape.Center[0] + \
-                        shape.Parameter('duration') / 2
-                    coords[:, 0] = rng.uniform(time_low, time_high,
+                    time_high: float = shape.Parameter('duration') / 2
+                    coords[:, 0] = rng.uniform(-time_high, time_high,
                                                size=(count,))
                 # pick `count` random coordinate tuples uniformly:
-                r_low: float = shape.Parameter('hollow')**b_d
+                r_low: float = 0.0 if isDiamond else hollow**b_d
                 for i in range(count):
+                    if b_d == 0:  # no space dimensions
+                        if isDiamond:
+                            coords[i, 0] = b_r * rng.uniform(low=-1.0)
+                        continue
                     # get coordinates on sphere using normal distribution:
                     coord: np.ndarray = rng.standard_normal(size=(b_d,))
                     r: float = np.sqrt(sum(np.square(coord)))
@@ -122,8 +124,16 @@ class SprinkledCauset(EmbeddedCauset):
                         coords[i, 0] = h_sign * (1 - h_squeeze) * b_r
                         # adjust scaling:
                         r_scaling *= h_squeeze
-                    coords[i, b_dstart:] = shape.Center[b_dstart:] + \
-                        (r_scaling * b_r / r) * coord
+                    coords[i, b_dstart:] = (r_scaling * b_r / r) * coord
+            if isDiamond and (hollow > 0.0):
+                # scale radially to clear the empty interior:
+                s: np.ndarray = (np.abs(coords[:, 0]) + np.sqrt(
+                    np.sum(np.square(coords[:, 1:]), axis=1))) / b_r
+                s_hollow: np.ndarray = (
+                    hollow**d + (1.0 - hollow**d) * s**d)**(1.0 / d)
+                coords *= (s_hollow / s)[:, np.newaxis]
+            # shift to the center:
+            coords += shape.Center
         return coords
 
     def sprinkle(self, count: int, rng=default_rng(),
-- 
2.43.0


From 16e9a0f7eff30f75b956a328ec233f6a2a10243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 14/42] fix: discarding events from an empty sprinkled causet
 failed

---
 sprinkledcauset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index c24ea27..6abd8c6 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -187,4 +187,5 @@ class SprinkledCauset(EmbeddedCauset):
     def discard(self, eventSet: Iterable, unlink: bool = False) -> None:
         card_old: float = float(self.Card)
         super().discard(eventSet, unlink)
-        self._intensity *= (float(self.Card) / card_old)
+        if card_old > 0.0:
+            self._intensity *= (float(self.Card) / card_old)
-- 
2.43.0


From 0176314f5ed10649eea02d5a1da3d687de1f7506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 15/42] fix: the length scale is the inverse d-th root of the
 density

---
 embeddedcauset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embeddedcauset.py b/embeddedcauset.py
index f8a7ca8..6477a06 100644
--- a/embeddedcauset.py
+++ b/embeddedcauset.py
@@ -184,7 +184,7 @@ class EmbeddedCauset(Causet):
         Returns the fundamental length scale as inverse d-root of 
         `self.Density` if `card > 0`, else 0.0. 
         '''
-        return 0.0 if self.Card == 0 else self.Density**(1.0 / self.Shape.Dim)
+        return 0.0 if self.Card == 0 else self.Density**(-1.0 / self.Shape.Dim)
 
     def create(self, coordinates: Union[List[List[float]],
                                         List[np.ndarray],
-- 
2.43.0


From 9403ecdd884ff9ce30a976f03cf65fca3ddcdd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 16/42] fix: the representation of a shape raised an
 AttributeError

---
 shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shapes.py b/shapes.py
index d118fb3..4eef303 100644
--- a/shapes.py
+++ b/shapes.py
@@ -143,7 +143,7 @@ class CoordinateShape(object):
             return f'{self._dim}-{self._name}'
 
     def __repr__(self):
-        return f'{self._class__._name__}(' + \
+        return f'{self.__class__.__name__}(' + \
             f'{self._dim}, {self._name}, center={self._center}, ' + \
             f'**{self._params})'
 
-- 
2.43.0


From f2c4b85493ed39e5bf27a10b6610f0fe866f8cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 17/42] fix: the representation of non-periodic flat spacetimes
 raised a KeyError

---
 spacetimes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spacetimes.py b/spacetimes.py
index f41880b..a449b34 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -278,7 +278,8 @@ class FlatSpacetime(Spacetime):
             self._params['period'] = _periods
 
     def __repr__(self):
-        _period: Tuple[float, ...] = self.Parameter('period')
+        _period: Union[float, Tuple[float, ...]] = \
+            self._params.get('period', 0.0)
         return f'{self.__class__.__name__}({self._dim}, period={_period})'
 
     def DefaultShape(self) -> CoordinateShape:
-- 
2.43.0


From a62a3c28d2b8cc78ffa1a25fa6f1df3947fac015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 18/42] fix: anti-de Sitter causality was wrong beyond a
 quarter of the time period

---
 spacetimes.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/spacetimes.py b/spacetimes.py
index a449b34..edd6f58 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -647,11 +647,14 @@ class AntideSitterSpacetime(_dSSpacetime):
             x1_x: float = amp_x * math.cos(x[0] / self._alpha)
             x0_y: float = amp_y * math.sin(y[0] / self._alpha)
             x1_y: float = amp_y * math.cos(y[0] / self._alpha)
-            x0_delta: float = x0_y - x0_x
-            isCausal: bool = x0_delta**2 + (x1_y - x1_x)**2 >= \
-                sum(np.square(y[1:] - x[1:])) - causality_eps
-            return ((x0_delta >= 0.0) and isCausal,
-                    (x0_delta < 0.0) and isCausal)
+            t_delta: float = y[0] - x[0]
+            # after half a period light has reached every point, before that
+            # the embedding space decides (which is periodic in time):
+            isCausal: bool = (abs(t_delta) >= math.pi * self._alpha) or \
+                ((x0_y - x0_x)**2 + (x1_y - x1_x)**2 >=
+                 sum(np.square(y[1:] - x[1:])) - causality_eps)
+            return ((t_delta >= 0.0) and isCausal,
+                    (t_delta < 0.0) and isCausal)
         return isCausal_AdS
 
 
-- 
2.43.0


From 49802e32869088268d8e5db0a49ec69d6341db57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 19/42] fix: periodic causality for points that are more than
 one period apart

---
 spacetimes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spacetimes.py b/spacetimes.py
index edd6f58..1960b6c 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -318,6 +318,7 @@ class FlatSpacetime(Spacetime):
                     t_delta: float = y[0] - x[0]
                     r_delta: float = abs(y[1] - x[1])
                     if _period[0] > 0.0:
+                        r_delta = r_delta % _period[0]
                         r_delta = min(r_delta, _period[0] - r_delta)
                     isCausal: bool = abs(t_delta) >= \
                         abs(r_delta) - causality_eps
@@ -332,6 +333,7 @@ class FlatSpacetime(Spacetime):
                     for i in range(1, self.Dim):
                         r_delta_i: float = abs(y[i] - x[i])
                         if _period[i - 1] > 0.0:
+                            r_delta_i = r_delta_i % _period[i - 1]
                             r_delta_i = min(r_delta_i,
                                             _period[i - 1] - r_delta_i)
                         r2_delta += r_delta_i**2
-- 
2.43.0


From c0c979d57d995251492bd70c6719be4ef66ea4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 20/42] fix: coordinate lists of the wrong length were accepted
 silently

---
 embeddedcauset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/embeddedcauset.py b/embeddedcauset.py
index 6477a06..e8c5b11 100644
--- a/embeddedcauset.py
+++ b/embeddedcauset.py
@@ -115,6 +115,8 @@ class EmbeddedCauset(Causet):
                     ((coordinates.ndim != 2) or
                      (coordinates.shape[1] != defaultShape.Dim)):
                 self.__raiseDimValueError__('coordinates')
+            if any(len(c) != defaultShape.Dim for c in coordinates):
+                self.__raiseDimValueError__('coordinates')
             self.create(coordinates)
 
     @staticmethod
-- 
2.43.0


From 3c904af61f1a69dba82bee1affa1db50612e5f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 21/42] fix: the colour lime of Imperial College was not a
 valid colour

---
 colorschemes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/colorschemes.py b/colorschemes.py
index abc0813..72e2ec1 100644
--- a/colorschemes.py
+++ b/colorschemes.py
@@ -66,7 +66,7 @@ ColorSchemes: Dict[str, Dict[str, str]] = {
                               'cyan':        '#009CBC',
                               'green':       '#02893B',
                               'kermitgreen': '#66A40A',
-                              'lime':        '#BBCEOO',
+                              'lime':        '#BBCE00',
                               'yellow':      '#FFDD00',
                               'tangerine':   '#EC7300',
                               'orange':      '#D24000',
-- 
2.43.0


From b61ef08d4eb56433b5e4e801f5a0a6b9f348b8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 22/42] fix: axis limits by the shape of an embedded causet
 could not be plotted

---
 causetplotting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/causetplotting.py b/causetplotting.py
index ba0e559..fad391c 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -350,6 +350,9 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
     '''
     # ====================
     # get defaults and user-specified parameters:
+    if isinstance(E, EmbeddedCauset) and \
+            (kwargs.get('axislim') == 'shape'):
+        kwargs.update({'shape': E.Shape})
     plotting: Dict[str, Any] = plot_parameters(**kwargs)
     _h = {}  # holds Dict of artists
     # ====================
@@ -358,7 +361,6 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
     if isinstance(E, EmbeddedCauset):
         events = list(E)
         spacetime = E.Spacetime
-        kwargs.update({'shape': E.Shape})
     elif isinstance(E, CausetEvent):
         events = [E]
     else:
-- 
2.43.0


From 9c64cc2a6fde8048805a3ed293a2ff59959aa9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 23/42] fix: switching off the fading of causal cones failed

---
 causetplotting.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/causetplotting.py b/causetplotting.py
index fad391c..b7034ca 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -397,28 +397,32 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
         coordattr = 'Coordinates'
     if isPlottingPastcones:
         pcn_alpha_max: float
+        pcn_alpha: Optional[Callable[[float], float]] = None
         if plotting['conetimefade'] != '':
             try:
                 pcn_alpha_max = plotting['pastcones']['alpha']
             except KeyError:
                 pcn_alpha_max = 1.0
+            pcn_alpha = dynamic_parameter(plotting['conetimefade'], dim,
+                                          abs(plotting['conetimedepth']),
+                                          pcn_alpha_max)
         plotpcone: Any = plot_spacetime.ConePlotter(
             _xy_z, plotting['pastcones'], timesign=-1, axes=ax,
-            dynamicAlpha=dynamic_parameter(plotting['conetimefade'], dim,
-                                           abs(plotting['conetimedepth']),
-                                           pcn_alpha_max))
+            dynamicAlpha=pcn_alpha)
     if isPlottingFuturecones:
         fcn_alpha_max: float
+        fcn_alpha: Optional[Callable[[float], float]] = None
         if plotting['conetimefade'] != '':
             try:
                 fcn_alpha_max = plotting['futurecones']['alpha']
             except KeyError:
                 fcn_alpha_max = 1.0
+            fcn_alpha = dynamic_parameter(plotting['conetimefade'], dim,
+                                          abs(plotting['conetimedepth']),
+                                          fcn_alpha_max)
         plotfcone: Any = plot_spacetime.ConePlotter(
             _xy_z, plotting['futurecones'], timesign=1, axes=ax,
-            dynamicAlpha=dynamic_parameter(plotting['conetimefade'], dim,
-                                           abs(plotting['conetimedepth']),
-                                           fcn_alpha_max))
+            dynamicAlpha=fcn_alpha)
     # ====================
     plotting_links: Dict[str, Any] = {}
     if 'links' in plotting:
-- 
2.43.0


From 7b856235438f9a950020ae4e9acc07d1a6207346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 24/42] fix: time-sliced plots without links failed

---
 causetplotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causetplotting.py b/causetplotting.py
index b7034ca..a8f8748 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -439,7 +439,7 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
             plotting_labels = plotting['labels']
         dyn_links = dynamic_parameter(plotting['timefade'],
                                       dim, t_depth,
-                                      plotting_links['linewidth'])
+                                      plotting_links.get('linewidth', 2.0))
         dyn_events = dynamic_parameter(plotting['timefade'],
                                        dim, t_depth,
                                        plotting_events.get('alpha', 1.0))
-- 
2.43.0


From bddcde87700287a3515272cd7dbe9bd31ab29dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 25/42] fix: vectors of harmonic numbers were infinite or wrong
 for large n

---
 calculations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/calculations.py b/calculations.py
index 33ee0eb..ba0f028 100644
--- a/calculations.py
+++ b/calculations.py
@@ -45,8 +45,9 @@ def HarmonicNumbers(n: int, approximate: int = 100) -> np.ndarray:
         n_range: np.ndarray = np.arange(approximate, n + 1)
         H[n_range] = np.log(n_range) + np.euler_gamma
         H[n_range] += 0.5 / n_range
-        H[n_range] -= 0.25 / 3 / np.square(n_range)
-        H[n_range] += 0.025 / 3 / np.square(np.square(n_range))
+        n_sq: np.ndarray = np.square(n_range.astype(float))
+        H[n_range] -= 0.25 / 3 / n_sq
+        H[n_range] += 0.025 / 3 / np.square(n_sq)
     return H
 
 
-- 
2.43.0


From a961477aae293cb17a46c9d0c979880f41fd9fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 26/42] fix: rotated cylinder and cone surfaces were not placed
 at their center

---
 shapes.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/shapes.py b/shapes.py
index 4eef303..703836a 100644
--- a/shapes.py
+++ b/shapes.py
@@ -555,15 +555,15 @@ def CylinderSurface(center: np.ndarray, radius: float, height: float,
         radii = radius * np.array([hollow, 1.0, 1.0, hollow, hollow])
         relZ = np.array([-sampling, -sampling, sampling, sampling, -sampling])
     XYZ: Tuple[np.ndarray, np.ndarray, np.ndarray] = \
-        (np.outer(radii, np.cos(phi)) + center[0],
-         np.outer(radii, np.sin(phi)) + center[1],
-         (height / 2) * relZ + center[2])
+        (np.outer(radii, np.cos(phi)),
+         np.outer(radii, np.sin(phi)),
+         (height / 2) * relZ)
     # rotate:
     if zaxis == 0:
         XYZ = (XYZ[2], XYZ[0], XYZ[1])
     elif zaxis == 1:
         XYZ = (XYZ[1], XYZ[2], XYZ[0])
-    return [XYZ]
+    return [(XYZ[0] + center[0], XYZ[1] + center[1], XYZ[2] + center[2])]
 
 
 def OpenConeSurface(tip: np.ndarray, radius: float, height: float,
@@ -580,13 +580,12 @@ def OpenConeSurface(tip: np.ndarray, radius: float, height: float,
     phi: np.ndarray = np.linspace(0.0, 2.0 * np.pi, samplingsize)
     radii: np.ndarray = radius * np.array([0.0, 1.0])
     XYZ: Tuple[np.ndarray, np.ndarray, np.ndarray] = \
-        (np.outer(radii, np.cos(phi)) + tip[0],
-         np.outer(radii, np.sin(phi)) + tip[1],
-         np.array([np.zeros(samplingsize), np.ones(samplingsize)]) * height
-         + tip[2])
+        (np.outer(radii, np.cos(phi)),
+         np.outer(radii, np.sin(phi)),
+         np.array([np.zeros(samplingsize), np.ones(samplingsize)]) * height)
     # rotate:
     if zaxis == 0:
         XYZ = (XYZ[2], XYZ[0], XYZ[1])
     elif zaxis == 1:
         XYZ = (XYZ[1], XYZ[2], XYZ[0])
-    return [XYZ]
+    return [(XYZ[0] + tip[0], XYZ[1] + tip[1], XYZ[2] + tip[2])]
-- 
2.43.0


From f17ef00dc91370dac9122f37def1f828132fbb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 27/42] fix: cylinder plots with the time on the first axis
 were not placed at their center

---
 shapes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shapes.py b/shapes.py
index 703836a..2f2c7e1 100644
--- a/shapes.py
+++ b/shapes.py
@@ -347,8 +347,11 @@ class CoordinateShape(object):
                                    hollow),
                         **plotoptions)
             elif self.Name == 'cylinder':
+                cylcenter: np.ndarray = self.Center[dims]
+                if timeaxis == 0:
+                    cylcenter = np.flip(cylcenter)
                 cyl: np.ndarray = CylinderCutEdge(
-                    self.Center[dims], self._params['radius'],
+                    cylcenter, self._params['radius'],
                     self._params['duration'], hollow)
                 if timeaxis == 0:
                     cyl = cyl[:, [1, 0]]
-- 
2.43.0


From c174da0df41b31823d7ef0ba2d612b1814219f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 28/42] fix: discarding a causet from itself raised a
 RuntimeError

---
 causet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index d51fad0..0357d23 100644
--- a/causet.py
+++ b/causet.py
@@ -257,7 +257,7 @@ class Causet(object):
         Discards all the events of the (causal) set `eventSet` (`Causet` or 
         `Set[CausetEvent]`) from this instance. 
         '''
-        self._events.difference_update(eventSet)
+        self._events.difference_update(set(eventSet))
         if unlink:
             for e in self._events:
                 e.unlink()
-- 
2.43.0


From a347e48ee910c002e917e4557c3656fdb635abfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 29/42] fix: distances of an antichain without any relatives
 were 0 and its antipaths failed

---
 causet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index 0357d23..1a99d20 100644
--- a/causet.py
+++ b/causet.py
@@ -1030,7 +1030,8 @@ class Causet(object):
                              'supported.\n' +
                              'Use \'ziczac\' or \'intersection\'.')
         l: int = len(antichain)
-        D: np.ndarray = np.zeros((l, l), dtype=int)
+        D: np.ndarray = np.full((l, l), -1, dtype=int)
+        np.fill_diagonal(D, 0)
         ac_set: Set[CausetEvent] = set(antichain)
         slice_set: Set[CausetEvent] = ac_set
         thickerslice_set = self.Layers(slice_set, -1, 1)
-- 
2.43.0


From c678fa7ca696a0384df34ecb702d0bd38b060688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 30/42] fix: Newton's method could step onto the excluded ends
 of the interval

---
 calculations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/calculations.py b/calculations.py
index ba0f028..83db634 100644
--- a/calculations.py
+++ b/calculations.py
@@ -93,9 +93,9 @@ def NewtonsMethod(f: Callable[[Any], Any], fprime: Callable[[Any], Any],
         if yprime_n == 0.0:
             break
         x_next: float = x_n - (f(x_n) - y) / yprime_n
-        if x_next < xmin:
+        if x_next < xmin + precission:
             x_next = xmin + precission
-        elif x_next > xmax:
+        elif x_next > xmax - precission:
             x_next = xmax - precission
         if abs(x_n - x_next) < precission:
             return x_next
-- 
2.43.0


From 587dc35894121b39d5a312ed63b266778590f97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:00 +0000
Subject: [PATCH 31/42] fix: intensity fading towards the past did not fade at
 all

---
 causetplotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causetplotting.py b/causetplotting.py
index a8f8748..1f76cab 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -317,7 +317,7 @@ def dynamic_parameter(function: str, dim: int, timedepth: float,
     elif function == 'intensity':
         def intensity(value: float) -> float:
             return np.heaviside(_timefade_sgn * value, 1.0) * \
-                _alpha_max / np.power(np.maximum(value, 0.0) + 1.0, _dimpower)
+                _alpha_max / np.power(np.abs(value) + 1.0, _dimpower)
         return intensity
     else:
         return NotImplemented
-- 
2.43.0


From 99889bf17668f7484ee669af308a3e586a3cc26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 32/42] fix: merging iterators of events lost relations and
 events

---
 causet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causet.py b/causet.py
index 1a99d20..34c66fd 100644
--- a/causet.py
+++ b/causet.py
@@ -231,6 +231,8 @@ class Causet(object):
         assigned to the the past of every event in `futureSet` and vice versa.
         '''
         if not disjoint:  # add pastSet as past of futureSet
+            # (iterators can be iterated only once)
+            pastSet, futureSet = set(pastSet), set(futureSet)
             for p in pastSet:
                 for f in futureSet:
                     p._addToFuture(f)
-- 
2.43.0


From 7ab8fb7fb0cc1f802714a42e3fced47684c0ce10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 33/42] fix: antipaths along an iterator of events failed or
 were lost

---
 causet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causet.py b/causet.py
index 34c66fd..0b8fa69 100644
--- a/causet.py
+++ b/causet.py
@@ -1079,6 +1079,7 @@ class Causet(object):
         As optional argument, the distances matrix can be specified if it has 
         already been computed.
         '''
+        along = list(along)  # iterators can be iterated only once
         if a is b and a in along:
             yield [a]
         if not (a.isSpacelikeTo(b) and a in along and b in along):
-- 
2.43.0


From e683c9fdce07a1822a9b6a43567e8913abfb2d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:57 +0000
Subject: [PATCH 34/42] fix: creating events with coordinates of the wrong
 dimension was accepted silently

---
 embeddedcauset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/embeddedcauset.py b/embeddedcauset.py
index e8c5b11..e0943e4 100644
--- a/embeddedcauset.py
+++ b/embeddedcauset.py
@@ -200,6 +200,9 @@ class EmbeddedCauset(Causet):
         List[np.ndarray] or np.ndarray (matrix with a coordinate row for 
         each event).
         '''
+        coordinates = list(coordinates)  # (might be an iterator)
+        if any(len(c) != self.Dim for c in coordinates):
+            self.__raiseDimValueError__('coordinates')
         n: int = self.Card + 1
         eventSet: Set[CausetEvent] = {
             CausetEvent(label=(n + i) if labelFormat is None else
-- 
2.43.0


From 7658c46049a66a3944bb4885b21884cb957e2f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 35/42] fix: sprinkling into a shape of another dimension was
 accepted or changed the intensity

---
 sprinkledcauset.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 6abd8c6..f8292a3 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -145,9 +145,11 @@ class SprinkledCauset(EmbeddedCauset):
         if count < 0:
             raise ValueError(
                 'The sprinkle cardinality has to be a non-negative integer.')
-        self._intensity += float(count)
         if shape is None:
             shape = self.Shape
+        elif shape.Dim != self.Dim:
+            self.__raiseDimValueError__('shape')
+        self._intensity += float(count)
         coords: np.ndarray = self._sprinkle_coords(count, shape, rng)
         return super().create(coords)
 
@@ -161,10 +163,12 @@ class SprinkledCauset(EmbeddedCauset):
         if intensity < 0.0:
             raise ValueError(
                 'The intensity parameter has to be a non-negative float.')
-        self._intensity += intensity
-        count: int = int(rng.poisson(lam=intensity))
         if shape is None:
             shape = self.Shape
+        elif shape.Dim != self.Dim:
+            self.__raiseDimValueError__('shape')
+        self._intensity += intensity
+        count: int = int(rng.poisson(lam=intensity))
         coords: np.ndarray = self._sprinkle_coords(count, shape, rng)
         return super().create(coords)
 
-- 
2.43.0


From 8bf966b58b05dbcda9fd02a6c78a87cf59559ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 36/42] fix: merging subsets of causets lost the relations to
 the events around them

---
 causet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causet.py b/causet.py
index 0b8fa69..6ef7410 100644
--- a/causet.py
+++ b/causet.py
@@ -231,8 +231,9 @@ class Causet(object):
         assigned to the the past of every event in `futureSet` and vice versa.
         '''
         if not disjoint:  # add pastSet as past of futureSet
-            # (iterators can be iterated only once)
-            pastSet, futureSet = set(pastSet), set(futureSet)
+            # (events before and after are related by transitivity)
+            pastSet = Causet.PastOf(set(pastSet), includePresent=True)
+            futureSet = Causet.FutureOf(set(futureSet), includePresent=True)
             for p in pastSet:
                 for f in futureSet:
                     p._addToFuture(f)
-- 
2.43.0


From b85ae5eb7d2760327865e89e3e8b5e6527e3d051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:36 +0000
Subject: [PATCH 37/42] fix: events on the Eddington-Finkelstein horizon are
 causally related (outgoing light stays there)

---
 spacetimes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spacetimes.py b/spacetimes.py
index 1960b6c..f648c02 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -784,7 +784,9 @@ class BlackHoleSpacetime(Spacetime):
                 t_out: float = _func(r_y) - _func(r_x)
                 t_in: float = -t_out if isSchwarzschildMetric \
                     else r_x - r_y
-                if r_y <= r_x <= self._r_S:  # x is inside, y < x
+                if not isSchwarzschildMetric and (r_x == r_y == self._r_S):
+                    isCausal = True  # outgoing light stays on the horizon
+                elif r_y <= r_x <= self._r_S:  # x is inside, y < x
                     isCausal = t_out >= t_delta >= t_in
                 elif self._r_S <= r_x >= r_y:  # x is outside, y < x
                     isCausal = t_delta >= t_in
-- 
2.43.0


From 9056ada261cdee8311be09fbec0bccdde1cbcb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 38/42] fix: HarmonicNumber for numpy integers (their powers
 overflow)

---
 calculations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/calculations.py b/calculations.py
index 83db634..784cf57 100644
--- a/calculations.py
+++ b/calculations.py
@@ -21,10 +21,11 @@ def HarmonicNumber(n: int, approximate: int = 100) -> float:
     if n < approximate:
         return sum(1. / k for k in range(n, 0, -1))
     else:
+        n_sq: float = float(n)**2
         h: float = log(n) + np.euler_gamma
         h += 0.5 / n
-        h -= 0.25 / 3 / n**2
-        h += 0.025 / 3 / n**4
+        h -= 0.25 / 3 / n_sq
+        h += 0.025 / 3 / n_sq**2
         return h
 
 
-- 
2.43.0


From 6022de1a8e6c45ea41f5ee9649bceac416b0b7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:12 +0000
Subject: [PATCH 39/42] fix: plot with a list of a single time

---
 causetplotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causetplotting.py b/causetplotting.py
index 1f76cab..4e097fe 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -703,7 +703,7 @@ def plot(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
         if np.shape(kwargs['time']) == (2,):
             time = kwargs['time']
         else:
-            time = np.array([kwargs['time'], kwargs['time']])
+            time = np.full(2, kwargs['time'])
     return Plotter(E, plotAxes, spacetime, **kwargs)(time)
 
 
-- 
2.43.0


From dec4343b04ec15fe442dfe50766a4583f5302863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:03 +0000
Subject: [PATCH 40/42] fix: HarmonicNumber for n above 1e77 (the power of a
 float overflows)

---
 calculations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/calculations.py b/calculations.py
index 784cf57..8927dc6 100644
--- a/calculations.py
+++ b/calculations.py
@@ -21,11 +21,11 @@ def HarmonicNumber(n: int, approximate: int = 100) -> float:
     if n < approximate:
         return sum(1. / k for k in range(n, 0, -1))
     else:
-        n_sq: float = float(n)**2
+        n_sq: float = float(n) * float(n)
         h: float = log(n) + np.euler_gamma
         h += 0.5 / n
         h -= 0.25 / 3 / n_sq
-        h += 0.025 / 3 / n_sq**2
+        h += 0.025 / 3 / (n_sq * n_sq)
         return h
 
 
-- 
2.43.0


From bb04cf38817b903ef2d46abcb195c08224343108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:56 +0000
Subject: [PATCH 41/42] fix: copies of events keep labels that are neither
 integers nor strings

---
 causetevent.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index 784c415..99994ee 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -437,12 +437,7 @@ class CausetEvent(object):
         '''
         Returns a shallow copy of the event without embedding.
         '''
-        if self.Label is None:
-            e = CausetEvent()
-        elif isinstance(self.Label, int):
-            e = CausetEvent(label=self.Label)
-        else:
-            e = CausetEvent(label=f'{self.Label}')
+        e = CausetEvent(label=self.Label)
         e._prec = self._prec.copy()
         e._succ = self._succ.copy()
         if self.hasBeenLinked():
-- 
2.43.0


From e7f44b0a3eb5ed61a30d28efc2dc8955762d1834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:29 +0000
Subject: [PATCH 42/42] fix: relate embedded events by their coordinates in
 double precision (integer types overflowed, single precision was rounded)

---
 embeddedcauset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/embeddedcauset.py b/embeddedcauset.py
index e0943e4..e8d6ff0 100644
--- a/embeddedcauset.py
+++ b/embeddedcauset.py
@@ -228,8 +228,8 @@ class EmbeddedCauset(Causet):
         for i, a in enumerate(eventList):
             for j in range(i + 1, eventList_len):
                 b = eventList[j]
-                isAB, isBA = _iscausal(np.array(a.Coordinates),
-                                       np.array(b.Coordinates))
+                isAB, isBA = _iscausal(np.array(a.Coordinates, dtype=float),
+                                       np.array(b.Coordinates, dtype=float))
                 if isAB:  # A in the past of B:
                     a._succ.add(b)
                     b._prec.add(a)
-- 
2.43.0

