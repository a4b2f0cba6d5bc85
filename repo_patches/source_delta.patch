From 2766347c21b9a23e00fc8d30255a652b5b846fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:42 +0000
Subject: [PATCH 01/79] fix: RealSet.simplify lost points when two pieces end
 at the same value

The disjoint pieces were sorted by their upper ends only, so {1} could be
visited before [0,1): RealSet(['[1,1]', '[0,1)']).simplify() was empty.
---
 src/jpt/base/intervals.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 196b5a6..ad4b4c2 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -478,7 +478,7 @@ cdef class RealSet(NumberSet):
                     tail.extend(diff.intervals)
         if not intervals:
             return EMPTY
-        head, tail = first(chop(sorted(intervals, key=attrgetter('upper'))))
+        head, tail = first(chop(sorted(intervals, key=attrgetter('lower', 'upper'))))
         intervals = [head]
         for subset in tail:
             if intervals[-1].contiguous(subset):
-- 
2.43.0


From 9cf179bf0d44affd1cbbc889cf514f875ce994aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:42 +0000
Subject: [PATCH 02/79] fix: RealSet.to_json kept only the last interval

and RealSet.from_json failed on the result.
---
 src/jpt/base/intervals.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index ad4b4c2..5b12b01 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -220,7 +220,7 @@ cdef class RealSet(NumberSet):
 
     def to_json(self) -> Dict[str, Any]:
         return {
-            'intervals': i.to_json() for i in self.intervals
+            'intervals': [i.to_json() for i in self.intervals]
         }
 
     @staticmethod
-- 
2.43.0


From 48df876f64eae35ae4da65f3590da3e21ad59e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:42 +0000
Subject: [PATCH 03/79] fix: an empty ContinuousSet intersected other intervals

intersects() only checked whether the argument is empty, so that e.g.
[1,1) intersected [0,2].
---
 src/jpt/base/intervals.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 5b12b01..ceb8372 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -925,7 +925,7 @@ cdef class ContinuousSet(NumberSet):
         :returns True if the two intervals intersect, False otherwise
         :rtype: bool
         """
-        if other.isempty():
+        if self.isempty() or other.isempty():
             return False
         if isinstance(other, RealSet):
             return other.intersects(self)
-- 
2.43.0


From 50f49be9437f58051da595f83382745d4d571b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:42 +0000
Subject: [PATCH 04/79] fix: RealSet.sample drew from the wrong interval

The weights skip empty intervals, but were used to index all intervals, so
that sampling from a RealSet with an empty constituent raised an IndexError.
---
 src/jpt/base/intervals.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index ceb8372..fb37995 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -276,6 +276,7 @@ cdef class RealSet(NumberSet):
         cdef ContinuousSet i_
         cdef DTYPE_t[::1] weights = np.array([abs(i_.upper - i_.lower)
                                               for i_ in self.intervals if i_.size()], dtype=np.float64)
+        nonempty = [i_ for i_ in self.intervals if i_.size()]
         if sum(weights) == 0:
             weights[...] = 1.
         cdef DTYPE_t[::1] upperbounds = np.cumsum(weights)
@@ -287,7 +288,7 @@ cdef class RealSet(NumberSet):
             resval = np.random.uniform(0, min([np.finfo(np.float64).max, upperbounds[-1]]))
             for j, bound in enumerate(upperbounds):
                 if resval <= bound:
-                    self.intervals[j].sample(result=result[i:i+1])
+                    nonempty[j].sample(result=result[i:i+1])
                     break
         return result
 
-- 
2.43.0


From 5d7b03975107c15317cb9bb38c6af931008547fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:42 +0000
Subject: [PATCH 05/79] fix: RealSet.chop failed on sets that simplify to a
 single interval

---
 src/jpt/base/intervals.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index fb37995..3e22430 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -529,7 +529,11 @@ cdef class RealSet(NumberSet):
         return RealSet([R]).difference(self).simplify()
 
     def chop(self, points: Iterable[float]) -> Iterable[ContinuousSet]:
-        for i in self.simplify().intervals:
+        simplified = self.simplify()
+        if isinstance(simplified, ContinuousSet):
+            yield from simplified.chop(points)
+            return
+        for i in simplified.intervals:
             yield from i.chop(points)
 
     cpdef inline RealSet xmirror(self):
-- 
2.43.0


From 0cbbc69d34e152c983a87fe749de9e40ef127656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:02 +0000
Subject: [PATCH 06/79] fix: open interval ends were ignored at and beyond
 2**53

np.nextafter(x, x + 1) is x itself for doubles of that size, so that e.g. the
lowermost value of (2**53, inf) was 2**53.
---
 src/jpt/base/constants.py  |  4 ++--
 src/jpt/base/intervals.pyx | 30 +++++++++++++++---------------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/jpt/base/constants.py b/src/jpt/base/constants.py
index 40fcf5e..6700d7a 100644
--- a/src/jpt/base/constants.py
+++ b/src/jpt/base/constants.py
@@ -92,10 +92,10 @@ class Epsilon:
     '''
 
     def __radd__(self, x):
-        return np.nextafter(x, x + 1)
+        return np.nextafter(x, np.inf) if np.isfinite(x) else x
 
     def __rsub__(self, x):
-        return np.nextafter(x, x - 1)
+        return np.nextafter(x, -np.inf) if np.isfinite(x) else x
 
 
 eps = Epsilon()
diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 3e22430..182a02f 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -745,8 +745,8 @@ cdef class ContinuousSet(NumberSet):
         if self.isempty():
             raise IndexError('Cannot sample from an empty set.')
 
-        cdef DTYPE_t upper = self.upper if self.right == _INC else np.nextafter(self.upper, self.upper - 1)
-        cdef DTYPE_t lower = self.lower if self.left == _INC else np.nextafter(self.lower, self.lower + 1)
+        cdef DTYPE_t upper = self.upper if self.right == _INC else self.upper - eps
+        cdef DTYPE_t lower = self.lower if self.left == _INC else self.lower + eps
 
         if result is None:
             result = np.random.uniform(
@@ -853,10 +853,10 @@ cdef class ContinuousSet(NumberSet):
                     val += space
 
         if self.left == EXC and self.lower != np.NINF:
-            samples[0] = np.nextafter(samples[0], samples[0] + 1)
+            samples[0] = samples[0] + eps
 
         if self.right == EXC and self.upper != np.PINF:
-            samples[-1] = np.nextafter(samples[-1], samples[-1] - 1)
+            samples[-1] = samples[-1] - eps
 
         return samples
 
@@ -987,24 +987,24 @@ cdef class ContinuousSet(NumberSet):
                         else (self.right if self.upper < other.upper else other.right))
         if left == _INC and result.left == _EXC:
             result.left = _INC
-            result.lower = np.nextafter(result.lower, result.lower + 1)
+            result.lower = result.lower + eps
         elif left == _EXC and result.left == _INC:
             result.left = _EXC
-            result.lower = np.nextafter(result.lower, result.lower - 1)
+            result.lower = result.lower - eps
         if right == _INC and result.right == _EXC:
             result.right = _INC
-            result.upper = np.nextafter(result.upper, result.upper - 1)
+            result.upper = result.upper - eps
         elif right == _EXC and result.right == _INC:
             result.right = _EXC
-            result.upper = np.nextafter(result.upper, result.upper + 1)
+            result.upper = result.upper + eps
         return result
 
     cpdef inline ContinuousSet boundaries(ContinuousSet self, int left= 0, int right=0):
         cdef ContinuousSet result = self.copy()
-        cdef lower_minus_eps = np.nextafter(result.lower, result.lower - 1.)
-        cdef lower_plus_eps = np.nextafter(result.lower, result.lower + 1.)
-        cdef upper_minus_eps = np.nextafter(result.upper, result.upper - 1.)
-        cdef upper_plus_eps = np.nextafter(result.upper, result.upper + 1.)
+        cdef lower_minus_eps = result.lower - eps
+        cdef lower_plus_eps = result.lower + eps
+        cdef upper_minus_eps = result.upper - eps
+        cdef upper_plus_eps = result.upper + eps
 
         if result.left == _INC and left == _EXC:
             result.lower = lower_minus_eps
@@ -1107,7 +1107,7 @@ cdef class ContinuousSet(NumberSet):
             if self.left == _INC:
                 return self.lower
             else:
-                return np.nextafter(self.lower, self.lower + 1)
+                return self.lower + eps
         else:
             return np.finfo(np.float64).min
 
@@ -1115,13 +1115,13 @@ cdef class ContinuousSet(NumberSet):
         """
         :return: The highest computer-representable value in this ``ContinuousSet``.
         """
-        return self.upper if self.right == _INC else np.nextafter(self.upper, self.upper - 1)
+        return self.upper if self.right == _INC else self.upper - eps
 
     cpdef inline DTYPE_t lowermost(ContinuousSet self):
         """
         :return: The lowest computer-representable value in this ``ContinuousSet``.
         """
-        return self.lower if self.left == _INC else np.nextafter(self.lower, self.lower + 1)
+        return self.lower if self.left == _INC else self.lower + eps
 
     @property
     def min(self):
-- 
2.43.0


From 539f8f8711d491790922ea7ce2e37d439a2715d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:02 +0000
Subject: [PATCH 07/79] fix: equal number sets had different hashes

Sets compare equal by the numbers they contain, e.g. (0,1] and its closed form
or RealSet(['[0,1]']) and [0,1], but were hashed by representation.
---
 src/jpt/base/intervals.pyx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 182a02f..5ff1b19 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -197,10 +197,10 @@ cdef class RealSet(NumberSet):
         return not self.isempty()
 
     def __hash__(self):
-        tmp = sorted(self.intervals, key=attrgetter('right'))
-        tmp = sorted(self.intervals, key=attrgetter('upper'))
-        tmp = sorted(self.intervals, key=attrgetter('left'))
-        return hash((RealSet, tuple(sorted(tmp, key=attrgetter('lower')))))
+        simplified = self.simplify()
+        if isinstance(simplified, ContinuousSet):
+            return hash(simplified)
+        return hash((RealSet, tuple(simplified.intervals)))
 
     def __round__(self, n: int):
         return RealSet(
@@ -1302,9 +1302,9 @@ cdef class ContinuousSet(NumberSet):
         return not self.isempty()
 
     def __hash__(self):
-        return hash(
-            (ContinuousSet, self.lower, self.upper, self.left, self.right)
-        )
+        if self.isempty():
+            return hash((ContinuousSet, None))
+        return hash((ContinuousSet, self.min, self.max))
 
     def __getstate__(self):
         return self.lower, self.upper, self.left, self.right
-- 
2.43.0


From 94a671510be8859eb8b5dedc1c1706f9ee8ce550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 08/79] fix: ContinuousSet.difference failed for pieces ending
 at the same number

[-1,0] minus [0,0+eps) raised a ValueError: the ends are different, but hold
the same last number, and the intervals were taken to be properly contained.
---
 src/jpt/base/intervals.pyx | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 5ff1b19..3de23fa 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -897,16 +897,10 @@ cdef class ContinuousSet(NumberSet):
             )
         if self.lowermost() > other.lowermost() or self.uppermost() < other.uppermost():
             return False
-        if self.lower == other.lower:
-            if self.left == _EXC and other.left == _INC:
-                return False
-            elif self.left == other.left and proper_containment:
-                return False
-        if self.upper == other.upper:
-            if self.right == _EXC and other.right == _INC:
-                return False
-            elif self.right == other.right and proper_containment:
-                return False
+        if proper_containment and (
+                self.lowermost() == other.lowermost() or self.uppermost() == other.uppermost()
+        ):
+            return False
         return True
 
     cpdef inline np.int32_t contiguous(ContinuousSet self, ContinuousSet other):
-- 
2.43.0


From 32cb6be2ab5ddcec995e73d88f768954b7aecdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 09/79] fix: RealSet.simplify changed the set it was called on

Contiguous intervals were merged in place, into an interval that belongs to the
original set.
---
 src/jpt/base/intervals.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 3de23fa..a9672d5 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -469,7 +469,7 @@ cdef class RealSet(NumberSet):
         while tail:
             head, tail_ = first(chop(tail))
             if not head.isempty():
-                intervals.append(head)
+                intervals.append(head.copy())
             tail = []
             for subset in tail_:
                 diff = subset.difference(head)
-- 
2.43.0


From d1daed588e7866a3b33acfc233d90ea37e3ea7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:41 +0000
Subject: [PATCH 10/79] fix: arithmetic of functions with numbers on the left
 and subtraction of linear functions failed

---
 src/jpt/base/functions.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 370a61c..75e01ac 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -93,6 +93,8 @@ cdef class Function:
         raise NotImplementedError()
 
     def __add__(self, other):
+        if not isinstance(self, Function):  # Reflected operation, e.g. ``1 + f``
+            self, other = other, self
         if isinstance(other, numbers.Real):
             return self.add(
                 ConstantFunction(other)
@@ -108,6 +110,8 @@ cdef class Function:
             )
 
     def __mul__(self, other: Union[float, Function]) -> 'Function':
+        if not isinstance(self, Function):  # Reflected operation, e.g. ``2 * f``
+            self, other = other, self
         if isinstance(other, numbers.Real):
             return self.mul(
                 ConstantFunction(other)
@@ -588,7 +592,7 @@ cdef class LinearFunction(Function):
                             'and %s' % (type(f).__name__, type(self).__name__))
 
     def __sub__(self, x):
-        return -x + self
+        return self + x * -1
 
     def __radd__(self, x):
         return self + x
-- 
2.43.0


From e220d46de6330fa7abb40e0eb03ab37bee7b934d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:41 +0000
Subject: [PATCH 11/79] fix: QuadraticFunction.mul and .add returned None for
 unsupported operands

---
 src/jpt/base/functions.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 75e01ac..01135a1 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -765,8 +765,8 @@ cdef class QuadraticFunction(Function):
         if isinstance(f, ConstantFunction):
             return QuadraticFunction(self.a * f.value, self.b * f.value, self.c * f.value).simplify()
         else:
-            TypeError('Unsupported operand type(s) for mul(): %s and %s.' % (type(self).__name__,
-                                                                             type(f).__name__))
+            raise TypeError('Unsupported operand type(s) for mul(): %s and %s.' % (type(self).__name__,
+                                                                                   type(f).__name__))
 
     cpdef Function add(self, Function f):
         if isinstance(f, ConstantFunction):
@@ -775,6 +775,9 @@ cdef class QuadraticFunction(Function):
             return QuadraticFunction(self.a, self.b + f.m, self.c + f.c)
         elif isinstance(f, QuadraticFunction):
             return QuadraticFunction(self.a + f.a, self.b + f.b, self.c + f.c)
+        else:
+            raise TypeError('Unsupported operand type(s) for add(): %s and %s.' % (type(self).__name__,
+                                                                                   type(f).__name__))
 
     cpdef DTYPE_t eval(self, DTYPE_t x):
         return self.a * x * x + self.b * x + self.c
-- 
2.43.0


From 74a07b8caccd287a5c1b9ff4c486bffc54ee5433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:41 +0000
Subject: [PATCH 12/79] fix: LinearFunction.intersects was False for coincident
 functions

---
 src/jpt/base/functions.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 01135a1..5e89af9 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -531,12 +531,12 @@ cdef class LinearFunction(Function):
         """
         if isinstance(f, LinearFunction):
             if self.m == f.m:
-                return False
+                return self.c == f.c
             else:
                 return True
         elif isinstance(f, ConstantFunction):
             if self.m == 0:
-                return False
+                return self.c == f.value
             else:
                 return True
         else:
-- 
2.43.0


From 2369145ee54cb681786dccdd21349ac7a0d258e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:41 +0000
Subject: [PATCH 13/79] fix: integral of a LinearFunction with slope 0 on
 infinite intervals

---
 src/jpt/base/functions.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 5e89af9..699b89c 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -706,16 +706,16 @@ cdef class LinearFunction(Function):
             raise ValueError('The x2 argument must be greater than x1.')
         elif x2 == x1:
             return 0
+        elif self.m == 0:
+            return ConstantFunction(self.c).integrate(x1, x2)
         elif np.isinf(x1) and np.isinf(x2):
-            if self.m != 0:
-                return np.nan
-            return np.PINF if self.c > 0 else np.NINF
+            return np.nan
         elif np.isinf(x1):
-            if self.m <= 0:
+            if self.m < 0:
                 return np.PINF
             return np.NINF
         elif np.isinf(x2):
-            if self.m >= 0:
+            if self.m > 0:
                 return np.PINF
             return np.NINF
         return (.5 * self.m * x2 ** 2 + self.c * x2) - (.5 * self.m * x1 ** 2 + self.c * x1)
-- 
2.43.0


From 34ea2313fe7a253ff2d9b4efa311d333399d1a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:41 +0000
Subject: [PATCH 14/79] fix: comparing Undefined with a LinearFunction failed

---
 src/jpt/base/functions.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 699b89c..068f262 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -180,7 +180,7 @@ cdef class Undefined(Function):
             return True
         elif isinstance(other, ConstantFunction) and np.isnan(other.value):
             return True
-        elif isinstance(other, LinearFunction) and any(np.isnan(other.m), np.isnan(other.c)):
+        elif isinstance(other, LinearFunction) and (np.isnan(other.m) or np.isnan(other.c)):
             return True
         return False
 
-- 
2.43.0


From 385d74821e495c573120a1aa50aad47e3dcbaefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:41 +0000
Subject: [PATCH 15/79] fix: equality and hash of PiecewiseFunction

---
 src/jpt/base/functions.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 068f262..19202a8 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -927,7 +927,7 @@ cdef class PiecewiseFunction(Function):
         self.intervals: List[ContinuousSet] = []
 
     def __hash__(self):
-        return hash((PiecewiseFunction, ((i, f) for i, f in self.iter())))
+        return hash((PiecewiseFunction, tuple((i, f) for i, f in self.iter())))
 
     def append(self, interval: ContinuousSet, f: Function) -> None:
         self.intervals.append(interval)
@@ -943,6 +943,8 @@ cdef class PiecewiseFunction(Function):
                 'An object of type "PiecewiseFunction" '
                 'is required, but got "%s".' % type(other).__name__
             )
+        if len(self) != len(other):
+            return False
         for i1, f1, i2, f2 in zip(self.intervals, self.functions, other.intervals, other.functions):
             if i1 != i2 or f1 != f2:
                 return False
-- 
2.43.0


From 18bdb411a1bd492c16e718a36217e4fb415c6692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:41 +0000
Subject: [PATCH 16/79] fix: PiecewiseFunction.simplify changed the function it
 was called on

---
 src/jpt/base/functions.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 19202a8..a97ed57 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1558,14 +1558,14 @@ cdef class PiecewiseFunction(Function):
             if i.isempty():
                 continue
             if not plf.functions:
-                plf.append(i, f)
+                plf.append(i.copy(), f)
                 continue
             i_, f_ = plf[-1]
             if i.contiguous(i_) and f == f_:
                 i_.upper = i.upper
                 i_.right = i.right
             else:
-                plf.append(i, f)
+                plf.append(i.copy(), f)
         return plf
 
     @staticmethod
-- 
2.43.0


From 51333152a179176e1d32bce25141cce594d7e76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:41 +0000
Subject: [PATCH 17/79] fix: PiecewiseFunction.min/max/abs picked the wrong
 function on infinite intervals

---
 src/jpt/base/functions.pyx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index a97ed57..ac46862 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1583,7 +1583,14 @@ cdef class PiecewiseFunction(Function):
         plf = PiecewiseFunction()
         while queue:
             i = queue.popleft()
-            i_center = (i.min + i.max) * .5
+            if i.isninf() and i.ispinf():
+                i_center = 0
+            elif i.isninf():
+                i_center = i.max - max(1., abs(i.max))
+            elif i.ispinf():
+                i_center = i.min + max(1., abs(i.min))
+            else:
+                i_center = (i.min + i.max) * .5
             l1 = f1.at(i_center)
             l2 = f2.at(i_center)
             if (not isinstance(l1, (LinearFunction, ConstantFunction)) or
-- 
2.43.0


From 476a1d79754c70d8942a32d04c155f1bbf45e7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:41 +0000
Subject: [PATCH 18/79] fix: PiecewiseFunction.merge called a method that does
 not exist

---
 src/jpt/base/functions.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index ac46862..2cd3945 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1458,14 +1458,14 @@ cdef class PiecewiseFunction(Function):
         """
         lower, _ = f1.split(mergepoint)
         _, upper = f2.split(mergepoint)
-        v1 = lower.eval(lower.intervals[-1].lower)
-        v2 = upper.eval(upper.intervals[0].upper)
-        upper.add_const(v1 - v2)  # Ensure the function is continuous at the merge point
+        v1 = lower.functions[-1].eval(mergepoint)
+        v2 = upper.functions[0].eval(mergepoint)
+        upper = upper.add(ConstantFunction(v1 - v2))  # Ensure the function is continuous at the merge point
         result = PiecewiseFunction()
         result.intervals = lower.intervals + upper.intervals
         result.functions = lower.functions + upper.functions
-        result.stretch(1. / result.eval(result.intervals[-1].lower))  # Ensure that the function ends with value 1 on the right
-        return result
+        # Ensure that the function ends with value 1 on the right
+        return result.stretch(1. / result.eval(result.intervals[-1].lower))
 
     cpdef list knots(PiecewiseFunction self, DTYPE_t lastx=np.nan):
         result = []
-- 
2.43.0


From 3a1d061f87264687a89452c08054d42e82808969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:41 +0000
Subject: [PATCH 19/79] fix: PLFApproximator removed the wrong function if two
 segments have equal functions

---
 src/jpt/base/functions.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 2cd3945..9f0b0d9 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -2018,10 +2018,10 @@ class PLFApproximator:
                 break
 
             # Remove the left and right segments of the replacement from the original function
-            del result.intervals[result.intervals.index(replacement.left.i)]
-            del result.functions[result.functions.index(replacement.left.f)]
-            del result.intervals[result.intervals.index(replacement.right.i)]
-            del result.functions[result.functions.index(replacement.right.f)]
+            for segment in (replacement.left, replacement.right):
+                idx = result.intervals.index(segment.i)
+                del result.intervals[idx]
+                del result.functions[idx]
 
             # Insert the new segment at the interval union of the former left and right segments
             result = result.overwrite_at(
-- 
2.43.0


From 262a83d9f18ae656dd4349d6bf7eceaa3ba49102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:41 +0000
Subject: [PATCH 20/79] fix: PiecewiseFunction.lt and .gt returned wrong
 regions

---
 src/jpt/base/functions.pyx | 71 +++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 39 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 9f0b0d9..703c940 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1384,7 +1384,7 @@ cdef class PiecewiseFunction(Function):
         prev_f = None
         for i, f in zip(self.intervals, self.functions):
             x = f.intersection(y_)
-            if x and x in i:
+            if x and i.intersects(x):
                 result_set.intervals.append(i.intersection(x))
             elif prev_f and (prev_f(i.lower) < y < f(i.lower) or prev_f(i.lower) > y > f(i.lower)):
                 result_set.intervals.append(ContinuousSet(i.lower, i.lower))
@@ -1394,57 +1394,50 @@ cdef class PiecewiseFunction(Function):
     cpdef RealSet lt(self, DTYPE_t y):
         result_set = RealSet()
         y_ = ConstantFunction(y)
-        prev_f = None
-        current = None
         for i, f in zip(self.intervals, self.functions):
+            if isinstance(f, Undefined):
+                continue
             x = f.intersection(y_)
-            if x.size() == 1 and x.lower in i:
+            if x.size() == 1:
                 if f.m > 0:
-                    if current is None:
-                        result_set.intervals.append(ContinuousSet(np.NINF, x.upper, 2, 2))
-                    else:
-                        current.upper = x.upper
-                        result_set.intervals.append(current)
-                        current = None
-                elif f.m < 0:
-                    current = ContinuousSet(x.lower, np.PINF, 2, 2)
-            elif not x and f(i.lower) < y and current is None:
-                current = ContinuousSet(i.lower, np.PINF, 2, 2)
-            elif not x and f(i.lower) >= y and current is not None:
-                current.upper = i.lower
-                result_set.intervals.append(current)
-                current = None
-            prev_f = f
-        if current is not None:
-            result_set.intervals.append(current)
+                    i = i.intersection(ContinuousSet(np.NINF, x.upper, 2, 2))
+                else:
+                    i = i.intersection(ContinuousSet(x.lower, np.PINF, 2, 2))
+            elif f.c >= y:
+                continue
+            self._append_contiguous(result_set, i)
         return result_set
 
     cpdef RealSet gt(self, DTYPE_t y):
         result_set = RealSet()
         y_ = ConstantFunction(y)
-        current = None
         for i, f in zip(self.intervals, self.functions):
+            if isinstance(f, Undefined):
+                continue
             x = f.intersection(y_)
-            if x.size() == 1 and x.lower in i:
+            if x.size() == 1:
                 if f.m < 0:
-                    if current is None:
-                        result_set.intervals.append(ContinuousSet(np.NINF, x.upper, 2, 2))
-                    else:
-                        current.upper = x.upper
-                        result_set.intervals.append(current)
-                        current = None
-                elif f.m > 0:
-                    current = ContinuousSet(x.lower, np.PINF, 2, 2)
-            elif not x and f(i.lower) > y and current is None:
-                current = ContinuousSet(i.lower, np.PINF, 1, 2)
-            elif (not x and f(i.lower) < y or x == R and f(i.lower) == y) and current is not None:
-                current.upper = i.lower
-                result_set.intervals.append(current)
-                current = None
-        if current is not None:
-            result_set.intervals.append(current)
+                    i = i.intersection(ContinuousSet(np.NINF, x.upper, 2, 2))
+                else:
+                    i = i.intersection(ContinuousSet(x.lower, np.PINF, 2, 2))
+            elif f.c <= y:
+                continue
+            self._append_contiguous(result_set, i)
         return result_set
 
+    @staticmethod
+    def _append_contiguous(result_set: RealSet, interval: ContinuousSet) -> None:
+        '''
+        Append ``interval`` to the right of ``result_set`` and merge it with the last interval, if contiguous.
+        '''
+        if interval.isempty():
+            return
+        if result_set.intervals and result_set.intervals[-1].contiguous(interval):
+            result_set.intervals[-1].upper = interval.upper
+            result_set.intervals[-1].right = interval.right
+        else:
+            result_set.intervals.append(interval.copy())
+
     @staticmethod
     def merge(f1: PiecewiseFunction, f2: PiecewiseFunction, mergepoint: float) -> PiecewiseFunction:
         """
-- 
2.43.0


From a91ea845c2ce07e225f69d54c532e774e3d44c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:08 +0000
Subject: [PATCH 21/79] fix: PiecewiseFunction.ensure_right changed the left
 border instead of the right one

---
 src/jpt/base/functions.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 703c940..391f29e 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1334,12 +1334,12 @@ cdef class PiecewiseFunction(Function):
         elif xing and xing.upper > self.intervals[-1].lower and xing.lower <= x:
             self.intervals.append(ContinuousSet(xing.lower, np.PINF, INC, EXC))
             self.intervals[-2].upper = xing.upper
-            self.intervals[-2].left = INC
+            self.intervals[-2].right = EXC
             self.functions.append(right)
         else:
             self.intervals.append(ContinuousSet(x, np.PINF, INC, EXC))
             self.intervals[-2].upper = x
-            self.intervals[-2].left = INC
+            self.intervals[-2].right = EXC
             self.functions.append(right)
             if not self.intervals[-2]:
                 del self.intervals[-2]
-- 
2.43.0


From a1ef2f317098f037556b68c72d071efa9216e175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:08 +0000
Subject: [PATCH 22/79] fix: PiecewiseFunction.round shared its intervals with
 the original function

---
 src/jpt/base/functions.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 391f29e..342bfac 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1519,8 +1519,8 @@ cdef class PiecewiseFunction(Function):
 
         plf = PiecewiseFunction()
         for interval, function in zip(self.intervals, self.functions):
+            interval = interval.copy()
             if include_intervals:
-                interval = interval.copy()
                 interval.lower = round_(interval.lower) if not np.isinf(interval.lower) else interval.lower
                 interval.upper = round_(interval.upper) if not np.isinf(interval.upper) else interval.upper
             plf.intervals.append(interval)
-- 
2.43.0


From e6368e14ddfb7a5787bc6e83ad209db4f2840c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:39 +0000
Subject: [PATCH 23/79] fix: ContinuousSet.union and .intersection failed for a
 RealSet

---
 src/jpt/base/intervals.pxd |  4 ++--
 src/jpt/base/intervals.pyx | 18 +++++++++++-------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/jpt/base/intervals.pxd b/src/jpt/base/intervals.pxd
index f924323..9d56727 100644
--- a/src/jpt/base/intervals.pxd
+++ b/src/jpt/base/intervals.pxd
@@ -110,9 +110,9 @@ cdef class ContinuousSet(NumberSet):
 
     cpdef inline np.int32_t isdisjoint(ContinuousSet self, NumberSet other)
 
-    cpdef inline ContinuousSet intersection(ContinuousSet self, ContinuousSet other, int left=*, int right=*)
+    cpdef inline NumberSet intersection(ContinuousSet self, NumberSet other, int left=*, int right=*)
 
-    cpdef inline NumberSet union(ContinuousSet self, ContinuousSet other)
+    cpdef inline NumberSet union(ContinuousSet self, NumberSet other)
 
     cpdef inline NumberSet difference(ContinuousSet self, NumberSet other)
 
diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index a9672d5..307d57a 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -944,17 +944,17 @@ cdef class ContinuousSet(NumberSet):
         """
         return not self.intersects(other)
 
-    cpdef inline ContinuousSet intersection(ContinuousSet self,
-                                            ContinuousSet other,
-                                            int left=0,
-                                            int right=0):
+    cpdef inline NumberSet intersection(ContinuousSet self,
+                                        NumberSet other,
+                                        int left=0,
+                                        int right=0):
         """
         Compute the intersection of this ``ContinuousSet`` and ``other``.
         
         The arguments ``left`` and ``right`` (both boolean) can be used to specify if
         the left or right end of the interval should be open or closed.
         
-        :param other: The other ContinousSet
+        :param other: The other NumberSet
         :param left: Open/Close flag for the left border
         :param right: Open/Close flag for the right border
         :return: 
@@ -972,6 +972,8 @@ cdef class ContinuousSet(NumberSet):
         >>> i1.intersection(i2, right=EXC).upper
         1.0000000000000002
         """
+        if isinstance(other, RealSet):
+            return RealSet([self.intersection(i, left, right) for i in other.intervals]).simplify()
         if not self.intersects(other):
             return ContinuousSet.c_emptyset()
         result = ContinuousSet(max(self.lower, other.lower), min(self.upper, other.upper))
@@ -1014,12 +1016,14 @@ cdef class ContinuousSet(NumberSet):
             result.right = _INC
         return result
 
-    cpdef inline NumberSet union(ContinuousSet self, ContinuousSet other):
+    cpdef inline NumberSet union(ContinuousSet self, NumberSet other):
         """
         Compute the union of this ``ContinuousSet`` and ``other``.
-        :param other: The other ContinuousSet 
+        :param other: The other NumberSet
         :return: The union of both sets as ContinuousSet if the union is contiguous or RealSet if it is not.
         """
+        if isinstance(other, RealSet):
+            return other.union(self)
         if not self.intersects(other) and not self.contiguous(other):
             if self.isempty():
                 return other.copy()
-- 
2.43.0


From 14c6d7a06d273812877bc2629579b8af60343ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:39 +0000
Subject: [PATCH 24/79] fix: Undefined functions could not be mirrored

---
 src/jpt/base/functions.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 342bfac..ae0c941 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -199,6 +199,9 @@ cdef class Undefined(Function):
     cpdef Function xshift(self, DTYPE_t delta):
         return Undefined()
 
+    cpdef Function xmirror(self):
+        return Undefined()
+
 
 # ----------------------------------------------------------------------------------------------------------------------
 
-- 
2.43.0


From e286ad8156ae1e2dee5a64314a1a669baa61d016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:39 +0000
Subject: [PATCH 25/79] fix: PiecewiseFunction.maximize missed maxima of linear
 functions with slope 0

---
 src/jpt/base/functions.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index ae0c941..143f9a8 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1828,9 +1828,9 @@ cdef class PiecewiseFunction(Function):
             f_ = f(b)
             if np.isnan(f_) or not np.isnan(f_max) and f_max > f_:
                 continue
-            if isinstance(f, LinearFunction):
+            if isinstance(f, LinearFunction) and f.m != 0:
                 argmax = ContinuousSet(b, b)
-            elif isinstance(f, ConstantFunction):
+            elif isinstance(f, (LinearFunction, ConstantFunction)):
                 argmax = i.copy()
             else:
                 raise TypeError(
-- 
2.43.0


From 13db39b7fb34958934e506dbb395eca3552c62d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:13 +0000
Subject: [PATCH 26/79] fix: QuantileDistribution.fit lost the largest values
 of data beyond 2^53

---
 src/jpt/distributions/quantile/quantiles.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index da44c3c..f70c30a 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -227,7 +227,7 @@ cdef class QuantileDistribution:
             # overwrite right most interval by an interval with an including right border
             self._cdf.intervals[-1] = ContinuousSet(self._cdf.intervals[-1].lower,
                                                     np.nextafter(self._cdf.intervals[-1].upper,
-                                                                 self._cdf.intervals[-1].upper + 1), INC, EXC)
+                                                                 np.PINF), INC, EXC)
 
             self._cdf.functions.append(ConstantFunction(1))
             self._cdf.intervals.append(ContinuousSet(self._cdf.intervals[-1].upper, np.PINF, INC, EXC))
-- 
2.43.0


From b41d4fc752e0933ac06ecb5588fff578e2949647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:13 +0000
Subject: [PATCH 27/79] fix: probability mass at jumps of the CDF was ignored
 in probabilities and moments

---
 src/jpt/distributions/quantile/quantiles.pyx | 12 ++++++++++++
 src/jpt/distributions/univariate/numeric.py  | 20 +++++++++++++-------
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index f70c30a..12ae5c5 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -328,6 +328,18 @@ cdef class QuantileDistribution:
 
         return result
 
+    cpdef list jumps(self):
+        '''
+        The points at which the CDF is discontinuous, i.e. the single points that have a positive probability.
+        :return: A list of tuples ``(point, probability)`` in ascending order of the points.
+        '''
+        result = []
+        for (_, f), (i, g) in pairwise(self._cdf.iter()):
+            mass = g.eval(i.lower) - f.eval(i.lower)
+            if mass > 1e-8:
+                result.append((i.lower, mass))
+        return result
+
     @property
     def cdf(self):
         return self._cdf
diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 25ca797..aaf5979 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -23,7 +23,7 @@ except ModuleNotFoundError:
 
     pyximport.install()
 finally:
-    from ...base.intervals import R, ContinuousSet, RealSet, NumberSet
+    from ...base.intervals import R, ContinuousSet, RealSet, NumberSet, INC
     from ...base.functions import LinearFunction, ConstantFunction, PiecewiseFunction, Undefined
     from ..quantile.quantiles import QuantileDistribution
 
@@ -274,16 +274,19 @@ class Numeric(Distribution):
             value = ContinuousSet(value, value)
         elif isinstance(value, RealSet):
             return sum(self._p(i) for i in value.intervals)
-        probspace = self.pdf.gt(0)
-        if probspace.isdisjoint(value):
+        if value.isempty():
             return 0
         probmass = (
                 (self.cdf.eval(value.upper) if value.upper != np.PINF else 1.) -
                 (self.cdf.eval(value.lower) if value.lower != np.NINF else 0.)
         )
-        if not probmass:
-            return probspace in value
-        return probmass
+        # Account for the points that have a probability mass of their own
+        for point, mass in self._quantile.jumps():
+            if point == value.lower and value.left == INC:
+                probmass += mass
+            if point == value.upper and value.right != INC:
+                probmass -= mass
+        return min(1., max(0., probmass))
 
     def p(self, labels: Union[numbers.Number, NumberSet]) -> numbers.Real:
         return self._p(self.label2value(labels))
@@ -560,7 +563,10 @@ class Numeric(Distribution):
                 return self.pdf.gt(0).min
             elif order >= 2:
                 return 0
-        result = 0
+        result = sum(
+            pow(value_transform(point) - center, order) * mass
+            for point, mass in self._quantile.jumps()
+        )
         for interval, function in zip(self.pdf.intervals[1:-1], self.pdf.functions[1:-1]):
             interval_ = value_transform(interval)
             if interval_.width == 0:
-- 
2.43.0


From 54eeaef2f975b2a25ee345f41cf4079d812e1311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:47 +0000
Subject: [PATCH 28/79] fix: moments of Dirac impulses ignored the scale and
 the center

---
 src/jpt/distributions/univariate/numeric.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index aaf5979..3931b0a 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -556,17 +556,14 @@ class Numeric(Distribution):
                        the result is the central moment of the distribution.
         """
         value_transform = ifnone(value_transform, lambda _: _)
-        # We have to catch the special case in which the
-        # PDF is an impulse function
-        if self.is_dirac_impulse():
-            if order == 1:
-                return self.pdf.gt(0).min
-            elif order >= 2:
-                return 0
         result = sum(
             pow(value_transform(point) - center, order) * mass
             for point, mass in self._quantile.jumps()
         )
+        # We have to catch the special case in which the
+        # PDF is an impulse function
+        if self.is_dirac_impulse():
+            return result
         for interval, function in zip(self.pdf.intervals[1:-1], self.pdf.functions[1:-1]):
             interval_ = value_transform(interval)
             if interval_.width == 0:
-- 
2.43.0


From 9a5a4cca134818a6768ab87ff435e9aac3cc2192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:47 +0000
Subject: [PATCH 29/79] fix: the quantile function was wrong or undefined at
 jumps and in flat slopes of the CDF

---
 src/jpt/distributions/quantile/quantiles.pyx | 51 ++++++++------------
 1 file changed, 20 insertions(+), 31 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 12ae5c5..8810490 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -394,38 +394,27 @@ cdef class QuantileDistribution:
 
             self._assert_consistency()
 
-            if len(self._cdf.functions) == 2:
-                ppf.intervals[-1].upper = 1
-                ppf.functions.append(Undefined())
-                ppf.intervals.append(ContinuousSet(1, one_plus_eps, INC, EXC))
-                ppf.functions.append(ConstantFunction(self._cdf.intervals[-1].lower))
-                ppf.intervals.append(ContinuousSet(one_plus_eps, np.PINF, INC, EXC))
-                ppf.functions.append(Undefined())
-                self._ppf = ppf
-                return ppf
-
-            y_cdf = 0
-            for interval, f in zip(self._cdf.intervals, self._cdf.functions):
-
-                if f.is_invertible():
-                    ppf.functions.append(f.invert())
-                    const = 0
-                elif not f.c:
-                    ppf.functions.append(Undefined())
-                elif f(interval.lower) > y_cdf:
-                    ppf.functions.append(ConstantFunction(interval.lower))
-                else:
-                    continue
-
-                if not np.isinf(interval.upper):
-                    ppf.intervals[-1].upper = min(one_plus_eps, f(interval.upper))
-                else:
-                    ppf.intervals[-1].upper = one_plus_eps
-
-                ppf.intervals.append(ContinuousSet(ppf.intervals[-1].upper, np.PINF, INC, EXC))
-                y_cdf = min(one_plus_eps, f(interval.upper))
+            ppf.intervals[-1].upper = y_cdf = 0
+            ppf.functions.append(Undefined())
 
-            ppf.intervals[-2].upper = ppf.intervals[-1].lower = one_plus_eps
+            for interval, f in zip(self._cdf.intervals[1:], self._cdf.functions[1:]):
+                # Jumps of the CDF are constant regions of the PPF ...
+                y = min(one_plus_eps, f.eval(interval.lower))
+                if y - y_cdf > 1e-12:
+                    ppf.intervals.append(ContinuousSet(y_cdf, y, INC, EXC))
+                    ppf.functions.append(ConstantFunction(interval.lower))
+                    y_cdf = y
+
+                # ... and regions in which the CDF is constant are jumps of the PPF
+                if isinstance(f, LinearFunction) and f.m > 0:
+                    y = min(one_plus_eps, f.eval(interval.upper))
+                    if y > y_cdf:
+                        ppf.intervals.append(ContinuousSet(y_cdf, y, INC, EXC))
+                        ppf.functions.append(f.invert())
+                        y_cdf = y
+
+            ppf.intervals[-1].upper = one_plus_eps
+            ppf.intervals.append(ContinuousSet(one_plus_eps, np.PINF, INC, EXC))
             ppf.functions.append(Undefined())
 
             if not np.isnan(ppf.eval(one_plus_eps)):
-- 
2.43.0


From b7143b07151545267e0507bfb374393f1c25c6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:32 +0000
Subject: [PATCH 30/79] fix: cropping a CDF misplaced the probability mass at
 jumps

---
 src/jpt/distributions/quantile/quantiles.pyx | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 8810490..f356138 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -270,8 +270,11 @@ cdef class QuantileDistribution:
         # I: crop
         cdf_ = self.cdf.crop(interval)
 
-        # II: add constant to move to
-        cdf_ += -cdf_.eval(cdf_.intervals[0].lowermost())
+        # II: add constant to move to. If the interval includes its lower end, a jump of the CDF at this point
+        # belongs to the cropped distribution.
+        head = cdf_.eval(cdf_.intervals[0].lowermost())
+        jump = dict(self.jumps()).get(cdf_.intervals[0].lowermost(), 0)
+        cdf_ += jump - head
 
         # everything left of the leftmost point of the cropped function evaluates to 0
         cdf = PiecewiseFunction()
@@ -280,17 +283,19 @@ cdef class QuantileDistribution:
 
         # III: stretch function to represent a proper quantile fn
         alpha = cdf_.functions[-1].eval(interval.uppermost())
+        if alpha <= 0 and interval.size() != 1:
+            raise Unsatisfiability('CDF has zero Probability in %s' % interval)
 
-        f_ = cdf_.functions[0]
+        f_ = cdf_.functions[0] if not jump else ConstantFunction(0.)
         for i, f in zip(cdf_.intervals, cdf_.functions):
             if f == ConstantFunction(0.):
                 cdf.intervals[-1].upper = i.upper
                 continue
             y = cdf.functions[-1].eval(i.lower)
-            c = (f.eval(i.lower) - f_.eval(i.lower)) * alpha  # If the function is continuous (no jump), c = 0
+            c = (f.eval(i.lower) - f_.eval(i.lower)) / alpha if alpha else 0  # If the function is continuous (no jump), c = 0
             f_ = f
             cdf.intervals.append(ContinuousSet(i.lower, i.upper, INC, EXC))
-            upper_ = np.nextafter(i.upper, i.upper - 1)
+            upper_ = np.nextafter(i.upper, np.NINF)
 
             if isinstance(f, ConstantFunction) or i.size() == 1:
                 cdf.functions.append(ConstantFunction(y + c))
@@ -305,7 +310,7 @@ cdef class QuantileDistribution:
                 cdf.intervals[-1].lower = cdf.intervals[-2].upper
         else:
             if interval.uppermost() in cdf.intervals[-1]:
-                cdf.intervals[-1].upper = np.nextafter(cdf.intervals[-1].upper, cdf.intervals[-1].upper - 1)
+                cdf.intervals[-1].upper = np.nextafter(cdf.intervals[-1].upper, np.NINF)
 
             # everything right of the rightmost point of the cropped function evaluates to 1
             cdf.functions.append(ConstantFunction(1.))
-- 
2.43.0


From 7c3098cf9a05bc52ee63dfee13e265204142ee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:07 +0000
Subject: [PATCH 31/79] fix: merging CDFs lost jumps of CDFs that are not Dirac
 impulses

---
 src/jpt/distributions/quantile/quantiles.pyx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index f356138..d5445d0 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -469,11 +469,12 @@ cdef class QuantileDistribution:
             )
 
         # --------------------------------------------------------------------------------------------------------------
-        # We preprocess the CDFs that are in the form of "jump" functions
+        # We preprocess the "jumps" of the CDFs
         jumps = {}
-        for w, cdf in [(w, d.cdf) for w, d in zip(weights, distributions) if len(d.cdf) == 2]:
-            jumps[cdf.intervals[0].upper] = jumps.get(cdf.intervals[0].upper, Jump(cdf.intervals[0].upper, 1, 0))
-            jumps.get(cdf.intervals[0].upper).weight += w
+        for d, w in zip(distributions, weights):
+            for knot, mass in QuantileDistribution.from_cdf(d.cdf).jumps():
+                jumps[knot] = jumps.get(knot, Jump(knot, 1, 0))
+                jumps.get(knot).weight += w * mass
 
         # --------------------------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 1d7966a3ff1e5c59a8c3ebb0b0ff77174118df0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:07 +0000
Subject: [PATCH 32/79] fix: merging CDFs dropped slopes below 1e-8, i.e. the
 mass of distributions on wide ranges

---
 src/jpt/distributions/quantile/quantiles.pyx | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index d5445d0..a90fc3f 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -503,10 +503,10 @@ cdef class QuantileDistribution:
 
         m = 0
         c = 0
+        active = []  # The slopes of the functions that contribute to the current interval
 
         while lower or upper:
             pivot = None
-            m_ = m
             offset = 0
 
             # Process all function intervals whose lower bound is minimal and
@@ -519,7 +519,7 @@ cdef class QuantileDistribution:
                 if isinstance(f, Jump):  # and isinstance(functions[-1], LinearFunction):
                     offset += w
                 if isinstance(f, LinearFunction):
-                    m_ += f.m * w
+                    active.append(f.m * w)
                 pivot = l
 
             # Do the same for the upper bounds...
@@ -528,14 +528,14 @@ cdef class QuantileDistribution:
                 u, f, w = upper.pop(0)
                 if isinstance(f, (ConstantFunction, Jump)) or u == np.PINF or isinstance(f, LinearFunction) and f.m == 0:
                     continue
-                m_ -= f.m * w
+                active.remove(f.m * w)
                 pivot = u
 
             if pivot is None:
                 continue
 
             y = m * pivot + c
-            m = m_ if abs(m_) > 1e-8 else 0
+            m = sum(active)
             c = y - m * pivot + offset
 
             intervals[-1].upper = pivot
@@ -543,13 +543,7 @@ cdef class QuantileDistribution:
                 # Split the last interval at the pivot point
                 intervals.append(ContinuousSet(pivot, np.PINF, INC, EXC))
                 # Evaluate the old function at the new pivot point to get the intercept
-                functions.append(LinearFunction(m, c) if abs(m) > 1e-8 else ConstantFunction(c))
-
-        # If the merging ends with an "approximate" constant function
-        # remove it. This may happen for numerical imprecision.
-        while len(functions) > 1 and abs(functions[-1].m) <= 1e-08 and functions[-1].m:
-            del intervals[-1]
-            del functions[-1]
+                functions.append(LinearFunction(m, c) if m else ConstantFunction(c))
 
         cdf = PiecewiseFunction()
         cdf.functions = functions
-- 
2.43.0


From 18330efce30af0a25b0a1e6f6215598c0374eff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:07 +0000
Subject: [PATCH 33/79] fix: sampling from a CDF with jumps failed

---
 src/jpt/distributions/quantile/quantiles.pyx | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index a90fc3f..98f01fb 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -566,10 +566,15 @@ cdef class QuantileDistribution:
         if len(self.cdf.intervals) == 2:
             return np.full(n, self.cdf.intervals[0].upper)
 
-        # create probability distribution with the probabilities of each function part
-        interval_probabilities = np.array([function.eval(interval.upper) - function.eval(interval.lower)
-                                           for function, interval in
-                                           zip(self.cdf.functions[1:-1], self.cdf.intervals[1:-1])])
+        # create probability distribution with the probabilities of each function part and each jump
+        parts = list(self.cdf.intervals[1:-1])
+        interval_probabilities = [function.eval(interval.upper) - function.eval(interval.lower)
+                                  for function, interval in zip(self.cdf.functions[1:-1], parts)]
+        for point, mass in self.jumps():
+            parts.append(ContinuousSet(point, point))
+            interval_probabilities.append(mass)
+        interval_probabilities = np.maximum(interval_probabilities, 0)
+        interval_probabilities /= interval_probabilities.sum()
 
         # sample in which function part the samples will be
         sample_intervals = np.random.choice(list(range(0, len(interval_probabilities))), size=(n,),
@@ -579,7 +584,7 @@ cdef class QuantileDistribution:
         result = np.zeros((n, ))
 
         # for every interval
-        for idx, interval in enumerate(interval for interval in self.cdf.intervals[1:-1]):
+        for idx, interval in enumerate(parts):
 
             # get the indices where the samples are from this interval
             indices = np.where(sample_intervals == idx)[0]
-- 
2.43.0


From e16b80eb006701cddc3f2d1e37bda9d95fefc895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:07 +0000
Subject: [PATCH 34/79] fix: Dirac impulses in a PDF got lost when it was
 converted to a CDF

---
 src/jpt/distributions/quantile/quantiles.pyx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 98f01fb..93011c1 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -100,7 +100,7 @@ cdef class QuantileDistribution:
         cdf = PiecewiseFunction()
         pdf = pdf.rectify()
         head = 0
-        dirac_weights = normalized(dirac_weights) if dirac_weights is not None else []
+        dirac_weights = list(normalized(dirac_weights)) if dirac_weights is not None else []
         dirac_offsets = []
 
         last_int: ContinuousSet = None
@@ -110,7 +110,7 @@ cdef class QuantileDistribution:
             elif np.isinf(f.value):
                 dirac_offsets.append((
                     len(cdf),
-                    dirac_offsets.pop(-1) if dirac_offsets else 1
+                    dirac_weights.pop(0) if dirac_weights else 1
                 ))
                 last_int = i
                 continue
@@ -133,14 +133,15 @@ cdef class QuantileDistribution:
                 'Illegal CDF value > 1: %f' % (1 - residual)
             )
         elif residual > 0:
-            dirac_offsets = [(i, w * residual) for i, w in dirac_offsets]
+            total = sum([w for _, w in dirac_offsets])
+            dirac_offsets = [(i, w * residual / total) for i, w in dirac_offsets]
 
         # Apply offsets by dirac impulses
         offset = 0
         for i, (_, f) in enumerate(cdf.iter()):
             if dirac_offsets and dirac_offsets[0][0] == i:
                 offset += dirac_offsets.pop(0)[1]
-            f += offset
+            cdf.functions[i] = f + offset
 
         return cdf.stretch(
             1 / cdf.eval(
-- 
2.43.0


From 4789a7fbf2f5680bf1be1aaeea0d5c06a362f80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:07 +0000
Subject: [PATCH 35/79] fix: restricting a numeric distribution to a point
 changed the distribution itself

---
 src/jpt/distributions/univariate/numeric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 3931b0a..f73ecd6 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -390,14 +390,14 @@ class Numeric(Distribution):
 
         elif isinstance(restriction, ContinuousSet):
             if restriction.size() == 1:
-                return self._crop(restriction.lower)
+                return self._crop(restriction.lowermost())
             else:
                 return type(self)().set(
                     self._quantile.crop(restriction)
                 )
 
         elif isinstance(restriction, numbers.Number):
-            return self.create_dirac_impulse(restriction)
+            return type(self)(**self.settings).create_dirac_impulse(restriction)
 
         else:
             raise ValueError(
-- 
2.43.0


From 8c20795d6a993e53a0490adee25347624a937e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:07 +0000
Subject: [PATCH 36/79] fix: restricting a numeric distribution to a union of
 intervals ignored their probabilities

---
 src/jpt/distributions/univariate/numeric.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index f73ecd6..06632cb 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -11,6 +11,7 @@ from dnutils import ifnone, ifnot, first
 from matplotlib import pyplot as plt
 
 from ..utils import Identity, DataScaler, DataScalerProxy
+from ...base.errors import Unsatisfiability
 from ...base.utils import save_plot, pairwise, normalized, none2nan
 from . import Distribution
 
@@ -376,16 +377,13 @@ class Numeric(Distribution):
 
         # for real sets the result is a merge of the single ContinuousSet crops
         if isinstance(restriction, RealSet):
-            distributions = []
-
-            for idx, continuous_set in enumerate(restriction.intervals):
-                distributions.append(
-                    self._crop(continuous_set)
-                )
+            weights = [self._p(i) for i in restriction.intervals]
+            if not sum(weights):
+                raise Unsatisfiability('Distribution has zero probability in %s' % restriction)
 
             return self.merge(
-                distributions,
-                [1 / len(distributions)] * len(distributions)
+                [self._crop(i) for i, w in zip(restriction.intervals, weights) if w],
+                normalized([w for w in weights if w])
             )
 
         elif isinstance(restriction, ContinuousSet):
-- 
2.43.0


From bd234a99d986a4f2de0c068c8cb3d2b26ef99ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:06 +0000
Subject: [PATCH 37/79] fix: restricting a distribution to a value of
 probability zero was silently answered

---
 src/jpt/distributions/univariate/numeric.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 06632cb..61a7914 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -395,6 +395,8 @@ class Numeric(Distribution):
                 )
 
         elif isinstance(restriction, numbers.Number):
+            if not self.pdf.eval(restriction) and not self._p(restriction):
+                raise Unsatisfiability('Distribution has zero probability density in %s' % restriction)
             return type(self)(**self.settings).create_dirac_impulse(restriction)
 
         else:
-- 
2.43.0


From 6e43fd4219c4b4a8aac25db8f022df8256f9cb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:06 +0000
Subject: [PATCH 38/79] fix: restricting a symbolic distribution to a value of
 probability zero was silently answered

---
 src/jpt/distributions/univariate/multinomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/multinomial.py b/src/jpt/distributions/univariate/multinomial.py
index 5830481..298555f 100644
--- a/src/jpt/distributions/univariate/multinomial.py
+++ b/src/jpt/distributions/univariate/multinomial.py
@@ -370,7 +370,7 @@ class Multinomial(Distribution):
             restriction: Union[int, Collection[int]],
     ) -> 'Multinomial':
         if not isinstance(restriction, Collections):
-            return self.create_dirac_impulse(restriction)
+            restriction = {restriction}
 
         result = self.copy()
         for idx, value in enumerate(result.values.values()):
-- 
2.43.0


From 60ff07a0928793eb737b3d2d7dacb1a0406b7317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:06 +0000
Subject: [PATCH 39/79] fix: Numeric.update did not use the weight of the
 update distribution

---
 src/jpt/distributions/univariate/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 61a7914..e189bdc 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -353,7 +353,7 @@ class Numeric(Distribution):
             raise TypeError('Can only update with distribution of the same type, got %s' % type(dist))
         tmp = Numeric.merge(
             [self, dist],
-            normalized([1, weight])
+            [1 - weight, weight]
         )
         self.values = tmp.values
         self.labels = tmp.labels
-- 
2.43.0


From c04409912ecd721c7070527cc2f15afc23d94b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:06 +0000
Subject: [PATCH 40/79] fix: domains of different size could compare equal

---
 src/jpt/distributions/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jpt/distributions/utils.py b/src/jpt/distributions/utils.py
index af41384..6bb0ba0 100644
--- a/src/jpt/distributions/utils.py
+++ b/src/jpt/distributions/utils.py
@@ -204,6 +204,8 @@ class OrderedDictProxy:
     def __eq__(self, other):
         if not isinstance(other, OrderedDictProxy):
             return False
+        if len(self) != len(other):
+            return False
         for self_, other_ in zip(self._dict.items(), other._dict.items()):
             if self_[0] != other_[0] or self_[1] != other_[1]:
                 return False
-- 
2.43.0


From 6a55aa2ae34834d69af2951dbdb409e04f3d8ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:06 +0000
Subject: [PATCH 41/79] fix: the roulette wheel could select an element of
 weight zero

---
 src/jpt/base/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/sampling.py b/src/jpt/base/sampling.py
index 5838057..100c1f1 100644
--- a/src/jpt/base/sampling.py
+++ b/src/jpt/base/sampling.py
@@ -29,7 +29,7 @@ class RouletteWheelSampler:
         if not (0 <= x <= self._upperbounds[-1]):
             raise IndexError('Indexes in the roulette wheel must be in [0, %s] (got %s)' % (self._upperbounds[-1], x))
         for i, bound in enumerate(self._upperbounds):
-            if x <= bound:
+            if x <= bound and bound > 0:
                 return i
 
     def sample(self, n=1):
-- 
2.43.0


From bb3b3e59d4c548d2a1a3b03c34e977cc4dc56b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:06 +0000
Subject: [PATCH 42/79] fix: setting the probability of a Boolean value failed

---
 src/jpt/distributions/univariate/multinomial.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jpt/distributions/univariate/multinomial.py b/src/jpt/distributions/univariate/multinomial.py
index 298555f..b3b4dac 100644
--- a/src/jpt/distributions/univariate/multinomial.py
+++ b/src/jpt/distributions/univariate/multinomial.py
@@ -634,9 +634,8 @@ class Bool(Multinomial):
     #     return f'{self._cl}<p=[{",".join([f"{v}={p:.3f}" for v, p in zip(self.labels, self._params)])}]>'
 
     def __setitem__(self, v, p):
-        if not isinstance(p, Iterable):
-            p = np.array([p, 1 - p])
         super().__setitem__(v, p)
+        super().__setitem__(not v, 1 - p)
 
 
 # ----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 149439f4004ed419537ed5b545f6b95b368c0b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:13 +0000
Subject: [PATCH 43/79] fix: numeric distributions consisting of several
 impulses had no mode

---
 src/jpt/distributions/univariate/numeric.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index e189bdc..5a8ad81 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -214,6 +214,17 @@ class Numeric(Distribution):
         )[:ifnone(k, len(likelihoods))]
 
         result = []
+        if not likelihoods:
+            # The distribution consists of impulses only
+            jumps = self._quantile.jumps()
+            for mass in sorted({m for _, m in jumps}, reverse=True)[:k]:
+                result.append(
+                    (
+                        RealSet([ContinuousSet(point, point) for point, m in jumps if m == mass]).simplify(),
+                        np.PINF
+                    )
+                )
+
         for likelihood in sorted_likelihood:
             result.append(
                 (
-- 
2.43.0


From 583892c94501fc4ca53fd5759f3adc6ec30a4bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:07 +0000
Subject: [PATCH 44/79] fix: CDF regression without error tolerance did not
 pass through all points

---
 src/jpt/distributions/quantile/cdfreg.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jpt/distributions/quantile/cdfreg.pyx b/src/jpt/distributions/quantile/cdfreg.pyx
index b461e30..4a72f54 100644
--- a/src/jpt/distributions/quantile/cdfreg.pyx
+++ b/src/jpt/distributions/quantile/cdfreg.pyx
@@ -145,9 +145,11 @@ cdef class CDFRegressor:
         self._points.push(best_split)
 
         if best_mse1 >= self.eps:
-            self._queue.push_back((start, best_split, best_mse1, depth + 1))
+            # without any error tolerance, all points are needed, even if a
+            # single additional point does not yet reduce the error
+            self._queue.push_back((start, best_split, best_mse1 if self.eps > 0 else -1, depth + 1))
         if best_mse2 >= self.eps:
-            self._queue.push_back((best_split, end, best_mse2, depth + 1))
+            self._queue.push_back((best_split, end, best_mse2 if self.eps > 0 else -1, depth + 1))
 
     cdef void _backward(self) nogil:
         cdef DTYPE_t[:, ::1] data = self.data
-- 
2.43.0


From 32e3bbdad517858cfe2b32b7c8b5e5aba0fd6e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:07 +0000
Subject: [PATCH 45/79] fix: restricting a distribution to a union failed if an
 element had a negligible probability

---
 src/jpt/distributions/univariate/numeric.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 5a8ad81..e78af68 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -388,14 +388,20 @@ class Numeric(Distribution):
 
         # for real sets the result is a merge of the single ContinuousSet crops
         if isinstance(restriction, RealSet):
-            weights = [self._p(i) for i in restriction.intervals]
-            if not sum(weights):
+            distributions, weights = [], []
+            for interval in restriction.intervals:
+                weight = self._p(interval)
+                if not weight:
+                    continue
+                try:
+                    distributions.append(self._crop(interval))
+                    weights.append(weight)
+                except Unsatisfiability:
+                    pass
+            if not distributions:
                 raise Unsatisfiability('Distribution has zero probability in %s' % restriction)
 
-            return self.merge(
-                [self._crop(i) for i, w in zip(restriction.intervals, weights) if w],
-                normalized([w for w in weights if w])
-            )
+            return self.merge(distributions, normalized(weights))
 
         elif isinstance(restriction, ContinuousSet):
             if restriction.size() == 1:
-- 
2.43.0


From 7acb8074ea3d9b15f561428e82173fc9b07f0683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:40 +0000
Subject: [PATCH 46/79] fix: the sizes of the domains of symbolic targets were
 taken from other variables

---
 src/jpt/learning/impurity.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index 6ea1a61..e210864 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -615,7 +615,7 @@ cdef class Impurity:
     def get_size_of_symbolic_variables_domain_from_tree(cls, tree):
         return np.array([
             v.domain.n_values
-            for v in tree.variables if v.symbolic
+            for v in tree.variables if v.symbolic and v in tree.targets
         ], dtype=np.int64)
 
     @classmethod
-- 
2.43.0


From f64dcdc51406b9780c2f1737a60aef6aa4641184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:40 +0000
Subject: [PATCH 47/79] fix: splits on symbolic features accumulated samples of
 all values if all targets are numeric

---
 src/jpt/learning/impurity.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index e210864..fe617cc 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -1134,13 +1134,15 @@ cdef class Impurity:
             # if this variable is symbolic
             if symbolic:
 
+                # start counting the samples of the next value
+                self.num_samples[...] = 0
+
                 # if symbolic targets exist
                 if self.has_symbolic_vars():
                     self.symbols_left[...] = 0
                     self.symbols_right[...] =  self.symbols_total[...]
 
                     self.gini_improvements[...] = 0
-                    self.num_samples[...] = 0
 
                 # if numeric targets exist
                 if self.has_numeric_vars(var_idx):
-- 
2.43.0


From 12b364ce7ea64eb65d93c164494b97c46192e528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:40 +0000
Subject: [PATCH 48/79] fix: learning crashed if the best impurity improvement
 is exactly -1

---
 src/jpt/learning/impurity.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index fe617cc..770508a 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -775,7 +775,7 @@ cdef class Impurity:
                 else: return False
         return True
 
-    cpdef DTYPE_t compute_best_split(self, SIZE_t start, SIZE_t end) except -1:
+    cpdef DTYPE_t compute_best_split(self, SIZE_t start, SIZE_t end) except? -1:
         """
         Calculate the best split on all variables.
         
@@ -957,7 +957,7 @@ cdef class Impurity:
             DTYPE_t gini_total,
             SIZE_t[::1] index_buffer,
             SIZE_t* best_split_pos
-    ) nogil except -1:
+    ) nogil except? -1:
         """
         Evaluate a variable w. r. t. its possible slit. Calculate the best split on this variable
         and the corresponding impurity.
-- 
2.43.0


From 233e663cb6c77c863b6a0a274e45341f47c5611b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:39 +0000
Subject: [PATCH 49/79] fix: settings of variables got lost in from_json,
 copying and pickling

---
 src/jpt/variables.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 875b3b4..0294cda 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -253,10 +253,10 @@ class NumericVariable(Variable):
         return NumericVariable(
             name=data['name'],
             domain=domain,
-            min_impurity_improvement=data.get(Variable.MIN_IMPURITY_IMPROVEMENT),
-            max_std=data.get(NumericVariable.MAX_STDEV),
-            precision=data.get(NumericVariable.PRECISION),
-            blur=data.get(NumericVariable.BLUR)
+            min_impurity_improvement=data['settings'].get(Variable.MIN_IMPURITY_IMPROVEMENT),
+            max_std=data['settings'].get(NumericVariable.MAX_STDEV),
+            precision=data['settings'].get(NumericVariable.PRECISION),
+            blur=data['settings'].get(NumericVariable.BLUR)
         )
 
     @property
@@ -383,7 +383,7 @@ class IntegerVariable(Variable):
         return IntegerVariable(
             name=data['name'],
             domain=domain,
-            min_impurity_improvement=data.get(Variable.MIN_IMPURITY_IMPROVEMENT)
+            min_impurity_improvement=data['settings'].get(Variable.MIN_IMPURITY_IMPROVEMENT)
         )
 
     def to_json(self) -> Dict[str, Any]:
@@ -425,7 +425,9 @@ class SymbolicVariable(Variable):
     def from_json(data: Dict[str, Any]) -> 'SymbolicVariable':
         return SymbolicVariable(
             name=data['name'],
-            domain=Distribution.from_json(data['domain'])
+            domain=Distribution.from_json(data['domain']),
+            min_impurity_improvement=data['settings'].get(Variable.MIN_IMPURITY_IMPROVEMENT),
+            invert_impurity=data['settings'].get(INVERT_IMPURITY)
         )
 
     def to_json(self) -> Dict[str, Any]:
-- 
2.43.0


From 385b91056153d289d965c9e856a5fa311ef53b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:39 +0000
Subject: [PATCH 50/79] fix: a deep copy of a variable map lost entries

---
 src/jpt/inference/mpe.py | 2 +-
 src/jpt/variables.py     | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jpt/inference/mpe.py b/src/jpt/inference/mpe.py
index bb851de..3d30db4 100644
--- a/src/jpt/inference/mpe.py
+++ b/src/jpt/inference/mpe.py
@@ -177,7 +177,7 @@ class MPESolver:
 
     def likelihood(self, solution: BnBSolution):
         return prod([
-            self.domains[var][val] for var, val in solution.state.assignment.items()
+            domain[solution.state.assignment[var]] for var, domain in self.domains.items()
         ])
 
     def is_goal_state(self, state: MPEState) -> bool:
diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 0294cda..d9f0668 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -693,8 +693,10 @@ class VariableMap:
         for vname, value in self.items():
             if isinstance(value, (numbers.Number, str)):
                 vmap[vname] = value
-            elif isinstance(value, (set, list, tuple, NumberSet)):
+            elif hasattr(value, 'copy'):
                 vmap[vname] = value.copy()
+            else:
+                vmap[vname] = value
         return vmap
 
     @classmethod
-- 
2.43.0


From 1ec4c516b4622ff7632e3fef15c48c06500c241a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:34 +0000
Subject: [PATCH 51/79] fix: distributions could not be pickled

---
 src/jpt/distributions/univariate/distribution.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/jpt/distributions/univariate/distribution.py b/src/jpt/distributions/univariate/distribution.py
index 5e242f5..5606e54 100644
--- a/src/jpt/distributions/univariate/distribution.py
+++ b/src/jpt/distributions/univariate/distribution.py
@@ -1,6 +1,6 @@
 '''© Copyright 2021, Mareike Picklum, Daniel Nyga.'''
 import numbers
-from typing import Set, Iterable, Type, Any
+from typing import Set, Iterable, Type, Any, Dict
 
 import numpy as np
 
@@ -173,11 +173,13 @@ class Distribution:
     def to_json(self):
         raise NotImplementedError()
 
-    def __getstate__(self):
-        return self.to_json()
+    def __reduce__(self):
+        return Distribution._restore, (type(self).type_to_json(), self.to_json())
 
-    def __setstate__(self, state):
-        self.__dict__ = Distribution.from_json(state).__dict__
+    @staticmethod
+    def _restore(type_data: Dict[str, Any], data: Dict[str, Any]) -> 'Distribution':
+        # The type of a distribution is not necessarily importable, so it is restored from its JSON form
+        return Distribution.from_json(type_data).from_json(data)
 
     @staticmethod
     def from_json(data) -> Type['Distribution']:
-- 
2.43.0


From 93ffccc2fc27daf552a69b801e83513fad93218b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 52/79] fix: the k most probable states of a numeric
 distribution contained duplicates

---
 src/jpt/distributions/univariate/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index e78af68..9f7028c 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -207,7 +207,7 @@ class Numeric(Distribution):
         :param k: The number of solutions to generate, defaults to the maximum possible number.
         :return: A list containing a tuple containing the likelihood and state in descending order.
         """
-        likelihoods = [f.value for f in self.pdf.functions if f.value and not np.isnan(f.value)]
+        likelihoods = {f.value for f in self.pdf.functions if f.value and not np.isnan(f.value)}
         sorted_likelihood = sorted(
             likelihoods,
             reverse=True
-- 
2.43.0


From 5ccdcfae071169e10e7cae5c1f4c316c3457ec51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 53/79] fix: MPESolver searched symbolic states by the
 probability of the entire set

---
 src/jpt/inference/mpe.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/jpt/inference/mpe.py b/src/jpt/inference/mpe.py
index 3d30db4..e07467c 100644
--- a/src/jpt/inference/mpe.py
+++ b/src/jpt/inference/mpe.py
@@ -145,12 +145,10 @@ class MPESolver:
                         (
                             frozenset(val) if not isinstance(dist, Numeric) else val,
                             -np.log(
-                                (dist.pdf / likelihood_divisor).eval(val.any_point())
-                                if isinstance(dist, Numeric)
-                                else dist._p(val)
+                                likelihood / (likelihood_divisor if isinstance(dist, Numeric) else 1)
                             )
                         )
-                        for val in self.domains[var]],
+                        for val, likelihood in self.domains[var].items()],
                         key=itemgetter(1)
                     )
                 )
-- 
2.43.0


From 9843a5d578cff45dbbd704d56a8d4d045a8594df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 54/79] fix: kmpe listed states of different leaves in the
 wrong order and ignored the leaf priors

---
 src/jpt/trees.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 1bd8661..5c6c29f 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1335,15 +1335,16 @@ class JPT:
                 likelihood_divisor=likelihood_max if likelihoods else None
             ).solve() for leaf in conditional_jpt.leaves.values()
         ]
+        priors = [leaf.prior for leaf in conditional_jpt.leaves.values()]
 
         mpe_candidates = Heap(
-            data=[(*next(solver), solver) for solver in mpe_solvers],
-            key=itemgetter(1)
+            data=[(*next(solver), solver, prior) for solver, prior in zip(mpe_solvers, priors)],
+            key=lambda candidate: -candidate[1] * candidate[3]
         )
 
         count = 0
         while mpe_candidates and (not k or count < k):
-            solution, likelihood, solver = mpe_candidates.pop()
+            solution, likelihood, solver, prior = mpe_candidates.pop()
             values = ValueAssignment(
                 [
                     (variable, value if variable.numeric else set(value))
@@ -1351,9 +1352,9 @@ class JPT:
                 ]
             )
             values = values.label_assignment()
-            yield values, likelihood
+            yield values, prior * likelihood
             try:
-                mpe_candidates.push((*next(solver), solver))
+                mpe_candidates.push((*next(solver), solver, prior))
             except StopIteration:
                 pass
             count += 1
-- 
2.43.0


From 6d3d308efd0c283a6b0f25e43041c73d5d250b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 55/79] fix: posterior of evidence variables that are not part
 of the path ignored the evidence

---
 src/jpt/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 5c6c29f..61691e9 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1171,7 +1171,7 @@ class JPT:
                 if evidence_set is not None:
                     if var in leaf.path:
                         evidence_set = evidence_set.intersection(leaf.path[var])
-                        distribution = distribution._crop(evidence_set)
+                    distribution = distribution._crop(evidence_set)
                 distributions[var].append(distribution)
 
         weights = [l * p for l, p in zip(likelihoods, priors)]
-- 
2.43.0


From e4b97ba6b64c0c24adc1cdf06b37ef4dca301dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 56/79] fix: conditioning an already conditioned tree ignored
 nodes with one child

---
 src/jpt/trees.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 61691e9..80c3cdd 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2212,6 +2212,9 @@ class JPT:
         # initialize exploration queue
         fringe = deque([conditional_jpt.root])
 
+        # the decision nodes whose children have been added to the queue
+        expanded = set()
+
         while fringe:
             # get the next node to inspect
             node = fringe.popleft()
@@ -2235,7 +2238,8 @@ class JPT:
                     rm = True
 
                 # else recurse into its children
-                elif len(node.children) == 2:
+                elif node.idx not in expanded:
+                    expanded.add(node.idx)
                     fringe.extendleft(node.children)
                     continue
 
-- 
2.43.0


From 14dfbd76b673a9538644b5988395302c7a1ef663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 57/79] fix: a variable in both query and evidence was counted
 twice in infer

---
 src/jpt/trees.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 80c3cdd..2b58166 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1076,11 +1076,13 @@ class JPT:
             p_e += p_m
 
             if leaf.applies(query_):
-                for var in set(query_.keys()):
-                    query_val = query_[var]
-                    if var in leaf.path:
-                        query_val = query_val.intersection(leaf.path[var])
-                    p_m *= leaf.distributions[var]._p(query_val)
+                p_m = w
+                for var in set(query_.keys()).union(evidence_.keys()):
+                    values = [assignment[var] for assignment in (query_, evidence_, leaf.path) if var in assignment]
+                    value = values[0]
+                    for restriction in values[1:]:
+                        value = value.intersection(restriction)
+                    p_m *= leaf.distributions[var]._p(value)
                 p_q += p_m
 
         if p_e == 0:
-- 
2.43.0


From 4d2dab19f98d3596d8bf1acc4ffb892b03602477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 58/79] fix: JPT.pdf passed internal values of symbolic and
 integer variables as labels

---
 src/jpt/trees.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 2b58166..8a0ad01 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1005,6 +1005,7 @@ class JPT:
         pdf = 0
         for leaf in self.apply(values_sets):
             pdf += leaf.prior * (prod(leaf.distributions[var].pdf(value)
+                                      if var.numeric else leaf.distributions[var]._pdf(value)
                                       for var, value in values_scalars.items()) if values_scalars else 1)
         return pdf
 
-- 
2.43.0


From 4fd4986650b3c0195447e86a950fbc9261643756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 59/79] fix: samples on the border of two leaves were assigned
 to the wrong leaf

---
 src/jpt/trees.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 8a0ad01..8c1cf2d 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -123,7 +123,7 @@ class Node:
                 if variable.numeric:
 
                     # and a range is given
-                    if isinstance(value, ContinuousSet):
+                    if isinstance(value, (ContinuousSet, RealSet)):
                         # if the ranges don't intersect return false
                         if value.isdisjoint(restriction):
                             return False
@@ -131,7 +131,7 @@ class Node:
                     # if it is a singular value
                     else:
                         # check if the path allows this value
-                        if not restriction.lower < value <= restriction.upper:
+                        if value not in restriction:
                             return False
 
                 # if the variable is symbolic or integer
@@ -176,7 +176,11 @@ class Node:
         for variable, restriction in self.path.items():
             index = variable_index_map[variable]
             if variable.numeric:
-                result *= (samples[:, index] > restriction.lower) & (samples[:, index] <= restriction.upper)
+                values = samples[:, index]
+                result *= (
+                    (values >= restriction.lower if restriction.left == INC else values > restriction.lower) &
+                    (values <= restriction.upper if restriction.right == INC else values < restriction.upper)
+                )
             if variable.symbolic or variable.integer:
                 result *= np.isin(samples[:, index], list(restriction))
 
-- 
2.43.0


From 6e69c033838e918e65b338dc984a3e9606d8ad22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 60/79] fix: JPT.moment converted the centers to internal
 values

---
 src/jpt/trees.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 8c1cf2d..39373e7 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2555,9 +2555,9 @@ class JPT:
         posteriors = self.posterior([v for v in self.variables if v.numeric or v.integer], evidence,
                                     fail_on_unsatisfiability)
 
-        # Convert c, if necessary, labels to internal value representations
-        if isinstance(center, LabelAssignment):
-            center = center.value_assignment()
+        # The moments of the distributions are computed in label space
+        if isinstance(center, ValueAssignment):
+            center = center.label_assignment()
 
         if posteriors is None:
             return None
-- 
2.43.0


From efad34f455b9a5b3c2b00fa8a94e7c4cdf2e17d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 61/79] fix: leaf distributions without convex gaps lost
 probability mass

---
 src/jpt/trees.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 39373e7..cb5427f 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2436,6 +2436,9 @@ class JPT:
                             distribution.cdf.intervals[-2].upper,
                             leaf.path[variable].upper,
                         )
+                    if left is None and right is None:  # There are no gaps to close
+                        continue
+
                     if distribution.is_dirac_impulse():
                         # noinspection PyTypeChecker
                         interval = ContinuousSet(
-- 
2.43.0


From 8bc62ed704baa1b50d87d3e4aee29f2351cb7527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 62/79] fix: the split value of adjacent numbers could fall on
 the wrong side

---
 src/jpt/trees.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index cb5427f..777865b 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1600,6 +1600,9 @@ class JPT:
                     data[self.indices[start + split_pos], split_var_idx] +
                     data[self.indices[start + split_pos + 1], split_var_idx]
                 ) / 2
+                lower, upper = (data[self.indices[start + pos], split_var_idx] for pos in (split_pos, split_pos + 1))
+                if not lower < split_value <= upper:  # There is no number in between
+                    split_value = upper
                 splits = [
                     Interval(np.NINF, split_value, EXC, EXC),
                     Interval(split_value, np.PINF, INC, EXC)
-- 
2.43.0


From c5718894be289b6d7c8c652e8a422e130210dd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 63/79] fix: deleting an element of a Heap broke the heap

---
 src/jpt/base/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jpt/base/utils.py b/src/jpt/base/utils.py
index 2a50a74..c316520 100644
--- a/src/jpt/base/utils.py
+++ b/src/jpt/base/utils.py
@@ -507,6 +507,7 @@ class Heap:
 
     def __delitem__(self, item: int):
         del self._data[item]
+        heapq.heapify(self._data)
 
     def __bool__(self):
         return bool(self._data)
-- 
2.43.0


From ffc16952bd063dd7450a5c531ff3aeb174a58224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:55 +0000
Subject: [PATCH 64/79] fix: densities of leaves with impulses and impossible
 values were not a number

---
 src/jpt/trees.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 777865b..77824ec 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1008,9 +1008,13 @@ class JPT:
 
         pdf = 0
         for leaf in self.apply(values_sets):
-            pdf += leaf.prior * (prod(leaf.distributions[var].pdf(value)
-                                      if var.numeric else leaf.distributions[var]._pdf(value)
-                                      for var, value in values_scalars.items()) if values_scalars else 1)
+            densities = [
+                leaf.distributions[var].pdf(value) if var.numeric else leaf.distributions[var]._pdf(value)
+                for var, value in values_scalars.items()
+            ]
+            if not all(densities):
+                continue
+            pdf += leaf.prior * (prod(densities) if densities else 1)
         return pdf
 
     def infer(
-- 
2.43.0


From aff9672dd6f8e1aa5f4e4d630d24c9f495c65ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:16 +0000
Subject: [PATCH 65/79] fix: overlapping intervals of a union were counted
 twice

---
 src/jpt/distributions/univariate/numeric.py | 4 ++--
 src/jpt/trees.py                            | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 9f7028c..98e3612 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -285,7 +285,7 @@ class Numeric(Distribution):
         if isinstance(value, numbers.Number):
             value = ContinuousSet(value, value)
         elif isinstance(value, RealSet):
-            return sum(self._p(i) for i in value.intervals)
+            return sum(self._p(i) for i in value.simplify().intervals)
         if value.isempty():
             return 0
         probmass = (
@@ -389,7 +389,7 @@ class Numeric(Distribution):
         # for real sets the result is a merge of the single ContinuousSet crops
         if isinstance(restriction, RealSet):
             distributions, weights = [], []
-            for interval in restriction.intervals:
+            for interval in restriction.simplify().intervals:
                 weight = self._p(interval)
                 if not weight:
                     continue
diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 77824ec..05de172 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -518,7 +518,8 @@ class Leaf(Node):
             validation processes.
         """
         if isinstance(value, RealSet):
-            return sum(self._numeric_probability(variable, cs, dirac_scaling, min_distances) for cs in value.intervals)
+            return sum(self._numeric_probability(variable, cs, dirac_scaling, min_distances)
+                       for cs in value.simplify().intervals)
 
         # handle ContinuousSet
         elif isinstance(value, ContinuousSet):
-- 
2.43.0


From cf3509864707f416bd36b9973bce9ebc4c76f788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:23 +0000
Subject: [PATCH 66/79] fix: unsatisfiable evidence on integer variables raised
 a KeyError instead of being reported

---
 src/jpt/trees.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 05de172..5998270 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1098,7 +1098,7 @@ class JPT:
         if p_e == 0:
             if fail_on_unsatisfiability:
                 raise ValueError(
-                    'Query is unsatisfiable: P(%s) is 0.' % format_path(evidence)
+                    'Query is unsatisfiable: P(%s) is 0.' % format_path(evidence_)
                 )
             else:
                 return None
@@ -1192,7 +1192,7 @@ class JPT:
         except ValueError:
             if fail_on_unsatisfiability:
                 raise Unsatisfiability(
-                    'Evidence %s is unsatisfiable.' % format_path(evidence),
+                    'Evidence %s is unsatisfiable.' % format_path(evidence_),
                     reasons=inconsistencies
                 )
             return None
@@ -1248,7 +1248,7 @@ class JPT:
 
         if posteriors is None:
             if fail_on_unsatisfiability:
-                raise Unsatisfiability('Query is unsatisfiable: P(%s) is 0.' % format_path(evidence))
+                raise Unsatisfiability('Query is unsatisfiable: P(%s) is 0.' % format_path(evidence_))
             else:
                 return None
 
@@ -2297,7 +2297,7 @@ class JPT:
             # raise an error if wanted
             if fail_on_unsatisfiability:
                 raise Unsatisfiability(
-                    'Query is unsatisfiable: P(%s) is 0.' % format_path(evidence)
+                    'Query is unsatisfiable: P(%s) is 0.' % format_path(evidence_)
                 )
 
             # return None if error is not wanted
-- 
2.43.0


From da9daba729aa31ed419b737f171f3d0fc9d6e6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:42 +0000
Subject: [PATCH 67/79] fix: scalar labels and unions of intervals could not be
 read back from the JSON form of an assignment

---
 src/jpt/variables.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index d9f0668..1825720 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -756,9 +756,14 @@ class VariableAssignment(VariableMap):
             variable = var_by_name[v_name]
 
             if variable.symbolic or variable.integer:
-                value_ = set(value)
+                value_ = set(value) if isinstance(value, (list, tuple, set)) else value
             elif variable.numeric:
-                value_ = ContinuousSet.from_json(value)
+                if isinstance(value, numbers.Number):
+                    value_ = value
+                elif 'intervals' in value:
+                    value_ = RealSet.from_json(value)
+                else:
+                    value_ = ContinuousSet.from_json(value)
             else:
                 raise NotImplementedError('Unknown variable type: %s' % variable.__class__.__name__)
 
@@ -803,7 +808,7 @@ class LabelAssignment(VariableAssignment):
         result = dict()
         for variable, value in self.items():
             if variable.symbolic or variable.integer:
-                if isinstance(value, collections.abc.Iterable):
+                if isinstance(value, collections.abc.Iterable) and not isinstance(value, str):
                     value = list(value)
 
             result[variable.name] = to_json(value)
-- 
2.43.0


From 9fc3a28233e9cf186e68bf51ad16c6a31a7da32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:58 +0000
Subject: [PATCH 68/79] fix: closing the gaps between leaves of adjacent
 numbers failed with a division by zero

---
 src/jpt/trees.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 5998270..06163b7 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2455,6 +2455,8 @@ class JPT:
                             INC,
                             EXC
                         )
+                        if not interval.width:  # There is no number in the gap
+                            continue
                         # noinspection PyTypeChecker
                         distribution.set(
                             QuantileDistribution.from_pdf(
-- 
2.43.0


From 46ef4388847b70e17a5f5280df0e5e70063c8275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:30 +0000
Subject: [PATCH 69/79] fix: piecewise functions with quadratic or undefined
 pieces could not be serialised

---
 src/jpt/base/functions.pyx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 143f9a8..2716ffc 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -175,6 +175,9 @@ cdef class Undefined(Function):
     def __hash__(self):
         return hash(Undefined)
 
+    def to_json(self):
+        return {'type': 'undefined'}
+
     def __eq__(self, other):
         if isinstance(other, Undefined):
             return True
@@ -698,6 +701,10 @@ cdef class LinearFunction(Function):
             return LinearFunction(data['slope'], data['intercept'])
         elif data['type'] == 'constant':
             return ConstantFunction(data['value'])
+        elif data['type'] == 'quadratic':
+            return QuadraticFunction.from_json(data)
+        elif data['type'] == 'undefined':
+            return Undefined()
         else:
             raise TypeError('Unknown function type or type not given (%s)' % data.get('type'))
 
@@ -835,7 +842,7 @@ cdef class QuadraticFunction(Function):
         return self
 
     def to_json(self):
-        return {'a': self.a, 'b': self.b, 'c': self.c}
+        return {'type': 'quadratic', 'a': self.a, 'b': self.b, 'c': self.c}
 
     @staticmethod
     def from_json(data):
-- 
2.43.0


From f7db0589c8fe19f945e39ab83aa9e6b843eb9c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:33 +0000
Subject: [PATCH 70/79] fix: trees with explicit targets were not equal to
 their copies

---
 src/jpt/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 06163b7..a0bded0 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -773,7 +773,7 @@ class JPT:
         if dependencies is None:
             self.dependencies: VariableMap[Variable, List[Variable]] = VariableMap({
                 var: list(self.targets) for var in self.features
-            })
+            }, variables=self.variables)
         else:
             self.dependencies: VariableMap[Variable, List[Variable]] = VariableMap(
                 dependencies.items(),
-- 
2.43.0


From df875bfc2fed6375089fc7fe902012c1234a187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:15 +0000
Subject: [PATCH 71/79] fix: prediction intervals did not return the array of
 their numbers

---
 src/jpt/base/cutils.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/cutils.pyx b/src/jpt/base/cutils.pyx
index 47ddfd3..9c8f611 100644
--- a/src/jpt/base/cutils.pyx
+++ b/src/jpt/base/cutils.pyx
@@ -37,4 +37,5 @@ cdef class ConfInterval:
             result = np.ndarray(shape=3, dtype=np.float64)
         result[0] = self.lower
         result[1] = self.mean
-        result[2] = self.upper
\ No newline at end of file
+        result[2] = self.upper
+        return result
\ No newline at end of file
-- 
2.43.0


From 3c50a585ea6c042a8db1befd8f3323f9ede32e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:15 +0000
Subject: [PATCH 72/79] fix: linspace of a single number was half the width and
 not the centre

---
 src/jpt/base/cutils.pxd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/cutils.pxd b/src/jpt/base/cutils.pxd
index 61ea4fe..027b912 100644
--- a/src/jpt/base/cutils.pxd
+++ b/src/jpt/base/cutils.pxd
@@ -308,7 +308,7 @@ cpdef inline DTYPE_t[::1] linspace(DTYPE_t start, DTYPE_t stop, np.int64_t num):
     cdef DTYPE_t space, val = start
     cdef np.int64_t i
     if num == 1:
-        samples[0] = (stop - start) / 2
+        samples[0] = (start + stop) / 2
     else:
         n = <DTYPE_t> num - 1
         space = (stop - start) / n
-- 
2.43.0


From 0ed29e9fab50785dad0c059a80003437cb9b01c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:33 +0000
Subject: [PATCH 73/79] fix: posterior weighted a leaf by a density when
 interval evidence only touches the leaf's path in one point

---
 src/jpt/trees.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index a0bded0..6ebbd12 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1157,7 +1157,8 @@ class JPT:
                 if var in leaf.path:
                     evidence_set = evidence_set.intersection(leaf.path[var])
 
-                if isinstance(evidence_set, ContinuousSet) and evidence_set.size() == 1:
+                # only evidence that is a single point itself is weighted by its density
+                if isinstance(evidence_[var], ContinuousSet) and evidence_[var].size() == 1:
                     l_var = leaf.distributions[var].pdf(evidence_set.lower)
                     l_var = 1 if np.isinf(l_var) else l_var
                 else:
-- 
2.43.0


From 4d55ba37955af4986a697d569a433a1a7dbd5f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:18 +0000
Subject: [PATCH 74/79] fix: sets outside of the support could get a
 probability from rounding errors of the CDF

---
 src/jpt/distributions/univariate/numeric.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 98e3612..34a69f4 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -288,6 +288,9 @@ class Numeric(Distribution):
             return sum(self._p(i) for i in value.simplify().intervals)
         if value.isempty():
             return 0
+        # Outside of the support there is no probability, not even from rounding errors of the CDF at its ends
+        if value.uppermost() < self.cdf.intervals[0].upper or value.lowermost() > self.cdf.intervals[-1].lower:
+            return 0
         probmass = (
                 (self.cdf.eval(value.upper) if value.upper != np.PINF else 1.) -
                 (self.cdf.eval(value.lower) if value.lower != np.NINF else 0.)
-- 
2.43.0


From 63028cbd70f5100e89b542bbf58a34cc8d2fefc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:04 +0000
Subject: [PATCH 75/79] fix: independent_marginals assigns the leaf marginals
 of a time step to the tree of that step

The marginals were paired with the trees in the alphabetical order of their
names, in which t10 precedes t2, so sequences of more than ten steps got the
marginals of other steps.
---
 src/jpt/sequential_trees.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/jpt/sequential_trees.py b/src/jpt/sequential_trees.py
index bec2550..8c8d4a9 100644
--- a/src/jpt/sequential_trees.py
+++ b/src/jpt/sequential_trees.py
@@ -1,5 +1,4 @@
 import datetime
-from operator import itemgetter
 from typing import List, Dict
 
 import numpy as np
@@ -323,10 +322,8 @@ class SequentialJPT:
         )
 
         # transform trees
-        for ((tree_name, distribution), tree) in zip(
-            sorted(leaf_distribution.items(), key=itemgetter(0)),
-            altered_jpts
-        ):
+        for t, tree in enumerate(altered_jpts):
+            distribution = leaf_distribution['t%s' % t]
             prior = dict(
                 zip(
                     sorted(self.template_tree.leaves.keys()),
-- 
2.43.0


From 37563bccb50ab930228068604330a2c36d309a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:05 +0000
Subject: [PATCH 76/79] fix: fitting a SequentialJPT again discards the leaves
 of the previous fit

---
 src/jpt/sequential_trees.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jpt/sequential_trees.py b/src/jpt/sequential_trees.py
index 8c8d4a9..a73dc1f 100644
--- a/src/jpt/sequential_trees.py
+++ b/src/jpt/sequential_trees.py
@@ -85,6 +85,7 @@ class SequentialJPT:
         # create template tree from learnt joint tree
         self.template_tree.root = expanded_template_tree.root
         self.template_tree.innernodes = expanded_template_tree.innernodes
+        self.template_tree.leaves.clear()
         for idx, leaf in expanded_template_tree.leaves.items():
             leaf.distributions = VariableMap([(v, d) for v, d in leaf.distributions.items()
                                              if v.name in self.template_tree.varnames.keys()])
-- 
2.43.0


From 651ac0590ebaceabe027a4bd0ac69ff016b2ddfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:05 +0000
Subject: [PATCH 77/79] fix: the trees of independent_marginals carry the
 marginals of the sequence as leaf priors

The priors of the conditional trees are factors of the graph the marginals are
computed with; multiplying them in once more counted the evidence twice, so the
result for a sequence of one step differed from the conditional tree. Also the
leaf indices are taken in the order in which the factors were built.
---
 src/jpt/sequential_trees.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/jpt/sequential_trees.py b/src/jpt/sequential_trees.py
index a73dc1f..b7241f9 100644
--- a/src/jpt/sequential_trees.py
+++ b/src/jpt/sequential_trees.py
@@ -327,13 +327,15 @@ class SequentialJPT:
             distribution = leaf_distribution['t%s' % t]
             prior = dict(
                 zip(
-                    sorted(self.template_tree.leaves.keys()),
+                    self.template_tree.leaves.keys(),
                     distribution
                 )
             )
 
-            adjusted_tree = tree.multiply_by_leaf_prior(prior)
-            result.append(adjusted_tree)
+            # the marginals already account for the evidence of their time step
+            for idx, leaf in tree.leaves.items():
+                leaf.prior = prior[idx]
+            result.append(tree.normalize())
 
         self.logger.debug('Independent marginals computation finished.')
         return result
-- 
2.43.0


From 26d9518e8db3175b22e098d2ebf7be641db36d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:12 +0000
Subject: [PATCH 78/79] fix: belief propagation on sequences normalises its
 messages

Unnormalised messages shrink with the length of the sequence; once they are
below the absolute tolerance of the convergence test, the propagation stops
before the evidence of distant steps has arrived.
---
 src/jpt/sequential_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/sequential_trees.py b/src/jpt/sequential_trees.py
index b7241f9..59b0495 100644
--- a/src/jpt/sequential_trees.py
+++ b/src/jpt/sequential_trees.py
@@ -310,7 +310,7 @@ class SequentialJPT:
 
         # Run (loopy) belief propagation (LBP)
         start = datetime.datetime.now()
-        factor_graph.lbp(max_iters=100, progress=True)
+        factor_graph.lbp(normalize=True, max_iters=100, progress=True)
         leaf_distribution = {
             var.name: normalized(dist, zeros=.1)
             for var, dist in factor_graph.rv_marginals()
-- 
2.43.0


From fecaa8826e2cdbccb16d28156eaf93f1dcabb23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:45 +0000
Subject: [PATCH 79/79] fix: without error tolerance keep all points of a
 distribution function, even if errors overflow

---
 src/jpt/distributions/quantile/cdfreg.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/jpt/distributions/quantile/cdfreg.pyx b/src/jpt/distributions/quantile/cdfreg.pyx
index 4a72f54..6b39c2b 100644
--- a/src/jpt/distributions/quantile/cdfreg.pyx
+++ b/src/jpt/distributions/quantile/cdfreg.pyx
@@ -144,11 +144,11 @@ cdef class CDFRegressor:
 
         self._points.push(best_split)
 
-        if best_mse1 >= self.eps:
-            # without any error tolerance, all points are needed, even if a
-            # single additional point does not yet reduce the error
+        # without any error tolerance, all points are needed, even if a single additional
+        # point does not yet reduce the error or the error is not representable
+        if self.eps <= 0 or best_mse1 >= self.eps:
             self._queue.push_back((start, best_split, best_mse1 if self.eps > 0 else -1, depth + 1))
-        if best_mse2 >= self.eps:
+        if self.eps <= 0 or best_mse2 >= self.eps:
             self._queue.push_back((best_split, end, best_mse2 if self.eps > 0 else -1, depth + 1))
 
     cdef void _backward(self) nogil:
@@ -179,7 +179,7 @@ cdef class CDFRegressor:
                 # printf('%d, top: %d, lx=%.4f\n', pos, self._points.top(), lx)
                 err += (m * data[0, pos] + c - data[1, pos]) ** 2
                 pos -= 1
-            if err / <DTYPE_t> (start - pos) >= self.eps:
+            if self.eps <= 0 or err / <DTYPE_t> (start - pos) >= self.eps:
                 self.points.push_front(p)
                 pos = p
             else:
-- 
2.43.0

