From 27b4c3fef4aae4e10df253b11cb8657a631ad0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:12 +0000
Subject: [PATCH 01/67] fix: divide an interval by a number with directed
 rounding, not by its rounded reciprocal

---
 intvalpy/kernel/interval_arithmetics.pyx | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 6751af6..78c36cb 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -463,6 +463,18 @@ cdef class ClassicalArithmetic(BaseTools):
                 sup = 1.0/other.a
             return self.__mul__(KaucherArithmetic(inf, sup))
         
+        elif isinstance(other, Number):
+            if other == 0:
+                raise ZeroDivisionError('division by zero')
+            with RoundingContext(FE_DOWNWARD):
+                inf = min(self.a / other, self.b / other)
+            with RoundingContext(FE_UPWARD):
+                sup = max(self.a / other, self.b / other)
+            return ClassicalArithmetic(inf, sup)
+        
+        elif isinstance(other, np.ndarray):
+            return np.vectorize(lambda o: self / o)(other)
+        
         else:
             return 1.0/other * self
     
@@ -614,6 +626,18 @@ cdef class KaucherArithmetic(BaseTools):
                 sup = 1.0/other.a
             return self.__mul__(KaucherArithmetic(inf, sup))
         
+        elif isinstance(other, Number):
+            if other == 0:
+                raise ZeroDivisionError('division by zero')
+            with RoundingContext(FE_DOWNWARD):
+                inf = self.a / other if other > 0 else self.b / other
+            with RoundingContext(FE_UPWARD):
+                sup = self.b / other if other > 0 else self.a / other
+            return KaucherArithmetic(inf, sup)
+        
+        elif isinstance(other, np.ndarray):
+            return np.vectorize(lambda o: self / o)(other)
+        
         else:
             return 1/other * self
     
-- 
2.43.0


From dad236e751d37445d5487cd36de83befc99ffa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:12 +0000
Subject: [PATCH 02/67] fix: numpy operands: check for division by zero and
 keep the order of operands

---
 intvalpy/kernel/interval_arithmetics.pyx | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 78c36cb..b491b16 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -352,8 +352,18 @@ cdef class BaseTools:
 
 
     def __array_ufunc__(self, *args):
-        cdef double_t inf, sup
-        if args[0].__name__ in ['add']:
+        if args[0].__name__ in ['add', 'subtract', 'multiply', 'true_divide', 'divide'] and args[2] is self:
+            # the interval is the first operand: np.add(x, other)
+            if args[0].__name__ == 'add':
+                return self + args[3]
+            elif args[0].__name__ == 'subtract':
+                return self - args[3]
+            elif args[0].__name__ == 'multiply':
+                return self * args[3]
+            else:
+                return self / args[3]
+
+        elif args[0].__name__ in ['add']:
             return self.__radd__(args[2])
 
         elif args[0].__name__ in ['subtract']:
@@ -363,11 +373,7 @@ cdef class BaseTools:
             return self.__rmul__(args[2])
 
         elif args[0].__name__ in ['true_divide', 'divide']:
-            with RoundingContext(FE_DOWNWARD):
-                inf = 1/self.b
-            with RoundingContext(FE_UPWARD):
-                sup = 1/self.a
-            return type(self)(inf, sup).__rmul__(args[2])
+            return self.__rtruediv__(args[2])
 
         elif args[0].__name__ in ['sqrt']: 
             return self.sqrt()
-- 
2.43.0


From 2afdfcdcd03f40ff897f7e74080b4a47dcc6571b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:12 +0000
Subject: [PATCH 03/67] fix: refuse to divide by improper intervals whose
 projection contains zero

---
 intvalpy/kernel/interval_arithmetics.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index b491b16..be4150b 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -461,7 +461,7 @@ cdef class ClassicalArithmetic(BaseTools):
             return ClassicalArithmetic(inf, sup)
         
         if isinstance(other, KaucherArithmetic):
-            if 0.0 in other:
+            if 0.0 in other.pro:
                 raise ValueError('It is impossible to divide by zero containing intervals.')
             with RoundingContext(FE_DOWNWARD):
                 inf = 1.0/other.b
@@ -624,7 +624,7 @@ cdef class KaucherArithmetic(BaseTools):
             return KaucherArithmetic(inf, sup)
         
         if isinstance(other, KaucherArithmetic):
-            if 0.0 in other:
+            if 0.0 in other.pro:
                 raise ValueError('It is impossible to divide by zero containing intervals!')
             with RoundingContext(FE_DOWNWARD):
                 inf = 1.0/other.b
@@ -716,7 +716,7 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __rtruediv__(self, other):
         cdef double_t inf, sup
-        if 0.0 in self:
+        if 0.0 in self.pro:
             raise ValueError('It is impossible to divide by zero containing intervals!')
         with RoundingContext(FE_DOWNWARD):
             inf = 1.0/self.b
-- 
2.43.0


From ce82a9c31e5e94c58234f3b38233394d69f744e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:12 +0000
Subject: [PATCH 04/67] fix: round Kaucher products outward and by the max
 formula for every pair of classes

---
 intvalpy/kernel/interval_arithmetics.pyx | 65 +++++-------------------
 1 file changed, 13 insertions(+), 52 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index be4150b..fe15c4c 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -419,8 +419,6 @@ cdef class ClassicalArithmetic(BaseTools):
     
     def __mul__(self, other):
         cdef double_t inf, sup
-        cdef double_t selfInfPlus, selfSupPlus, otherInfPlus, otherSupPlus
-        cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
         
         if isinstance(other, ClassicalArithmetic):
             with RoundingContext(FE_DOWNWARD):
@@ -430,21 +428,7 @@ cdef class ClassicalArithmetic(BaseTools):
             return ClassicalArithmetic(inf, sup)
         
         elif isinstance(other, KaucherArithmetic):
-            selfInfPlus = max(self.a, 0.0)
-            selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
-            
-            otherInfPlus = max(other.a, 0.0)
-            otherSupPlus = max(other.b, 0.0)
-            otherInfMinus = otherInfPlus - other.a
-            otherSupMinus = otherSupPlus - other.b
-            
-            with RoundingContext(FE_DOWNWARD):
-                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus - selfSupPlus * otherInfMinus - selfInfMinus * otherSupPlus
-            with RoundingContext(FE_UPWARD):
-                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus - selfInfPlus * otherSupMinus - selfSupMinus * otherInfPlus
-            return KaucherArithmetic(inf, sup)
+            return other * self
         
         else:
             return other * self
@@ -571,6 +555,7 @@ cdef class KaucherArithmetic(BaseTools):
         cdef double_t inf, sup
         cdef double_t selfInfPlus, selfSupPlus, otherInfPlus, otherSupPlus
         cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
+        cdef double_t infPlus, infMinus, supPlus, supMinus
         
         if isinstance(other, (ClassicalArithmetic, KaucherArithmetic)):
             selfInfPlus = max(self.a, 0.0)
@@ -583,10 +568,16 @@ cdef class KaucherArithmetic(BaseTools):
             otherInfMinus = otherInfPlus - other.a
             otherSupMinus = otherSupPlus - other.b
             
+            # what is subtracted has to be rounded in the opposite direction
             with RoundingContext(FE_DOWNWARD):
-                inf = max(selfInfPlus * otherInfPlus, selfSupMinus * otherSupMinus) - max(selfSupPlus * otherInfMinus, selfInfMinus * otherSupPlus)
+                infPlus = max(selfInfPlus * otherInfPlus, selfSupMinus * otherSupMinus)
+                supMinus = max(selfInfPlus * otherSupMinus, selfSupMinus * otherInfPlus)
             with RoundingContext(FE_UPWARD):
-                sup = max(selfSupPlus * otherSupPlus, selfInfMinus * otherInfMinus) - max(selfInfPlus * otherSupMinus, selfSupMinus * otherInfPlus)
+                supPlus = max(selfSupPlus * otherSupPlus, selfInfMinus * otherInfMinus)
+                infMinus = max(selfSupPlus * otherInfMinus, selfInfMinus * otherSupPlus)
+                sup = supPlus - supMinus
+            with RoundingContext(FE_DOWNWARD):
+                inf = infPlus - infMinus
             return KaucherArithmetic(inf, sup)
         
         else:
@@ -594,8 +585,6 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __truediv__(self, other):
         cdef double_t inf, sup
-        cdef double_t selfInfPlus, selfSupPlus, otherInfPlus, otherSupPlus
-        cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
         
         if isinstance(other, ClassicalArithmetic):
             if 0.0 in other:
@@ -605,23 +594,7 @@ cdef class KaucherArithmetic(BaseTools):
                 inf = 1.0/other.b
             with RoundingContext(FE_UPWARD):
                 sup = 1.0/other.a
-            other = ClassicalArithmetic(inf, sup)
-            
-            selfInfPlus = max(self.a, 0.0)
-            selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
-            
-            otherInfPlus = max(other.a, 0.0)
-            otherSupPlus = max(other.b, 0.0)
-            otherInfMinus = otherInfPlus - other.a
-            otherSupMinus = otherSupPlus - other.b
-            
-            with RoundingContext(FE_DOWNWARD):
-                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus - selfSupPlus * otherInfMinus - selfInfMinus * otherSupPlus
-            with RoundingContext(FE_UPWARD):
-                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus - selfInfPlus * otherSupMinus - selfSupMinus * otherInfPlus
-            return KaucherArithmetic(inf, sup)
+            return self.__mul__(ClassicalArithmetic(inf, sup))
         
         if isinstance(other, KaucherArithmetic):
             if 0.0 in other.pro:
@@ -692,24 +665,12 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __rmul__(self, other):
         cdef double_t inf, sup
-        cdef double_t selfInfPlus, selfSupPlus, otherInfPlus, otherSupPlus
-        cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
         
         if isinstance(other, Number):
-            selfInfPlus = max(self.a, 0.0)
-            selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
-            
-            otherInfPlus = max(other, 0.0)
-            otherSupPlus = otherInfPlus
-            otherInfMinus = otherInfPlus - other
-            otherSupMinus = otherSupPlus - other
-            
             with RoundingContext(FE_DOWNWARD):
-                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus - selfSupPlus * otherInfMinus - selfInfMinus * otherSupPlus
+                inf = other * self.a if other >= 0 else other * self.b
             with RoundingContext(FE_UPWARD):
-                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus - selfInfPlus * otherSupMinus - selfSupMinus * otherInfPlus
+                sup = other * self.b if other >= 0 else other * self.a
             return KaucherArithmetic(inf, sup)
         else:
             return np.vectorize(lambda o: o * self)(other)
-- 
2.43.0


From f41b5fa1090262f294f1deb18b2fd8dbd333d1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:12 +0000
Subject: [PATCH 05/67] fix: integer powers and quotients of int endpoints
 honor the direction of rounding

---
 intvalpy/kernel/interval_arithmetics.pyx | 59 ++++++++++++++++--------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index fe15c4c..2832cde 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -56,6 +56,27 @@ cdef double round_down(double x) nogil:
 
 cdef double round_up(double x) nogil:
     return nextafter(x, DBL_MAX)    
+
+
+cdef object int_power(object x, object n, int mode):
+    """
+    x ** n for a non-negative integer n, rounded in the given direction.
+    The function pow does not honor the rounding mode, so only products are used.
+    """
+    cdef bint negativeQ = x < 0 and n % 2 == 1
+    if negativeQ:
+        mode = FE_UPWARD if mode == FE_DOWNWARD else FE_DOWNWARD
+
+    n, base = int(n), abs(x)
+    result = type(base)(1)
+    with RoundingContext(mode):
+        while n > 0:
+            if n % 2 == 1:
+                result = result * base
+            n = n // 2
+            if n > 0:
+                base = base * base
+    return -result if negativeQ else result
 #######################################################################################
 
 
@@ -438,10 +459,12 @@ cdef class ClassicalArithmetic(BaseTools):
         if isinstance(other, ClassicalArithmetic):
             if 0.0 in other:
                 raise ValueError('It is impossible to divide by zero containing intervals.')
+            # python divides int's by their absolute values, which reverses the rounding
+            a, b = float(self.a), float(self.b)
             with RoundingContext(FE_DOWNWARD):
-                inf = min(self.a / other.a, self.a / other.b, self.b / other.a, self.b / other.b)
+                inf = min(a / other.a, a / other.b, b / other.a, b / other.b)
             with RoundingContext(FE_UPWARD):
-                sup = max(self.a / other.a, self.a / other.b, self.b / other.a, self.b / other.b)
+                sup = max(a / other.a, a / other.b, b / other.a, b / other.b)
             return ClassicalArithmetic(inf, sup)
         
         if isinstance(other, KaucherArithmetic):
@@ -456,10 +479,11 @@ cdef class ClassicalArithmetic(BaseTools):
         elif isinstance(other, Number):
             if other == 0:
                 raise ZeroDivisionError('division by zero')
+            a, b = float(self.a), float(self.b)
             with RoundingContext(FE_DOWNWARD):
-                inf = min(self.a / other, self.b / other)
+                inf = min(a / other, b / other)
             with RoundingContext(FE_UPWARD):
-                sup = max(self.a / other, self.b / other)
+                sup = max(a / other, b / other)
             return ClassicalArithmetic(inf, sup)
         
         elif isinstance(other, np.ndarray):
@@ -470,11 +494,9 @@ cdef class ClassicalArithmetic(BaseTools):
     
     def __pow__(self, other):
         if isinstance(other, (int, np.int_)) and other >= 0:
-            with RoundingContext(FE_DOWNWARD):
-                inf = min(self.a ** other, self.b ** other)
-            with RoundingContext(FE_UPWARD):
-                sup = max(self.a ** other, self.b ** other)
-            if (other % 2 == 0) and (0 in self):
+            inf = min(int_power(self.a, other, FE_DOWNWARD), int_power(self.b, other, FE_DOWNWARD))
+            sup = max(int_power(self.a, other, FE_UPWARD), int_power(self.b, other, FE_UPWARD))
+            if (other > 0) and (other % 2 == 0) and (0 in self):
                 return ClassicalArithmetic(0.0, sup)
             else:
                 return ClassicalArithmetic(inf, sup)
@@ -608,10 +630,11 @@ cdef class KaucherArithmetic(BaseTools):
         elif isinstance(other, Number):
             if other == 0:
                 raise ZeroDivisionError('division by zero')
+            a, b = float(self.a), float(self.b)
             with RoundingContext(FE_DOWNWARD):
-                inf = self.a / other if other > 0 else self.b / other
+                inf = a / other if other > 0 else b / other
             with RoundingContext(FE_UPWARD):
-                sup = self.b / other if other > 0 else self.a / other
+                sup = b / other if other > 0 else a / other
             return KaucherArithmetic(inf, sup)
         
         elif isinstance(other, np.ndarray):
@@ -623,14 +646,12 @@ cdef class KaucherArithmetic(BaseTools):
     def __pow__(self, other): #TODO, debug
         cdef double_t inf, sup
         if isinstance(other, (int, np.int_)) and other >= 0:
-            with RoundingContext(FE_DOWNWARD):
-                inf = self.a ** other
-            with RoundingContext(FE_UPWARD):
-                sup = self.b ** other
-            if (other % 2 == 0) and (0 in self):
-                return ClassicalArithmetic(0.0, max(inf, sup))
-            elif (other % 2 == 0) and (0 in self.pro):
-                return KaucherArithmetic(max(inf, sup), 0.0)
+            if self.a <= self.b:
+                return ClassicalArithmetic(self.a, self.b) ** other
+            inf = int_power(self.a, other, FE_DOWNWARD)
+            sup = int_power(self.b, other, FE_UPWARD)
+            if (other > 0) and (other % 2 == 0) and (0 in self.pro):
+                return KaucherArithmetic(max(inf, int_power(self.b, other, FE_DOWNWARD)), 0.0)
             else:
                 if inf > sup:
                     return KaucherArithmetic(inf, sup)
-- 
2.43.0


From 30b02f6aa49b59faf9ecf87de64bcdee69736582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:12 +0000
Subject: [PATCH 06/67] fix: convert large int endpoints and operands to double
 outward

---
 intvalpy/kernel/interval_arithmetics.pyx | 58 ++++++++++++++++++++----
 1 file changed, 49 insertions(+), 9 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 2832cde..4f39f37 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -22,6 +22,8 @@ ctypedef bint bool_t
 cdef double PI = 3.14159265358979323846
 cdef double INF = float('inf')
 cdef double NEGINF = float('-inf')
+# endpoints are stored as int only if their products are exact in double
+MAX_INT = 2 ** 26
 ARITHMETICS = (ClassicalArithmetic, KaucherArithmetic)
 
 
@@ -58,6 +60,23 @@ cdef double round_up(double x) nogil:
     return nextafter(x, DBL_MAX)    
 
 
+cdef double int_to_double(object x, int mode):
+    """
+    The int x as a double, rounded in the given direction. The usual conversion is to nearest.
+    """
+    cdef double result
+    try:
+        result = float(x)
+    except OverflowError:
+        result = INF if x > 0 else NEGINF
+
+    if mode == FE_DOWNWARD and result > x:
+        result = nextafter(result, NEGINF)
+    elif mode == FE_UPWARD and result < x:
+        result = nextafter(result, INF)
+    return result
+
+
 cdef object int_power(object x, object n, int mode):
     """
     x ** n for a non-negative integer n, rounded in the given direction.
@@ -87,14 +106,20 @@ cdef class BaseTools:
    
     
     def __cinit__(self, left, right):
-        if isinstance(left, int):
+        if isinstance(left, int) and abs(left) > MAX_INT:
+            self._a_double = int_to_double(left, FE_DOWNWARD)
+            self._a_doubleQ = True
+        elif isinstance(left, int):
             self._a_int = left
             self._a_doubleQ = False
         else:
             self._a_double = left
             self._a_doubleQ = True
             
-        if isinstance(right, int):
+        if isinstance(right, int) and abs(right) > MAX_INT:
+            self._b_double = int_to_double(right, FE_UPWARD)
+            self._b_doubleQ = True
+        elif isinstance(right, int):
             self._b_int = right
             self._b_doubleQ = False
         else:
@@ -479,6 +504,8 @@ cdef class ClassicalArithmetic(BaseTools):
         elif isinstance(other, Number):
             if other == 0:
                 raise ZeroDivisionError('division by zero')
+            if isinstance(other, (int, np.integer)):
+                return self / ClassicalArithmetic(int(other), int(other))
             a, b = float(self.a), float(self.b)
             with RoundingContext(FE_DOWNWARD):
                 inf = min(a / other, b / other)
@@ -507,7 +534,9 @@ cdef class ClassicalArithmetic(BaseTools):
     
     def __radd__(self, other):
         cdef double_t inf, sup
-        if isinstance(other, Number):
+        if isinstance(other, (int, np.integer)):
+            return ClassicalArithmetic(int(other), int(other)) + self
+        elif isinstance(other, Number):
             with RoundingContext(FE_DOWNWARD):
                 inf = self.a + other
             with RoundingContext(FE_UPWARD):
@@ -519,7 +548,9 @@ cdef class ClassicalArithmetic(BaseTools):
     
     def __rsub__(self, other):
         cdef double_t inf, sup
-        if isinstance(other, Number):
+        if isinstance(other, (int, np.integer)):
+            return ClassicalArithmetic(int(other), int(other)) - self
+        elif isinstance(other, Number):
             with RoundingContext(FE_DOWNWARD):
                 inf = other - self.b
             with RoundingContext(FE_UPWARD):
@@ -530,7 +561,9 @@ cdef class ClassicalArithmetic(BaseTools):
     
     def __rmul__(self, other):
         cdef double_t inf, sup
-        if isinstance(other, Number):
+        if isinstance(other, (int, np.integer)):
+            return ClassicalArithmetic(int(other), int(other)) * self
+        elif isinstance(other, Number):
             with RoundingContext(FE_DOWNWARD):
                 inf = min(other * self.a, other * self.b)
             with RoundingContext(FE_UPWARD):
@@ -630,6 +663,8 @@ cdef class KaucherArithmetic(BaseTools):
         elif isinstance(other, Number):
             if other == 0:
                 raise ZeroDivisionError('division by zero')
+            if isinstance(other, (int, np.integer)):
+                return self / ClassicalArithmetic(int(other), int(other))
             a, b = float(self.a), float(self.b)
             with RoundingContext(FE_DOWNWARD):
                 inf = a / other if other > 0 else b / other
@@ -664,7 +699,9 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __radd__(self, other):
         cdef double_t inf, sup
-        if isinstance(other, Number):
+        if isinstance(other, (int, np.integer)):
+            return ClassicalArithmetic(int(other), int(other)) + self
+        elif isinstance(other, Number):
             with RoundingContext(FE_DOWNWARD):
                 inf = self.a + other
             with RoundingContext(FE_UPWARD):
@@ -675,7 +712,9 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __rsub__(self, other):
         cdef double_t inf, sup
-        if isinstance(other, Number):
+        if isinstance(other, (int, np.integer)):
+            return ClassicalArithmetic(int(other), int(other)) - self
+        elif isinstance(other, Number):
             with RoundingContext(FE_DOWNWARD):
                 inf = other - self.b
             with RoundingContext(FE_UPWARD):
@@ -686,8 +725,9 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __rmul__(self, other):
         cdef double_t inf, sup
-        
-        if isinstance(other, Number):
+        if isinstance(other, (int, np.integer)):
+            return ClassicalArithmetic(int(other), int(other)) * self
+        elif isinstance(other, Number):
             with RoundingContext(FE_DOWNWARD):
                 inf = other * self.a if other >= 0 else other * self.b
             with RoundingContext(FE_UPWARD):
-- 
2.43.0


From 5bf6a6972289412979e311bab30822dbd1953d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:27 +0000
Subject: [PATCH 07/67] fix: exp keeps the finite end when only the other one
 overflows

---
 intvalpy/kernel/interval_arithmetics.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 4f39f37..63b6dca 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -305,10 +305,13 @@ cdef class BaseTools:
         cdef double_t inf, sup
         try:
             inf = round_down(math.exp(self.a))
+        except OverflowError:
+            inf = DBL_MAX
+        try:
             sup = round_up(math.exp(self.b))
-            return type(self)(inf, sup)
         except OverflowError:
-            return type(self)(INF, INF)
+            sup = INF
+        return type(self)(inf, sup)
 
     def log(self):
         cdef double_t inf, sup
-- 
2.43.0


From 238028a6ed66a514357abe770df2226983ad73f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:45 +0000
Subject: [PATCH 08/67] fix: log rounds its ends in the required direction

---
 intvalpy/kernel/interval_arithmetics.pyx | 25 +++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 63b6dca..fb314ec 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -9,7 +9,7 @@ cimport cython
 
 import math
 cimport cython
-from libc.math cimport nextafter, nexttoward
+from libc.math cimport nextafter, nexttoward, logl, fabsl
 from libc.float cimport DBL_MAX, DBL_MIN
 from cython cimport fused_type
 
@@ -60,6 +60,17 @@ cdef double round_up(double x) nogil:
     return nextafter(x, DBL_MAX)    
 
 
+cdef double directed_log(double x, int mode):
+    """
+    The natural logarithm of a positive x, rounded in the given direction.
+    The function log does not always honor the rounding mode, logl is off by less than 2^-62 of its value.
+    """
+    cdef long double value = logl(x)
+    cdef long double margin = fabsl(value) * <long double>2.0**-62 if value < INF else 0
+    with RoundingContext(mode):
+        return <double>(value - margin if mode == FE_DOWNWARD else value + margin)
+
+
 cdef double int_to_double(object x, int mode):
     """
     The int x as a double, rounded in the given direction. The usual conversion is to nearest.
@@ -319,16 +330,12 @@ cdef class BaseTools:
         _max, _min = max(pro.a, 0.0), pro.b
         if _max <= _min:
             if self.a <= self.b:
-                with RoundingContext(FE_DOWNWARD):
-                    inf = NEGINF if _max == 0.0 else math.log(_max)
-                with RoundingContext(FE_UPWARD):
-                    sup = NEGINF if _min == 0.0 else math.log(_min)
+                inf = NEGINF if _max == 0.0 else directed_log(_max, FE_DOWNWARD)
+                sup = NEGINF if _min == 0.0 else directed_log(_min, FE_UPWARD)
                 return type(self)(inf, sup)
             else:
-                with RoundingContext(FE_DOWNWARD):
-                    sup = NEGINF if _min == 0.0 else math.log(_min)
-                with RoundingContext(FE_UPWARD):
-                    inf = NEGINF if _max == 0.0 else math.log(_max)                    
+                sup = NEGINF if _min == 0.0 else directed_log(_min, FE_DOWNWARD)
+                inf = NEGINF if _max == 0.0 else directed_log(_max, FE_UPWARD)
                 return type(self)(sup, inf)
         else:
             return type(self)(NAN, NAN)
-- 
2.43.0


From f92186fc381709dea4062ab998eee9a622667c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:25 +0000
Subject: [PATCH 09/67] fix: detect extrema of sin and cos at large arguments

---
 intvalpy/kernel/interval_arithmetics.pyx | 25 ++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index fb314ec..53ec6eb 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -60,6 +60,15 @@ cdef double round_up(double x) nogil:
     return nextafter(x, DBL_MAX)    
 
 
+cdef bint may_contain(double a, double b, double point):
+    """
+    Whether [a, b] may contain one of the numbers point + 2*PI*k.
+    The quotients are rounded, which for large a, b is more than the distance to such a number.
+    """
+    cdef double left = (a - point) / (2*PI), right = (b - point) / (2*PI)
+    return ceil(left - 1e-15 * fabs(left)) <= floor(right + 1e-15 * fabs(right))
+
+
 cdef double directed_log(double x, int mode):
     """
     The natural logarithm of a positive x, rounded in the given direction.
@@ -348,26 +357,26 @@ cdef class BaseTools:
 
         if self.a <= self.b:
             with RoundingContext(FE_DOWNWARD):
-                if ceil((x.a + PI/2) / (2*PI)) <= floor((x.b + PI/2) / (2*PI)):
+                if may_contain(x.a, x.b, -PI/2):
                     inf = -1
                 else:
                     inf = round_down(min(sin_inf, sin_sup))
 
             with RoundingContext(FE_UPWARD):
-                if ceil((x.a - PI/2) / (2*PI)) <= floor((x.b - PI/2) / (2*PI)):
+                if may_contain(x.a, x.b, PI/2):
                     sup = 1
                 else:
                     sup = round_up(max(sin_inf, sin_sup))
             return type(self)(inf, sup)
         else:
             with RoundingContext(FE_DOWNWARD):
-                if ceil((x.a - PI/2) / (2*PI)) <= floor((x.b - PI/2) / (2*PI)):
+                if may_contain(x.a, x.b, PI/2):
                     sup = 1
                 else:
                     sup = round_down(max(sin_inf, sin_sup))
 
             with RoundingContext(FE_UPWARD):
-                if ceil((x.a + PI/2) / (2*PI)) <= floor((x.b + PI/2) / (2*PI)):
+                if may_contain(x.a, x.b, -PI/2):
                     inf = -1
                 else:
                     inf = round_up(min(sin_inf, sin_sup))
@@ -381,26 +390,26 @@ cdef class BaseTools:
         
         if self.a <= self.b:
             with RoundingContext(FE_DOWNWARD):
-                if ceil((x.a - PI) / (2*PI)) <= floor((x.b - PI) / (2*PI)):
+                if may_contain(x.a, x.b, PI):
                     inf = -1
                 else:
                     inf = round_down(min(cos_inf, cos_sup))
 
             with RoundingContext(FE_UPWARD):
-                if ceil(x.a / (2*PI)) <= floor(x.b / (2*PI)):
+                if may_contain(x.a, x.b, 0.0):
                     sup = 1
                 else:
                     sup = round_up(max(cos_inf, cos_sup))
             return type(self)(inf, sup)
         else:
             with RoundingContext(FE_DOWNWARD):
-                if ceil(x.a / (2*PI)) <= floor(x.b / (2*PI)):
+                if may_contain(x.a, x.b, 0.0):
                     sup = 1
                 else:
                     sup = round_down(max(cos_inf, cos_sup))
 
             with RoundingContext(FE_UPWARD):
-                if ceil((x.a - PI) / (2*PI)) <= floor((x.b - PI) / (2*PI)):
+                if may_contain(x.a, x.b, PI):
                     inf = -1
                 else:
                     inf = round_up(min(cos_inf, cos_sup))
-- 
2.43.0


From 37b6da073f7f6ec050165639177d6cc379cdd23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:17 +0000
Subject: [PATCH 10/67] fix: characteristics of an array are not truncated to
 the type of its first element

---
 intvalpy/kernel/real_intervals.py | 28 ++++++++++++++++++----------
 intvalpy/kernel/utils.py          | 16 ++++++++--------
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index d00ecba..00f3823 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -9,6 +9,14 @@ import itertools
 from .interval_arithmetics import ARITHMETICS, ClassicalArithmetic, KaucherArithmetic
 
 
+def characteristic(func, data):
+    """
+    The numbers func(el) for every element of the object array. The type of the result
+    is chosen by all of them (np.vectorize would choose it by the first one alone).
+    """
+    return np.array([func(el) for el in data.flat]).reshape(data.shape)
+
+
 class ArrayInterval:
 
     def __init__(self, intervals):
@@ -26,19 +34,19 @@ class ArrayInterval:
 
     @property
     def a(self):
-        return np.vectorize(lambda el: el.a)(self._data)
+        return characteristic(lambda el: el.a, self._data)
 
     @property
     def b(self):
-        return np.vectorize(lambda el: el.b)(self._data)
+        return characteristic(lambda el: el.b, self._data)
 
     @property
     def inf(self):
-        return np.vectorize(lambda el: el.a)(self._data)
+        return characteristic(lambda el: el.a, self._data)
 
     @property
     def sup(self):
-        return np.vectorize(lambda el: el.b)(self._data)
+        return characteristic(lambda el: el.b, self._data)
 
     @property
     def data(self):
@@ -61,23 +69,23 @@ class ArrayInterval:
 
     @property
     def rad(self):
-        return np.vectorize(lambda el: el.rad)(self._data)
+        return characteristic(lambda el: el.rad, self._data)
 
     @property
     def mid(self):
-        return np.vectorize(lambda el: el.mid)(self._data)
+        return characteristic(lambda el: el.mid, self._data)
 
     @property
     def wid(self):
-        return np.vectorize(lambda el: el.wid)(self._data)
+        return characteristic(lambda el: el.wid, self._data)
 
     @property
     def mig(self):
-        return np.vectorize(lambda el: el.mig)(self._data)
+        return characteristic(lambda el: el.mig, self._data)
 
     @property
     def mag(self):
-        return np.vectorize(lambda el: el.mag)(self._data)
+        return characteristic(lambda el: el.mag, self._data)
 
     @property
     def dual(self):
@@ -97,7 +105,7 @@ class ArrayInterval:
 
     @property
     def khi(self):
-        return np.vectorize(lambda el: el.khi)(self._data)
+        return characteristic(lambda el: el.khi, self._data)
 
     @property
     def vertex(self):
diff --git a/intvalpy/kernel/utils.py b/intvalpy/kernel/utils.py
index 3f7a3e5..094a3f5 100644
--- a/intvalpy/kernel/utils.py
+++ b/intvalpy/kernel/utils.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from .real_intervals import Interval, ARITHMETICS, INTERVAL_CLASSES
+from .real_intervals import Interval, ARITHMETICS, INTERVAL_CLASSES, characteristic
 from .preprocessing import asinterval
 
 
@@ -96,7 +96,7 @@ def wid(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_wid)(x)
+        return characteristic(_wid, np.asarray(x))
     else:
         return _wid(x)
     
@@ -111,7 +111,7 @@ def mid(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_mid)(x)
+        return characteristic(_mid, np.asarray(x))
     else:
         return _mid(x)
     
@@ -126,7 +126,7 @@ def rad(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_rad)(x)
+        return characteristic(_rad, np.asarray(x))
     else:
         return _rad(x)
     
@@ -141,7 +141,7 @@ def inf(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_inf)(x)
+        return characteristic(_inf, np.asarray(x))
     else:
         return _inf(x)
     
@@ -156,7 +156,7 @@ def sup(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_sup)(x)
+        return characteristic(_sup, np.asarray(x))
     else:
         return _sup(x)
     
@@ -171,7 +171,7 @@ def mag(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_mag)(x)
+        return characteristic(_mag, np.asarray(x))
     else:
         return _mag(x)
 
@@ -186,7 +186,7 @@ def khi(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_khi)(x)
+        return characteristic(_khi, np.asarray(x))
     else:
         return _khi(x)
 
-- 
2.43.0


From 72a185350ab18a21877eeb84b02e763ea006a7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:51 +0000
Subject: [PATCH 11/67] fix: the width of a number is zero

---
 intvalpy/kernel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/utils.py b/intvalpy/kernel/utils.py
index 094a3f5..9e1c9eb 100644
--- a/intvalpy/kernel/utils.py
+++ b/intvalpy/kernel/utils.py
@@ -91,7 +91,7 @@ def wid(x):
         if isinstance(x, ARITHMETICS):
             return x.wid
         else:
-            return float(x)
+            return 0.0
     
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
-- 
2.43.0


From b50f6f62fe124a2f86d0c2f550b13e0c8ce64eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 12/67] fix: supercontain answers for every element, as contain
 does

---
 intvalpy/kernel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/utils.py b/intvalpy/kernel/utils.py
index 9e1c9eb..103e5a4 100644
--- a/intvalpy/kernel/utils.py
+++ b/intvalpy/kernel/utils.py
@@ -198,4 +198,4 @@ proper_subset = lambda a, b: np.array(((a.a > b.a) & (a.b < b.b)), dtype=np.bool
 proper_superset = lambda a, b: proper_subset(b, a)
 
 contain = lambda a, b: np.array(((a.a >= b.a) & (a.b <= b.b)), dtype=np.bool)
-supercontain = lambda a, b: subset(b, a)
+supercontain = lambda a, b: contain(b, a)
-- 
2.43.0


From 1ab71a8cc039808f772f36fbe14dc3c6af7ebe2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:37 +0000
Subject: [PATCH 13/67] fix: the middle of an interval with huge ends is finite

---
 intvalpy/kernel/interval_arithmetics.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 53ec6eb..7aa7cfd 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -197,7 +197,11 @@ cdef class BaseTools:
     @property
     def mid(self):
         """Midpoint of the non-empty interval."""
-        return 0.5 * (self.b + self.a)
+        cdef double_t middle = 0.5 * (self.b + self.a)
+        if middle in (INF, NEGINF):
+            # the sum of the ends overflows
+            middle = 0.5 * self.a + 0.5 * self.b
+        return middle
     
     @property
     def mig(self):
-- 
2.43.0


From 742c0a8649077c65201103ed2fe1bf1bfa48bc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:52 +0000
Subject: [PATCH 14/67] fix: intersection converts operands to intervals, as
 documented

---
 intvalpy/kernel/preprocessing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/intvalpy/kernel/preprocessing.py b/intvalpy/kernel/preprocessing.py
index 6e977b1..ab4d7bf 100644
--- a/intvalpy/kernel/preprocessing.py
+++ b/intvalpy/kernel/preprocessing.py
@@ -132,6 +132,7 @@ def intersection(x, y):
         else:
             return Interval(nan, nan)
 
+    x, y = asinterval(x), asinterval(y)
     if isinstance(x, ArrayInterval) and isinstance(y, ArrayInterval):
         assert x.shape == y.shape, 'Не совпадают размерности входных массивов!'
         return ArrayInterval(np.vectorize(intersect)(x.data, y.data))
-- 
2.43.0


From 2a769c2f0181f157b22c323475767100f1591517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:07 +0000
Subject: [PATCH 15/67] fix: Interval(number) is the degenerate interval, as
 documented

---
 intvalpy/kernel/real_intervals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 00f3823..d392e5b 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -469,11 +469,11 @@ def Interval(*args, sortQ=True, midRadQ=False):
     else:
         if isinstance(args[0], INTERVAL_CLASSES):
             return args[0]
+        elif isinstance(args[0], single_type):
+            return SingleInterval(args[0], args[0], sortQ=sortQ, midRadQ=midRadQ)
         elif len(args[0]) == 2:
             if isinstance(args[0][0], single_type) and isinstance(args[0][1], single_type):
                 return SingleInterval(args[0][0], args[0][1], sortQ=sortQ, midRadQ=midRadQ)
-        elif isinstance(args[0], single_type):
-            return SingleInterval(args[0], args[0], sortQ=sortQ, midRadQ=midRadQ)
         data = np.array(args[0])
 
     return ArrayInterval(np.vectorize(lambda l, r: SingleInterval(l, r, sortQ=sortQ, midRadQ=midRadQ))(data[..., 0], data[..., 1]))
-- 
2.43.0


From 77e77b70b87f300e3c40520da1a573e82d21cbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:22 +0000
Subject: [PATCH 16/67] fix: reversed() of an interval array

---
 intvalpy/kernel/real_intervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index d392e5b..93f2763 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -154,7 +154,7 @@ class ArrayInterval:
         return ArrayInterval(-self._data)
 
     def __reversed__(self):
-        return iter(self.storage[::-1])
+        return iter(self._data[::-1])
 
     def __abs__(self):
         """Range of absolute value."""
-- 
2.43.0


From af54d7c1c3d3c6dfde237ca7599bcb73ed2dd9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:02 +0000
Subject: [PATCH 17/67] fix: midpoint-radius intervals are rounded outward

---
 intvalpy/kernel/real_intervals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 93f2763..26d4266 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -386,7 +386,8 @@ def SingleInterval(left, right, sortQ=True, midRadQ=False):
 
     if midRadQ:
         assert right >= 0, "The radius of the interval cannot be negative."
-        left, right = left - right, left + right
+        middle, radius = ClassicalArithmetic(left, left), ClassicalArithmetic(right, right)
+        left, right = (middle - radius).a, (middle + radius).b
 
     ##############################
     # if left == right:
-- 
2.43.0


From d4655cb1fec0bb94a5f6b9388b0f7209f3dd2c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:12 +0000
Subject: [PATCH 18/67] fix: item deletion and the shape of arrays after
 in-place operations

---
 intvalpy/kernel/real_intervals.py | 37 +++++++++++++------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 26d4266..812f2d8 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -22,10 +22,6 @@ class ArrayInterval:
     def __init__(self, intervals):
         self._data = np.array(intervals, dtype=object)
 
-        self._shape = self._data.shape
-        self._ndim = self._data.ndim
-        self._ranges = [range(0, self._shape[k]) for k in range(self._ndim)]
-
     def __repr__(self):
         return 'Interval' + self._data.__repr__()[5:-15] + ')'
 
@@ -54,15 +50,15 @@ class ArrayInterval:
 
     @property
     def shape(self):
-        return self._shape
+        return self._data.shape
 
     @property
     def ndim(self):
-        return self._ndim
+        return self._data.ndim
 
     @property
     def ranges(self):
-        return self._ranges
+        return [range(0, n) for n in self.shape]
 
     def to_float(self):
         return ArrayInterval(np.vectorize(lambda el: el.to_float())(self._data))
@@ -110,8 +106,8 @@ class ArrayInterval:
     @property
     def vertex(self):
         inf, sup = self.a, self.b
-        if self._ndim == 1:
-            n = self._shape[0]
+        if self.ndim == 1:
+            n = self.shape[0]
             result = np.zeros((2**n, n))
             k = 0
             for ends in itertools.product([0, 1], repeat=n):
@@ -120,8 +116,8 @@ class ArrayInterval:
                 result[k][ends == 1] = sup[ends == 1]
                 k += 1
 
-        elif self._ndim == 2:
-            n, m = self._shape
+        elif self.ndim == 2:
+            n, m = self.shape
             result = np.zeros((2**(n*m), n, m))
             k = 0
             for ends in itertools.product(itertools.product([0, 1], repeat=m), repeat=n):
@@ -162,12 +158,12 @@ class ArrayInterval:
 
     def __contains__(self, other):
         if isinstance(other, single_type) or isinstance(other, (ClassicalArithmetic, KaucherArithmetic)):
-            for index in itertools.product(*self._ranges):
+            for index in itertools.product(*self.ranges):
                 contain = other in self._data[index]
                 if contain:
                     return contain
         else:
-            for index in itertools.product(*self._ranges):
+            for index in itertools.product(*self.ranges):
                 contain = other[index] in self._data[index]
                 if contain:
                     return contain
@@ -237,16 +233,13 @@ class ArrayInterval:
                 self._data[key] = ArrayInterval(np.vectorize(lambda v: SingleInterval(v, v))(value))._data
 
     def __delitem__(self, key):
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer, slice, list, np.ndarray)):
             self._data = np.delete(self._data, key, axis=0)
-            self._shape = self._data.shape
-            self._ndim = self._data.ndim
-            self._ranges = [range(0, self._shape[k]) for k in range(self._ndim)]
-        elif isinstance(key, (slice, tuple, list, np.ndarray)):
-            self._data = np.delete(self._data, key[-1], axis=len(key)-1)
-            self._shape = self._data.shape
-            self._ndim = self._data.ndim
-            self._ranges = [range(0, self._shape[k]) for k in range(self._ndim)]
+        elif isinstance(key, tuple):
+            axes = [k for k in range(len(key)) if not (isinstance(key[k], slice) and key[k] == slice(None))]
+            if len(axes) != 1:
+                raise IndexError('Only whole rows, columns, etc. can be deleted.')
+            self._data = np.delete(self._data, key[axes[0]], axis=axes[0])
         else:
             msg = 'Indices must be integers / slice / tuple / list / np.ndarray'
             raise TypeError(msg)
-- 
2.43.0


From 1fc463a59efb33599bab4734d4a6b492aa2b2f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:05 +0000
Subject: [PATCH 19/67] fix: comparisons with numpy numbers and arrays;
 explicit ufunc calls keep the order of operands

---
 intvalpy/kernel/interval_arithmetics.pyx | 15 +++++++++++++
 intvalpy/kernel/real_intervals.py        | 27 ++++++++----------------
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 7aa7cfd..dfc45d9 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -3,6 +3,7 @@
 
 import numpy as np
 import math
+import operator
 from libc.math cimport fabs, exp, log, sin, cos, ceil, floor, INFINITY, NAN
 from numbers import Number
 cimport cython
@@ -25,6 +26,12 @@ cdef double NEGINF = float('-inf')
 # endpoints are stored as int only if their products are exact in double
 MAX_INT = 2 ** 26
 ARITHMETICS = (ClassicalArithmetic, KaucherArithmetic)
+# numpy comparisons: the operator and the one for swapped operands
+COMPARISONS = {
+    'less': (operator.lt, operator.gt), 'less_equal': (operator.le, operator.ge),
+    'greater': (operator.gt, operator.lt), 'greater_equal': (operator.ge, operator.le),
+    'equal': (operator.eq, operator.eq), 'not_equal': (operator.ne, operator.ne),
+}
 
 
 #######################################################################################
@@ -444,6 +451,14 @@ cdef class BaseTools:
         elif args[0].__name__ in ['true_divide', 'divide']:
             return self.__rtruediv__(args[2])
 
+        elif args[0].__name__ in COMPARISONS:
+            # which operand the interval is decides the direction
+            direct, reflected = COMPARISONS[args[0].__name__]
+            if args[2] is self:
+                return np.vectorize(lambda other: direct(self, other), otypes=[bool])(args[3])[()]
+            else:
+                return np.vectorize(lambda other: reflected(self, other), otypes=[bool])(args[2])[()]
+
         elif args[0].__name__ in ['sqrt']: 
             return self.sqrt()
 
diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 812f2d8..6ae4168 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -6,7 +6,7 @@ from numbers import Number
 
 import itertools
 
-from .interval_arithmetics import ARITHMETICS, ClassicalArithmetic, KaucherArithmetic
+from .interval_arithmetics import ARITHMETICS, COMPARISONS, ClassicalArithmetic, KaucherArithmetic
 
 
 def characteristic(func, data):
@@ -322,24 +322,15 @@ class ArrayInterval:
         return self
 
     def __array_ufunc__(self, *args):
-        if args[0].__name__ in ['add']:
-            return ArrayInterval(self._data + args[2])
-
-        elif args[0].__name__ in ['subtract']:
-            return ArrayInterval(args[2] - self._data)
-
-        elif args[0].__name__ in ['multiply']:
-            return ArrayInterval(args[2] * self._data)
-
-        elif args[0].__name__ in ['true_divide', 'divide']:
-            return ArrayInterval(args[2] / self._data)
-
-        elif args[0].__name__ in ['matmul']:
-            matmul = args[2] @ self._data
-            if isinstance(matmul, INTERVAL_CLASSES):
-                return matmul
+        name = args[0].__name__
+        if name in ['add', 'subtract', 'multiply', 'true_divide', 'divide', 'matmul'] or name in COMPARISONS:
+            # the operands keep their order
+            operands = [arg._data if isinstance(arg, ArrayInterval) else arg for arg in args[2:]]
+            result = args[0](*operands)
+            if name in COMPARISONS or isinstance(result, INTERVAL_CLASSES):
+                return result
             else:
-                return ArrayInterval(matmul)
+                return ArrayInterval(result)
 
         elif args[0].__name__ in ['sqrt']:
             return ArrayInterval(np.vectorize(np.sqrt)(self._data))
-- 
2.43.0


From c0bef3b02bb50c544e4897460277cfa7ff766635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 20/67] fix: compare an interval with an array on its right

---
 intvalpy/kernel/interval_arithmetics.pyx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index dfc45d9..ac6cfff 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -286,6 +286,8 @@ cdef class BaseTools:
             return (self.a < other) and (self.b < other)
         elif isinstance(other, ARITHMETICS):
             return (self.a < other.a) and (self.b < other.b)
+        elif hasattr(other, '__array_ufunc__'):
+            return NotImplemented
         else:
             raise TypeError('Not supported type.')
     
@@ -294,6 +296,8 @@ cdef class BaseTools:
             return (self.a <= other) and (self.b <= other)
         elif isinstance(other, ARITHMETICS):
             return (self.a <= other.a) and (self.b <= other.b)
+        elif hasattr(other, '__array_ufunc__'):
+            return NotImplemented
         else:
             raise TypeError('Not supported type.')
     
@@ -302,6 +306,8 @@ cdef class BaseTools:
             return (self.a == other) and (self.b == other)
         elif isinstance(other, ARITHMETICS):
             return (self.a == other.a) and (self.b == other.b)
+        elif hasattr(other, '__array_ufunc__'):
+            return NotImplemented
         else:
             raise TypeError('Not supported type.')
     
@@ -310,6 +316,8 @@ cdef class BaseTools:
             return (self.a != other) or (self.b != other)
         elif isinstance(other, ARITHMETICS):
             return (self.a != other.a) or (self.b != other.b)
+        elif hasattr(other, '__array_ufunc__'):
+            return NotImplemented
         else:
             raise TypeError('Not supported type.')
     
@@ -318,6 +326,8 @@ cdef class BaseTools:
             return (self.a > other) and (self.b > other)
         elif isinstance(other, ARITHMETICS):
             return (self.a > other.a) and (self.b > other.b)
+        elif hasattr(other, '__array_ufunc__'):
+            return NotImplemented
         else:
             raise TypeError('Not supported type.')
     
@@ -326,6 +336,8 @@ cdef class BaseTools:
             return (self.a >= other) and (self.b >= other)
         elif isinstance(other, ARITHMETICS):
             return (self.a >= other.a) and (self.b >= other.b)
+        elif hasattr(other, '__array_ufunc__'):
+            return NotImplemented
         else:
             raise TypeError('Not supported type.')
     
-- 
2.43.0


From 4336db9ca0f5c63cdc5ee1a368ee8e4de31dc883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:01 +0000
Subject: [PATCH 21/67] fix: conversion of interval arrays follows the protocol
 of numpy

---
 intvalpy/kernel/real_intervals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 6ae4168..d943b48 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -136,8 +136,8 @@ class ArrayInterval:
     def __deepcopy__(self, memo):
         return ArrayInterval(np.copy(self._data))
 
-    def __array__(self):
-        return self._data
+    def __array__(self, dtype=None, copy=None):
+        return np.array(self._data, dtype=dtype, copy=copy)
 
     @property
     def T(self):
-- 
2.43.0


From 51facde065777477061e1542dbb8b1ef5fdb18e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:36 +0000
Subject: [PATCH 22/67] fix: to_float of an interval array (Krawczyk and
 HansenSengupta need it for systems)

---
 intvalpy/kernel/real_intervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index d943b48..8ae1382 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -61,7 +61,7 @@ class ArrayInterval:
         return [range(0, n) for n in self.shape]
 
     def to_float(self):
-        return ArrayInterval(np.vectorize(lambda el: el.to_float())(self._data))
+        return ArrayInterval(np.vectorize(lambda el: type(el)(float(el.a), float(el.b)))(self._data))
 
     @property
     def rad(self):
-- 
2.43.0


From df06e26261cf43750742c3d71253f4cccfba0157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:22 +0000
Subject: [PATCH 23/67] fix: a linear constraint without finite limits, or
 given by lists, is accepted

---
 intvalpy/kernel/abstract.py | 56 +++++++++++++++----------------------
 1 file changed, 22 insertions(+), 34 deletions(-)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index e95c309..fbd61ed 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -208,41 +208,29 @@ class LinearConstraint:
         # идёт преобразование C x <= b
         # надо удалить все строки, где значение inf, а также, где нет зависимости от x
 
+        C = np.array(C, dtype=np.float64)
         assert C.shape[0] >= 1, 'Inconsistent dimension of matrix'
-        if (not lb is None) or (not ub is None):
-            self.C, self.b = [], []
-            if (not lb is None):
-                assert C.shape[0] == len(lb), 'Inconsistent dimensions of matrix and left-hand side vector'
-                for k in range(C.shape[0]):
-                    if abs(lb[k]) != np.inf and C[k].any():
-                        self.C.append(-C[k])
-                        self.b.append(-lb[k])
-
-            if (not ub is None):
-                assert C.shape[0] == len(ub), 'Inconsistent dimensions of matrix and left-hand side vector'
-                for k in range(C.shape[0]):
-                    if abs(ub[k]) != np.inf and C[k].any():
-                        self.C.append(C[k])
-                        self.b.append(ub[k])
-
-            n = len(self.C)
-            if n == 0:
-                self.C.append(C[0])
-                self.b.append(ub[0])
-            else:
-                w = np.random.uniform(1, 1, n) # TODO
-                # TODO
-                # переписать более оптимальным способом
-                W = np.zeros( (n, C.shape[1]), dtype=np.float64)
-                for k in range(W.shape[1]):
-                    W[:, k] = w
-
-            self.C, self.b = np.array(self.C)*W, np.array(self.b)*w
-
-
-        else:
-            self.C, self.b = C[0], np.array([np.inf])
-
+        self.C, self.b = [], []
+        if (not lb is None):
+            assert C.shape[0] == len(lb), 'Inconsistent dimensions of matrix and left-hand side vector'
+            for k in range(C.shape[0]):
+                if abs(lb[k]) != np.inf and C[k].any():
+                    self.C.append(-C[k])
+                    self.b.append(-lb[k])
+
+        if (not ub is None):
+            assert C.shape[0] == len(ub), 'Inconsistent dimensions of matrix and left-hand side vector'
+            for k in range(C.shape[0]):
+                if abs(ub[k]) != np.inf and C[k].any():
+                    self.C.append(C[k])
+                    self.b.append(ub[k])
+
+        # without a single finite limit there is nothing to keep to
+        if len(self.C) == 0:
+            self.C.append(C[0])
+            self.b.append(np.inf)
+
+        self.C, self.b = np.array(self.C, dtype=np.float64), np.array(self.b, dtype=np.float64)
         self.mu = mu
 
     def largeCondQ(self, x, i):
-- 
2.43.0


From ca12f184e87361870c5ff339d9ee30fb3e6d8c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:32 +0000
Subject: [PATCH 24/67] fix: the penalty for linear constraints is finite and
 exact (two-sided limits, weights)

---
 intvalpy/kernel/abstract.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index fbd61ed..5328178 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -52,7 +52,7 @@ class BaseRecFun(object):
         else:
             if linear_constraint.mu is None:
                 mag_value = mag(A)
-                linear_constraint.mu = linear_constraint.find_mu(np.max(mag_value))
+                linear_constraint.mu = linear_constraint.find_mu(np.max(weight) * np.max(np.linalg.norm(mag_value, axis=1)))
 
             calcfg = lambda x: recfunc.calcfg_constr(x, infA, supA, Am, Ar, bm, br, weight, linear_constraint)
 
@@ -238,20 +238,16 @@ class LinearConstraint:
         return Cix, Cix > self.b[i]
 
     def find_mu(self, numerator):
-        # solve |sum(C[:, k] * x)| -> min, for x
-        # sum(x) >= 1, x_i \in {0, 1} \forall i = 1,..., len(C)
+        # The penalty is exact if mu is greater than every Lagrange multiplier. The multipliers are
+        # the coefficients of an expansion of a (sub)gradient of the functional, whose length is not
+        # greater than numerator, in linearly independent rows of C.
+        n, m = self.C.shape
         denominator = []
-        for c in self.C.T:
-            c = c[ c!=0 ]
-            n = c.shape[0]
-            if n == 0: continue
-
-            dot = np.zeros(2**n)
-            k = 0
-            for x in itertools.product([0, 1], repeat=n):
-                dot[k] = c @ x
-                k += 1
-            denominator.append(min(abs(dot[1:])))
-
-        self.mu = numerator / min(denominator)
-        return self.mu
\ No newline at end of file
+        for k in range(1, min(n, m) + 1):
+            for rows in itertools.combinations(range(n), k):
+                sv = np.linalg.svd(self.C[list(rows)], compute_uv=False)
+                if sv[-1] > 1e-10 * sv[0]:
+                    denominator.append(sv[-1])
+
+        self.mu = 2 * numerator / min(denominator, default=1) if numerator > 0 else 1.0
+        return self.mu
-- 
2.43.0


From 6245c0574bf79c3f6329eaf4b9897715656d5fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:42 +0000
Subject: [PATCH 25/67] fix: a linear constraint can be used for several
 systems

---
 intvalpy/kernel/abstract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index 5328178..af98437 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -1,5 +1,6 @@
 import numpy as np
 import itertools
+from copy import copy
 
 from .ralgb5 import ralgb5
 from .utils import rad, mid, inf, sup, mag
@@ -51,6 +52,8 @@ class BaseRecFun(object):
             calcfg = lambda x: recfunc.calcfg(x, infA, supA, Am, Ar, bm, br, weight)
         else:
             if linear_constraint.mu is None:
+                # mu depends on the system: the user's object, which may serve other systems, is left as it is
+                linear_constraint = copy(linear_constraint)
                 mag_value = mag(A)
                 linear_constraint.mu = linear_constraint.find_mu(np.max(weight) * np.max(np.linalg.norm(mag_value, axis=1)))
 
-- 
2.43.0


From 495c65eff890c591548580be536af89beff750fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:51 +0000
Subject: [PATCH 26/67] fix: maximize accepts a number as weight, as documented

---
 intvalpy/kernel/abstract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index af98437..269161c 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -45,6 +45,8 @@ class BaseRecFun(object):
 
         if weight is None:
             weight = np.ones(n)
+        else:
+            weight = weight * np.ones(n)
 
         # для штрафной функции alpha = sum G x - c, где G-матрица ограничений, c-вектор ограничений
         # находим значение весового коэффициента mu, чтобы гарантировано не выходить за пределы ограничений
-- 
2.43.0


From 30dd35e5855988ae79b1aa2cc81976e7382356fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:55 +0000
Subject: [PATCH 27/67] fix: ralgb5 stops when maxiter iterations are done

---
 intvalpy/kernel/ralgb5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/ralgb5.py b/intvalpy/kernel/ralgb5.py
index bf3d8b1..8574179 100644
--- a/intvalpy/kernel/ralgb5.py
+++ b/intvalpy/kernel/ralgb5.py
@@ -112,7 +112,7 @@ def ralgb5(calcfg, x0, tolx=1e-12, tolg=1e-12, tolf=1e-12, maxiter=2000, alpha=2
         return xr, fr, nit, ncalls, ccode
 
     # Main optimization loop
-    while nit <= maxiter:
+    while nit < maxiter:
         vf[nsims-1] = fr # Store the current function value
 
         # Compute the direction of movement in the transformed space
-- 
2.43.0


From 153fc5ed7aee35558648c3f488f9c79c9e3a4373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:43 +0000
Subject: [PATCH 28/67] fix: Gauss subtracts the outer product of the pivot
 column and row

---
 intvalpy/linear/Gauss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/Gauss.py b/intvalpy/linear/Gauss.py
index 55f2513..0987776 100644
--- a/intvalpy/linear/Gauss.py
+++ b/intvalpy/linear/Gauss.py
@@ -43,7 +43,7 @@ def Gauss(A, b):
 
         # transformations of the forward step of the Gauss method
         r[j+1:, j] = A[j+1:, j]/A[j, j]
-        A[j+1:, j+1:] = A[j+1:, j+1:] - r[j+1:, j] * A[j, j+1:]
+        A[j+1:, j+1:] = A[j+1:, j+1:] - r[j+1:, j].reshape((n-j-1, 1)) * A[j, j+1:]
         b[j+1:] = b[j+1:] - r[j+1:, j] * b[j]
 
     # backward step of the Gauss method
-- 
2.43.0


From 9fbc4687202b4ddfe4b771085bef76c4e751082e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:54 +0000
Subject: [PATCH 29/67] fix: HBR requires an H-matrix and corrects every
 element of the inverse

---
 intvalpy/linear/HBR.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/HBR.py b/intvalpy/linear/HBR.py
index dda456d..be63d09 100644
--- a/intvalpy/linear/HBR.py
+++ b/intvalpy/linear/HBR.py
@@ -39,14 +39,14 @@ def HBR(A, b):
     B = np.linalg.inv(np.array(A, dtype=np.float64))
     v = abs(B @ np.ones(n))
     u = A @ v
-    assert (u > 0).any(), 'Matrix of the system not an H-matrix'
+    assert (u > 0).all(), 'Matrix of the system not an H-matrix'
 
     # проводим процедуру Хансена-Блика-Рона
     dAc = np.diag(A)
     A = A @ B - np.eye(n)
     w = np.max(-A / np.outer(u, np.ones(n)), axis=0)
     dlow = -(v*w - np.diag(B))
-    B = B + v @ w
+    B = B + np.outer(v, w)
     u = B @ b.mag
     d = np.diag(B)
     alpha = dAc + (-1)/d
-- 
2.43.0


From d4ef0c5fa6e13f402cdd6bb363f5281fb7f563ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:11 +0000
Subject: [PATCH 30/67] fix: Rohn does not return a box when its iterations
 have not converged

---
 intvalpy/linear/Rohn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/intvalpy/linear/Rohn.py b/intvalpy/linear/Rohn.py
index ed1ed38..eb489d9 100644
--- a/intvalpy/linear/Rohn.py
+++ b/intvalpy/linear/Rohn.py
@@ -86,6 +86,10 @@ def _Rohn_Uni(A, b, tol=1e-12, maxiter=2000):
         result = G @ d + g + tol
         error = np.amax(abs(result-d))
         nit += 1
+
+    # until the iterations have converged, result does not bound the solution set
+    if not error < max(tol, 1e-12 * np.amax(result)):
+        raise Exception('Итерационный процесс не сошёлся.')
     return Interval(x0-result, x0+result)
 
 
-- 
2.43.0


From e1ea76bf8b627fae948be5d615afd32b4d607cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:22 +0000
Subject: [PATCH 31/67] fix: PPS for point matrices and without iterations

---
 intvalpy/linear/PPS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/intvalpy/linear/PPS.py b/intvalpy/linear/PPS.py
index a4042c5..adf56be 100644
--- a/intvalpy/linear/PPS.py
+++ b/intvalpy/linear/PPS.py
@@ -192,6 +192,7 @@ def PPS(A, b, tol=1e-12, maxiter=2000, nu=None):
         Lk = []
         cstL = float('inf')
         nit = 0
+        ocenka = L[0].gamma
         exactQ = True if (L[0].Q.rad == 0).all() else False
         while (not exactQ) and abs(omega - L[0].gamma) > tol and nit <= maxiter:
 
-- 
2.43.0


From 9444ed0593d51bd9fd59585a5afa74097264c79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:30 +0000
Subject: [PATCH 32/67] fix: PSS when no bar is left better than the record

---
 intvalpy/linear/PSS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 166ef6b..97c5c85 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -302,13 +302,13 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
                     Q, q, Ar = L[item]
                     break
                 except IndexError:
-                    return L[0][1]
+                    return L[0][1] if L else omega
                 except:
                     item += 1
 
             nit += 1
 
-        return L[0][1]
+        return L[0][1] if L else omega
 
     inf = []
     sup = []
-- 
2.43.0


From a42202794bc79619e98fd999d7a568d63b483bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:38 +0000
Subject: [PATCH 33/67] fix: PSS divides by the zero interval

---
 intvalpy/linear/PSS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 97c5c85..a797aa1 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -84,6 +84,8 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
 
         if 0 in a:
             return Interval(-infinity, infinity, sortQ=False)
+        elif b.a == 0 and b.b == 0:
+            return Interval(np.nan, np.nan, sortQ=False)
         elif a.b<0:
             return kdiv_result[num_func](a, b)
         elif 0<a.a:
-- 
2.43.0


From 93872e47badda6c1e8697542572ba46b844e1132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:47 +0000
Subject: [PATCH 34/67] fix: PSS for one unknown

---
 intvalpy/linear/PSS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index a797aa1..cc2af8e 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -225,6 +225,9 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
             else:
                  num_func[index] = 2
 
+        if m == 1:
+            return Omega(WorkListb, _nu, Anu, index_classic_div, index_kahan_div, num_func)
+
         L = [(Q, q)]
         Ar = WorkListA @ Q
 
-- 
2.43.0


From 8761a55255a8c54960f0af55dc6f9360fb67faea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 35/67] fix: PSS searches the upper bounds in the mirrored
 initial box

---
 intvalpy/linear/PSS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index cc2af8e..5e8daca 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -134,7 +134,7 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
 
     def StartBar(A, b):
         if not (x0 is None):
-            return x0.copy()
+            return endint * x0
 
         if n > m:
             try:
-- 
2.43.0


From 631c305c37cd45126ff670ff047510a8d5cf3cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 36/67] fix: Gauss_Seidel accepts H-matrices with a negative
 diagonal

---
 intvalpy/linear/Gauss_Seidel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/intvalpy/linear/Gauss_Seidel.py b/intvalpy/linear/Gauss_Seidel.py
index d246033..beab5e4 100644
--- a/intvalpy/linear/Gauss_Seidel.py
+++ b/intvalpy/linear/Gauss_Seidel.py
@@ -48,9 +48,9 @@ def Gauss_Seidel(A, b, x0=None, C=None, tol=1e-12, maxiter=2000):
     b = C @ b
 
     # проверим, что A является H-матрицей
-    B = np.linalg.inv(np.array(compmat(A), dtype=np.float64))
-    v = abs(B @ np.ones(n))
-    u = A @ v
+    M = np.array(compmat(A), dtype=np.float64)
+    v = abs(np.linalg.inv(M) @ np.ones(n))
+    u = M @ v
     assert (u > 0).any(), 'Matrix of the system not an H-matrix'
 
 
-- 
2.43.0


From 2547670eb45e359386409906b0ca28e757f8bef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 37/67] fix: Rohn refuses systems on which its iterations
 cannot converge

---
 intvalpy/linear/Rohn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/Rohn.py b/intvalpy/linear/Rohn.py
index eb489d9..1cc9f47 100644
--- a/intvalpy/linear/Rohn.py
+++ b/intvalpy/linear/Rohn.py
@@ -88,7 +88,7 @@ def _Rohn_Uni(A, b, tol=1e-12, maxiter=2000):
         nit += 1
 
     # until the iterations have converged, result does not bound the solution set
-    if not error < max(tol, 1e-12 * np.amax(result)):
+    if not error < max(tol, 1e-12 * np.amax(result)) or np.amax(abs(np.linalg.eigvals(G))) >= 1:
         raise Exception('Итерационный процесс не сошёлся.')
     return Interval(x0-result, x0+result)
 
-- 
2.43.0


From 8070d6c6246fd9e146b3dee2a4b08fda88f4b2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 38/67] fix: PPS draws no sign from derivatives that are zero

---
 intvalpy/linear/PPS.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/intvalpy/linear/PPS.py b/intvalpy/linear/PPS.py
index adf56be..6a3cd4f 100644
--- a/intvalpy/linear/PPS.py
+++ b/intvalpy/linear/PPS.py
@@ -201,12 +201,21 @@ def PPS(A, b, tol=1e-12, maxiter=2000, nu=None):
             dQ = asinterval( -np.outer(L[0].Y[nu], L[0].x) )
 
             index_upper_zero, index_lower_zero = dQ >= 0, dQ <= 0
+            # where the derivative is zero any endpoint will do and the sign remains unknown
+            zero = index_upper_zero & index_lower_zero
+            if zero.any():
+                L[0].Q[zero] = L[0].Q[zero].a
+                index_upper_zero, index_lower_zero = index_upper_zero & ~zero, index_lower_zero & ~zero
             if index_upper_zero.any():
                 L[0].Q[index_upper_zero], L[0].W[index_upper_zero] = L[0].Q[index_upper_zero].a, 1
             if index_lower_zero.any():
                 L[0].Q[index_lower_zero], L[0].W[index_lower_zero] = L[0].Q[index_lower_zero].b, -1
 
             index_upper_zero, index_lower_zero = L[0].Y[nu] >= 0, L[0].Y[nu] <= 0
+            zero = index_upper_zero & index_lower_zero
+            if zero.any():
+                L[0].r[zero] = L[0].r[zero].a
+                index_upper_zero, index_lower_zero = index_upper_zero & ~zero, index_lower_zero & ~zero
             if index_upper_zero.any():
                 L[0].r[index_upper_zero], L[0].s[index_upper_zero] = L[0].r[index_upper_zero].a, -1
             if index_lower_zero.any():
-- 
2.43.0


From 798a5579894e12f5cb55dc78b04280dd0fa90401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 39/67] fix: Neumaier's box is the same number of weights in
 every direction around the center

---
 intvalpy/linear/Neumaier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/intvalpy/linear/Neumaier.py b/intvalpy/linear/Neumaier.py
index fd7813f..95c5ac7 100644
--- a/intvalpy/linear/Neumaier.py
+++ b/intvalpy/linear/Neumaier.py
@@ -39,5 +39,7 @@ def Neumaier(A, b, y, w = None):
     else:
         A_w = A
         estimation_box = np.ones_like(y)
-    r = (b.rad - (b.mid - A_w @ y).mag) / np.sum(A_w.mag, axis=1)
+    r = np.min((b.rad - (b.mid - A @ y).mag) / np.sum(A_w.mag, axis=1))
+    if r < 0:
+        raise Exception("The center does not belong to the tolerable solution set.")
     return y + estimation_box * r * Interval(-1, 1)
\ No newline at end of file
-- 
2.43.0


From faf175d52fe409ada307236b0d6ec95a9b1043d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 40/67] fix: sign of the subgradient for a product of two
 improper intervals with zero

---
 intvalpy/linear/Subdiff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/Subdiff.py b/intvalpy/linear/Subdiff.py
index ab501fa..4a0a2c5 100644
--- a/intvalpy/linear/Subdiff.py
+++ b/intvalpy/linear/Subdiff.py
@@ -113,7 +113,7 @@ def Subdiff(A, b, tol=1e-12, maxiter=500, tau=1, norm_min_val=1e-12):
             if a.a*b.a > a.b*b.b:
                 F[i, j] = a.a
             else:
-                F[i, j + n] = -a.b
+                F[i, j + n] = a.b
 
             if a.a*b.b < a.b*b.a:
                 F[i + n, j + n] = a.a
-- 
2.43.0


From e42959ce7c7231caac35a8b581aa22723940c621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 41/67] fix: repeated and parallel rows of planar systems are
 recognized up to rounding

---
 intvalpy/linear/boundary_intervals.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 51cb2e2..680f377 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -24,6 +24,11 @@ def BoundaryIntervals(A, b):
             Akx = np.dot(A[k], dotx)
             c = np.dot(A[k], p)
 
+            # parallel lines are recognized up to rounding errors
+            if abs(c) <= 1e-14 * np.sqrt(np.dot(A[i], A[i]) * np.dot(A[k], A[k])):
+                c = 0
+            eps = 1e-12 * max(1, abs(b[k]), abs(Akx))
+
             if np.sign(c) == -1:
                 tmp = (b[k] - Akx) / c
                 q[1] = q[1] if q[1] <= tmp else tmp
@@ -31,12 +36,17 @@ def BoundaryIntervals(A, b):
                 tmp = (b[k] - Akx) / c
                 q[0] = q[0] if tmp < q[0] else tmp
             else:
-                if Akx < b[k]:
-                    if np.dot(A[k], A[i]) > 0:
+                codirected = np.dot(A[k], A[i]) > 0
+                if Akx < b[k] - eps:
+                    if codirected:
                         si = False
                         break
                     else:
                         return []
+                elif codirected and abs(Akx - b[k]) <= eps and k < i:
+                    # the same line again
+                    si = False
+                    break
 
         if q[0] > q[1]:
             si = False
-- 
2.43.0


From 1bf6890bf1808eb3907c79b3e6813d18ad0d1d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:50 +0000
Subject: [PATCH 42/67] fix: lineqs returns no vertices for contradictory zero
 rows and for a set outside the bounds

---
 intvalpy/linear/boundary_intervals.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 680f377..3371e21 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -192,6 +192,8 @@ def lineqs(
     assert b.shape[0] == n, "The size of the matrix A must be consistent with the size of the vector of the right part of b."
 
     A, b, cnmty = clear_zero_rows(A, b)
+    if not cnmty:
+        return np.array([])
 
     S = BoundaryIntervals(A, b)
     if len(S) == 0:
@@ -215,6 +217,8 @@ def lineqs(
                           [-bounds[1][0], -bounds[1][1]])
 
         S = BoundaryIntervals(A, b)
+        if len(S) == 0:
+            return S
 
     vertices = Intervals2Path(S)
 
-- 
2.43.0


From f81cb050a51389b73fdb8bab81a9a2db7a786759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 43/67] fix: the view of an unbounded planar set shows its
 vertices and has an interior

---
 intvalpy/linear/boundary_intervals.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 3371e21..01c2b8d 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -70,6 +70,7 @@ def ParticularPoints(S, A, b):
         for k in S[:, 4]:
             k = int(k)
             PP.append((A[k]*b[k])/np.dot(A[k], A[k]))
+        PP = PP + list(V[~binf])
     else:
         nV = 0
         PP = V
@@ -207,6 +208,8 @@ def lineqs(
             PPmin, PPmax = np.min(PP, axis=0), np.max(PP, axis=0)
             center = (PPmin + PPmax)/2
             rm = max((PPmax - PPmin)/2)
+            if rm <= 1e-14:
+                rm = rm + 1
             __center_rm.append([max(abs(center) + 5*rm)])
             A = np.append(np.append(A, np.eye(2)), -np.eye(2)).reshape((len(A)+4, 2))
             b = np.append(np.append(b, center-5*rm), -(center+5*rm))
-- 
2.43.0


From c9fef8bae4bff67894f28a1109396c06a8071fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 44/67] fix: the view of a drawn interval system does not
 depend on earlier calls

---
 intvalpy/linear/boundary_intervals.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 01c2b8d..c320bbd 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -310,6 +310,10 @@ def IntLinIncR2(
         return lineqs(A, b, show=show, title=title, color=color, bounds=bounds,
                       alpha=alpha, s=s, size=size, save=save)
 
+    # окно отрисовки не зависит от предыдущих вызовов
+    global __center_rm
+    __center_rm = []
+
     ortant = [(1, 1), (-1, 1), (-1, -1), (1, -1)]
     vertices = []
     n, m = A.shape
@@ -343,7 +347,6 @@ def IntLinIncR2(
 
     # Если в каком-либо ортанте множество решений неограничено, то создаём
     # новое отрисовочное окно, чтобы срез решений был одинаковым.
-    global __center_rm
     if len(__center_rm) > 0:
         vertices = []
         _max = max(np.array(__center_rm))
@@ -612,6 +615,10 @@ def IntLinIncR3(
         return lineqs3D(A, b, show=False, color=color,
                         alpha=alpha, s=s, size=size, bounds=bounds)
 
+    # окно отрисовки не зависит от предыдущих вызовов
+    global __center_rm
+    __center_rm = []
+
     ortant = [(1, 1, 1), (-1, 1, 1), (-1, -1, 1), (1, -1, 1),
               (1, 1, -1), (-1, 1, -1), (-1, -1, -1), (1, -1, -1)]
     vertices = []
@@ -664,7 +671,6 @@ def IntLinIncR3(
 
     # Если в каком-либо ортанте множество решений неограничено, то создаём
     # новое отрисовочное окно, чтобы срез решений был одинаковым.
-    global __center_rm
     if len(__center_rm) > 0:
         vertices = []
         _max = max(np.array(__center_rm))
-- 
2.43.0


From 8e0ca7d64a166c4873541a48ca62ac4093395423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:55 +0000
Subject: [PATCH 45/67] fix: lineqs3D accepts half-spaces and reports
 contradictory zero rows

---
 intvalpy/linear/boundary_intervals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index c320bbd..56db376 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -110,7 +110,7 @@ def ChangeVariable(A, b, k):
     y1[l1], y1[l2] = A[k, l2], -A[k, l1]
     y2 = np.cross(A[k], y1)
 
-    index = np.array([l for l in range(len(A)) if l != k])
+    index = np.array([l for l in range(len(A)) if l != k], dtype=int)
     A, b = A[index], b[index]
 
     At = np.array([A @ y1, A @ y2]).T
@@ -429,6 +429,8 @@ def lineqs3D(
     b = np.asarray(b)
 
     A, b, cnmty = clear_zero_rows(A, b, ndim=3)
+    if not cnmty:
+        return []
     A, b = non_repeat(A, b)
 
     n, m = A.shape
@@ -447,7 +449,7 @@ def lineqs3D(
             continue
 
         if len(bt) == 0:
-            PP.append(xi)
+            PP.append([xi])
             cfinite = False
             continue
 
-- 
2.43.0


From d0f0743d933336cef5d2bbd4fc5676456f45a90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:04 +0000
Subject: [PATCH 46/67] fix: the view of an unbounded set in space is centered
 at its particular points

---
 intvalpy/linear/boundary_intervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 56db376..97e689f 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -489,7 +489,7 @@ def lineqs3D(
             xmin, ymin, zmin = np.min(x), np.min(y), np.min(z)
             xmax, ymax, zmax = np.max(x), np.max(y), np.max(z)
 
-            center = np.array([0, 0, 0]) + (x + y + z).mean()
+            center = np.array([xmin + xmax, ymin + ymax, zmin + zmax]) / 2
             rm = (xmax-xmin) + (ymax-ymin) + (zmax-zmin)
 
             if rm <= 1e-14:
-- 
2.43.0


From bc4d1eb0dfb0a1d867cfc37380b5f7662ea32707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:15 +0000
Subject: [PATCH 47/67] fix: a view of a single particular point is recognized
 up to rounding

---
 intvalpy/linear/boundary_intervals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 97e689f..3c9a6b9 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -208,7 +208,7 @@ def lineqs(
             PPmin, PPmax = np.min(PP, axis=0), np.max(PP, axis=0)
             center = (PPmin + PPmax)/2
             rm = max((PPmax - PPmin)/2)
-            if rm <= 1e-14:
+            if rm <= 1e-12 * max(1, max(abs(center))):
                 rm = rm + 1
             __center_rm.append([max(abs(center) + 5*rm)])
             A = np.append(np.append(A, np.eye(2)), -np.eye(2)).reshape((len(A)+4, 2))
@@ -492,7 +492,7 @@ def lineqs3D(
             center = np.array([xmin + xmax, ymin + ymax, zmin + zmax]) / 2
             rm = (xmax-xmin) + (ymax-ymin) + (zmax-zmin)
 
-            if rm <= 1e-14:
+            if rm <= 1e-12 * max(1, max(abs(center))):
                 rm = rm + 1
             __center_rm.append([max(abs(center) + 1*rm)])
             A = np.append(np.append(A, np.eye(3)), -np.eye(3)).reshape((len(A)+6, 3))
-- 
2.43.0


From ba32bdf135d98164a76556386d979da7679bfa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:51 +0000
Subject: [PATCH 48/67] fix: different inequalities are not taken for
 repetitions of each other

---
 intvalpy/kernel/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/preprocessing.py b/intvalpy/kernel/preprocessing.py
index ab4d7bf..ed05935 100644
--- a/intvalpy/kernel/preprocessing.py
+++ b/intvalpy/kernel/preprocessing.py
@@ -26,7 +26,7 @@ def non_repeat(a, b):
     a = np.copy(np.ascontiguousarray(a))
     a = np.around(a, decimals=12)
     b = np.around(np.copy(b), decimals=12)
-    a1 = (a.T - b).T
+    a1 = np.ascontiguousarray(np.column_stack((a, b)))
     _, index = np.unique(a1.view([('', a1.dtype)]*a1.shape[1]), return_index=True)
     index = sorted(index)
     return a[index], b[index]
-- 
2.43.0


From a64e5a1321fecd1b97b0e51ccdb7e917b679fe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:23 +0000
Subject: [PATCH 49/67] fix: ChebNorm compares the greatest value of a row with
 its least one

---
 intvalpy/linear/ChebNorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/ChebNorm.py b/intvalpy/linear/ChebNorm.py
index 4673d27..6f341b0 100644
--- a/intvalpy/linear/ChebNorm.py
+++ b/intvalpy/linear/ChebNorm.py
@@ -39,7 +39,7 @@ class ChebNorm:
             x_min = ChebNorm.__calc_lp_on_box(x, infA[j], supA[j])
             f_min = x_min @ x
             x_max = ChebNorm.__calc_lp_on_box(-x, infA[j], supA[j])
-            f_max = x_max @ (-x)
+            f_max = x_max @ x
             if bm[j] - f_min >= f_max - bm[j]:
                 A_opt[j] = x_min
             else:
-- 
2.43.0


From 80d2f96f3363283b02a46b24cd618955a2b497da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 50/67] fix: ChebNorm takes the extreme matrices exactly, point
 elements included

---
 intvalpy/linear/ChebNorm.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/intvalpy/linear/ChebNorm.py b/intvalpy/linear/ChebNorm.py
index 6f341b0..3e7e4f3 100644
--- a/intvalpy/linear/ChebNorm.py
+++ b/intvalpy/linear/ChebNorm.py
@@ -1,9 +1,5 @@
 import numpy as np
 
-import cvxopt
-cvxopt.solvers.options['show_progress'] = False
-cvxopt.solvers.options['glpk'] = {'msg_lev': 'GLP_MSG_OFF'}
-
 from ..kernel.abstract import BaseRecFun
 
 
@@ -25,16 +21,13 @@ class ChebNorm:
         return np.max(ChebNorm.constituent(A, b, x, weight=weight))
 
     @staticmethod
-    def __calc_lp_on_box(c_, x_min, x_max):
-        c = cvxopt.matrix(c_)
-        G = cvxopt.matrix(np.vstack([-np.eye(len(x_min)), np.eye(len(x_min))]))
-        h = cvxopt.matrix(np.hstack([-x_min, x_max]).astype(np.double))
-        sol = cvxopt.solvers.lp(c, G, h, verbose=True)
-        return np.array(sol['x']).T
+    def __calc_lp_on_box(c, x_min, x_max):
+        # the minimum of a linear function on a box is attained at the ends chosen by the signs of c
+        return np.where(c >= 0, x_min, x_max)
 
     @staticmethod
     def __calc_opt_A(x, infA, supA, bm):
-        A_opt = np.zeros_like(infA)
+        A_opt = np.zeros(infA.shape)
         for j in range(len(bm)):
             x_min = ChebNorm.__calc_lp_on_box(x, infA[j], supA[j])
             f_min = x_min @ x
-- 
2.43.0


From af6ff0aaeac173c323920722cc4882247991cb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:37 +0000
Subject: [PATCH 51/67] fix: the subgradient of ChebNorm takes the weights into
 account

---
 intvalpy/linear/ChebNorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/ChebNorm.py b/intvalpy/linear/ChebNorm.py
index 3e7e4f3..4446e79 100644
--- a/intvalpy/linear/ChebNorm.py
+++ b/intvalpy/linear/ChebNorm.py
@@ -47,7 +47,7 @@ class ChebNorm:
         A_opt = ChebNorm.__calc_opt_A(x, infA, supA, bm)
         index = (weight * (br.T + abs(bm.T - A_opt @ x))).argmax()
         val =(weight * (br.T + abs(bm.T - A_opt @ x))).max()
-        grad = A_opt[index,:] * np.sign(A_opt[index] @ x - bm[index])
+        grad = weight[index] * A_opt[index,:] * np.sign(A_opt[index] @ x - bm[index])
 
         return val, grad
 
-- 
2.43.0


From 8a502df9c0d110bfb85f299411c7951991005e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 52/67] fix: WILS and ISPAE do not write the smoothed weights
 into the user's array

---
 intvalpy/models/ISPAE.py | 2 ++
 intvalpy/models/WILS.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/intvalpy/models/ISPAE.py b/intvalpy/models/ISPAE.py
index 85f08af..28b83be 100644
--- a/intvalpy/models/ISPAE.py
+++ b/intvalpy/models/ISPAE.py
@@ -348,6 +348,8 @@ class ISPAE(object):
         # Initialize weights
         if weight is None:
             weight = np.ones(n)
+        else:
+            weight = np.array(weight, dtype=np.float64)
         weight[0] = self.beta * weight[0] * (1 - self.alpha)
         for k in range(1, n):
             weight[k] = self.beta * (weight[k] * (1 - self.alpha) + self.alpha * weight[k - 1])
diff --git a/intvalpy/models/WILS.py b/intvalpy/models/WILS.py
index 20911d2..0c9ec4e 100644
--- a/intvalpy/models/WILS.py
+++ b/intvalpy/models/WILS.py
@@ -108,6 +108,8 @@ class WILS(object):
         
         if weight is None:
             weight = np.ones(n)
+        else:
+            weight = np.array(weight, dtype=np.float64)
         # делаем сглаживание
         weight[0] = self.beta * weight[0]*(1 - self.alpha)
         for k in range(1, n):
-- 
2.43.0


From e69bb106024c022e4b3cb9b0404c78ebaa292fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 53/67] fix: WILS finds the penalty factor of a linear
 constraint

---
 intvalpy/models/WILS.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/intvalpy/models/WILS.py b/intvalpy/models/WILS.py
index 0c9ec4e..941fd64 100644
--- a/intvalpy/models/WILS.py
+++ b/intvalpy/models/WILS.py
@@ -1,5 +1,6 @@
 import numpy as np
-from ..kernel.utils import inf, sup, mid, rad
+from copy import copy
+from ..kernel.utils import inf, sup, mid, rad, mag
 from ..kernel.abstract import BaseRecFun
 from ..kernel.ralgb5 import ralgb5
 
@@ -115,6 +116,11 @@ class WILS(object):
         for k in range(1, n):
             weight[k] = self.beta * (weight[k]*(1 - self.alpha) + self.alpha*weight[k-1])
 
+        if constraint is not None and constraint.mu is None:
+            # mu depends on the data: the user's object is left as it is
+            constraint = copy(constraint)
+            slopes = weight * np.linalg.norm(mag(X_train), axis=1)
+            constraint.mu = constraint.find_mu(np.sum(slopes) if norm == 'l1' else np.max(slopes))
 
         #+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+
         def calcfg(beta):
-- 
2.43.0


From 3eb674de58a3f5ede9b288844419bc79ea95c7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 54/67] fix: rows that meet their interval do not contribute to
 the subgradient of Uni in the l1 norm

---
 intvalpy/models/ISPAE.py | 2 ++
 intvalpy/models/WILS.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/intvalpy/models/ISPAE.py b/intvalpy/models/ISPAE.py
index 28b83be..e625ad4 100644
--- a/intvalpy/models/ISPAE.py
+++ b/intvalpy/models/ISPAE.py
@@ -187,6 +187,8 @@ class ISPAE(object):
         obj, mcs = self._wrap_norm(residual, norm)
         sub_diff = np.zeros(len(beta), dtype=float)
         for mc in mcs:
+            if mig[mc] == 0:
+                continue
             if -infs[mc] <= sups[mc]:
                 diff = weight[mc] * (supX[mc] * index + infX[mc] * (~index))
             else:
diff --git a/intvalpy/models/WILS.py b/intvalpy/models/WILS.py
index 941fd64..97fabc2 100644
--- a/intvalpy/models/WILS.py
+++ b/intvalpy/models/WILS.py
@@ -43,6 +43,8 @@ class WILS(object):
         obj, mcs = self._wrap_norm(residual, norm)
         sub_diff = np.zeros(len(beta), dtype=float)
         for mc in mcs:
+            if mig[mc] == 0:
+                continue
             if -infs[mc] <= sups[mc]:
                 diff = weight[mc] * (supX[mc] * index + infX[mc] * (~index))
             else:
-- 
2.43.0


From 5642a54f47073faaa70de54825fa7c1b023e25c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 55/67] fix: the bias of ISPAE is the constant polynomial in
 every basis

---
 intvalpy/models/ISPAE.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/intvalpy/models/ISPAE.py b/intvalpy/models/ISPAE.py
index e625ad4..66365ea 100644
--- a/intvalpy/models/ISPAE.py
+++ b/intvalpy/models/ISPAE.py
@@ -141,11 +141,20 @@ class ISPAE(object):
             Sum of interval values for all columns.
         """
         vals_by_cols = [
-            self.value_of_one_col(beta[sum(self.order[:k]): sum(self.order[:k + 1])], dataframe[col])
+            self.value_of_one_col(beta[sum(self.order[:k]): sum(self.order[:k + 1])], dataframe[col], deg=self._degrees(k))
             for k, col in enumerate(self.columns)
         ]
         return sum(vals_by_cols)
 
+
+    def _degrees(self, k):
+        """
+        Degrees of the basis polynomials of the k-th column. The bias is the constant polynomial.
+        """
+        if self.bias and k == 0:
+            return [0]
+        return range(1, self.order[k] + 1)
+
     
     def _uni_calcfg_extend(self, beta, X_train, infX, supX, Xm, Xr, ym, yr, weight, norm):
         """
@@ -258,7 +267,7 @@ class ISPAE(object):
         X_expand = pd.DataFrame()
         nit = 0
         for k, col in enumerate(self.columns):
-            for deg in range(1, self.order[k] + 1):
+            for deg in self._degrees(k):
                 X_expand[nit] = self.value_of_one_col(1, dataframe[col], deg=deg)
                 nit = nit + 1
         return X_expand
-- 
2.43.0


From 18ae7d2f10afdca68ef96b9098ed9a642e3bd0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 56/67] fix: the subgradients of ISPAE belong to the range of
 the polynomial, not to the ranges of its terms

---
 intvalpy/models/ISPAE.py | 55 +++++++++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 12 deletions(-)

diff --git a/intvalpy/models/ISPAE.py b/intvalpy/models/ISPAE.py
index 66365ea..66af5f3 100644
--- a/intvalpy/models/ISPAE.py
+++ b/intvalpy/models/ISPAE.py
@@ -88,6 +88,27 @@ class ISPAE(object):
             Interval value of the polynomial.
         """
         # Extract interval bounds
+        vals, dots, masks, _ = self._extreme_points(beta, x, deg=deg)
+
+        # Compute interval result
+        res = asinterval([
+            Interval(min(val[mask]), max(val[mask]), sortQ=False)
+            for val, mask in zip(vals, masks)
+        ])
+        return res
+
+
+    def _extreme_points(self, beta, x, deg=None):
+        """
+        Points where a polynomial may reach its extreme values.
+
+        Returns:
+        --------
+        vals, dots, masks : np.ndarray
+            Values, points and whether the points are in the interval, one row for every element of x.
+        basis : np.ndarray
+            Polynomials of the basis.
+        """
         infs, sups = np.array([inf(x)]).flatten(), np.array([sup(x)]).flatten()
         beta = np.array([beta]).flatten()
 
@@ -115,13 +136,23 @@ class ISPAE(object):
         dots[:, 1] = sups
         dots[:, 2:] = roots
         masks = (infs[:, np.newaxis] <= dots) & (dots <= sups[:, np.newaxis])
+        return vals, dots, masks, basis
 
-        # Compute interval result
-        res = asinterval([
-            Interval(min(val[mask]), max(val[mask]), sortQ=False)
-            for val, mask in zip(vals, masks)
-        ])
-        return res
+
+    def _extreme_features(self, beta, dataframe, row):
+        """
+        Values of the basis polynomials of all columns at the points where the polynomials
+        with the coefficients beta are the least and the greatest in the given row.
+        """
+        least, greatest = [], []
+        for k, col in enumerate(self.columns):
+            coef = beta[sum(self.order[:k]): sum(self.order[:k + 1])]
+            x = [dataframe[col].iloc[row]]
+            vals, dots, masks, basis = self._extreme_points(coef, x, deg=self._degrees(k))
+            val, dot = vals[0][masks[0]], dots[0][masks[0]]
+            least.extend(p(dot[np.argmin(val)]) for p in basis)
+            greatest.extend(p(dot[np.argmax(val)]) for p in basis)
+        return np.array(least), np.array(greatest)
 
     
     def value(self, beta, dataframe):
@@ -184,7 +215,6 @@ class ISPAE(object):
         sub_diff : np.ndarray
             Subgradient of the objective.
         """
-        index = beta >= 0
         centered_mval = ym - self.value(beta, X_train)
         infs, sups = centered_mval.inf, centered_mval.sup
         mig = np.array([
@@ -198,10 +228,11 @@ class ISPAE(object):
         for mc in mcs:
             if mig[mc] == 0:
                 continue
+            least, greatest = self._extreme_features(beta, X_train, mc)
             if -infs[mc] <= sups[mc]:
-                diff = weight[mc] * (supX[mc] * index + infX[mc] * (~index))
+                diff = weight[mc] * greatest
             else:
-                diff = -weight[mc] * (infX[mc] * index + supX[mc] * (~index))
+                diff = -weight[mc] * least
             sub_diff = sub_diff + diff
         return -obj, -sub_diff
 
@@ -234,7 +265,6 @@ class ISPAE(object):
         sub_diff : np.ndarray
             Subgradient of the objective.
         """
-        index = beta >= 0
         centered_mval = ym - self.value(beta, X_train)
         infs, sups = centered_mval.inf, centered_mval.sup
         residual = weight * (yr - np.maximum(abs(infs), abs(sups)))
@@ -242,10 +272,11 @@ class ISPAE(object):
         obj, mcs = self._wrap_norm(residual, norm)
         sub_diff = np.zeros(len(beta), dtype=float)
         for mc in mcs:
+            least, greatest = self._extreme_features(beta, X_train, mc)
             if -infs[mc] <= sups[mc]:
-                diff = weight[mc] * (infX[mc] * index + supX[mc] * (~index))
+                diff = weight[mc] * least
             else:
-                diff = -weight[mc] * (supX[mc] * index + infX[mc] * (~index))
+                diff = -weight[mc] * greatest
             sub_diff = sub_diff + diff
         return -obj, -sub_diff
 
-- 
2.43.0


From fe285955c5ff2077707492e0f750f6901bd5e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 57/67] fix: ralgb5 does not dilate the space along a zero
 difference of subgradients

---
 intvalpy/kernel/ralgb5.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/ralgb5.py b/intvalpy/kernel/ralgb5.py
index 8574179..76326c3 100644
--- a/intvalpy/kernel/ralgb5.py
+++ b/intvalpy/kernel/ralgb5.py
@@ -167,8 +167,10 @@ def ralgb5(calcfg, x0, tolx=1e-12, tolg=1e-12, tolf=1e-12, maxiter=2000, alpha=2
 
         # Update the transformation matrix B and the subgradient
         dg = B.T @ (g1 - g0)
-        xi = dg / np.linalg.norm(dg)
-        B = B + w * np.outer((B @ xi), xi)
+        normdg = np.linalg.norm(dg)
+        if normdg > 0: # without a difference there is no direction to dilate
+            xi = dg / normdg
+            B = B + w * np.outer((B @ xi), xi)
         g0 = g1
 
         # Update the function value history for the stopping criterion
-- 
2.43.0


From 952b93048984a273d489a2a7471518d9bbc13814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 58/67] fix: ralgb5 stops when the subgradient vanishes in the
 dilated space

---
 intvalpy/kernel/ralgb5.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/intvalpy/kernel/ralgb5.py b/intvalpy/kernel/ralgb5.py
index 76326c3..6e043d7 100644
--- a/intvalpy/kernel/ralgb5.py
+++ b/intvalpy/kernel/ralgb5.py
@@ -117,7 +117,11 @@ def ralgb5(calcfg, x0, tolx=1e-12, tolg=1e-12, tolf=1e-12, maxiter=2000, alpha=2
 
         # Compute the direction of movement in the transformed space
         g1 = B.T @ g0
-        dx = B @ (g1 / np.linalg.norm(g1))
+        normg = np.linalg.norm(g1)
+        if normg == 0: # the dilated space has no extent along the subgradient: x cannot change any more
+            ccode = 3
+            return xr, fr, nit, ncalls, ccode
+        dx = B @ (g1 / normg)
         normdx = np.linalg.norm(dx)
 
         d = 1 # Initialize the inner loop condition
-- 
2.43.0


From f7794941aa596f3e6bdd1071fb6c1ce193d1193e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:51 +0000
Subject: [PATCH 59/67] fix: Shary_system refuses alpha = 0, as its
 documentation and message say

---
 intvalpy/kernel/new_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/new_objects.py b/intvalpy/kernel/new_objects.py
index 8b07f14..3a1cb0b 100644
--- a/intvalpy/kernel/new_objects.py
+++ b/intvalpy/kernel/new_objects.py
@@ -146,7 +146,7 @@ def Shary_system(n, N=None, alpha=0.23, beta=0.35):
     else:
         assert N>=n-1, "Parameter N must be a real number not less than (n − 1)."
 
-    if alpha < 0 or beta < alpha or beta > 1:
+    if alpha <= 0 or beta < alpha or beta > 1:
         raise Exception('The parameter is limited to 0 < alpha <= beta <= 1.')
 
     A = zeros((n,n)) + Interval(alpha-1, 1-beta, sortQ=False)
-- 
2.43.0


From c2dd0f957a0b585a140a495c8fc16e0d5bf16028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:41 +0000
Subject: [PATCH 60/67] fix: IntLinIncR3 draws the solution set of a real
 system when it is asked to

---
 intvalpy/linear/boundary_intervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 3c9a6b9..84d94b6 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -614,7 +614,7 @@ def IntLinIncR3(
     """
 
     if not (isinstance(A, INTERVAL_CLASSES) or isinstance(b, INTERVAL_CLASSES)):
-        return lineqs3D(A, b, show=False, color=color,
+        return lineqs3D(A, b, show=show, color=color,
                         alpha=alpha, s=s, size=size, bounds=bounds)
 
     # окно отрисовки не зависит от предыдущих вызовов
-- 
2.43.0


From 21d1bcbe7043859a732b5f74551255f6d04a38b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:49 +0000
Subject: [PATCH 61/67] fix: IntLinIncR3 does not leave faces that touch a
 coordinate plane out of the picture

---
 intvalpy/linear/boundary_intervals.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 84d94b6..f821f53 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -699,11 +699,7 @@ def IntLinIncR3(
                 xmin, ymin, zmin = np.min(abs(x)), np.min(abs(y)), np.min(abs(z))
                 xmax, ymax, zmax = np.max(abs(x)), np.max(abs(y)), np.max(abs(z))
 
-                if n <= l and l < n + 3 and (xmin * ymin * zmin == 0):
-                    l += 1
-                    continue
-
-                elif zero_lvl and ((xmax == xmin and xmax == 0 and abs(gxmin*gxmax) > 1e-14) or
+                if zero_lvl and ((xmax == xmin and xmax == 0 and abs(gxmin*gxmax) > 1e-14) or
                                    (ymax == ymin and ymax == 0 and abs(gymin*gymax) > 1e-14) or
                                    (zmax == zmin and zmax == 0 and abs(gzmin*gzmax) > 1e-14)):      # demo
                     continue
-- 
2.43.0


From 0527c379e6ce12448a09455e58544701dcf99219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 62/67] fix: PSS signs the columns of unknowns whose start
 interval has an end at zero

---
 intvalpy/linear/PSS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 5e8daca..6c45040 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -165,7 +165,7 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
         return np.array(result['x']).reshape(c.shape[0])
 
     def ExactOmega(midA, radA, b, Q):
-        S = np.eye(m) * np.insert(np.sign(Q.a), _nu, np.sign(V[_nu].a))
+        S = np.eye(m) * np.insert(np.sign(Q.a), _nu, -1 if V[_nu].a < 0 else 1)
         midAS = midA @ S
 
         p[:m] = np.insert(-Q.a, _nu, 1e15)
@@ -189,7 +189,7 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
         except Exception:
             pass
 
-        S[_nu, _nu] = np.sign(V[_nu].b)
+        S[_nu, _nu] = 1 if V[_nu].b > 0 else -1
         midAS = midA @ S
 
         c[_nu] = S[_nu, _nu]
-- 
2.43.0


From cbbd08a4939e60a63013e19401aeaf297478bb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:24 +0000
Subject: [PATCH 63/67] fix: get_shape keeps the outer dimensions of arrays
 inside lists

---
 intvalpy/kernel/preprocessing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/intvalpy/kernel/preprocessing.py b/intvalpy/kernel/preprocessing.py
index ed05935..2ae0def 100644
--- a/intvalpy/kernel/preprocessing.py
+++ b/intvalpy/kernel/preprocessing.py
@@ -61,10 +61,10 @@ def get_shape(lst, shape=()):
                     Форма текущей глубины. В конце это будет полная глубина.
     """
 
-    if isinstance(lst, single_type) or (len(lst) == 1 and isinstance(lst, INTERVAL_CLASSES)):
+    if isinstance(lst, single_type + ARITHMETICS):
         return shape
-    elif isinstance(lst, np.ndarray):
-        return lst.shape
+    elif isinstance(lst, (np.ndarray, ArrayInterval)):
+        return shape + lst.shape
 
     if isinstance(lst[0], Sequence):
         l = len(lst[0])
-- 
2.43.0


From f46c6d61faf974add2526f2b3077825bd8bf8e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:09 +0000
Subject: [PATCH 64/67] fix: sine and cosine of improper intervals: round
 outwards next to an extremum

The dual needs to know that the extremum is certainly reached, not that it may be.
---
 intvalpy/kernel/interval_arithmetics.pyx | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index ac6cfff..d30ba6c 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -76,6 +76,14 @@ cdef bint may_contain(double a, double b, double point):
     return ceil(left - 1e-15 * fabs(left)) <= floor(right + 1e-15 * fabs(right))
 
 
+cdef bint must_contain(double a, double b, double point):
+    """
+    Whether [a, b] contains one of the numbers point + 2*PI*k, however the quotients are rounded.
+    """
+    cdef double left = (a - point) / (2*PI), right = (b - point) / (2*PI)
+    return ceil(left + 1e-15 * (1 + fabs(left))) <= floor(right - 1e-15 * (1 + fabs(right)))
+
+
 cdef double directed_log(double x, int mode):
     """
     The natural logarithm of a positive x, rounded in the given direction.
@@ -393,13 +401,13 @@ cdef class BaseTools:
             return type(self)(inf, sup)
         else:
             with RoundingContext(FE_DOWNWARD):
-                if may_contain(x.a, x.b, PI/2):
+                if must_contain(x.a, x.b, PI/2):
                     sup = 1
                 else:
                     sup = round_down(max(sin_inf, sin_sup))
 
             with RoundingContext(FE_UPWARD):
-                if may_contain(x.a, x.b, -PI/2):
+                if must_contain(x.a, x.b, -PI/2):
                     inf = -1
                 else:
                     inf = round_up(min(sin_inf, sin_sup))
@@ -426,13 +434,13 @@ cdef class BaseTools:
             return type(self)(inf, sup)
         else:
             with RoundingContext(FE_DOWNWARD):
-                if may_contain(x.a, x.b, 0.0):
+                if must_contain(x.a, x.b, 0.0):
                     sup = 1
                 else:
                     sup = round_down(max(cos_inf, cos_sup))
 
             with RoundingContext(FE_UPWARD):
-                if may_contain(x.a, x.b, PI):
+                if must_contain(x.a, x.b, PI):
                     inf = -1
                 else:
                     inf = round_up(min(cos_inf, cos_sup))
-- 
2.43.0


From ac9ab15dc8f213cb50e09898d74f4921abe67ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:55 +0000
Subject: [PATCH 65/67] fix: Gauss refuses systems whose matrix is not square
 or does not fit the right-hand side

---
 intvalpy/linear/Gauss.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/intvalpy/linear/Gauss.py b/intvalpy/linear/Gauss.py
index 0987776..91c70be 100644
--- a/intvalpy/linear/Gauss.py
+++ b/intvalpy/linear/Gauss.py
@@ -23,7 +23,10 @@ def Gauss(A, b):
     """
 
     A, b = A.copy(), b.copy()
-    n, _ = A.shape
+    n, m = A.shape
+
+    assert n == m, 'Matrix is not square'
+    assert n == len(b), 'Inconsistent dimensions of matrix and right-hand side vector'
 
     r = zeros((n, n))
     x = zeros(n)
-- 
2.43.0


From 81d761edea5af4d06deaf4cc26e8fc5198eacabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 66/67] fix: lineqs3D checks the sizes before repeated rows are
 dropped

---
 intvalpy/linear/boundary_intervals.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index f821f53..ec682e4 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -428,14 +428,15 @@ def lineqs3D(
     A = np.asarray(A)
     b = np.asarray(b)
 
+    n, m = A.shape
+    assert m == 3, "There should be three columns in matrix A."
+    assert b.shape[0] == n, "The size of the matrix A must be consistent with the size of the vector of the right part of b."
+
     A, b, cnmty = clear_zero_rows(A, b, ndim=3)
     if not cnmty:
         return []
     A, b = non_repeat(A, b)
-
-    n, m = A.shape
-    assert m == 3, "There should be three columns in matrix A."
-    assert b.shape[0] == n, "The size of the matrix A must be consistent with the size of the vector of the right part of b."
+    n = A.shape[0]
 
     V = []
     PP = []
-- 
2.43.0


From 9df9bf90eafed3623e8f82e28588c8ffff08c829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:27 +0000
Subject: [PATCH 67/67] fix: drawing calls in several threads do not share
 their window

---
 intvalpy/linear/boundary_intervals.py | 31 ++++++++++++++++-----------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index ec682e4..a689d53 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -1,3 +1,4 @@
+import threading
 import numpy as np
 import matplotlib.pyplot as plt
 from mpl_toolkits.mplot3d.art3d import Poly3DCollection
@@ -119,7 +120,13 @@ def ChangeVariable(A, b, k):
     return xi, At, bt, y1, y2
 
 
-__center_rm = []
+class CenterRm(threading.local):
+    # у каждого потока своё окно отрисовки
+    def __init__(self):
+        self.list = []
+
+
+__center_rm = CenterRm()
 def lineqs(
         A, 
         b, 
@@ -210,7 +217,7 @@ def lineqs(
             rm = max((PPmax - PPmin)/2)
             if rm <= 1e-12 * max(1, max(abs(center))):
                 rm = rm + 1
-            __center_rm.append([max(abs(center) + 5*rm)])
+            __center_rm.list.append([max(abs(center) + 5*rm)])
             A = np.append(np.append(A, np.eye(2)), -np.eye(2)).reshape((len(A)+4, 2))
             b = np.append(np.append(b, center-5*rm), -(center+5*rm))
 
@@ -311,8 +318,7 @@ def IntLinIncR2(
                       alpha=alpha, s=s, size=size, save=save)
 
     # окно отрисовки не зависит от предыдущих вызовов
-    global __center_rm
-    __center_rm = []
+    __center_rm.list = []
 
     ortant = [(1, 1), (-1, 1), (-1, -1), (1, -1)]
     vertices = []
@@ -347,12 +353,12 @@ def IntLinIncR2(
 
     # Если в каком-либо ортанте множество решений неограничено, то создаём
     # новое отрисовочное окно, чтобы срез решений был одинаковым.
-    if len(__center_rm) > 0:
+    if len(__center_rm.list) > 0:
         vertices = []
-        _max = max(np.array(__center_rm))
+        _max = max(np.array(__center_rm.list))
         bounds = np.array([[-_max, -_max], [_max, _max]])
         algo(bounds)
-    __center_rm = []
+    __center_rm.list = []
 
     if show:
         fig = plt.figure(figsize=size)
@@ -495,7 +501,7 @@ def lineqs3D(
 
             if rm <= 1e-12 * max(1, max(abs(center))):
                 rm = rm + 1
-            __center_rm.append([max(abs(center) + 1*rm)])
+            __center_rm.list.append([max(abs(center) + 1*rm)])
             A = np.append(np.append(A, np.eye(3)), -np.eye(3)).reshape((len(A)+6, 3))
             b = np.append(np.append(b, center-rm), -(center+rm))
         else:
@@ -619,8 +625,7 @@ def IntLinIncR3(
                         alpha=alpha, s=s, size=size, bounds=bounds)
 
     # окно отрисовки не зависит от предыдущих вызовов
-    global __center_rm
-    __center_rm = []
+    __center_rm.list = []
 
     ortant = [(1, 1, 1), (-1, 1, 1), (-1, -1, 1), (1, -1, 1),
               (1, 1, -1), (-1, 1, -1), (-1, -1, -1), (1, -1, -1)]
@@ -674,12 +679,12 @@ def IntLinIncR3(
 
     # Если в каком-либо ортанте множество решений неограничено, то создаём
     # новое отрисовочное окно, чтобы срез решений был одинаковым.
-    if len(__center_rm) > 0:
+    if len(__center_rm.list) > 0:
         vertices = []
-        _max = max(np.array(__center_rm))
+        _max = max(np.array(__center_rm.list))
         bounds = np.array([[-_max, -_max, -_max], [_max, _max, _max]])
         gxmin, gymin, gzmin, gxmax, gymax, gzmax = algo(bounds)
-    __center_rm = []
+    __center_rm.list = []
 
     if show:
         fig = plt.figure(figsize=size)
-- 
2.43.0

