From fd68608578adca0cbbfca62ea8615836d122d43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:17 +0000
Subject: [PATCH 01/61] fix: in-place subtraction of a scalar from a tensor
 added the scalar

---
 src/sigmaepsilon/math/linalg/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/abstract.py b/src/sigmaepsilon/math/linalg/abstract.py
index 3e29bef..5145b9f 100644
--- a/src/sigmaepsilon/math/linalg/abstract.py
+++ b/src/sigmaepsilon/math/linalg/abstract.py
@@ -101,7 +101,7 @@ class AbstractTensor(TensorLike):
 
     def __isub__(self, other) -> TensorLike:
         if isinstance(other, numbers.Number):
-            self.array += other
+            self.array -= other
         elif isinstance(other, TensorLike):
             if not self.array.shape == other.array.shape:
                 raise TensorShapeMismatchError
-- 
2.43.0


From a615b3746bc3dbb2b309b60c87822971dc34e532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:17 +0000
Subject: [PATCH 02/61] fix: is_bulk returned None for tensors not marked as
 bulk at creation

---
 src/sigmaepsilon/math/linalg/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index d7228fb..c0e1077 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -483,7 +483,7 @@ class TensorLike(ArrayWrapper):
         if self._bulk:
             return True
         else:
-            not self.rank == len(self.array.shape)
+            return not self.rank == len(self.array.shape)
 
 
 ArrayLike = Union[ArrayWrapper, ndarray, Array]
-- 
2.43.0


From 5347729ec45552c153b232b6d86f312fc75f8959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:17 +0000
Subject: [PATCH 03/61] fix: axes assigned to a frame shared memory (and dtype)
 with the caller's array

---
 src/sigmaepsilon/math/linalg/frame.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index 399d3a9..b0e116d 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -292,12 +292,9 @@ class ReferenceFrame(FrameLike):
         """
         Sets the array of the frame.
         """
-        if isinstance(value, np.ndarray):
-            buf = value
-        else:
-            if not issequence(value):
-                raise TypeError("'value' must be some kind of iterable")
-            buf = np.array(value).astype(float)
+        if not isinstance(value, np.ndarray) and not issequence(value):
+            raise TypeError("'value' must be some kind of iterable")
+        buf = np.array(value, dtype=float, order="C")
         value = self._array_cls_(shape=buf.shape, buffer=buf, dtype=buf.dtype)
         if value.shape == self._array.shape:
             if self._weakrefs and len(self._weakrefs) > 0:
-- 
2.43.0


From d4f8295fbf8946041d1de350417e0559569a7968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:17 +0000
Subject: [PATCH 04/61] fix: array attributes of a frame or tensor were stale
 after an in-place change

---
 src/sigmaepsilon/math/linalg/frame.py | 1 +
 src/sigmaepsilon/math/linalg/meta.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index b0e116d..9b11d19 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -304,6 +304,7 @@ class ReferenceFrame(FrameLike):
                     arr = v.show(dcm=dcm)
                     v.array = arr
             self._array = value
+            self.wrap(value)
         else:
             raise ValueError("Mismatch in data dimensinons!")
 
diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index c0e1077..ed1d341 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -460,6 +460,7 @@ class TensorLike(ArrayWrapper):
         indices = data_indices + tensor_indices[::-1]
         if inplace:
             self._array = np.transpose(self.array, indices)
+            self.wrap(self._array)
             return self
         else:
             f = self.frame
-- 
2.43.0


From 5d9f880cd726ac9358a548ddb58d0422b66416fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:17 +0000
Subject: [PATCH 05/61] fix: a failing in-place frame operation left registered
 tensors detached or half-updated

---
 src/sigmaepsilon/math/linalg/frame.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index 9b11d19..445803f 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -39,11 +39,12 @@ def inplace_binary(
     new_axes = np.zeros_like(axes)
     bop(axes, other, out=(new_axes,))
     if rtype:
-        result = rtype(axes)
+        result = rtype(new_axes)
         tensors = list(obj._weakrefs.values())
+        for t in tensors:
+            t.show(result)  # if this fails, it fails before anything is changed
         for t in tensors:
             t.frame = result
-        result.axes = new_axes
     else:
         obj.axes = new_axes
         result = obj
@@ -300,8 +301,9 @@ class ReferenceFrame(FrameLike):
             if self._weakrefs and len(self._weakrefs) > 0:
                 target = ReferenceFrame(value)
                 dcm = self.dcm(target=target)
-                for v in self._weakrefs.values():
-                    arr = v.show(dcm=dcm)
+                tensors = list(self._weakrefs.values())
+                arrays = [v.show(dcm=dcm) for v in tensors]
+                for v, arr in zip(tensors, arrays):
                     v.array = arr
             self._array = value
             self.wrap(value)
-- 
2.43.0


From abebe06911f3981a332bd3b255408b5daab8fa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:17 +0000
Subject: [PATCH 06/61] fix: item assignment on a frame did not update the
 tensors of the frame

---
 src/sigmaepsilon/math/linalg/frame.py | 5 +++++
 src/sigmaepsilon/math/linalg/meta.py  | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index 445803f..fb4c45a 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -545,6 +545,11 @@ class ReferenceFrame(FrameLike):
     def __ipow__(self, other) -> "ReferenceFrame":
         return inplace_binary(self, other, np.power)
 
+    def __setitem__(self, key, value):
+        axes = np.copy(self.axes)
+        axes[key] = value
+        self.axes = axes
+
     def __array_function__(self, func, types, args, kwargs):
         arrs = [arg._array if isinstance(arg, ArrayWrapper) else arg for arg in args]
         return func(*arrs, **kwargs)
diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index ed1d341..5a285d1 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -164,7 +164,7 @@ class ArrayWrapper(NDArrayOperatorsMixin, Wrapper):
         ~`sigmaepsilon.math.linalg.meta.ArrayWrapper`
             The object the call was made upon.
         """
-        self._array[np.where(np.abs(self._array) < tol)] = 0.0
+        self[np.where(np.abs(self._array) < tol)] = 0.0
         return self
 
     def __array__(self, dtype=None):
-- 
2.43.0


From 6fbb5a971b92acefcf9a32ae57f8f220e4054e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:17 +0000
Subject: [PATCH 07/61] fix: copy.copy of a frame stole its tensors and
 copy.deepcopy returned a bare array

---
 src/sigmaepsilon/math/linalg/frame.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index fb4c45a..7938c96 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -611,6 +611,12 @@ class ReferenceFrame(FrameLike):
             # one return value
             return ReferenceFrame(result)
 
+    def __copy__(self) -> "ReferenceFrame":
+        return self.copy(name=self.name)
+
+    def __deepcopy__(self, memo) -> "ReferenceFrame":
+        return self.deepcopy(name=self.name)
+
     def copy(self, deep: bool = False, name: str = None) -> "ReferenceFrame":
         """
         Returns a shallow or deep copy of this object, depending of the
-- 
2.43.0


From b3ec85c2fa54c71c1f18169a66a24f1717ca4c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:17 +0000
Subject: [PATCH 08/61] fix: rectangular and cartesian frames accepted axes
 violating their class invariant

---
 src/sigmaepsilon/math/linalg/frame.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index 7938c96..30c9541 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -298,6 +298,7 @@ class ReferenceFrame(FrameLike):
         buf = np.array(value, dtype=float, order="C")
         value = self._array_cls_(shape=buf.shape, buffer=buf, dtype=buf.dtype)
         if value.shape == self._array.shape:
+            self._validate_axes(buf)
             if self._weakrefs and len(self._weakrefs) > 0:
                 target = ReferenceFrame(value)
                 dcm = self.dcm(target=target)
@@ -310,6 +311,11 @@ class ReferenceFrame(FrameLike):
         else:
             raise ValueError("Mismatch in data dimensinons!")
 
+    def _validate_axes(self, axes: ndarray) -> None:
+        """
+        Raises an error if the axes are not admissible for the class.
+        """
+
     def show(self, target: "ReferenceFrame" = None) -> ndarray:
         """
         Returns the components of the current frame in a target frame.
@@ -681,6 +687,12 @@ class RectangularFrame(ReferenceFrame):
                 self.axes
             ), "This frame is not rectangular, check your input!"
 
+    def _validate_axes(self, axes: ndarray) -> None:
+        for ax in axes.reshape(-1, *axes.shape[-2:]):
+            assert is_rectangular_frame(
+                ax
+            ), "This frame is not rectangular, check your input!"
+
     @property
     def is_rectangular(self) -> bool:
         """
@@ -777,6 +789,12 @@ class CartesianFrame(RectangularFrame):
                     self.axes
                 ), "This frame is not cartesian, check your input!"
 
+    def _validate_axes(self, axes: ndarray) -> None:
+        for ax in axes.reshape(-1, *axes.shape[-2:]):
+            assert is_orthonormal_frame(
+                ax
+            ), "This frame is not cartesian, check your input!"
+
     @property
     def is_rectangular(self) -> bool:
         """
-- 
2.43.0


From d74fcadab3c9d3566b0416b08203529428bedb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:44 +0000
Subject: [PATCH 09/61] fix: operations on stacks of tensors failed or forgot
 that the result is a stack

---
 src/sigmaepsilon/math/linalg/abstract.py | 10 +++++-----
 src/sigmaepsilon/math/linalg/meta.py     | 10 ++++++++--
 src/sigmaepsilon/math/linalg/tensor.py   |  4 ++--
 src/sigmaepsilon/math/linalg/vector.py   | 12 ++++++------
 4 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/abstract.py b/src/sigmaepsilon/math/linalg/abstract.py
index 5145b9f..042ac30 100644
--- a/src/sigmaepsilon/math/linalg/abstract.py
+++ b/src/sigmaepsilon/math/linalg/abstract.py
@@ -48,7 +48,7 @@ class AbstractTensor(TensorLike):
         if not isinstance(other, numbers.Number):
             raise TypeError("The multiplier must be a scalar.")
         arr = self.array * other
-        return self.__class__(arr, frame=self.frame)
+        return self._new_like(arr, self.frame)
 
     def __imatmul__(self, other) -> TensorLike:
         raise LinalgInvalidTensorOperationError("Use a dot product.")
@@ -73,7 +73,7 @@ class AbstractTensor(TensorLike):
             fcls = cls._frame_cls_
             frame = _new_and_init_(fcls, deepcopy(self.frame.axes))
             arr = self.array + other.show(self.frame)
-            return cls(arr, frame=frame)
+            return self._new_like(arr, frame)
         else:
             raise TypeError(
                 (
@@ -90,7 +90,7 @@ class AbstractTensor(TensorLike):
             fcls = cls._frame_cls_
             frame = _new_and_init_(fcls, deepcopy(self.frame.axes))
             arr = self.array - other.show(self.frame)
-            return cls(arr, frame=frame)
+            return self._new_like(arr, frame)
         else:
             raise TypeError(
                 (
@@ -118,7 +118,7 @@ class AbstractTensor(TensorLike):
         if not isinstance(other, numbers.Number):
             raise TypeError("The multiplier must be a scalar.")
         arr = self.array / other
-        return self.__class__(arr, frame=self.frame)
+        return self._new_like(arr, self.frame)
 
     def __ipow__(self, other) -> TensorLike:
         raise NotImplementedError("This operation is not implemented yet.")
@@ -155,7 +155,7 @@ def negative_implementation(method, *args, **kwargs):
         raise LinalgOperationInputError(msg)
     obj = args[0]
     arr = getattr(np.negative, method)(obj._array, **kwargs)
-    return obj.__class__(arr, frame=obj.frame)
+    return obj._new_like(arr, obj.frame)
 
 
 @implements(np.dot)
diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index 5a285d1..45beac4 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -358,7 +358,13 @@ class TensorLike(ArrayWrapper):
         if is_deep:
             memo[id(self.array)] = arr
 
-        return cls(arr, frame=frame)
+        return self._new_like(arr, frame)
+
+    def _new_like(self, arr: ndarray, frame: FrameLike) -> "TensorLike":
+        """
+        Returns a tensor of the same kind, with new components and frame.
+        """
+        return self.__class__(arr, frame=frame, bulk=self._bulk, rank=self._rank)
 
     @classmethod
     def _from_any_input(cls, *args, **kwargs) -> "TensorLike":
@@ -465,7 +471,7 @@ class TensorLike(ArrayWrapper):
         else:
             f = self.frame
             frame = f.__class__(np.copy(f.axes))
-            return self.__class__(np.transpose(self.array, indices), frame=frame)
+            return self._new_like(np.transpose(self.array, indices), frame)
 
     @abstractmethod
     def show(self) -> Array: ...
diff --git a/src/sigmaepsilon/math/linalg/tensor.py b/src/sigmaepsilon/math/linalg/tensor.py
index 6bc6309..bfcfe78 100644
--- a/src/sigmaepsilon/math/linalg/tensor.py
+++ b/src/sigmaepsilon/math/linalg/tensor.py
@@ -88,7 +88,7 @@ class Tensor(AbstractTensor):
         Returns the tensor described in the dual (or reciprocal) frame.
         """
         a = self.transform_components(self.frame.Gram())
-        return self.__class__(a, frame=self.frame.dual())
+        return self._new_like(a, self.frame.dual())
 
     def transform_components(self, Q: ndarray) -> ndarray:
         """
@@ -169,7 +169,7 @@ class Tensor(AbstractTensor):
         fcls: Frame = self.__class__._frame_cls_
         dcm = fcls.eye(dim=self.frame.shape[-1]).orient_new(*args, **kwargs).dcm()
         array = self.transform_components(dcm.T)
-        return self.__class__(array, frame=self.frame)
+        return self._new_like(array, self.frame)
 
     def copy(self, deep: bool = False, name: str = None) -> "Tensor":
         """
diff --git a/src/sigmaepsilon/math/linalg/vector.py b/src/sigmaepsilon/math/linalg/vector.py
index 7741607..cb2bab5 100644
--- a/src/sigmaepsilon/math/linalg/vector.py
+++ b/src/sigmaepsilon/math/linalg/vector.py
@@ -114,8 +114,8 @@ class Vector(AbstractTensor):
         """
         # NOTE Strictly this should be self.frame.Gram().T @ self.array,
         # but since the Gram matrix is symmetric, it's cheaper like this
-        a = self.frame.Gram() @ self.array
-        return self.__class__(a, frame=self.frame.dual())
+        a = show_vector(self.frame.Gram(), self.array)
+        return self._new_like(a, self.frame.dual())
 
     def show(self, target: Frame = None, *, dcm: ndarray = None) -> ndarray:
         """
@@ -164,7 +164,7 @@ class Vector(AbstractTensor):
         """
         if not isinstance(dcm, ndarray):
             fcls = self.__class__._frame_cls_
-            dcm = fcls.eye(dim=len(self)).orient_new(*args, **kwargs).dcm()
+            dcm = fcls.eye(dim=self.array.shape[-1]).orient_new(*args, **kwargs).dcm()
             # self.array = dcm.T @ self._array
             self.array = show_vector(dcm.T, self.array)
             # self.array = np.linalg.inv(dcm) @ self._array
@@ -192,11 +192,11 @@ class Vector(AbstractTensor):
         :func:`orient`
         """
         fcls = self.__class__._frame_cls_
-        dcm = fcls.eye(dim=len(self)).orient_new(*args, **kwargs).dcm()
-        array = dcm.T @ self._array
+        dcm = fcls.eye(dim=self.array.shape[-1]).orient_new(*args, **kwargs).dcm()
+        array = show_vector(dcm.T, self.array)
         # FIXME check if inversion is necessary or not
         # array = np.linalg.inv(dcm) @ self._array
-        return Vector(array, frame=self.frame)
+        return self._new_like(array, self.frame)
 
     def copy(self, deep: bool = False, name: str = None) -> "Vector":
         """
-- 
2.43.0


From cb2d64cdb827a8178e131df2035f7eb6cf58fe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:44 +0000
Subject: [PATCH 10/61] fix: copies of vectors and tensors lost their frame

---
 src/sigmaepsilon/math/linalg/tensor.py | 7 ++-----
 src/sigmaepsilon/math/linalg/vector.py | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/tensor.py b/src/sigmaepsilon/math/linalg/tensor.py
index bfcfe78..3d84e59 100644
--- a/src/sigmaepsilon/math/linalg/tensor.py
+++ b/src/sigmaepsilon/math/linalg/tensor.py
@@ -1,4 +1,4 @@
-from copy import deepcopy as dcopy
+from copy import copy as scopy, deepcopy as dcopy
 
 import numpy as np
 from numpy import ndarray
@@ -176,10 +176,7 @@ class Tensor(AbstractTensor):
         Returns a shallow or deep copy of this object, depending of the
         argument `deepcopy` (default is False).
         """
-        if deep:
-            return self.__class__(dcopy(self.array), name=name)
-        else:
-            return self.__class__(self.array, name=name)
+        return dcopy(self) if deep else scopy(self)
 
     def deepcopy(self, name: str = None) -> "Tensor":
         """
diff --git a/src/sigmaepsilon/math/linalg/vector.py b/src/sigmaepsilon/math/linalg/vector.py
index cb2bab5..71e3074 100644
--- a/src/sigmaepsilon/math/linalg/vector.py
+++ b/src/sigmaepsilon/math/linalg/vector.py
@@ -1,4 +1,4 @@
-from copy import deepcopy as dcopy
+from copy import copy as scopy, deepcopy as dcopy
 
 from numpy import ndarray
 import numbers
@@ -203,10 +203,7 @@ class Vector(AbstractTensor):
         Returns a shallow or deep copy of this object, depending of the
         argument `deepcopy` (default is False).
         """
-        if deep:
-            return self.__class__(dcopy(self.array), name=name)
-        else:
-            return self.__class__(self.array, name=name)
+        return dcopy(self) if deep else scopy(self)
 
     def deepcopy(self, name: str = None) -> "Vector":
         """
-- 
2.43.0


From 0d2ff31946c32e12b536e2f89c906f0c55ff96d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:18 +0000
Subject: [PATCH 11/61] fix: fourth-order tensors of dimension other than 3
 were transformed reading out of bounds

---
 src/sigmaepsilon/math/linalg/tensor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/tensor.py b/src/sigmaepsilon/math/linalg/tensor.py
index 3d84e59..05bb2ec 100644
--- a/src/sigmaepsilon/math/linalg/tensor.py
+++ b/src/sigmaepsilon/math/linalg/tensor.py
@@ -274,6 +274,12 @@ class Tensor4(Tensor):
         Returns the components of the transformed numerical tensor, based on
         the provided direction cosine matrix.
         """
+        if self._array.shape[-1] != 3:
+            arr = self._array
+            if len(dcm.shape) == 3:  # one matrix per leading item
+                dcm = dcm.reshape(len(dcm), *(len(arr.shape) - 5) * (1,), *dcm.shape[1:])
+            command = "...ai,...bj,...ck,...dl,...ijkl->...abcd"
+            return np.einsum(command, *4 * (dcm,), arr, optimize="greedy")
         return _tr_tensors4x3(self._array, dcm)
 
 
-- 
2.43.0


From c85565e7858df3b456cab855d264c558859f0e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:18 +0000
Subject: [PATCH 12/61] fix: stacks of fourth-order tensors with several
 leading axes could not be used in a single frame

---
 src/sigmaepsilon/math/linalg/tr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/tr.py b/src/sigmaepsilon/math/linalg/tr.py
index aae5901..6b66d35 100644
--- a/src/sigmaepsilon/math/linalg/tr.py
+++ b/src/sigmaepsilon/math/linalg/tr.py
@@ -87,6 +87,9 @@ def _tr_tensors4x3(arr: ndarray, Q: ndarray) -> ndarray:
         return _tr_3333(arr, Q)
     elif n_shape_arr == 5 and n_shape_Q == 2:
         return _tr_3333_multi3(arr, Q)
+    elif n_shape_arr > 5 and n_shape_Q == 2:
+        res = _tr_3333_multi3(arr.reshape(-1, *shape_arr[-4:]), Q)
+        return res.reshape(shape_arr)
     elif n_shape_arr == 5 and n_shape_Q == 3:
         return _tr_3333_multi(arr, Q)
     elif n_shape_arr == 6 and n_shape_Q == 3:
-- 
2.43.0


From 386c5ee235afce7d062cc2477001ddc1dd12adf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:18 +0000
Subject: [PATCH 13/61] fix: dot product of a vector and a second-order tensor
 ignored the metric and the index order

---
 src/sigmaepsilon/math/linalg/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 6d0f17e..00150f1 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -220,8 +220,8 @@ def dot(
             arr = (a.array @ b.show(a.frame.dual()).T).T
             result = b.__class__(arr, frame=a.frame)
         elif ra == 1 and rb == 2:
-            arr = (a.array.T @ b.show(a.frame.dual()).T).T
-            result = a.__class__(arr, frame=a.frame)
+            arr = a.show(b.frame.dual()) @ b.array
+            result = a.__class__(arr, frame=b.frame)
         elif ra == 2 and rb == 2:
             g = a.frame.Gram()
             result = a.__class__(a.array @ g @ b.show(a.frame), frame=a.frame)
-- 
2.43.0


From 97d08520c3acfe947479de67f44c4512d4b59c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:18 +0000
Subject: [PATCH 14/61] fix: contraction of a vector with a higher-order tensor
 was not possible in this order

---
 src/sigmaepsilon/math/linalg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 00150f1..3ea6022 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -237,7 +237,7 @@ def dot(
             ib[ax_b] = ic
             command = "..." + "".join(ia) + "," + "..." + "".join(ib)
             arr = np.einsum(command, a.show(), b.show(), optimize="greedy")
-            result = a.__class__._from_any_input(arr)
+            result = (b if ra == 1 else a).__class__._from_any_input(arr)
         if frame:
             result.frame = frame
         return result
-- 
2.43.0


From 5b94b7b1247e0af82bb8520f636180b34e6cfcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:18 +0000
Subject: [PATCH 15/61] fix: cross product of vectors was wrong in
 non-orthonormal frames

---
 src/sigmaepsilon/math/linalg/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 3ea6022..783a034 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -315,8 +315,8 @@ def cross(
         ra, rb = a.rank, b.rank
         result = None
         if ra == 1 and rb == 1:
-            arr = np.cross(a.array, b.show(a.frame), axis=0)
-            result = a.__class__(arr, frame=a.frame)
+            result = a.__class__(np.cross(a.show(), b.show()))
+            result.frame = a.frame
         elif ra == 2 and rb == 1:
             arr = np.cross(a.show(), b.show(), axis=0)
             result = a.__class__(arr)
-- 
2.43.0


From f03b5ad0ae45af0468bcd475814bc00c51379152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:18 +0000
Subject: [PATCH 16/61] fix: the signed volume of left-handed frames was
 positive

---
 src/sigmaepsilon/math/linalg/frame.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index 30c9541..020f576 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -251,7 +251,7 @@ class ReferenceFrame(FrameLike):
         Returns the signed volume of the general parallelepiped described by the
         base vectors that make up the frame.
         """
-        return np.sqrt(np.linalg.det(self.Gram()))
+        return np.linalg.det(self.show())
 
     def dual(self) -> "ReferenceFrame":
         """
@@ -820,7 +820,7 @@ class CartesianFrame(RectangularFrame):
         Returns the signed volume of the general parallelepiped described by the
         base vectors that make up the frame.
         """
-        return 1.0
+        return np.sign(np.linalg.det(self.axes))
 
     def dual(self) -> ReferenceFrame:
         """
-- 
2.43.0


From 8a12504bb8b02b54d4b783cbc99c3098919f33b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:18 +0000
Subject: [PATCH 17/61] fix: det2x2/det3x3 never wrote their result and
 permutation_tensor truncated determinants

---
 src/sigmaepsilon/math/linalg/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 783a034..2ac0670 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -133,7 +133,7 @@ def permutation_tensor(dim: int = 3) -> ndarray:
         mat[:, :] = 0
         for i, j in zip(range(dim), x):
             mat[i, j] = 1
-        arr[x] = int(np.linalg.det(mat))
+        arr[x] = round(np.linalg.det(mat))
     return arr
 
 
@@ -701,9 +701,9 @@ def ATBAw(A: ndarray, B: ndarray, w: float = 1.0) -> ndarray:
     return w * (A.T @ B @ A)
 
 
-@guv(["(f8[:, :], f8)"], "(n, n) -> ()", nopython=True, cache=__cache)
+@guv(["(f8[:, :], f8[:])"], "(n, n) -> ()", nopython=True, cache=__cache)
 def det3x3(A, res):
-    res = (
+    res[0] = (
         A[0, 0] * A[1, 1] * A[2, 2]
         - A[0, 0] * A[1, 2] * A[2, 1]
         - A[0, 1] * A[1, 0] * A[2, 2]
@@ -713,9 +713,9 @@ def det3x3(A, res):
     )
 
 
-@guv(["(f8[:, :], f8)"], "(n, n) -> ()", nopython=True, cache=__cache)
+@guv(["(f8[:, :], f8[:])"], "(n, n) -> ()", nopython=True, cache=__cache)
 def det2x2(A, res):
-    res = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
+    res[0] = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
 
 
 @njit(nogil=True, cache=__cache)
-- 
2.43.0


From 58858d20a068dec16f0e8a16af8eb5ca9671dbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:36 +0000
Subject: [PATCH 18/61] fix: the components of a frame in a general target
 frame were those of the dual frame

---
 src/sigmaepsilon/math/linalg/frame.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index 020f576..0f1a18c 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -325,7 +325,9 @@ class ReferenceFrame(FrameLike):
         -------
         numpy.ndarray
         """
-        return self.dcm(source=target)
+        if target is None:
+            return self.dcm()
+        return transpose_axes(self.dcm(target=target))
 
     def dcm(
         self, *, target: "ReferenceFrame" = None, source: "ReferenceFrame" = None
-- 
2.43.0


From 389d0dea9348de68c8fa9f31c1a95bb49d604c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:30 +0000
Subject: [PATCH 19/61] fix: a single pair of parents was never paired,
 populations of four could not be created

---
 src/sigmaepsilon/math/optimize/ga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/optimize/ga.py b/src/sigmaepsilon/math/optimize/ga.py
index e58f7eb..1297db9 100644
--- a/src/sigmaepsilon/math/optimize/ga.py
+++ b/src/sigmaepsilon/math/optimize/ga.py
@@ -597,13 +597,13 @@ class GeneticAlgorithm:
         assert n % 2 == 0, "'n' must be a multiple of 2"
         pool = np.full(n, True)
         nPool = n
-        while nPool > 2:
+        while nPool >= 2:
             where = np.argwhere(pool == True).flatten()
-            nPool = len(where)
             pair = np.random.choice(where, 2, replace=False)
             parent1 = genotypes[pair[0]]
             parent2 = genotypes[pair[1]]
             pool[pair] = False
+            nPool -= 2
             yield parent1, parent2
 
     @abstractmethod
-- 
2.43.0


From f0fe3c358f9c20b9998872f2bd416c8dd97283f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:30 +0000
Subject: [PATCH 20/61] fix: evolution failed for valid elitism settings (None,
 1.0 and odd elites of more than half of the population)

---
 src/sigmaepsilon/math/optimize/bga.py | 7 ++++---
 src/sigmaepsilon/math/optimize/ga.py  | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sigmaepsilon/math/optimize/bga.py b/src/sigmaepsilon/math/optimize/bga.py
index 10b5fe6..aecdeaa 100644
--- a/src/sigmaepsilon/math/optimize/bga.py
+++ b/src/sigmaepsilon/math/optimize/bga.py
@@ -185,9 +185,10 @@ class BinaryGeneticAlgorithm(GeneticAlgorithm):
                 "but only the default case (both None) is currently supported."
             )
         winners, others = self.divide(fitness)
-        winners = winners.tolist()
-        while len(winners) < int(self.nPop / 2):
-            candidates = np.random.choice(others, 3, replace=False)
+        winners = list(winners)
+        # the winners are going to be paired, hence their number has to be even
+        while len(winners) < int(self.nPop / 2) or len(winners) % 2 != 0:
+            candidates = np.random.choice(others, min(3, len(others)), replace=False)
             argsort = np.argsort([fitness[ID] for ID in candidates])
             winner = argsort[0] if self._minimize else argsort[-1]
             winners.append(candidates[winner])
diff --git a/src/sigmaepsilon/math/optimize/ga.py b/src/sigmaepsilon/math/optimize/ga.py
index 1297db9..988ad32 100644
--- a/src/sigmaepsilon/math/optimize/ga.py
+++ b/src/sigmaepsilon/math/optimize/ga.py
@@ -568,8 +568,8 @@ class GeneticAlgorithm:
             elit = argsort[: int(self.nPop * self.elitism)]
             others = argsort[int(self.nPop * self.elitism) :]
         else:
-            elit = argsort[: self.elitism]
-            others = argsort[self.elitism :]
+            elit = argsort[: int(self.elitism)]
+            others = argsort[int(self.elitism) :]
 
         return elit, others
 
-- 
2.43.0


From c99eae52ab9caf83e0e47d2511d17c8857a1038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:30 +0000
Subject: [PATCH 21/61] fix: crossover failed for chromosomes of one or two
 genes and never cut before the last gene

---
 src/sigmaepsilon/math/optimize/bga.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/sigmaepsilon/math/optimize/bga.py b/src/sigmaepsilon/math/optimize/bga.py
index aecdeaa..10f7f3c 100644
--- a/src/sigmaepsilon/math/optimize/bga.py
+++ b/src/sigmaepsilon/math/optimize/bga.py
@@ -133,15 +133,17 @@ class BinaryGeneticAlgorithm(GeneticAlgorithm):
         Performs crossover on the parents `parent1` and `parent2`,
         using an `nCut` number of cuts and returns two childs.
         """
-        if np.random.rand() > self.p_c:  # pragma: no cover
+        if np.random.rand() >= self.p_c:  # pragma: no cover
             return parent1, parent2
 
+        nGene = self.dim * self.length
+
         if nCut is None:
-            nCut = np.random.randint(1, self.dim * self.length - 1)
+            nCut = np.random.randint(1, nGene) if nGene > 1 else 0
 
-        cuts = [0, self.dim * self.length]
-        p = np.random.choice(range(1, self.length * self.dim - 1), nCut, replace=False)
-        cuts.extend(p)
+        cuts = [0, nGene]
+        if nCut > 0:
+            cuts.extend(np.random.choice(range(1, nGene), nCut, replace=False))
         cuts = np.sort(cuts)
 
         child1 = np.zeros(self.dim * self.length, dtype=int)
@@ -163,7 +165,7 @@ class BinaryGeneticAlgorithm(GeneticAlgorithm):
         Returns a mutated genotype. Children come in, mutants go out.
         """
         p = np.random.rand(self.dim * self.length)
-        return np.where(p > self.p_m, child, 1 - child)
+        return np.where(p >= self.p_m, child, 1 - child)
 
     def select(
         self, genotypes: ndarray | None = None, phenotypes: ndarray | None = None
-- 
2.43.0


From 447ea427ce36c53b6a1a34b6094b815f4a626184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:58 +0000
Subject: [PATCH 22/61] fix: a generation whose evaluation failed was skipped
 by the champion and a second failure made the solver unusable

---
 src/sigmaepsilon/math/optimize/ga.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/optimize/ga.py b/src/sigmaepsilon/math/optimize/ga.py
index 988ad32..b08d1ba 100644
--- a/src/sigmaepsilon/math/optimize/ga.py
+++ b/src/sigmaepsilon/math/optimize/ga.py
@@ -3,6 +3,7 @@ from typing import Iterable, Callable, Tuple, Generator
 from types import NoneType
 from numbers import Number
 import operator
+from itertools import chain
 from enum import Enum, unique
 
 import numpy as np
@@ -395,8 +396,13 @@ class GeneticAlgorithm:
         genotypes.
         """
         for _ in range(cycles):
-            next(self._evolver)
-            candidate: Genom = self.best_candidate()
+            genotypes = next(self._evolver)
+            try:
+                candidate: Genom = self.best_candidate()
+            except Exception:
+                # the generation could not be evaluated, it is still the next one
+                self._evolver = chain([genotypes], self._evolver)
+                raise
             self._celebrate(candidate)
         return self.genotypes
 
-- 
2.43.0


From 6ec922c85c1fe2f3e88e6e52f0555243fbe3ef98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:58 +0000
Subject: [PATCH 23/61] fix: a successful recycled run reported the error
 message of an earlier run

---
 src/sigmaepsilon/math/optimize/ga.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sigmaepsilon/math/optimize/ga.py b/src/sigmaepsilon/math/optimize/ga.py
index b08d1ba..1f8c351 100644
--- a/src/sigmaepsilon/math/optimize/ga.py
+++ b/src/sigmaepsilon/math/optimize/ga.py
@@ -435,6 +435,7 @@ class GeneticAlgorithm:
 
         finished = False
         self._status = GeneticAlgorithm.Status.INITIALIZED
+        self._state.message = ""
 
         try:
             while not finished:
-- 
2.43.0


From e3a3b5524fac0b13dc31bf80f6dc0a8860a748c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:58 +0000
Subject: [PATCH 24/61] fix: rejected settings of a genetic algorithm were left
 in effect

---
 src/sigmaepsilon/math/optimize/ga.py | 31 +++++++++++++++-------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/sigmaepsilon/math/optimize/ga.py b/src/sigmaepsilon/math/optimize/ga.py
index 1f8c351..254495d 100644
--- a/src/sigmaepsilon/math/optimize/ga.py
+++ b/src/sigmaepsilon/math/optimize/ga.py
@@ -345,6 +345,23 @@ class GeneticAlgorithm:
         minimize: bool, Optional
             If True, the objective function is minimized. Default is False.
         """
+        elitism = kwargs.get("elitism", self.elitism)
+        if isinstance(elitism, (int, float)):
+            if elitism <= 0:
+                raise ValueError("'elitism' must be greater than 0")
+
+            if elitism > 1:
+                if not isinstance(elitism, int):
+                    raise ValueError("'elitism' must be an integer if greater than 1")
+
+                if elitism >= self.nPop:
+                    raise ValueError("'elitism' must be less than 'nPop'")
+
+        miniter = kwargs["miniter"] if "miniter" in kwargs else self.miniter
+        maxiter = kwargs["maxiter"] if "maxiter" in kwargs else self.maxiter
+        if miniter > maxiter:
+            raise ValueError("'maxiter' must be greater than 'miniter'")
+
         if "p_c" in kwargs:
             self.p_c = kwargs["p_c"]
         if "p_m" in kwargs:
@@ -360,20 +377,6 @@ class GeneticAlgorithm:
         if "minimize" in kwargs:
             self._minimize = kwargs["minimize"]
 
-        if isinstance(self.elitism, (int, float)):
-            if self.elitism <= 0:
-                raise ValueError("'elitism' must be greater than 0")
-
-            if self.elitism > 1:
-                if not isinstance(self.elitism, int):
-                    raise ValueError("'elitism' must be an integer if greater than 1")
-
-                if self.elitism >= self.nPop:
-                    raise ValueError("'elitism' must be less than 'nPop'")
-
-        if self.miniter > self.maxiter:
-            raise ValueError("'maxiter' must be greater than 'miniter'")
-
         self._celebrate_op = operator.lt if self._minimize else operator.gt
 
         return self
-- 
2.43.0


From c9bb0e2e00ced30cc48cbc43e15fe9c2090967b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:48 +0000
Subject: [PATCH 25/61] fix: derivatives of a symbolic function vanished if its
 variables were given by name and had assumptions

---
 src/sigmaepsilon/math/function/symutils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sigmaepsilon/math/function/symutils.py b/src/sigmaepsilon/math/function/symutils.py
index 190ed39..4be107f 100644
--- a/src/sigmaepsilon/math/function/symutils.py
+++ b/src/sigmaepsilon/math/function/symutils.py
@@ -39,6 +39,11 @@ def decode(
             variables = list(symbols(variables))
 
         expr = substitute(expr, variables, variables, as_string=True)
+        # symbols are identified by their names, regardless of their assumptions
+        by_name = {str(v): v for v in variables}
+        expr = expr.subs(
+            [(v, by_name[str(v)]) for v in expr.free_symbols if str(v) in by_name]
+        )
 
     return expr, variables
 
-- 
2.43.0


From af599c5ccf01379ade4dafb3fc9772b820dca93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:48 +0000
Subject: [PATCH 26/61] fix: substitution into a symbolic function returned a
 function of the substituted variables

---
 src/sigmaepsilon/math/function/function.py | 22 +++++++++++++++++++---
 src/sigmaepsilon/math/function/symutils.py |  5 +++--
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/sigmaepsilon/math/function/function.py b/src/sigmaepsilon/math/function/function.py
index 0feb7e2..d37bdf5 100644
--- a/src/sigmaepsilon/math/function/function.py
+++ b/src/sigmaepsilon/math/function/function.py
@@ -2,7 +2,7 @@ from typing import TypeVar, Callable, Iterable
 from collections import OrderedDict
 import warnings
 
-from sympy import Expr, degree, latex
+from sympy import Expr, degree, latex, symbols
 from sympy.core.numbers import One
 import numpy as np
 
@@ -356,8 +356,24 @@ class Function(MetaFunction):
         if not self.is_symbolic:
             raise TypeError("This is exclusive to symbolic functions.")
 
-        expr = substitute(self.expr, values, variables, as_string=self.from_str)
-        kwargs = self._sympy_to_func(expr=expr, variables=variables)
+        by_name = {str(v): v for v in self.variables}
+        if variables is None:
+            variables = self.variables
+        elif isinstance(variables, str):
+            variables = symbols(variables, seq=True)
+        variables = [by_name.get(str(v), v) for v in variables]
+
+        expr = substitute(self.expr, values, variables)
+
+        # the remaining variables in their original order and the ones introduced
+        remaining = [
+            v for v in self.variables if v not in variables or expr.has_free(v)
+        ]
+        remaining += sorted(expr.free_symbols.difference(self.variables), key=str)
+        if len(remaining) == 0:
+            remaining = list(self.variables)
+
+        kwargs = self._sympy_to_func(expr=expr, variables=remaining)
 
         if not inplace:
             return Function(None, None, None, **kwargs)
diff --git a/src/sigmaepsilon/math/function/symutils.py b/src/sigmaepsilon/math/function/symutils.py
index 4be107f..6ca3c27 100644
--- a/src/sigmaepsilon/math/function/symutils.py
+++ b/src/sigmaepsilon/math/function/symutils.py
@@ -97,9 +97,10 @@ def substitute(
         variables = tuple(expr.free_symbols)
 
     if not as_string:
-        return expr.subs([(v, val) for v, val in zip(variables, values)])
+        pairs = [(v, val) for v, val in zip(variables, values)]
     else:
-        return expr.subs([(str(v), val) for v, val in zip(variables, values)])
+        pairs = [(str(v), val) for v, val in zip(variables, values)]
+    return expr.subs(pairs, simultaneous=True)
 
 
 def coefficients(
-- 
2.43.0


From 9744b2d191dcc9b0f475d50d4a00f4fb6acaa242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:06 +0000
Subject: [PATCH 27/61] fix: coefficients of a symbolic function were missed in
 products, with irrational factors and in constant terms

---
 src/sigmaepsilon/math/function/function.py | 17 ++---------------
 src/sigmaepsilon/math/function/symutils.py | 14 ++++++--------
 2 files changed, 8 insertions(+), 23 deletions(-)

diff --git a/src/sigmaepsilon/math/function/function.py b/src/sigmaepsilon/math/function/function.py
index d37bdf5..2c4fbeb 100644
--- a/src/sigmaepsilon/math/function/function.py
+++ b/src/sigmaepsilon/math/function/function.py
@@ -3,13 +3,12 @@ from collections import OrderedDict
 import warnings
 
 from sympy import Expr, degree, latex, symbols
-from sympy.core.numbers import One
 import numpy as np
 
 from sigmaepsilon.core.kwargtools import getasany
 
 from .metafunction import MetaFunction
-from .symutils import substitute
+from .symutils import substitute, coefficients
 
 
 __all__ = ["Function", "FunctionLike"]
@@ -305,19 +304,7 @@ class Function(MetaFunction):
             raise TypeError("This is exclusive to symbolic functions.")
 
         try:
-            d = OrderedDict({x: 0 for x in self.variables})
-            expr = self.expr.simplify()
-            d.update(expr.as_coefficients_dict())
-            if not normalize:
-                return d
-            else:
-                res = OrderedDict()
-                for key, value in d.items():
-                    if len(key.free_symbols) == 0:
-                        res[One()] = value * key
-                    else:
-                        res[key] = value
-                return res
+            return OrderedDict(coefficients(self.expr, self.variables, normalize))
         except Exception:  # pragma: no cover
             return None
 
diff --git a/src/sigmaepsilon/math/function/symutils.py b/src/sigmaepsilon/math/function/symutils.py
index 6ca3c27..bbde314 100644
--- a/src/sigmaepsilon/math/function/symutils.py
+++ b/src/sigmaepsilon/math/function/symutils.py
@@ -1,6 +1,5 @@
 from sympy.parsing.sympy_parser import parse_expr
 from sympy import lambdify, derive_by_array, symbols, Expr, Symbol
-from sympy.core.numbers import One
 from typing import Iterable
 import sympy as sy
 
@@ -141,15 +140,14 @@ def coefficients(
         variables = tuple(expr.free_symbols)
 
     d = dict({x: 0 for x in variables})
-    d.update(expr.as_coefficients_dict())
+    expr = expr.expand()
 
     if not normalize:
+        d.update(expr.as_coefficients_dict())
         return d
     else:
-        res = dict()
-        for key, value in d.items():
-            if len(key.free_symbols) == 0:
-                res[One()] = value * key
-            else:
-                res[key] = value
+        res = d
+        for term in expr.as_ordered_terms():
+            value, key = term.as_independent(*variables, as_Add=False)
+            res[key] = res.get(key, 0) + value
         return res
-- 
2.43.0


From 59f2ad1b20568831aa7f17791a9ea7cd24958ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:06 +0000
Subject: [PATCH 28/61] fix: linearity of non-polynomial and zero symbolic
 functions could not be queried

---
 src/sigmaepsilon/math/function/function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/function/function.py b/src/sigmaepsilon/math/function/function.py
index 2c4fbeb..a7b5af7 100644
--- a/src/sigmaepsilon/math/function/function.py
+++ b/src/sigmaepsilon/math/function/function.py
@@ -3,7 +3,6 @@ from collections import OrderedDict
 import warnings
 
 from sympy import Expr, degree, latex, symbols
-import numpy as np
 
 from sigmaepsilon.core.kwargtools import getasany
 
@@ -234,7 +233,8 @@ class Function(MetaFunction):
         """
         if self.is_symbolic:
             return all(
-                np.array([degree(self.expr, v) for v in self.variables], dtype=int) <= 1
+                self.expr.is_polynomial(v) and bool(degree(self.expr, v) <= 1)
+                for v in self.variables
             )
         else:
             return self.f2 is None
-- 
2.43.0


From 18c99b9947e26c0f9282f46115e99305038c5340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:34 +0000
Subject: [PATCH 29/61] fix: a constant symbolic function returned a single
 value for an array of points

---
 src/sigmaepsilon/math/function/symutils.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/function/symutils.py b/src/sigmaepsilon/math/function/symutils.py
index bbde314..0e59cea 100644
--- a/src/sigmaepsilon/math/function/symutils.py
+++ b/src/sigmaepsilon/math/function/symutils.py
@@ -1,7 +1,8 @@
 from sympy.parsing.sympy_parser import parse_expr
 from sympy import lambdify, derive_by_array, symbols, Expr, Symbol
-from typing import Iterable
+from typing import Callable, Iterable
 import sympy as sy
+import numpy as np
 
 
 def generate_symbols(
@@ -47,11 +48,26 @@ def decode(
     return expr, variables
 
 
+def _constant(f0: Callable) -> Callable:
+    """
+    Wraps a constant function such that it returns a value for each of the points if it
+    is called with arrays of coordinates.
+    """
+
+    def value(x):
+        shape = np.broadcast_shapes(*[np.shape(xi) for xi in x])
+        return np.full(shape, f0(x)) if len(shape) > 0 else f0(x)
+
+    return value
+
+
 def symbolize(*args, simplify: bool = True, **kwargs) -> dict:
     expr, variables = decode(*args, **kwargs)
     if simplify:
         expr = expr.simplify()
     f0 = lambdify([variables], expr, "numpy")
+    if not expr.free_symbols:
+        f0 = _constant(f0)
     g = derive_by_array(expr, variables)
     f1 = lambdify([variables], g, "numpy")
     G = derive_by_array(g, variables)
-- 
2.43.0


From 262359eea609cac8d0b8f68aa47b03dcd9e3a1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:34 +0000
Subject: [PATCH 30/61] fix: the order of the variables of the test functions
 was random

---
 src/sigmaepsilon/math/function/functions.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/sigmaepsilon/math/function/functions.py b/src/sigmaepsilon/math/function/functions.py
index e392f48..0c89ee1 100644
--- a/src/sigmaepsilon/math/function/functions.py
+++ b/src/sigmaepsilon/math/function/functions.py
@@ -21,11 +21,13 @@ def Rosenbrock(a: float = 1, b: float = 100) -> TestMinFunction2D:
 
     a,b are constants, tipically a is set to 1 and  b is set to 100.
 
-    One global minimum : f(1, 1) = 0.
+    One global minimum : f(a, a^2) = 0.
     """
     str_expr = "(a-x)**2 + b*(y-x**2)**2"
     expr = substitute(sy.sympify(str_expr), [a, b], ["a", "b"])
-    return TestMinFunction2D(**symbolize(expr=expr), optimums=[(1.0, 1.0)])
+    return TestMinFunction2D(
+        **symbolize(expr=expr, variables=["x", "y"]), optimums=[(a, a**2)]
+    )
 
 
 def Himmelblau() -> TestMinFunction2D:
@@ -39,7 +41,7 @@ def Himmelblau() -> TestMinFunction2D:
     """
     str_expr = "(x**2 + y - 11)**2 + (x + y**2 - 7)**2"
     return TestMinFunction2D(
-        **symbolize(str_expr=str_expr),
+        **symbolize(str_expr=str_expr, variables=["x", "y"]),
         optimums=[
             (3.0, 2.0),
             (-2.805118, 3.131312),
@@ -68,7 +70,9 @@ def GoldsteinPrice() -> TestMinFunction2D:
         "(1+(x+y+1)**2 * (19-14*x+3*x**2-14*y+6*x*y+3*y**2))"
         "*(30+(2*x-3*y)**2 * (18-32*x+12*x**2+48*y-36*x*y+27*y**2))"
     )
-    return TestMinFunction2D(**symbolize(str_expr=str_expr), optimums=[(0.0, -1.0)])
+    return TestMinFunction2D(
+        **symbolize(str_expr=str_expr, variables=["x", "y"]), optimums=[(0.0, -1.0)]
+    )
 
 
 def Beale() -> TestMinFunction2D:
@@ -89,7 +93,9 @@ def Beale() -> TestMinFunction2D:
     str_expr = (
         "(1.5 - x + x*y)**2 + (2.25 - x + x*y**2)**2 " "+ (2.625 - x + x*y**3)**2"
     )
-    return TestMinFunction2D(**symbolize(str_expr=str_expr), optimums=[(3.0, 0.5)])
+    return TestMinFunction2D(
+        **symbolize(str_expr=str_expr, variables=["x", "y"]), optimums=[(3.0, 0.5)]
+    )
 
 
 def Matyas() -> TestMinFunction2D:
@@ -101,7 +107,9 @@ def Matyas() -> TestMinFunction2D:
     One global minimum : f(0., 0.) = 0.
     """
     str_expr = "0.26*(x**2 + y**2) - 0.48*x*y"
-    return TestMinFunction2D(**symbolize(str_expr=str_expr), optimums=[(0.0, 0.0)])
+    return TestMinFunction2D(
+        **symbolize(str_expr=str_expr, variables=["x", "y"]), optimums=[(0.0, 0.0)]
+    )
 
 
 if __name__ == "__main__":
-- 
2.43.0


From b7bfc9f1e2c9ffaa5e01446af87f604e8053c359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:34 +0000
Subject: [PATCH 31/61] fix: relations with an invalid operator were accepted

---
 src/sigmaepsilon/math/function/relation.py | 3 +++
 src/sigmaepsilon/math/function/utils.py    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/sigmaepsilon/math/function/relation.py b/src/sigmaepsilon/math/function/relation.py
index 53e5051..67c66f7 100644
--- a/src/sigmaepsilon/math/function/relation.py
+++ b/src/sigmaepsilon/math/function/relation.py
@@ -125,6 +125,9 @@ class Relation(Function):
         return instance
 
     def __init__(self, *args, op_str: str | None = None, **kwargs):
+        if op_str is not None and op_str not in valid_operators:
+            raise ValueError(f"Invalid operator: {op_str}")
+
         self.op = None
         self.opfunc = None
         self.slack = 0
diff --git a/src/sigmaepsilon/math/function/utils.py b/src/sigmaepsilon/math/function/utils.py
index 00912b1..b74e53f 100644
--- a/src/sigmaepsilon/math/function/utils.py
+++ b/src/sigmaepsilon/math/function/utils.py
@@ -15,6 +15,9 @@ def parse_expression(expression: str) -> tuple[str, str, str]:
     ('x', '<=', '2')
 
     """
+    if "!=" in expression:
+        raise ValueError(f"Invalid expression: '{expression}'")
+
     # Regular expression to match the pattern (left side, operator, right side)
     pattern = r"(.+?)\s*(<=|>=|<|>|=)\s*(.+)"
 
-- 
2.43.0


From e8090ee6630e7b99250d35eb9ca17ade2041c2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:34 +0000
Subject: [PATCH 32/61] fix: linear programs failed or reported a wrong
 objective if their functions had other variables or another order of
 variables

---
 src/sigmaepsilon/math/optimize/lp.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/sigmaepsilon/math/optimize/lp.py b/src/sigmaepsilon/math/optimize/lp.py
index a40c1f6..9de0a77 100644
--- a/src/sigmaepsilon/math/optimize/lp.py
+++ b/src/sigmaepsilon/math/optimize/lp.py
@@ -2,7 +2,7 @@ from typing import Iterable, Sequence
 
 import numpy as np
 from numpy import ndarray
-from sympy import Symbol
+from sympy import S, Symbol
 from scipy.optimize import linprog, OptimizeResult
 from scipy import sparse
 
@@ -176,6 +176,10 @@ class LinearProgrammingProblem:
             if not all([v in _variables for v in variables]):
                 raise ValueError("Inconsistent variables provided!")
 
+            for fnc in [self.obj, *self.constraints]:
+                if not fnc.expr.free_symbols.issubset(variables):
+                    raise ValueError("Inconsistent variables provided!")
+
             self._variables = variables
 
     @property
@@ -195,13 +199,12 @@ class LinearProgrammingProblem:
         n_x = len(self.variables)
 
         coeffs = self.obj.linear_coefficients(normalize=True)
-        c = np.array([coeffs[x_] for x_ in self.variables]).astype(float)
+        c = np.array([coeffs.get(x_, 0) for x_ in self.variables]).astype(float)
         if maximize:
             c *= -1
 
         A_ub, b_ub, A_eq, b_eq = 4 * [None]
 
-        x_zero = np.zeros((n_x,))
         SMALLNUM = np.nextafter(0, 1)
 
         if n_eq > 0:
@@ -220,15 +223,15 @@ class LinearProgrammingProblem:
                 coeffs = eq.linear_coefficients(normalize=True)
                 if self._sparsify:
                     for j, x_ in enumerate(self.variables):
-                        val = coeffs[x_]
+                        val = coeffs.get(x_, 0)
                         if val != 0:
                             A_eq_data.append(val)
                             A_eq_rows.append(i)
                             A_eq_cols.append(j)
                 else:
-                    A_eq[i] = [coeffs[x_] for x_ in self.variables]
+                    A_eq[i] = [coeffs.get(x_, 0) for x_ in self.variables]
 
-                b_eq[i] = -eq(x_zero)
+                b_eq[i] = -coeffs.get(S.One, 0)
 
             if self._sparsify:
                 A_eq = sparse.csr_matrix(
@@ -266,15 +269,15 @@ class LinearProgrammingProblem:
 
                 if self._sparsify:
                     for j, x_ in enumerate(self.variables):
-                        val = coeffs[x_] * A_ub_multiplier
+                        val = coeffs.get(x_, 0) * A_ub_multiplier
                         if val != 0:
                             A_ub_data.append(val)
                             A_ub_rows.append(i)
                             A_ub_cols.append(j)
                 else:
-                    A_ub[i] = [coeffs[x_] * A_ub_multiplier for x_ in self.variables]
+                    A_ub[i] = [coeffs.get(x_, 0) * A_ub_multiplier for x_ in self.variables]
 
-                b_ub[i] = -ieq(x_zero) * b_ub_multiplier + b_ub_adjustment
+                b_ub[i] = -coeffs.get(S.One, 0) * b_ub_multiplier + b_ub_adjustment
 
             if self._sparsify:
                 A_ub = sparse.csr_matrix(
@@ -326,5 +329,7 @@ class LinearProgrammingProblem:
         _kwargs["method"] = method
         res = linprog(c, **_kwargs)
         if res.success:
-            res.fun = self.obj(res.x)
+            fun = float(np.dot(c, res.x))
+            const = self.obj.linear_coefficients(normalize=True).get(S.One, 0)
+            res.fun = (-fun if maximize else fun) + float(const)
         return res
-- 
2.43.0


From 4726ec425b85566ff3936d56db964ef15b0fe4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:54 +0000
Subject: [PATCH 33/61] fix: linear programs ignored the operator of
 constraints whose operator is a callable

---
 src/sigmaepsilon/math/optimize/lp.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sigmaepsilon/math/optimize/lp.py b/src/sigmaepsilon/math/optimize/lp.py
index 9de0a77..8b8f7df 100644
--- a/src/sigmaepsilon/math/optimize/lp.py
+++ b/src/sigmaepsilon/math/optimize/lp.py
@@ -162,6 +162,11 @@ class LinearProgrammingProblem:
                 if not constraint.is_symbolic:
                     raise ValueError("The constraints must be symbolic!")
 
+                if not isinstance(constraint, Equality) and not constraint.op_str:
+                    raise ValueError(
+                        "The operator of a constraint is unknown, provide it as a string!"
+                    )
+
                 self.constraints.append(constraint)
                 _variables += constraint.variables
             else:
@@ -257,14 +262,15 @@ class LinearProgrammingProblem:
                 A_ub_multiplier = 1
                 b_ub_multiplier = 1
                 b_ub_adjustment = 0.0
-                if ieq.op == Relations.ge:
+                op = Relations(ieq.op_str) if ieq.op is None else ieq.op
+                if op == Relations.ge:
                     A_ub_multiplier = -1
                     b_ub_multiplier = -1
-                elif ieq.op == Relations.gt:
+                elif op == Relations.gt:
                     A_ub_multiplier = -1
                     b_ub_multiplier = -1
                     b_ub_adjustment = -SMALLNUM
-                elif ieq.op == Relations.lt:
+                elif op == Relations.lt:
                     b_ub_adjustment = -SMALLNUM
 
                 if self._sparsify:
-- 
2.43.0


From f01b7e01247f47591c74783ae48e06160af27aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:08 +0000
Subject: [PATCH 34/61] fix: reject a callable operator whose op_str
 contradicts the kind of the relation

---
 src/sigmaepsilon/math/function/relation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sigmaepsilon/math/function/relation.py b/src/sigmaepsilon/math/function/relation.py
index 67c66f7..26e9652 100644
--- a/src/sigmaepsilon/math/function/relation.py
+++ b/src/sigmaepsilon/math/function/relation.py
@@ -216,8 +216,9 @@ class Equality(Relation):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         assert hasattr(self, "op")
-        if self.op:
-            assert self.op == Relations.eq
+        op = self.op or (Relations(self.op_str) if self.op_str else None)
+        if op:
+            assert op == Relations.eq
 
 
 class InEquality(Relation):
@@ -238,5 +239,6 @@ class InEquality(Relation):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         assert hasattr(self, "op")
-        if self.op:
-            assert self.op in {Relations.gt, Relations.ge, Relations.lt, Relations.le}
+        op = self.op or (Relations(self.op_str) if self.op_str else None)
+        if op:
+            assert op in {Relations.gt, Relations.ge, Relations.lt, Relations.le}
-- 
2.43.0


From dfc88d04c120da2c8e44cfc5cb3225c1fbe5ff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:24 +0000
Subject: [PATCH 35/61] fix: texts with redundant constants were rejected at
 random by SymPy

---
 src/sigmaepsilon/math/function/symutils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/function/symutils.py b/src/sigmaepsilon/math/function/symutils.py
index 0e59cea..9149362 100644
--- a/src/sigmaepsilon/math/function/symutils.py
+++ b/src/sigmaepsilon/math/function/symutils.py
@@ -30,9 +30,12 @@ def decode(
     """
     if str_expr is not None:
         expr = parse_expr(str_expr, evaluate=False)
+        if not variables:
+            variables = tuple(expr.free_symbols)
+        # SymPy cannot reason about unevaluated sums and products reliably
+        expr = expr.doit()
 
     if not variables:
-        variables = []
         variables = tuple(expr.free_symbols)
     else:
         if not all([isinstance(v, (sy.Expr, sy.Symbol)) for v in variables]):
-- 
2.43.0


From 7205fa952d3bf167c283d5e0cf267c83d9117f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:29 +0000
Subject: [PATCH 36/61] fix: the number of columns of a CSR matrix given
 without a shape was the width of its fullest row

---
 src/sigmaepsilon/math/linalg/sparse/csr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/sparse/csr.py b/src/sigmaepsilon/math/linalg/sparse/csr.py
index 5f568e0..8316e25 100644
--- a/src/sigmaepsilon/math/linalg/sparse/csr.py
+++ b/src/sigmaepsilon/math/linalg/sparse/csr.py
@@ -149,7 +149,8 @@ class csr_matrix:
             self.indices = np.array(indices).astype(np.int32)
             self.indptr = np.array(indptr).astype(np.int32)
             if shape is None:
-                shape = get_shape_sp(indptr)
+                n_cols = int(self.indices.max()) + 1 if len(self.indices) > 0 else 0
+                shape = (len(self.indptr) - 1, n_cols)
             self.shape = shape
 
     def to_numpy(self) -> np.ndarray:
-- 
2.43.0


From 14172eac72cd9bd1c8096ac2a1569a8990da0b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:29 +0000
Subject: [PATCH 37/61] fix: concatenation of jagged arrays ignored the
 requested axis

---
 src/sigmaepsilon/math/linalg/sparse/jaggedarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/sparse/jaggedarray.py b/src/sigmaepsilon/math/linalg/sparse/jaggedarray.py
index a344838..89607f2 100644
--- a/src/sigmaepsilon/math/linalg/sparse/jaggedarray.py
+++ b/src/sigmaepsilon/math/linalg/sparse/jaggedarray.py
@@ -333,6 +333,8 @@ def vstack(*args, **kwargs):
 
 @implements(np.concatenate)
 def concatenate(*args, **kwargs):
+    if kwargs.get("axis", 0) != 0:
+        raise NotImplementedError("Jagged arrays can only be joined along the first axis.")
     data = np.concatenate(list(t.flatten() for t in args[0]))
     cuts = np.concatenate(list(t.widths() for t in args[0]))
     return JaggedArray(data, cuts=cuts)
-- 
2.43.0


From 8df3e2c4ee6041c76e1715a9c8fc1ee6d8191a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:20 +0000
Subject: [PATCH 38/61] fix: unique elements of a regular jagged array could
 not be queried if it was stored as an awkward array

---
 src/sigmaepsilon/math/linalg/sparse/jaggedarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/sparse/jaggedarray.py b/src/sigmaepsilon/math/linalg/sparse/jaggedarray.py
index 89607f2..850648d 100644
--- a/src/sigmaepsilon/math/linalg/sparse/jaggedarray.py
+++ b/src/sigmaepsilon/math/linalg/sparse/jaggedarray.py
@@ -216,6 +216,8 @@ class JaggedArray(NDArrayOperatorsMixin, Wrapper):
         """
         if isinstance(self._wrapped, ndarray):
             return self.__array__()
+        elif not self.is_jagged():
+            return self._wrapped.to_numpy()
         else:
             return self.to_csr().to_numpy()
 
-- 
2.43.0


From 4646a23825082e82adc748408bf4266dad47de76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:59 +0000
Subject: [PATCH 39/61] fix: the rooted level structure of a disconnected graph
 never terminated

---
 src/sigmaepsilon/math/graph/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/graph/utils.py b/src/sigmaepsilon/math/graph/utils.py
index 7702be0..aaf798b 100644
--- a/src/sigmaepsilon/math/graph/utils.py
+++ b/src/sigmaepsilon/math/graph/utils.py
@@ -48,9 +48,13 @@ def rooted_level_structure(adj: csr_matrix, root: int = 0) -> Dict:
         for iN in range(nN):
             if nodes[iN] == 1:
                 levelset[iN] = 0
+        next_nodes = np.where(levelset == 1)[0]
+        if len(next_nodes) == 0:
+            # the remaining nodes are not connected to the root
+            break
         level += 1
-        rls[level] = np.where(levelset == 1)[0]
-        nE += len(rls[level])
+        rls[level] = next_nodes
+        nE += len(next_nodes)
         for iN in range(nN):
             if levelset[iN] == 1:
                 nodes[iN] = 1
-- 
2.43.0


From 5533d9ee43ed2146693733b24f6bb0e79d7e2f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:47 +0000
Subject: [PATCH 40/61] fix: nearest neighbour search ignored the distance
 limit and the query options, modified the caller's options and could not
 query the cloud itself

---
 src/sigmaepsilon/math/knn.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sigmaepsilon/math/knn.py b/src/sigmaepsilon/math/knn.py
index 234184d..c95fbd5 100644
--- a/src/sigmaepsilon/math/knn.py
+++ b/src/sigmaepsilon/math/knn.py
@@ -1,4 +1,3 @@
-import numpy as np
 from numpy import ndarray
 import scipy as sp
 from scipy.spatial import KDTree as KD_scipy
@@ -88,11 +87,12 @@ def k_nearest_neighbours(
 
     """
     tree_kwargs = {} if tree_kwargs is None else tree_kwargs
-    query_kwargs = {} if query_kwargs is None else query_kwargs
+    query_kwargs = {} if query_kwargs is None else dict(query_kwargs)
+    Y = X if Y is None else Y
     if backend == "scipy":
         tree = KD_scipy(X, leafsize=leaf_size, **tree_kwargs)
-        max_distance = np.inf if max_distance is None else max_distance
-        query_kwargs["distance_upper_bound"] = max_distance
+        if max_distance is not None:
+            query_kwargs["distance_upper_bound"] = max_distance
         if version.parse(__scipy_version__) < version.parse("1.6.0"):
             warnings.warn(
                 "Multithreaded execution of a KNN search is "
@@ -101,7 +101,7 @@ def k_nearest_neighbours(
             )
             d, i = tree.query(Y, k=k, **query_kwargs)
         else:
-            d, i = tree.query(Y, k=k, workers=workers)
+            d, i = tree.query(Y, k=k, workers=workers, **query_kwargs)
     elif backend == "sklearn":  # pragma: no cover
         if not __has_sklearn__:
             raise ImportError("'sklearn' must be installed for this!")
-- 
2.43.0


From 23c8ae5100b09e4ae7458255f132bcc9c39368a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:10 +0000
Subject: [PATCH 41/61] fix: MLSApproximator failed with one neighbour,
 truncated integer data and read out of bounds for missing neighbours

---
 src/sigmaepsilon/math/approx/mls.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/approx/mls.py b/src/sigmaepsilon/math/approx/mls.py
index 23c3524..7350336 100644
--- a/src/sigmaepsilon/math/approx/mls.py
+++ b/src/sigmaepsilon/math/approx/mls.py
@@ -159,8 +159,13 @@ class MLSApproximator:
         self._factors = val
 
     def _calc_factors_and_neighbours(self, X_S: ndarray, X_T: ndarray) -> None:
-        self.neighbours = self._get_neighbours(X_S, X_T, **self._knn_config)
-        self.factors = np.ones_like(self.neighbours) / self.neighbours.shape[-1]
+        neighbours = self._get_neighbours(X_S, X_T, **self._knn_config)
+        neighbours = np.reshape(neighbours, (len(X_T), -1))
+        # neighbours that are missing because of the distance limit don't contribute
+        found = neighbours < len(X_S)
+        counts = np.sum(found, axis=-1, keepdims=True)
+        self.neighbours = np.where(found, neighbours, 0)
+        self.factors = np.where(found, 1.0, 0.0) / np.where(counts > 0, counts, np.nan)
 
     @staticmethod
     def _get_neighbours(
@@ -192,6 +197,8 @@ class MLSApproximator:
         factors = self.factors
 
         data = self.Y_S
+        if not np.issubdtype(data.dtype, np.inexact):
+            data = data.astype(float)  # averages of integers are not integers
         if len(self.Y_S.shape) == 1:
             data = atleast2d(data, back=True)
 
-- 
2.43.0


From 9fb0d202da6b104e32793a055b8d05d7fb346951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:25 +0000
Subject: [PATCH 42/61] fix: linear systems with integer coefficients were
 truncated or rejected

---
 src/sigmaepsilon/math/linalg/solve.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/solve.py b/src/sigmaepsilon/math/linalg/solve.py
index 8e0054b..66efc05 100644
--- a/src/sigmaepsilon/math/linalg/solve.py
+++ b/src/sigmaepsilon/math/linalg/solve.py
@@ -105,10 +105,11 @@ def linsolve(
         assert (
             presc_bool is None
         ), "Method '{}' does not support prescribed values.".format(method)
-        return npsolve(A, B)
+        return npsolve(_as_float(A), _as_float(B))
     elif method in ["Jordan", "Gauss-Jordan"]:
         fnc = _Jordan if method == "Jordan" else _GaussJordan
         try:
+            A, B = _as_float(A), _as_float(B)
             nEQ = len(B)
             if len(B.shape) == 1:
                 B = B.reshape((nEQ, 1))
@@ -149,6 +150,7 @@ def reduce(
         fnc = _Jordan
     if fnc is not None:
         try:
+            A, B = _as_float(A), _as_float(B)
             if presc_bool is None:
                 nEQ = len(B)
                 presc_bool = np.zeros((nEQ,), dtype=np.int64)
@@ -163,6 +165,11 @@ def reduce(
         raise AttributeError("Invalid method name '{}'.".format(method))
 
 
+def _as_float(a: np.ndarray) -> np.ndarray:
+    # eliminating in integer arrays would truncate the coefficients
+    return a if np.issubdtype(a.dtype, np.inexact) else a.astype(float)
+
+
 @njit(nogil=True, cache=__cache)
 def npsolve(A, b):
     return np.linalg.solve(A, b)
-- 
2.43.0


From e25f606eec29805034192e21d77adb4d880a3445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:18 +0000
Subject: [PATCH 43/61] fix: elimination without interchanges called regular
 systems singular and answered singular ones

---
 src/sigmaepsilon/math/linalg/solve.py | 51 +++++++++++++++++++--------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/solve.py b/src/sigmaepsilon/math/linalg/solve.py
index 66efc05..bf51074 100644
--- a/src/sigmaepsilon/math/linalg/solve.py
+++ b/src/sigmaepsilon/math/linalg/solve.py
@@ -175,23 +175,46 @@ def npsolve(A, b):
     return np.linalg.solve(A, b)
 
 
+@njit(nogil=True, cache=__cache)
+def _pivot(A: np.ndarray, B: np.ndarray, presc_bool: np.ndarray, iEQ: int, tol: float):
+    """
+    Brings the equation with the largest coefficient of unknown `iEQ` among the
+    free equations not used yet into position and returns the coefficient.
+    """
+    nEQ = len(B)
+    iMAX = iEQ
+    for iROW in range(iEQ + 1, nEQ):
+        if presc_bool[iROW] != True and abs(A[iROW, iEQ]) > abs(A[iMAX, iEQ]):
+            iMAX = iROW
+    if not abs(A[iMAX, iEQ]) > tol:
+        raise Exception("The matrix is singular!")
+    if iMAX != iEQ:
+        for iCOL in range(nEQ):
+            a = A[iEQ, iCOL]
+            A[iEQ, iCOL] = A[iMAX, iCOL]
+            A[iMAX, iCOL] = a
+        b = 1.0 * B[iEQ]
+        B[iEQ] = B[iMAX]
+        B[iMAX] = b
+    return A[iEQ, iEQ]
+
+
 @njit(nogil=True, cache=__cache)
 def _Jordan(
     A: np.ndarray, B: np.ndarray, presc_bool: np.ndarray, presc_val: np.ndarray
 ):
     nEQ = len(B)
+    tol = 1e-12 * np.max(np.abs(A))
     for iEQ in range(nEQ):
         if presc_bool[iEQ] == True:
             for iROW in range(iEQ, nEQ):
                 B[iROW] -= A[iROW, iEQ] * presc_val[iEQ]
                 A[iROW, iEQ] = 0.0
         else:
-            pivot = A[iEQ, iEQ]
-            if abs(pivot) < 1e-12:
-                raise Exception("The matrix is singular!")
+            pivot = _pivot(A, B, presc_bool, iEQ, tol)
             for iROW in range(nEQ):
                 factor = A[iROW, iEQ] / pivot
-                if iROW == iEQ or abs(factor) < 1e-12:
+                if iROW == iEQ or factor == 0.0:
                     continue
                 for iCOL in range(nEQ):
                     A[iROW, iCOL] -= factor * A[iEQ, iCOL]
@@ -204,23 +227,21 @@ def _GaussJordan(
     A: np.ndarray, B: np.ndarray, presc_bool: np.ndarray, presc_val: np.ndarray
 ):
     nEQ = len(B)
+    tol = 1e-12 * np.max(np.abs(A))
     for iEQ in range(nEQ):
         if presc_bool[iEQ] == True:
             for iROW in range(iEQ, nEQ):
                 B[iROW] -= A[iROW, iEQ] * presc_val[iEQ]
                 A[iROW, iEQ] = 0.0
         else:
-            if iEQ < nEQ - 1:
-                pivot = A[iEQ, iEQ]
-                if abs(pivot) < 1e-12:
-                    raise Exception("The matrix is singular!")
-                for iROW in range(iEQ + 1, nEQ):
-                    factor = A[iROW, iEQ] / pivot
-                    if abs(factor) < 1e-12:
-                        continue
-                    for iCOL in range(nEQ):
-                        A[iROW, iCOL] -= factor * A[iEQ, iCOL]
-                    B[iROW] -= factor * B[iEQ]
+            pivot = _pivot(A, B, presc_bool, iEQ, tol)
+            for iROW in range(iEQ + 1, nEQ):
+                factor = A[iROW, iEQ] / pivot
+                if factor == 0.0:
+                    continue
+                for iCOL in range(nEQ):
+                    A[iROW, iCOL] -= factor * A[iEQ, iCOL]
+                B[iROW] -= factor * B[iEQ]
     return A, B
 
 
-- 
2.43.0


From 71cda98a60858782df0f436ca36c3e78eb407f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:36 +0000
Subject: [PATCH 44/61] fix: inv2x2 truncated the inverse of integer matrices

---
 src/sigmaepsilon/math/linalg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 2ac0670..d5d78ce 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -720,7 +720,7 @@ def det2x2(A, res):
 
 @njit(nogil=True, cache=__cache)
 def inv2x2(A) -> ndarray:
-    res = np.zeros_like(A)
+    res = np.zeros_like(1.0 * A)
     d = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
     res[0, 0] = A[1, 1] / d
     res[1, 1] = A[0, 0] / d
-- 
2.43.0


From cf7e941ff478e8f372885496ed303100294090ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:47 +0000
Subject: [PATCH 45/61] fix: least squares with points provided as a list, a
 single column or integers

---
 src/sigmaepsilon/math/approx/functions.py | 2 +-
 src/sigmaepsilon/math/approx/ls.py        | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/approx/functions.py b/src/sigmaepsilon/math/approx/functions.py
index 887bd6a..46744ee 100644
--- a/src/sigmaepsilon/math/approx/functions.py
+++ b/src/sigmaepsilon/math/approx/functions.py
@@ -81,7 +81,7 @@ class MLSWeightFunction(Function):
         return
 
     def preproc_evaluation(self, x: Iterable[Number]):
-        if not isinstance(x, (ndarray, float)):
+        if not isinstance(x, (ndarray, Number)):
             if isinstance(x, Iterable):
                 x = np.array(x)
             else:
diff --git a/src/sigmaepsilon/math/approx/ls.py b/src/sigmaepsilon/math/approx/ls.py
index 69dc37b..7c1e24a 100644
--- a/src/sigmaepsilon/math/approx/ls.py
+++ b/src/sigmaepsilon/math/approx/ls.py
@@ -22,6 +22,9 @@ def moving_least_squares(
     Moving least squares approximation. The usage is the same as for the
     :func:`~sigmaepsilon.math.approx.ls.weighted_least_squares` function.
     """
+    if not isinstance(points, ndarray):
+        points = np.array(points)
+
     dim = 1 if len(points.shape) == 1 else points.shape[1]
 
     if not isMLSWeightFunction(w):
@@ -174,11 +177,17 @@ def weighted_least_squares(
 def _wls_1d(points, values, deg, dim, w, grad, hess):
     b, bdx, bdxx = _get_polynomial(deg, dim)
 
+    # the points may be provided as a 1d array or as a matrix with one column
+    points = points.reshape(-1)
+
     (invA, V, B, Adx, Adxx, Bdx, Bdxx) = _mls_preproc(
         points, values, deg, dim, w, b, grad, hess
     )
 
     def inner(x):
+        if isinstance(x, Iterable):
+            x = np.reshape(x, ())[()]
+
         return _mls_approx(
             invA,
             B,
-- 
2.43.0


From 85e349055a9a52de212937ea51523ba54aa3a79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:47 +0000
Subject: [PATCH 46/61] fix: Hessian of the cubic weight function at its core

---
 src/sigmaepsilon/math/approx/functions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sigmaepsilon/math/approx/functions.py b/src/sigmaepsilon/math/approx/functions.py
index 46744ee..17b713c 100644
--- a/src/sigmaepsilon/math/approx/functions.py
+++ b/src/sigmaepsilon/math/approx/functions.py
@@ -191,11 +191,11 @@ class CubicWeightFunction(MLSWeightFunction):
         if rX <= 0.5:
             wX = 2 / 3 - 4 * rX**2 + 4 * rX**3
             dwXdX = (-8 * rX + 12 * rX**2) * drdX
-            dwXdXX = (-8 + 24 * rX) * drdX * drdX
+            dwXdXX = (-8 + 24 * rX) / dmX**2
         elif rX > 0.5 and rX <= 1:
             wX = 4 / 3 - 4 * rX + 4 * rX**2 - (4 / 3) * rX**3
             dwXdX = (-4 + 8 * rX - 4 * rX**2) * drdX
-            dwXdXX = (8 - 8 * rX) * drdX * drdX
+            dwXdXX = (8 - 8 * rX) / dmX**2
         else:
             wX = 0
             dwXdX = 0
@@ -229,11 +229,11 @@ class CubicWeightFunction(MLSWeightFunction):
         if rX <= 0.5:
             wX = 2 / 3 - 4 * rX**2 + 4 * rX**3
             dwXdX = (-8 * rX + 12 * rX**2) * drdX
-            dwXdXX = (-8 + 24 * rX) * drdX * drdX
+            dwXdXX = (-8 + 24 * rX) / dmX**2
         elif rX > 0.5 and rX <= 1:
             wX = 4 / 3 - 4 * rX + 4 * rX**2 - (4 / 3) * rX**3
             dwXdX = (-4 + 8 * rX - 4 * rX**2) * drdX
-            dwXdXX = (8 - 8 * rX) * drdX * drdX
+            dwXdXX = (8 - 8 * rX) / dmX**2
         else:
             wX = 0
             dwXdX = 0
@@ -242,11 +242,11 @@ class CubicWeightFunction(MLSWeightFunction):
         if rY <= 0.5:
             wY = 2 / 3 - 4 * rY**2 + 4 * rY**3
             dwYdY = (-8 * rY + 12 * rY**2) * drdY
-            dwYdYY = (-8 + 24 * rY) * drdY * drdY
+            dwYdYY = (-8 + 24 * rY) / dmY**2
         elif rY > 0.5 and rY <= 1:
             wY = 4 / 3 - 4 * rY + 4 * rY**2 - (4 / 3) * rY**3
             dwYdY = (-4 + 8 * rY - 4 * rY**2) * drdY
-            dwYdYY = (8 - 8 * rY) * drdY * drdY
+            dwYdYY = (8 - 8 * rY) / dmY**2
         else:
             wY = 0
             dwYdY = 0
-- 
2.43.0


From 0b9907828391afc68c55abde174546b34de69f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:33 +0000
Subject: [PATCH 47/61] fix: Lagrange polynomials for a single node

---
 src/sigmaepsilon/math/approx/lagrange.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sigmaepsilon/math/approx/lagrange.py b/src/sigmaepsilon/math/approx/lagrange.py
index eda668a..52fbc99 100644
--- a/src/sigmaepsilon/math/approx/lagrange.py
+++ b/src/sigmaepsilon/math/approx/lagrange.py
@@ -117,14 +117,14 @@ def gen_Lagrange_1d(
         N = len(x) if x is not None else len(i)
     inds = list(range(1, N + 1)) if i is None else i
 
-    coeffs = sy.symbols(", ".join(["c_{}".format(i + 1) for i in range(N)]))
-    variables = sy.symbols(", ".join([_var_str(inds, i) for i in range(N)]))
+    coeffs = sy.symbols(", ".join(["c_{}".format(i + 1) for i in range(N)]), seq=True)
+    variables = sy.symbols(", ".join([_var_str(inds, i) for i in range(N)]), seq=True)
     if x is None:
         if not sym:
             x = np.linspace(-1, 1, N)
         else:
             symbols = [xsym + "_{}".format(i + 1) for i in range(N)]
-            x = sy.symbols(", ".join(symbols))
+            x = sy.symbols(", ".join(symbols), seq=True)
     poly = sum([c * xvar**i for i, c in enumerate(coeffs)])
 
     evals = [poly.subs({xsym: x[i]}) for i in range(N)]
-- 
2.43.0


From a9582a155564a5eb55b7efc2d0efff9d3d62dc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:33 +0000
Subject: [PATCH 48/61] fix: Lagrange polynomials stored in a simple dictionary

---
 src/sigmaepsilon/math/approx/lagrange.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sigmaepsilon/math/approx/lagrange.py b/src/sigmaepsilon/math/approx/lagrange.py
index 52fbc99..e867467 100644
--- a/src/sigmaepsilon/math/approx/lagrange.py
+++ b/src/sigmaepsilon/math/approx/lagrange.py
@@ -141,6 +141,13 @@ def gen_Lagrange_1d(
     dshp2 = [_diff(xvar, fnc) for fnc in dshp1]
     dshp3 = [_diff(xvar, fnc) for fnc in dshp2]
 
+    if not isinstance(module_data, DeepDict):
+        # a simple dictionary does not create missing levels on the fly
+        for ind in inds:
+            data = module_data.setdefault(ind, {})
+            if lambdify:
+                data.setdefault("fnc", {})
+
     for i, ind in enumerate(inds):
         fnc_str = latex(sy.symbols(fsym + "_{}".format(ind)))
         module_data[ind]["symbol"] = fnc_str
-- 
2.43.0


From 06c56f1986b1802b19954cf79fe9a025986e91bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:55 +0000
Subject: [PATCH 49/61] fix: clip1d modified its input

---
 src/sigmaepsilon/math/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index 4ab8234..332efeb 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -67,9 +67,10 @@ def clip1d(a: ndarray, a_min: float, a_max: float) -> ndarray:
     array([1. , 1.5])
 
     """
-    a[a < a_min] = a_min
-    a[a > a_max] = a_max
-    return a
+    res = a.copy()
+    res[a < a_min] = a_min
+    res[a > a_max] = a_max
+    return res
 
 
 def atleastnd(
-- 
2.43.0


From 6ea8792ed853c1dd964cdefa5e89fb8cf610f09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:55 +0000
Subject: [PATCH 50/61] fix: equal rows of integer arrays of the same size, and
 of arrays of mixed types

---
 src/sigmaepsilon/math/utils.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index 332efeb..23dbb37 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -391,11 +391,7 @@ def indices_of_equal_rows(x: ndarray, y: ndarray, tol=1e-12):
     square = nX == nY
     integer = isintegerarray(x) and isintegerarray(y)
     if integer:
-        if square:
-            inds = np.flatnonzero((x == y).all(1))
-            return inds, np.copy(inds)
-        else:
-            return indices_of_equal_rows_njit(x, y, 0)
+        return indices_of_equal_rows_njit(x, y, 0)
     else:
         if square:
             return indices_of_equal_rows_square_njit(x, y, tol)
@@ -405,7 +401,7 @@ def indices_of_equal_rows(x: ndarray, y: ndarray, tol=1e-12):
 
 @njit(nogil=True, parallel=True, cache=__cache)
 def indices_of_equal_rows_njit(x: ndarray, y: ndarray, tol: float = 1e-12):
-    R = np.zeros((x.shape[0], y.shape[0]), dtype=x.dtype)
+    R = np.zeros((x.shape[0], y.shape[0]), dtype=np.float64)
     for i in prange(R.shape[0]):
         for j in prange(R.shape[1]):
             R[i, j] = np.sum(np.abs(x[i] - y[j]))
@@ -419,7 +415,7 @@ def indices_of_equal_rows_square_njit(x: ndarray, y: ndarray, tol=1e-12):
         n = nx
     else:
         n = ny
-    R = np.zeros((n, n), dtype=x.dtype)
+    R = np.zeros((n, n), dtype=np.float64)
     for i in prange(n):
         for j in prange(n):
             R[i, j] = np.sum(np.abs(x[i] - y[j]))
-- 
2.43.0


From fbcbe35fdee01c2999878ef27352c449dd441d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:55 +0000
Subject: [PATCH 51/61] fix: count_cols_csr read out of bounds and did not
 count columns

---
 src/sigmaepsilon/math/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index 23dbb37..618be90 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -457,10 +457,10 @@ def count_cols_csr(indptr: ndarray, indices: ndarray) -> ndarray:
     --------
     :class:`~sigmaepsilon.math.linalg.sparse.csr.csr_matrix`
     """
-    n = len(indptr)
+    n = len(indptr) - 1
     res = np.zeros(n, dtype=indptr.dtype)
     for i in prange(n):
-        res[i] = indices[indptr[i + 1]] - indices[indptr[i]]
+        res[i] = indptr[i + 1] - indptr[i]
     return res
 
 
-- 
2.43.0


From a24856993cb2a5f7e95885e6dd3e1f84991da6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:55 +0000
Subject: [PATCH 52/61] fix: to_range_1d with lists and integers

---
 src/sigmaepsilon/math/utils.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index 618be90..ca37d02 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -494,7 +494,7 @@ def repeat_diagonal_2d(a: ndarray, N: int = 2) -> ndarray:
 
 @njit(nogil=True, parallel=True, cache=__cache)
 def _to_range_1d_(vals: ndarray, source: ndarray, target: ndarray):
-    res = np.zeros_like(vals)
+    res = np.zeros(vals.shape, dtype=np.float64)
     s0, s1 = source
     t0, t1 = target
     b = (t1 - t0) / (s1 - s0)
@@ -511,11 +511,7 @@ def to_range_1d(
     target: ndarray = None,
 ):
     if not isinstance(vals, ndarray):
-        vals = np.array(
-            [
-                vals,
-            ]
-        )
+        vals = np.atleast_1d(vals)
     source = np.array([0.0, 1.0]) if source is None else np.array(source)
     target = np.array([-1.0, 1.0]) if target is None else np.array(target)
     return _to_range_1d_(vals, source, target)
-- 
2.43.0


From 21aeabe2880ff4cfa5d9f52224043315e61b1d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:55 +0000
Subject: [PATCH 53/61] fix: tiling an integer array with a float increment
 truncated the result

---
 src/sigmaepsilon/math/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index ca37d02..c7c2d22 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -367,7 +367,7 @@ def tile(a: ndarray, da: ndarray, N: int = 1) -> ndarray:
            [[ 2, -2]]])
 
     """
-    res = np.zeros((N, a.shape[0], a.shape[1]), dtype=a.dtype)
+    res = np.zeros((N, a.shape[0], a.shape[1]), dtype=(a + da).dtype)
     for i in prange(N):
         res[i, :, :] = a + i * da
     return res
@@ -376,7 +376,7 @@ def tile(a: ndarray, da: ndarray, N: int = 1) -> ndarray:
 @njit(nogil=True, parallel=True, cache=__cache)
 def tile1d(a: ndarray, da: ndarray, N=1) -> ndarray:
     M = a.shape[0]
-    res = np.zeros(N * M, dtype=a.dtype)
+    res = np.zeros(N * M, dtype=(a + da).dtype)
     for i in prange(N):
         res[i * M : (i + 1) * M] = a + i * da
     return res
-- 
2.43.0


From f3a691d73fbf8585406ea077f87d89f216360af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:55 +0000
Subject: [PATCH 54/61] fix: centers of bins with integer edges were truncated

---
 src/sigmaepsilon/math/hist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/hist.py b/src/sigmaepsilon/math/hist.py
index b74a9f2..02d4af9 100644
--- a/src/sigmaepsilon/math/hist.py
+++ b/src/sigmaepsilon/math/hist.py
@@ -17,7 +17,7 @@ def histogram(data, bins, *args, return_edges=False, **kwargs):
 
 @njit(nogil=True, parallel=True, cache=True)
 def bin_centers(bin_edges: np.ndarray):
-    res = np.zeros(bin_edges.shape[0] - 1, dtype=bin_edges.dtype)
+    res = np.zeros(bin_edges.shape[0] - 1, dtype=np.float64)
     for i in prange(res.shape[0]):
         res[i] = (bin_edges[i] + bin_edges[i + 1]) / 2
     return res
-- 
2.43.0


From c39216a1ba18e69f93fa1b16575f43796b5d3e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:55 +0000
Subject: [PATCH 55/61] fix: paths between integer or coincident points and
 paths of one point

---
 src/sigmaepsilon/math/linalg/utils.py | 31 ++++++++++++---------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index d5d78ce..bee3f8c 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -657,12 +657,10 @@ def inv_sym_3x3(m: Matrix, as_adj_det=False) -> Matrix:
 def vpath(p1: ndarray, p2: ndarray, n: int) -> ndarray:
     nD = len(p1)
     dist = p2 - p1
-    length = np.linalg.norm(dist)
-    s = np.linspace(0, length, n)
-    res = np.zeros((n, nD), dtype=p1.dtype)
-    d = dist / length
-    for i in prange(n):
-        res[i] = p1 + s[i] * d
+    res = np.zeros((n, nD), dtype=np.float64)
+    res[0] = p1
+    for i in prange(1, n):
+        res[i] = p1 + dist * (i / (n - 1))
     return res
 
 
@@ -857,16 +855,13 @@ def norm2d(A) -> ndarray:
 
 @njit(nogil=True, parallel=True, cache=__cache)
 def _linspace(p0: ndarray, p1: ndarray, N):
-    s = p1 - p0
-    L = np.linalg.norm(s)
-    n = s / L
-    djac = L / (N - 1)
-    step = n * djac
     res = np.zeros((N, p0.shape[0]))
     res[0] = p0
-    for i in prange(1, N - 1):
-        res[i] = p0 + i * step
-    res[-1] = p1
+    if N > 1:
+        step = (p1 - p0) / (N - 1)
+        for i in prange(1, N - 1):
+            res[i] = p0 + i * step
+        res[-1] = p1
     return res
 
 
@@ -880,9 +875,11 @@ def linspace(start, stop, N) -> ndarray:
 @njit(nogil=True, parallel=True, cache=__cache)
 def linspace1d(start, stop, N) -> ndarray:
     res = np.zeros(N)
-    di = (stop - start) / (N - 1)
-    for i in prange(N):
-        res[i] = start + i * di
+    res[0] = start
+    if N > 1:
+        di = (stop - start) / (N - 1)
+        for i in prange(1, N):
+            res[i] = start + i * di
     return res
 
 
-- 
2.43.0


From 05840a387cb9f5eff511dc43e88bced9c1fb1d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:55 +0000
Subject: [PATCH 56/61] fix: type predicates did not recognise 32-bit arrays

---
 src/sigmaepsilon/math/logical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/logical.py b/src/sigmaepsilon/math/logical.py
index 71348a8..c406b34 100644
--- a/src/sigmaepsilon/math/logical.py
+++ b/src/sigmaepsilon/math/logical.py
@@ -16,14 +16,14 @@ def isfloatarray(a: ndarray) -> bool:
     """
     Returns `True` if `a` is a float array.
     """
-    return np.issubdtype(a.dtype, float)
+    return np.issubdtype(a.dtype, np.floating)
 
 
 def isintegerarray(a: ndarray) -> bool:
     """
     Returns `True` if `a` is an integer array.
     """
-    return np.issubdtype(a.dtype, int)
+    return np.issubdtype(a.dtype, np.integer)
 
 
 def isintarray(a: ndarray) -> bool:
-- 
2.43.0


From b54ace0af06de2b67a9a2b496b1ea9fc494985a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:05 +0000
Subject: [PATCH 57/61] fix: frames with small or very different axes were
 called rectangular whatever their angles

---
 src/sigmaepsilon/math/linalg/logical.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/logical.py b/src/sigmaepsilon/math/linalg/logical.py
index bdb58bd..af607ad 100644
--- a/src/sigmaepsilon/math/linalg/logical.py
+++ b/src/sigmaepsilon/math/linalg/logical.py
@@ -43,6 +43,8 @@ def is_rectangular_frame(axes: ndarray) -> bool:
     """
     assert len(axes.shape) == 2, "Input is not a matrix!"
     assert axes.shape[0] == axes.shape[1], "Input is not a square matrix!"
+    norms = np.linalg.norm(axes, axis=1, keepdims=True)
+    axes = axes / np.where(norms > 0, norms, 1.0)
     agram = np.abs(axes @ axes.T)
     return np.isclose(np.trace(agram), np.sum(agram))
 
-- 
2.43.0


From 45d7280c2e7a4ae039f77774c8ff54a9c48fc05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:05 +0000
Subject: [PATCH 58/61] fix: ufunc.at on a frame did not update the tensors of
 the frame

---
 src/sigmaepsilon/math/linalg/frame.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index 0f1a18c..e7f4181 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -592,6 +592,21 @@ class ReferenceFrame(FrameLike):
                 else:
                     refs.append(False)
 
+        # the first operand of 'at' is modified inplace
+        if method == "at" and isinstance(inputs[0], ReferenceFrame):
+            frame = inputs[0]
+            if not type(frame) == ReferenceFrame:
+                msg = (
+                    f"Only instances of {ReferenceFrame} can be modified inplace,"
+                    + " as no regularity can be guaranteed to hold."
+                )
+                raise NotImplementedError(msg)
+            axes = np.array(frame._array)
+            args = (x._array if isinstance(x, ArrayWrapper) else x for x in inputs[1:])
+            ufunc.at(axes, *args, **kwargs)
+            frame.axes = axes
+            return None
+
         # Defer to the implementation of the ufunc on unwrapped values.
         inputs = tuple(x._array if isinstance(x, ArrayWrapper) else x for x in inputs)
         if out:
-- 
2.43.0


From 5ceb741bf7059966cb52055317ccb48acd1cd581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:25 +0000
Subject: [PATCH 59/61] fix: declared variables with names known by SymPy (E,
 I, N, beta...) were taken for constants or rejected

---
 src/sigmaepsilon/math/function/symutils.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/sigmaepsilon/math/function/symutils.py b/src/sigmaepsilon/math/function/symutils.py
index 9149362..2b9e8cb 100644
--- a/src/sigmaepsilon/math/function/symutils.py
+++ b/src/sigmaepsilon/math/function/symutils.py
@@ -1,3 +1,4 @@
+import builtins
 from sympy.parsing.sympy_parser import parse_expr
 from sympy import lambdify, derive_by_array, symbols, Expr, Symbol
 from typing import Callable, Iterable
@@ -28,8 +29,18 @@ def decode(
     Takes an expression as either a string or a `SymPy` expression and returns
     the expression and the variables in the expression.
     """
+    if variables and not all(isinstance(v, (sy.Expr, sy.Symbol)) for v in variables):
+        variables = list(symbols(variables))
+
+    # symbols are identified by their names, regardless of their assumptions
+    by_name = {str(v): v for v in variables or ()}
+
     if str_expr is not None:
-        expr = parse_expr(str_expr, evaluate=False)
+        # the names of the variables take precedence over the names known by the parser
+        known = {
+            k: v for k, v in by_name.items() if hasattr(sy, k) or hasattr(builtins, k)
+        }
+        expr = parse_expr(str_expr, local_dict=known, evaluate=False)
         if not variables:
             variables = tuple(expr.free_symbols)
         # SymPy cannot reason about unevaluated sums and products reliably
@@ -38,12 +49,6 @@ def decode(
     if not variables:
         variables = tuple(expr.free_symbols)
     else:
-        if not all([isinstance(v, (sy.Expr, sy.Symbol)) for v in variables]):
-            variables = list(symbols(variables))
-
-        expr = substitute(expr, variables, variables, as_string=True)
-        # symbols are identified by their names, regardless of their assumptions
-        by_name = {str(v): v for v in variables}
         expr = expr.subs(
             [(v, by_name[str(v)]) for v in expr.free_symbols if str(v) in by_name]
         )
-- 
2.43.0


From 85c1717905f75f4588e54ffa095f36124f410e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:05 +0000
Subject: [PATCH 60/61] fix: a relation with an operator in its text and
 another one given was accepted for some names of variables

---
 src/sigmaepsilon/math/function/relation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sigmaepsilon/math/function/relation.py b/src/sigmaepsilon/math/function/relation.py
index 26e9652..f903192 100644
--- a/src/sigmaepsilon/math/function/relation.py
+++ b/src/sigmaepsilon/math/function/relation.py
@@ -138,6 +138,9 @@ class Relation(Function):
 
         op = getasany(["op", "operator"], None, **kwargs)
 
+        if op and has_op_in_input:
+            raise ValueError(f"The operator is defined twice: '{args[0]}' and {op}")
+
         if op:
             if isinstance(op, str):
                 if op not in valid_operators:
-- 
2.43.0


From c20bc45fef9fc3dce592728268a6dbeb41814dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:50 +0000
Subject: [PATCH 61/61] fix: non-linear objectives and constraints of linear
 programs were accepted and their non-linear terms ignored

---
 src/sigmaepsilon/math/optimize/lp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sigmaepsilon/math/optimize/lp.py b/src/sigmaepsilon/math/optimize/lp.py
index 8b8f7df..8b7c3ff 100644
--- a/src/sigmaepsilon/math/optimize/lp.py
+++ b/src/sigmaepsilon/math/optimize/lp.py
@@ -185,6 +185,10 @@ class LinearProgrammingProblem:
                 if not fnc.expr.free_symbols.issubset(variables):
                     raise ValueError("Inconsistent variables provided!")
 
+                poly = fnc.expr.as_poly(*fnc.expr.free_symbols)
+                if fnc.expr.free_symbols and (poly is None or poly.total_degree() > 1):
+                    raise ValueError("The objective and the constraints must be linear!")
+
             self._variables = variables
 
     @property
-- 
2.43.0

