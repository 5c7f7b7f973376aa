From c57350642de386eb772e11ac7195951641c764e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:09 +0000
Subject: [PATCH 01/14] fix: pad the spatial axes also with data_format
 channels_first

The data format was not passed on to the padding, so with channels_first the
padding was computed for and applied to the wrong axes.
---
 groco/layers/group_transforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index d4d231c..3f3741f 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -53,6 +53,7 @@ class GroupTransforms:
             allow_non_equivariance=allow_non_equivariance,
             kernel_size=kernel_size,
             dimensions=dimensions,
+            data_format=data_format,
             transpose=transpose,
             **kwargs,
         )
-- 
2.43.0


From 011d20cabba6567775cce8cc60a73cf86da80423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:09 +0000
Subject: [PATCH 02/14] fix: compute pooling padding with the default strides
 of the pooling

Keras's pooling layers default to strides equal to the pool size, the padding
assumed strides 1 in that case and so did not maintain equivariance.
---
 groco/layers/pooling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 94bdcc4..dacfa8a 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -36,6 +36,10 @@ class GroupPooling(Layer):
     ):
         super().__init__()
 
+        # as in Keras, the strides default to the pool size
+        if kwargs.get("strides") is None:
+            kwargs["strides"] = pool_size
+
         self.dimensions = dimensions
         self.group_transforms = GroupTransforms(
             allow_non_equivariance=allow_non_equivariance,
-- 
2.43.0


From cd785713ae74f4b279bcf5dea7f010f2691d6ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:09 +0000
Subject: [PATCH 03/14] fix: take the dilation rate into account in the
 equivariant padding

The padding was computed for the undilated kernel, which breaks equivariance
e.g. for an even kernel size with dilation and same_equiv padding.
---
 groco/layers/padding.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 80716c9..7e76ff0 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -27,6 +27,7 @@ class EquivariantPadding(Layer):
         allow_non_equivariance: bool, whether to allow non-equivariant padding.
         data_format: string, one of 'channels_last', 'channels_first'.
         transpose: bool, whether the layer is a transposed convolution.
+        dilation_rate: int or tuple of int, the dilation rate of the convolution.
     """
 
     def __init__(
@@ -38,6 +39,7 @@ class EquivariantPadding(Layer):
         allow_non_equivariance=False,
         data_format="channels_last",
         transpose=False,
+        dilation_rate=1,
         **kwargs,
     ):
         self.padding_option = self.format_padding_option(padding)
@@ -57,6 +59,14 @@ class EquivariantPadding(Layer):
             else tuple(kernel_size for _ in range(self.dimensions)),
             "int32",
         )
+        # a dilated kernel covers (kernel_size - 1) * dilation_rate + 1 pixels
+        dilation_rates = ops.cast(
+            dilation_rate
+            if isinstance(dilation_rate, tuple)
+            else tuple(dilation_rate for _ in range(self.dimensions)),
+            "int32",
+        )
+        self.kernel_sizes = (self.kernel_sizes - 1) * dilation_rates + 1
         self.data_format = data_format
         self.transpose = transpose
         # set during build
-- 
2.43.0


From 01cc0b5c31af68fd58352b73b619d1c26766333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:09 +0000
Subject: [PATCH 04/14] fix: raise the intended ValueError when same_equiv
 padding is impossible

Constructing the error message called a method that does not exist, so an
AttributeError was raised instead.
---
 groco/layers/padding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 7e76ff0..fd33797 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -188,6 +188,6 @@ class EquivariantPadding(Layer):
             f"strides: {tuple(self.strides)},\n"
         )
         if self.padding_option == "SAME_EQUIV":
-            same_padding = self.compute_same_padding(spatial_shape)
+            same_padding = self.compute_built_in_padding(spatial_shape)
             message += f"built-in same padding: {tuple(same_padding)}"
         return message
-- 
2.43.0


From 87f7644cea20d9cb8f961335dfa30e80d93f6106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:09 +0000
Subject: [PATCH 05/14] fix: restore a layer's weights also when its call
 raises

A call that failed (e.g. on an input with the wrong number of channels) left
the transformed kernel, bias and filters in place, breaking all later calls.
---
 groco/utils/misc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/groco/utils/misc.py b/groco/utils/misc.py
index 992e9e1..828981a 100644
--- a/groco/utils/misc.py
+++ b/groco/utils/misc.py
@@ -6,10 +6,11 @@ def backup_and_restore(attribute_names):
     def decorator(function):
         def wrapper(self, inputs):
             backup = {name: getattr(self, name) for name in attribute_names}
-            result = function(self, inputs)
-            for name in attribute_names:
-                setattr(self, name, backup[name])
-            return result
+            try:
+                return function(self, inputs)
+            finally:
+                for name in attribute_names:
+                    setattr(self, name, backup[name])
 
         return wrapper
 
-- 
2.43.0


From 6d5d7c3daf5be2459c2396f38d40943308c3a96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:09 +0000
Subject: [PATCH 06/14] fix: let the space groups act on the given spatial axes

Only the first of the spatial axes was used, assuming the other two to follow it.
---
 groco/groups/space_groups.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/groco/groups/space_groups.py b/groco/groups/space_groups.py
index 7748923..6da7c79 100644
--- a/groco/groups/space_groups.py
+++ b/groco/groups/space_groups.py
@@ -10,20 +10,16 @@ Oh_parameters = list(itertools.product(Oh_permutation_tuples, Oh_flip_axes))
 
 
 def Oh_action(signal, spatial_axes=(0, 1, 2), new_group_axis=3):
-    offset = spatial_axes[0]
-    prefix = tuple(range(offset))
-    suffix = tuple(range(offset + 3, ops.ndim(signal)))
-    Oh_params = [
-        (prefix + tuple(p + offset for p in perm) + suffix, [f + offset for f in flip])
-        for (perm, flip) in Oh_parameters
-    ]
     transformed_signals = []
-    for perm, flip in Oh_params:
+    for perm, flip in Oh_parameters:
         transformed_signal = signal
         for f in flip:
-            transformed_signal = ops.flip(transformed_signal, axis=f)
+            transformed_signal = ops.flip(transformed_signal, axis=spatial_axes[f])
+        axes = list(range(ops.ndim(signal)))
+        for axis, p in zip(spatial_axes, perm):
+            axes[axis] = spatial_axes[p]
         transformed_signal = ops.expand_dims(
-            ops.transpose(transformed_signal, perm), axis=new_group_axis
+            ops.transpose(transformed_signal, axes), axis=new_group_axis
         )
         transformed_signals.append(transformed_signal)
     transformed_signals = ops.concatenate(transformed_signals, axis=new_group_axis)
-- 
2.43.0


From 4245cc1772fde27e3ae6675b735cc2add21345e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:09 +0000
Subject: [PATCH 07/14] fix: let D4h and D4 act on cuboids

They are documented as the symmetries of a cuboid with depth different from
height and width, but acted through all of Oh, which needs a cube.
---
 groco/groups/space_groups.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/groco/groups/space_groups.py b/groco/groups/space_groups.py
index 6da7c79..85316a4 100644
--- a/groco/groups/space_groups.py
+++ b/groco/groups/space_groups.py
@@ -1,4 +1,5 @@
 import itertools
+from functools import partial
 
 from keras import ops
 
@@ -9,9 +10,9 @@ Oh_permutation_tuples = [(0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0),
 Oh_parameters = list(itertools.product(Oh_permutation_tuples, Oh_flip_axes))
 
 
-def Oh_action(signal, spatial_axes=(0, 1, 2), new_group_axis=3):
+def Oh_action(signal, spatial_axes=(0, 1, 2), new_group_axis=3, elements=range(48)):
     transformed_signals = []
-    for perm, flip in Oh_parameters:
+    for perm, flip in [Oh_parameters[i] for i in elements]:
         transformed_signal = signal
         for f in flip:
             transformed_signal = ops.flip(transformed_signal, axis=spatial_axes[f])
@@ -2482,9 +2483,20 @@ Oh = Group(
     action=Oh_action,
 )
 
-O = Group(name="O", order=24, parent=Oh)
-D4h = Group(name="D4h", order=16, parent=Oh)
-D4 = Group(name="D4", order=8, parent=Oh)
+
+def Oh_subgroup_action(name):
+    """
+    The action of only the elements of a subgroup of Oh.
+
+    Unlike the action of all of Oh, this also works on cuboids that are symmetric only under
+    the subgroup, i.e. for D4h and D4 the depth can differ from the height and width.
+    """
+    return partial(Oh_action, elements=Oh.subgroup[name])
+
+
+O = Group(name="O", order=24, parent=Oh, action=Oh_subgroup_action("O"))
+D4h = Group(name="D4h", order=16, parent=Oh, action=Oh_subgroup_action("D4h"))
+D4 = Group(name="D4", order=8, parent=Oh, action=Oh_subgroup_action("D4"))
 
 
 space_group_dict = {"Oh": Oh, "O": O, "D4h": D4h, "D4": D4}
-- 
2.43.0


From d535553e1ef3c8925580cb40ce335fea5f7af346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:04 +0000
Subject: [PATCH 08/14] fix: compute the padding for the size of the current
 input

The padding was computed once, for the size the layer was built with, and
applied to inputs of any size, which breaks equivariance for other sizes.
---
 groco/layers/padding.py | 65 ++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 34 deletions(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index fd33797..06011ab 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -1,3 +1,4 @@
+import numpy as np
 from keras import ops
 from keras.layers import Layer
 
@@ -47,62 +48,58 @@ class EquivariantPadding(Layer):
 
         self.allow_non_equivariance = allow_non_equivariance
         self.dimensions = dimensions
-        self.strides = ops.cast(
+        # numpy rather than ops, as these are also needed while tracing a call
+        self.strides = np.array(
             strides
             if isinstance(strides, tuple)
-            else tuple(strides for _ in range(self.dimensions)),
-            "int32",
+            else tuple(strides for _ in range(self.dimensions))
         )
-        self.kernel_sizes = ops.cast(
+        self.kernel_sizes = np.array(
             kernel_size
             if isinstance(kernel_size, tuple)
-            else tuple(kernel_size for _ in range(self.dimensions)),
-            "int32",
+            else tuple(kernel_size for _ in range(self.dimensions))
         )
         # a dilated kernel covers (kernel_size - 1) * dilation_rate + 1 pixels
-        dilation_rates = ops.cast(
+        dilation_rates = np.array(
             dilation_rate
             if isinstance(dilation_rate, tuple)
-            else tuple(dilation_rate for _ in range(self.dimensions)),
-            "int32",
+            else tuple(dilation_rate for _ in range(self.dimensions))
         )
         self.kernel_sizes = (self.kernel_sizes - 1) * dilation_rates + 1
         self.data_format = data_format
         self.transpose = transpose
-        # set during build
-        self.equivariant_padding = None
-        self.needs_padding = None
-
         super().__init__()
 
     def call(self, inputs):
-        if self.needs_padding:
-            return ops.pad(inputs, self.equivariant_padding)
-        else:
-            return inputs
+        # not necessarily the shape the layer was built with
+        padding = self.required_padding(inputs.shape)
+        return inputs if padding is None else ops.pad(inputs, padding)
 
     def build(self, input_shape):
+        # raise an error already here if equivariance can't be maintained
+        self.required_padding(input_shape)
+
+    def required_padding(self, input_shape):
+        """Compute the padding necessary for an input of this shape, None if no padding is."""
         if self.padding_option in ["SAME", "VALID"] and self.allow_non_equivariance:
-            self.needs_padding = False
-            return
+            return None
 
         if self.data_format == "channels_last":
-            spatial_shape = ops.cast(input_shape[1 : 1 + self.dimensions], "int32")
+            spatial_shape = np.array(input_shape[1 : 1 + self.dimensions])
         else:
-            spatial_shape = ops.cast(input_shape[2:], "int32")
+            spatial_shape = np.array(input_shape[2:])
         extra_padding, total_padding = self.compute_equivariant_padding(spatial_shape)
 
-        self.needs_padding = ops.any(extra_padding != 0)
-        if not self.needs_padding:
-            return
+        if not np.any(extra_padding != 0):
+            return None
         elif self.padding_option in ["SAME", "VALID"]:
             raise self.non_equivariant_error(spatial_shape)
 
         # if the stride is even the padding can still be odd, no padding will maintain equivariance
-        if ops.any(total_padding % 2 != 0):
+        if np.any(total_padding % 2 != 0):
             raise self.padding_parity_error(spatial_shape)
 
-        self.equivariant_padding = self.split_padding(extra_padding)
+        return self.split_padding(extra_padding)
 
     def compute_equivariant_padding(self, spatial_shape):
         built_in_padding = self.compute_built_in_padding(spatial_shape)
@@ -111,12 +108,14 @@ class EquivariantPadding(Layer):
 
     def compute_built_in_padding(self, spatial_shape):
         if self.padding_option in ["SAME", "SAME_EQUIV"]:
-            return ops.relu(self.kernel_sizes - self.strides + (-spatial_shape % self.strides))
+            return np.maximum(
+                self.kernel_sizes - self.strides + (-spatial_shape % self.strides), 0
+            )
         else:
             if self.transpose:
-                return ops.relu(self.strides - self.kernel_sizes)
+                return np.maximum(self.strides - self.kernel_sizes, 0)
             else:
-                return ops.zeros_like(self.kernel_sizes)
+                return np.zeros_like(self.kernel_sizes)
 
     def compute_extra_padding(self, spatial_shape, built_in_padding):
         extra_padding = (-(spatial_shape + built_in_padding - self.kernel_sizes)) % self.strides
@@ -129,18 +128,16 @@ class EquivariantPadding(Layer):
     def split_padding(self, paddings):
         # add 0 at both ends, not to pad the batch and channel axes
         if self.data_format == "channels_last":
-            paddings = ops.pad(paddings, [[1, 1]])
+            paddings = np.pad(paddings, [[1, 1]])
         else:
-            paddings = ops.pad(paddings, [[2, 0]])
+            paddings = np.pad(paddings, [[2, 0]])
 
         # paddings may be odd if the 'same' paddings are too, must make sure to do this opposite to 'same' padding
         # to make the total padding the same on both sides
         pads_after = paddings // 2
         pads_before = paddings - pads_after
 
-        return ops.concatenate(
-            [ops.expand_dims(pads_before, axis=1), ops.expand_dims(pads_after, axis=1)], axis=1
-        )
+        return np.stack([pads_before, pads_after], axis=1)
 
     def get_config(self):
         return {
-- 
2.43.0


From 728a8cc76649384b5da30519e8b11e30e31565d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 09/14] fix: pad transposed convolutions on the side opposite
 to the same padding

The 'same' padding of a transposed convolution crops its output, so an odd
extra padding of its input is needed after the input rather than before it.
---
 groco/layers/padding.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 06011ab..82add65 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -136,6 +136,9 @@ class EquivariantPadding(Layer):
         # to make the total padding the same on both sides
         pads_after = paddings // 2
         pads_before = paddings - pads_after
+        if self.transpose:
+            # here 'same' crops the output instead, so the opposite side of the input is the other one
+            pads_before, pads_after = pads_after, pads_before
 
         return np.stack([pads_before, pads_after], axis=1)
 
-- 
2.43.0


From 752d92acf0007f75904d7d6952a35125e0862695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:32 +0000
Subject: [PATCH 10/14] fix: compute the output shape of the given input shape

It ignored its argument in favour of the shape the layer was built with, left
out the extra padding, and used the order of the full group also when the
output is on a subgroup.
---
 groco/layers/conv2d.py           |  2 +-
 groco/layers/conv2d_transpose.py |  2 +-
 groco/layers/conv3d.py           |  2 +-
 groco/layers/conv3d_transpose.py |  2 +-
 groco/layers/group_transforms.py | 13 ++++++++++---
 groco/layers/padding.py          |  7 +++++++
 6 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/groco/layers/conv2d.py b/groco/layers/conv2d.py
index 60dc8b9..663dde1 100644
--- a/groco/layers/conv2d.py
+++ b/groco/layers/conv2d.py
@@ -81,7 +81,7 @@ class GroupConv2D(Conv2D):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
+        input_shape_merged = self.group_transforms.merge_group_axis_and_pad_shape(input_shape)
         output_shape = super().compute_output_shape(input_shape_merged)
         return self.group_transforms.correct_output_shape(output_shape)
 
diff --git a/groco/layers/conv2d_transpose.py b/groco/layers/conv2d_transpose.py
index b5c12e6..7ba1e31 100644
--- a/groco/layers/conv2d_transpose.py
+++ b/groco/layers/conv2d_transpose.py
@@ -79,6 +79,6 @@ class GroupConv2DTranspose(Conv2DTranspose):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
+        input_shape_merged = self.group_transforms.merge_group_axis_and_pad_shape(input_shape)
         output_shape = super().compute_output_shape(input_shape_merged)
         return self.group_transforms.correct_output_shape(output_shape)
diff --git a/groco/layers/conv3d.py b/groco/layers/conv3d.py
index edb1485..f05444a 100644
--- a/groco/layers/conv3d.py
+++ b/groco/layers/conv3d.py
@@ -81,7 +81,7 @@ class GroupConv3D(Conv3D):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
+        input_shape_merged = self.group_transforms.merge_group_axis_and_pad_shape(input_shape)
         output_shape = super().compute_output_shape(input_shape_merged)
         return self.group_transforms.correct_output_shape(output_shape)
 
diff --git a/groco/layers/conv3d_transpose.py b/groco/layers/conv3d_transpose.py
index 2445d47..c36c10b 100644
--- a/groco/layers/conv3d_transpose.py
+++ b/groco/layers/conv3d_transpose.py
@@ -85,6 +85,6 @@ class GroupConv3DTranspose(Conv3DTranspose):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
+        input_shape_merged = self.group_transforms.merge_group_axis_and_pad_shape(input_shape)
         output_shape = super().compute_output_shape(input_shape_merged)
         return self.group_transforms.correct_output_shape(output_shape)
diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 3f3741f..aa2871b 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -215,12 +215,19 @@ class GroupTransforms:
 
         return indices
 
+    def merge_group_axis_and_pad_shape(self, input_shape):
+        """The shape of `merge_group_axis_and_pad`'s output, also for an already merged shape."""
+        if len(input_shape) == self.dimensions + 3:
+            input_shape = utils.merge_shapes(
+                input_shape, merged_axis=self.group_axis, target_axis=self.channels_axis
+            )
+        return self.equivariant_padding.compute_output_shape(input_shape)
+
     def correct_output_shape(self, output_shape):
         """Insert the group axis in the correct place."""
         output_shape = list(output_shape)
-        return (
-            output_shape[: self.group_axis] + [self.group.order] + output_shape[self.group_axis :]
-        )
+        order = len(self.group.subgroup[self.acting_group])
+        return output_shape[: self.group_axis] + [order] + output_shape[self.group_axis :]
 
     def get_config(self):
         config = {"group": self.group, "subgroup": self.subgroup.name}
diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 82add65..a5997af 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -79,6 +79,13 @@ class EquivariantPadding(Layer):
         # raise an error already here if equivariance can't be maintained
         self.required_padding(input_shape)
 
+    def compute_output_shape(self, input_shape):
+        padding = self.required_padding(input_shape)
+        if padding is None:
+            return tuple(input_shape)
+        # the batch size, which is never padded, may be unknown
+        return tuple(s + int(sum(p)) if any(p) else s for s, p in zip(input_shape, padding))
+
     def required_padding(self, input_shape):
         """Compute the padding necessary for an input of this shape, None if no padding is."""
         if self.padding_option in ["SAME", "VALID"] and self.allow_non_equivariance:
-- 
2.43.0


From 1ae61518f05920e14a2a929c30089cd9f3f99e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:01 +0000
Subject: [PATCH 11/14] fix: make the configuration of the layers complete and
 serializable

Calling get_config raised an AttributeError, and the configuration contained
the group object. Now it holds the group's and subgroup's names and the
original padding option, the pooling layers keep their name, and tuples may be
lists, as they are in a deserialized configuration.
---
 groco/layers/group_transforms.py | 11 ++++++++---
 groco/layers/padding.py          | 16 +++++++++++-----
 groco/layers/pooling.py          |  9 ++++++---
 3 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index aa2871b..eac60f0 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -230,9 +230,14 @@ class GroupTransforms:
         return output_shape[: self.group_axis] + [order] + output_shape[self.group_axis :]
 
     def get_config(self):
-        config = {"group": self.group, "subgroup": self.subgroup.name}
-        config.update(self.equivariant_padding.get_config())
-        return config
+        # the remaining settings are those of the Keras layer
+        config = self.equivariant_padding.get_config()
+        return {
+            "group": self.group.name,
+            "subgroup": self.subgroup.name,
+            "padding": config["padding"],
+            "allow_non_equivariance": config["allow_non_equivariance"],
+        }
 
     def prepare_call(self, kernel, bias, filters, inputs, use_bias):
         inputs = self.merge_group_axis_and_pad(inputs)
diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index a5997af..7a7bfe6 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -43,6 +43,9 @@ class EquivariantPadding(Layer):
         dilation_rate=1,
         **kwargs,
     ):
+        self.kernel_size = kernel_size
+        self.dilation_rate = dilation_rate
+        self.padding = padding
         self.padding_option = self.format_padding_option(padding)
         self.built_in_padding_option = padding[:-6] if padding.endswith("_equiv") else padding
 
@@ -51,18 +54,18 @@ class EquivariantPadding(Layer):
         # numpy rather than ops, as these are also needed while tracing a call
         self.strides = np.array(
             strides
-            if isinstance(strides, tuple)
+            if isinstance(strides, (tuple, list))
             else tuple(strides for _ in range(self.dimensions))
         )
         self.kernel_sizes = np.array(
             kernel_size
-            if isinstance(kernel_size, tuple)
+            if isinstance(kernel_size, (tuple, list))
             else tuple(kernel_size for _ in range(self.dimensions))
         )
         # a dilated kernel covers (kernel_size - 1) * dilation_rate + 1 pixels
         dilation_rates = np.array(
             dilation_rate
-            if isinstance(dilation_rate, tuple)
+            if isinstance(dilation_rate, (tuple, list))
             else tuple(dilation_rate for _ in range(self.dimensions))
         )
         self.kernel_sizes = (self.kernel_sizes - 1) * dilation_rates + 1
@@ -152,10 +155,13 @@ class EquivariantPadding(Layer):
     def get_config(self):
         return {
             "kernel_size": self.kernel_size,
-            "strides": self.strides,
+            "dimensions": self.dimensions,
+            "strides": tuple(self.strides.tolist()),
             "padding": self.padding,
             "allow_non_equivariance": self.allow_non_equivariance,
-            "dimensions": self.dimensions,
+            "data_format": self.data_format,
+            "transpose": self.transpose,
+            "dilation_rate": self.dilation_rate,
         }
 
     @staticmethod
diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index dacfa8a..45a5374 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -32,9 +32,10 @@ class GroupPooling(Layer):
         allow_non_equivariance: bool = False,
         subgroup="",
         pool_size=2,
+        name=None,
         **kwargs
     ):
-        super().__init__()
+        super().__init__(name=name)
 
         # as in Keras, the strides default to the pool size
         if kwargs.get("strides") is None:
@@ -74,6 +75,7 @@ class GroupPooling(Layer):
 
     def get_config(self):
         config = self.pooling.get_config()
+        config["name"] = self.name
         config.update(self.group_transforms.get_config())
         return config
 
@@ -83,8 +85,8 @@ class GlobalGroupPooling(Layer):
     Base global group pooling layer. Only meant to be subclassed.
     """
 
-    def __init__(self, dimensions: int, pool_type: str, **kwargs):
-        super().__init__()
+    def __init__(self, dimensions: int, pool_type: str, name=None, **kwargs):
+        super().__init__(name=name)
         self.dimensions = dimensions
         self.pool_type = pool_type
         if self.dimensions == 1:
@@ -130,6 +132,7 @@ class GlobalGroupPooling(Layer):
 
     def get_config(self):
         config = self.pooling.get_config()
+        config["name"] = self.name
         return config
 
 
-- 
2.43.0


From b6a3cdb2321c992aa683bd3253b5c672b16f3f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:55 +0000
Subject: [PATCH 12/14] fix: let an unset data format mean Keras's default one

The group layers took it to mean channels_last, while the Keras layers they
wrap follow keras.config.image_data_format().
---
 groco/layers/group_transforms.py | 11 ++++++-----
 groco/layers/pooling.py          |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index eac60f0..1984b53 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -1,4 +1,4 @@
-from keras import ops
+from keras import config, ops
 from keras.layers import Layer
 
 from groco import utils
@@ -30,7 +30,7 @@ class GroupTransforms:
         group,
         kernel_size,
         dimensions: int,
-        data_format="channels_last",
+        data_format=None,
         allow_non_equivariance: bool = False,
         subgroup="",
         transpose=False,
@@ -39,6 +39,7 @@ class GroupTransforms:
     ):
         super().__init__()
 
+        data_format = config.image_data_format() if data_format is None else data_format.lower()
         self.dimensions = dimensions
         self.transpose = transpose
         self.separable = separable
@@ -231,12 +232,12 @@ class GroupTransforms:
 
     def get_config(self):
         # the remaining settings are those of the Keras layer
-        config = self.equivariant_padding.get_config()
+        padding_config = self.equivariant_padding.get_config()
         return {
             "group": self.group.name,
             "subgroup": self.subgroup.name,
-            "padding": config["padding"],
-            "allow_non_equivariance": config["allow_non_equivariance"],
+            "padding": padding_config["padding"],
+            "allow_non_equivariance": padding_config["allow_non_equivariance"],
         }
 
     def prepare_call(self, kernel, bias, filters, inputs, use_bias):
diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 45a5374..76fdcb9 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -97,7 +97,7 @@ class GlobalGroupPooling(Layer):
             pool_layer = GlobalMaxPooling3D if self.pool_type == "max" else GlobalAveragePooling3D
         self.pooling = pool_layer(**kwargs)
 
-        if "data_format" in kwargs and kwargs["data_format"] == "channels_first":
+        if self.pooling.data_format == "channels_first":
             self.group_axis = self.dimensions + 2
             self.channels_axis = 1
         else:
-- 
2.43.0


From 0281b855151bf88a0ae715ae888a316e163e1af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:08 +0000
Subject: [PATCH 13/14] fix: fill in zero, not the first kernel entry, outside
 of a subgroup

When a transposed convolution upsamples to a supergroup, the kernel's indices
were set to 0 outside of the subgroup, which is the first entry of the kernel
rather than zero.
---
 groco/layers/group_transforms.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 1984b53..3ad967c 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -102,7 +102,9 @@ class GroupTransforms:
         (height, width, domain_group.order * channels_in, channels_out) ->
         (height, width, domain_group.order * channels_in, acting_group.order * channels_out)
         """
-        return ops.take(ops.reshape(kernel, [-1]), indices=self._transformed_kernel_indices, axis=0)
+        # a zero is put in front, for the group elements outside of the subgroup the signal is on
+        kernel = ops.pad(ops.reshape(kernel, [-1]), [[1, 0]])
+        return ops.take(kernel, indices=self._transformed_kernel_indices, axis=0)
 
     def restore_group_axis(self, outputs):
         """
@@ -182,7 +184,8 @@ class GroupTransforms:
         if self.transpose:
             kernel = ops.swapaxes(kernel, -1, -2)
 
-        indices = utils.get_index_tensor(kernel)
+        # index 0 is reserved for zero, which is what the group action fills in outside of a subgroup
+        indices = utils.get_index_tensor(kernel) + 1
 
         kwargs = {
             "new_group_axis": self.dimensions,
-- 
2.43.0


From 0de816ea55b554a6d652fd48b6e9cc9b1f897cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:07 +0000
Subject: [PATCH 14/14] fix: let a transposed convolution's kernel be the Keras
 layer's kernel

Its indices were computed for the shape with the channel axes swapped, but used
to gather from the kernel without swapping, which mixed up its channels.
---
 groco/layers/group_transforms.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 3ad967c..aa5a901 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -181,11 +181,10 @@ class GroupTransforms:
         """
         Compute a tensor of indices used to gather from the kernel to produce the group action on it.
         """
-        if self.transpose:
-            kernel = ops.swapaxes(kernel, -1, -2)
-
         # index 0 is reserved for zero, which is what the group action fills in outside of a subgroup
         indices = utils.get_index_tensor(kernel) + 1
+        if self.transpose:
+            indices = ops.swapaxes(indices, -1, -2)
 
         kwargs = {
             "new_group_axis": self.dimensions,
-- 
2.43.0

