From d24f53967bfad93d89695fa95fc538d1e066384f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 01/25] fix: raise the padding error instead of AttributeError
 for unsatisfiable same_equiv padding

---
 groco/layers/padding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 80716c9..c6b49fb 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -178,6 +178,6 @@ class EquivariantPadding(Layer):
             f"strides: {tuple(self.strides)},\n"
         )
         if self.padding_option == "SAME_EQUIV":
-            same_padding = self.compute_same_padding(spatial_shape)
+            same_padding = self.compute_built_in_padding(spatial_shape)
             message += f"built-in same padding: {tuple(same_padding)}"
         return message
-- 
2.43.0


From e92b6787621d9cc8af81fd3d11fccbd5e981b302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 02/25] fix: restore conv layer attributes after a failing call
 and serialize concurrent calls

---
 groco/utils/misc.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/groco/utils/misc.py b/groco/utils/misc.py
index 992e9e1..d6018cf 100644
--- a/groco/utils/misc.py
+++ b/groco/utils/misc.py
@@ -1,3 +1,8 @@
+import threading
+
+_call_lock = threading.RLock()
+
+
 def backup_and_restore(attribute_names):
     """
     Decorator that backs up given attributes, runs the function, and then restores the backed up values.
@@ -5,11 +10,14 @@ def backup_and_restore(attribute_names):
 
     def decorator(function):
         def wrapper(self, inputs):
-            backup = {name: getattr(self, name) for name in attribute_names}
-            result = function(self, inputs)
-            for name in attribute_names:
-                setattr(self, name, backup[name])
-            return result
+            # the attributes are changed on the instance itself, so calls must not overlap
+            with _call_lock:
+                backup = {name: getattr(self, name) for name in attribute_names}
+                try:
+                    return function(self, inputs)
+                finally:
+                    for name in attribute_names:
+                        setattr(self, name, backup[name])
 
         return wrapper
 
-- 
2.43.0


From d3e920739e737ae607b437c2277d4a26d057c1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 03/25] fix: pass data_format on to the equivariant padding

---
 groco/layers/group_transforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index d4d231c..3f3741f 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -53,6 +53,7 @@ class GroupTransforms:
             allow_non_equivariance=allow_non_equivariance,
             kernel_size=kernel_size,
             dimensions=dimensions,
+            data_format=data_format,
             transpose=transpose,
             **kwargs,
         )
-- 
2.43.0


From e52a4f52298b5c95de4bb253d60dd842f204a378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 04/25] fix: follow the Keras default when data_format is not
 set

---
 groco/layers/group_transforms.py | 6 ++++--
 groco/layers/pooling.py          | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 3f3741f..077d46c 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -1,4 +1,4 @@
-from keras import ops
+from keras import config, ops
 from keras.layers import Layer
 
 from groco import utils
@@ -30,7 +30,7 @@ class GroupTransforms:
         group,
         kernel_size,
         dimensions: int,
-        data_format="channels_last",
+        data_format=None,
         allow_non_equivariance: bool = False,
         subgroup="",
         transpose=False,
@@ -38,6 +38,8 @@ class GroupTransforms:
         **kwargs,
     ):
         super().__init__()
+        # same default as the Keras layers
+        data_format = data_format or config.image_data_format()
 
         self.dimensions = dimensions
         self.transpose = transpose
diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 94bdcc4..6bfd7d8 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -91,7 +91,7 @@ class GlobalGroupPooling(Layer):
             pool_layer = GlobalMaxPooling3D if self.pool_type == "max" else GlobalAveragePooling3D
         self.pooling = pool_layer(**kwargs)
 
-        if "data_format" in kwargs and kwargs["data_format"] == "channels_first":
+        if self.pooling.data_format == "channels_first":
             self.group_axis = self.dimensions + 2
             self.channels_axis = 1
         else:
-- 
2.43.0


From d0c0a0cbc9d6bc72ac904c1effc72786a201bb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 05/25] fix: compute the padding of pooling layers with the
 default strides pool_size

---
 groco/layers/pooling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 6bfd7d8..949c704 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -37,6 +37,9 @@ class GroupPooling(Layer):
         super().__init__()
 
         self.dimensions = dimensions
+        # same default as the Keras pooling layers, the padding depends on the actual strides
+        if kwargs.get("strides") is None:
+            kwargs["strides"] = pool_size
         self.group_transforms = GroupTransforms(
             allow_non_equivariance=allow_non_equivariance,
             kernel_size=pool_size,
-- 
2.43.0


From 7d4d355f6823f7c6aecd1cfcd4be35a5b658a7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 06/25] fix: accept the documented subgroup=None as the full
 group

---
 groco/layers/group_transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 077d46c..677d451 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -46,7 +46,7 @@ class GroupTransforms:
         self.separable = separable
 
         self.group = group if isinstance(group, Group) else group_dict[group]
-        self.subgroup = group_dict[self.group.parse_subgroup(subgroup)]
+        self.subgroup = group_dict[self.group.parse_subgroup(subgroup or "")]
         self.domain_group, self.acting_group = self.group.name, self.subgroup.name
         if transpose:
             self.domain_group, self.acting_group = self.acting_group, self.domain_group
-- 
2.43.0


From eabf61e7ced6e73a65d88e256c2c81c52180c373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 07/25] fix: accept padding options in upper case in the layers
 too

---
 groco/layers/padding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index c6b49fb..356f579 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -41,7 +41,7 @@ class EquivariantPadding(Layer):
         **kwargs,
     ):
         self.padding_option = self.format_padding_option(padding)
-        self.built_in_padding_option = padding[:-6] if padding.endswith("_equiv") else padding
+        self.built_in_padding_option = self.padding_option.lower().removesuffix("_equiv")
 
         self.allow_non_equivariance = allow_non_equivariance
         self.dimensions = dimensions
-- 
2.43.0


From 33e7ea3d6e2f166fe1a9be12b4cf8f8961ddbe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:04 +0000
Subject: [PATCH 08/25] fix: keep the dtype of the inputs in the equivariant
 padding

---
 groco/layers/padding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 356f579..da9480d 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -63,7 +63,8 @@ class EquivariantPadding(Layer):
         self.equivariant_padding = None
         self.needs_padding = None
 
-        super().__init__()
+        # the inputs keep the dtype of the layer this is used in
+        super().__init__(autocast=False)
 
     def call(self, inputs):
         if self.needs_padding:
-- 
2.43.0


From f9e47ceb3409928c31aaa37f5305102e2a949179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:04 +0000
Subject: [PATCH 09/25] fix: take the dilation rate into account in the
 equivariant padding

---
 groco/layers/padding.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index da9480d..231e30f 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -27,6 +27,7 @@ class EquivariantPadding(Layer):
         allow_non_equivariance: bool, whether to allow non-equivariant padding.
         data_format: string, one of 'channels_last', 'channels_first'.
         transpose: bool, whether the layer is a transposed convolution.
+        dilation_rate: int or tuple of int, the dilation rate of the convolution.
     """
 
     def __init__(
@@ -38,6 +39,7 @@ class EquivariantPadding(Layer):
         allow_non_equivariance=False,
         data_format="channels_last",
         transpose=False,
+        dilation_rate=1,
         **kwargs,
     ):
         self.padding_option = self.format_padding_option(padding)
@@ -57,6 +59,14 @@ class EquivariantPadding(Layer):
             else tuple(kernel_size for _ in range(self.dimensions)),
             "int32",
         )
+        # the size that a dilated kernel covers
+        dilation_rates = ops.cast(
+            dilation_rate
+            if isinstance(dilation_rate, tuple)
+            else tuple(dilation_rate for _ in range(self.dimensions)),
+            "int32",
+        )
+        self.kernel_sizes = (self.kernel_sizes - 1) * dilation_rates + 1
         self.data_format = data_format
         self.transpose = transpose
         # set during build
-- 
2.43.0


From 677946bba36899e8a9810d7488e54b1765d23140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:12 +0000
Subject: [PATCH 10/25] fix: recompute the equivariant padding when the spatial
 shape changes between calls

---
 groco/layers/padding.py | 50 ++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 231e30f..e56898c 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -1,3 +1,4 @@
+import numpy as np
 from keras import ops
 from keras.layers import Layer
 
@@ -47,20 +48,20 @@ class EquivariantPadding(Layer):
 
         self.allow_non_equivariance = allow_non_equivariance
         self.dimensions = dimensions
-        self.strides = ops.cast(
+        self.strides = np.array(
             strides
             if isinstance(strides, tuple)
             else tuple(strides for _ in range(self.dimensions)),
             "int32",
         )
-        self.kernel_sizes = ops.cast(
+        self.kernel_sizes = np.array(
             kernel_size
             if isinstance(kernel_size, tuple)
             else tuple(kernel_size for _ in range(self.dimensions)),
             "int32",
         )
         # the size that a dilated kernel covers
-        dilation_rates = ops.cast(
+        dilation_rates = np.array(
             dilation_rate
             if isinstance(dilation_rate, tuple)
             else tuple(dilation_rate for _ in range(self.dimensions)),
@@ -71,39 +72,42 @@ class EquivariantPadding(Layer):
         self.transpose = transpose
         # set during build
         self.equivariant_padding = None
-        self.needs_padding = None
 
         # the inputs keep the dtype of the layer this is used in
         super().__init__(autocast=False)
 
     def call(self, inputs):
-        if self.needs_padding:
-            return ops.pad(inputs, self.equivariant_padding)
+        # the padding depends on the spatial shape, which may differ from one call to the next
+        equivariant_padding = self.compute_padding(inputs.shape)
+        if equivariant_padding is not None:
+            return ops.pad(inputs, equivariant_padding)
         else:
             return inputs
 
     def build(self, input_shape):
+        self.equivariant_padding = self.compute_padding(input_shape)
+
+    def compute_padding(self, input_shape):
+        """Compute the extra padding for every axis, or None if no extra padding is needed."""
         if self.padding_option in ["SAME", "VALID"] and self.allow_non_equivariance:
-            self.needs_padding = False
-            return
+            return None
 
         if self.data_format == "channels_last":
-            spatial_shape = ops.cast(input_shape[1 : 1 + self.dimensions], "int32")
+            spatial_shape = np.array(input_shape[1 : 1 + self.dimensions], "int32")
         else:
-            spatial_shape = ops.cast(input_shape[2:], "int32")
+            spatial_shape = np.array(input_shape[2:], "int32")
         extra_padding, total_padding = self.compute_equivariant_padding(spatial_shape)
 
-        self.needs_padding = ops.any(extra_padding != 0)
-        if not self.needs_padding:
-            return
+        if not np.any(extra_padding != 0):
+            return None
         elif self.padding_option in ["SAME", "VALID"]:
             raise self.non_equivariant_error(spatial_shape)
 
         # if the stride is even the padding can still be odd, no padding will maintain equivariance
-        if ops.any(total_padding % 2 != 0):
+        if np.any(total_padding % 2 != 0):
             raise self.padding_parity_error(spatial_shape)
 
-        self.equivariant_padding = self.split_padding(extra_padding)
+        return self.split_padding(extra_padding)
 
     def compute_equivariant_padding(self, spatial_shape):
         built_in_padding = self.compute_built_in_padding(spatial_shape)
@@ -112,12 +116,14 @@ class EquivariantPadding(Layer):
 
     def compute_built_in_padding(self, spatial_shape):
         if self.padding_option in ["SAME", "SAME_EQUIV"]:
-            return ops.relu(self.kernel_sizes - self.strides + (-spatial_shape % self.strides))
+            return np.maximum(
+                self.kernel_sizes - self.strides + (-spatial_shape % self.strides), 0
+            )
         else:
             if self.transpose:
-                return ops.relu(self.strides - self.kernel_sizes)
+                return np.maximum(self.strides - self.kernel_sizes, 0)
             else:
-                return ops.zeros_like(self.kernel_sizes)
+                return np.zeros_like(self.kernel_sizes)
 
     def compute_extra_padding(self, spatial_shape, built_in_padding):
         extra_padding = (-(spatial_shape + built_in_padding - self.kernel_sizes)) % self.strides
@@ -130,18 +136,16 @@ class EquivariantPadding(Layer):
     def split_padding(self, paddings):
         # add 0 at both ends, not to pad the batch and channel axes
         if self.data_format == "channels_last":
-            paddings = ops.pad(paddings, [[1, 1]])
+            paddings = np.pad(paddings, [[1, 1]])
         else:
-            paddings = ops.pad(paddings, [[2, 0]])
+            paddings = np.pad(paddings, [[2, 0]])
 
         # paddings may be odd if the 'same' paddings are too, must make sure to do this opposite to 'same' padding
         # to make the total padding the same on both sides
         pads_after = paddings // 2
         pads_before = paddings - pads_after
 
-        return ops.concatenate(
-            [ops.expand_dims(pads_before, axis=1), ops.expand_dims(pads_after, axis=1)], axis=1
-        )
+        return np.stack([pads_before, pads_after], axis=1)
 
     def get_config(self):
         return {
-- 
2.43.0


From 1f5bf30039b98be2a5e53fd18e2f9371c78a1a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:12 +0000
Subject: [PATCH 11/25] fix: accept lists for the sizes in the equivariant
 padding, as the Keras layers do

---
 groco/layers/padding.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index e56898c..f6facc7 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -50,20 +50,20 @@ class EquivariantPadding(Layer):
         self.dimensions = dimensions
         self.strides = np.array(
             strides
-            if isinstance(strides, tuple)
+            if isinstance(strides, (tuple, list))
             else tuple(strides for _ in range(self.dimensions)),
             "int32",
         )
         self.kernel_sizes = np.array(
             kernel_size
-            if isinstance(kernel_size, tuple)
+            if isinstance(kernel_size, (tuple, list))
             else tuple(kernel_size for _ in range(self.dimensions)),
             "int32",
         )
         # the size that a dilated kernel covers
         dilation_rates = np.array(
             dilation_rate
-            if isinstance(dilation_rate, tuple)
+            if isinstance(dilation_rate, (tuple, list))
             else tuple(dilation_rate for _ in range(self.dimensions)),
             "int32",
         )
-- 
2.43.0


From ad476e26a310c01087e93260b3c0e80a7068ebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:49 +0000
Subject: [PATCH 12/25] fix: take subgroup, padding and the actual input into
 account in compute_output_shape

---
 groco/layers/conv2d.py           |  2 +-
 groco/layers/conv2d_transpose.py |  2 +-
 groco/layers/conv3d.py           |  2 +-
 groco/layers/conv3d_transpose.py |  2 +-
 groco/layers/group_transforms.py | 20 ++++++++++++++++----
 5 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/groco/layers/conv2d.py b/groco/layers/conv2d.py
index 60dc8b9..53ce14d 100644
--- a/groco/layers/conv2d.py
+++ b/groco/layers/conv2d.py
@@ -81,7 +81,7 @@ class GroupConv2D(Conv2D):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
+        input_shape_merged = self.group_transforms.merge_and_pad_shape(input_shape)
         output_shape = super().compute_output_shape(input_shape_merged)
         return self.group_transforms.correct_output_shape(output_shape)
 
diff --git a/groco/layers/conv2d_transpose.py b/groco/layers/conv2d_transpose.py
index b5c12e6..38ec504 100644
--- a/groco/layers/conv2d_transpose.py
+++ b/groco/layers/conv2d_transpose.py
@@ -79,6 +79,6 @@ class GroupConv2DTranspose(Conv2DTranspose):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
+        input_shape_merged = self.group_transforms.merge_and_pad_shape(input_shape)
         output_shape = super().compute_output_shape(input_shape_merged)
         return self.group_transforms.correct_output_shape(output_shape)
diff --git a/groco/layers/conv3d.py b/groco/layers/conv3d.py
index edb1485..86892c4 100644
--- a/groco/layers/conv3d.py
+++ b/groco/layers/conv3d.py
@@ -81,7 +81,7 @@ class GroupConv3D(Conv3D):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
+        input_shape_merged = self.group_transforms.merge_and_pad_shape(input_shape)
         output_shape = super().compute_output_shape(input_shape_merged)
         return self.group_transforms.correct_output_shape(output_shape)
 
diff --git a/groco/layers/conv3d_transpose.py b/groco/layers/conv3d_transpose.py
index 2445d47..6719dd6 100644
--- a/groco/layers/conv3d_transpose.py
+++ b/groco/layers/conv3d_transpose.py
@@ -85,6 +85,6 @@ class GroupConv3DTranspose(Conv3DTranspose):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
+        input_shape_merged = self.group_transforms.merge_and_pad_shape(input_shape)
         output_shape = super().compute_output_shape(input_shape_merged)
         return self.group_transforms.correct_output_shape(output_shape)
diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 677d451..4791a93 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -217,12 +217,24 @@ class GroupTransforms:
 
         return indices
 
+    def merge_and_pad_shape(self, input_shape):
+        """Shape of the input after `merge_group_axis_and_pad`, that the convolution acts on."""
+        shape = list(input_shape)
+        if len(shape) == self.dimensions + 3:
+            channels_axis = 1 if self.data_format == "channels_first" else -1
+            shape = utils.merge_shapes(
+                shape, merged_axis=self.group_axis, target_axis=channels_axis
+            )
+        padding = self.equivariant_padding.compute_padding(shape)
+        if padding is not None:
+            shape = [s if s is None else s + int(sum(p)) for s, p in zip(shape, padding)]
+        return tuple(shape)
+
     def correct_output_shape(self, output_shape):
         """Insert the group axis in the correct place."""
-        output_shape = list(output_shape)
-        return (
-            output_shape[: self.group_axis] + [self.group.order] + output_shape[self.group_axis :]
-        )
+        output_shape = tuple(output_shape)
+        order = len(self.group.subgroup[self.acting_group])
+        return output_shape[: self.group_axis] + (order,) + output_shape[self.group_axis :]
 
     def get_config(self):
         config = {"group": self.group, "subgroup": self.subgroup.name}
-- 
2.43.0


From f228a892e2549a3069fd9c79b3b2251a0725c045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:49 +0000
Subject: [PATCH 13/25] fix: do not move the channels axis again when a pooling
 layer is built twice

---
 groco/layers/group_transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 4791a93..b494107 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -139,8 +139,8 @@ class GroupTransforms:
         self.group_valued_input = len(input_shape) == self.dimensions + 3
         if not self.group_valued_input:
             self.domain_group = None
-        if self.data_format == "channels_last" and self.group_valued_input:
-            self.channels_axis += 1
+        if self.data_format == "channels_last":
+            self.channels_axis = self.dimensions + 1 + self.group_valued_input
 
         if self.group_valued_input:
             order = len(self.group.subgroup[self.domain_group])
-- 
2.43.0


From 55f68b8293e5d85448710d2dc8aeb6e7a457d0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:12 +0000
Subject: [PATCH 14/25] fix: reject signals on the grid in group pooling layers
 instead of returning NaN

---
 groco/layers/pooling.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 949c704..067b007 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -67,6 +67,11 @@ class GroupPooling(Layer):
         return self.group_transforms.restore_group_axis(outputs)
 
     def build(self, input_shape):
+        if len(input_shape) != self.dimensions + 3:
+            raise ValueError(
+                f"Expected a signal on the group, of rank {self.dimensions + 3}, "
+                f"received input shape {tuple(input_shape)}."
+            )
         self.group_transforms.build(input_shape)
         self.pooling.build(self.group_transforms.reshaped_input)
         self.group_transforms.build_pool()
-- 
2.43.0


From 1e18b0db4210441f50b3752c7826f88c387601d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:28 +0000
Subject: [PATCH 15/25] fix: return a config from which the layers can be
 recreated

---
 groco/layers/group_transforms.py |  9 ++++++---
 groco/layers/padding.py          | 23 +++++++++++++++--------
 groco/layers/pooling.py          | 11 +++++++++--
 3 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index b494107..5e7ca2d 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -237,9 +237,12 @@ class GroupTransforms:
         return output_shape[: self.group_axis] + (order,) + output_shape[self.group_axis :]
 
     def get_config(self):
-        config = {"group": self.group, "subgroup": self.subgroup.name}
-        config.update(self.equivariant_padding.get_config())
-        return config
+        return {
+            "group": self.group.name,
+            "subgroup": self.subgroup.name,
+            "padding": self.equivariant_padding.padding_option.lower(),
+            "allow_non_equivariance": self.equivariant_padding.allow_non_equivariance,
+        }
 
     def prepare_call(self, kernel, bias, filters, inputs, use_bias):
         inputs = self.merge_group_axis_and_pad(inputs)
diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index f6facc7..e874724 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -43,6 +43,17 @@ class EquivariantPadding(Layer):
         dilation_rate=1,
         **kwargs,
     ):
+        # the arguments as given, needed to recreate the layer from its config
+        self._arguments = {
+            "kernel_size": kernel_size,
+            "dimensions": dimensions,
+            "strides": strides,
+            "padding": padding,
+            "allow_non_equivariance": allow_non_equivariance,
+            "data_format": data_format,
+            "transpose": transpose,
+            "dilation_rate": dilation_rate,
+        }
         self.padding_option = self.format_padding_option(padding)
         self.built_in_padding_option = self.padding_option.lower().removesuffix("_equiv")
 
@@ -74,7 +85,7 @@ class EquivariantPadding(Layer):
         self.equivariant_padding = None
 
         # the inputs keep the dtype of the layer this is used in
-        super().__init__(autocast=False)
+        super().__init__(name=kwargs.get("name"), autocast=False)
 
     def call(self, inputs):
         # the padding depends on the spatial shape, which may differ from one call to the next
@@ -148,13 +159,9 @@ class EquivariantPadding(Layer):
         return np.stack([pads_before, pads_after], axis=1)
 
     def get_config(self):
-        return {
-            "kernel_size": self.kernel_size,
-            "strides": self.strides,
-            "padding": self.padding,
-            "allow_non_equivariance": self.allow_non_equivariance,
-            "dimensions": self.dimensions,
-        }
+        config = super().get_config()
+        config.update(self._arguments)
+        return config
 
     @staticmethod
     def format_padding_option(padding_option):
diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 067b007..897104a 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -19,6 +19,11 @@ from groco import utils
 from groco.layers.group_transforms import GroupTransforms
 
 
+def _layer_kwargs(kwargs):
+    """Arguments that concern the layer itself, rather than only the pooling done inside it."""
+    return {key: kwargs[key] for key in ("name", "trainable", "dtype") if key in kwargs}
+
+
 class GroupPooling(Layer):
     """
     Base group pooling layer. Only meant to be subclassed.
@@ -34,7 +39,7 @@ class GroupPooling(Layer):
         pool_size=2,
         **kwargs
     ):
-        super().__init__()
+        super().__init__(**_layer_kwargs(kwargs))
 
         self.dimensions = dimensions
         # same default as the Keras pooling layers, the padding depends on the actual strides
@@ -78,6 +83,7 @@ class GroupPooling(Layer):
 
     def get_config(self):
         config = self.pooling.get_config()
+        config["name"] = self.name
         config.update(self.group_transforms.get_config())
         return config
 
@@ -88,7 +94,7 @@ class GlobalGroupPooling(Layer):
     """
 
     def __init__(self, dimensions: int, pool_type: str, **kwargs):
-        super().__init__()
+        super().__init__(**_layer_kwargs(kwargs))
         self.dimensions = dimensions
         self.pool_type = pool_type
         if self.dimensions == 1:
@@ -134,6 +140,7 @@ class GlobalGroupPooling(Layer):
 
     def get_config(self):
         config = self.pooling.get_config()
+        config["name"] = self.name
         return config
 
 
-- 
2.43.0


From 03ff3e852b8490e08f34befa081af1f0b4ced1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:30 +0000
Subject: [PATCH 16/25] fix: let the Oh action respect spatial axes that are
 not contiguous and in order

---
 groco/groups/space_groups.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/groco/groups/space_groups.py b/groco/groups/space_groups.py
index 7748923..1c04cc3 100644
--- a/groco/groups/space_groups.py
+++ b/groco/groups/space_groups.py
@@ -10,13 +10,13 @@ Oh_parameters = list(itertools.product(Oh_permutation_tuples, Oh_flip_axes))
 
 
 def Oh_action(signal, spatial_axes=(0, 1, 2), new_group_axis=3):
-    offset = spatial_axes[0]
-    prefix = tuple(range(offset))
-    suffix = tuple(range(offset + 3, ops.ndim(signal)))
-    Oh_params = [
-        (prefix + tuple(p + offset for p in perm) + suffix, [f + offset for f in flip])
-        for (perm, flip) in Oh_parameters
-    ]
+    # the spatial axes need not be contiguous, nor in order
+    Oh_params = []
+    for perm, flip in Oh_parameters:
+        axes = list(range(ops.ndim(signal)))
+        for axis, p in zip(spatial_axes, perm):
+            axes[axis] = spatial_axes[p]
+        Oh_params.append((tuple(axes), [spatial_axes[f] for f in flip]))
     transformed_signals = []
     for perm, flip in Oh_params:
         transformed_signal = signal
-- 
2.43.0


From 22a9392bba539064bac729b48c202335b7676326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:58 +0000
Subject: [PATCH 17/25] fix: let negative axes in the group action refer to the
 same axes once the group axis is added

---
 groco/groups/group.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/groco/groups/group.py b/groco/groups/group.py
index 8a6e856..e9605a0 100644
--- a/groco/groups/group.py
+++ b/groco/groups/group.py
@@ -73,6 +73,12 @@ class Group:
             Tensor of the signal acted on by the group.
         """
         acting_group, domain_group = self.parse_subgroups(acting_group, domain_group)
+        # negative axes count from the end, also once the new group axis is inserted
+        ndim = ops.ndim(signal)
+        spatial_axes = tuple(axis % ndim for axis in spatial_axes)
+        group_axis = group_axis if group_axis is None else group_axis % ndim
+        new_group_axis = new_group_axis % (ndim + 1)
+
         action = self._action_on_group if domain_group else self._action_on_grid
         signal = action(
             signal,
-- 
2.43.0


From e49847d2a718dabd57f5b5120d393b2828a8a6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:18 +0000
Subject: [PATCH 18/25] fix: fill in the kernel with zeros, not its first
 weight, outside of the subgroup in transposed convolutions

---
 groco/layers/group_transforms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 5e7ca2d..8b3d274 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -103,7 +103,9 @@ class GroupTransforms:
         (height, width, domain_group.order * channels_in, channels_out) ->
         (height, width, domain_group.order * channels_in, acting_group.order * channels_out)
         """
-        return ops.take(ops.reshape(kernel, [-1]), indices=self._transformed_kernel_indices, axis=0)
+        # index 0 stands for the zeros that the kernel is filled in with outside of its domain group
+        kernel = ops.pad(ops.reshape(kernel, [-1]), [[1, 0]])
+        return ops.take(kernel, indices=self._transformed_kernel_indices, axis=0)
 
     def restore_group_axis(self, outputs):
         """
@@ -183,7 +185,7 @@ class GroupTransforms:
         if self.transpose:
             kernel = ops.swapaxes(kernel, -1, -2)
 
-        indices = utils.get_index_tensor(kernel)
+        indices = 1 + utils.get_index_tensor(kernel)
 
         kwargs = {
             "new_group_axis": self.dimensions,
-- 
2.43.0


From bbbe7d253f9ae1a2af42c47b95dacdaa32a5b2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:47 +0000
Subject: [PATCH 19/25] fix: let D4 and D4h act on the cuboids they are the
 symmetries of

---
 groco/groups/group.py        | 21 +++++++++++++++++----
 groco/groups/space_groups.py |  4 ++--
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/groco/groups/group.py b/groco/groups/group.py
index e9605a0..4515803 100644
--- a/groco/groups/group.py
+++ b/groco/groups/group.py
@@ -1,3 +1,5 @@
+import inspect
+
 from keras import ops
 
 from groco import utils
@@ -194,10 +196,21 @@ class Group:
         if action is not None:
             return action
 
-        def subgroup_action(signal, spatial_axes, new_group_axis):
-            signal = self.parent._action(signal, spatial_axes, new_group_axis)
-            signal = ops.take(signal, indices=self.parent.subgroup[self.name], axis=new_group_axis)
-            return signal
+        parent_action = self.parent._action
+        parent_indices = self.parent.subgroup[self.name]
+
+        if "elements" not in inspect.signature(parent_action).parameters:
+
+            def subgroup_action(signal, spatial_axes, new_group_axis):
+                signal = parent_action(signal, spatial_axes, new_group_axis)
+                return ops.take(signal, indices=parent_indices, axis=new_group_axis)
+
+            return subgroup_action
+
+        # act only with the elements of this group, the others may change the shape of the signal
+        def subgroup_action(signal, spatial_axes, new_group_axis, elements=range(self.order)):
+            parent_elements = [parent_indices[i] for i in elements]
+            return parent_action(signal, spatial_axes, new_group_axis, elements=parent_elements)
 
         return subgroup_action
 
diff --git a/groco/groups/space_groups.py b/groco/groups/space_groups.py
index 1c04cc3..7e3a996 100644
--- a/groco/groups/space_groups.py
+++ b/groco/groups/space_groups.py
@@ -9,10 +9,10 @@ Oh_permutation_tuples = [(0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0),
 Oh_parameters = list(itertools.product(Oh_permutation_tuples, Oh_flip_axes))
 
 
-def Oh_action(signal, spatial_axes=(0, 1, 2), new_group_axis=3):
+def Oh_action(signal, spatial_axes=(0, 1, 2), new_group_axis=3, elements=range(48)):
     # the spatial axes need not be contiguous, nor in order
     Oh_params = []
-    for perm, flip in Oh_parameters:
+    for perm, flip in [Oh_parameters[i] for i in elements]:
         axes = list(range(ops.ndim(signal)))
         for axis, p in zip(spatial_axes, perm):
             axes[axis] = spatial_axes[p]
-- 
2.43.0


From 918bf9e41c1426fe2ebae33be0f21c57c0bdde36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:43 +0000
Subject: [PATCH 20/25] fix: move an axis to the left of its target also if
 only one of them is negative

---
 groco/utils/tensor_manips.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/groco/utils/tensor_manips.py b/groco/utils/tensor_manips.py
index 20d41cc..8ebcf75 100644
--- a/groco/utils/tensor_manips.py
+++ b/groco/utils/tensor_manips.py
@@ -32,6 +32,9 @@ def move_axis_to_left_of(tensor: KerasTensor, moved_axis: int, target_axis: int)
     Returns:
         The tensor with its axes moved.
     """
+    # axes counted from the start and from the end can only be compared once they are normalized
+    ndim = len(tensor.shape)
+    moved_axis, target_axis = moved_axis % ndim, target_axis % ndim
     # in this case after removing moved_axis, target_axis shifts left by one
     if moved_axis < target_axis:
         target_axis -= 1
-- 
2.43.0


From 5c664cab46309f461419e98be91273277ed6fc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:02 +0000
Subject: [PATCH 21/25] fix: use the kernel of transposed convolutions as it
 is, not with its channels and filters mixed up

---
 groco/layers/group_transforms.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 8b3d274..bdde40f 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -182,10 +182,9 @@ class GroupTransforms:
         """
         Compute a tensor of indices used to gather from the kernel to produce the group action on it.
         """
-        if self.transpose:
-            kernel = ops.swapaxes(kernel, -1, -2)
-
         indices = 1 + utils.get_index_tensor(kernel)
+        if self.transpose:
+            indices = ops.swapaxes(indices, -1, -2)
 
         kwargs = {
             "new_group_axis": self.dimensions,
-- 
2.43.0


From 54c4a629dee1a772e72e3e06d2dd6e0083da7ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:14 +0000
Subject: [PATCH 22/25] fix: refuse inputs whose group axis does not match
 after building too

---
 groco/layers/conv2d.py           | 3 +++
 groco/layers/conv2d_transpose.py | 3 +++
 groco/layers/conv3d.py           | 3 +++
 groco/layers/conv3d_transpose.py | 3 +++
 groco/layers/pooling.py          | 5 +++++
 5 files changed, 17 insertions(+)

diff --git a/groco/layers/conv2d.py b/groco/layers/conv2d.py
index 53ce14d..b5036bf 100644
--- a/groco/layers/conv2d.py
+++ b/groco/layers/conv2d.py
@@ -74,6 +74,9 @@ class GroupConv2D(Conv2D):
             else:
                 channel_axis = -1
             self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+            group_axis = self.group_transforms.group_axis
+            self.input_spec.axes[group_axis] = input_shape[group_axis]
+            self.input_spec.ndim = len(input_shape)
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/conv2d_transpose.py b/groco/layers/conv2d_transpose.py
index 38ec504..f58174d 100644
--- a/groco/layers/conv2d_transpose.py
+++ b/groco/layers/conv2d_transpose.py
@@ -72,6 +72,9 @@ class GroupConv2DTranspose(Conv2DTranspose):
             else:
                 channel_axis = -1
             self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+            group_axis = self.group_transforms.group_axis
+            self.input_spec.axes[group_axis] = input_shape[group_axis]
+            self.input_spec.ndim = len(input_shape)
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/conv3d.py b/groco/layers/conv3d.py
index 86892c4..c9e128b 100644
--- a/groco/layers/conv3d.py
+++ b/groco/layers/conv3d.py
@@ -74,6 +74,9 @@ class GroupConv3D(Conv3D):
             else:
                 channel_axis = -1
             self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+            group_axis = self.group_transforms.group_axis
+            self.input_spec.axes[group_axis] = input_shape[group_axis]
+            self.input_spec.ndim = len(input_shape)
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/conv3d_transpose.py b/groco/layers/conv3d_transpose.py
index 6719dd6..928e9b1 100644
--- a/groco/layers/conv3d_transpose.py
+++ b/groco/layers/conv3d_transpose.py
@@ -78,6 +78,9 @@ class GroupConv3DTranspose(Conv3DTranspose):
             else:
                 channel_axis = -1
             self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+            group_axis = self.group_transforms.group_axis
+            self.input_spec.axes[group_axis] = input_shape[group_axis]
+            self.input_spec.ndim = len(input_shape)
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 897104a..81d85b7 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -9,6 +9,7 @@ from keras.layers import (
     GlobalMaxPooling1D,
     GlobalMaxPooling2D,
     GlobalMaxPooling3D,
+    InputSpec,
     Layer,
     MaxPooling1D,
     MaxPooling2D,
@@ -80,6 +81,10 @@ class GroupPooling(Layer):
         self.group_transforms.build(input_shape)
         self.pooling.build(self.group_transforms.reshaped_input)
         self.group_transforms.build_pool()
+        group_axis = self.group_transforms.group_axis
+        self.input_spec = InputSpec(
+            ndim=self.dimensions + 3, axes={group_axis: input_shape[group_axis]}
+        )
 
     def get_config(self):
         config = self.pooling.get_config()
-- 
2.43.0


From c0861b50ed7ed2d97cc902baf7919975bd22d2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:21 +0000
Subject: [PATCH 23/25] fix: build layers for signals on the group also after
 refusing one on the grid

---
 groco/layers/group_transforms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index bdde40f..5559255 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -139,8 +139,9 @@ class GroupTransforms:
         # apart from the spatial dimensions, there are feature and batch axes
         # if there is a third axis, it is the group axis and the input is a signal on the group
         self.group_valued_input = len(input_shape) == self.dimensions + 3
-        if not self.group_valued_input:
-            self.domain_group = None
+        # set every time, it may have been built for another kind of input, or tried to
+        domain_group = self.subgroup if self.transpose else self.group
+        self.domain_group = domain_group.name if self.group_valued_input else None
         if self.data_format == "channels_last":
             self.channels_axis = self.dimensions + 1 + self.group_valued_input
 
-- 
2.43.0


From 1b56bdc8366d1c9c1cd574b77171b986ac778cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:50 +0000
Subject: [PATCH 24/25] fix: refuse a subgroup that is not one of the group's
 when constructing a layer

---
 groco/layers/group_transforms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 5559255..056983f 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -46,7 +46,10 @@ class GroupTransforms:
         self.separable = separable
 
         self.group = group if isinstance(group, Group) else group_dict[group]
-        self.subgroup = group_dict[self.group.parse_subgroup(subgroup or "")]
+        subgroup = self.group.parse_subgroup(subgroup or "")
+        if subgroup not in self.group.subgroup:
+            raise ValueError(f"{subgroup} is not a subgroup of {self.group.name}.")
+        self.subgroup = group_dict[subgroup]
         self.domain_group, self.acting_group = self.group.name, self.subgroup.name
         if transpose:
             self.domain_group, self.acting_group = self.acting_group, self.domain_group
-- 
2.43.0


From 1f08e761d0f1cf20aea8ec39b3e803e88c3db145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 25/25] fix: let layers that are frozen be called

---
 groco/utils/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/groco/utils/misc.py b/groco/utils/misc.py
index d6018cf..4abc77f 100644
--- a/groco/utils/misc.py
+++ b/groco/utils/misc.py
@@ -17,7 +17,8 @@ def backup_and_restore(attribute_names):
                     return function(self, inputs)
                 finally:
                     for name in attribute_names:
-                        setattr(self, name, backup[name])
+                        # not as a new attribute, layers that are frozen do not accept variables
+                        object.__setattr__(self, name, backup[name])
 
         return wrapper
 
-- 
2.43.0

