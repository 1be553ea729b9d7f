From a1e229a1d0697f32543920ee8e6c812b7727305c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 01/20] fix: save the approximation setting under the lock in
 enable_approx

The setting to restore was read before the lock was taken, so that a thread
entering the context while another one was inside it would, on exit, restore
the other thread's value instead of the value before both contexts.
---
 differt2d/logic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/differt2d/logic.py b/differt2d/logic.py
index 2cc0ac3..703ad0c 100644
--- a/differt2d/logic.py
+++ b/differt2d/logic.py
@@ -187,8 +187,8 @@ def enable_approx(enable: bool = True):
         0.0
     """
     global ENABLE_APPROX
-    state = ENABLE_APPROX
     with _LOCK:
+        state = ENABLE_APPROX
         try:
             ENABLE_APPROX = enable
             yield
-- 
2.43.0


From 5a9c28787934a774630419881f53a795c51bdd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 02/20] fix: return the loss of the returned solution in
 minimize

The returned loss was the one of the iterate before the last update.
---
 differt2d/optimize.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/differt2d/optimize.py b/differt2d/optimize.py
index 91c1c9d..3438213 100644
--- a/differt2d/optimize.py
+++ b/differt2d/optimize.py
@@ -93,8 +93,9 @@ def minimize(
         carry = (x, opt_state)
         return carry, loss
 
-    (x, _), losses = jax.lax.scan(f, init=(x0, opt_state), xs=None, length=steps)
-    return x, losses[-1]
+    (x, _), _ = jax.lax.scan(f, init=(x0, opt_state), xs=None, length=steps)
+    # Losses in the loop are evaluated prior to each update
+    return x, fun(x, *args)
 
 
 @eqx.filter_jit
-- 
2.43.0


From dbc9119756c9e622ef5d847f5042c61d92ed95d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 03/20] fix: avoid NaN gradients when normalizing a zero vector

---
 differt2d/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index d65e811..d30222a 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -224,8 +224,10 @@ def normalize(vector: Float[Array, "2"]) -> tuple[Float[Array, "2"], Float[Array
     >>> normalize(zero)  # Special behavior at 0.
     (Array([0., 0.], dtype=float32), Array(1., dtype=float32))
     """
-    length = jnp.linalg.norm(vector)
-    length: Float[Array, " "] = jnp.where(length == 0.0, jnp.ones_like(length), length)
+    is_zero = jnp.linalg.norm(vector) == 0.0
+    # The gradient of the norm is not defined at zero
+    length = jnp.linalg.norm(jnp.where(is_zero, jnp.ones_like(vector), vector))
+    length: Float[Array, " "] = jnp.where(is_zero, jnp.ones_like(length), length)
 
     return vector / length, length
 
-- 
2.43.0


From 1992c9d7d346656abc91741316b8d65c93a8fb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 04/20] fix: avoid NaN gradients in ImagePath when a ray is
 parallel to a wall

---
 differt2d/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index d30222a..7081269 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -1103,8 +1103,9 @@ class ImagePath(Path):
             v = p - point
             un = jnp.dot(u, n)
             vn = jnp.dot(v, n)
-            # Avoid division by zero
-            inc = jnp.where(un == 0.0, 0.0, vn * u / un)
+            # Avoid division by zero, also when computing gradients
+            is_zero = un == 0.0
+            inc = jnp.where(is_zero, 0.0, vn * u / jnp.where(is_zero, 1.0, un))
             point = point + inc
             return point, point
 
-- 
2.43.0


From be77c9d20163ff8dff96b450b8f322865717982a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 05/20] fix: ignore GEOJSON geometries other than polygons

Reading a Point, an empty geometry or a GeometryCollection raised an error,
because coordinates were accessed before looking at the geometry's type.
---
 differt2d/scene.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index 90769dc..eed911f 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -639,10 +639,11 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
         for feature in features:
             if geometry := feature.get("geometry", None):
                 _type = geometry["type"]
-                coordinates = geometry["coordinates"][0]
-                n = len(coordinates)
 
                 if _type == "Polygon":
+                    coordinates = geometry["coordinates"][0]
+                    n = len(coordinates)
+
                     for i in range(n):
                         xys = jnp.array(
                             [coordinates[i - 1], coordinates[i]],
-- 
2.43.0


From b43bfd72bffaf3834a7717bffbb50917be5d67eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 06/20] fix: accumulate over every pair, also when there is no
 path candidate

accumulate_over_paths did not produce the pairs of (transmitter, receiver)
when there is no path candidate, e.g., with order=1 in an empty scene.
---
 differt2d/scene.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index eed911f..a6af4b5 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -1304,13 +1304,17 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
             fun_kwargs = {}
 
         def results() -> Iterator[tuple[str, str, Float[Array, " "]]]:
-            for (tx_key, rx_key), paths_group in groupby(
+            groups = groupby(
                 self.all_paths(**kwargs),
                 operator.itemgetter(slice(2)),
-            ):
+            )
+            for (tx_key, transmitter), (
+                rx_key,
+                receiver,
+            ) in self.all_transmitter_receiver_pairs():
                 acc = jnp.array(0.0)
-                transmitter = self.transmitters[tx_key]
-                receiver = self.receivers[rx_key]
+                # Each pair has its group, unless there is no path candidate
+                _, paths_group = next(groups, (None, ()))
 
                 for _, _, valid, path, path_candidate in paths_group:
                     interacting_objects = self.get_interacting_objects(path_candidate)
-- 
2.43.0


From d4a68f151bea5443ff5a6fc4c162b70a7927743d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 07/20] fix: avoid NaN gradients when differentiating through
 the default optimizer

The gradient of the square root in Adam is not defined when an objective's
gradient is zero, unless eps_root is set (see optax.adam's documentation).
---
 differt2d/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/differt2d/optimize.py b/differt2d/optimize.py
index 3438213..a1318db 100644
--- a/differt2d/optimize.py
+++ b/differt2d/optimize.py
@@ -80,7 +80,8 @@ def minimize(
     >>> chex.assert_trees_all_close(x, 2.0 * jnp.ones(10), rtol=1e-2)
     >>> chex.assert_trees_all_close(y, 0.0, atol=1e-3)
     """
-    optimizer = optimizer or optax.adam(learning_rate=0.1)
+    # A nonzero 'eps_root' is needed to differentiate through Adam
+    optimizer = optimizer or optax.adam(learning_rate=0.1, eps_root=1e-16)
 
     f_and_df = jax.value_and_grad(fun)
     opt_state = optimizer.init(x0)
-- 
2.43.0


From d98c2440d3adb57f48eb0d4f7c2530e734c68e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 08/20] fix: avoid NaN gradients in path_length when epsilon
 makes a segment vanish

Adding epsilon to each path segment moved the singularity of the gradient
to segments equal to (-eps, -eps), that are common because of rounding.
---
 differt2d/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index 7081269..332eabe 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -197,7 +197,10 @@ def path_length(points: Float[Array, "N 2"]) -> Float[Array, " "]:
     Array(3.4142137, dtype=float32)
     """
     vectors = jnp.diff(points, axis=0)
-    vectors = vectors + jnp.finfo(points.dtype).eps
+    eps = jnp.finfo(points.dtype).eps
+    vectors = vectors + eps
+    # Adding some epsilon value can also make a segment vanish
+    vectors = jnp.where(vectors == 0.0, eps, vectors)
     lengths = jnp.linalg.norm(vectors, axis=1)
 
     return jnp.sum(lengths)
-- 
2.43.0


From cc7ec44fee494924e71dcc0af6b7cbc929ccd6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 09/20] fix: treat denominators made of rounding errors as zero
 in segments_intersect

For (quasi) collinear segments, XLA may evaluate the denominator to zero in
one place and to some rounding error in another, which leads to NaN gradients.
---
 differt2d/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index 332eabe..5f51d60 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -157,11 +157,13 @@ def segments_intersect(
     a = B[1] * C[0] - B[0] * C[1]  # alpha numerator
     b = A[0] * C[1] - A[1] * C[0]  # beta numerator
     d = A[1] * B[0] - A[0] * B[1]  # both denominator
+    # Below this value, the denominator only contains rounding errors
+    d_min = 4 * jnp.finfo(d.dtype).eps * (abs(A[1] * B[0]) + abs(A[0] * B[1]))
 
     @partial(jax.jit, inline=True)
     @jaxtyped(typechecker=typechecker)
     def test(num: Float[Array, " "], den: Float[Array, " "]) -> Truthy:
-        den_is_zero = den == 0.0
+        den_is_zero = abs(den) <= d_min
         den = jnp.where(den_is_zero, 1.0, den)
         t = jnp.where(den_is_zero, jnp.inf, num / den)
         return logical_and(
-- 
2.43.0


From 84ea4d73e323247a4ab7976af9d5b100a7b4f43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 10/20] fix: let filter_objects see the actual objects in
 all_path_candidates

JIT-compiling the method replaced the objects by traced copies, so that a
filter based on identity rejected every object, and one based on coordinates
raised an error.
---
 differt2d/scene.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index a6af4b5..b03efc8 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -1087,7 +1087,6 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
         """
         return product(self.transmitters.items(), self.receivers.items())
 
-    @eqx.filter_jit
     def all_path_candidates(
         self,
         min_order: int = 0,
-- 
2.43.0


From de9416ec3e9f2f03ae69295e3b939cf5a3749b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 11/20] fix: accept broadcastable inputs and any axis in logic
 functions

The annotations rejected the documented calls: an array with a scalar,
and logical_all/logical_any of an array with the default axis.
---
 differt2d/_typing.py | 2 +-
 differt2d/logic.py   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/differt2d/_typing.py b/differt2d/_typing.py
index 992a8e5..9eee0d9 100644
--- a/differt2d/_typing.py
+++ b/differt2d/_typing.py
@@ -4,6 +4,6 @@ from typing import Union
 
 from jaxtyping import Array, Float, Int
 
-ArrayLikeFloat = Union[Float[Array, " *batch"], float]
+ArrayLikeFloat = Union[Float[Array, " *#batch"], float]
 ScalarFloat = Union[Float[Array, " "], float]
 ScalarInt = Union[Int[Array, " "], int]
diff --git a/differt2d/logic.py b/differt2d/logic.py
index 703ad0c..b0e3649 100644
--- a/differt2d/logic.py
+++ b/differt2d/logic.py
@@ -61,7 +61,7 @@ ENABLE_APPROX: bool = "ENABLE_APPROX" in os.environ
 _LOCK = RLock()
 """Lock to prevent mutating ``ENABLE_APPROX`` in multiple threads."""
 
-Truthy = Union[Bool[Array, " *batch"], Float[Array, " *batch"]]
+Truthy = Union[Bool[Array, " *#batch"], Float[Array, " *#batch"]]
 """An array of truthy values, either booleans or floats between 0 and 1."""
 
 
@@ -493,7 +493,7 @@ def logical_all(
     *x: Union[Truthy, float, bool],
     axis: Optional[Union[int, tuple[int, ...]]] = None,
     approx: Optional[bool] = None,
-) -> Truthy:
+) -> Union[Bool[Array, " ..."], Float[Array, " ..."]]:
     """
     Returns whether all values in ``x`` are true.
 
@@ -518,7 +518,7 @@ def logical_any(
     *x: Union[Truthy, float, bool],
     axis: Optional[Union[int, tuple[int, ...]]] = None,
     approx: Optional[bool] = None,
-) -> Truthy:
+) -> Union[Bool[Array, " ..."], Float[Array, " ..."]]:
     """
     Returns whether any value in ``x`` is true.
 
-- 
2.43.0


From d6a2b3396a0038a1c6937a783ee5f1cc58b9dd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:46 +0000
Subject: [PATCH 12/20] fix: Path samples objects of any number of parameters
 at t = 0.5

from_tx_objects_rx always passed one parameter, whatever the object's
parameters_count.
---
 differt2d/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index 5f51d60..a9dec82 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -811,7 +811,10 @@ class Path(eqx.Module, Plottable):
         if isinstance(rx, Point):
             rx = rx.xy
 
-        xys = [obj.parametric_to_cartesian(jnp.array([0.5])) for obj in objects]
+        xys = [
+            obj.parametric_to_cartesian(jnp.full(obj.parameters_count(), 0.5))
+            for obj in objects
+        ]
         xys = jnp.vstack([tx, *xys, rx])
         return cls(xys=xys)
 
-- 
2.43.0


From efa48578db59db48b4912d55a6e93fb0ab8ffe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:37 +0000
Subject: [PATCH 13/20] fix: ignore altitude of GeoJSON positions

---
 differt2d/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index b03efc8..f486032 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -646,7 +646,7 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
 
                     for i in range(n):
                         xys = jnp.array(
-                            [coordinates[i - 1], coordinates[i]],
+                            [coordinates[i - 1][:2], coordinates[i][:2]],
                             dtype=float,
                         )
                         wall = Wall(xys=xys)
-- 
2.43.0


From 57a7e1f9c282711dcfd3cc0db85845996dbc575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:37 +0000
Subject: [PATCH 14/20] fix: read GeoJSON polygons with empty coordinates

---
 differt2d/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index f486032..7e10bab 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -641,7 +641,7 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
                 _type = geometry["type"]
 
                 if _type == "Polygon":
-                    coordinates = geometry["coordinates"][0]
+                    coordinates = next(iter(geometry["coordinates"]), [])
                     n = len(coordinates)
 
                     for i in range(n):
-- 
2.43.0


From 12dd632f49915971c9869b7385216c41d0ed0f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:17 +0000
Subject: [PATCH 15/20] fix: let Scene.plot keyword arguments override default
 and common style

---
 differt2d/scene.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index 7e10bab..0b10d90 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -982,8 +982,9 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
         if transmitters_kwargs is None:
             transmitters_kwargs = {}
 
-        transmitters_kwargs = {"color": "blue", **transmitters_kwargs}
-        receivers_kwargs = {"color": "green", **receivers_kwargs}
+        transmitters_kwargs = {"color": "blue", **kwargs, **transmitters_kwargs}
+        objects_kwargs = {**kwargs, **objects_kwargs}
+        receivers_kwargs = {"color": "green", **kwargs, **receivers_kwargs}
 
         artists = []
 
@@ -996,14 +997,13 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
                         *args,
                         annotate=tx_key if annotate else None,
                         **transmitters_kwargs,
-                        **kwargs,
                     ),
                 )
 
         if objects:
             for obj in self.objects:
                 artists.extend(
-                    obj.plot(ax, *objects_args, *args, **objects_kwargs, **kwargs),  # type: ignore[union-attr]
+                    obj.plot(ax, *objects_args, *args, **objects_kwargs),  # type: ignore[union-attr]
                 )
 
         if receivers:
@@ -1015,7 +1015,6 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
                         *args,
                         annotate=rx_key if annotate else None,
                         **receivers_kwargs,
-                        **kwargs,
                     ),
                 )
 
-- 
2.43.0


From 06aaa7aebf63499a5b1c1e8c468fdf1d79f364b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:59 +0000
Subject: [PATCH 16/20] fix: pass the current unknowns to the optimizer in
 minimize

Optimizers with weight decay (adamw, lion, lamb, ...) need them.
---
 differt2d/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/differt2d/optimize.py b/differt2d/optimize.py
index a1318db..7cdb133 100644
--- a/differt2d/optimize.py
+++ b/differt2d/optimize.py
@@ -89,7 +89,7 @@ def minimize(
     def f(carry, _):
         x, opt_state = carry
         loss, grads = f_and_df(x, *args)
-        updates, opt_state = optimizer.update(grads, opt_state)
+        updates, opt_state = optimizer.update(grads, opt_state, x)
         x = x + updates
         carry = (x, opt_state)
         return carry, loss
-- 
2.43.0


From fdb31911fe340ad4601e3c900f8c88dd1e8d7333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:58 +0000
Subject: [PATCH 17/20] fix: let ImagePath reflect on walls that cannot be
 stacked

---
 differt2d/geometry.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index a9dec82..19164e0 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -1082,8 +1082,6 @@ class ImagePath(Path):
             xys = jnp.vstack([tx, rx])
             return cls(xys=xys, loss=jnp.array(0.0))
 
-        walls = stack_leaves(objects)
-
         def path_loss(
             cartesian_coords: Float[Array, "path_length 2"],
         ) -> Float[Array, " "]:
@@ -1093,18 +1091,16 @@ class ImagePath(Path):
 
             return _loss
 
-        def forward(
-            image: Float[Array, "2"],
-            wall: Wall,
-        ) -> tuple[Float[Array, "2"], Float[Array, "2"]]:
+        # Walls can be of different classes, so they cannot always be stacked
+        images = []
+        image = tx
+        for wall in objects:
             image = wall.image_of(image)
-            return image, image
+            images.append(image)
 
-        def backward(
-            point: Float[Array, "2"],
-            x: tuple[Wall, Float[Array, "2"]],
-        ) -> tuple[Float[Array, "2"], Float[Array, "2"]]:
-            wall, image = x
+        points = []
+        point = rx
+        for wall, image in zip(reversed(objects), reversed(images)):
             p = wall.origin()
             n = wall.normal()
             u = point - image
@@ -1115,10 +1111,9 @@ class ImagePath(Path):
             is_zero = un == 0.0
             inc = jnp.where(is_zero, 0.0, vn * u / jnp.where(is_zero, 1.0, un))
             point = point + inc
-            return point, point
+            points.append(point)
 
-        _, images = jax.lax.scan(forward, init=tx, xs=walls)  # type: ignore
-        _, points = jax.lax.scan(backward, init=rx, xs=(walls, images), reverse=True)  # type: ignore
+        points.reverse()
 
         xys = jnp.vstack([tx, *points, rx])
 
-- 
2.43.0


From bfdac3c5ca79eb559030fd16bc5c43c0e1bcc903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:58 +0000
Subject: [PATCH 18/20] fix: index objects with traced values only if they have
 the same structure

---
 differt2d/scene.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index 0b10d90..ceab70e 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -1146,9 +1146,16 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
             as returned by :meth:`all_path_candidates`.
         :return: The list of interacting objects.
         """
-        if len(self.objects) < 2 or all(
-            type(obj) is type(self.objects[0]) for obj in self.objects
-        ):
+
+        def structure(obj: Object) -> tuple[Any, list[Any]]:
+            leaves, treedef = jax.tree_util.tree_flatten(obj)
+            return treedef, [
+                (jnp.shape(x), jnp.result_type(x)) if eqx.is_array_like(x) else object()
+                for x in leaves
+            ]
+
+        # Only objects of the same structure can be indexed with a traced value
+        if all(structure(obj) == structure(self.objects[0]) for obj in self.objects):
             return [self.get_object(i) for i in path_candidate]
         return [self.objects[i] for i in path_candidate]
 
-- 
2.43.0


From 59d6e972bfcb84f290cfabf68eb744a72b50af9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:55 +0000
Subject: [PATCH 19/20] fix: copy arrays given to points, rays and paths, NumPy
 buffers were shared with them

---
 differt2d/geometry.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index 19164e0..9e77d05 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -296,7 +296,7 @@ class Point(eqx.Module, Plottable):
     """
 
     xy: Float[Array, "2"] = eqx.field(
-        converter=jnp.asarray,
+        converter=jnp.array,
         default_factory=lambda: jnp.zeros(2),
     )
     """Cartesian coordinates."""
@@ -458,7 +458,7 @@ class Ray(eqx.Module):
     """
 
     xys: Float[Array, "2 2"] = eqx.field(
-        converter=jnp.asarray,
+        converter=jnp.array,
         default_factory=lambda: jnp.array([[0.0, 0.0], [1.0, 1.0]]),
     )
     """Cartesian coordinates (origin, dest)."""
@@ -697,7 +697,7 @@ class RIS(Wall):
     """
 
     phi: Float[Array, " "] = eqx.field(
-        converter=jnp.asarray,
+        converter=jnp.array,
         default_factory=lambda: jnp.array(jnp.pi / 4),
     )
     """The constant angle of reflection."""
@@ -747,11 +747,11 @@ class Path(eqx.Module, Plottable):
 
     """
 
-    xys: Float[Array, "num_points 2"] = eqx.field(converter=jnp.asarray)
+    xys: Float[Array, "num_points 2"] = eqx.field(converter=jnp.array)
     """Array of cartesian coordinates."""
 
     loss: Float[Array, " "] = eqx.field(
-        converter=jnp.asarray,
+        converter=jnp.array,
         default_factory=lambda: jnp.array(0.0),
     )
     """The loss value for the given path."""
-- 
2.43.0


From 96d663b836cc05d48013cf1d20aeab07a6321a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:46 +0000
Subject: [PATCH 20/20] fix: make no arrays when importing scene, they froze
 JAX's backend and the precision of default coordinates

---
 differt2d/scene.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index ceab70e..684ba59 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -736,8 +736,8 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
     @classmethod
     def basic_scene(
         cls,
-        tx_coords: Float[Array, "2"] = jnp.array([0.1, 0.1]),  # noqa: B008
-        rx_coords: Float[Array, "2"] = jnp.array([0.302, 0.2147]),  # noqa: B008
+        tx_coords: Union[Float[Array, "2"], tuple[float, float]] = (0.1, 0.1),
+        rx_coords: Union[Float[Array, "2"], tuple[float, float]] = (0.302, 0.2147),
     ) -> "Scene[Wall]":
         """
         Instantiates a basic scene with a main room, and a second inner room in the lower left corner, with a small entrance.
@@ -790,8 +790,8 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
     @classmethod
     def square_scene(
         cls,
-        tx_coords: Float[Array, "2"] = jnp.array([0.2, 0.2]),  # noqa: B008
-        rx_coords: Float[Array, "2"] = jnp.array([0.5, 0.6]),  # noqa: B008
+        tx_coords: Union[Float[Array, "2"], tuple[float, float]] = (0.2, 0.2),
+        rx_coords: Union[Float[Array, "2"], tuple[float, float]] = (0.5, 0.6),
     ) -> "Scene[Wall]":
         """
         Instantiates a square scene with one main room.
@@ -840,8 +840,8 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
     def square_scene_with_wall(
         cls,
         ratio: float = 0.6,
-        tx_coords: Float[Array, "2"] = jnp.array([0.2, 0.5]),  # noqa: B008
-        rx_coords: Float[Array, "2"] = jnp.array([0.8, 0.5]),  # noqa: B008
+        tx_coords: Union[Float[Array, "2"], tuple[float, float]] = (0.2, 0.5),
+        rx_coords: Union[Float[Array, "2"], tuple[float, float]] = (0.8, 0.5),
     ) -> "Scene[Wall]":
         """
         Instantiates a square scene with one main room, and vertical wall in the middle.
-- 
2.43.0

