From 17970634200d2c009786466e8537fe2e0caf4e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 001/152] fix: SimpleAggregate dropped a nearer hit found after
 a farther one

---
 pytracer/aggregate/aggregate.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index 029c9a2..cd76bb3 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -81,10 +81,6 @@ class SimpleAggregate(Aggregate):
 		mint = np.inf
 		for pr in self.primitives:
 			if pr.intersect(ray, tmp):
-				t0 = max(t0, ray.maxt)
-				t1 = min(t1, ray.maxt)
-				if t0 > t1:
-					continue
 				any_hit = True
 				if ray.maxt < mint:
 					mint = ray.maxt
-- 
2.43.0


From 0a41fec3fb72e3c0dd307de2b000bfb6ce70e536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 002/152] fix: BVH partitions left the last element unexamined,
 so a side could come out empty

---
 pytracer/aggregate/accelerator/bvh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index 852c5e6..93b9b69 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -111,13 +111,13 @@ class BVH(Aggregate):
 		assert start <= end
 		i = start
 		k = end - 1
-		while i < k:
+		while i <= k:
 			if data[i].centroid[dim] < mid:
 				i += 1
 			else:
 				data[i], data[k] = data[k], data[i]
 				k -= 1
-		return k
+		return i
 
 	@staticmethod
 	def _insertion_sort(data: ['BVH._BVHPrimitive'], start: INT, end: INT, dim: INT):
@@ -135,7 +135,7 @@ class BVH(Aggregate):
 		i = start
 		k = end - 1
 		diff = centroid_bounds.pMax[dim] - centroid_bounds.pMin[dim]
-		while i < k:
+		while i <= k:
 			b = INT(n_buckets * ((data[i].centroid[dim] - centroid_bounds.pMin[dim]) / diff))
 			if b == n_buckets:
 				b -= 1
@@ -147,7 +147,7 @@ class BVH(Aggregate):
 			else:
 				data[i], data[k] = data[k], data[i]
 				k -= 1
-		return k
+		return i
 
 	def _recursive_build(self, data: ['BVH._BVHPrimitive'], segment: [UINT], ordered_prims: ['BVH._BVHPrimitive']):
 		"""Recursively build BVH, segment: [start, end, total]"""
-- 
2.43.0


From 02804ed32c987445174efa6686c99fe01e0c2809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 003/152] fix: BVH leaf creation under the SAH indexed
 primitives with the wrong object

---
 pytracer/aggregate/accelerator/bvh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index 93b9b69..adfd1e7 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -260,7 +260,7 @@ class BVH(Aggregate):
 					else:
 						first = len(ordered_prims)
 						for i in range(start, end):
-							ordered_prims.append(self.primitives[data[i]].prim_idx)
+							ordered_prims.append(self.primitives[data[i].prim_idx])
 						node.init_leaf(first, n_prim, bbox)
 						return node
 
-- 
2.43.0


From 746156e398f242ab431d441acfa358d0aa5d209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 004/152] fix: BVH traversal stack overflowed on hierarchies
 deeper than 64

---
 pytracer/aggregate/accelerator/bvh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index adfd1e7..d194826 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -329,7 +329,7 @@ class BVH(Aggregate):
 		
 		todo_idx = 0
 		node_idx = 0
-		todo = [None] * 64
+		todo = [None] * len(self.nodes)
 		while True:
 			node = self.nodes[node_idx]
 			# check intersection
@@ -374,7 +374,7 @@ class BVH(Aggregate):
 
 		todo_idx = 0
 		node_idx = 0
-		todo = [None] * 64
+		todo = [None] * len(self.nodes)
 		while True:
 			node = self.nodes[node_idx]
 			# check intersection
-- 
2.43.0


From c467c75b48d889b92b869f0011e28ccf9c38250f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 005/152] fix: ImageFilm scaled the vertical crop start by the
 horizontal resolution

---
 pytracer/film/film.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/film/film.py b/pytracer/film/film.py
index b0d9c81..38d196d 100644
--- a/pytracer/film/film.py
+++ b/pytracer/film/film.py
@@ -115,7 +115,7 @@ class ImageFilm(Film):
 		# compute film image extent
 		self.xPixel_start = INT(np.ceil(xr * crop[0]))
 		self.xPixel_cnt = np.maximum(1, INT(np.ceil(xr * crop[1])) - self.xPixel_start)
-		self.yPixel_start = INT(np.ceil(xr * crop[2]))
+		self.yPixel_start = INT(np.ceil(yr * crop[2]))
 		self.yPixel_cnt = np.maximum(1, INT(np.ceil(yr * crop[3])) - self.yPixel_start)
 
 		# allocate storage
-- 
2.43.0


From 160453ca9faa8400f3926720a6e8dbb6ccd0fc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 006/152] fix: updating a cropped image transposed and
 truncated the window

---
 pytracer/utility/imageio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/utility/imageio.py b/pytracer/utility/imageio.py
index bb9e5df..07cd4ea 100644
--- a/pytracer/utility/imageio.py
+++ b/pytracer/utility/imageio.py
@@ -81,7 +81,7 @@ def write_image(filename: str, rgb: 'np.ndarray', alpha: 'np.ndarray',
 			img = np.array(pic)
 			pic.close()
 
-			img[xOffset:xOffset+xRes-1, yOffset:yOffset+yRes-1, :] = rgb
+			img[yOffset:yOffset+yRes, xOffset:xOffset+xRes, :] = rgb
 			ret = img.copy()
 
 			pic = PIL.Image.fromarray(img, mode="RGB")
-- 
2.43.0


From 24a8fc23b54b6e2ec41f4d15df35cc70deb291b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 007/152] fix: a failing splat left its pixel locked for ever

---
 pytracer/film/film.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytracer/film/film.py b/pytracer/film/film.py
index 38d196d..98ca923 100644
--- a/pytracer/film/film.py
+++ b/pytracer/film/film.py
@@ -212,9 +212,8 @@ class ImageFilm(Film):
 			return
 
 		pxl = self.pixels[x - self.xPixel_start][y - self.yPixel_start]
-		pxl.lock.acquire()
-		pxl.splatXYZ += xyz
-		pxl.lock.release()
+		with pxl.lock:
+			pxl.splatXYZ += xyz
 
 	def get_sample_extent(self) -> [INT]:
 		"""
-- 
2.43.0


From 06290ad8d55dc116ecaf3852148e42c35e0f1362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 008/152] fix: sub-sampler windows clipped tile fractions to
 pixel coordinates and were not integers

---
 pytracer/sampler/sampler/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pytracer/sampler/sampler/__init__.py b/pytracer/sampler/sampler/__init__.py
index e1277d7..9736c2b 100644
--- a/pytracer/sampler/sampler/__init__.py
+++ b/pytracer/sampler/sampler/__init__.py
@@ -105,10 +105,11 @@ class Sampler(object, metaclass=ABCMeta):
 		# compute x and y pixel sample range
 		x0 = num % nx
 		y0 = num // nx
-		x = np.clip([x0 / nx, (x0 + 1) / nx], self.xPixel_start, self.xPixel_end)
-		y = np.clip([y0 / ny, (y0 + 1) / ny], self.yPixel_start, self.yPixel_end)
-		return np.concatenate([util.ufunc_lerp(x, self.xPixel_start, self.xPixel_end),
-		                       util.ufunc_lerp(y, self.yPixel_start, self.yPixel_end)])
+		x = np.array([x0 / nx, (x0 + 1) / nx])
+		y = np.array([y0 / ny, (y0 + 1) / ny])
+		window = np.concatenate([util.ufunc_lerp(x, self.xPixel_start, self.xPixel_end),
+		                         util.ufunc_lerp(y, self.yPixel_start, self.yPixel_end)])
+		return np.floor(window).astype(INT)
 
 
 from pytracer.sampler.sampler.stratified import *
\ No newline at end of file
-- 
2.43.0


From 4805dfdb7f152c86a0a8ddd924e725cce7570491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 009/152] fix: the render loop dropped the radiance of rays
 that leave the scene

---
 pytracer/renderer/renderer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pytracer/renderer/renderer.py b/pytracer/renderer/renderer.py
index 8c82b83..9582bdf 100644
--- a/pytracer/renderer/renderer.py
+++ b/pytracer/renderer/renderer.py
@@ -165,16 +165,14 @@ class SamplerRendererTask(object):
 				wt, rays[i] = self.camera.generate_ray_differential(sample)
 				rays[i].scale_differential(1. / np.sqrt(sampler.spp))
 
-				hit = self.scene.intersect_p(rays[i])
-
 				if self.vis_obj_id:
-					if hit and wt > 0.:
+					if wt > 0. and self.scene.intersect_p(rays[i]):
 						# random shading
 						Ls[i] = Spectrum.from_rgb([1., 1., 1.])
 					else:
 						Ls[i] = Spectrum(0.)
 				else:
-					if hit and wt > 0.:
+					if wt > 0.:
 						Ls[i], Ts[i] = self.renderer.li(self.scene, rays[i], sample, isects[i], rng)
 						Ls[i] *= wt
 
-- 
2.43.0


From dd4d837240346460f4eab26e6f32b97d898e7b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 010/152] fix: a radiance mixing both infinities was recorded
 in the film

---
 pytracer/renderer/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/renderer/renderer.py b/pytracer/renderer/renderer.py
index 9582bdf..ac2d584 100644
--- a/pytracer/renderer/renderer.py
+++ b/pytracer/renderer/renderer.py
@@ -186,7 +186,7 @@ class SamplerRendererTask(object):
 				elif Ls[i].y() < -EPS:
 					util.logging('Error', 'Negative luminance {} returned, setting to black.'.format(Ls[i].y()))
 					Ls[i] = Spectrum(0.)
-				elif Ls[i].y() == np.inf:
+				elif not np.isfinite(Ls[i].y()):
 					util.logging('Error', 'Infinite luminance returned, setting to balck.')
 					Ls[i] = Spectrum(0.)
 
-- 
2.43.0


From c0f57eabbef9dd42fed4409f49802a28bdb5ab61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 011/152] fix: default random source of
 SamplerRenderer.transmittance was a string

---
 pytracer/renderer/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/renderer/renderer.py b/pytracer/renderer/renderer.py
index ac2d584..5cb0d74 100644
--- a/pytracer/renderer/renderer.py
+++ b/pytracer/renderer/renderer.py
@@ -75,7 +75,7 @@ class SamplerRenderer(Renderer):
 			return li, Spectrum(0.)
 
 	def transmittance(self, scene: 'Scene', ray: 'geo.RayDifferential', sample: 'Sample',
-									rng='np.random.rand') -> 'Spectrum':
+									rng=np.random.rand) -> 'Spectrum':
 		if self.vol_integrator is not None:
 			return self.vol_integrator.transmittance(scene, self, ray, sample, rng)
 		else:
-- 
2.43.0


From a2760ee1f2cc6c837397ce30332e5a45b85fc14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 012/152] fix: world and motion bounds mapped only two opposite
 corners of the box

---
 pytracer/shape/__init__.py     |  2 +-
 pytracer/transform/__init__.py | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pytracer/shape/__init__.py b/pytracer/shape/__init__.py
index 2497a24..f84cadc 100644
--- a/pytracer/shape/__init__.py
+++ b/pytracer/shape/__init__.py
@@ -61,7 +61,7 @@ class Shape(object, metaclass=ABCMeta):
 		raise NotImplementedError('unimplemented Shape.object_bound() method called')
 
 	def world_bound(self) -> 'geo.BBox':
-		return self.o2w(self.object_bound())
+		return self.o2w.bound(self.object_bound())
 
 	def can_intersect(self) -> bool:
 		return True
diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index 5a92c85..5fff7f6 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -249,6 +249,18 @@ class Transform(object):
 		tan_inv = 1. / np.tan(np.deg2rad(fov) / 2.)
 		return cls.scale(tan_inv, tan_inv, 1.) * cls(m)
 
+	def bound(self, box: 'geo.BBox') -> 'geo.BBox':
+		"""
+		Returns the axis-aligned box that bounds the
+		image of `box`, i.e. of all its corners
+		"""
+		res = geo.BBox()
+		for x in (box.pMin.x, box.pMax.x):
+			for y in (box.pMin.y, box.pMax.y):
+				for z in (box.pMin.z, box.pMax.z):
+					res.union(self(geo.Point(x, y, z)))
+		return res
+
 	def inverse(self) -> 'Transform':
 		"""
 		Returns the inverse transformation
@@ -327,7 +339,7 @@ class AnimatedTransform(object):
 			t = self.interpolate(time)
 			if use_inv:
 				t = t.inverse()
-			ret.union(t(b))
+			ret.union(t.bound(b))
 		return ret
 
 	@staticmethod
-- 
2.43.0


From a541e5c27e642bd09daca44b781c3e634f99bb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 013/152] fix: transforming a ray differential left its
 auxiliary rays behind

---
 pytracer/transform/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index 5fff7f6..faf3e80 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -72,6 +72,10 @@ class Transform(object):
 			r = geo.RayDifferential.from_rd(arg)
 			r.o = self(r.o)
 			r.d = self(r.d)
+			r.rxOrigin = self(r.rxOrigin)
+			r.ryOrigin = self(r.ryOrigin)
+			r.rxDirection = self(r.rxDirection)
+			r.ryDirection = self(r.ryDirection)
 			return r
 
 		elif isinstance(arg, geo.Ray):
-- 
2.43.0


From 4a2baa32f9bed08dd91627fb5ff837da9b93a56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 014/152] fix: look_at used the transposed camera frame

---
 pytracer/transform/__init__.py | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index faf3e80..c3c80a2 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -206,33 +206,21 @@ class Transform(object):
 		c2w[1][3] = pos.y
 		c2w[2][3] = pos.z
 
-		# c2w rotation
-		c2w[0][0] = xc.x
-		c2w[0][1] = xc.y
-		c2w[0][2] = xc.z
-		c2w[1][0] = yc.x
-		c2w[1][1] = yc.y
-		c2w[1][2] = yc.z
-		c2w[2][0] = zc.x
-		c2w[2][1] = zc.y
-		c2w[2][2] = zc.z
+		# c2w rotation: the camera axes are its columns
+		c2w[0:3, 0] = xc
+		c2w[0:3, 1] = yc
+		c2w[0:3, 2] = zc
 
 		# w2c rotation
 		# in effect as camera extrinsic
-		w2c[0][0] = xc.x
-		w2c[0][1] = yc.x
-		w2c[0][2] = zc.x
-		w2c[1][0] = xc.y
-		w2c[1][1] = yc.y
-		w2c[1][2] = zc.y
-		w2c[2][0] = xc.z
-		w2c[2][1] = yc.z
-		w2c[2][2] = zc.z
+		w2c[0, 0:3] = xc
+		w2c[1, 0:3] = yc
+		w2c[2, 0:3] = zc
 
 		# w2c translation
-		w2c[0][3] = -(pos.x * xc.x + pos.y * yc.x + pos.z * zc.x)
-		w2c[1][3] = -(pos.x * xc.y + pos.y * yc.y + pos.z * zc.y)
-		w2c[2][3] = -(pos.x * xc.z + pos.y * yc.z + pos.z * zc.z)
+		w2c[0][3] = -(pos.x * xc.x + pos.y * xc.y + pos.z * xc.z)
+		w2c[1][3] = -(pos.x * yc.x + pos.y * yc.y + pos.z * yc.z)
+		w2c[2][3] = -(pos.x * zc.x + pos.y * zc.y + pos.z * zc.z)
 
 		return cls(c2w, w2c, dtype)
 
-- 
2.43.0


From 8d7a85460ccca9383c7c249218db667bc4bedbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 015/152] fix: motion bound of a static animated transform used
 the inverse pose

---
 pytracer/transform/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index c3c80a2..a1bac47 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -323,7 +323,8 @@ class AnimatedTransform(object):
 
 	def motion_bounds(self, b: 'geo.BBox', use_inv: bool=False) -> 'geo.BBox':
 		if not self.animated:
-			return self.startTransform.inverse()(b)
+			t = self.startTransform.inverse() if use_inv else self.startTransform
+			return t.bound(b)
 		ret = geo.BBox()
 		steps = 128
 		for i in range(128):
-- 
2.43.0


From 172104c177a66002f78439f27ccd361d2a6b5191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 016/152] fix: quaternion of a rotation used the 4x4 trace and
 the smallest diagonal entry

---
 pytracer/transform/quat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/transform/quat.py b/pytracer/transform/quat.py
index 609f515..c3d48ca 100644
--- a/pytracer/transform/quat.py
+++ b/pytracer/transform/quat.py
@@ -35,7 +35,7 @@ def to_transform(q: 'Quaternion') -> 'Transform':
 
 def from_transform(t: 'Transform') -> 'Quaternion':
 	m = t.m
-	tr = m.trace()
+	tr = m[0, 0] + m[1, 1] + m[2, 2]
 
 	if tr > .0:
 		s = np.sqrt(tr + 1.)
@@ -52,7 +52,7 @@ def from_transform(t: 'Transform') -> 'Quaternion':
 		i = 0
 		if m[1, 1] > m[0, 0]:
 			i = 1
-		if m[2, 2] < m[i, i]:
+		if m[2, 2] > m[i, i]:
 			i = 2
 		j = nxt[i]
 		k = nxt[j]
@@ -71,7 +71,7 @@ def from_transform(t: 'Transform') -> 'Quaternion':
 
 def from_arr(t: 'np.ndarray') -> 'Quaternion':
 	m = t
-	tr = m.trace()
+	tr = m[0, 0] + m[1, 1] + m[2, 2]
 
 	if tr > .0:
 		s = np.sqrt(tr + 1.)
@@ -88,7 +88,7 @@ def from_arr(t: 'np.ndarray') -> 'Quaternion':
 		i = 0
 		if m[1, 1] > m[0, 0]:
 			i = 1
-		if m[2, 2] < m[i, i]:
+		if m[2, 2] > m[i, i]:
 			i = 2
 		j = nxt[i]
 		k = nxt[j]
-- 
2.43.0


From de6167a3774d807109f7b6fca3dc86d68dfc176d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 017/152] fix: slerp between rotations took the longer arc

---
 pytracer/transform/quat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytracer/transform/quat.py b/pytracer/transform/quat.py
index c3d48ca..e69b8c4 100644
--- a/pytracer/transform/quat.py
+++ b/pytracer/transform/quat.py
@@ -107,6 +107,9 @@ def from_arr(t: 'np.ndarray') -> 'Quaternion':
 
 def slerp(t: FLOAT, q1: 'Quaternion', q2: 'Quaternion') -> 'Quaternion':
 	cos_theta = dot(q1, q2)
+	if cos_theta < 0.:
+		# q2 and -q2 are the same rotation: take the shorter arc
+		q2, cos_theta = -q2, -cos_theta
 	if (cos_theta > 1. - EPS):
 		return ((1. - t) * q1 + t * q2).normalized()
 	else:
-- 
2.43.0


From 4559ccd170f4b220f68008c13567325e26c5fe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 018/152] fix: BBox inequality compared opposite corners

---
 pytracer/geometry/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pytracer/geometry/__init__.py b/pytracer/geometry/__init__.py
index 81c292c..d7dccf4 100644
--- a/pytracer/geometry/__init__.py
+++ b/pytracer/geometry/__init__.py
@@ -422,8 +422,7 @@ class BBox:
 		       np.array_equal(self.pMax, other.pMax)
 
 	def __ne__(self, other):
-		return not np.array_equal(self.pMin, other.pMax) or \
-		       not np.array_equal(self.pMin, other.pMax)
+		return not self == other
 
 	def __getitem__(self, key):
 		if key == 0:
-- 
2.43.0


From 1c4ea4a902126a990521d05f631b4859a7b8ecc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 019/152] fix: cylinders could not be constructed or hit

---
 pytracer/shape/cylinder.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pytracer/shape/cylinder.py b/pytracer/shape/cylinder.py
index 29a9279..9ceae8b 100644
--- a/pytracer/shape/cylinder.py
+++ b/pytracer/shape/cylinder.py
@@ -106,7 +106,7 @@ class Cylinder(Shape):
 		# otherwise ray hits the cylinder
 		# initialize the differential structure
 		u = phi / self.phiMax
-		v = (phit.z - self.zmin) / (self.thetaMax - self.thetaMin)
+		v = (phit.z - self.zmin) / (self.zmax - self.zmin)
 
 		# find derivatives
 		dpdu = geo.Vector(-self.phiMax * phit.y, self.phiMax * phit.x, 0.)
@@ -188,5 +188,12 @@ class Cylinder(Shape):
 
 		return True
 
+	def refine(self) -> ['Shape']:
+		"""
+		If `Shape` cannot intersect,
+		return a refined subset
+		"""
+		raise NotImplementedError('Intersecable shapes are not refineable')
+
 	def area(self) -> FLOAT:
 		return self.phiMax * self.radius * (self.zmax - self.zmin)
-- 
2.43.0


From fd9059a285cdcef6fc6560b5b79ecd572718d285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 020/152] fix: small spheres were never hit, and near-grazing
 rays got complex roots

---
 pytracer/shape/cylinder.py |  6 ++++--
 pytracer/shape/sphere.py   | 10 ++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pytracer/shape/cylinder.py b/pytracer/shape/cylinder.py
index 9ceae8b..0f79e01 100644
--- a/pytracer/shape/cylinder.py
+++ b/pytracer/shape/cylinder.py
@@ -70,7 +70,8 @@ class Cylinder(Shape):
 			return [False, None, None, None]
 
 		# validate solutions
-		[t0, t1] = np.roots([A, B, C])
+		q = -.5 * (B + np.copysign(np.sqrt(D), B))
+		t0, t1 = q / A, C / q
 		if t0 > t1:
 			t0, t1 = t1, t0
 		if t0 > ray.maxt or t1 < ray.mint:
@@ -153,7 +154,8 @@ class Cylinder(Shape):
 			return False
 
 		# validate solutions
-		[t0, t1] = np.roots([A, B, C])
+		q = -.5 * (B + np.copysign(np.sqrt(D), B))
+		t0, t1 = q / A, C / q
 		if t0 > t1:
 			t0, t1 = t1, t0
 		if t0 > ray.maxt or t1 < ray.mint:
diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index df35a5f..d63986b 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -139,11 +139,12 @@ class Sphere(Shape):
 		C = ray.o.sq_length() - self.radius * self.radius
 
 		D = B * B - 4. * A * C
-		if D <= 0. + EPS:
+		if D <= 0.:
 			return [False, None, None, None]
 
 		# validate solutions
-		[t0, t1] = np.roots([A, B, C])
+		q = -.5 * (B + np.copysign(np.sqrt(D), B))
+		t0, t1 = q / A, C / q
 		if t0 > t1:
 			t0, t1 = t1, t0
 		if t0 > ray.maxt or t1 < ray.mint:
@@ -233,11 +234,12 @@ class Sphere(Shape):
 		C = ray.o.sq_length() - self.radius * self.radius
 
 		D = B * B - 4. * A * C
-		if D <= 0. + EPS:
+		if D <= 0.:
 			return False
 
 		# validate solutions
-		[t0, t1] = np.roots([A, B, C])
+		q = -.5 * (B + np.copysign(np.sqrt(D), B))
+		t0, t1 = q / A, C / q
 		if t0 > t1:
 			t0, t1 = t1, t0
 		if t0 > ray.maxt or t1 < ray.mint:
-- 
2.43.0


From c74f339dde9f43470d82ca648e2cac1a536f221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 021/152] fix: sphere v coordinate was multiplied instead of
 divided by the theta range

---
 pytracer/shape/sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index d63986b..ae67fc4 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -188,7 +188,7 @@ class Sphere(Shape):
 		u = phi / self.phiMax
 		theta = np.arccos(np.clip(phit.z / self.radius, -1., 1.))
 		delta_theta = self.thetaMax - self.thetaMin
-		v = (theta - self.thetaMin) * delta_theta
+		v = (theta - self.thetaMin) / delta_theta
 
 		# find derivatives
 		dpdu = geo.Vector(-self.phiMax * phit.y, self.phiMax * phit.x, 0.)
-- 
2.43.0


From 81bb9724aabefcd5911836b7b8c18c00e1a0b0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 022/152] fix: disk v coordinate and partial derivatives were
 wrong (undefined at the centre)

---
 pytracer/shape/disk.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pytracer/shape/disk.py b/pytracer/shape/disk.py
index 31243b9..2c44ca5 100644
--- a/pytracer/shape/disk.py
+++ b/pytracer/shape/disk.py
@@ -76,6 +76,9 @@ class Disk(Shape):
 
 		phit = ray(thit)
 
+		if phit.x == 0. and phit.y == 0.:
+			phit.x = EPS * self.radius
+
 		# check radial distance
 		dt2 = phit.x * phit.x + phit.y * phit.y
 		if dt2 > self.radius * self.radius or \
@@ -93,14 +96,13 @@ class Disk(Shape):
 		# otherwise ray hits the disk
 		# initialize the differential structure
 		u = phi / self.phiMax
-		v = 1. - ((np.sqrt(dt2 - self.inner_radius)) /
+		v = 1. - ((np.sqrt(dt2) - self.inner_radius) /
 		          (self.radius - self.inner_radius))
 
 		# find derivatives
 		dpdu = geo.Vector(-self.phiMax * phit.y, self.phiMax * phit.x, 0.)
-		dpdv = geo.Vector(-phit.x / (1. - v), -phit.y / (1. - v), 0.)
-		dpdu *= self.phiMax * INV_2PI
-		dpdv *= (self.radius - self.inner_radius) / self.radius
+		dpdv = geo.Vector(-phit.x, -phit.y, 0.) * \
+		       ((self.radius - self.inner_radius) / np.sqrt(dt2))
 
 		# derivative of geo.Normals
 		dndu = geo.Normal(0., 0., 0., )
-- 
2.43.0


From 067314579fea9c70895efb3981dcab721f0e50df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 023/152] fix: disks ignored rays with a short or shallow
 direction

---
 pytracer/shape/disk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/shape/disk.py b/pytracer/shape/disk.py
index 2c44ca5..950b79d 100644
--- a/pytracer/shape/disk.py
+++ b/pytracer/shape/disk.py
@@ -67,7 +67,7 @@ class Disk(Shape):
 		ray = self.w2o(r)
 
 		# parallel ray has not intersection
-		if np.fabs(ray.d.z) < EPS:
+		if ray.d.z == 0.:
 			return [False, None, None, None]
 
 		thit = (self.height - ray.o.z) / ray.d.z
@@ -118,7 +118,7 @@ class Disk(Shape):
 		ray = self.w2o(r)
 
 		# parallel ray has not intersection
-		if np.fabs(ray.d.z) < EPS:
+		if ray.d.z == 0.:
 			return False
 
 		thit = (self.height - ray.o.z) / ray.d.z
-- 
2.43.0


From 29dc4dcdda1888e7d1df6ebfa3064101304567ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 024/152] fix: points sampled on a sphere did not lie on it

---
 pytracer/shape/sphere.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index ae67fc4..38ccc07 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -47,13 +47,11 @@ class Sphere(Shape):
 		from pytracer.montecarlo import uniform_sample_sphere
 		v = uniform_sample_sphere(u1, u2)
 
-		phi = geo.spherical_theta(v) * self.phiMax * INV_2PI
-		theta = self.thetaMin + geo.spherical_theta(v) * (self.thetaMax - self.thetaMin)
+		phi = geo.spherical_phi(v) * self.phiMax * INV_2PI
+		z = util.lerp(.5 * (1. + v.z), self.zmin, self.zmax)
+		r = np.sqrt(max(0., self.radius * self.radius - z * z))
 
-		v = geo.spherical_direction(np.sin(theta), np.cos(theta), phi) * self.radius
-		v.z = self.zmin + v.z * (self.zmax - self.zmin)
-
-		p = geo.Point.from_arr(v)
+		p = geo.Point(r * np.cos(phi), r * np.sin(phi), z)
 		Ns = geo.normalize(self.o2w(geo.Normal(p.x, p.y, p.z)))
 		if self.ro:
 			Ns *= -1.
-- 
2.43.0


From 7c808be4bdd7f1f6541f31530e020524bd867407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 025/152] fix: disk samples left partial or annular disks and
 had the wrong normal

---
 pytracer/shape/disk.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pytracer/shape/disk.py b/pytracer/shape/disk.py
index 950b79d..0812cdf 100644
--- a/pytracer/shape/disk.py
+++ b/pytracer/shape/disk.py
@@ -44,12 +44,15 @@ class Disk(Shape):
 		# account for partial disk
 		from pytracer.montecarlo import concentric_sample_disk
 		x, y = concentric_sample_disk(u1, u2)
-		phi = np.arctan2(y, x) * self.phiMax * INV_2PI
-		r = self.inner_radius + np.sqrt(x * x + y * y) * (self.radius - self.inner_radius)
+		phi = np.arctan2(y, x)
+		if phi < 0.:
+			phi += 2. * np.pi
+		phi *= self.phiMax * INV_2PI
+		r = np.sqrt(util.lerp(x * x + y * y, self.inner_radius * self.inner_radius, self.radius * self.radius))
 
 		p = geo.Point(r * np.cos(phi), r * np.sin(phi), self.height)
 
-		Ns = geo.normalize(self.o2w(p))
+		Ns = geo.normalize(self.o2w(geo.Normal(0., 0., 1.)))
 		if self.ro:
 			Ns *= -1.
 
-- 
2.43.0


From 33c0844a8215280eb1ab25b591d5d107eda2d5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 026/152] fix: triangle samples used the wrong second vertex

---
 pytracer/shape/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 7382a8d..dfecf2b 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -148,7 +148,7 @@ class Triangle(Shape):
 		b1, b2 = uniform_sample_triangle(u1, u2)
 
 		p = b1 * self.mesh.p[self.mesh.vertexIndex[self.v]] + \
-		    b2 * self.mesh.p[self.mesh.vertexIndex[self.v]+1] + \
+		    b2 * self.mesh.p[self.mesh.vertexIndex[self.v+1]] + \
 		    (1. - b1 - b2) * self.mesh.p[self.mesh.vertexIndex[self.v+2]]
 
 		Ns = geo.normalize(geo.Normal.from_arr(
-- 
2.43.0


From 19c0f306d0a50c1cb69a8ca5d145fbb710a7abef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 027/152] fix: per-vertex uv, normals and tangents were looked
 up by corner instead of vertex index

---
 pytracer/shape/triangle.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index dfecf2b..b069da6 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -126,9 +126,8 @@ class Triangle(Shape):
 		if self.mesh.uvs is None:
 			return [[0., 0.], [1., 0.], [1., 1.]]  # default
 		else:
-			return [[self.mesh.uvs[2 * self.v], self.mesh.uvs[2 * self.v + 1]],
-			        [self.mesh.uvs[2 * (self.v + 1)], self.mesh.uvs[2 * (self.v + 1) + 1]],
-			        [self.mesh.uvs[2 * (self.v + 2)], self.mesh.uvs[2 * (self.v + 2) + 1]]]
+			vi = self.mesh.vertexIndex[self.v:self.v + 3]
+			return [[self.mesh.uvs[2 * i], self.mesh.uvs[2 * i + 1]] for i in vi]
 
 	def object_bound(self) -> 'geo.BBox':
 		p1 = self.mesh.p[self.mesh.vertexIndex[self.v]]
@@ -340,16 +339,16 @@ class Triangle(Shape):
 
 		# compute shading tangents
 		if self.mesh.n is not None:
-			ns = geo.normalize(o2w(b[0] * self.mesh.n[self.v] +
-			                   b[1] * self.mesh.n[self.v + 1] +
-			                   b[2] * self.mesh.n[self.v + 2]))
+			ns = geo.normalize(o2w(b[0] * self.mesh.n[self.mesh.vertexIndex[self.v]] +
+			                   b[1] * self.mesh.n[self.mesh.vertexIndex[self.v+1]] +
+			                   b[2] * self.mesh.n[self.mesh.vertexIndex[self.v+2]]))
 		else:
 			ns = dg.nn
 
 		if self.mesh.s is not None:
-			ss = geo.normalize(o2w(b[0] * self.mesh.s[self.v] +
-			                   b[1] * self.mesh.s[self.v + 1] +
-			                   b[2] * self.mesh.s[self.v + 2]))
+			ss = geo.normalize(o2w(b[0] * self.mesh.s[self.mesh.vertexIndex[self.v]] +
+			                   b[1] * self.mesh.s[self.mesh.vertexIndex[self.v+1]] +
+			                   b[2] * self.mesh.s[self.mesh.vertexIndex[self.v+2]]))
 		else:
 			ss = geo.normalize(dg.dpdu)
 
-- 
2.43.0


From 59f8537fbccc4a5f57ee35a2d2c5d4ee7c7bf6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 028/152] fix: shading normals were ignored unless tangents
 were given too

---
 pytracer/shape/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index b069da6..e8bfac9 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -321,7 +321,7 @@ class Triangle(Shape):
 
 	def get_shading_geometry(self, o2w: 'trans.Transform',
 	                         dg: 'geo.DifferentialGeometry') -> 'geo.DifferentialGeometry':
-		if self.mesh.n is None or self.mesh.s is None:
+		if self.mesh.n is None and self.mesh.s is None:
 			return dg
 		# compute barycentric coord
 		uvs = self.get_uvs()
-- 
2.43.0


From 9280692fb9e2a7daa8774a0bd10440fc26d7412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 029/152] fix: copying a differential geometry dropped its
 screen-space derivatives

---
 pytracer/geometry/diffgeom.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytracer/geometry/diffgeom.py b/pytracer/geometry/diffgeom.py
index 447879e..5133802 100644
--- a/pytracer/geometry/diffgeom.py
+++ b/pytracer/geometry/diffgeom.py
@@ -45,7 +45,11 @@ class DifferentialGeometry(object):
 		return "{}\nNormal Vector: {}\n".format(self.__class__, self.nn)
 
 	def copy(self):
-		return DifferentialGeometry(self.p, self.dpdu, self.dpdv, self.dndu, self.dndv, self.u, self.v, self.shape)
+		dg = DifferentialGeometry(self.p, self.dpdu, self.dpdv, self.dndu, self.dndv, self.u, self.v, self.shape)
+		dg.nn = self.nn.copy()
+		dg.dudx, dg.dvdx, dg.dudy, dg.dvdy = self.dudx, self.dvdx, self.dudy, self.dvdy
+		dg.dpdx, dg.dpdy = self.dpdx.copy(), self.dpdy.copy()
+		return dg
 
 	def compute_differential(self, ray: 'RayDifferential'):
 		if ray.has_differentials:
-- 
2.43.0


From 263473c7dd913199a5b9b44f7bb11609f8abdd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 030/152] fix: Loop subdivision pushed vertices to the limit
 with the wrong weight

---
 pytracer/shape/loopsubdiv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/loopsubdiv.py b/pytracer/shape/loopsubdiv.py
index cb3672b..50ba744 100644
--- a/pytracer/shape/loopsubdiv.py
+++ b/pytracer/shape/loopsubdiv.py
@@ -258,7 +258,7 @@ class LoopSubdiv(Shape):
 
 	@staticmethod
 	def gamma(valence: INT) -> FLOAT:
-		return 1. / (valence + 3. / (8. + LoopSubdiv.beta(valence)))
+		return 1. / (valence + 3. / (8. * LoopSubdiv.beta(valence)))
 
 	def weight_one_ring(self, vert: 'SDVertex', beta: 'FLOAT') -> 'geo.Point':
 		valence = vert.valence()
-- 
2.43.0


From 2d9a8dac44bb263ca72baecd01a273705ca84dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 031/152] fix: Loop subdivision of meshes with interior
 vertices failed

---
 pytracer/shape/loopsubdiv.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytracer/shape/loopsubdiv.py b/pytracer/shape/loopsubdiv.py
index 50ba744..77ede9b 100644
--- a/pytracer/shape/loopsubdiv.py
+++ b/pytracer/shape/loopsubdiv.py
@@ -406,9 +406,8 @@ class LoopSubdiv(Shape):
 
 			if not vv.boundary:
 				## interior
-				S += np.sum([np.cos(2. * np.pi * k * valInv) * (Pring[k]) for k in range(valence)], axis=0)
-				T += np.sum([np.sin(2. * np.pi * k * valInv) * (Pring[k]) for k in range(valence)], axis=0)
-
+				S = geo.Vector.from_arr(np.sum([np.cos(2. * np.pi * k * valInv) * (Pring[k]) for k in range(valence)], axis=0))
+				T = geo.Vector.from_arr(np.sum([np.sin(2. * np.pi * k * valInv) * (Pring[k]) for k in range(valence)], axis=0))
 
 			else:
 				## boundary
-- 
2.43.0


From c30f7d431a61d6b477d402258c8756c3bce2280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 032/152] fix: a zero random number could sample a
 zero-probability bin

---
 pytracer/montecarlo/distribution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/montecarlo/distribution.py b/pytracer/montecarlo/distribution.py
index d780b72..441d06c 100644
--- a/pytracer/montecarlo/distribution.py
+++ b/pytracer/montecarlo/distribution.py
@@ -54,8 +54,8 @@ class Distribution1D(object):
 		pdf: [rv, pdf].
 		"""
 		# surrounding CDF segment
-		idx = np.searchsorted(self.cdf, u) - 1
-		off = max(0, idx)
+		idx = np.searchsorted(self.cdf, u, side='right') - 1
+		off = min(max(0, idx), self.cnt - 1)
 
 		# compute offset
 		du = (u - self.cdf[off]) / (self.cdf[off + 1] - self.cdf[off])
@@ -74,8 +74,8 @@ class Distribution1D(object):
 		pdf: [rv, pdf].
 		"""
 		# surrounding CDF segment
-		idx = np.searchsorted(self.cdf, u) - 1
-		off = max(0, idx)
+		idx = np.searchsorted(self.cdf, u, side='right') - 1
+		off = min(max(0, idx), self.cnt - 1)
 
 		return [off, self.func[off] / (self.cdf_raw * self.cnt)]
 
-- 
2.43.0


From d9b83704278d04dcdf4a6692a62570b415202e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 033/152] fix: 2D sampling returned the row number instead of
 the v coordinate

---
 pytracer/montecarlo/distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/montecarlo/distribution.py b/pytracer/montecarlo/distribution.py
index 441d06c..58695d8 100644
--- a/pytracer/montecarlo/distribution.py
+++ b/pytracer/montecarlo/distribution.py
@@ -120,9 +120,9 @@ class Distribution2D(object):
 		Returns [[u, v], pdf]
 		"""
 		v, pdf1 = self.p_marg_v.sample_cont(u1)
-		v = np.clip(util.ftoi(v * self.p_marg_v.cnt), 0, self.p_marg_v.cnt - 1).astype(INT)
+		vi = np.clip(util.ftoi(v * self.p_marg_v.cnt), 0, self.p_marg_v.cnt - 1).astype(INT)
 
-		u, pdf0 = self.p_cond_v[v].sample_cont(u0)
+		u, pdf0 = self.p_cond_v[vi].sample_cont(u0)
 
 		return [[u, v], pdf0 * pdf1]
 
-- 
2.43.0


From 1b401267b1722e80a1f48191f686adb98c01faa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 034/152] fix: cosine-weighted hemisphere samples were not
 cosine-weighted

---
 pytracer/montecarlo/utility.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytracer/montecarlo/utility.py b/pytracer/montecarlo/utility.py
index 7468cf3..61d9649 100644
--- a/pytracer/montecarlo/utility.py
+++ b/pytracer/montecarlo/utility.py
@@ -179,9 +179,8 @@ def cosine_sample_hemisphere(u1: FLOAT, u2: FLOAT) -> 'geo.Vector':
 	`u1` and `u2` are two
 	random numbers passed in.
 	"""
-	vec = uniform_sample_sphere(u1, u2)
-	vec.z = np.sqrt(max(0., 1. - vec.x * vec.x - vec.y * vec.y))
-	return vec
+	x, y = concentric_sample_disk(u1, u2)
+	return geo.Vector(x, y, np.sqrt(max(0., 1. - x * x - y * y)))
 
 
 def cosine_hemisphere_pdf(costheta: FLOAT, phi: FLOAT) -> FLOAT:
-- 
2.43.0


From 33910b81b706591205c9ebfcda9af487efb7e737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 035/152] fix: sampling a cone without a frame raised

---
 pytracer/montecarlo/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/montecarlo/utility.py b/pytracer/montecarlo/utility.py
index 61d9649..6705cdc 100644
--- a/pytracer/montecarlo/utility.py
+++ b/pytracer/montecarlo/utility.py
@@ -217,7 +217,7 @@ def uniform_sample_cone(u1: FLOAT, u2: FLOAT, ct_max: FLOAT,
 		ct = (1. - u1) + u1 * ct_max
 		st = np.sqrt(1. - ct * ct)
 		phi = u2 * 2. * PI
-		return geo.Vector(np.scos(phi) * st, np.sin(phi) * st, ct)
+		return geo.Vector(np.cos(phi) * st, np.sin(phi) * st, ct)
 	else:
 		ct = util.lerp(u1, ct_max, 1.)
 		st = np.sqrt(1. - ct * ct)
-- 
2.43.0


From c392d72a541317dcb6820d0e5db414bb3ef2295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 036/152] fix: 2D sampling could round into a zero-probability
 row

---
 pytracer/montecarlo/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/montecarlo/distribution.py b/pytracer/montecarlo/distribution.py
index 58695d8..f8cd179 100644
--- a/pytracer/montecarlo/distribution.py
+++ b/pytracer/montecarlo/distribution.py
@@ -120,7 +120,7 @@ class Distribution2D(object):
 		Returns [[u, v], pdf]
 		"""
 		v, pdf1 = self.p_marg_v.sample_cont(u1)
-		vi = np.clip(util.ftoi(v * self.p_marg_v.cnt), 0, self.p_marg_v.cnt - 1).astype(INT)
+		vi, _ = self.p_marg_v.sample_dis(u1)	# the row `v` was sampled in
 
 		u, pdf0 = self.p_cond_v[vi].sample_cont(u0)
 
-- 
2.43.0


From 6aab2d56126f7e2ae442b44a33a8cfa32f93926d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 037/152] fix: every component was treated as specular

---
 pytracer/reflection/bdf/bdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index ead8b4a..24ee939 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -39,6 +39,9 @@ class BDFType():
 	def __invert__(self):
 		return BDFType(~self.v)
 
+	def __bool__(self):
+		return bool(self.v)
+
 	def __or__(self, other):
 		return BDFType(self.v | other.v) if isinstance(other, BDFType) \
 			else BDFType(self.v | UINT(other))
-- 
2.43.0


From 600c19ce521f33ca4b402ad354db6c523d7cb774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 038/152] fix: local to world transform of scattering
 directions

---
 pytracer/reflection/bsdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/reflection/bsdf.py b/pytracer/reflection/bsdf.py
index 49c322a..82e9fe7 100644
--- a/pytracer/reflection/bsdf.py
+++ b/pytracer/reflection/bsdf.py
@@ -200,9 +200,9 @@ class BSDF(object):
 		Transform a `geo.Vector` in the local system
 		to the world system
 		"""
-		return geo.Vector(self.sn.x * v.x + self.tn.x * v.x + self.nn.x * v.x,
-		                  self.sn.y * v.y + self.tn.y * v.y + self.nn.y * v.y,
-		                  self.sn.z * v.z + self.tn.z * v.z + self.nn.z * v.z)
+		return geo.Vector(self.sn.x * v.x + self.tn.x * v.y + self.nn.x * v.z,
+		                  self.sn.y * v.x + self.tn.y * v.y + self.nn.y * v.z,
+		                  self.sn.z * v.x + self.tn.z * v.y + self.nn.z * v.z)
 
 	def f(self, wo_w: 'geo.Vector', wi_w: 'geo.Vector', flags: 'BDFType' = BDFType.ALL) -> 'Spectrum':
 		wi = self.w2l(wi_w)
-- 
2.43.0


From 08f20ca7eb84195380bf4546331d7c5f5abcb134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 039/152] fix: scaled components could not be evaluated

---
 pytracer/reflection/bdf/bdf.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index 24ee939..258aa01 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -217,16 +217,18 @@ class ScaledBDF(BDF):
 		self.s = sc
 
 	# scale by spectrum
-	def f(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.s * self.brdf.f(wo, wi)
+	def f(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.s * self.bdf.f(wo, wi)
+
+	def pdf(self, wo: 'geo.Vector', wi: 'geo.Vector') -> FLOAT: return self.bdf.pdf(wo, wi)
 
 	def sample_f(self, wo: 'geo.Vector', u1: FLOAT, u2: FLOAT):
-		pdf, wi, f = self.brdf.sample_f(wo, u1, u2)
+		pdf, wi, f = self.bdf.sample_f(wo, u1, u2)
 		return pdf, wi, self.s * f
 
-	def rho_hd(self, wo: 'geo.Vector', samples: [FLOAT]): return self.s * self.brdf.rho_hd(wo, samples)
+	def rho_hd(self, wo: 'geo.Vector', samples: [FLOAT]): return self.s * self.bdf.rho_hd(wo, samples)
 
 	def rho_hh(self, nSamples: INT, samples_1: [FLOAT],
-					samples_2: [FLOAT]): return self.s * self.brdf.rho_hh(nSamples, samples_1, samples_2)
+					samples_2: [FLOAT]): return self.s * self.bdf.rho_hh(nSamples, samples_1, samples_2)
 
 
 class SpecularReflection(BDF):
-- 
2.43.0


From 7821017c7d8da8e63066d13b0d598da559839111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 040/152] fix: density of transmission adapted from reflection

---
 pytracer/reflection/bdf/bdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index 258aa01..ba0bc1f 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -193,6 +193,8 @@ class BRDF2BTDF(BDF):
 	# forward function calls
 	def f(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.brdf.f(wo, self.switch(wi))
 
+	def pdf(self, wo: 'geo.Vector', wi: 'geo.Vector') -> FLOAT: return self.brdf.pdf(wo, self.switch(wi))
+
 	def sample_f(self, wo: 'geo.Vector', u1: FLOAT,  u2: FLOAT):
 		pdf, wi, f = self.brdf.sample_f(wo, u1, u2)
 		return pdf, self.switch(wi), f
-- 
2.43.0


From d1d06abdd7c2220b6ec3927731fc0a1d22597abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 041/152] fix: dielectric Fresnel reflectance, parallel
 component

---
 pytracer/reflection/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/reflection/utility.py b/pytracer/reflection/utility.py
index 419fdb5..0163a9e 100644
--- a/pytracer/reflection/utility.py
+++ b/pytracer/reflection/utility.py
@@ -51,7 +51,7 @@ def fr_diel(cos_i: FLOAT, cos_t: FLOAT, eta_i: 'Spectrum', eta_t: 'Spectrum') ->
 	dielectric materials and circularly polarized light
 	"""
 	r_para = ((eta_t * cos_i ) - (eta_i * cos_t)) / \
-				((eta_t * cos_i) + (eta_t * cos_t))
+				((eta_t * cos_i) + (eta_i * cos_t))
 	r_perp = ((eta_i * cos_i) - (eta_t * cos_t)) / \
 				((eta_i * cos_i) + (eta_t * cos_t))
 	return .5 * (r_para * r_para + r_perp * r_perp)
-- 
2.43.0


From cf6eeec93568cb7ce70ad97a54d0ac3817646394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 042/152] fix: refraction swapped the indices on both sides

---
 pytracer/reflection/bdf/bdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index ba0bc1f..9f40582 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -292,7 +292,7 @@ class SpecularTransmission(BDF):
 	             u2: FLOAT) -> [FLOAT, 'geo.Vector', 'Spectrum']:
 		# find eta pair
 		ei, et = self.ei, self.et
-		if cos_theta(wo) > 0.:
+		if cos_theta(wo) < 0.:
 			ei, et = et, ei
 
 		# compute transmited ray direction
@@ -310,7 +310,7 @@ class SpecularTransmission(BDF):
 
 		F = self.fresnel(cos_theta(wo))
 
-		return [1., wi, (et * et) / (ei * ei) * (Spectrum(1.) - F) * \
+		return [1., wi, (ei * ei) / (et * et) * (Spectrum(1.) - F) * \
 		        self.T / abs_cos_theta(wi)]  # 1. suggests no MC samples needed
 
 
-- 
2.43.0


From f03a2359d9186a11d1c2849d6d8ddcaf58b7c45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 043/152] fix: the grid walk started at the ray origin instead
 of the grid entry

---
 pytracer/aggregate/aggregate.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index cd76bb3..65ec27a 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -248,8 +248,10 @@ class GridAccel(Aggregate):
 		ray_t = 0.
 		if self.bounds.inside(ray(ray.mint)):
 			ray_t = ray.mint
-		elif not self.bounds.intersect_p(ray)[0]:
-			return False
+		else:
+			hit, ray_t, _ = self.bounds.intersect_p(ray)
+			if not hit:
+				return False
 
 		grid_intersect = ray(ray_t)
 
@@ -298,8 +300,10 @@ class GridAccel(Aggregate):
 		ray_t = 0.
 		if self.bounds.inside(ray(ray.mint)):
 			ray_t = ray.mint
-		elif not self.bounds.intersect_p(ray):
-			return False
+		else:
+			hit, ray_t, _ = self.bounds.intersect_p(ray)
+			if not hit:
+				return False
 
 		grid_intersect = ray(ray_t)
 
-- 
2.43.0


From 62497fb7705ac096fc5b493ddd84cba8d45c7158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 044/152] fix: cell crossings of the grid walk

---
 pytracer/aggregate/aggregate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index 65ec27a..8bdd30c 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -262,7 +262,7 @@ class GridAccel(Aggregate):
 
 		pos = [self.pos2voxel(grid_intersect, axis) for axis in range(3)]
 
-		next_crossing = [ray_t + self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis] / ray.d[axis] \
+		next_crossing = [ray_t + (self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis]) / ray.d[axis] \
 		                 for axis in range(3)]
 		delta_t = self.width / ray.d
 		step = np.full(3, 1)
@@ -271,7 +271,7 @@ class GridAccel(Aggregate):
 			# compute current voxel
 			if ray.d[axis] < 0:
 				# ray with neg. direction for stepping
-				next_crossing[axis] = ray_t + self.voxel2pos(pos[axis], axis) - grid_intersect[axis] / ray.d[axis]
+				next_crossing[axis] = ray_t + (self.voxel2pos(pos[axis], axis) - grid_intersect[axis]) / ray.d[axis]
 				delta_t[axis] *= -1
 				step[axis] = -1
 				out[axis] = -1
@@ -314,7 +314,7 @@ class GridAccel(Aggregate):
 
 		pos = [self.pos2voxel(grid_intersect, axis) for axis in range(3)]
 
-		next_crossing = [ray_t + self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis] / ray.d[axis] \
+		next_crossing = [ray_t + (self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis]) / ray.d[axis] \
 		                 for axis in range(3)]
 		delta_t = self.width / ray.d
 		step = np.full(3, 1)
@@ -323,7 +323,7 @@ class GridAccel(Aggregate):
 			# compute current voxel
 			if ray.d[axis] < 0:
 				# ray with neg. direction for stepping
-				next_crossing[axis] = ray_t + self.voxel2pos(pos[axis], axis) - grid_intersect[axis] / ray.d[axis]
+				next_crossing[axis] = ray_t + (self.voxel2pos(pos[axis], axis) - grid_intersect[axis]) / ray.d[axis]
 				delta_t[axis] *= -1
 				step[axis] = -1
 				out[axis] = -1
-- 
2.43.0


From 7d6d01b43c7c25c1feecde52f77778bfd01136f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 045/152] fix: grid walk of rays parallel to an axis

---
 pytracer/aggregate/aggregate.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index 8bdd30c..f754d5d 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -269,7 +269,10 @@ class GridAccel(Aggregate):
 		out = self.n_voxels.copy()
 		for axis in range(3):
 			# compute current voxel
-			if ray.d[axis] < 0:
+			if ray.d[axis] == 0.:
+				# never leaves the slab
+				next_crossing[axis] = np.inf
+			elif ray.d[axis] < 0:
 				# ray with neg. direction for stepping
 				next_crossing[axis] = ray_t + (self.voxel2pos(pos[axis], axis) - grid_intersect[axis]) / ray.d[axis]
 				delta_t[axis] *= -1
@@ -321,7 +324,10 @@ class GridAccel(Aggregate):
 		out = self.n_voxels.copy()
 		for axis in range(3):
 			# compute current voxel
-			if ray.d[axis] < 0:
+			if ray.d[axis] == 0.:
+				# never leaves the slab
+				next_crossing[axis] = np.inf
+			elif ray.d[axis] < 0:
 				# ray with neg. direction for stepping
 				next_crossing[axis] = ray_t + (self.voxel2pos(pos[axis], axis) - grid_intersect[axis]) / ray.d[axis]
 				delta_t[axis] *= -1
-- 
2.43.0


From 15bf7afe8a918f743c3f240653e87032e52d8d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:15 +0000
Subject: [PATCH 046/152] fix: a failed refinement left the grid locked

---
 pytracer/aggregate/aggregate.py | 50 ++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index f754d5d..4beb771 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -116,19 +116,18 @@ class Voxel(object):
 	def intersect(self, ray: 'geo.Ray', isect: 'Intersection', lock) -> bool:
 		# refine primitives if needed
 		if not self.all_can_intersect:
-			lock.acquire()
-			for i, prim in enumerate(self.primitives):
-				# refine if necessary
-				if not prim.can_intersect():
-					p = []
-					prim.full_refine(p)
-					if len(p) == 1:
-						self.primitives[i] = p[0]
-					else:
-						self.primitives[i] = GridAccel(p, False)
-
-			self.all_can_intersect = True
-			lock.release()
+			with lock:
+				for i, prim in enumerate(self.primitives):
+					# refine if necessary
+					if not prim.can_intersect():
+						p = []
+						prim.full_refine(p)
+						if len(p) == 1:
+							self.primitives[i] = p[0]
+						else:
+							self.primitives[i] = GridAccel(p, False)
+
+				self.all_can_intersect = True
 
 		# loop over
 		# no data corrpution?
@@ -142,19 +141,18 @@ class Voxel(object):
 	def intersect_p(self, ray: 'geo.Ray', lock) -> bool:
 		# refine primitives if needed
 		if not self.all_can_intersect:
-			lock.acquire()
-			for i, prim in enumerate(self.primitives):
-				# refine if necessary
-				if not prim.can_intersect():
-					p = []
-					prim.full_refine(p)
-					if len(p) == 1:
-						self.primitives[i] = p[0]
-					else:
-						self.primitives[i] = GridAccel(p, False)
-
-			self.all_can_intersect = True
-			lock.release()
+			with lock:
+				for i, prim in enumerate(self.primitives):
+					# refine if necessary
+					if not prim.can_intersect():
+						p = []
+						prim.full_refine(p)
+						if len(p) == 1:
+							self.primitives[i] = p[0]
+						else:
+							self.primitives[i] = GridAccel(p, False)
+
+				self.all_can_intersect = True
 
 		# loop over
 		# no data corrpution?
-- 
2.43.0


From 26f888f2eb8fdf6660a13d6f04f189e0138b8345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 047/152] fix: instanced primitives could not be created
 (abstract methods) nor refined

---
 pytracer/aggregate/primitive.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pytracer/aggregate/primitive.py b/pytracer/aggregate/primitive.py
index 8daeae1..ee14be3 100644
--- a/pytracer/aggregate/primitive.py
+++ b/pytracer/aggregate/primitive.py
@@ -176,11 +176,21 @@ class TransformedPrimitive(Primitive):
 		return self.w2p.motion_bounds(self.primitive.world_bound(), True)
 
 	def can_intersect(self) -> bool:
-		return self.shape.can_intersect()
+		return self.primitive.can_intersect()
 
 	def refine(self, refined: ['Primitive']):
-		r = self.shape.refine()
-		for sh in r:
-			refined.append(GeometricPrimitive(sh, self.material, self.areaLight))
+		r = []
+		self.primitive.refine(r)
+		for prim in r:
+			refined.append(TransformedPrimitive(prim, self.w2p))
+
+	def get_area_light(self):
+		return None
+
+	def get_bsdf(self, dg: 'geo.DifferentialGeometry', o2w: 'trans.Transform'):
+		raise RuntimeError('{}.get_bsdf(): Should not be called'.format(self.__class__))
+
+	def get_bssrdf(self, dg: 'geo.DifferentialGeometry', o2w: 'trans.Transform'):
+		raise RuntimeError('{}.get_bssrdf(): Should not be called'.format(self.__class__))
 
 
-- 
2.43.0


From 9f60574a504ba74198c446f7fc3b18da42a119eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 048/152] fix: printing an instanced primitive failed

---
 pytracer/aggregate/primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/aggregate/primitive.py b/pytracer/aggregate/primitive.py
index ee14be3..ec75d62 100644
--- a/pytracer/aggregate/primitive.py
+++ b/pytracer/aggregate/primitive.py
@@ -141,7 +141,7 @@ class TransformedPrimitive(Primitive):
 		self.w2p = w2p
 
 	def __repr__(self):
-		return super().__repr__(self) + '\n{}'.format(self.prim)
+		return super().__repr__() + '\n{}'.format(self.primitive)
 
 	def intersect(self, r: 'geo.Ray', isect: 'Intersection') -> bool:
 		w2p = self.w2p.interpolate(r.time)
-- 
2.43.0


From 5cc3f4cd8c9676ea31f72360ca018cdaaf35e082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:15 +0000
Subject: [PATCH 049/152] fix: shading normal derivatives of an instanced mesh
 ignored the instance transform

---
 pytracer/shape/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index e8bfac9..c1d9e50 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -379,7 +379,7 @@ class Triangle(Shape):
 			dndu = geo.Normal(0., 0., 0.)
 			dndv = geo.Normal(0., 0., 0.)
 
-		dgs = geo.DifferentialGeometry(dg.p, ss, ts, self.mesh.o2w(dndu), self.mesh.o2w(dndv), dg.u, dg.v, dg.shape)
+		dgs = geo.DifferentialGeometry(dg.p, ss, ts, o2w(dndu), o2w(dndv), dg.u, dg.v, dg.shape)
 		dgs.dudx = dg.dudx
 		dgs.dvdx = dg.dvdx
 		dgs.dudy = dg.dudy
-- 
2.43.0


From bc320bc469125be8b5b52f153971bf42a6188548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 050/152] fix: a visibility query dropped the ray it was given

---
 pytracer/light/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/utility.py b/pytracer/light/utility.py
index ccb9dc7..d4f0046 100644
--- a/pytracer/light/utility.py
+++ b/pytracer/light/utility.py
@@ -26,7 +26,7 @@ class VisibilityTester(object):
 	VisibilityTester Class
 	"""
 	def __init__(self, ray: 'geo.Ray'=None):
-		self.ray = None
+		self.ray = ray
 
 	def __repr__(self):
 		return "{}\ngeo.Ray: {}\n".format(self.__class__, self.ray)
-- 
2.43.0


From 9a0054682ab08dddcb3efb5d818eea3c8aaa0fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 051/152] fix: a scene with volumes widened the bound of its
 aggregate

---
 pytracer/scene/scene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytracer/scene/scene.py b/pytracer/scene/scene.py
index e81a69e..46133dd 100644
--- a/pytracer/scene/scene.py
+++ b/pytracer/scene/scene.py
@@ -24,7 +24,8 @@ class Scene(object):
 		self.lights = lights
 		self.vr = vr
 
-		self.bound = self.aggregate.world_bound()
+		self.bound = geo.BBox()
+		self.bound.union(self.aggregate.world_bound())
 		if self.vr is not None:
 			self.bound.union(vr.world_bound())
 
-- 
2.43.0


From 1454d289a181ac46f96178a3476a60bfe89c3afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 052/152] fix: copying an empty box gave an unbounded one

---
 pytracer/geometry/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytracer/geometry/__init__.py b/pytracer/geometry/__init__.py
index d7dccf4..acda14e 100644
--- a/pytracer/geometry/__init__.py
+++ b/pytracer/geometry/__init__.py
@@ -410,7 +410,10 @@ class BBox:
 
 	@classmethod
 	def from_bbox(cls, box: 'BBox'):
-		return cls(box.pMin, box.pMax)
+		self = cls()
+		self.pMin = box.pMin.copy()
+		self.pMax = box.pMax.copy()
+		return self
 
 	def __repr__(self):
 		return "{}\npMin:{}\npMax:{}".format(self.__class__,
-- 
2.43.0


From 99d7e4dc600877599c4d52e0faec6ed1f2b089a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 053/152] fix: mip maps index columns by s and rows by t
 throughout

---
 pytracer/texture/utility.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index dbe61bf..914a8d2 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -223,7 +223,7 @@ class MIPMap(object):
 		self.max_aniso = max_aniso
 		self.wrap = wrap
 
-		sres, tres = img.shape[0:2]
+		tres, sres = img.shape[0:2]
 
 		resampled = None
 
@@ -288,7 +288,7 @@ class MIPMap(object):
 
 		for i in range(1, self.__n_levels):
 			# bottom-up init
-			u, v = self.__pyramid[i - 1].shape[0:2]
+			v, u = self.__pyramid[i - 1].shape[0:2]
 			s_res = max(1, UINT(u // 2))
 			t_res = max(1, UINT(v // 2))
 			self.__pyramid[i] = np.empty([t_res, s_res], dtype=object)
@@ -308,7 +308,7 @@ class MIPMap(object):
 
 	def texel(self, level: UINT, s: INT, t: INT):
 		l = self.__pyramid[level]
-		u, v = l.shape[0:2]
+		v, u = l.shape[0:2]
 		# compute texel (s, t)
 		if self.wrap == ImageWrap.REPEAT:
 			s = s % u
@@ -320,7 +320,7 @@ class MIPMap(object):
 			if s < 0 or s >= u or t < 0 or t >= v:
 				return self.typename(0.)
 
-		return l[s, t].view(self.typename)
+		return l[t, s].view(self.typename)
 
 	@property
 	def width(self):
@@ -336,7 +336,7 @@ class MIPMap(object):
 
 	def __triangle(self, level: UINT, s: FLOAT, t: FLOAT):
 		level = np.clip(level, 0, self.__n_levels - 1)
-		s, t = np.array([s, t]) * self.__pyramid[level].shape[0:2] - .5
+		s, t = np.array([s, t]) * self.__pyramid[level].shape[1::-1] - .5
 		s0, t0 = util.ftoi(s), util.ftoi(t)
 		ds = s - s0
 		dt = t - t0
@@ -349,7 +349,7 @@ class MIPMap(object):
 		if level >= self.__n_levels:
 			return self.texel(self.__n_levels - 1, 0, 0)
 		# convert EWA coord to proper scale for level
-		u, v = self.__pyramid[level].shape[0:2]
+		v, u = self.__pyramid[level].shape[0:2]
 		s = s * u - .5
 		t = t * v - .5
 		ds0 *= u
-- 
2.43.0


From fcbb725857530c3fd9573831280730c886d5cf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 054/152] fix: mip map levels can hold texels of any type

---
 pytracer/texture/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 914a8d2..e9040f6 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -256,7 +256,7 @@ class MIPMap(object):
 							resampled[t, s] += s_wts[s][1 + j] * img[t, orig_s]
 			## t
 			t_wts = MIPMap.resample(tres, tp)
-			t_tmp = np.zeros(tp, dtype=img.dtype)
+			t_tmp = np.zeros(tp, dtype=object)
 			for s in range(sp):
 				for t in range(tp):
 					# (s, t) in s-zoomed image
@@ -282,7 +282,7 @@ class MIPMap(object):
 
 		# init levels of MIPMap
 		self.__n_levels = 1 + INT(np.log2(max(sres, tres)))
-		self.__pyramid = np.empty(self.__n_levels, dtype=self.typename)
+		self.__pyramid = np.empty(self.__n_levels, dtype=object)
 		# most detailed level
 		self.__pyramid[0] = img if resampled is None else resampled
 
-- 
2.43.0


From 311acbc74e036c9346f95515594edf8020b11464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 055/152] fix: shrinking an image by resampling is rejected

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index e9040f6..68e79f1 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -193,7 +193,7 @@ class MIPMap(object):
 	@staticmethod
 	def resample(ores: UINT, nres: UINT) -> ['SampleWeight']:
 		if ores > nres:
-			RuntimeError('src.core.texture.{}.resample(): New resolution should '
+			raise RuntimeError('src.core.texture.{}.resample(): New resolution should '
 			             'be greater than the old one, abort resampling.'.format(ores, nres))
 		fil_width = 2.
 		wts = np.zeros([nres, 5], dtype=FLOAT)
-- 
2.43.0


From b31e42cc57153c96bce830526eb83e0a86a8f1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 056/152] fix: anisotropic texture lookups work and widen the
 minor axis only

---
 pytracer/texture/utility.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 68e79f1..cf85328 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -375,7 +375,7 @@ class MIPMap(object):
 		det = -B * B + 4. * A * C
 		invDet = 1. / det
 		u_sq = np.sqrt(det * C)
-		v_sq = np.srqt(det * A)
+		v_sq = np.sqrt(det * A)
 		s0 = util.ctoi(s - 2. * invDet * u_sq)
 		s1 = util.ftoi(s + 2. * invDet * u_sq)
 		t0 = util.ctoi(t - 2. * invDet * v_sq)
@@ -392,7 +392,7 @@ class MIPMap(object):
 				r2 = A * ss * ss + B * ss * tt + C * tt * tt
 				if r2 < 1.:
 					# inside
-					wt = MIPMap.weight_lut[min(r2 * MIPMap.weight_lut_size, MIPMap.weight_lut_size - 1)]
+					wt = MIPMap.weight_lut[min(INT(r2 * MIPMap.weight_lut_size), MIPMap.weight_lut_size - 1)]
 					ret += self.texel(level, si, ti) * wt
 					sum_wt += wt
 
@@ -450,8 +450,8 @@ class MIPMap(object):
 			# clamp eccentricity if too large
 			if minor_len * self.max_aniso < major_len and minor_len > 0.:
 				scale = major_len / (minor_len * self.max_aniso)
-				ds0 *= scale
 				ds1 *= scale
+				dt1 *= scale
 				minor_len *= scale
 
 			if minor_len == 0.:
-- 
2.43.0


From 02f7d063bc5ab61eecfaa7ec0380fd3a41c9a453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 057/152] fix: the widest texture lookups return the top texel

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index cf85328..fcc1ffb 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -427,7 +427,7 @@ class MIPMap(object):
 			if level < 0:
 				return self.__triangle(0, s, t)
 			elif level >= self.__n_levels - 1:
-				return self.__triangle(self.__n_levels, 0, 0)
+				return self.texel(self.__n_levels - 1, 0, 0)
 			else:
 				i_level = util.ftoi(level)
 				delta = level - i_level
-- 
2.43.0


From 3bf642960f396ca256f9baf8c42329548e0a1c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 058/152] fix: noise interpolates its gradients along every
 axis

---
 pytracer/texture/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index fcc1ffb..cb43641 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -108,7 +108,7 @@ def _grad(x: INT, y: INT, z: INT, dx, dy, dz):
 	u = dx if h < 8 or h == 12 or h == 13 else dy
 	v = dy if h < 4 or h == 12 or h == 13 else dz
 	if h & 1:
-		u = -1
+		u = -u
 	if h & 2:
 		v = -v
 	return u + v
@@ -160,7 +160,7 @@ def noise(pnt: 'geo.Point') -> FLOAT:
 	x01 = util.lerp(wx, w001, w101)
 	x11 = util.lerp(wx, w011, w111)
 	y0 = util.lerp(wy, x00, x10)
-	y1 = util.lerp(wz, x01, x11)
+	y1 = util.lerp(wy, x01, x11)
 	return util.lerp(wz, y0, y1)
 
 
-- 
2.43.0


From 39110a4c6b8d7c48ffbd4685974d83dc6538e9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 059/152] fix: fractional noise sums its octaves and fades the
 last one in

---
 pytracer/texture/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index cb43641..fbebce0 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -46,7 +46,7 @@ def smooth_step(lo: FLOAT, hi: FLOAT, val: FLOAT):
 
 	Clip but with smooth interpolation
 	"""
-	v = np.clip(val, lo, hi)
+	v = np.clip((val - lo) / (hi - lo), 0., 1.)
 	return v * v * (3. - 2. * v)
 
 
@@ -66,7 +66,7 @@ def FBm(p: 'geo.Point', dpdx: 'geo.Vector', dpdy: 'geo.Vector', omega: FLOAT, ma
 	l = 1.
 	o = 1.
 	for i in range(octaves):
-		sum += o * noise(l * p)
+		s += o * noise(l * p)
 		l *= 1.99  # not 2, since noise() returns 0. at integral grids
 		o *= omega
 	par = foct - octaves
-- 
2.43.0


From 6f42bf8ac7d625fbf8cc1efe48fc378965d11f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 060/152] fix: polka dots show the inside texture

---
 pytracer/texture/texture/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index e186e38..a95c819 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -217,16 +217,16 @@ class DotsTexture(Texture):
 		from pytracer.texture.utility import noise
 
 		# return insidedot result if inside
-		if noise(sc + .5 , tc + .5) > 0. :
+		if noise([sc + .5, tc + .5, .5]) > 0. :
 			rad = .35
 			max_shift = .5 - rad
-			s_ctr = sc + max_shift * noise(sc + 1.5, tc + 2.8)
-			t_ctr = tc + max_shift * noise(sc + 4.5, tc + 9.8)
+			s_ctr = sc + max_shift * noise([sc + 1.5, tc + 2.8, .5])
+			t_ctr = tc + max_shift * noise([sc + 4.5, tc + 9.8, .5])
 			ds = s - s_ctr
 			dt = t - t_ctr
 			if ds * ds + dt * dt < rad * rad:
 				# inside
-				self.inside_dot(dg)
+				return self.inside_dot(dg)
 
 
 		return self.outside_dot(dg)
-- 
2.43.0


From 5f62011a4f79c8da69b1baa8badbb700a7669063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 061/152] fix: filtered checkerboards mix the two textures by
 the area they cover

---
 pytracer/texture/texture/__init__.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index a95c819..2bf45b9 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -167,16 +167,22 @@ class Chekcerboard2DTexture(Texture):
 
 			## box filtering check region
 			# util.ftoi(x / 2) + 2. * max(x / 2 - util.ftoi(x / 2) -.5, 0)
-			si = ((util.ftoi(s1 / 2) + 2. * max(s1 / 2 - util.ftoi(s1 / 2) - .5, 0)) -
-				  (util.ftoi(s0 / 2) + 2. * max(s0 / 2 - util.ftoi(s0 / 2) - .5, 0))) / \
-				 (2. * ds)
-			ti = ((util.ftoi(t1 / 2) + 2. * max(t1 / 2 - util.ftoi(t1 / 2) - .5, 0)) -
-				  (util.ftoi(t0 / 2) + 2. * max(t0 / 2 - util.ftoi(t0 / 2) - .5, 0))) / \
-				 (2. * dt)
-			area_sq = si * ti - 2. * si * ti
+			if ds > 0.:
+				si = ((util.ftoi(s1 / 2) + 2. * max(s1 / 2 - util.ftoi(s1 / 2) - .5, 0)) -
+					  (util.ftoi(s0 / 2) + 2. * max(s0 / 2 - util.ftoi(s0 / 2) - .5, 0))) / \
+					 (2. * ds)
+			else:
+				si = util.ftoi(s) % 2
+			if dt > 0.:
+				ti = ((util.ftoi(t1 / 2) + 2. * max(t1 / 2 - util.ftoi(t1 / 2) - .5, 0)) -
+					  (util.ftoi(t0 / 2) + 2. * max(t0 / 2 - util.ftoi(t0 / 2) - .5, 0))) / \
+					 (2. * dt)
+			else:
+				ti = util.ftoi(t) % 2
+			area_sq = si + ti - 2. * si * ti
 			if ds > 1. or dt > 1.:
 				area_sq = .5
-			return (1. - area_sq * self.tex1(dg)) + area_sq * self.tex2(dg)
+			return (1. - area_sq) * self.tex1(dg) + area_sq * self.tex2(dg)
 
 
 class Checkboard3DTexture(Texture):
-- 
2.43.0


From 261a953ecc9c5ad14edf6728c543d95703c8969a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 062/152] fix: marble evaluates the colour spline at the
 perturbed height

---
 pytracer/texture/texture/__init__.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index 2bf45b9..af070cb 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -316,15 +316,16 @@ class MarbleTexture(Texture):
 		marble = p.y + self.var * FBm(p, self.scale * dpdx, self.scale * dpdy, self.omega, self.octaves)
 		wind = FBm(.1 * p, .1 * dpdx, .1 * dpdy, .5, 3)
 		wave = FBm(p, dpdx, dpdy, .5, 6)
-		t = .5 * .5 * np.sin(marble)
+		t = .5 + .5 * np.sin(marble)
 
 		# evaluate marble spline at $t$
-		fst = util.ftoi(t * self.spline_num - 3)
-		t = t * (self.spline_num - 3) - fst
-		c0 = Spectrum.from_rgb(self.spline[fst:fst + 3])
-		c1 = Spectrum.from_rgb(self.spline[fst + 1:fst + 4])
-		c2 = Spectrum.from_rgb(self.spline[fst + 2:fst + 5])
-		c3 = Spectrum.from_rgb(self.spline[fst + 3:fst + 6])
+		n_seg = len(self.spline) - 3
+		fst = min(util.ftoi(t * n_seg), n_seg - 1)
+		t = t * n_seg - fst
+		c0 = Spectrum.from_rgb(self.spline[fst])
+		c1 = Spectrum.from_rgb(self.spline[fst + 1])
+		c2 = Spectrum.from_rgb(self.spline[fst + 2])
+		c3 = Spectrum.from_rgb(self.spline[fst + 3])
 
 		# Bezier spline evaluated with de Castilejau's algorithm
 		s0 = (1. - t) * c0 + t * c1
-- 
2.43.0


From 2ca1f38bee4dd5acfdd5f8e9afe65ca07fff8738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 063/152] fix: the texture package exports its scale texture

---
 pytracer/texture/texture/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index af070cb..e887a65 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -340,7 +340,7 @@ class MarbleTexture(Texture):
 
 from pytracer.texture.texture.image import ImageTexture
 
-__all__ = ['Texture', 'ImageTexture', 'ConstantTexture', 'SpectrumType', 'MixTexture',
+__all__ = ['Texture', 'ImageTexture', 'ConstantTexture', 'ScaleTexture', 'MixTexture',
            'BilerpTexture', 'UVTexture', 'Chekcerboard2DTexture', 'Checkboard3DTexture',
            'DotsTexture', 'FBmTexture', 'WrinkledTexture', 'WindyTexture', 'MarbleTexture']
 
-- 
2.43.0


From 2c9cc9556f76fbd9e25a64cccf167df5accb69a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 064/152] fix: spherical and cylindrical mappings return the
 derivatives of their coordinates, across the seam too

---
 pytracer/texture/texturemap/__init__.py | 42 ++++++++++++++-----------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/pytracer/texture/texturemap/__init__.py b/pytracer/texture/texturemap/__init__.py
index e79113b..020e869 100644
--- a/pytracer/texture/texturemap/__init__.py
+++ b/pytracer/texture/texturemap/__init__.py
@@ -76,19 +76,22 @@ class SphericalMapping2D(TextureMapping2D):
 
 		sx, tx = self.__sphere(dg.p + delta * dg.dpdx)
 		dsdx = (sx - s) / delta
-		dtdx = (tx - t) / delta
+		dtdx = tx - t
+		# unwrap around the seam
 		if dtdx > .5:
-			dtdx = 1. - dtdx
+			dtdx -= 1.
 		elif dtdx < -.5:
-			dtdx = -(dtdx + 1.)
+			dtdx += 1.
+		dtdx /= delta
 
 		sy, ty = self.__sphere(dg.p + delta * dg.dpdy)
 		dsdy = (sy - s) / delta
-		dtdy = (ty - s) / delta
+		dtdy = ty - t
 		if dtdy > .5:
-			dtdy = 1. - dtdy
+			dtdy -= 1.
 		elif dtdy < -.5:
-			dtdy = -(dtdy + 1.)
+			dtdy += 1.
+		dtdy /= delta
 
 		return [s, t, dsdx, dtdx, dsdy, dtdy]
 
@@ -104,7 +107,7 @@ class CylindricalMapping2D(TextureMapping2D):
 		[s, t].
 		"""
 		v = geo.normalize(self.w2t(p) - geo.Point(0., 0., 0.))
-		return [(PI + self.arctan2(v.y, v.x)) * INV_2PI, v.z]
+		return [(PI + np.arctan2(v.y, v.x)) * INV_2PI, v.z]
 
 	def __call__(self, dg: 'geo.DifferentialGeometry') -> [FLOAT]:
 		s, t = self.__cylinder(dg.p)
@@ -114,20 +117,23 @@ class CylindricalMapping2D(TextureMapping2D):
 		delta = .1
 
 		sx, tx = self.__cylinder(dg.p + delta * dg.dpdx)
-		dsdx = (sx - s) / delta
+		dsdx = sx - s
 		dtdx = (tx - t) / delta
-		if dtdx > .5:
-			dtdx = 1. - dtdx
-		elif dtdx < -.5:
-			dtdx = -(dtdx + 1.)
+		# unwrap around the seam
+		if dsdx > .5:
+			dsdx -= 1.
+		elif dsdx < -.5:
+			dsdx += 1.
+		dsdx /= delta
 
 		sy, ty = self.__cylinder(dg.p + delta * dg.dpdy)
-		dsdy = (sy - s) / delta
-		dtdy = (ty - s) / delta
-		if dtdy > .5:
-			dtdy = 1. - dtdy
-		elif dtdy < -.5:
-			dtdy = -(dtdy + 1.)
+		dsdy = sy - s
+		dtdy = (ty - t) / delta
+		if dsdy > .5:
+			dsdy -= 1.
+		elif dsdy < -.5:
+			dsdy += 1.
+		dsdy /= delta
 
 		return [s, t, dsdx, dtdx, dsdy, dtdy]
 
-- 
2.43.0


From 48bed4393146b0dc5228d46c011fa7927fc1ffbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 065/152] fix: image textures can be created and looked up

---
 pytracer/texture/texture/image.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index db243a5..22b788a 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -48,7 +48,7 @@ class ImageTexture(Texture):
 
 		def __repr__(self):
 			return "{}\nFilename: {}\nTrilinear: {}\nMax Aniso: {}, Wrap: {}\nScale: {}, Gamma: {}" \
-				.format(self.__class__, self.trilinear, self.max_aniso, self.wrap, self.scale,
+				.format(self.__class__, self.filename, self.trilinear, self.max_aniso, self.wrap, self.scale,
 			            self.gamma)
 
 		def __hash__(self):
@@ -94,7 +94,7 @@ class ImageTexture(Texture):
 						type_mem is spec.RGBSpectrum:
 			return spec.RGBSpectrum( (scale * texel) ** gamma )
 		elif isinstance(texel, np.ndarray) and \
-						type_mem is (FLOAT or float):
+						type_mem in (FLOAT, float):
 			return (scale * spec.RGBSpectrum(texel).y()) ** gamma
 		else:
 			raise TypeError('src.core.texture.ImageTexture.__convert__in__: '
@@ -109,11 +109,11 @@ class ImageTexture(Texture):
 
 		# print(type(texel), type(type_ret))
 		# return Spectrum.from_rgb(texel)
-		if isinstance(texel, 'RGBSpectrum') and \
+		if isinstance(texel, spec.RGBSpectrum) and \
 						type_ret is Spectrum:
-			return Spectrum.from_rgb(texel.toRGB())
+			return Spectrum.from_rgb(texel.to_rgb())
 		elif (isinstance(texel, float) or isinstance(texel, FLOAT)) and \
-						type_ret is (float or FLOAT):
+						type_ret in (float, FLOAT):
 			return texel
 		else:
 			raise TypeError('src.core.texture.ImageTexture.__convert__in__: '
@@ -132,7 +132,7 @@ class ImageTexture(Texture):
 
 		try:
 			texels = iio.read_image(filename)
-			width, height = texels.shape[0:2]
+			height, width = texels.shape[0:2]
 		except:
 			print('{}.get_texture(): cannot process file {}, '
 			      'use default one-valued MIPMap'.format(self.__class__, filename))
@@ -149,7 +149,8 @@ class ImageTexture(Texture):
 
 		else:
 			# one-valued MIPMap
-			val = [[self.power(scale, gamma)]]
+			val = np.empty([1, 1], dtype=object)
+			val[0, 0] = self.type_mem(scale ** gamma)
 			ret = MIPMap(self.type_mem, val)
 
 		ImageTexture.textures[tex_info] = ret
-- 
2.43.0


From 5eca97d1904309025a77bf0ead15567ea73a2d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 066/152] fix: image textures of different storage types do not
 share cached texels

---
 pytracer/texture/texture/image.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index 22b788a..b463a91 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -127,8 +127,8 @@ class ImageTexture(Texture):
 	                wrap: 'ImageWrap', scale: FLOAT, gamma: FLOAT) -> 'MIPMap':
 		# look in the cache
 		tex_info = ImageTexture.TexInfo(filename, trilinear, max_aniso, wrap, scale, gamma)
-		if tex_info in ImageTexture.textures:
-			return ImageTexture.textures[tex_info]
+		if (self.type_mem, tex_info) in ImageTexture.textures:
+			return ImageTexture.textures[self.type_mem, tex_info]
 
 		try:
 			texels = iio.read_image(filename)
@@ -153,7 +153,7 @@ class ImageTexture(Texture):
 			val[0, 0] = self.type_mem(scale ** gamma)
 			ret = MIPMap(self.type_mem, val)
 
-		ImageTexture.textures[tex_info] = ret
+		ImageTexture.textures[self.type_mem, tex_info] = ret
 		return ret
 
 
-- 
2.43.0


From 9a39f30a4212e59cbc9f53ede9dd32c536e30c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 067/152] fix: images of any mode and size can be read as
 textures

---
 pytracer/utility/imageio.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pytracer/utility/imageio.py b/pytracer/utility/imageio.py
index 07cd4ea..122bd3c 100644
--- a/pytracer/utility/imageio.py
+++ b/pytracer/utility/imageio.py
@@ -29,19 +29,17 @@ def read_image(filename: str) -> ['spec.Spectrum']:
 	specs = None
 	img = None
 	with PIL.Image.open(filename) as pic:
+		# desert alpha
+		pic = pic.convert('RGB')
 		img = np.array(pic)
-		width, height, chn = np.shape(img) # note the order of height and width
-		if chn >= 4:
-			# desert alpha
-			img = img[:,:,0:3]
+		height, width = np.shape(img)[0:2] # note the order of height and width
 
 		# avoid expensive resizing in src.core.texture.MIPMap.__init__()
 		if (not util.is_pow_2(width)) or (not util.is_pow_2(height)):
 			# re-sample to power of 2
 			width = util.next_pow_2(width)
 			height = util.next_pow_2(height)
-			pic.resize((width, height))
-			img = np.array(pic)
+			img = np.array(pic.resize((width, height)))
 
 	if img is not None:
 		return img
-- 
2.43.0


From e0fd2555bb2618f94767bcd5501e8f74a3d89b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:35 +0000
Subject: [PATCH 068/152] fix: missing images become constant textures of any
 storage type

---
 pytracer/texture/texture/image.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index b463a91..d5c25db 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -149,8 +149,7 @@ class ImageTexture(Texture):
 
 		else:
 			# one-valued MIPMap
-			val = np.empty([1, 1], dtype=object)
-			val[0, 0] = self.type_mem(scale ** gamma)
+			val = np.array([[self.type_mem(scale ** gamma)]])
 			ret = MIPMap(self.type_mem, val)
 
 		ImageTexture.textures[self.type_mem, tex_info] = ret
-- 
2.43.0


From 56d36e739c133b1bab0ea9a92055e1cf07eeed23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:35 +0000
Subject: [PATCH 069/152] fix: mip maps of integer images average without
 overflow

---
 pytracer/texture/utility.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index fbebce0..e8618f5 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -223,6 +223,10 @@ class MIPMap(object):
 		self.max_aniso = max_aniso
 		self.wrap = wrap
 
+		if img.dtype.kind in 'iu':
+			# small integers overflow when averaged
+			img = img.astype(FLOAT)
+
 		tres, sres = img.shape[0:2]
 
 		resampled = None
-- 
2.43.0


From e2b78f5d7eb0cf39dc0490f96214005592d2787c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 070/152] fix: light power takes the scene as its callers pass
 it

---
 pytracer/light/light.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index ecc0966..906567f 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -81,7 +81,6 @@ class Light(object, metaclass=ABCMeta):
 		raise NotImplementedError('src.core.light.{}.pdf(): abstract method '
 									'called'.format(self.__class__)) 		
 
-	@property
 	@abstractmethod
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
@@ -144,7 +143,6 @@ class PointLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		return 4. * PI * self.intensity
 
@@ -207,7 +205,6 @@ class SpotLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
 		power()
@@ -316,7 +313,6 @@ class ProjectionLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
 		power()
@@ -401,7 +397,6 @@ class GonioPhotometricLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		return 4. * PI * self.intensity * Spectrum(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
 
@@ -451,7 +446,6 @@ class DistantLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
 		power()
@@ -539,7 +533,6 @@ class DiffuseAreaLight(Light):
 
 
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		return self.emit * self.area * PI
 
@@ -677,7 +670,6 @@ class InfiniteAreaLight(Light):
 
 		return [ray, Ns, pdf, Spectrum.from_rgb(self.radMap.look_up([uv[0], uv[1]]), SpectrumType.ILLUMINANT)]
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		_, rad = scene.world_bound().bounding_sphere()
 		return PI * rad * rad * Spectrum.from_rgb(self.radMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
-- 
2.43.0


From 352285efeda6d2c3c628640558b3dac70ad9cfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 071/152] fix: rays leaving lights carry their normal

---
 pytracer/light/light.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 906567f..25e8e07 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -137,7 +137,7 @@ class PointLight(Light):
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
 						0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity]
 
@@ -199,7 +199,7 @@ class SpotLight(Light):
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
 		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__falloff(ray.d)]
 
@@ -307,7 +307,7 @@ class ProjectionLight(Light):
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
 		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__projection(ray.d)]
 
@@ -391,7 +391,7 @@ class GonioPhotometricLight(Light):
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
 						0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity * self.__scale(ray.d)]
 
@@ -440,7 +440,7 @@ class DistantLight(Light):
 
 		# set ray
 		ray = geo.Ray(pnt + rad * self.di, -self.di, 0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = 1. / (PI * rad * rad)
 		return [ray, Ns, pdf, self.l]
 
@@ -650,7 +650,7 @@ class InfiniteAreaLight(Light):
 		sp = np.sin(phi)
 		cp = np.cos(phi)
 		d = -self.l2w(geo.Vector(st * cp, st * sp, ct))
-		Ns = geo.Normal.fromVector(d)
+		Ns = geo.Normal.from_arr(d)
 
 		# choose point on disk oriented towards light
 		ctr, rad = scene.world_bound().bounding_sphere()
-- 
2.43.0


From 181a3b8abe7b89c99d4a9de8ec044d0b92e1dad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:46 +0000
Subject: [PATCH 072/152] fix: rays leaving lights carry the time of the sample

---
 pytracer/light/light.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 25e8e07..e214b4c 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -136,7 +136,7 @@ class PointLight(Light):
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
-						0., np.inf, time)
+						0., np.inf, time=time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity]
@@ -198,7 +198,7 @@ class SpotLight(Light):
 		
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
-		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time)
+		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time=time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__falloff(ray.d)]
@@ -306,7 +306,7 @@ class ProjectionLight(Light):
 		
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
-		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time)
+		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time=time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__projection(ray.d)]
@@ -390,7 +390,7 @@ class GonioPhotometricLight(Light):
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
-						0., np.inf, time)
+						0., np.inf, time=time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity * self.__scale(ray.d)]
@@ -439,7 +439,7 @@ class DistantLight(Light):
 		pnt = ctr + rad * (d1 * v1 + d2 * v2)
 
 		# set ray
-		ray = geo.Ray(pnt + rad * self.di, -self.di, 0., np.inf, time)
+		ray = geo.Ray(pnt + rad * self.di, -self.di, 0., np.inf, time=time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = 1. / (PI * rad * rad)
 		return [ray, Ns, pdf, self.l]
@@ -525,7 +525,7 @@ class DiffuseAreaLight(Light):
 		di = mc.uniform_sample_sphere(u1, u2)
 		if di.dot(Ns) < 0.:
 			di *= -1.
-		ray = geo.Ray(org, di, EPS, np.inf, time)
+		ray = geo.Ray(org, di, EPS, np.inf, time=time)
 		pdf = self.shape_set.pdf(org) * INV_2PI
 		return [ray, Ns, pdf, self.l(org, Ns, di)]
 
@@ -659,7 +659,7 @@ class InfiniteAreaLight(Light):
 		pnt = ctr + rad * (d1 * v1 + d2 * v2)
 
 		# set ray
-		ray = geo.Ray(pnt + rad * (-d), d, 0., np.inf, time)
+		ray = geo.Ray(pnt + rad * (-d), d, 0., np.inf, time=time)
 
 		# compute pdf
 		dir_pdf = pdf / (2. * PI * PI * st)
-- 
2.43.0


From 7dce3a9c37709c874ded7d04b0a5f9b5282e5d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:46 +0000
Subject: [PATCH 073/152] fix: spot, projection and goniophotometric lights
 scale by their profile and fall off with the squared distance

---
 pytracer/light/light.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index e214b4c..c356b99 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -191,7 +191,7 @@ class SpotLight(Light):
 		pdf = 1.
 		vis = VisibilityTester()
 		vis.set_segment(p, pEps, self.pos, 0., time)
-		return [self.intensity / self.__falloff(-wi), wi, pdf, vis]
+		return [self.intensity * self.__falloff(-wi) / (self.pos - p).sq_length(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
@@ -299,7 +299,7 @@ class ProjectionLight(Light):
 		pdf = 1.
 		vis = VisibilityTester()
 		vis.set_segment(p, pEps, self.pos, 0., time)
-		return [self.intensity / self.__projection(-wi), wi, pdf, vis]
+		return [self.intensity * self.__projection(-wi) / (self.pos - p).sq_length(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
@@ -385,7 +385,7 @@ class GonioPhotometricLight(Light):
 		pdf = 1.
 		vis = VisibilityTester()
 		vis.set_segment(p, pEps, self.pos, 0., time)
-		return [self.intensity / self.__scale(-wi), wi, pdf, vis]
+		return [self.intensity * self.__scale(-wi) / (self.pos - p).sq_length(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
-- 
2.43.0


From d8643dee7e852fb03f7abbb8dd16fa86e8a7d385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:46 +0000
Subject: [PATCH 074/152] fix: distant lights can be sampled

---
 pytracer/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index c356b99..c56567e 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -422,7 +422,7 @@ class DistantLight(Light):
 		wi = self.di.copy()
 		pdf = 1.
 		vis = VisibilityTester()
-		vis.set_ray(p, pEps, self.pos, wi, time)
+		vis.set_ray(p, pEps, wi, time)
 		return [self.l.copy(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
-- 
2.43.0


From 7d28a96009230408e5806633b2240345102c60bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:46 +0000
Subject: [PATCH 075/152] fix: lights accept image maps, and projection lights
 none

---
 pytracer/light/light.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index c56567e..5d15dc9 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -234,12 +234,12 @@ class ProjectionLight(Light):
 		try:
 			import pytracer.utility.imageio as iio
 			texels = iio.read_image(texname)
-			width, height = np.shape(texels)
+			height, width = np.shape(texels)[0:2]
 		except:
 			print('src.core.texture.{}.get_texture(): cannot process file {}, '
 					'use default one-valued MIPMap'.format(self.__class__, texname))
 			texels = None
-			width, height = 0, 0
+			width, height = 1, 1
 
 		if texels is not None:
 			from pytracer.texture import MIPMap
@@ -343,7 +343,7 @@ class GonioPhotometricLight(Light):
 		try:
 			import pytracer.utility.imageio as iio
 			texels = iio.read_image(texname)
-			width, height = np.shape(texels)
+			height, width = np.shape(texels)[0:2]
 		except:
 			print('src.core.texture.{}.get_texture(): cannot process file {}, '
 					'use default one-valued MIPMap'.format(self.__class__, texname))
@@ -560,7 +560,7 @@ class InfiniteAreaLight(Light):
 			try:
 				import pytracer.utility.imageio as iio
 				texels = iio.read_image(texmap)
-				width, height = np.shape(texels)
+				height, width = np.shape(texels)[0:2]
 			except:
 				print('src.core.texture.{}.get_texture(): cannot process file {}, '
 				'use default one-valued MIPMap'.format(self.__class__, texmap))
-- 
2.43.0


From a5ebaaa98382cc699a81e2ed3fd77e6d8960113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:46 +0000
Subject: [PATCH 076/152] fix: image lights look their maps up

---
 pytracer/light/light.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 5d15dc9..95677de 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -291,7 +291,7 @@ class ProjectionLight(Light):
 
 		s = (pl.x - self.scr_x0) / (self.scr_x1 - self.scr_x0)
 		t = (pl.y - self.scr_y0) / (self.scr_y1 - self.scr_y0)
-		return Spectrum(self.projMap.look_up([s, t]), SpectrumType.ILLUMINANT) 
+		return Spectrum.from_rgb(self.projMap.look_up([s, t]), SpectrumType.ILLUMINANT)
 
 	def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
 			time: FLOAT,) -> ['Spectrum', 'geo.Vector', FLOAT, 'VisibilityTester']:	
@@ -377,7 +377,7 @@ class GonioPhotometricLight(Light):
 		s = phi * INV_2PI
 		t = theta * INV_PI
 
-		return Spectrum(self.projMap.look_up([s, t]), SpectrumType.ILLUMINANT)
+		return Spectrum.from_rgb(self.MIPMap.look_up([s, t]), SpectrumType.ILLUMINANT)
 
 	def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
 			time: FLOAT,) -> ['Spectrum', 'geo.Vector', FLOAT, 'VisibilityTester']:	
-- 
2.43.0


From 70f5399e35dc1b939dc78286f3efd723fa905dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:46 +0000
Subject: [PATCH 077/152] fix: image lights report their power, with a map or
 without

---
 pytracer/light/light.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 95677de..98e3286 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -321,7 +321,9 @@ class ProjectionLight(Light):
 		diagonal of the image, scaled
 		by the average intensity.
 		"""
-		return Spectrum( self.projMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT) * \
+		if self.projMap is None:
+			return self.intensity * 2. * PI * (1. - self.cos_width)
+		return Spectrum.from_rgb(self.projMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT) * \
 					self.intensity * 2. * PI * (1. - self.cos_width)
 
 	def is_delta_light(self) -> bool:
@@ -398,7 +400,9 @@ class GonioPhotometricLight(Light):
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
 	def power(self, scene: 'Scene') -> 'Spectrum':
-		return 4. * PI * self.intensity * Spectrum(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
+		if self.MIPMap is None:
+			return 4. * PI * self.intensity
+		return 4. * PI * self.intensity * Spectrum.from_rgb(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
 
 	def is_delta_light(self) -> bool:
 		return True
-- 
2.43.0


From e8d1379e744d081af92213a6ba66ecd902b6fadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:46 +0000
Subject: [PATCH 078/152] fix: the cone of a projection light covers the
 corners of wide images

---
 pytracer/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 98e3286..6d1ac48 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -266,7 +266,7 @@ class ProjectionLight(Light):
 		self.proj_trans = trans.Transform.perspective(fov, self.hither, self.yon)
 
 		# compute cosine of cone
-		self.cos_width = np.cos(np.arctan(np.tan(np.deg2rad(fov) / 2.) * np.sqrt(1. + 1. / (aspect * aspect))))
+		self.cos_width = np.cos(np.arctan(np.tan(np.deg2rad(fov) / 2.) * np.sqrt(self.scr_x1 * self.scr_x1 + self.scr_y1 * self.scr_y1)))
 
 	def __projection(self, w: 'geo.Vector') -> 'Spectrum':
 		"""
-- 
2.43.0


From 0e19895740e9b5d739ae67cc86a0c8e84f5558b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:46 +0000
Subject: [PATCH 079/152] fix: area lights use their total area for power and
 leaving rays

---
 pytracer/light/light.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 6d1ac48..76af32d 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -479,7 +479,7 @@ class AreaLight(Light):
 									'called'.format(self.__class__)) 		
 
 
-class DiffuseAreaLight(Light):
+class DiffuseAreaLight(AreaLight):
 	"""
 	DiffuseAreaLight Class
 	
@@ -496,7 +496,7 @@ class DiffuseAreaLight(Light):
 		super().__init__(l2w, ns)
 		self.emit = emit
 		self.shape_set = ShapeSet(shape)
-		self.area = self.shape_set.areas
+		self.area = self.shape_set.sum_area
 
 	# debugging purposes only
 	def le(self, rd: 'geo.RayDifferential'):
@@ -530,7 +530,7 @@ class DiffuseAreaLight(Light):
 		if di.dot(Ns) < 0.:
 			di *= -1.
 		ray = geo.Ray(org, di, EPS, np.inf, time=time)
-		pdf = self.shape_set.pdf(org) * INV_2PI
+		pdf = self.shape_set.pdf_p(org) * INV_2PI
 		return [ray, Ns, pdf, self.l(org, Ns, di)]
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return self.shape_set.pdf(p, wi)
-- 
2.43.0


From 1c14e421e12ca66998591e4bcf1c52b609995198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:46 +0000
Subject: [PATCH 080/152] fix: area lights do not shine on rays that escape the
 scene

---
 pytracer/light/light.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 76af32d..c2ad67f 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -498,10 +498,6 @@ class DiffuseAreaLight(AreaLight):
 		self.shape_set = ShapeSet(shape)
 		self.area = self.shape_set.sum_area
 
-	# debugging purposes only
-	def le(self, rd: 'geo.RayDifferential'):
-		return self.emit
-
 	def l(self, p: 'geo.Point', n: 'geo.Normal', w: 'geo.Vector') -> 'Spectrum':
 		return self.emit if n.dot(w) > 0. else Spectrum(0.)
 
-- 
2.43.0


From e92b3a3cfffbdc7b685e690dd5b8183cc2290abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:46 +0000
Subject: [PATCH 081/152] fix: environment lights sample, evaluate and report
 the density of their directions

---
 pytracer/light/light.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index c2ad67f..723b612 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -591,7 +591,7 @@ class InfiniteAreaLight(Light):
 		wh = geo.normalize(self.w2l(rd.d))
 		s = geo.spherical_phi(wh) * INV_2PI
 		t = geo.spherical_theta(wh) * INV_PI
-		return Spectrum.from_rgb(self.radMap.look_up(s, t), SpectrumType.ILLUMINANT)
+		return Spectrum.from_rgb(self.radMap.look_up([s, t]), SpectrumType.ILLUMINANT)
 
 	def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
 			time: FLOAT,) -> ['Spectrum', 'geo.Vector', FLOAT, 'VisibilityTester']:	
@@ -611,7 +611,8 @@ class InfiniteAreaLight(Light):
 		# compute pdf for sampled inf light direction
 		if st == 0.:
 			pdf = 0.
-		pdf = pdf / (2. * PI * PI * st)
+		else:
+			pdf = pdf / (2. * PI * PI * st)
 
 
 		# return radiance value
@@ -628,8 +629,8 @@ class InfiniteAreaLight(Light):
 		st = np.sin(theta)
 		if st == 0.:
 			return 0.
-		return self.dist.pdf(phi * INV_2PI, theta * INV_PI / 
-				(2. * PI * PI * st))
+		return self.dist.pdf(phi * INV_2PI, theta * INV_PI) / \
+				(2. * PI * PI * st)
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
@@ -654,19 +655,20 @@ class InfiniteAreaLight(Light):
 
 		# choose point on disk oriented towards light
 		ctr, rad = scene.world_bound().bounding_sphere()
-		_, v1, v2 = geo.coordinate_system(self.di)
-		d1, d2 = mc.concentric_sample_disk(ls.u_pos[0], ls.u_pos[1])
+		_, v1, v2 = geo.coordinate_system(d)
+		d1, d2 = mc.concentric_sample_disk(u1, u2)
 		pnt = ctr + rad * (d1 * v1 + d2 * v2)
 
 		# set ray
 		ray = geo.Ray(pnt + rad * (-d), d, 0., np.inf, time=time)
 
 		# compute pdf
-		dir_pdf = pdf / (2. * PI * PI * st)
-		area_pdf = 1. / (PI * rad * rad)
-		pdf = dir_pdf * area_pdf
 		if st == 0.:
-			pdf == 0.
+			pdf = 0.
+		else:
+			dir_pdf = pdf / (2. * PI * PI * st)
+			area_pdf = 1. / (PI * rad * rad)
+			pdf = dir_pdf * area_pdf
 
 		return [ray, Ns, pdf, Spectrum.from_rgb(self.radMap.look_up([uv[0], uv[1]]), SpectrumType.ILLUMINANT)]
 
-- 
2.43.0


From 1c1bda3c872fbb8d13e73690a1c5129c9805fa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:18 +0000
Subject: [PATCH 082/152] fix: lights hand out copies of their radiance

---
 pytracer/light/light.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 723b612..3460393 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -139,7 +139,7 @@ class PointLight(Light):
 						0., np.inf, time=time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
-		return [ray, Ns, pdf, self.intensity]
+		return [ray, Ns, pdf, self.intensity.copy()]
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
@@ -446,7 +446,7 @@ class DistantLight(Light):
 		ray = geo.Ray(pnt + rad * self.di, -self.di, 0., np.inf, time=time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = 1. / (PI * rad * rad)
-		return [ray, Ns, pdf, self.l]
+		return [ray, Ns, pdf, self.l.copy()]
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
@@ -499,7 +499,7 @@ class DiffuseAreaLight(AreaLight):
 		self.area = self.shape_set.sum_area
 
 	def l(self, p: 'geo.Point', n: 'geo.Normal', w: 'geo.Vector') -> 'Spectrum':
-		return self.emit if n.dot(w) > 0. else Spectrum(0.)
+		return self.emit.copy() if n.dot(w) > 0. else Spectrum(0.)
 
 	# TODO use MCMC
 	# def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
-- 
2.43.0


From 6a7825634de90da459cfdc1d89d0b0ea4d1f0b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:37 +0000
Subject: [PATCH 083/152] fix: a distribution over a table of zeros has zero
 density instead of nan

---
 pytracer/montecarlo/distribution.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pytracer/montecarlo/distribution.py b/pytracer/montecarlo/distribution.py
index f8cd179..9eb9196 100644
--- a/pytracer/montecarlo/distribution.py
+++ b/pytracer/montecarlo/distribution.py
@@ -39,7 +39,11 @@ class Distribution1D(object):
 
 		# transform step function into CDF
 		self.cdf_raw = self.cdf[-1]
-		self.cdf /= self.cdf_raw
+		if self.cdf_raw > 0.:
+			self.cdf /= self.cdf_raw
+		else:
+			# nothing to prefer: sampled uniformly, with zero density
+			self.cdf = np.linspace(0., 1., self.cnt + 1)
 
 	def __repr__(self):
 		return "{}\nSteps: {}\n".format(self.__class__, self.cnt)
@@ -62,7 +66,7 @@ class Distribution1D(object):
 
 		# compute pdf for sampled offset
 		# and r.v. value
-		return [(du + off) / self.cnt, self.func[off] / self.cdf_raw]
+		return [(du + off) / self.cnt, self.func[off] / self.cdf_raw if self.cdf_raw > 0. else 0.]
 
 	def sample_dis(self, u: FLOAT) -> [FLOAT, FLOAT]:
 		"""
@@ -77,7 +81,7 @@ class Distribution1D(object):
 		idx = np.searchsorted(self.cdf, u, side='right') - 1
 		off = min(max(0, idx), self.cnt - 1)
 
-		return [off, self.func[off] / (self.cdf_raw * self.cnt)]
+		return [off, self.func[off] / (self.cdf_raw * self.cnt) if self.cdf_raw > 0. else 0.]
 
 
 class Distribution2D(object):
-- 
2.43.0


From 804e9f701a85b29455b8d9c1d002a12aad584a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:43 +0000
Subject: [PATCH 084/152] fix: a projective transform divides by w also when w
 is merely close to one

---
 pytracer/transform/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index a1bac47..5c2ab69 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -55,7 +55,7 @@ class Transform(object):
 		if isinstance(arg, geo.Point) or (isinstance(arg, np.ndarray) and dtype == geo.Point):
 			res = self.m[0:4, 0:3].dot(arg) + self.m[0:4, 3]
 			p = geo.Point(res[0], res[1], res[2])
-			if util.ne_unity(res[3]):
+			if res[3] != 1.:
 				p /= res[3]
 			return p
 
-- 
2.43.0


From a991bf56dfef18008ae3f81001e0351973e4f6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:35 +0000
Subject: [PATCH 085/152] fix: averaging a sampled spectrum over a window
 integrates exactly the part inside the window

---
 pytracer/spectral/spectrum.py | 48 ++++-------------------------------
 1 file changed, 5 insertions(+), 43 deletions(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index afc93b4..909dbbd 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -448,49 +448,11 @@ class SampledSpectrum(CoefficientSpectrum):
 		if len(lam) == 1:
 			return v[0]
 
-		v_sum = 0.
-		# constant contributions before/after samples
-		# if end points are partially covered
-		if ls < lam[0]:
-			v_sum += v[0] * (lam[0] - ls)
-		if le > lam[-1]:
-			v_sum += v[-1] * (le - lam[-1])
-
-		# advance to the first and last contributable wavelength
-		idx_lo = np.searchsorted(lam, ls) - 1
-		idx_hi = np.searchsorted(lam, le) # due to np.searchsorted implementation
-
-		if idx_lo >= 0:
-			bk_lam_lo = lam[idx_lo]
-			bk_v_lo = v[idx_lo]
-			v[idx_lo] = util.lerp( (ls - bk_lam_lo) / (lam[idx_lo+1] - bk_lam_lo), v[idx_lo], v[idx_lo+1])
-			lam[idx_lo] = ls			
-		else:
-			idx_lo = 0
-			bk_lam_lo = lam[idx_lo]
-			bk_v_lo = v[idx_lo]
-
-		if idx_hi < len(lam) and lam[idx_hi] != le:
-			bk_lam_hi = lam[idx_hi]
-			bk_v_hi = v[idx_hi]
-			v[idx_hi] = util.lerp((bk_lam_hi - le) / (lam[idx_hi] - lam[idx_hi-1]), v[idx_hi], v[idx_hi-1])
-			lam[idx_hi] = le
-			idx_hi += 1
-		else:
-			idx_hi = len(lam)
-			bk_lam_hi = lam[-1]
-			bk_v_hi = v[-1]
-
-		# integrate using trapezoidal rule
-		v_sum += np.trapz(v[idx_lo:idx_hi], lam[idx_lo:idx_hi])
-
-		# clean-up
-		lam[idx_lo] = bk_lam_lo
-		lam[idx_hi-1] = bk_lam_hi
-		v[idx_lo] = bk_v_lo
-		v[idx_hi-1] = bk_v_hi
-
-		return v_sum / (le - ls)
+		# integrate the piecewise linear curve over the window using
+		# trapezoidal rule, leaving the input untouched
+		lam = np.asarray(lam, dtype=FLOAT)
+		x = np.concatenate(([ls], lam[(lam > ls) & (lam < le)], [le]))
+		return np.trapz(np.interp(x, lam, v), x) / (le - ls)
 
 	@classmethod
 	def from_rgb(cls, rgb: Sequence, tp: 'SpectrumType' = SpectrumType.REFLECTANCE):
-- 
2.43.0


From d301bf14f4be802c2cbe0d3bde6ed2ea0b69ecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:35 +0000
Subject: [PATCH 086/152] fix: SampledSpectrum.from_sampled averages over each
 bin rather than up to far beyond the spectrum

---
 pytracer/spectral/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index 909dbbd..01b064a 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -421,7 +421,7 @@ class SampledSpectrum(CoefficientSpectrum):
 		self = cls()
 		for i in range(N_SPECTRAL_SAMPLES):
 			l0 = util.lerp(i / N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START, SAMPLED_LAMBDA_END)
-			l1 = util.lerp(i+1 / N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START, SAMPLED_LAMBDA_END)
+			l1 = util.lerp((i+1) / N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START, SAMPLED_LAMBDA_END)
 			self[i] = cls.average_spectrum_samples(lam, v, l0, l1)
 
 		return self
-- 
2.43.0


From 08b11b76d75b6eddf38f26f0218ba5bef1daed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:35 +0000
Subject: [PATCH 087/152] fix: a spectrum with negative components is not black

---
 pytracer/spectral/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index 01b064a..fe65c35 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -184,7 +184,7 @@ class CoefficientSpectrum(np.ndarray, metaclass=ABCMeta):
 		Test whether the spectrum has
 		zeros of SPD everywhere
 		"""
-		return (self < EPS).all()
+		return (np.abs(self) < EPS).all()
 
 	def sqrt(self) -> 'CoefficientSpectrum':
 		"""
-- 
2.43.0


From 44a2aef34ef9d6311773934c97447420c0640802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:35 +0000
Subject: [PATCH 088/152] fix: RGBSpectrum.create builds from the values of a
 sequence instead of taking them for a shape

---
 pytracer/spectral/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index fe65c35..dd02023 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -542,7 +542,7 @@ class RGBSpectrum(CoefficientSpectrum):
 
 		elif isinstance(arg, Iterable):
 			if np.ndim(arg) == 1 and np.shape(arg)[0] == 3:
-				return np.ndarray(arg).view(cls)
+				return np.array(arg).view(cls)
 
 		raise TypeError('Unsupported type {} for init {}'.format(type(arg), cls))
 
-- 
2.43.0


From c18e4aa2565fc3d2422560db747247ca88711d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:35 +0000
Subject: [PATCH 089/152] fix: SampledSpectrum.from_rgb mixes in the secondary
 of the two greater channels and the primary of the greatest

---
 pytracer/spectral/spectrum.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index dd02023..b842dd4 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -464,9 +464,9 @@ class SampledSpectrum(CoefficientSpectrum):
 			if lo == 0:
 				spec = [cls.rgbRefl2SpectCyan, cls.rgbRefl2SpectGreen, cls.rgbRefl2SpectBlue]
 			elif lo == 1:
-				spec = [cls.rgbRefl2SpectMagenta, cls.rgbRefl2SpectRed, cls.rgbRefl2SpectBlue]
+				spec = [cls.rgbRefl2SpectRed, cls.rgbRefl2SpectMagenta, cls.rgbRefl2SpectBlue]
 			else:
-				spec = [cls.rgbRefl2SpectYellow, cls.rgbRefl2SpectRed, cls.rgbRefl2SpectGreen]
+				spec = [cls.rgbRefl2SpectRed, cls.rgbRefl2SpectGreen, cls.rgbRefl2SpectYellow]
 
 			self += rgb[lo] * cls.rgbRefl2SpectWhite
 			self += (rgb[me] - rgb[lo]) * spec[lo]
@@ -479,9 +479,9 @@ class SampledSpectrum(CoefficientSpectrum):
 			if lo == 0:
 				spec = [cls.rgbIllum2SpectCyan, cls.rgbIllum2SpectGreen, cls.rgbIllum2SpectBlue]
 			elif lo == 1:
-				spec = [cls.rgbIllum2SpectMagenta, cls.rgbIllum2SpectRed, cls.rgbIllum2SpectBlue]
+				spec = [cls.rgbIllum2SpectRed, cls.rgbIllum2SpectMagenta, cls.rgbIllum2SpectBlue]
 			else:
-				spec = [cls.rgbIllum2SpectYellow, cls.rgbIllum2SpectRed, cls.rgbIllum2SpectGreen]
+				spec = [cls.rgbIllum2SpectRed, cls.rgbIllum2SpectGreen, cls.rgbIllum2SpectYellow]
 
 			self += rgb[lo] * cls.rgbIllum2SpectWhite
 			self += (rgb[me] - rgb[lo]) * spec[lo]
-- 
2.43.0


From b78acc93e6bebf18b0d3e66c451ba31e81faedb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:35 +0000
Subject: [PATCH 090/152] fix: spectra hold real coefficients also when built
 from whole numbers

---
 pytracer/spectral/spectrum.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index b842dd4..1bfec8c 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -49,7 +49,7 @@ class CoefficientSpectrum(np.ndarray, metaclass=ABCMeta):
 	`SampledSpectrum`
 	"""
 	def __new__(cls, n_samples: (INT, UINT), v: (FLOAT, float)=0.):
-		return np.full(n_samples, v).view(cls)
+		return np.full(n_samples, v, dtype=FLOAT).view(cls)
 
 	def __init__(self, n_samples: (INT, UINT), v: (FLOAT, float) = 0.):
 		pass
@@ -73,26 +73,26 @@ class CoefficientSpectrum(np.ndarray, metaclass=ABCMeta):
 
 	@classmethod
 	def create_from_array(cls, arr: 'np.ndarray'):
-		return arr.copy().view(cls)
+		return arr.astype(FLOAT).view(cls)
 
 	@classmethod
 	def create_from_list(cls, lst: list):
-		return np.array(lst).view(cls)
+		return np.array(lst, dtype=FLOAT).view(cls)
 
 	@classmethod
 	def create(cls, arg):
 		"""Creates from arg. Specific factory methods are preferred."""
 		if isinstance(arg, CoefficientSpectrum):
-			return arg.copy().view(cls)
+			return arg.astype(FLOAT).view(cls)
 
 		elif isinstance(arg, Iterable):
 			if not np.ndim(arg) == 1:
 				raise TypeError('{}-d np array cannot init {}'.format(np.ndim(arg), cls))
 
 			if isinstance(arg, np.ndarray):
-				return arg.copy().view(cls)
+				return arg.astype(FLOAT).view(cls)
 
-			return np.array(arg).view(cls)
+			return np.array(arg, dtype=FLOAT).view(cls)
 
 		else:
 			raise TypeError('Unsupported type {} for init {}'.format(type(arg), cls))
@@ -286,7 +286,7 @@ class SampledSpectrum(CoefficientSpectrum):
 		if v is None:
 			return np.full(N_SPECTRAL_SAMPLES, 0.).view(cls)
 		elif isinstance(v, Iterable):
-			return np.array(v).view(cls)
+			return np.array(v, dtype=FLOAT).view(cls)
 		raise TypeError('Unsupported type {} while initializing {}'.format(type(v), __class__))
 
 	def __init__(self, v: Iterable=None):
@@ -516,7 +516,7 @@ class RGBSpectrum(CoefficientSpectrum):
 	model RGB spectrum.
 	"""
 	def __new__(cls, v: FLOAT=0.):
-		return np.full(3, v).view(cls)
+		return np.full(3, v, dtype=FLOAT).view(cls)
 		# raise TypeError('Unsupported type {} while initializing {}'.format(type(v), __class__))
 
 	def __init__(self, v=0.):
@@ -528,21 +528,21 @@ class RGBSpectrum(CoefficientSpectrum):
 
 	@classmethod
 	def create_from_array(cls, arr: 'np.ndarray'):
-		return arr.copy().view(cls)
+		return arr.astype(FLOAT).view(cls)
 
 	@classmethod
 	def create_from_list(cls, lst: list):
-		return np.array(lst).view(cls)
+		return np.array(lst, dtype=FLOAT).view(cls)
 
 	@classmethod
 	def create(cls, arg):
 		"""Create from arg. Specific factory methods are preferred."""
 		if isinstance(arg, CoefficientSpectrum) and arg.n_samples == 3:
-			return arg.copy().view(cls)
+			return arg.astype(FLOAT).view(cls)
 
 		elif isinstance(arg, Iterable):
 			if np.ndim(arg) == 1 and np.shape(arg)[0] == 3:
-				return np.array(arg).view(cls)
+				return np.array(arg, dtype=FLOAT).view(cls)
 
 		raise TypeError('Unsupported type {} for init {}'.format(type(arg), cls))
 
-- 
2.43.0


From 91e01752c5c532e10ff33a2c762ab3d74092e27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:34 +0000
Subject: [PATCH 091/152] fix: auxiliary camera rays are shifted from the
 sample itself rather than from an empty one

---
 pytracer/camera/camera.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pytracer/camera/camera.py b/pytracer/camera/camera.py
index a11eaa4..3648a97 100644
--- a/pytracer/camera/camera.py
+++ b/pytracer/camera/camera.py
@@ -53,16 +53,16 @@ class Camera(object, metaclass=ABCMeta):
 
 		# find ray shift along x
 		from pytracer.sampler import CameraSample
-		
-		xshift = sample.duplicate(1)[0]
-		xshift.imageX += 1
+
+		xshift = CameraSample(sample.imageX + 1, sample.imageY,
+							  sample.lens_u, sample.lens_v, sample.time)
 		wtx, rx = self.generate_ray(xshift)
 		rd.rxOrigin = rx.o
 		rd.rxDirection = rx.d
 
 		# find ray shift along y
-		yshift = sample.duplicate(1)[0]
-		yshift.imageY += 1
+		yshift = CameraSample(sample.imageX, sample.imageY + 1,
+							  sample.lens_u, sample.lens_v, sample.time)
 		wty, ry = self.generate_ray(yshift)
 		rd.ryOrigin = ry.o
 		rd.ryDirection = ry.d
-- 
2.43.0


From 7373d14bd76640db28a6cf11e9d11bc5a1a9b8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:34 +0000
Subject: [PATCH 092/152] fix: rays of the environment camera carry their time

---
 pytracer/camera/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/camera/environment.py b/pytracer/camera/environment.py
index 6c97975..b6347eb 100644
--- a/pytracer/camera/environment.py
+++ b/pytracer/camera/environment.py
@@ -39,5 +39,5 @@ class EnvironmentCamera(Camera):
 		stheta = np.sin(theta)
 
 		ray = self.c2w(geo.Ray(geo.Point(0., 0., 0.),
-				geo.Vector(stheta * np.cos(phi), np.cos(theta), stheta * np.sin(phi)), 0., np.inf, time))
+				geo.Vector(stheta * np.cos(phi), np.cos(theta), stheta * np.sin(phi)), 0., np.inf, time=time))
 		return [1., ray]
-- 
2.43.0


From dfbf949de68917f1ee53d0fdde949b00239e99f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:34 +0000
Subject: [PATCH 093/152] fix: rays of the pinhole camera have unit direction

---
 pytracer/camera/projective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index 1b9ccb7..df653f5 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -31,7 +31,7 @@ class PinholeCamera(Camera):
 		pp = geo.Point(0., 0., self.focal)
 		d = self.c2w.startTransform(pp - p)
 		p = self.c2w.startTransform(p)
-		return 1., geo.Ray(p, d)
+		return [1., geo.Ray(p, geo.normalize(d), 0., np.inf)]
 
 
 class ProjectiveCamera(Camera):
-- 
2.43.0


From 298ea4dd9b3df9eaa0d1d1365adad2ddd8afc210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:34 +0000
Subject: [PATCH 094/152] fix: differential rays of the perspective camera have
 their time inside the shutter

---
 pytracer/camera/projective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index df653f5..0abc46d 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -225,7 +225,7 @@ class PerspectiveCamera(ProjectiveCamera):
 			ray.rxDirection = geo.normalize(self.dxCam + p_cam)  # geo.Vector + geo.Point => geo.Vector
 			ray.ryDirection = geo.normalize(self.dyCam + p_cam)
 
-		ray.time = sample.time
+		ray.time = util.lerp(sample.time, self.s_open, self.s_close)
 		ray = self.c2w(ray)
 		ray.has_differentials = True
 
-- 
2.43.0


From b4b34cfa0fd79653b71ab653b87d05d41ed47e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:34 +0000
Subject: [PATCH 095/152] fix: differential rays of the orthographic camera are
 not moved to the world twice, and account for the lens

---
 pytracer/camera/projective.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index 0abc46d..cea8aac 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -114,15 +114,19 @@ class OrthoCamera(ProjectiveCamera):
 		"""
 		Generate ray differential.
 		"""
+		# shifted rays share no direction behind a lens
+		if self.lens_rad > 0.:
+			return super().generate_ray_differential(sample)
+
 		wt, rd = self.generate_ray(sample)
 		rd = geo.RayDifferential.from_ray(rd)
 
-		# find ray shift along x
-		rd.rxOrigin = rd.o + self.dxCam
-		rd.ryOrigin = rd.o + self.dyCam
-		rd.rxDirection = rd.ryDirection = rd.d
+		# shift origins in world space, where the ray already is
+		rd.rxOrigin = rd.o + self.c2w(rd.time, self.dxCam)
+		rd.ryOrigin = rd.o + self.c2w(rd.time, self.dyCam)
+		rd.rxDirection = rd.d.copy()
+		rd.ryDirection = rd.d.copy()
 		rd.has_differentials = True
-		rd = self.c2w(rd)
 
 		return [wt, rd]
 
-- 
2.43.0


From 3a9feff3cf596d9a369bc76c3473b36c9873b690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 096/152] fix: the overlap of a ray with a medium is found in
 the frame of the medium

---
 pytracer/volume/volume.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 2a13f79..7465f5a 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -138,7 +138,7 @@ class HomogeneousVolumeDensity(VolumeRegion):
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
 		r = self.w2v(ray)
-		return self.extent.intersect_p(ray)
+		return self.extent.intersect_p(r)
 
 	def sigma_a(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		return self.sig_a if self.extent.inside(self.w2v(pnt)) else Spectrum(0.)
@@ -301,7 +301,7 @@ class VolumeGridDensity(DensityRegion):
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
 		r = self.w2v(ray)
-		return self.extent.intersect_p(ray)
+		return self.extent.intersect_p(r)
 
 
 class ExponentialDensity(DensityRegion):
@@ -331,7 +331,7 @@ class ExponentialDensity(DensityRegion):
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
 		r = self.w2v(ray)
-		return self.extent.intersect_p(ray)
+		return self.extent.intersect_p(r)
 
 
 class AggregateVolume(VolumeRegion):
-- 
2.43.0


From 4a2d7981c9bf28b9a98a960fff4d5bc6e4f19349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 097/152] fix: world bounds of rotated media hold the whole
 extent

---
 pytracer/volume/volume.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 7465f5a..d359cd0 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -133,7 +133,7 @@ class HomogeneousVolumeDensity(VolumeRegion):
 
 
 	def world_bound(self) ->  'geo.BBox':
-		return self.w2v.inverse()(self.extent)
+		return self.w2v.inverse().bound(self.extent)
 
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
@@ -296,7 +296,7 @@ class VolumeGridDensity(DensityRegion):
 
 
 	def world_bound(self) ->  'geo.BBox':
-		return self.w2v.inverse()(self.extent)
+		return self.w2v.inverse().bound(self.extent)
 
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
@@ -326,7 +326,7 @@ class ExponentialDensity(DensityRegion):
 		return self.a * np.exp(-self.b * h)
 
 	def world_bound(self) ->  'geo.BBox':
-		return self.w2v.inverse()(self.extent)
+		return self.w2v.inverse().bound(self.extent)
 
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
-- 
2.43.0


From d24b9a8c5b31aa5fa5fbc09783808e8d2ae7ceed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 098/152] fix: the phase function of a medium uses its
 asymmetry rather than the time

---
 pytracer/volume/volume.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index d359cd0..2bd8016 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -157,7 +157,7 @@ class HomogeneousVolumeDensity(VolumeRegion):
 		if not self.extent.inside(self.w2v(pnt)):
 			return 0.
 		from pytracer.volume.utility import phase_hg
-		return phase_hg(wi, wo, tm)
+		return phase_hg(wi, wo, self.g)
 
 	def tau(self, ray: 'geo.Ray', step: FLOAT=1., offset: FLOAT=.5) ->  'Spectrum':
 		isec, t0, t1 = self.intersect_p(ray)
@@ -210,7 +210,7 @@ class DensityRegion(VolumeRegion):
 		Does not scale the phase function.
 		"""
 		from pytracer.volume.utility import phase_hg
-		return phase_hg(w, wp, tm)
+		return phase_hg(w, wp, self.g)
 
 	def sigma_t(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		return self(self.w2v(pnt)) * (self.sig_a + self.sig_s)
-- 
2.43.0


From 73a3966a8bdd92cda4356ef91ce6af59c8a3d041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 099/152] fix: VolumeGridDensity can be created

---
 pytracer/volume/volume.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 2bd8016..9a5ea50 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -243,13 +243,8 @@ class VolumeGridDensity(DensityRegion):
 	"""
 	def __init__(self, sig_a: 'Spectrum', sig_s: 'Spectrum', g: FLOAT, le: 'Spectrum',
 					extent: 'geo.BBox', v2w: 'trans.Transform', d: 'np.ndarray'):
-		super().__init__()
-		self.sig_a = sig_a
-		self.sig_s = sig_s
-		self.g = g
-		self.le = le
+		super().__init__(sig_a, sig_s, g, le, v2w)
 		self.extent = extent
-		self.w2v = v2w.inverse()
 		self.density = d.copy() 	# 3D np array of densities in [z][y][x] order
 
 	@property
-- 
2.43.0


From a485018a8397ad0661bc51c44ac4220d68a375d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 100/152] fix: VolumeGridDensity looks densities up with x as
 the fastest index

---
 pytracer/volume/volume.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 9a5ea50..e6f4994 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -249,7 +249,7 @@ class VolumeGridDensity(DensityRegion):
 
 	@property
 	def nx(self):
-		return np.shape(self.density)[0]
+		return np.shape(self.density)[2]
 
 	@property
 	def ny(self):
@@ -257,10 +257,10 @@ class VolumeGridDensity(DensityRegion):
 
 	@property
 	def nz(self):
-		return np.shape(self.density)[2]
+		return np.shape(self.density)[0]
 
 	def __D(self, x: INT, y: INT, z: INT) -> FLOAT:
-		x, y, z = np.clip([x, y, z], 0, np.shape(self.density) - 1).astype(INT)
+		x, y, z = np.clip([x, y, z], 0, [self.nx - 1, self.ny - 1, self.nz - 1]).astype(INT)
 		return self.density[z][y][x]
 	
 	def __call__(self, pnt: 'geo.Point') -> FLOAT:
@@ -269,7 +269,7 @@ class VolumeGridDensity(DensityRegion):
 
 		# compute voxel coordinates and offsets
 		vox = self.extent.offset(pnt)
-		vox *= np.shape(self.density)
+		vox *= [self.nx, self.ny, self.nz]
 		vox -= .5
 		vx = util.ftoi(vox.x)
 		vy = util.ftoi(vox.y)
-- 
2.43.0


From 1113543e6d5499a7da63f0e6880b76b2a79a8858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 101/152] fix: the ray through a density region keeps its time

---
 pytracer/volume/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index e6f4994..4ecba48 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -222,7 +222,7 @@ class DensityRegion(VolumeRegion):
 		if length == 0.:
 			return tau
 
-		rn = geo.Ray(r.o, r.d / length, r.mint * length, r.maxt * length, r.time)
+		rn = geo.Ray(r.o, r.d / length, r.mint * length, r.maxt * length, time=r.time)
 		hit, t0, t1 = self.intersect_p(rn)
 		if not hit:
 			return tau
-- 
2.43.0


From d9d1ff55cb36e8aaf50edd64b454bad50dd89d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 102/152] fix: the step and offset of optical thickness are
 optional for every region

---
 pytracer/volume/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 4ecba48..781259a 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -215,7 +215,7 @@ class DensityRegion(VolumeRegion):
 	def sigma_t(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		return self(self.w2v(pnt)) * (self.sig_a + self.sig_s)
 
-	def tau(self, r: 'geo.Ray', step_size: FLOAT, u: FLOAT) -> 'Spectrum':
+	def tau(self, r: 'geo.Ray', step_size: FLOAT=1., u: FLOAT=.5) -> 'Spectrum':
 		tau = Spectrum(0.
 			)
 		length = r.d.length()
-- 
2.43.0


From 45e61274a4c0222143779715a412b5d66b7aa84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 103/152] fix: an aggregate of media sums the emission of its
 members

---
 pytracer/volume/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 781259a..138af4f 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -363,7 +363,7 @@ class AggregateVolume(VolumeRegion):
 	def lve(self, pnt: 'geo.Point', w: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		s = Spectrum(0.)
 		for region in self.regions:
-			s += region.le(pnt, w, tm)
+			s += region.lve(pnt, w, tm)
 		return s		
 
 	def p(self, pnt: 'geo.Point', wi: 'geo.Vector', wo: 'geo.Vector', tm: FLOAT) ->  FLOAT:
-- 
2.43.0


From 3be64ffc355eaead896f522853e9f2d62ea94a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 104/152] fix: the phase function of an aggregate of media is
 the average of its members rather than a sum

---
 pytracer/volume/volume.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 138af4f..421d9f8 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -367,10 +367,16 @@ class AggregateVolume(VolumeRegion):
 		return s		
 
 	def p(self, pnt: 'geo.Point', wi: 'geo.Vector', wo: 'geo.Vector', tm: FLOAT) ->  FLOAT:
-		s = Spectrum(0.)
+		"""
+		Average of the regions, weighted by
+		how much each of them scatters.
+		"""
+		ph, sum_wt = 0., 0.
 		for region in self.regions:
-			s += region.p(pnt, wi, wo, tm)
-		return s		
+			wt = region.sigma_s(pnt, wo, tm).y()
+			sum_wt += wt
+			ph += wt * region.p(pnt, wi, wo, tm)
+		return ph / sum_wt if sum_wt > 0. else 0.
 
 	def tau(self, ray: 'geo.Ray', step: FLOAT=1., offset: FLOAT=.5) ->  'Spectrum':
 		s = Spectrum(0.)
-- 
2.43.0


From b9f23f25ebacf141ae8b76350f953a8402c3a7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 105/152] fix: a homogeneous medium does not hand out its own
 coefficients to be changed

---
 pytracer/volume/volume.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 421d9f8..b650462 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -141,17 +141,17 @@ class HomogeneousVolumeDensity(VolumeRegion):
 		return self.extent.intersect_p(r)
 
 	def sigma_a(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
-		return self.sig_a if self.extent.inside(self.w2v(pnt)) else Spectrum(0.)
+		return self.sig_a.copy() if self.extent.inside(self.w2v(pnt)) else Spectrum(0.)
 
 
 	def sigma_s(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
-		return self.sig_s if self.extent.inside(self.w2v(pnt)) else Spectrum(0.)
+		return self.sig_s.copy() if self.extent.inside(self.w2v(pnt)) else Spectrum(0.)
 
 	def sigma_t(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		return (self.sig_s + self.sig_a) if self.extent.inside(self.w2v(pnt)) else Spectrum(0.)		
 
 	def lve(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
-		return self.le if self.extent.inside(self.w2v(pnt)) else Spectrum(0.)
+		return self.le.copy() if self.extent.inside(self.w2v(pnt)) else Spectrum(0.)
 
 	def p(self, pnt: 'geo.Point', wi: 'geo.Vector', wo: 'geo.Vector', tm: FLOAT) ->  FLOAT:
 		if not self.extent.inside(self.w2v(pnt)):
-- 
2.43.0


From 02e5b7ed65a93cfe642da127a8131e7ed4403a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 106/152] fix: the Schlick phase function divides by the
 squared term

---
 pytracer/volume/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/utility.py b/pytracer/volume/utility.py
index 46af7f3..712bcdd 100644
--- a/pytracer/volume/utility.py
+++ b/pytracer/volume/utility.py
@@ -49,7 +49,7 @@ def phase_hg(w: 'geo.Vector', wp: 'geo.Vector', g: FLOAT) -> FLOAT:
 def phase_schlick(w: 'geo.Vector', wp: 'geo.Vector', g: FLOAT) -> FLOAT:
 	k = 1.55 * g - .55 * g * g * g
 	kct = k * w.dot(wp)
-	return ((1. - k * k) / (1. - kct) * (1. - kct)) / (4. * PI);
+	return ((1. - k * k) / ((1. - kct) * (1. - kct))) / (4. * PI);
 
 
 # Utility Functions
-- 
2.43.0


From 5f0c911b7e7b3b998b16c88f1c4b40b155484732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 107/152] fix: measured scattering and absorption are not
 swapped

---
 pytracer/volume/utility.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytracer/volume/utility.py b/pytracer/volume/utility.py
index 712bcdd..f45c2ed 100644
--- a/pytracer/volume/utility.py
+++ b/pytracer/volume/utility.py
@@ -72,8 +72,9 @@ def get_volume_scattering(name: str) -> ['Spectrum', 'Spectrum']:
 	"""
 	from pytracer.data.volume import MEASURED_SUF_SC
 	if name in MEASURED_SUF_SC:
-		return [Spectrum.from_rgb(MEASURED_SUF_SC[name][0]),
-		        Spectrum.from_rgb(MEASURED_SUF_SC[name][1])]
+		# stored as [sigma'_s, sigma_a]
+		return [Spectrum.from_rgb(MEASURED_SUF_SC[name][1]),
+		        Spectrum.from_rgb(MEASURED_SUF_SC[name][0])]
 	return [None, None]
 
 
-- 
2.43.0


From eecf4cffe002087ceccb644241862b27eaedb57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 108/152] fix: a scene with a medium can be printed

---
 pytracer/scene/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/scene/scene.py b/pytracer/scene/scene.py
index 46133dd..3a6430e 100644
--- a/pytracer/scene/scene.py
+++ b/pytracer/scene/scene.py
@@ -31,7 +31,7 @@ class Scene(object):
 
 	def __repr__(self):
 		return "{}\nAggregates: {}\nLights: {}\nVolume Regions: {}" \
-					.format(self.__class__, self.aggregate, len(self.lights), "N/A" if self.vr is None else len(self.vr))
+					.format(self.__class__, self.aggregate, len(self.lights), "N/A" if self.vr is None else self.vr)
 
 	def intersect(self, ray: 'geo.Ray', isect: 'Intersection') -> bool:
 		return self.aggregate.intersect(ray, isect)
-- 
2.43.0


From 3567e42c1996f527bdb91f71d2c0a027b788d9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:58 +0000
Subject: [PATCH 109/152] fix: camera rays have the time of their sample, which
 samplers already place inside the shutter, as the renderer asserts

---
 pytracer/camera/environment.py | 4 +---
 pytracer/camera/projective.py  | 6 +++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/pytracer/camera/environment.py b/pytracer/camera/environment.py
index b6347eb..05b61aa 100644
--- a/pytracer/camera/environment.py
+++ b/pytracer/camera/environment.py
@@ -31,13 +31,11 @@ class EnvironmentCamera(Camera):
 		Generate ray based on image sample.
 		Returned ray direction is normalized
 		"""
-		time = util.lerp(sample.time, self.s_open, self.s_close)
-
 		# compute ray direction
 		theta = np.pi * sample.imageY / self.film.yResolution
 		phi = 2 * np.pi * sample.imageX / self.film.xResolution
 		stheta = np.sin(theta)
 
 		ray = self.c2w(geo.Ray(geo.Point(0., 0., 0.),
-				geo.Vector(stheta * np.cos(phi), np.cos(theta), stheta * np.sin(phi)), 0., np.inf, time=time))
+				geo.Vector(stheta * np.cos(phi), np.cos(theta), stheta * np.sin(phi)), 0., np.inf, time=sample.time))
 		return [1., ray]
diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index cea8aac..9195f1a 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -106,7 +106,7 @@ class OrthoCamera(ProjectiveCamera):
 			ray.o = geo.Point(lens_u, lens_v, 0.)
 			ray.d = geo.normalize(Pfoc - ray.o)
 
-		ray.time = util.lerp(sample.time, self.s_open, self.s_close)
+		ray.time = sample.time
 		ray = self.c2w(ray)
 		return [1., ray]
 
@@ -175,7 +175,7 @@ class PerspectiveCamera(ProjectiveCamera):
 			ray.o = geo.Point(lens_u, lens_v, 0.)
 			ray.d = geo.normalize(Pfoc - ray.o)
 
-		ray.time = util.lerp(sample.time, self.s_open, self.s_close)
+		ray.time = sample.time
 		ray = self.c2w(ray)
 		return [1., ray]
 
@@ -229,7 +229,7 @@ class PerspectiveCamera(ProjectiveCamera):
 			ray.rxDirection = geo.normalize(self.dxCam + p_cam)  # geo.Vector + geo.Point => geo.Vector
 			ray.ryDirection = geo.normalize(self.dyCam + p_cam)
 
-		ray.time = util.lerp(sample.time, self.s_open, self.s_close)
+		ray.time = sample.time
 		ray = self.c2w(ray)
 		ray.has_differentials = True
 
-- 
2.43.0


From 85843ce5f1b317a66f628580e72f37848de538f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:13 +0000
Subject: [PATCH 110/152] fix: rays of the pinhole camera have the time of
 their sample and move with the camera

---
 pytracer/camera/projective.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index 9195f1a..d6e8f9a 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -29,9 +29,8 @@ class PinholeCamera(Camera):
 	def generate_ray(self, sample: 'CameraSample') -> [FLOAT, 'geo.Ray']:
 		p = geo.Point(sample.imageX, sample.imageY, 0.)
 		pp = geo.Point(0., 0., self.focal)
-		d = self.c2w.startTransform(pp - p)
-		p = self.c2w.startTransform(p)
-		return [1., geo.Ray(p, geo.normalize(d), 0., np.inf)]
+		ray = geo.Ray(p, geo.normalize(pp - p), 0., np.inf, time=sample.time)
+		return [1., self.c2w(ray)]
 
 
 class ProjectiveCamera(Camera):
-- 
2.43.0


From ab5714cef73e6234015b0f0810d0dbc5d08a4e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:53 +0000
Subject: [PATCH 111/152] fix: direct lighting counts surface samples that
 reach the light, weighted unless specular

---
 pytracer/integrator/utility.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 6ee7a79..1f27a97 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -234,25 +234,27 @@ def estimate_direct(scene: 'Scene', renderer: 'Renderer', light: 'Light', p:'geo
 		bsdf_pdf, wi, smp_type, f = bsdf.sample_f(wo, bsdf_smp, flags)
 		if not util.is_black(f) and bsdf_pdf > 0.:
 			wt = 1.
-			if not (smp_type & BDFType.SPECULAR).v == 0:  # MIS not apply to specular direction
+			if not smp_type & BDFType.SPECULAR:  # MIS not apply to specular direction
 				light_pdf = light.pdf(p, wi)
 				if light_pdf == 0.:
 					return Ld
 				from pytracer.montecarlo import power_heuristic
 				wt = power_heuristic(1, bsdf_pdf, 1, light_pdf)
-				# add contribution
-				Li = Spectrum(0.)
-				ray = geo.RayDifferential(p, wi, r_eps, np.inf, time)
-				hit, light_isect = scene.intersect(ray)
-				if hit:
-					if light_isect.primitive.get_area_light() == light:
-						Li = light_isect.le(-wi)
-				else:
-					Li = light.le(ray) # light illum.
-
-				if not util.is_black(Li):
-					Li *= renderer.transmittance(scene, ray, None, rng) # attenuation
-					Ld += f * Li * wi.abs_dot(n) * wt / bsdf_pdf
+
+			# add contribution
+			from pytracer.aggregate import Intersection
+			Li = Spectrum(0.)
+			ray = geo.RayDifferential(p, wi, r_eps, np.inf, time=time)
+			light_isect = Intersection()
+			if scene.intersect(ray, light_isect):
+				if light_isect.primitive.get_area_light() == light:
+					Li = light_isect.le(-wi)
+			else:
+				Li = light.le(ray) # light illum.
+
+			if not util.is_black(Li):
+				Li *= renderer.transmittance(scene, ray, None, rng) # attenuation
+				Ld += f * Li * wi.abs_dot(n) * wt / bsdf_pdf
 
 	return Ld
 
-- 
2.43.0


From 149c397864f12315bdbc7549cb055166a69cd261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:53 +0000
Subject: [PATCH 112/152] fix: direct lighting can sample one light

---
 pytracer/integrator/surface/direct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/integrator/surface/direct.py b/pytracer/integrator/surface/direct.py
index ad5461c..980341b 100644
--- a/pytracer/integrator/surface/direct.py
+++ b/pytracer/integrator/surface/direct.py
@@ -64,7 +64,7 @@ class DirectLightingIntegrator(SurfaceIntegrator):
 			# sampling one light
 			n_lights = len(scene.lights)
 			self.light_sample_offsets = [LightSampleOffset(1, sample)]
-			self.light_num_offset = sample.add1d(1)
+			self.light_num_offset = sample.add_1d(1)
 			self.bsdf_sample_offsets = [BSDFSampleOffset(1, sample)]
 
 	def li(self, scene: 'Scene', renderer: 'Renderer', ray: 'geo.RayDifferential',
@@ -91,7 +91,7 @@ class DirectLightingIntegrator(SurfaceIntegrator):
 			elif self.strategy == LightStrategy.SAMPLE_ONE_UNIFORM:
 				from pytracer.integrator.utility import uniform_sample_one_light
 				L += uniform_sample_one_light(scene, renderer, p, n, wo, isect.rEps, ray.time,
-						bsdf, sample, self.light_num_offset, self.light_sample_offsets, self.bsdf_sample_offsets, rng)
+						bsdf, sample, self.light_num_offset, self.light_sample_offsets[0], self.bsdf_sample_offsets[0], rng)
 
 			else:
 				raise RuntimeError("Unknown LightStrategy")
-- 
2.43.0


From a1f8843f3155805deb330a0e65ac55cbd5b40d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:53 +0000
Subject: [PATCH 113/152] fix: refracted rays bring back their radiance rather
 than their transmittance

---
 pytracer/integrator/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 1f27a97..e5c2f4a 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -194,7 +194,7 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			rd.rxDirection = wi + eta * dwodx - geo.Vector.from_arr(mu * dndx + dmudx * n)
 			rd.ryDirection = wi + eta * dwody - geo.Vector.from_arr(mu * dndy + dmudy * n)
 
-		_, Li = renderer.li(scene, rd, sample, isect, rng)
+		Li, _ = renderer.li(scene, rd, sample, isect, rng)
 		L = f * Li * wi.abs_dot(n) / pdf
 
 	return L
-- 
2.43.0


From efbd668230f58b1df164d0902f5d8dbde4308b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:53 +0000
Subject: [PATCH 114/152] fix: following a reflected ray keeps the intersection
 that is still needed for the refracted one

---
 pytracer/integrator/utility.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index e5c2f4a..4010537 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -119,6 +119,7 @@ def uniform_sample_one_light(scene: 'Scene', renderer: 'Renderer', p: 'geo.Point
 
 def specular_reflect(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersection',
                      renderer: 'Renderer', scene: 'Scene', sample: 'Sample', rng) -> 'Spectrum':
+	from pytracer.aggregate import Intersection
 	from pytracer.reflection import (BDFType, BSDFSample)
 
 	wo = -ray.d
@@ -149,7 +150,7 @@ def specular_reflect(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersect
 			rd.rxDirection = wi - dwodx + 2. * geo.Vector.from_arr(wo.dot(n) * dndx + dDNdx * n)
 			rd.ryDirection = wi - dwody + 2. * geo.Vector.from_arr(wo.dot(n) * dndy + dDNdy * n)
 
-		Li, _ = renderer.li(scene, rd, sample, isect, rng)
+		Li, _ = renderer.li(scene, rd, sample, Intersection(), rng)
 		L = f * Li * wi.abs_dot(n) / pdf
 
 	return L
@@ -157,6 +158,7 @@ def specular_reflect(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersect
 
 def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersection',
                       renderer: 'Renderer', scene: 'Scene', sample: 'Sample', rng) -> 'Spectrum':
+	from pytracer.aggregate import Intersection
 	from pytracer.reflection import (BDFType, BSDFSample)
 	wo = -ray.d
 	p = bsdf.dgs.p
@@ -194,7 +196,7 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			rd.rxDirection = wi + eta * dwodx - geo.Vector.from_arr(mu * dndx + dmudx * n)
 			rd.ryDirection = wi + eta * dwody - geo.Vector.from_arr(mu * dndy + dmudy * n)
 
-		Li, _ = renderer.li(scene, rd, sample, isect, rng)
+		Li, _ = renderer.li(scene, rd, sample, Intersection(), rng)
 		L = f * Li * wi.abs_dot(n) / pdf
 
 	return L
-- 
2.43.0


From 0cb4e530f59857055fab2f49bb31e8bacb0a52c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:53 +0000
Subject: [PATCH 115/152] fix: auxiliary rays are refracted like the ray itself

---
 pytracer/integrator/utility.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 4010537..c9f41a8 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -173,10 +173,10 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			rd.rxOrigin = p + isect.dg.dpdx
 			rd.ryOrigin = p + isect.dg.dpdy
 
-			eta = bsdf.eta
+			eta = 1. / bsdf.eta
 			w = -wo
 			if wo.dot(n) < 0.:
-				eta = 1. / eta
+				eta = bsdf.eta
 
 			# compute reflected directions of differentials
 			dndx = bsdf.dgs.dndu * bsdf.dgs.dudx + \
@@ -189,12 +189,12 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			dDNdx = dwodx.dot(n) + wo.dot(dndx)
 			dDNdy = dwody.dot(n) + wo.dot(dndy)
 
-			mu = eta * w.dot(n) - wi.dot(n)
+			mu = wi.dot(n) - eta * w.dot(n)
 			dmudx = (eta - (eta * eta * w.dot(n) / wi.dot(n))) * dDNdx
 			dmudy = (eta - (eta * eta * w.dot(n) / wi.dot(n))) * dDNdy
 
-			rd.rxDirection = wi + eta * dwodx - geo.Vector.from_arr(mu * dndx + dmudx * n)
-			rd.ryDirection = wi + eta * dwody - geo.Vector.from_arr(mu * dndy + dmudy * n)
+			rd.rxDirection = wi - eta * dwodx + geo.Vector.from_arr(mu * dndx + dmudx * n)
+			rd.ryDirection = wi - eta * dwody + geo.Vector.from_arr(mu * dndy + dmudy * n)
 
 		Li, _ = renderer.li(scene, rd, sample, Intersection(), rng)
 		L = f * Li * wi.abs_dot(n) / pdf
-- 
2.43.0


From c12c1dc80751c7673a2ba4841278de4614129d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:53 +0000
Subject: [PATCH 116/152] fix: paths count emission after specular bounces only

---
 pytracer/integrator/surface/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/integrator/surface/path.py b/pytracer/integrator/surface/path.py
index 0d30e6a..87f2aeb 100644
--- a/pytracer/integrator/surface/path.py
+++ b/pytracer/integrator/surface/path.py
@@ -109,7 +109,7 @@ class PathIntegrator(SurfaceIntegrator):
 			if f.is_black() or pdf == 0.:
 				break
 			# print('+++++')
-			specular_bounce = (flags & BDFType.SPECULAR) != 0
+			specular_bounce = bool(flags & BDFType.SPECULAR)
 			path_throughput *= f * wi.abs_dot(n) / pdf
 			ray = geo.RayDifferential.from_parent(p, wi, ray, isectp.rEps)
 			# print('#')
-- 
2.43.0


From f6286efbbef165a8efe030cf78c158beb6e7ef0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:53 +0000
Subject: [PATCH 117/152] fix: every bounce of a path is attenuated by the
 media it crosses

---
 pytracer/integrator/surface/path.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pytracer/integrator/surface/path.py b/pytracer/integrator/surface/path.py
index 87f2aeb..97be4cc 100644
--- a/pytracer/integrator/surface/path.py
+++ b/pytracer/integrator/surface/path.py
@@ -127,6 +127,7 @@ class PathIntegrator(SurfaceIntegrator):
 			# print('##')
 			# find next vertex
 			hit = scene.intersect(ray, local_isect)
+			path_throughput *= renderer.transmittance(scene, ray, None, rng)
 			if not hit:
 				# ambient light
 				if specular_bounce:
@@ -134,9 +135,6 @@ class PathIntegrator(SurfaceIntegrator):
 						L += path_throughput * light.le(ray)
 				break
 			# print('###')
-			if bounce_cnt > 1:
-				path_throughput *= renderer.transmittance(scene, ray, None, rng)
-
 			isectp = local_isect
 
 			bounce_cnt += 1
-- 
2.43.0


From b3501bb812bb4fd10894e23a272483a648af8225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:53 +0000
Subject: [PATCH 118/152] fix: nothing is absorbed where there are no media

---
 pytracer/renderer/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/renderer/renderer.py b/pytracer/renderer/renderer.py
index 5cb0d74..fd05605 100644
--- a/pytracer/renderer/renderer.py
+++ b/pytracer/renderer/renderer.py
@@ -72,7 +72,7 @@ class SamplerRenderer(Renderer):
 
 			return T * li + lvi, T
 		else:
-			return li, Spectrum(0.)
+			return li, Spectrum(1.)
 
 	def transmittance(self, scene: 'Scene', ray: 'geo.RayDifferential', sample: 'Sample',
 									rng=np.random.rand) -> 'Spectrum':
-- 
2.43.0


From ca16500fb75468fb0e6aaeea40eef9412fded92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:18 +0000
Subject: [PATCH 119/152] fix: bump mapping divides by the size of a zero
 footprint in v

---
 pytracer/material/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 456e7fd..acf1014 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -72,7 +72,7 @@ class Material(object, metaclass=ABCMeta):
 
 		# shift du in v
 		dv = .5 * (np.fabs(dgs.dvdx) + np.fabs(dgs.dvdy))
-		if dv == 0.1:
+		if dv == 0.:
 			dv = 0.01
 		dg.p = dgs.p + dv * dgs.dpdv
 		dg.u = dgs.u
-- 
2.43.0


From be50cb3f2643b93734adfaf552ef2ea19580529d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:18 +0000
Subject: [PATCH 120/152] fix: bump mapping calls a conversion that does not
 exist

---
 pytracer/material/material.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index acf1014..11691a6 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -87,8 +87,8 @@ class Material(object, metaclass=ABCMeta):
 		dg = dgs.copy()
 
 		# geo.Vector * geo.Normal -> geo.Vector
-		dg.dpdu = dgs.dpdu + (u_disp - disp) / du * dgs.nn + disp * geo.Vector.fromNormal(dgs.dndu)
-		dg.dpdv = dgs.dpdv + (v_disp - disp) / dv * dgs.nn + disp * geo.Vector.fromNormal(dgs.dndv)
+		dg.dpdu = dgs.dpdu + (u_disp - disp) / du * dgs.nn + disp * geo.Vector.from_arr(dgs.dndu)
+		dg.dpdv = dgs.dpdv + (v_disp - disp) / dv * dgs.nn + disp * geo.Vector.from_arr(dgs.dndv)
 		dg.nn = geo.Normal.from_arr(geo.normalize(dg.dpdu.cross(dg.dpdv)))
 		if dgs.shape.ro ^ dgs.shape.transform_swaps_handedness:
 			dg.nn *= -1.
-- 
2.43.0


From f4dec7270bda0d24177637603f72ef9addb00630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:18 +0000
Subject: [PATCH 121/152] fix: mixing materials unpacks components as pairs

---
 pytracer/material/material.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 11691a6..917db74 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -392,9 +392,9 @@ class MixMaterial(Material):
 		s1 = self.scale(dg_s).clip()
 		s2 = (Spectrum(1.) - s1).clip()
 
-		for i, b in b1.bdfs:
+		for i, b in enumerate(b1.bdfs):
 			b1.bdfs[i] = ScaledBDF(b, s1)
-		for i, b in b2.bdfs:
+		for b in b2.bdfs:
 			b1.push_back(ScaledBDF(b, s2))
 
 		return b1
-- 
2.43.0


From 13fd32a8021339d7476906c4ee713c7206525800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:18 +0000
Subject: [PATCH 122/152] fix: subsurface material passes its colour under an
 unknown keyword

---
 pytracer/material/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 917db74..0ad25f9 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -546,7 +546,7 @@ class SubsurfaceMaterial(Material):
 			dgs = Material.bump(self.bump_map, dg_g, dg_s)
 		else:
 			dgs = dg_s.copy()
-		util.clip(R = self.kr(dgs))
+		R = util.clip(self.kr(dgs))
 		bsdf = BSDF(dgs, dg_g.nn)
 
 		if not util.is_black(R):
-- 
2.43.0


From f397c180f307e584e600d81ed98ce0da82002d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:18 +0000
Subject: [PATCH 123/152] fix: measured material found in the cache has no
 samples

---
 pytracer/material/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 0ad25f9..c6aca51 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -431,7 +431,7 @@ class MeasuredMaterial(Material):
 		if ext == '.brdf' or ext == '.BRDF':
 			if file in IrIsotropicData:
 				# already read
-				self.theta_phi_sample, self.theta_phi_tree = IrIsotropicData[file]
+				self.theta_phi_samples, self.theta_phi_tree = IrIsotropicData[file]
 				return
 
 			# read file
-- 
2.43.0


From 369fd1e36f3a01a11561b93cc4fe2d61c0854f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:18 +0000
Subject: [PATCH 124/152] fix: measured materials of the same file name in
 different folders are taken for one

---
 pytracer/material/material.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index c6aca51..824cf3f 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -429,9 +429,10 @@ class MeasuredMaterial(Material):
 
 		# Irregular Sampled Isotropic BRDF
 		if ext == '.brdf' or ext == '.BRDF':
-			if file in IrIsotropicData:
+			key = os.path.abspath(filename)
+			if key in IrIsotropicData:
 				# already read
-				self.theta_phi_samples, self.theta_phi_tree = IrIsotropicData[file]
+				self.theta_phi_samples, self.theta_phi_tree = IrIsotropicData[key]
 				return
 
 			# read file
@@ -482,7 +483,7 @@ class MeasuredMaterial(Material):
 
 			self.theta_phi_samples = np.array(samples, dtype=object)
 			self.theta_phi_tree = KdTree(tree_data)
-			IrIsotropicData[file] = [self.theta_phi_samples, self.theta_phi_tree]
+			IrIsotropicData[key] = [self.theta_phi_samples, self.theta_phi_tree]
 
 		elif ext == '.binary':
 			# Regular Halfangle BRDF
-- 
2.43.0


From b85c9000e5b1fdbf8c4eeedce654285acbda9677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:18 +0000
Subject: [PATCH 125/152] fix: comments in measured material files are only
 recognised when set apart by blanks

---
 pytracer/material/material.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 824cf3f..e8cfaac 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -444,8 +444,8 @@ class MeasuredMaterial(Material):
 			val = []
 			with open(filename, 'r') as f:
 				for line in f:
-					line = line.split()
-					if not len(line) or line[0] == '#':
+					line = line.split('#')[0].split()
+					if not len(line):
 						# skip comments
 						continue
 					val.extend(np.array(line).astype(FLOAT))
-- 
2.43.0


From 1e634c7a7c823137e150a5fed413f551007f21e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:18 +0000
Subject: [PATCH 126/152] fix: tabulated measured material divides by the
 number of bins and reads the first bin only

---
 pytracer/reflection/bdf/measured.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/reflection/bdf/measured.py b/pytracer/reflection/bdf/measured.py
index 1c19ca7..a6f77c7 100644
--- a/pytracer/reflection/bdf/measured.py
+++ b/pytracer/reflection/bdf/measured.py
@@ -100,9 +100,9 @@ class ReHalfangleBRDF(BDF):
 		wdp = geo.spherical_phi(wd)
 		if wdp > PI:
 			wdp -= PI
-		wht_idx = np.clip(INT((np.sqrt(max(0., t / (PI / 2.)))) / self.nThetaH), 0, self.nThetaH - 1)
+		wht_idx = np.clip(INT(np.sqrt(max(0., t / (PI / 2.))) * self.nThetaH), 0, self.nThetaH - 1)
 
-		wdt_idx = np.clip(INT(wdt / (self.nThetaD * PI)), 0, self.nThetaD - 1)
+		wdt_idx = np.clip(INT(wdt / (PI / 2.) * self.nThetaD), 0, self.nThetaD - 1)
 
-		wdp_idx = np.clip(INT(wdp / (self.nPhiD * PI)), 0, self.nPhiD - 1)
+		wdp_idx = np.clip(INT(wdp / PI * self.nPhiD), 0, self.nPhiD - 1)
 		return Spectrum.from_rgb(self.brdf[wht_idx][wdt_idx][wdp_idx])
-- 
2.43.0


From fd69a478ce4138206cd1a9803fd835bd113336cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:18 +0000
Subject: [PATCH 127/152] fix: plastic adds components for black colours

---
 pytracer/material/material.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index e8cfaac..e7658fc 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -175,16 +175,15 @@ class PlasticMaterial(Material):
 
 		# diffuse
 		kd = self.Kd(dgs).clip()
-		diff = Lambertian(kd)
-		fresnel = FresnelDielectric(1.5, 1.)
+		if not kd.is_black():
+			bsdf.push_back(Lambertian(kd))
 
 		# glossy specular
 		ks = self.Ks(dgs).clip()
-		rough = self.roughness(dgs)
-		spec = Microfacet(ks, fresnel, Blinn(1. / rough))
-
-		bsdf.push_back(diff)
-		bsdf.push_back(spec)
+		if not ks.is_black():
+			fresnel = FresnelDielectric(1.5, 1.)
+			rough = self.roughness(dgs)
+			bsdf.push_back(Microfacet(ks, fresnel, Blinn(1. / rough)))
 
 		return bsdf
 
-- 
2.43.0


From 4fb9a8155ec11f96c1eacfbf71e4ff2414df7233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:18 +0000
Subject: [PATCH 128/152] fix: matte adds a component for a black colour

---
 pytracer/material/material.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index e7658fc..fd9c54c 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -131,6 +131,8 @@ class MatteMaterial(Material):
 
 		# evaluate textures
 		r = util.clip(self.Kd(dgs))
+		if util.is_black(r):
+			return bsdf
 		sigma = np.clip(self.sigma(dgs), 0., 90.)
 		if sigma == 0.:
 			# use Lambertian
-- 
2.43.0


From b783e59b71394f589cadfdf2f901aed58968e867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:18 +0000
Subject: [PATCH 129/152] fix: plastic takes its outside for its inside

---
 pytracer/material/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index fd9c54c..888baa8 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -183,7 +183,7 @@ class PlasticMaterial(Material):
 		# glossy specular
 		ks = self.Ks(dgs).clip()
 		if not ks.is_black():
-			fresnel = FresnelDielectric(1.5, 1.)
+			fresnel = FresnelDielectric(1., 1.5)
 			rough = self.roughness(dgs)
 			bsdf.push_back(Microfacet(ks, fresnel, Blinn(1. / rough)))
 
-- 
2.43.0


From d12646ccc8236abf06d6aebff8c206747e2f0ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:18 +0000
Subject: [PATCH 130/152] fix: uber material takes its outside for its inside

---
 pytracer/material/material.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 888baa8..a3800d3 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -349,18 +349,18 @@ class UberMaterial(Material):
 		e = self.eta(dgs)
 		ks = op * self.Ks(dgs).clip()
 		if not ks.is_black():
-			fresnel = FresnelDielectric(e, 1.)
+			fresnel = FresnelDielectric(1., e)
 			rough = self.roughness(dgs)
 			bsdf.push_back(Microfacet(ks, fresnel,Blinn(1. / rough)))
 
 		kr = op * self.Kr(dgs).clip()
 		if not kr.is_black():
-			fresnel = FresnelDielectric(e, 1.)
+			fresnel = FresnelDielectric(1., e)
 			bsdf.push_back(SpecularReflection(kr, fresnel))
 
 		kt = op * self.Kt(dgs).clip()
 		if not kt.is_black():
-			bsdf.push_back(SpecularTransmission(kt, e, 1.))
+			bsdf.push_back(SpecularTransmission(kt, 1., e))
 
 		return bsdf
 
-- 
2.43.0


From 80547700b0eec6cd0111cb2ecd04c2ccd31b04c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:18 +0000
Subject: [PATCH 131/152] fix: bump mapping hands a normal where a vector is
 demanded

---
 pytracer/material/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index a3800d3..82294f4 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -94,7 +94,7 @@ class Material(object, metaclass=ABCMeta):
 			dg.nn *= -1.
 
 		# orient shding normal to match goemtric normal
-		dg.nn = geo.face_forward(dg.nn, dgg.nn)
+		dg.nn = geo.face_forward(dg.nn, geo.Vector.from_arr(dgg.nn))
 
 		return dg
 
-- 
2.43.0


From a338d257e7a9f11401bc4d0f1e785cae429e1363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:18 +0000
Subject: [PATCH 132/152] fix: bump mapping fails on surfaces without a shape

---
 pytracer/material/material.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 82294f4..9fed428 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -90,7 +90,8 @@ class Material(object, metaclass=ABCMeta):
 		dg.dpdu = dgs.dpdu + (u_disp - disp) / du * dgs.nn + disp * geo.Vector.from_arr(dgs.dndu)
 		dg.dpdv = dgs.dpdv + (v_disp - disp) / dv * dgs.nn + disp * geo.Vector.from_arr(dgs.dndv)
 		dg.nn = geo.Normal.from_arr(geo.normalize(dg.dpdu.cross(dg.dpdv)))
-		if dgs.shape.ro ^ dgs.shape.transform_swaps_handedness:
+		if dgs.shape is not None and \
+			(dgs.shape.ro ^ dgs.shape.transform_swaps_handedness):
 			dg.nn *= -1.
 
 		# orient shding normal to match goemtric normal
-- 
2.43.0


From f1ff46a2252f5b431435ffe06ea9303cc050c557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:18 +0000
Subject: [PATCH 133/152] fix: uber material with opacity above one transmits
 negative light

---
 pytracer/material/material.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 9fed428..6831eee 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -340,8 +340,9 @@ class UberMaterial(Material):
 		bsdf = BSDF(dgs, dg_g.nn)
 		op = self.opacity(dgs).clip()   # op: Spectrum
 
-		if not op == [1., 1., 1.]:
-			bsdf.push_back(SpecularTransmission((1. - op), 1., 1.))
+		tr = (1. - op).clip()
+		if not tr.is_black():
+			bsdf.push_back(SpecularTransmission(tr, 1., 1.))
 
 		kd = op * self.Kd(dgs).clip()
 		if not kd.is_black():
-- 
2.43.0


From 3f1b6e3e73b533822472b3f066a1ee1b7465f45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:18 +0000
Subject: [PATCH 134/152] fix: adapters fail when the component they wrap has
 no sample

---
 pytracer/reflection/bdf/bdf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index 9f40582..bddc65d 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -197,6 +197,8 @@ class BRDF2BTDF(BDF):
 
 	def sample_f(self, wo: 'geo.Vector', u1: FLOAT,  u2: FLOAT):
 		pdf, wi, f = self.brdf.sample_f(wo, u1, u2)
+		if pdf == 0.:
+			return pdf, wi, f
 		return pdf, self.switch(wi), f
 
 	def rho_hd(self, wo: 'geo.Vector', samples: [FLOAT]): return self.brdf.rho_hd(wo, samples)
@@ -225,6 +227,8 @@ class ScaledBDF(BDF):
 
 	def sample_f(self, wo: 'geo.Vector', u1: FLOAT, u2: FLOAT):
 		pdf, wi, f = self.bdf.sample_f(wo, u1, u2)
+		if pdf == 0.:
+			return pdf, wi, f
 		return pdf, wi, self.s * f
 
 	def rho_hd(self, wo: 'geo.Vector', samples: [FLOAT]): return self.s * self.bdf.rho_hd(wo, samples)
-- 
2.43.0


From bdcffb8e7bd13cfa5715432e51011cf0709fb1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:38 +0000
Subject: [PATCH 135/152] fix: the interface names types in annotations it does
 not import

---
 pytracer/interface/api.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index 4cc8d74..1d4fa05 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -17,7 +17,7 @@ if TYPE_CHECKING:
 	from pytracer.transform import Transform
 
 
-def system_init(option: Option):
+def system_init(option: 'Option'):
 	from pytracer.spectral import Spectrum
 	import pytracer.interface as inter
 
@@ -100,14 +100,14 @@ def trans_look_at(eye: list, at: list, up: list):
 
 
 @check_system_inited
-def trans_concat(trans: Transform):
+def trans_concat(trans: 'Transform'):
 	import pytracer.interface as inter
 	for i, _ in enumerate(inter.TRANSFORM_SET):
 		inter.TRANSFORM_SET[i] *= trans
 
 
 @check_system_inited
-def trans_set(trans: Transform):
+def trans_set(trans: 'Transform'):
 	import pytracer.interface as inter
 	for i, _ in enumerate(inter.TRANSFORM_SET):
 		inter.TRANSFORM_SET[i] = trans
@@ -141,21 +141,21 @@ def set_transformation_time(start=0., end=1.):
 
 # Filters
 @check_system_inited
-def set_pixel_filter(name: str, param: Param):
+def set_pixel_filter(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.filter_name = name.lower()
 	inter.RENDER_OPTION.filter_param = param
 
 
 @check_system_inited
-def set_film(name: str, param: Param):
+def set_film(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.film_name = name.lower()
 	inter.RENDER_OPTION.film_param = param
 	
 	
 @check_system_inited
-def set_camera(name: str, param: Param):
+def set_camera(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.camera_name = name.lower()
 	inter.RENDER_OPTION.camera_param = param
@@ -164,35 +164,35 @@ def set_camera(name: str, param: Param):
 
 
 @check_system_inited
-def set_sampler(name: str, param: Param):
+def set_sampler(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.sampler_name = name.lower()
 	inter.RENDER_OPTION.sampler_param = param
 
 
 @check_system_inited
-def set_aggregator(name: str, param: Param):
+def set_aggregator(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.aggregator_name = name.lower()
 	inter.RENDER_OPTION.aggregator_param = param
 
 
 @check_system_inited
-def set_renderer(name: str, param: Param):
+def set_renderer(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.renderer_name = name.lower()
 	inter.RENDER_OPTION.renderer_param = param
 
 
 @check_system_inited
-def set_surface(name: str, param: Param):
+def set_surface(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.surface_name = name.lower()
 	inter.RENDER_OPTION.surface_param = param
 
 
 @check_system_inited
-def set_volume(name: str, param: Param):
+def set_volume(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.volume_name = name.lower()
 	inter.RENDER_OPTION.volume_param = param
-- 
2.43.0


From e9793a492484d43a7aed8e15c489afacc34f452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:38 +0000
Subject: [PATCH 136/152] fix: interface calls are checked when defined and not
 when made

---
 pytracer/interface/api.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index 1d4fa05..4257ddd 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -9,6 +9,7 @@ Interfacing from the scene descriptions.
 Created by Jiayao on Aug 21, 2017
 """
 from __future__ import absolute_import
+import functools
 from typing import TYPE_CHECKING
 import pytracer.utility as util
 if TYPE_CHECKING:
@@ -48,10 +49,13 @@ def system_clean():
 
 
 def check_system_inited(api_func):
-	import pytracer.interface as inter
-	if inter.API_STATUS == inter.API_UNINIT:
-		raise RuntimeError("{}: system not inited.".format(api_func.__name__))
-	return api_func
+	@functools.wraps(api_func)
+	def checked(*args, **kwargs):
+		import pytracer.interface as inter
+		if inter.API_STATUS == inter.API_UNINIT:
+			raise RuntimeError("{}: system not inited.".format(api_func.__name__))
+		return api_func(*args, **kwargs)
+	return checked
 
 
 @check_system_inited
-- 
2.43.0


From 2e80b860878e224571715a6b6f6853feeb4a0f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:38 +0000
Subject: [PATCH 137/152] fix: initialising leaves the transforms unset and the
 blocks of an earlier run open

---
 pytracer/interface/api.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index 4257ddd..b77a93f 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -21,6 +21,7 @@ if TYPE_CHECKING:
 def system_init(option: 'Option'):
 	from pytracer.spectral import Spectrum
 	import pytracer.interface as inter
+	import pytracer.transform as trans
 
 	if inter.API_STATUS != inter.API_UNINIT:
 		raise RuntimeError("system_init() already called.")
@@ -32,6 +33,11 @@ def system_init(option: 'Option'):
 	inter.RENDER_OPTION = inter.RenderOption()
 
 	inter.GRAPHICS_STATE = GraphicsState()
+	inter.GRAPHICS_STATE_STACK = []
+
+	inter.TRANSFORM_SET = [trans.Transform() for _ in range(inter.MAX_TRANSFORM)]
+	inter.TRANSFORM_STACK = []
+	inter.COORDINATE_SYSTEM = {}
 
 	Spectrum.init()
 
-- 
2.43.0


From 64fb62005865f9dff78c7f8a4109a4a8edce2efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:38 +0000
Subject: [PATCH 138/152] fix: named coordinate systems change with the
 transforms in force

---
 pytracer/interface/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index b77a93f..ff4a8de 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -128,7 +128,7 @@ def trans_set(trans: 'Transform'):
 def add_coordinate_system(name: str):
 	"""Make a named copy of the current transformations."""
 	import pytracer.interface as inter
-	inter.COORDINATE_SYSTEM[name] = inter.TRANSFORM_SET
+	inter.COORDINATE_SYSTEM[name] = list(inter.TRANSFORM_SET)
 
 
 @check_system_inited
@@ -138,7 +138,7 @@ def set_coordinate_system(name: str):
 	if name not in inter.COORDINATE_SYSTEM:
 		raise RuntimeError
 
-	inter.TRANSFORM_SET = inter.COORDINATE_SYSTEM[name]
+	inter.TRANSFORM_SET = list(inter.COORDINATE_SYSTEM[name])
 
 
 # Render Options
-- 
2.43.0


From 4323a0127b1a142583d9b0b7b680cbe5a7037069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:38 +0000
Subject: [PATCH 139/152] fix: begun blocks do not keep the transforms to
 restore

---
 pytracer/interface/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index ff4a8de..925bd28 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -221,7 +221,7 @@ def world_begin():
 def attribute_begin():
 	import pytracer.interface as inter
 	inter.GRAPHICS_STATE_STACK.append(inter.GRAPHICS_STATE)
-	inter.TRANSFORM_STACK.append(inter.TRANSFORM_SET)
+	inter.TRANSFORM_STACK.append(list(inter.TRANSFORM_SET))
 
 
 @check_system_inited
@@ -238,7 +238,7 @@ def attribute_end():
 @check_system_inited
 def transform_begin():
 	import pytracer.interface as inter
-	inter.TRANSFORM_STACK.append(inter.TRANSFORM_SET)
+	inter.TRANSFORM_STACK.append(list(inter.TRANSFORM_SET))
 
 
 @check_system_inited
-- 
2.43.0


From 3e9fd6ee53efbec1606fb517e55aa4a989fd9278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:38 +0000
Subject: [PATCH 140/152] fix: begun attribute blocks do not keep the
 attributes to restore

---
 pytracer/interface/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index 925bd28..a55fd08 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -9,6 +9,7 @@ Interfacing from the scene descriptions.
 Created by Jiayao on Aug 21, 2017
 """
 from __future__ import absolute_import
+import copy
 import functools
 from typing import TYPE_CHECKING
 import pytracer.utility as util
@@ -220,7 +221,7 @@ def world_begin():
 @check_system_inited
 def attribute_begin():
 	import pytracer.interface as inter
-	inter.GRAPHICS_STATE_STACK.append(inter.GRAPHICS_STATE)
+	inter.GRAPHICS_STATE_STACK.append(copy.copy(inter.GRAPHICS_STATE))
 	inter.TRANSFORM_STACK.append(list(inter.TRANSFORM_SET))
 
 
-- 
2.43.0


From 708c91e2509f4644faa584ee1455614864bcabdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:58 +0000
Subject: [PATCH 141/152] fix: ends of blocks of one kind close blocks of the
 other

---
 pytracer/interface/__init__.py |  1 +
 pytracer/interface/api.py      | 11 ++++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pytracer/interface/__init__.py b/pytracer/interface/__init__.py
index 0d647b3..af65249 100644
--- a/pytracer/interface/__init__.py
+++ b/pytracer/interface/__init__.py
@@ -27,6 +27,7 @@ RENDER_OPTION = None
 GRAPHICS_STATE = None
 GRAPHICS_STATE_STACK = []
 TRANSFORM_STACK = []
+BLOCK_STACK = []
 
 # Transforms
 MAX_TRANSFORM = 2
diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index a55fd08..6532f10 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -38,6 +38,7 @@ def system_init(option: 'Option'):
 
 	inter.TRANSFORM_SET = [trans.Transform() for _ in range(inter.MAX_TRANSFORM)]
 	inter.TRANSFORM_STACK = []
+	inter.BLOCK_STACK = []
 	inter.COORDINATE_SYSTEM = {}
 
 	Spectrum.init()
@@ -221,6 +222,7 @@ def world_begin():
 @check_system_inited
 def attribute_begin():
 	import pytracer.interface as inter
+	inter.BLOCK_STACK.append('attribute')
 	inter.GRAPHICS_STATE_STACK.append(copy.copy(inter.GRAPHICS_STATE))
 	inter.TRANSFORM_STACK.append(list(inter.TRANSFORM_SET))
 
@@ -228,10 +230,11 @@ def attribute_begin():
 @check_system_inited
 def attribute_end():
 	import pytracer.interface as inter
-	if len(inter.GRAPHICS_STATE_STACK) == 0:
+	if len(inter.BLOCK_STACK) == 0 or inter.BLOCK_STACK[-1] != 'attribute':
 		util.logging('Error', 'Unmatched attribute end, ignoring')
 		return
 
+	inter.BLOCK_STACK.pop()
 	inter.GRAPHICS_STATE = inter.GRAPHICS_STATE_STACK.pop()
 	inter.TRANSFORM_SET = inter.TRANSFORM_STACK.pop()
 
@@ -239,16 +242,18 @@ def attribute_end():
 @check_system_inited
 def transform_begin():
 	import pytracer.interface as inter
+	inter.BLOCK_STACK.append('transform')
 	inter.TRANSFORM_STACK.append(list(inter.TRANSFORM_SET))
 
 
 @check_system_inited
 def transform_end():
 	import pytracer.interface as inter
-	if len(inter.TRANSFORM_STACK) == 0:
-		util.logging('Error', 'Unmatched attribute end, ignoring')
+	if len(inter.BLOCK_STACK) == 0 or inter.BLOCK_STACK[-1] != 'transform':
+		util.logging('Error', 'Unmatched transform end, ignoring')
 		return
 
+	inter.BLOCK_STACK.pop()
 	inter.TRANSFORM_SET = inter.TRANSFORM_STACK.pop()
 
 
-- 
2.43.0


From c728580aeeeb11fcc31976ea08e858136758d74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:28 +0000
Subject: [PATCH 142/152] fix: a camera set after looking at a point is not
 where it looks from

---
 pytracer/interface/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index 6532f10..13c6262 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -108,7 +108,7 @@ def trans_look_at(eye: list, at: list, up: list):
 	for i, _ in enumerate(inter.TRANSFORM_SET):
 		inter.TRANSFORM_SET[i] *= trans.Transform.look_at(geo.Point.from_arr(eye),
 		                                                  geo.Point.from_arr(at),
-		                                                  geo.Vector.from_arr(up))
+		                                                  geo.Vector.from_arr(up)).inverse()
 
 
 @check_system_inited
-- 
2.43.0


From 1eb96756a3287b0f043dd12214687c56ce44ea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:29 +0000
Subject: [PATCH 143/152] fix: let a grid hold no primitives, or only points

---
 pytracer/aggregate/aggregate.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index 4beb771..265722f 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -180,9 +180,10 @@ class GridAccel(Aggregate):
 		for prim in self.primitives:
 			self.bounds.union(prim.world_bound())
 
-		delta = self.bounds.pMax - self.bounds.pMin
-		max_axis = self.bounds.maximum_extent()
-		inv_max_width = 1. / delta[max_axis]
+		# no extent where there is nothing to bound
+		delta = np.maximum(self.bounds.pMax - self.bounds.pMin, 0.)
+		max_width = np.max(delta)
+		inv_max_width = 0. if max_width == 0. else 1. / max_width
 		cube_root = 3. * np.power(len(self.primitives), 1. / 3.)
 		voxels_per_unit_dist = cube_root * inv_max_width
 
-- 
2.43.0


From b717442c247535105822397023250a209ae318b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:50 +0000
Subject: [PATCH 144/152] fix: no ray meets an empty box

---
 pytracer/geometry/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytracer/geometry/__init__.py b/pytracer/geometry/__init__.py
index acda14e..17aee7a 100644
--- a/pytracer/geometry/__init__.py
+++ b/pytracer/geometry/__init__.py
@@ -586,6 +586,10 @@ class BBox:
 		returns the shortest/largest parametric values
 		if intersects.
 		"""
+		# nothing meets an empty box
+		if self.pMin.x > self.pMax.x or self.pMin.y > self.pMax.y or self.pMin.z > self.pMax.z:
+			return [False, 0., 0.]
+
 		t0, t1 = r.mint, r.maxt
 		# automatically convert /0. to np.inf
 		t_near = np.true_divide((self.pMin - r.o), r.d)
-- 
2.43.0


From f497f1a892e34fcbce7d983749ddb128d0dd532b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:10 +0000
Subject: [PATCH 145/152] fix: estimate a surface's reflectance in its own
 frame

---
 pytracer/reflection/bsdf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytracer/reflection/bsdf.py b/pytracer/reflection/bsdf.py
index 82e9fe7..03ca8f7 100644
--- a/pytracer/reflection/bsdf.py
+++ b/pytracer/reflection/bsdf.py
@@ -233,6 +233,7 @@ class BSDF(object):
 		nSamples = sqrt_samples * sqrt_samples
 		smp = stratified_sample_2d(sqrt_samples, sqrt_samples, rng=rng)
 
+		wo = self.w2l(wo)
 		sp = Spectrum(0.)
 		for bdf in self.bdfs:
 			if bdf.match_flag(flags):
-- 
2.43.0


From 3e133f560f8cdadc27089084d0b352aeab8fd383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:10 +0000
Subject: [PATCH 146/152] fix: a rough surface scatters no negative light

---
 pytracer/reflection/bdf/torrance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/reflection/bdf/torrance.py b/pytracer/reflection/bdf/torrance.py
index 0da86c2..17c4893 100644
--- a/pytracer/reflection/bdf/torrance.py
+++ b/pytracer/reflection/bdf/torrance.py
@@ -198,8 +198,8 @@ class Microfacet(BDF):
 		self.distribution = d
 
 	def f(self, wo: 'geo.Vector', wi: 'geo.Vector') -> 'Spectrum':
-		ct_i = cos_theta(wi)
-		ct_o = cos_theta(wo)
+		ct_i = abs_cos_theta(wi)
+		ct_o = abs_cos_theta(wo)
 
 		if ct_i == 0. or ct_o == 0.:
 			return Spectrum(0.)
-- 
2.43.0


From 85712d71cb00efc07d50174d372e58c2d03f3cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:58 +0000
Subject: [PATCH 147/152] fix: a blended glossy surface scatters a number
 between opposite directions

---
 pytracer/reflection/bdf/fresnelblend.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pytracer/reflection/bdf/fresnelblend.py b/pytracer/reflection/bdf/fresnelblend.py
index a9abf7b..49dc00d 100644
--- a/pytracer/reflection/bdf/fresnelblend.py
+++ b/pytracer/reflection/bdf/fresnelblend.py
@@ -61,13 +61,17 @@ class FresnelBlend(BDF):
 		return .5 * (abs_cos_theta(wi) * INV_PI + self.distribution.pdf(wo, wi))
 
 	def f(self, wo: 'geo.Vector', wi: 'geo.Vector') -> 'Spectrum':
+		wh = wi + wo
+		if wh.x == 0. and wh.y == 0. and wh.z == 0.:
+			# opposite directions have no half vector
+			return Spectrum(0.)
+		wh = geo.normalize(wh)
+
 		diffuse = (28. / (23. * PI)) * self.Rd * \
 		          (Spectrum(1.) - self.Rs) * \
 		          (1. - np.power(1. - .5 * abs_cos_theta(wi), 5)) * \
 		          (1. - np.power(1. - .5 * abs_cos_theta(wo), 5))
 
-		wh = geo.normalize(wi + wo)
-
 		specular = self.distribution.D(wh) / \
 		           (4. * wi.abs_dot(wh) * max(abs_cos_theta(wi), abs_cos_theta(wo))) * \
 		           self.schlick(wi.dot(wh))
-- 
2.43.0


From c72feaff8f0d516796560746b2b8740adc9fa1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:26 +0000
Subject: [PATCH 148/152] fix: refining a Loop surface without levels moved its
 control mesh

---
 pytracer/shape/loopsubdiv.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytracer/shape/loopsubdiv.py b/pytracer/shape/loopsubdiv.py
index 77ede9b..cbc0ccc 100644
--- a/pytracer/shape/loopsubdiv.py
+++ b/pytracer/shape/loopsubdiv.py
@@ -391,6 +391,7 @@ class LoopSubdiv(Shape):
 			else:
 				Plimit.append(self.weight_one_ring(vv, self.gamma(vv.valence())))
 
+		Pcontrol = [vv.P for vv in v]	# the control mesh itself if there are no levels
 		for i, vv in enumerate(v):
 			vv.P = Plimit[i]
 
@@ -428,6 +429,9 @@ class LoopSubdiv(Shape):
 
 			Ns.append(geo.Normal.from_arr(S.cross(T)))
 
+		for i, vv in enumerate(v):
+			vv.P = Pcontrol[i]
+
 		# create `TriangleMesh`
 		verts = []
 		usedVerts = {}
-- 
2.43.0


From 9aef3aa16138d7f67a8108722d97b2f522913d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:07 +0000
Subject: [PATCH 149/152] fix: an environment light never sampled some of the
 directions light arrives from

---
 pytracer/light/light.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 3460393..81ad6fb 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -574,15 +574,16 @@ class InfiniteAreaLight(Light):
 
 		# init sampling PDFs <725>
 		# compute image for envir. map
+		# look-ups interpolate between texels: on cells of half a texel, a dark
+		# centre means no light anywhere in the cell
+		height, width = 2 * self.radMap.height, 2 * self.radMap.width
 		img = np.empty([height, width], dtype=FLOAT)
-		filt = 1. / max(width, height)
 
 		for v in range(height):
-			vp = v / height
-			st = np.sin(PI * (v + .5) / height)
+			vp = (v + .5) / height
 			for u in range(width):
-				up = u / width
-				img[v][u] = self.radMap.look_up([up, vp, filt]).y()
+				up = (u + .5) / width
+				img[v][u] = self.radMap.look_up([up, vp]).y()
 
 		# compute sampling distribution
 		self.dist = mc.Distribution2D(img)
-- 
2.43.0


From 24e393ad839006da753b2d7cfe32700b6e4c49e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:53 +0000
Subject: [PATCH 150/152] fix: triangle: ask the alpha texture as every texture
 is asked (cut-out meshes raised AttributeError)

---
 pytracer/shape/triangle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index c1d9e50..abc5d83 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -235,7 +235,7 @@ class Triangle(Shape):
 
 		if self.mesh.alphaTexture is not None:
 			# alpha mask presents
-			if self.mesh.alphaTexture.evaluate(dg) == 0.:
+			if self.mesh.alphaTexture(dg) == 0.:
 				return [False, None, None, None]
 
 		# have a hit
@@ -307,7 +307,7 @@ class Triangle(Shape):
 
 		if self.mesh.alphaTexture is not None:
 			# alpha mask presents
-			if self.mesh.alphaTexture.evaluate(dg) == 0.:
+			if self.mesh.alphaTexture(dg) == 0.:
 				return False
 
 		# have a hit
-- 
2.43.0


From 09d78120a4fab1b149be2a44e49f77d8fc0aa174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:53 +0000
Subject: [PATCH 151/152] fix: a mirrored pose lost its reflection while in
 motion

---
 pytracer/transform/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index 5c2ab69..e1cbd3c 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -363,6 +363,10 @@ class AnimatedTransform(object):
 			norm = max(norm, np.max(np.sum(D, axis=0)))
 			R = Rnext
 
+		if np.linalg.det(R) < 0.:
+			# a reflection is no rotation: it belongs to the scale
+			R[0:3, 0:3] *= -1.
+
 		from pytracer.transform.quat import from_arr
 		Rquat = from_arr(R)
 		S = np.linalg.inv(R).dot(M)
-- 
2.43.0


From f70f825f65da9a0a55dfda8aced4d138d2004396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:51 +0000
Subject: [PATCH 152/152] fix: next power of two of a large number came out
 below it

---
 pytracer/utility/utility.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytracer/utility/utility.py b/pytracer/utility/utility.py
index c757a59..79c3873 100644
--- a/pytracer/utility/utility.py
+++ b/pytracer/utility/utility.py
@@ -98,7 +98,8 @@ def round_pow_2(x: INT) -> INT:
 
 def next_pow_2(x: INT) -> INT:
 	"""Round to next(or current) power of 2"""
-	return INT(2 ** np.ceil(np.log2(x)))
+	n = INT(-(-x // 1))	# exact, as the logarithm of a large number is not
+	return INT(1 << max(n - 1, 0).bit_length())
 
 
 def is_pow_2(x: INT) -> bool:
-- 
2.43.0

