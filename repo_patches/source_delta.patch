From 13c941eec2257e50c2a35d71de7a50e263dd7d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 001/164] fix: BBox inequality compares corresponding corners

---
 pytracer/geometry/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/geometry/__init__.py b/pytracer/geometry/__init__.py
index 81c292c..ee79426 100644
--- a/pytracer/geometry/__init__.py
+++ b/pytracer/geometry/__init__.py
@@ -422,8 +422,8 @@ class BBox:
 		       np.array_equal(self.pMax, other.pMax)
 
 	def __ne__(self, other):
-		return not np.array_equal(self.pMin, other.pMax) or \
-		       not np.array_equal(self.pMin, other.pMax)
+		return not np.array_equal(self.pMin, other.pMin) or \
+		       not np.array_equal(self.pMax, other.pMax)
 
 	def __getitem__(self, key):
 		if key == 0:
-- 
2.43.0


From 78df9fa85202746a578b3a254c1ff7499c83190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 002/164] fix: copying an empty BBox keeps it empty

---
 pytracer/geometry/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytracer/geometry/__init__.py b/pytracer/geometry/__init__.py
index ee79426..6609adf 100644
--- a/pytracer/geometry/__init__.py
+++ b/pytracer/geometry/__init__.py
@@ -410,7 +410,10 @@ class BBox:
 
 	@classmethod
 	def from_bbox(cls, box: 'BBox'):
-		return cls(box.pMin, box.pMax)
+		ret = cls()
+		ret.pMin = box.pMin.copy()
+		ret.pMax = box.pMax.copy()
+		return ret
 
 	def __repr__(self):
 		return "{}\npMin:{}\npMax:{}".format(self.__class__,
-- 
2.43.0


From 87f52174204776838a582de92c772aff92040f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 003/164] fix: transforming a RayDifferential also transforms
 its offset rays

---
 pytracer/transform/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index 5a92c85..c7e1f6e 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -72,6 +72,10 @@ class Transform(object):
 			r = geo.RayDifferential.from_rd(arg)
 			r.o = self(r.o)
 			r.d = self(r.d)
+			r.rxOrigin = self(r.rxOrigin)
+			r.ryOrigin = self(r.ryOrigin)
+			r.rxDirection = self(r.rxDirection)
+			r.ryDirection = self(r.ryDirection)
 			return r
 
 		elif isinstance(arg, geo.Ray):
-- 
2.43.0


From 80be591d0217998fd1d2b326962e6c213210c60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 004/164] fix: look_at maps the camera axes onto the viewing
 frame

---
 pytracer/transform/__init__.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index c7e1f6e..eaa61f2 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -208,31 +208,31 @@ class Transform(object):
 
 		# c2w rotation
 		c2w[0][0] = xc.x
-		c2w[0][1] = xc.y
-		c2w[0][2] = xc.z
-		c2w[1][0] = yc.x
+		c2w[0][1] = yc.x
+		c2w[0][2] = zc.x
+		c2w[1][0] = xc.y
 		c2w[1][1] = yc.y
-		c2w[1][2] = yc.z
-		c2w[2][0] = zc.x
-		c2w[2][1] = zc.y
+		c2w[1][2] = zc.y
+		c2w[2][0] = xc.z
+		c2w[2][1] = yc.z
 		c2w[2][2] = zc.z
 
 		# w2c rotation
 		# in effect as camera extrinsic
 		w2c[0][0] = xc.x
-		w2c[0][1] = yc.x
-		w2c[0][2] = zc.x
-		w2c[1][0] = xc.y
+		w2c[0][1] = xc.y
+		w2c[0][2] = xc.z
+		w2c[1][0] = yc.x
 		w2c[1][1] = yc.y
-		w2c[1][2] = zc.y
-		w2c[2][0] = xc.z
-		w2c[2][1] = yc.z
+		w2c[1][2] = yc.z
+		w2c[2][0] = zc.x
+		w2c[2][1] = zc.y
 		w2c[2][2] = zc.z
 
 		# w2c translation
-		w2c[0][3] = -(pos.x * xc.x + pos.y * yc.x + pos.z * zc.x)
-		w2c[1][3] = -(pos.x * xc.y + pos.y * yc.y + pos.z * zc.y)
-		w2c[2][3] = -(pos.x * xc.z + pos.y * yc.z + pos.z * zc.z)
+		w2c[0][3] = -(pos.x * xc.x + pos.y * xc.y + pos.z * xc.z)
+		w2c[1][3] = -(pos.x * yc.x + pos.y * yc.y + pos.z * yc.z)
+		w2c[2][3] = -(pos.x * zc.x + pos.y * zc.y + pos.z * zc.z)
 
 		return cls(c2w, w2c, dtype)
 
-- 
2.43.0


From d8cbe08fe2534d999411d80baaa0de994c78a914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 005/164] fix: a BBox mapped by a mirroring transform keeps its
 corners ordered

---
 pytracer/transform/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index eaa61f2..76b6c40 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -93,8 +93,8 @@ class Transform(object):
 			x = self(x)
 			y = self(y)
 			z = self(z)
-			res.pMax = res.pMin + (x + y + z)
-			return res
+			# keep the corners ordered if an axis is mirrored
+			return geo.BBox(res.pMin, res.pMin + (x + y + z))
 
 		else:
 			raise TypeError('Transform can only be called on geo.Point, geo.Vector, geo.Normal, geo.Ray or geo.geo.BBox')
-- 
2.43.0


From 39b2aef8b98d6c97ce59c0abae5d4b95bf54f30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 006/164] fix: quaternion of a rotation uses the 3x3 trace and
 the largest diagonal

---
 pytracer/transform/quat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/transform/quat.py b/pytracer/transform/quat.py
index 609f515..2b57d53 100644
--- a/pytracer/transform/quat.py
+++ b/pytracer/transform/quat.py
@@ -35,7 +35,7 @@ def to_transform(q: 'Quaternion') -> 'Transform':
 
 def from_transform(t: 'Transform') -> 'Quaternion':
 	m = t.m
-	tr = m.trace()
+	tr = m[0, 0] + m[1, 1] + m[2, 2]    # the rotation part only
 
 	if tr > .0:
 		s = np.sqrt(tr + 1.)
@@ -52,7 +52,7 @@ def from_transform(t: 'Transform') -> 'Quaternion':
 		i = 0
 		if m[1, 1] > m[0, 0]:
 			i = 1
-		if m[2, 2] < m[i, i]:
+		if m[2, 2] > m[i, i]:
 			i = 2
 		j = nxt[i]
 		k = nxt[j]
@@ -71,7 +71,7 @@ def from_transform(t: 'Transform') -> 'Quaternion':
 
 def from_arr(t: 'np.ndarray') -> 'Quaternion':
 	m = t
-	tr = m.trace()
+	tr = m[0, 0] + m[1, 1] + m[2, 2]    # the rotation part only
 
 	if tr > .0:
 		s = np.sqrt(tr + 1.)
@@ -88,7 +88,7 @@ def from_arr(t: 'np.ndarray') -> 'Quaternion':
 		i = 0
 		if m[1, 1] > m[0, 0]:
 			i = 1
-		if m[2, 2] < m[i, i]:
+		if m[2, 2] > m[i, i]:
 			i = 2
 		j = nxt[i]
 		k = nxt[j]
-- 
2.43.0


From 61cf838b3c4d6eefb0c274cadaad3a4582ef21af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 007/164] fix: animated rotations interpolate along the shorter
 arc

---
 pytracer/transform/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index 76b6c40..c404b5e 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -284,6 +284,10 @@ class AnimatedTransform(object):
 		if self.animated:
 			self.T[0], self.R[0], self.S[0] = AnimatedTransform.decompose(t1.m)
 			self.T[1], self.R[1], self.S[1] = AnimatedTransform.decompose(t2.m)
+			# q and -q are the same rotation: pick the one on the shorter arc
+			from pytracer.transform.quat import dot
+			if dot(self.R[0], self.R[1]) < 0.:
+				self.R[1] = -self.R[1]
 
 	def __repr__(self):
 		return "{}\nTime: {} - {}\nAnimated: {}".format(self.__class__,
-- 
2.43.0


From 31462db2790cb457dff87a5f0998b84e85ff0f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 008/164] fix: motion bounds enclose the moving box in the
 requested direction

---
 pytracer/transform/__init__.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index c404b5e..cf295f5 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -259,6 +259,18 @@ class Transform(object):
 		"""
 		return Transform(self.m_inv, self.m)
 
+	def enclose(self, b: 'geo.BBox') -> 'geo.BBox':
+		"""
+		Returns the smallest box enclosing all
+		eight transformed corners of `b`
+		"""
+		ret = geo.BBox()
+		for x in (b.pMin.x, b.pMax.x):
+			for y in (b.pMin.y, b.pMax.y):
+				for z in (b.pMin.z, b.pMax.z):
+					ret.union(self(geo.Point(x, y, z)))
+		return ret
+
 	def is_identity(self) -> bool:
 		return np.array_equal(self.m, np.eye(4, 4))
 
@@ -327,7 +339,8 @@ class AnimatedTransform(object):
 
 	def motion_bounds(self, b: 'geo.BBox', use_inv: bool=False) -> 'geo.BBox':
 		if not self.animated:
-			return self.startTransform.inverse()(b)
+			t = self.startTransform
+			return (t.inverse() if use_inv else t).enclose(b)
 		ret = geo.BBox()
 		steps = 128
 		for i in range(128):
@@ -335,7 +348,7 @@ class AnimatedTransform(object):
 			t = self.interpolate(time)
 			if use_inv:
 				t = t.inverse()
-			ret.union(t(b))
+			ret.union(t.enclose(b))
 		return ret
 
 	@staticmethod
-- 
2.43.0


From 0cd62a0f89976c2a6c32636884d550a7070938d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 009/164] fix: zero is not a power of two

---
 pytracer/utility/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/utility/utility.py b/pytracer/utility/utility.py
index c757a59..d6c4eda 100644
--- a/pytracer/utility/utility.py
+++ b/pytracer/utility/utility.py
@@ -103,7 +103,7 @@ def next_pow_2(x: INT) -> INT:
 
 def is_pow_2(x: INT) -> bool:
 	"""Test whether is power of 2"""
-	return x & (x-1) == 0
+	return x > 0 and x & (x-1) == 0
 	# return True if x == 0 else (np.log2(x) % 1) == 0.
 
 
-- 
2.43.0


From a73cc28ce5c4c9aef77b20beaf44484e8fe2080f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 010/164] fix: clip returns the clipped array for array
 arguments

---
 pytracer/utility/utility.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytracer/utility/utility.py b/pytracer/utility/utility.py
index d6c4eda..09156f9 100644
--- a/pytracer/utility/utility.py
+++ b/pytracer/utility/utility.py
@@ -114,6 +114,8 @@ def clip(x, min=0., max=np.inf):
 		return np.clip(x, min, max).astype(type(x))
 	elif isinstance(x, Spectrum):
 		return x.clip(min, max)
+	elif isinstance(x, np.ndarray):
+		return np.clip(x, min, max)
 
 
 def is_black(s):
-- 
2.43.0


From e2699549e91d1924f335333cfd04d209c78b812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 011/164] fix: the azimuth of a direction along +x is zero

---
 pytracer/geometry/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/geometry/utility.py b/pytracer/geometry/utility.py
index 7b2d03b..9fa6444 100644
--- a/pytracer/geometry/utility.py
+++ b/pytracer/geometry/utility.py
@@ -119,4 +119,4 @@ def spherical_phi(v: 'Vector') -> FLOAT:
 	Get phi from direction
 	"""
 	p = np.arctan2(v.y, v.x)
-	return p if p > 0. else p + 2 * np.pi
+	return p if p >= 0. else p + 2 * np.pi
-- 
2.43.0


From 87a3bf5caf455f4d2ac8402bef4e48379f14b185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 012/164] fix: the scene description interface can be imported

---
 pytracer/interface/api.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index 4cc8d74..186876c 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -9,6 +9,7 @@ Interfacing from the scene descriptions.
 Created by Jiayao on Aug 21, 2017
 """
 from __future__ import absolute_import
+from functools import wraps
 from typing import TYPE_CHECKING
 import pytracer.utility as util
 if TYPE_CHECKING:
@@ -17,7 +18,7 @@ if TYPE_CHECKING:
 	from pytracer.transform import Transform
 
 
-def system_init(option: Option):
+def system_init(option: 'Option'):
 	from pytracer.spectral import Spectrum
 	import pytracer.interface as inter
 
@@ -48,10 +49,13 @@ def system_clean():
 
 
 def check_system_inited(api_func):
-	import pytracer.interface as inter
-	if inter.API_STATUS == inter.API_UNINIT:
-		raise RuntimeError("{}: system not inited.".format(api_func.__name__))
-	return api_func
+	@wraps(api_func)
+	def checked(*args, **kwargs):
+		import pytracer.interface as inter
+		if inter.API_STATUS == inter.API_UNINIT:
+			raise RuntimeError("{}: system not inited.".format(api_func.__name__))
+		return api_func(*args, **kwargs)
+	return checked
 
 
 @check_system_inited
@@ -100,14 +104,14 @@ def trans_look_at(eye: list, at: list, up: list):
 
 
 @check_system_inited
-def trans_concat(trans: Transform):
+def trans_concat(trans: 'Transform'):
 	import pytracer.interface as inter
 	for i, _ in enumerate(inter.TRANSFORM_SET):
 		inter.TRANSFORM_SET[i] *= trans
 
 
 @check_system_inited
-def trans_set(trans: Transform):
+def trans_set(trans: 'Transform'):
 	import pytracer.interface as inter
 	for i, _ in enumerate(inter.TRANSFORM_SET):
 		inter.TRANSFORM_SET[i] = trans
@@ -141,21 +145,21 @@ def set_transformation_time(start=0., end=1.):
 
 # Filters
 @check_system_inited
-def set_pixel_filter(name: str, param: Param):
+def set_pixel_filter(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.filter_name = name.lower()
 	inter.RENDER_OPTION.filter_param = param
 
 
 @check_system_inited
-def set_film(name: str, param: Param):
+def set_film(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.film_name = name.lower()
 	inter.RENDER_OPTION.film_param = param
 	
 	
 @check_system_inited
-def set_camera(name: str, param: Param):
+def set_camera(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.camera_name = name.lower()
 	inter.RENDER_OPTION.camera_param = param
@@ -164,35 +168,35 @@ def set_camera(name: str, param: Param):
 
 
 @check_system_inited
-def set_sampler(name: str, param: Param):
+def set_sampler(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.sampler_name = name.lower()
 	inter.RENDER_OPTION.sampler_param = param
 
 
 @check_system_inited
-def set_aggregator(name: str, param: Param):
+def set_aggregator(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.aggregator_name = name.lower()
 	inter.RENDER_OPTION.aggregator_param = param
 
 
 @check_system_inited
-def set_renderer(name: str, param: Param):
+def set_renderer(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.renderer_name = name.lower()
 	inter.RENDER_OPTION.renderer_param = param
 
 
 @check_system_inited
-def set_surface(name: str, param: Param):
+def set_surface(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.surface_name = name.lower()
 	inter.RENDER_OPTION.surface_param = param
 
 
 @check_system_inited
-def set_volume(name: str, param: Param):
+def set_volume(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.volume_name = name.lower()
 	inter.RENDER_OPTION.volume_param = param
-- 
2.43.0


From 7730cbd464c7fcece3e327693e92a226c8f2cca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 013/164] fix: initialisation starts from the identity
 transformation and empty stacks

---
 pytracer/interface/api.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index 186876c..1d54877 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -32,6 +32,12 @@ def system_init(option: 'Option'):
 	inter.RENDER_OPTION = inter.RenderOption()
 
 	inter.GRAPHICS_STATE = GraphicsState()
+	inter.GRAPHICS_STATE_STACK = []
+
+	from pytracer.transform import Transform
+	inter.TRANSFORM_SET = [Transform() for _ in range(inter.MAX_TRANSFORM)]
+	inter.TRANSFORM_STACK = []
+	inter.COORDINATE_SYSTEM = {}
 
 	Spectrum.init()
 
-- 
2.43.0


From 776a5e56e9634c049bd5ddc2a9b16b293fa16edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 014/164] fix: blocks and named coordinate systems keep their
 own copy of the state

---
 pytracer/interface/api.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index 1d54877..b4838e5 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -9,6 +9,7 @@ Interfacing from the scene descriptions.
 Created by Jiayao on Aug 21, 2017
 """
 from __future__ import absolute_import
+from copy import copy
 from functools import wraps
 from typing import TYPE_CHECKING
 import pytracer.utility as util
@@ -128,7 +129,7 @@ def trans_set(trans: 'Transform'):
 def add_coordinate_system(name: str):
 	"""Make a named copy of the current transformations."""
 	import pytracer.interface as inter
-	inter.COORDINATE_SYSTEM[name] = inter.TRANSFORM_SET
+	inter.COORDINATE_SYSTEM[name] = list(inter.TRANSFORM_SET)
 
 
 @check_system_inited
@@ -138,7 +139,7 @@ def set_coordinate_system(name: str):
 	if name not in inter.COORDINATE_SYSTEM:
 		raise RuntimeError
 
-	inter.TRANSFORM_SET = inter.COORDINATE_SYSTEM[name]
+	inter.TRANSFORM_SET = list(inter.COORDINATE_SYSTEM[name])
 
 
 # Render Options
@@ -170,7 +171,7 @@ def set_camera(name: str, param: 'Param'):
 	inter.RENDER_OPTION.camera_name = name.lower()
 	inter.RENDER_OPTION.camera_param = param
 	inter.RENDER_OPTION.cam2wld = [trans.inverse() for trans in inter.TRANSFORM_SET]
-	inter.COORDINATE_SYSTEM["camera"] = inter.RENDER_OPTION.cam2wld
+	inter.COORDINATE_SYSTEM["camera"] = list(inter.RENDER_OPTION.cam2wld)
 
 
 @check_system_inited
@@ -220,8 +221,8 @@ def world_begin():
 @check_system_inited
 def attribute_begin():
 	import pytracer.interface as inter
-	inter.GRAPHICS_STATE_STACK.append(inter.GRAPHICS_STATE)
-	inter.TRANSFORM_STACK.append(inter.TRANSFORM_SET)
+	inter.GRAPHICS_STATE_STACK.append(copy(inter.GRAPHICS_STATE))
+	inter.TRANSFORM_STACK.append(list(inter.TRANSFORM_SET))
 
 
 @check_system_inited
@@ -238,7 +239,7 @@ def attribute_end():
 @check_system_inited
 def transform_begin():
 	import pytracer.interface as inter
-	inter.TRANSFORM_STACK.append(inter.TRANSFORM_SET)
+	inter.TRANSFORM_STACK.append(list(inter.TRANSFORM_SET))
 
 
 @check_system_inited
-- 
2.43.0


From d9eb42fdf0f506c3ef3c08e3a630674e52386677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 015/164] fix: ends of attribute and transform blocks match
 their own begin

---
 pytracer/interface/api.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index b4838e5..eb5523d 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -221,7 +221,8 @@ def world_begin():
 @check_system_inited
 def attribute_begin():
 	import pytracer.interface as inter
-	inter.GRAPHICS_STATE_STACK.append(copy(inter.GRAPHICS_STATE))
+	# remember where the block starts in the transform stack
+	inter.GRAPHICS_STATE_STACK.append((copy(inter.GRAPHICS_STATE), len(inter.TRANSFORM_STACK)))
 	inter.TRANSFORM_STACK.append(list(inter.TRANSFORM_SET))
 
 
@@ -232,8 +233,9 @@ def attribute_end():
 		util.logging('Error', 'Unmatched attribute end, ignoring')
 		return
 
-	inter.GRAPHICS_STATE = inter.GRAPHICS_STATE_STACK.pop()
-	inter.TRANSFORM_SET = inter.TRANSFORM_STACK.pop()
+	inter.GRAPHICS_STATE, start = inter.GRAPHICS_STATE_STACK.pop()
+	inter.TRANSFORM_SET = inter.TRANSFORM_STACK[start]
+	del inter.TRANSFORM_STACK[start:]
 
 
 @check_system_inited
@@ -245,8 +247,9 @@ def transform_begin():
 @check_system_inited
 def transform_end():
 	import pytracer.interface as inter
-	if len(inter.TRANSFORM_STACK) == 0:
-		util.logging('Error', 'Unmatched attribute end, ignoring')
+	start = inter.GRAPHICS_STATE_STACK[-1][1] + 1 if inter.GRAPHICS_STATE_STACK else 0
+	if len(inter.TRANSFORM_STACK) <= start:
+		util.logging('Error', 'Unmatched transform end, ignoring')
 		return
 
 	inter.TRANSFORM_SET = inter.TRANSFORM_STACK.pop()
-- 
2.43.0


From 499465acff010e4ab7a6240567fbea211d381ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 016/164] fix: tabulated distributions never return an entry of
 zero weight

---
 pytracer/montecarlo/distribution.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pytracer/montecarlo/distribution.py b/pytracer/montecarlo/distribution.py
index d780b72..8aaa9a7 100644
--- a/pytracer/montecarlo/distribution.py
+++ b/pytracer/montecarlo/distribution.py
@@ -44,6 +44,17 @@ class Distribution1D(object):
 	def __repr__(self):
 		return "{}\nSteps: {}\n".format(self.__class__, self.cnt)
 
+	def _segment(self, u: FLOAT) -> INT:
+		"""
+		_segment()
+
+		Index of the entry with cdf[i] <= u < cdf[i+1],
+		i.e. one of non-zero weight.
+		"""
+		last = np.searchsorted(self.cdf, self.cdf[-1]) - 1
+		idx = np.searchsorted(self.cdf, u, side='right') - 1
+		return max(0, min(idx, last))
+
 	def sample_cont(self, u: FLOAT) -> [FLOAT, FLOAT]:
 		"""
 		sample_cont()
@@ -54,8 +65,7 @@ class Distribution1D(object):
 		pdf: [rv, pdf].
 		"""
 		# surrounding CDF segment
-		idx = np.searchsorted(self.cdf, u) - 1
-		off = max(0, idx)
+		off = self._segment(u)
 
 		# compute offset
 		du = (u - self.cdf[off]) / (self.cdf[off + 1] - self.cdf[off])
@@ -74,8 +84,7 @@ class Distribution1D(object):
 		pdf: [rv, pdf].
 		"""
 		# surrounding CDF segment
-		idx = np.searchsorted(self.cdf, u) - 1
-		off = max(0, idx)
+		off = self._segment(u)
 
 		return [off, self.func[off] / (self.cdf_raw * self.cnt)]
 
-- 
2.43.0


From dae518d6572672c85ae26aae6d6255d02b245ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 017/164] fix: two-dimensional tables return a continuous v
 coordinate

---
 pytracer/montecarlo/distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/montecarlo/distribution.py b/pytracer/montecarlo/distribution.py
index 8aaa9a7..b5fee85 100644
--- a/pytracer/montecarlo/distribution.py
+++ b/pytracer/montecarlo/distribution.py
@@ -129,9 +129,9 @@ class Distribution2D(object):
 		Returns [[u, v], pdf]
 		"""
 		v, pdf1 = self.p_marg_v.sample_cont(u1)
-		v = np.clip(util.ftoi(v * self.p_marg_v.cnt), 0, self.p_marg_v.cnt - 1).astype(INT)
+		row = self.p_marg_v._segment(u1)
 
-		u, pdf0 = self.p_cond_v[v].sample_cont(u0)
+		u, pdf0 = self.p_cond_v[row].sample_cont(u0)
 
 		return [[u, v], pdf0 * pdf1]
 
-- 
2.43.0


From 517821538a7566beacd604b8e4c276b32454c9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 018/164] fix: cosine hemisphere sampling projects the
 concentric disk

---
 pytracer/montecarlo/utility.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytracer/montecarlo/utility.py b/pytracer/montecarlo/utility.py
index 7468cf3..61d9649 100644
--- a/pytracer/montecarlo/utility.py
+++ b/pytracer/montecarlo/utility.py
@@ -179,9 +179,8 @@ def cosine_sample_hemisphere(u1: FLOAT, u2: FLOAT) -> 'geo.Vector':
 	`u1` and `u2` are two
 	random numbers passed in.
 	"""
-	vec = uniform_sample_sphere(u1, u2)
-	vec.z = np.sqrt(max(0., 1. - vec.x * vec.x - vec.y * vec.y))
-	return vec
+	x, y = concentric_sample_disk(u1, u2)
+	return geo.Vector(x, y, np.sqrt(max(0., 1. - x * x - y * y)))
 
 
 def cosine_hemisphere_pdf(costheta: FLOAT, phi: FLOAT) -> FLOAT:
-- 
2.43.0


From 8ac6265e2087a8b4e6f3aec723b2fa106294a5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 019/164] fix: cone sampling without a basis

---
 pytracer/montecarlo/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/montecarlo/utility.py b/pytracer/montecarlo/utility.py
index 61d9649..6705cdc 100644
--- a/pytracer/montecarlo/utility.py
+++ b/pytracer/montecarlo/utility.py
@@ -217,7 +217,7 @@ def uniform_sample_cone(u1: FLOAT, u2: FLOAT, ct_max: FLOAT,
 		ct = (1. - u1) + u1 * ct_max
 		st = np.sqrt(1. - ct * ct)
 		phi = u2 * 2. * PI
-		return geo.Vector(np.scos(phi) * st, np.sin(phi) * st, ct)
+		return geo.Vector(np.cos(phi) * st, np.sin(phi) * st, ct)
 	else:
 		ct = util.lerp(u1, ct_max, 1.)
 		st = np.sqrt(1. - ct * ct)
-- 
2.43.0


From 422799caf4b882fdd7b3002a3d7425056a663779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 020/164] fix: concentric disk mapping is continuous across its
 wedges

---
 pytracer/montecarlo/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/montecarlo/utility.py b/pytracer/montecarlo/utility.py
index 6705cdc..f67abaa 100644
--- a/pytracer/montecarlo/utility.py
+++ b/pytracer/montecarlo/utility.py
@@ -158,11 +158,11 @@ def concentric_sample_disk(u1: FLOAT, u2: FLOAT) -> [FLOAT, FLOAT]:
 		if sx > sy:
 			# 4
 			r = -sy
-			theta = 6. + sx / sy
+			theta = 6. - sx / sy
 		else:
 			# 3
 			r = -sx
-			theta = 4. - sy / sx
+			theta = 4. + sy / sx
 	theta *= PI / 4.
 
 	return [r * np.cos(theta), r * np.sin(theta)]
-- 
2.43.0


From f5ec016214a9a9879636ee52557bd4e706e92558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 021/164] fix: sub-windows split the pixel range

---
 pytracer/sampler/sampler/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pytracer/sampler/sampler/__init__.py b/pytracer/sampler/sampler/__init__.py
index e1277d7..21fda66 100644
--- a/pytracer/sampler/sampler/__init__.py
+++ b/pytracer/sampler/sampler/__init__.py
@@ -105,10 +105,11 @@ class Sampler(object, metaclass=ABCMeta):
 		# compute x and y pixel sample range
 		x0 = num % nx
 		y0 = num // nx
-		x = np.clip([x0 / nx, (x0 + 1) / nx], self.xPixel_start, self.xPixel_end)
-		y = np.clip([y0 / ny, (y0 + 1) / ny], self.yPixel_start, self.yPixel_end)
-		return np.concatenate([util.ufunc_lerp(x, self.xPixel_start, self.xPixel_end),
-		                       util.ufunc_lerp(y, self.yPixel_start, self.yPixel_end)])
+		# tile borders are rounded down to whole pixels
+		return np.array([self.xPixel_start + (x0 * dx) // nx,
+		                 self.xPixel_start + ((x0 + 1) * dx) // nx,
+		                 self.yPixel_start + (y0 * dy) // ny,
+		                 self.yPixel_start + ((y0 + 1) * dy) // ny])
 
 
 from pytracer.sampler.sampler.stratified import *
\ No newline at end of file
-- 
2.43.0


From 2265ee7fdbdf15742a3879793946aa37e9bd53e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 022/164] fix: duplicated samples keep their own request lists

---
 pytracer/sampler/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/sampler/sample.py b/pytracer/sampler/sample.py
index f0092ef..2fab504 100644
--- a/pytracer/sampler/sample.py
+++ b/pytracer/sampler/sample.py
@@ -56,8 +56,8 @@ class Sample(CameraSample):
 		ret = [None] * cnt
 		for i in range(cnt):
 			smp = Sample()
-			smp.n1D = self.n1D
-			smp.n2D = self.n2D
+			smp.n1D = list(self.n1D)
+			smp.n2D = list(self.n2D)
 			smp.oneD = [None] * len(self.n1D)
 			smp.twoD = [None] * len(self.n2D)
 			ret[i] = smp
-- 
2.43.0


From 4116e7b777cbf2675e5d9edf8102654507258087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 023/164] fix: the box filter answers arrays with arrays

---
 pytracer/filter/filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytracer/filter/filter.py b/pytracer/filter/filter.py
index fa96792..46a04a2 100644
--- a/pytracer/filter/filter.py
+++ b/pytracer/filter/filter.py
@@ -35,6 +35,8 @@ class Filter(object, metaclass=ABCMeta):
 
 class BoxFilter(Filter):
 	def __call__(self, x: FLOAT, y: FLOAT) -> FLOAT:
+		if np.ndim(x) or np.ndim(y):
+			return np.ones(np.broadcast(x, y).shape)
 		return 1.
 
 
-- 
2.43.0


From d12a3f8494b34e1041c276ffb7be2bc9089869da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 024/164] fix: the vertical crop scales with the vertical
 resolution

---
 pytracer/film/film.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/film/film.py b/pytracer/film/film.py
index b0d9c81..38d196d 100644
--- a/pytracer/film/film.py
+++ b/pytracer/film/film.py
@@ -115,7 +115,7 @@ class ImageFilm(Film):
 		# compute film image extent
 		self.xPixel_start = INT(np.ceil(xr * crop[0]))
 		self.xPixel_cnt = np.maximum(1, INT(np.ceil(xr * crop[1])) - self.xPixel_start)
-		self.yPixel_start = INT(np.ceil(xr * crop[2]))
+		self.yPixel_start = INT(np.ceil(yr * crop[2]))
 		self.yPixel_cnt = np.maximum(1, INT(np.ceil(yr * crop[3])) - self.yPixel_start)
 
 		# allocate storage
-- 
2.43.0


From 0cb4475c8c65c99796d66e4715d9c0d15eeffd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 025/164] fix: writing an image leaves the given picture alone

---
 pytracer/utility/imageio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytracer/utility/imageio.py b/pytracer/utility/imageio.py
index bb9e5df..590f6aa 100644
--- a/pytracer/utility/imageio.py
+++ b/pytracer/utility/imageio.py
@@ -57,6 +57,7 @@ def write_image(filename: str, rgb: 'np.ndarray', alpha: 'np.ndarray',
 	if filename is None or rgb is None:
 		raise IOError('scr.core.pytracer.write_image(): filename and rgb cannot '
 							'be None')
+	rgb = np.array(rgb, dtype='float64')
 	for i in range(3):
 		coef = np.max(rgb[:, :, i])
 		if not coef == 0.:
-- 
2.43.0


From 2d9f6051d22c61464dde9b18fba3091465037991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 026/164] fix: partial windows are written to their rows and
 columns

---
 pytracer/utility/imageio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/utility/imageio.py b/pytracer/utility/imageio.py
index 590f6aa..a22b370 100644
--- a/pytracer/utility/imageio.py
+++ b/pytracer/utility/imageio.py
@@ -82,7 +82,7 @@ def write_image(filename: str, rgb: 'np.ndarray', alpha: 'np.ndarray',
 			img = np.array(pic)
 			pic.close()
 
-			img[xOffset:xOffset+xRes-1, yOffset:yOffset+yRes-1, :] = rgb
+			img[yOffset:yOffset+yRes, xOffset:xOffset+xRes, :] = rgb
 			ret = img.copy()
 
 			pic = PIL.Image.fromarray(img, mode="RGB")
-- 
2.43.0


From cd7390f1b66225f6bc60df25eef1cc48ce19b405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 027/164] fix: alpha is dropped from images of every size

---
 pytracer/utility/imageio.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pytracer/utility/imageio.py b/pytracer/utility/imageio.py
index a22b370..76c23c7 100644
--- a/pytracer/utility/imageio.py
+++ b/pytracer/utility/imageio.py
@@ -35,14 +35,6 @@ def read_image(filename: str) -> ['spec.Spectrum']:
 			# desert alpha
 			img = img[:,:,0:3]
 
-		# avoid expensive resizing in src.core.texture.MIPMap.__init__()
-		if (not util.is_pow_2(width)) or (not util.is_pow_2(height)):
-			# re-sample to power of 2
-			width = util.next_pow_2(width)
-			height = util.next_pow_2(height)
-			pic.resize((width, height))
-			img = np.array(pic)
-
 	if img is not None:
 		return img
 
-- 
2.43.0


From ac8ba4e70f51e8199ed2891f75aaa6c40eaa69b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:26 +0000
Subject: [PATCH 028/164] fix: a failing splat releases its pixel lock

---
 pytracer/film/film.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytracer/film/film.py b/pytracer/film/film.py
index 38d196d..98ca923 100644
--- a/pytracer/film/film.py
+++ b/pytracer/film/film.py
@@ -212,9 +212,8 @@ class ImageFilm(Film):
 			return
 
 		pxl = self.pixels[x - self.xPixel_start][y - self.yPixel_start]
-		pxl.lock.acquire()
-		pxl.splatXYZ += xyz
-		pxl.lock.release()
+		with pxl.lock:
+			pxl.splatXYZ += xyz
 
 	def get_sample_extent(self) -> [INT]:
 		"""
-- 
2.43.0


From f2121d7acc2f4dc5a47d0944b6c6ad08f3948216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:26 +0000
Subject: [PATCH 029/164] fix: narrow filters also lock the pixels they update

---
 pytracer/film/film.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytracer/film/film.py b/pytracer/film/film.py
index 98ca923..d483ee3 100644
--- a/pytracer/film/film.py
+++ b/pytracer/film/film.py
@@ -168,7 +168,8 @@ class ImageFilm(Film):
 		ify = np.minimum(FILTER_TABLE_SIZE-1,
 				np.floor(np.fabs((np.arange(y0, y1+1) - dY) * FILTER_TABLE_SIZE * self.filter.ywInv)).astype(INT) )		
 
-		sync = self.filter.xw > .5 or self.filter.yw > .5
+		# samples on a pixel border reach several pixels however narrow the filter
+		sync = True
 		### DEBUG
 		### print("x0: ",  x0, " x1: ", x1, " y0: ", y0, " y1: ",y1)
 
-- 
2.43.0


From bddf0504e0e821fe90b79c7511c28d4d4cb8ff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 030/164] fix: remove the debug output of Sphere.intersect_p

---
 pytracer/shape/sphere.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index df35a5f..4034b61 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -249,7 +249,6 @@ class Sphere(Shape):
 				return False
 
 		phit = ray(thit)
-		print("Type phit: {}\nphit.x: {}\nphit.y: {}\n".format(type(phit), type(phit.x), type(phit.y)))
 		if phit.x == 0. and phit.y == 0.:
 			phit.x = EPS * self.radius
 		phi = np.arctan2(phit.y, phit.x)
-- 
2.43.0


From 60638d996fb0c1effa569d7599fc0e838d78d3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 031/164] fix: quadric intersection is independent of the ray
 length

---
 pytracer/shape/__init__.py | 14 ++++++++++++++
 pytracer/shape/cylinder.py | 18 +++++++-----------
 pytracer/shape/sphere.py   | 18 +++++++-----------
 3 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/pytracer/shape/__init__.py b/pytracer/shape/__init__.py
index 2497a24..b5f7102 100644
--- a/pytracer/shape/__init__.py
+++ b/pytracer/shape/__init__.py
@@ -33,6 +33,20 @@ def PREV(i: INT) -> INT:
 	return (i + 2) % 3
 
 
+def quadratic(A: FLOAT, B: FLOAT, C: FLOAT):
+	"""
+	Real solutions of A t^2 + B t + C = 0
+	in ascending order, `None` unless there
+	are two distinct ones.
+	"""
+	D = B * B - 4. * A * C
+	if A == 0. or D <= 0.:
+		return None
+	q = -.5 * (B + np.copysign(np.sqrt(D), B))
+	t0, t1 = q / A, C / q
+	return (t0, t1) if t0 <= t1 else (t1, t0)
+
+
 class Shape(object, metaclass=ABCMeta):
 	"""
 	Shape Class
diff --git a/pytracer/shape/cylinder.py b/pytracer/shape/cylinder.py
index 29a9279..811e69e 100644
--- a/pytracer/shape/cylinder.py
+++ b/pytracer/shape/cylinder.py
@@ -10,7 +10,7 @@ from __future__ import absolute_import
 from pytracer import *
 import pytracer.geometry as geo
 import pytracer.transform as trans
-from pytracer.shape import Shape
+from pytracer.shape import Shape, quadratic
 
 __all__ = ['Cylinder']
 
@@ -65,14 +65,12 @@ class Cylinder(Shape):
 		B = 2 * (ray.d.x * ray.o.x + ray.d.y * ray.o.y)
 		C = ray.o.x * ray.o.x + ray.o.y * ray.o.y - self.radius * self.radius
 
-		D = B * B - 4. * A * C
-		if D <= 0.:
+		sol = quadratic(A, B, C)
+		if sol is None:
 			return [False, None, None, None]
 
 		# validate solutions
-		[t0, t1] = np.roots([A, B, C])
-		if t0 > t1:
-			t0, t1 = t1, t0
+		t0, t1 = sol
 		if t0 > ray.maxt or t1 < ray.mint:
 			return [False, None, None, None]
 		thit = t0
@@ -148,14 +146,12 @@ class Cylinder(Shape):
 		B = 2 * (ray.d.x * ray.o.x + ray.d.y * ray.o.y)
 		C = ray.o.x * ray.o.x + ray.o.y * ray.o.y - self.radius * self.radius
 
-		D = B * B - 4. * A * C
-		if D <= 0.:
+		sol = quadratic(A, B, C)
+		if sol is None:
 			return False
 
 		# validate solutions
-		[t0, t1] = np.roots([A, B, C])
-		if t0 > t1:
-			t0, t1 = t1, t0
+		t0, t1 = sol
 		if t0 > ray.maxt or t1 < ray.mint:
 			return False
 		thit = t0
diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index 4034b61..2e28e8f 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -10,7 +10,7 @@ from __future__ import absolute_import
 from pytracer import *
 import pytracer.geometry as geo
 import pytracer.transform as trans
-from pytracer.shape import Shape
+from pytracer.shape import Shape, quadratic
 
 __all__ = ['Sphere']
 
@@ -138,14 +138,12 @@ class Sphere(Shape):
 		B = 2 * ray.d.dot(ray.o)
 		C = ray.o.sq_length() - self.radius * self.radius
 
-		D = B * B - 4. * A * C
-		if D <= 0. + EPS:
+		sol = quadratic(A, B, C)
+		if sol is None:
 			return [False, None, None, None]
 
 		# validate solutions
-		[t0, t1] = np.roots([A, B, C])
-		if t0 > t1:
-			t0, t1 = t1, t0
+		t0, t1 = sol
 		if t0 > ray.maxt or t1 < ray.mint:
 			return [False, None, None, None]
 		thit = t0
@@ -232,14 +230,12 @@ class Sphere(Shape):
 		B = 2 * ray.d.dot(ray.o)
 		C = ray.o.sq_length() - self.radius * self.radius
 
-		D = B * B - 4. * A * C
-		if D <= 0. + EPS:
+		sol = quadratic(A, B, C)
+		if sol is None:
 			return False
 
 		# validate solutions
-		[t0, t1] = np.roots([A, B, C])
-		if t0 > t1:
-			t0, t1 = t1, t0
+		t0, t1 = sol
 		if t0 > ray.maxt or t1 < ray.mint:
 			return False
 		thit = t0
-- 
2.43.0


From 83feb7da8d893c12fa3d3f4e6c451b58c68db941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 032/164] fix: cylinders can be created and intersected

---
 pytracer/shape/cylinder.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pytracer/shape/cylinder.py b/pytracer/shape/cylinder.py
index 811e69e..e2aac84 100644
--- a/pytracer/shape/cylinder.py
+++ b/pytracer/shape/cylinder.py
@@ -104,7 +104,7 @@ class Cylinder(Shape):
 		# otherwise ray hits the cylinder
 		# initialize the differential structure
 		u = phi / self.phiMax
-		v = (phit.z - self.zmin) / (self.thetaMax - self.thetaMin)
+		v = (phit.z - self.zmin) / (self.zmax - self.zmin)
 
 		# find derivatives
 		dpdu = geo.Vector(-self.phiMax * phit.y, self.phiMax * phit.x, 0.)
@@ -186,3 +186,10 @@ class Cylinder(Shape):
 
 	def area(self) -> FLOAT:
 		return self.phiMax * self.radius * (self.zmax - self.zmin)
+
+	def refine(self) -> ['Shape']:
+		"""
+		If `Shape` cannot intersect,
+		return a refined subset
+		"""
+		raise NotImplementedError('Intersecable shapes are not refineable')
-- 
2.43.0


From ed9898934ce4c8c70951b47592e592008a9c6afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 033/164] fix: disk coordinates and tangents follow its
 parametrisation

---
 pytracer/shape/disk.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pytracer/shape/disk.py b/pytracer/shape/disk.py
index 31243b9..e20fe7b 100644
--- a/pytracer/shape/disk.py
+++ b/pytracer/shape/disk.py
@@ -93,14 +93,16 @@ class Disk(Shape):
 		# otherwise ray hits the disk
 		# initialize the differential structure
 		u = phi / self.phiMax
-		v = 1. - ((np.sqrt(dt2 - self.inner_radius)) /
+		if dt2 == 0.:
+			phit.x = EPS * self.radius
+			dt2 = phit.x * phit.x
+		rhit = np.sqrt(dt2)
+		v = 1. - ((rhit - self.inner_radius) /
 		          (self.radius - self.inner_radius))
 
 		# find derivatives
 		dpdu = geo.Vector(-self.phiMax * phit.y, self.phiMax * phit.x, 0.)
-		dpdv = geo.Vector(-phit.x / (1. - v), -phit.y / (1. - v), 0.)
-		dpdu *= self.phiMax * INV_2PI
-		dpdv *= (self.radius - self.inner_radius) / self.radius
+		dpdv = geo.Vector(phit.x, phit.y, 0.) * ((self.inner_radius - self.radius) / rhit)
 
 		# derivative of geo.Normals
 		dndu = geo.Normal(0., 0., 0., )
-- 
2.43.0


From b62513cec82495d4e218229df00e9b5c6fe1558f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 034/164] fix: only rays parallel to a disk miss it by
 direction

---
 pytracer/shape/disk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/shape/disk.py b/pytracer/shape/disk.py
index e20fe7b..368150d 100644
--- a/pytracer/shape/disk.py
+++ b/pytracer/shape/disk.py
@@ -67,7 +67,7 @@ class Disk(Shape):
 		ray = self.w2o(r)
 
 		# parallel ray has not intersection
-		if np.fabs(ray.d.z) < EPS:
+		if ray.d.z == 0.:
 			return [False, None, None, None]
 
 		thit = (self.height - ray.o.z) / ray.d.z
@@ -118,7 +118,7 @@ class Disk(Shape):
 		ray = self.w2o(r)
 
 		# parallel ray has not intersection
-		if np.fabs(ray.d.z) < EPS:
+		if ray.d.z == 0.:
 			return False
 
 		thit = (self.height - ray.o.z) / ray.d.z
-- 
2.43.0


From d860b46e5621abfbcae167c13e4940bd0dbd1640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 035/164] fix: the sphere coordinate v spans the unit interval

---
 pytracer/shape/sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index 2e28e8f..7c214fb 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -185,7 +185,7 @@ class Sphere(Shape):
 		u = phi / self.phiMax
 		theta = np.arccos(np.clip(phit.z / self.radius, -1., 1.))
 		delta_theta = self.thetaMax - self.thetaMin
-		v = (theta - self.thetaMin) * delta_theta
+		v = (theta - self.thetaMin) / delta_theta
 
 		# find derivatives
 		dpdu = geo.Vector(-self.phiMax * phit.y, self.phiMax * phit.x, 0.)
-- 
2.43.0


From db300d574a55c30300673205c7c4fa4ff9d30833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 036/164] fix: triangle texture coordinates belong to its own
 vertices

---
 pytracer/shape/triangle.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 7382a8d..196cd62 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -126,9 +126,8 @@ class Triangle(Shape):
 		if self.mesh.uvs is None:
 			return [[0., 0.], [1., 0.], [1., 1.]]  # default
 		else:
-			return [[self.mesh.uvs[2 * self.v], self.mesh.uvs[2 * self.v + 1]],
-			        [self.mesh.uvs[2 * (self.v + 1)], self.mesh.uvs[2 * (self.v + 1) + 1]],
-			        [self.mesh.uvs[2 * (self.v + 2)], self.mesh.uvs[2 * (self.v + 2) + 1]]]
+			return [[self.mesh.uvs[2 * i], self.mesh.uvs[2 * i + 1]]
+			        for i in self.mesh.vertexIndex[self.v:self.v + 3]]
 
 	def object_bound(self) -> 'geo.BBox':
 		p1 = self.mesh.p[self.mesh.vertexIndex[self.v]]
-- 
2.43.0


From 6db65015b74ea6299fa08bdfb58ff18eb1ad2d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 037/164] fix: alpha masks are evaluated

---
 pytracer/shape/triangle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 196cd62..e82f8f6 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -235,7 +235,7 @@ class Triangle(Shape):
 
 		if self.mesh.alphaTexture is not None:
 			# alpha mask presents
-			if self.mesh.alphaTexture.evaluate(dg) == 0.:
+			if self.mesh.alphaTexture(dg) == 0.:
 				return [False, None, None, None]
 
 		# have a hit
@@ -307,7 +307,7 @@ class Triangle(Shape):
 
 		if self.mesh.alphaTexture is not None:
 			# alpha mask presents
-			if self.mesh.alphaTexture.evaluate(dg) == 0.:
+			if self.mesh.alphaTexture(dg) == 0.:
 				return False
 
 		# have a hit
-- 
2.43.0


From 283f52d0e8bb2eb5c873b0cc39bcf10982138690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:17 +0000
Subject: [PATCH 038/164] fix: world bounds enclose rotated shapes

---
 pytracer/shape/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/__init__.py b/pytracer/shape/__init__.py
index b5f7102..9832523 100644
--- a/pytracer/shape/__init__.py
+++ b/pytracer/shape/__init__.py
@@ -75,7 +75,7 @@ class Shape(object, metaclass=ABCMeta):
 		raise NotImplementedError('unimplemented Shape.object_bound() method called')
 
 	def world_bound(self) -> 'geo.BBox':
-		return self.o2w(self.object_bound())
+		return self.o2w.enclose(self.object_bound())
 
 	def can_intersect(self) -> bool:
 		return True
-- 
2.43.0


From 2d6da66d66dc8bfb2ae474ef001a7037cdfe9f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:17 +0000
Subject: [PATCH 039/164] fix: copying a surface record keeps its derivatives

---
 pytracer/geometry/diffgeom.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytracer/geometry/diffgeom.py b/pytracer/geometry/diffgeom.py
index 447879e..c3f859e 100644
--- a/pytracer/geometry/diffgeom.py
+++ b/pytracer/geometry/diffgeom.py
@@ -45,7 +45,11 @@ class DifferentialGeometry(object):
 		return "{}\nNormal Vector: {}\n".format(self.__class__, self.nn)
 
 	def copy(self):
-		return DifferentialGeometry(self.p, self.dpdu, self.dpdv, self.dndu, self.dndv, self.u, self.v, self.shape)
+		ret = DifferentialGeometry(self.p, self.dpdu, self.dpdv, self.dndu, self.dndv, self.u, self.v, self.shape)
+		ret.nn = self.nn.copy()
+		ret.dudx, ret.dvdx, ret.dudy, ret.dvdy = self.dudx, self.dvdx, self.dudy, self.dvdy
+		ret.dpdx, ret.dpdy = self.dpdx.copy(), self.dpdy.copy()
+		return ret
 
 	def compute_differential(self, ray: 'RayDifferential'):
 		if ray.has_differentials:
-- 
2.43.0


From 0a2e59188f797f87389e1c8af873d7fab9cd5387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 040/164] fix: points sampled on a sphere lie on it, evenly

---
 pytracer/shape/sphere.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index 7c214fb..479a900 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -44,16 +44,12 @@ class Sphere(Shape):
 		"""
 		account for partial sphere
 		"""
-		from pytracer.montecarlo import uniform_sample_sphere
-		v = uniform_sample_sphere(u1, u2)
+		# equal heights of a sphere have equal areas
+		z = util.lerp(u1, self.zmax, self.zmin)
+		r = np.sqrt(max(0., self.radius * self.radius - z * z))
+		phi = u2 * self.phiMax
 
-		phi = geo.spherical_theta(v) * self.phiMax * INV_2PI
-		theta = self.thetaMin + geo.spherical_theta(v) * (self.thetaMax - self.thetaMin)
-
-		v = geo.spherical_direction(np.sin(theta), np.cos(theta), phi) * self.radius
-		v.z = self.zmin + v.z * (self.zmax - self.zmin)
-
-		p = geo.Point.from_arr(v)
+		p = geo.Point(r * np.cos(phi), r * np.sin(phi), z)
 		Ns = geo.normalize(self.o2w(geo.Normal(p.x, p.y, p.z)))
 		if self.ro:
 			Ns *= -1.
-- 
2.43.0


From 5f96d76c464b2264dfd4ad62b36b9db97108d03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 041/164] fix: partial spheres are sampled by area

---
 pytracer/shape/sphere.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index 479a900..75c4289 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -64,6 +64,9 @@ class Sphere(Shape):
 	# 	Ns *= -1.
 	# return [self.o2w(p), Ns]
 
+	def is_partial(self) -> bool:
+		return self.zmin > -self.radius or self.zmax < self.radius or self.phiMax < 2. * PI
+
 	def refine(self) -> ['Shape']:
 		"""
 		If `Shape` cannot intersect,
@@ -82,8 +85,9 @@ class Sphere(Shape):
 		wc = geo.normalize(ctr - pnt)
 		_, wc_x, wc_y = geo.coordinate_system(wc)
 
-		# sample uniformly if p is inside
-		if pnt.sq_dist(ctr) - self.radius * self.radius < EPS:
+		# sample uniformly if p is inside or
+		# only part of the sphere is present
+		if self.is_partial() or pnt.sq_dist(ctr) - self.radius * self.radius < EPS:
 			return self.sample(u1, u2)
 
 		# sample inside subtended cone
@@ -108,7 +112,7 @@ class Sphere(Shape):
 	def pdf_p(self, pnt: 'geo.Point', wi: 'geo.Vector') -> FLOAT:
 		ctr = self.o2w(geo.Point(0., 0., 0.))
 		# return uniform weight if inside
-		if pnt.sq_dist(ctr) - self.radius * self.radius < EPS:
+		if self.is_partial() or pnt.sq_dist(ctr) - self.radius * self.radius < EPS:
 			return super().pdf_p(pnt, wi)
 
 		# general weight
-- 
2.43.0


From f707cb9aa04871a98ad6f7d38beae91e82ecca23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 042/164] fix: directions outside the subtended cone have no
 density

---
 pytracer/shape/sphere.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index 75c4289..344b75e 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -119,6 +119,9 @@ class Sphere(Shape):
 		st_max_sq = self.radius * self.radius / pnt.sq_dist(ctr)
 		ct_max = np.sqrt(max(0., 1. - st_max_sq))
 
+		if geo.normalize(wi).dot(geo.normalize(ctr - pnt)) < ct_max:
+			return 0.
+
 		from pytracer.montecarlo import uniform_cone_pdf
 		return uniform_cone_pdf(ct_max)
 
-- 
2.43.0


From dc6731b4220d6d4c0317e2f2b6080cebd151ef11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 043/164] fix: points sampled on a disk cover it evenly

---
 pytracer/shape/disk.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pytracer/shape/disk.py b/pytracer/shape/disk.py
index 368150d..c3dcfa3 100644
--- a/pytracer/shape/disk.py
+++ b/pytracer/shape/disk.py
@@ -44,12 +44,15 @@ class Disk(Shape):
 		# account for partial disk
 		from pytracer.montecarlo import concentric_sample_disk
 		x, y = concentric_sample_disk(u1, u2)
-		phi = np.arctan2(y, x) * self.phiMax * INV_2PI
-		r = self.inner_radius + np.sqrt(x * x + y * y) * (self.radius - self.inner_radius)
+		phi = np.arctan2(y, x)
+		if phi < 0.:
+			phi += 2. * np.pi
+		phi *= self.phiMax * INV_2PI
+		r = np.sqrt(util.lerp(x * x + y * y, self.inner_radius * self.inner_radius, self.radius * self.radius))
 
 		p = geo.Point(r * np.cos(phi), r * np.sin(phi), self.height)
 
-		Ns = geo.normalize(self.o2w(p))
+		Ns = geo.normalize(self.o2w(geo.Normal(0., 0., 1.)))
 		if self.ro:
 			Ns *= -1.
 
-- 
2.43.0


From 690108c88a8bd936f851407a11245a9dca318867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 044/164] fix: points sampled on a triangle use its own
 vertices

---
 pytracer/shape/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index e82f8f6..1066a24 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -147,7 +147,7 @@ class Triangle(Shape):
 		b1, b2 = uniform_sample_triangle(u1, u2)
 
 		p = b1 * self.mesh.p[self.mesh.vertexIndex[self.v]] + \
-		    b2 * self.mesh.p[self.mesh.vertexIndex[self.v]+1] + \
+		    b2 * self.mesh.p[self.mesh.vertexIndex[self.v+1]] + \
 		    (1. - b1 - b2) * self.mesh.p[self.mesh.vertexIndex[self.v+2]]
 
 		Ns = geo.normalize(geo.Normal.from_arr(
-- 
2.43.0


From 66fe58f4b781007df935b7b40b8020fd07865fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 045/164] fix: points sampled on a triangle face the side a hit
 would report

---
 pytracer/shape/triangle.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 1066a24..24e8327 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -154,7 +154,12 @@ class Triangle(Shape):
 			(self.mesh.p[self.mesh.vertexIndex[self.v+1]] - self.mesh.p[self.mesh.vertexIndex[self.v]]) \
 				.cross(self.mesh.p[self.mesh.vertexIndex[self.v+2]] - self.mesh.p[self.mesh.vertexIndex[self.v]])))
 
-		if self.ro:
+		# same side as the normal of a hit, which follows the parameterization
+		uvs = self.get_uvs()
+		flip = self.ro ^ self.transform_swaps_handedness
+		if (uvs[0][0] - uvs[2][0]) * (uvs[1][1] - uvs[2][1]) < (uvs[1][0] - uvs[2][0]) * (uvs[0][1] - uvs[2][1]):
+			flip = not flip
+		if flip:
 			Ns *= -1.
 
 		return [p, Ns]
-- 
2.43.0


From 07d101b86f839a43fc10249c3e70842e7af7850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 046/164] fix: tangents of interior subdivision vertices

---
 pytracer/shape/loopsubdiv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/shape/loopsubdiv.py b/pytracer/shape/loopsubdiv.py
index cb3672b..34431da 100644
--- a/pytracer/shape/loopsubdiv.py
+++ b/pytracer/shape/loopsubdiv.py
@@ -406,8 +406,8 @@ class LoopSubdiv(Shape):
 
 			if not vv.boundary:
 				## interior
-				S += np.sum([np.cos(2. * np.pi * k * valInv) * (Pring[k]) for k in range(valence)], axis=0)
-				T += np.sum([np.sin(2. * np.pi * k * valInv) * (Pring[k]) for k in range(valence)], axis=0)
+				S = geo.Vector.from_arr(np.sum([np.cos(2. * np.pi * k * valInv) * (Pring[k]) for k in range(valence)], axis=0))
+				T = geo.Vector.from_arr(np.sum([np.sin(2. * np.pi * k * valInv) * (Pring[k]) for k in range(valence)], axis=0))
 
 
 			else:
-- 
2.43.0


From ef22d869664a0add9401c1351cbcc5f1e11b8424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 047/164] fix: limit weight of interior subdivision vertices

---
 pytracer/shape/loopsubdiv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/loopsubdiv.py b/pytracer/shape/loopsubdiv.py
index 34431da..2aad90e 100644
--- a/pytracer/shape/loopsubdiv.py
+++ b/pytracer/shape/loopsubdiv.py
@@ -258,7 +258,7 @@ class LoopSubdiv(Shape):
 
 	@staticmethod
 	def gamma(valence: INT) -> FLOAT:
-		return 1. / (valence + 3. / (8. + LoopSubdiv.beta(valence)))
+		return 1. / (valence + 3. / (8. * LoopSubdiv.beta(valence)))
 
 	def weight_one_ring(self, vert: 'SDVertex', beta: 'FLOAT') -> 'geo.Point':
 		valence = vert.valence()
-- 
2.43.0


From ebbbc86edbd948d51dc578523d3cea4e29480067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 048/164] fix: refining an unsubdivided surface leaves it as it
 was

---
 pytracer/shape/loopsubdiv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytracer/shape/loopsubdiv.py b/pytracer/shape/loopsubdiv.py
index 2aad90e..438548f 100644
--- a/pytracer/shape/loopsubdiv.py
+++ b/pytracer/shape/loopsubdiv.py
@@ -392,7 +392,7 @@ class LoopSubdiv(Shape):
 				Plimit.append(self.weight_one_ring(vv, self.gamma(vv.valence())))
 
 		for i, vv in enumerate(v):
-			vv.P = Plimit[i]
+			vv.P, Plimit[i] = Plimit[i], vv.P
 
 		# compute vertex tangents
 		## S: first tangent, across tangent
@@ -429,6 +429,10 @@ class LoopSubdiv(Shape):
 
 			Ns.append(geo.Normal.from_arr(S.cross(T)))
 
+		# put the control vertices back: without a level they are our own
+		for i, vv in enumerate(v):
+			vv.P, Plimit[i] = Plimit[i], vv.P
+
 		# create `TriangleMesh`
 		verts = []
 		usedVerts = {}
-- 
2.43.0


From 2177f8decb528601f479f84f584c941eeacb818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 049/164] fix: meshes without vertices or indices are rejected,
 not crashed on

---
 pytracer/shape/triangle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 24e8327..d2fef4c 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -26,6 +26,9 @@ def create_triangle_mesh(o2w: 'trans.Transform', w2o: 'trans.Transform',
 		uvs = None if 'st' not in params else params['st']
 	discard = False if 'discard' not in params else params['discard']
 
+	if vi is None or p is None:
+		return None
+
 	if len(vi) % 3 != 0:
 		raise RuntimeError
 
-- 
2.43.0


From c520ece3dbe5c545dfa208c0afad0b067ef4833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 050/164] fix: shading normals of meshes with only normals or
 only tangents

---
 pytracer/shape/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index d2fef4c..54060ab 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -329,7 +329,7 @@ class Triangle(Shape):
 
 	def get_shading_geometry(self, o2w: 'trans.Transform',
 	                         dg: 'geo.DifferentialGeometry') -> 'geo.DifferentialGeometry':
-		if self.mesh.n is None or self.mesh.s is None:
+		if self.mesh.n is None and self.mesh.s is None:
 			return dg
 		# compute barycentric coord
 		uvs = self.get_uvs()
-- 
2.43.0


From 90b6a0c82ae1c2d310202808a9bcacdcf9ff97d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 051/164] fix: shading normals are those of the triangle's own
 vertices

---
 pytracer/shape/triangle.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 54060ab..9de5637 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -347,16 +347,16 @@ class Triangle(Shape):
 
 		# compute shading tangents
 		if self.mesh.n is not None:
-			ns = geo.normalize(o2w(b[0] * self.mesh.n[self.v] +
-			                   b[1] * self.mesh.n[self.v + 1] +
-			                   b[2] * self.mesh.n[self.v + 2]))
+			ns = geo.normalize(o2w(b[0] * self.mesh.n[self.mesh.vertexIndex[self.v]] +
+			                   b[1] * self.mesh.n[self.mesh.vertexIndex[self.v + 1]] +
+			                   b[2] * self.mesh.n[self.mesh.vertexIndex[self.v + 2]]))
 		else:
 			ns = dg.nn
 
 		if self.mesh.s is not None:
-			ss = geo.normalize(o2w(b[0] * self.mesh.s[self.v] +
-			                   b[1] * self.mesh.s[self.v + 1] +
-			                   b[2] * self.mesh.s[self.v + 2]))
+			ss = geo.normalize(o2w(b[0] * self.mesh.s[self.mesh.vertexIndex[self.v]] +
+			                   b[1] * self.mesh.s[self.mesh.vertexIndex[self.v + 1]] +
+			                   b[2] * self.mesh.s[self.mesh.vertexIndex[self.v + 2]]))
 		else:
 			ss = geo.normalize(dg.dpdu)
 
-- 
2.43.0


From cbe6d287ea33b0ea21c0da6ffa7df0873491a572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 052/164] fix: shading normals face the side of the hit normal

---
 pytracer/shape/triangle.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 9de5637..85de49e 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -350,8 +350,12 @@ class Triangle(Shape):
 			ns = geo.normalize(o2w(b[0] * self.mesh.n[self.mesh.vertexIndex[self.v]] +
 			                   b[1] * self.mesh.n[self.mesh.vertexIndex[self.v + 1]] +
 			                   b[2] * self.mesh.n[self.mesh.vertexIndex[self.v + 2]]))
+			# the differential geometry below flips normals of mirrored shapes
+			if self.transform_swaps_handedness:
+				ns = -1. * ns
 		else:
-			ns = dg.nn
+			# already flipped
+			ns = -1. * dg.nn if self.ro ^ self.transform_swaps_handedness else dg.nn
 
 		if self.mesh.s is not None:
 			ss = geo.normalize(o2w(b[0] * self.mesh.s[self.mesh.vertexIndex[self.v]] +
-- 
2.43.0


From 23b567ee0939fd9eec433f7d483bb79e62441114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 053/164] fix: the plain aggregate reports every hit and the
 nearest object

---
 pytracer/aggregate/aggregate.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index 029c9a2..c50156a 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -72,7 +72,7 @@ class SimpleAggregate(Aggregate):
 	def intersect(self, ray: 'geo.Ray', isect: 'Intersection') -> bool:
 		from pytracer.aggregate import Intersection
 		# refine primitives if needed
-		hit, t0, t1 = self.bounds.intersect_p(ray)
+		hit, _, _ = self.bounds.intersect_p(ray)
 		if not hit:
 			return False
 
@@ -81,10 +81,6 @@ class SimpleAggregate(Aggregate):
 		mint = np.inf
 		for pr in self.primitives:
 			if pr.intersect(ray, tmp):
-				t0 = max(t0, ray.maxt)
-				t1 = min(t1, ray.maxt)
-				if t0 > t1:
-					continue
 				any_hit = True
 				if ray.maxt < mint:
 					mint = ray.maxt
-- 
2.43.0


From 83fdaf6ce416e5ba11d4a65993b8f9252d90b37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 054/164] fix: the grid walk starts where the ray enters the
 grid

---
 pytracer/aggregate/aggregate.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index c50156a..d1b9585 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -245,10 +245,8 @@ class GridAccel(Aggregate):
 
 	def intersect(self, ray: 'geo.Ray', isect: 'Intersection') -> bool:
 		# Check ray aginst overall bounds
-		ray_t = 0.
-		if self.bounds.inside(ray(ray.mint)):
-			ray_t = ray.mint
-		elif not self.bounds.intersect_p(ray)[0]:
+		hit, ray_t, _ = self.bounds.intersect_p(ray)
+		if not hit:
 			return False
 
 		grid_intersect = ray(ray_t)
@@ -295,10 +293,8 @@ class GridAccel(Aggregate):
 
 	def intersect_p(self, ray: 'geo.Ray') -> bool:
 		# Check ray aginst overall bounds
-		ray_t = 0.
-		if self.bounds.inside(ray(ray.mint)):
-			ray_t = ray.mint
-		elif not self.bounds.intersect_p(ray):
+		hit, ray_t, _ = self.bounds.intersect_p(ray)
+		if not hit:
 			return False
 
 		grid_intersect = ray(ray_t)
-- 
2.43.0


From e9adf180d2d256811a521e9f2289e5fe69c66ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 055/164] fix: voxel crossings of the grid walk

---
 pytracer/aggregate/aggregate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index d1b9585..5451ab0 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -258,7 +258,7 @@ class GridAccel(Aggregate):
 
 		pos = [self.pos2voxel(grid_intersect, axis) for axis in range(3)]
 
-		next_crossing = [ray_t + self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis] / ray.d[axis] \
+		next_crossing = [ray_t + (self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis]) / ray.d[axis] \
 		                 for axis in range(3)]
 		delta_t = self.width / ray.d
 		step = np.full(3, 1)
@@ -267,7 +267,7 @@ class GridAccel(Aggregate):
 			# compute current voxel
 			if ray.d[axis] < 0:
 				# ray with neg. direction for stepping
-				next_crossing[axis] = ray_t + self.voxel2pos(pos[axis], axis) - grid_intersect[axis] / ray.d[axis]
+				next_crossing[axis] = ray_t + (self.voxel2pos(pos[axis], axis) - grid_intersect[axis]) / ray.d[axis]
 				delta_t[axis] *= -1
 				step[axis] = -1
 				out[axis] = -1
@@ -306,7 +306,7 @@ class GridAccel(Aggregate):
 
 		pos = [self.pos2voxel(grid_intersect, axis) for axis in range(3)]
 
-		next_crossing = [ray_t + self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis] / ray.d[axis] \
+		next_crossing = [ray_t + (self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis]) / ray.d[axis] \
 		                 for axis in range(3)]
 		delta_t = self.width / ray.d
 		step = np.full(3, 1)
@@ -315,7 +315,7 @@ class GridAccel(Aggregate):
 			# compute current voxel
 			if ray.d[axis] < 0:
 				# ray with neg. direction for stepping
-				next_crossing[axis] = ray_t + self.voxel2pos(pos[axis], axis) - grid_intersect[axis] / ray.d[axis]
+				next_crossing[axis] = ray_t + (self.voxel2pos(pos[axis], axis) - grid_intersect[axis]) / ray.d[axis]
 				delta_t[axis] *= -1
 				step[axis] = -1
 				out[axis] = -1
-- 
2.43.0


From 16d8f894ffacf934a05cf8413d7597865121fad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 056/164] fix: axis-parallel rays never leave their grid slab

---
 pytracer/aggregate/aggregate.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index 5451ab0..b869e0e 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -271,6 +271,10 @@ class GridAccel(Aggregate):
 				delta_t[axis] *= -1
 				step[axis] = -1
 				out[axis] = -1
+			elif ray.d[axis] == 0:
+				# never crosses a voxel boundary of this axis
+				next_crossing[axis] = np.inf
+				delta_t[axis] = np.inf
 
 		# walk through grid
 		any_hit = False
@@ -319,6 +323,10 @@ class GridAccel(Aggregate):
 				delta_t[axis] *= -1
 				step[axis] = -1
 				out[axis] = -1
+			elif ray.d[axis] == 0:
+				# never crosses a voxel boundary of this axis
+				next_crossing[axis] = np.inf
+				delta_t[axis] = np.inf
 
 		# walk through grid
 		any_hit = False
-- 
2.43.0


From 379ea474d3cd007292b4cd63d3b9e7293504f593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 057/164] fix: grids without objects or extent

---
 pytracer/aggregate/aggregate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index b869e0e..6b9edbc 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -184,7 +184,7 @@ class GridAccel(Aggregate):
 
 		delta = self.bounds.pMax - self.bounds.pMin
 		max_axis = self.bounds.maximum_extent()
-		inv_max_width = 1. / delta[max_axis]
+		inv_max_width = 1. / delta[max_axis] if 0. < delta[max_axis] < np.inf else 0.
 		cube_root = 3. * np.power(len(self.primitives), 1. / 3.)
 		voxels_per_unit_dist = cube_root * inv_max_width
 
@@ -193,8 +193,8 @@ class GridAccel(Aggregate):
 
 
 		for axis in range(3):
-			self.n_voxels[axis] = INT(delta[axis] * voxels_per_unit_dist)
-			self.n_voxels[axis] = np.clip(self.n_voxels[axis], 1., 64.)
+			n_voxels = delta[axis] * voxels_per_unit_dist if voxels_per_unit_dist > 0. else 1.
+			self.n_voxels[axis] = np.clip(INT(n_voxels), 1., 64.)
 
 			self.width[axis] = delta[axis] / self.n_voxels[axis]
 			self.invWidth[axis] = 0. if self.width[axis] == 0. else 1. / self.width[axis]
-- 
2.43.0


From 0bd43053818ef3a77bd184882c71c9a2983c88f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 058/164] fix: bounding volume hierarchies over partitions that
 put everything on one side

---
 pytracer/aggregate/accelerator/bvh.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index 852c5e6..2927da9 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -110,13 +110,13 @@ class BVH(Aggregate):
 	def _partition(data: ['BVH._BVHPrimitive'], start: INT, end: INT, mid: FLOAT, dim: INT):
 		assert start <= end
 		i = start
-		k = end - 1
+		k = end
 		while i < k:
 			if data[i].centroid[dim] < mid:
 				i += 1
 			else:
-				data[i], data[k] = data[k], data[i]
 				k -= 1
+				data[i], data[k] = data[k], data[i]
 		return k
 
 	@staticmethod
@@ -133,7 +133,7 @@ class BVH(Aggregate):
 	def _bucket_partition(data: ['BVH._BVHPrimitive'], start: INT, end: INT,
 	                      min_cost_idx: INT, n_buckets: INT, dim: INT, centroid_bounds: [geo.BBox]):
 		i = start
-		k = end - 1
+		k = end
 		diff = centroid_bounds.pMax[dim] - centroid_bounds.pMin[dim]
 		while i < k:
 			b = INT(n_buckets * ((data[i].centroid[dim] - centroid_bounds.pMin[dim]) / diff))
@@ -145,8 +145,8 @@ class BVH(Aggregate):
 			if b <= min_cost_idx:
 				i += 1
 			else:
-				data[i], data[k] = data[k], data[i]
 				k -= 1
+				data[i], data[k] = data[k], data[i]
 		return k
 
 	def _recursive_build(self, data: ['BVH._BVHPrimitive'], segment: [UINT], ordered_prims: ['BVH._BVHPrimitive']):
@@ -206,6 +206,10 @@ class BVH(Aggregate):
 			if self.split_method == BVH.SplitMethod.MIDDLE:
 				pmid = .5 * (centroid_bounds.pMax[dim] + centroid_bounds.pMin[dim])
 				mid = BVH._partition(data, start, end, pmid, dim)
+				if mid == start or mid == end:
+					# rounding put all centroids on one side
+					mid = (start + end) // 2
+					BVH._insertion_sort(data, start, end, dim)
 
 			else:
 				# surface area heuristic
-- 
2.43.0


From 6bd447f97d31bf29def4ae398ed8cf3a8bf25583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:42 +0000
Subject: [PATCH 059/164] fix: leaves of several objects in bounding volume
 hierarchies

---
 pytracer/aggregate/accelerator/bvh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index 2927da9..c9c9a93 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -264,7 +264,7 @@ class BVH(Aggregate):
 					else:
 						first = len(ordered_prims)
 						for i in range(start, end):
-							ordered_prims.append(self.primitives[data[i]].prim_idx)
+							ordered_prims.append(self.primitives[data[i].prim_idx])
 						node.init_leaf(first, n_prim, bbox)
 						return node
 
-- 
2.43.0


From 4ad77fd18e41c8604d1851ac168525d3a656982b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:42 +0000
Subject: [PATCH 060/164] fix: hierarchy bounds are tested like any other
 bounding box

---
 pytracer/aggregate/accelerator/bvh.py | 25 +------------------------
 1 file changed, 1 insertion(+), 24 deletions(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index c9c9a93..351faf6 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -298,30 +298,7 @@ class BVH(Aggregate):
 	
 	@staticmethod
 	def _intersect_p(bounds: geo.BBox, ray: geo.Ray, inv_dir: geo.Vector, dir_neg: [bool]) -> bool:
-		# ray intersection against x and y slabs
-		tmin = (bounds[dir_neg[0]].x - ray.o.x) * inv_dir.x
-		tmax = (bounds[1-dir_neg[0]].x - ray.o.x) * inv_dir.x
-		tmin_y = (bounds[dir_neg[1]].y - ray.o.y) * inv_dir.y
-		tmax_y = (bounds[1 - dir_neg[1]].y - ray.o.y) * inv_dir.y
-		
-		if tmin > tmax_y or tmin_y > tmax:
-			return False
-		if tmin_y > tmin:
-			tmin = tmin_y
-		if tmax_y < tmax:
-			tmax = tmax_y
-		# z slab
-		tmin_z = (bounds[dir_neg[2]].z - ray.o.z) * inv_dir.z
-		tmax_z = (bounds[1 - dir_neg[2]].z - ray.o.z) * inv_dir.z
-
-		if tmin > tmax_z or tmin_z > tmax:
-			return False
-		if tmin_z > tmin:
-			tmin = tmin_z
-		if tmax_z < tmax:
-			tmax = tmax_z
-	
-		return tmin < ray.maxt and tmax > ray.mint
+		return bounds.intersect_p(ray)[0]
 
 	def intersect(self, ray: 'geo.Ray', isect: 'Intersection') -> bool:
 		from pytracer.aggregate.accelerator.bvh import BVH
-- 
2.43.0


From f3cf8367604fceb1b64d8ab56647878014983f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:42 +0000
Subject: [PATCH 061/164] fix: traversal of deep bounding volume hierarchies

---
 pytracer/aggregate/accelerator/bvh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index 351faf6..5964e8f 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -310,7 +310,7 @@ class BVH(Aggregate):
 		
 		todo_idx = 0
 		node_idx = 0
-		todo = [None] * 64
+		todo = [None] * max(64, len(self.nodes))
 		while True:
 			node = self.nodes[node_idx]
 			# check intersection
@@ -355,7 +355,7 @@ class BVH(Aggregate):
 
 		todo_idx = 0
 		node_idx = 0
-		todo = [None] * 64
+		todo = [None] * max(64, len(self.nodes))
 		while True:
 			node = self.nodes[node_idx]
 			# check intersection
-- 
2.43.0


From 096657234c594229575d0237d0226f5da2f4063c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:42 +0000
Subject: [PATCH 062/164] fix: making a scene with a medium leaves the
 aggregate as it was

---
 pytracer/scene/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/scene/scene.py b/pytracer/scene/scene.py
index e81a69e..9daeab2 100644
--- a/pytracer/scene/scene.py
+++ b/pytracer/scene/scene.py
@@ -24,7 +24,7 @@ class Scene(object):
 		self.lights = lights
 		self.vr = vr
 
-		self.bound = self.aggregate.world_bound()
+		self.bound = geo.BBox.from_bbox(self.aggregate.world_bound())
 		if self.vr is not None:
 			self.bound.union(vr.world_bound())
 
-- 
2.43.0


From fdf5411156e4c679d500582b5e8d55bb8da279f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:42 +0000
Subject: [PATCH 063/164] fix: no ray meets an empty box

---
 pytracer/geometry/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytracer/geometry/__init__.py b/pytracer/geometry/__init__.py
index 6609adf..1d0c199 100644
--- a/pytracer/geometry/__init__.py
+++ b/pytracer/geometry/__init__.py
@@ -596,6 +596,8 @@ class BBox:
 			b = 2
 			pass
 		for i in range(3):
+			if self.pMin[i] > self.pMax[i]:
+				return [False, 0., 0.]
 			if t_near[i] > t_far[i]:
 				t_near[i], t_far[i] = t_far[i], t_near[i]
 			t0, t1 = np.fmax(t0, t_near[i]), np.fmin(t1, t_far[i])
-- 
2.43.0


From 4cf67a1611f97cdde76c945fc7cb47bc5884ccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:13 +0000
Subject: [PATCH 064/164] fix: negative zero directions against boxes

---
 pytracer/geometry/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/geometry/__init__.py b/pytracer/geometry/__init__.py
index 1d0c199..a26ffed 100644
--- a/pytracer/geometry/__init__.py
+++ b/pytracer/geometry/__init__.py
@@ -589,8 +589,8 @@ class BBox:
 		"""
 		t0, t1 = r.mint, r.maxt
 		# automatically convert /0. to np.inf
-		t_near = np.true_divide((self.pMin - r.o), r.d)
-		t_far = np.true_divide((self.pMax - r.o), r.d)
+		t_near = np.true_divide((self.pMin - r.o), r.d + 0.)
+		t_far = np.true_divide((self.pMax - r.o), r.d + 0.)
 		if isinstance(t0, RayDifferential) or isinstance(t_near[0], RayDifferential):
 			a = 1
 			b = 2
-- 
2.43.0


From 4388e50ba400e5e08f83caadcadf285ef7a2d334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:48 +0000
Subject: [PATCH 065/164] instances can be created and ask their own object

---
 pytracer/aggregate/primitive.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pytracer/aggregate/primitive.py b/pytracer/aggregate/primitive.py
index 8daeae1..1d97914 100644
--- a/pytracer/aggregate/primitive.py
+++ b/pytracer/aggregate/primitive.py
@@ -141,7 +141,7 @@ class TransformedPrimitive(Primitive):
 		self.w2p = w2p
 
 	def __repr__(self):
-		return super().__repr__(self) + '\n{}'.format(self.prim)
+		return super().__repr__() + '\n{}'.format(self.primitive)
 
 	def intersect(self, r: 'geo.Ray', isect: 'Intersection') -> bool:
 		w2p = self.w2p.interpolate(r.time)
@@ -176,11 +176,23 @@ class TransformedPrimitive(Primitive):
 		return self.w2p.motion_bounds(self.primitive.world_bound(), True)
 
 	def can_intersect(self) -> bool:
-		return self.shape.can_intersect()
+		return self.primitive.can_intersect()
 
 	def refine(self, refined: ['Primitive']):
-		r = self.shape.refine()
-		for sh in r:
-			refined.append(GeometricPrimitive(sh, self.material, self.areaLight))
+		r = []
+		self.primitive.refine(r)
+		for prim in r:
+			refined.append(TransformedPrimitive(prim, self.w2p))
+
+	# a hit record names the instanced primitive,
+	# which answers the queries below
+	def get_area_light(self):
+		return None
+
+	def get_bsdf(self, dg: 'geo.DifferentialGeometry', o2w: 'trans.Transform'):
+		return None
+
+	def get_bssrdf(self, dg: 'geo.DifferentialGeometry', o2w: 'trans.Transform'):
+		return None
 
 
-- 
2.43.0


From 56a59677befaf21b1b07f483c9cceae360319511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:39 +0000
Subject: [PATCH 066/164] shading normal derivatives use the given
 object-to-world transform

---
 pytracer/shape/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 85de49e..642184e 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -391,7 +391,7 @@ class Triangle(Shape):
 			dndu = geo.Normal(0., 0., 0.)
 			dndv = geo.Normal(0., 0., 0.)
 
-		dgs = geo.DifferentialGeometry(dg.p, ss, ts, self.mesh.o2w(dndu), self.mesh.o2w(dndv), dg.u, dg.v, dg.shape)
+		dgs = geo.DifferentialGeometry(dg.p, ss, ts, o2w(dndu), o2w(dndv), dg.u, dg.v, dg.shape)
 		dgs.dudx = dg.dudx
 		dgs.dvdx = dg.dvdx
 		dgs.dudy = dg.dudy
-- 
2.43.0


From 03c185aa7cd75d1d5f7da467fff4fe4b078c60e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:10 +0000
Subject: [PATCH 067/164] a failing refinement frees the grid lock

---
 pytracer/aggregate/aggregate.py | 50 ++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index 6b9edbc..305fd7d 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -116,19 +116,18 @@ class Voxel(object):
 	def intersect(self, ray: 'geo.Ray', isect: 'Intersection', lock) -> bool:
 		# refine primitives if needed
 		if not self.all_can_intersect:
-			lock.acquire()
-			for i, prim in enumerate(self.primitives):
-				# refine if necessary
-				if not prim.can_intersect():
-					p = []
-					prim.full_refine(p)
-					if len(p) == 1:
-						self.primitives[i] = p[0]
-					else:
-						self.primitives[i] = GridAccel(p, False)
-
-			self.all_can_intersect = True
-			lock.release()
+			with lock:
+				for i, prim in enumerate(self.primitives):
+					# refine if necessary
+					if not prim.can_intersect():
+						p = []
+						prim.full_refine(p)
+						if len(p) == 1:
+							self.primitives[i] = p[0]
+						else:
+							self.primitives[i] = GridAccel(p, False)
+
+				self.all_can_intersect = True
 
 		# loop over
 		# no data corrpution?
@@ -142,19 +141,18 @@ class Voxel(object):
 	def intersect_p(self, ray: 'geo.Ray', lock) -> bool:
 		# refine primitives if needed
 		if not self.all_can_intersect:
-			lock.acquire()
-			for i, prim in enumerate(self.primitives):
-				# refine if necessary
-				if not prim.can_intersect():
-					p = []
-					prim.full_refine(p)
-					if len(p) == 1:
-						self.primitives[i] = p[0]
-					else:
-						self.primitives[i] = GridAccel(p, False)
-
-			self.all_can_intersect = True
-			lock.release()
+			with lock:
+				for i, prim in enumerate(self.primitives):
+					# refine if necessary
+					if not prim.can_intersect():
+						p = []
+						prim.full_refine(p)
+						if len(p) == 1:
+							self.primitives[i] = p[0]
+						else:
+							self.primitives[i] = GridAccel(p, False)
+
+				self.all_can_intersect = True
 
 		# loop over
 		# no data corrpution?
-- 
2.43.0


From 7202e6fcede7072796ede5e555f494cd7803327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:34 +0000
Subject: [PATCH 068/164] camera rays carry the time of their sample

---
 pytracer/camera/environment.py | 4 +---
 pytracer/camera/projective.py  | 4 ++--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/pytracer/camera/environment.py b/pytracer/camera/environment.py
index 6c97975..c296803 100644
--- a/pytracer/camera/environment.py
+++ b/pytracer/camera/environment.py
@@ -31,13 +31,11 @@ class EnvironmentCamera(Camera):
 		Generate ray based on image sample.
 		Returned ray direction is normalized
 		"""
-		time = util.lerp(sample.time, self.s_open, self.s_close)
-
 		# compute ray direction
 		theta = np.pi * sample.imageY / self.film.yResolution
 		phi = 2 * np.pi * sample.imageX / self.film.xResolution
 		stheta = np.sin(theta)
 
 		ray = self.c2w(geo.Ray(geo.Point(0., 0., 0.),
-				geo.Vector(stheta * np.cos(phi), np.cos(theta), stheta * np.sin(phi)), 0., np.inf, time))
+				geo.Vector(stheta * np.cos(phi), np.cos(theta), stheta * np.sin(phi)), 0., np.inf, 0, sample.time))
 		return [1., ray]
diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index 1b9ccb7..6b3f459 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -106,7 +106,7 @@ class OrthoCamera(ProjectiveCamera):
 			ray.o = geo.Point(lens_u, lens_v, 0.)
 			ray.d = geo.normalize(Pfoc - ray.o)
 
-		ray.time = util.lerp(sample.time, self.s_open, self.s_close)
+		ray.time = sample.time
 		ray = self.c2w(ray)
 		return [1., ray]
 
@@ -171,7 +171,7 @@ class PerspectiveCamera(ProjectiveCamera):
 			ray.o = geo.Point(lens_u, lens_v, 0.)
 			ray.d = geo.normalize(Pfoc - ray.o)
 
-		ray.time = util.lerp(sample.time, self.s_open, self.s_close)
+		ray.time = sample.time
 		ray = self.c2w(ray)
 		return [1., ray]
 
-- 
2.43.0


From 436d1f19d436de943e8d4d736cc54ffd366af4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:34 +0000
Subject: [PATCH 069/164] default ray differentials shift the given sample

---
 pytracer/camera/camera.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pytracer/camera/camera.py b/pytracer/camera/camera.py
index a11eaa4..5767ad8 100644
--- a/pytracer/camera/camera.py
+++ b/pytracer/camera/camera.py
@@ -8,6 +8,7 @@ Modified on Aug 13, 2017
 """
 from __future__ import absolute_import
 from abc import (ABCMeta, abstractmethod)
+from copy import copy
 from pytracer import *
 import pytracer.geometry as geo
 import pytracer.transform as trans
@@ -52,16 +53,14 @@ class Camera(object, metaclass=ABCMeta):
 		rd = geo.RayDifferential.from_ray(rd)
 
 		# find ray shift along x
-		from pytracer.sampler import CameraSample
-		
-		xshift = sample.duplicate(1)[0]
+		xshift = copy(sample)
 		xshift.imageX += 1
 		wtx, rx = self.generate_ray(xshift)
 		rd.rxOrigin = rx.o
 		rd.rxDirection = rx.d
 
 		# find ray shift along y
-		yshift = sample.duplicate(1)[0]
+		yshift = copy(sample)
 		yshift.imageY += 1
 		wty, ry = self.generate_ray(yshift)
 		rd.ryOrigin = ry.o
-- 
2.43.0


From 30c94a7221ef6df6cb6966050a69145acb02dd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:34 +0000
Subject: [PATCH 070/164] orthographic differentials are the adjacent rays

---
 pytracer/camera/projective.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index 6b3f459..a0602ba 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -114,17 +114,30 @@ class OrthoCamera(ProjectiveCamera):
 		"""
 		Generate ray differential.
 		"""
-		wt, rd = self.generate_ray(sample)
-		rd = geo.RayDifferential.from_ray(rd)
+		p_cam = self.r2c(geo.Point(sample.imageX, sample.imageY, 0.))
+		ray = geo.RayDifferential(p_cam, geo.Vector(0., 0., 1.), 0., np.inf)
 
-		# find ray shift along x
-		rd.rxOrigin = rd.o + self.dxCam
-		rd.ryOrigin = rd.o + self.dyCam
-		rd.rxDirection = rd.ryDirection = rd.d
-		rd.has_differentials = True
-		rd = self.c2w(rd)
+		if self.lens_rad > 0.:
+			# with defocus blur
+			from pytracer.montecarlo import concentric_sample_disk
+			lens_u, lens_v = concentric_sample_disk(sample.lens_u, sample.lens_v)
+			lens = geo.Point(lens_u * self.lens_rad, lens_v * self.lens_rad, 0.)
+
+			# compute points on focal plane
+			Pfoc = ray(self.focal_dist / ray.d.z)
+			ray.o = ray.rxOrigin = ray.ryOrigin = lens
+			ray.d = geo.normalize(Pfoc - lens)
+			ray.rxDirection = geo.normalize(Pfoc + self.dxCam - lens)
+			ray.ryDirection = geo.normalize(Pfoc + self.dyCam - lens)
 
-		return [wt, rd]
+		else:
+			ray.rxOrigin = p_cam + self.dxCam
+			ray.ryOrigin = p_cam + self.dyCam
+			ray.rxDirection = ray.ryDirection = ray.d
+
+		ray.time = sample.time
+		ray.has_differentials = True
+		return [1., self.c2w(ray)]
 
 
 class PerspectiveCamera(ProjectiveCamera):
-- 
2.43.0


From 48000516cd39344d9458eefe376f9668beda6033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:43 +0000
Subject: [PATCH 071/164] Fresnel term for parallel polarisation

---
 pytracer/reflection/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/reflection/utility.py b/pytracer/reflection/utility.py
index 419fdb5..0163a9e 100644
--- a/pytracer/reflection/utility.py
+++ b/pytracer/reflection/utility.py
@@ -51,7 +51,7 @@ def fr_diel(cos_i: FLOAT, cos_t: FLOAT, eta_i: 'Spectrum', eta_t: 'Spectrum') ->
 	dielectric materials and circularly polarized light
 	"""
 	r_para = ((eta_t * cos_i ) - (eta_i * cos_t)) / \
-				((eta_t * cos_i) + (eta_t * cos_t))
+				((eta_t * cos_i) + (eta_i * cos_t))
 	r_perp = ((eta_i * cos_i) - (eta_t * cos_t)) / \
 				((eta_i * cos_i) + (eta_t * cos_t))
 	return .5 * (r_para * r_para + r_perp * r_perp)
-- 
2.43.0


From 4c9b0d0185b2c83d0496a22096acd76a3d58564b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:43 +0000
Subject: [PATCH 072/164] scaled scattering functions forward to their lobe

---
 pytracer/reflection/bdf/bdf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index ead8b4a..b7ef788 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -214,16 +214,16 @@ class ScaledBDF(BDF):
 		self.s = sc
 
 	# scale by spectrum
-	def f(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.s * self.brdf.f(wo, wi)
+	def f(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.s * self.bdf.f(wo, wi)
 
 	def sample_f(self, wo: 'geo.Vector', u1: FLOAT, u2: FLOAT):
-		pdf, wi, f = self.brdf.sample_f(wo, u1, u2)
-		return pdf, wi, self.s * f
+		pdf, wi, f = self.bdf.sample_f(wo, u1, u2)
+		return pdf, wi, self.s * f if f is not None else None
 
-	def rho_hd(self, wo: 'geo.Vector', samples: [FLOAT]): return self.s * self.brdf.rho_hd(wo, samples)
+	def rho_hd(self, wo: 'geo.Vector', samples: [FLOAT]): return self.s * self.bdf.rho_hd(wo, samples)
 
 	def rho_hh(self, nSamples: INT, samples_1: [FLOAT],
-					samples_2: [FLOAT]): return self.s * self.brdf.rho_hh(nSamples, samples_1, samples_2)
+					samples_2: [FLOAT]): return self.s * self.bdf.rho_hh(nSamples, samples_1, samples_2)
 
 
 class SpecularReflection(BDF):
-- 
2.43.0


From c8dbc5249566e924339fe91ea7c4f13c4e4a27d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:43 +0000
Subject: [PATCH 073/164] microfacet values are never negative or undefined

---
 pytracer/reflection/bdf/torrance.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pytracer/reflection/bdf/torrance.py b/pytracer/reflection/bdf/torrance.py
index 0da86c2..dc0ddd5 100644
--- a/pytracer/reflection/bdf/torrance.py
+++ b/pytracer/reflection/bdf/torrance.py
@@ -198,14 +198,17 @@ class Microfacet(BDF):
 		self.distribution = d
 
 	def f(self, wo: 'geo.Vector', wi: 'geo.Vector') -> 'Spectrum':
-		ct_i = cos_theta(wi)
-		ct_o = cos_theta(wo)
+		ct_i = abs_cos_theta(wi)
+		ct_o = abs_cos_theta(wo)
 
 		if ct_i == 0. or ct_o == 0.:
 			return Spectrum(0.)
 
 		wh = geo.normalize(wi + wo)
 		ct_h = wi.dot(wh)
+		if ct_h == 0.:
+			# opposite directions have no half-angle
+			return Spectrum(0.)
 		F = self.fresnel(ct_h)
 
 		return self.R * self.distribution.D(wh) * self.G(wo, wi, wh) * \
-- 
2.43.0


From 0bcf5a82f8887c40095430affb85d2ac0ce71671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:43 +0000
Subject: [PATCH 074/164] layered scattering is defined for opposite directions

---
 pytracer/reflection/bdf/fresnelblend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytracer/reflection/bdf/fresnelblend.py b/pytracer/reflection/bdf/fresnelblend.py
index a9abf7b..e0a8c21 100644
--- a/pytracer/reflection/bdf/fresnelblend.py
+++ b/pytracer/reflection/bdf/fresnelblend.py
@@ -67,6 +67,9 @@ class FresnelBlend(BDF):
 		          (1. - np.power(1. - .5 * abs_cos_theta(wo), 5))
 
 		wh = geo.normalize(wi + wo)
+		if wi.dot(wh) == 0.:
+			# opposite directions have no half-angle
+			return diffuse
 
 		specular = self.distribution.D(wh) / \
 		           (4. * wi.abs_dot(wh) * max(abs_cos_theta(wi), abs_cos_theta(wo))) * \
-- 
2.43.0


From 763dae2a6debf1188ff053b0eb6b108033ee575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 075/164] an empty set of scattering kinds is false

---
 pytracer/reflection/bdf/bdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index b7ef788..edae2c9 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -36,6 +36,9 @@ class BDFType():
 	def __repr__(self):
 		return "{}\nEnum: {}".format(self.__class__, self.v)
 
+	def __bool__(self):
+		return bool(self.v)
+
 	def __invert__(self):
 		return BDFType(~self.v)
 
-- 
2.43.0


From bbdeb9305d1daca462bfc94591ddde3d9fd9321e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 076/164] local directions go back to world space

---
 pytracer/reflection/bsdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/reflection/bsdf.py b/pytracer/reflection/bsdf.py
index 49c322a..82e9fe7 100644
--- a/pytracer/reflection/bsdf.py
+++ b/pytracer/reflection/bsdf.py
@@ -200,9 +200,9 @@ class BSDF(object):
 		Transform a `geo.Vector` in the local system
 		to the world system
 		"""
-		return geo.Vector(self.sn.x * v.x + self.tn.x * v.x + self.nn.x * v.x,
-		                  self.sn.y * v.y + self.tn.y * v.y + self.nn.y * v.y,
-		                  self.sn.z * v.z + self.tn.z * v.z + self.nn.z * v.z)
+		return geo.Vector(self.sn.x * v.x + self.tn.x * v.y + self.nn.x * v.z,
+		                  self.sn.y * v.x + self.tn.y * v.y + self.nn.y * v.z,
+		                  self.sn.z * v.x + self.tn.z * v.y + self.nn.z * v.z)
 
 	def f(self, wo_w: 'geo.Vector', wi_w: 'geo.Vector', flags: 'BDFType' = BDFType.ALL) -> 'Spectrum':
 		wi = self.w2l(wi_w)
-- 
2.43.0


From 1230f2213b39620adf2bc6a979865a431930d75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 077/164] the reported reflectance is taken in the local frame

---
 pytracer/reflection/bsdf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytracer/reflection/bsdf.py b/pytracer/reflection/bsdf.py
index 82e9fe7..03ca8f7 100644
--- a/pytracer/reflection/bsdf.py
+++ b/pytracer/reflection/bsdf.py
@@ -233,6 +233,7 @@ class BSDF(object):
 		nSamples = sqrt_samples * sqrt_samples
 		smp = stratified_sample_2d(sqrt_samples, sqrt_samples, rng=rng)
 
+		wo = self.w2l(wo)
 		sp = Spectrum(0.)
 		for bdf in self.bdfs:
 			if bdf.match_flag(flags):
-- 
2.43.0


From fee6f403587d5a64605548ac22176d5473f51b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:52 +0000
Subject: [PATCH 078/164] refraction bends the right way

---
 pytracer/reflection/bdf/bdf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index edae2c9..3a3dd4d 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -288,7 +288,8 @@ class SpecularTransmission(BDF):
 	             u2: FLOAT) -> [FLOAT, 'geo.Vector', 'Spectrum']:
 		# find eta pair
 		ei, et = self.ei, self.et
-		if cos_theta(wo) > 0.:
+		if cos_theta(wo) < 0.:
+			# leaving the surface
 			ei, et = et, ei
 
 		# compute transmited ray direction
@@ -306,7 +307,7 @@ class SpecularTransmission(BDF):
 
 		F = self.fresnel(cos_theta(wo))
 
-		return [1., wi, (et * et) / (ei * ei) * (Spectrum(1.) - F) * \
+		return [1., wi, (ei * ei) / (et * et) * (Spectrum(1.) - F) * \
 		        self.T / abs_cos_theta(wi)]  # 1. suggests no MC samples needed
 
 
-- 
2.43.0


From a895826a5d5eaec5cca6edc32ddb79403fcd4623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:19 +0000
Subject: [PATCH 079/164] wrapped lobes report the density of the lobe they
 wrap

---
 pytracer/reflection/bdf/bdf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index 3a3dd4d..cf87184 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -193,6 +193,8 @@ class BRDF2BTDF(BDF):
 	# forward function calls
 	def f(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.brdf.f(wo, self.switch(wi))
 
+	def pdf(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.brdf.pdf(wo, self.switch(wi))
+
 	def sample_f(self, wo: 'geo.Vector', u1: FLOAT,  u2: FLOAT):
 		pdf, wi, f = self.brdf.sample_f(wo, u1, u2)
 		return pdf, self.switch(wi), f
@@ -219,6 +221,8 @@ class ScaledBDF(BDF):
 	# scale by spectrum
 	def f(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.s * self.bdf.f(wo, wi)
 
+	def pdf(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.bdf.pdf(wo, wi)
+
 	def sample_f(self, wo: 'geo.Vector', u1: FLOAT, u2: FLOAT):
 		pdf, wi, f = self.bdf.sample_f(wo, u1, u2)
 		return pdf, wi, self.s * f if f is not None else None
-- 
2.43.0


From 8129683c078234c232db8cdcde9ea491ce50d8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:25 +0000
Subject: [PATCH 080/164] fix: black diffuse and glossy colours add no lobe

---
 pytracer/material/material.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 456e7fd..aa49b77 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -130,8 +130,10 @@ class MatteMaterial(Material):
 		bsdf = BSDF(dgs, dg_g.nn)
 
 		# evaluate textures
-		r = util.clip(self.Kd(dgs))
+		r = self.Kd(dgs).clip()
 		sigma = np.clip(self.sigma(dgs), 0., 90.)
+		if r.is_black():
+			return bsdf
 		if sigma == 0.:
 			# use Lambertian
 			bsdf.push_back(Lambertian(r))
@@ -175,16 +177,15 @@ class PlasticMaterial(Material):
 
 		# diffuse
 		kd = self.Kd(dgs).clip()
-		diff = Lambertian(kd)
-		fresnel = FresnelDielectric(1.5, 1.)
+		if not kd.is_black():
+			bsdf.push_back(Lambertian(kd))
 
 		# glossy specular
 		ks = self.Ks(dgs).clip()
-		rough = self.roughness(dgs)
-		spec = Microfacet(ks, fresnel, Blinn(1. / rough))
-
-		bsdf.push_back(diff)
-		bsdf.push_back(spec)
+		if not ks.is_black():
+			fresnel = FresnelDielectric(1.5, 1.)
+			rough = self.roughness(dgs)
+			bsdf.push_back(Microfacet(ks, fresnel, Blinn(1. / rough)))
 
 		return bsdf
 
-- 
2.43.0


From b47e643d917cc7b1d321b85ea7df1078e077bb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:25 +0000
Subject: [PATCH 081/164] fix: plastic and uber surfaces are denser than the
 outside

---
 pytracer/material/material.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index aa49b77..f32c280 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -183,7 +183,7 @@ class PlasticMaterial(Material):
 		# glossy specular
 		ks = self.Ks(dgs).clip()
 		if not ks.is_black():
-			fresnel = FresnelDielectric(1.5, 1.)
+			fresnel = FresnelDielectric(1., 1.5)
 			rough = self.roughness(dgs)
 			bsdf.push_back(Microfacet(ks, fresnel, Blinn(1. / rough)))
 
@@ -349,18 +349,18 @@ class UberMaterial(Material):
 		e = self.eta(dgs)
 		ks = op * self.Ks(dgs).clip()
 		if not ks.is_black():
-			fresnel = FresnelDielectric(e, 1.)
+			fresnel = FresnelDielectric(1., e)
 			rough = self.roughness(dgs)
 			bsdf.push_back(Microfacet(ks, fresnel,Blinn(1. / rough)))
 
 		kr = op * self.Kr(dgs).clip()
 		if not kr.is_black():
-			fresnel = FresnelDielectric(e, 1.)
+			fresnel = FresnelDielectric(1., e)
 			bsdf.push_back(SpecularReflection(kr, fresnel))
 
 		kt = op * self.Kt(dgs).clip()
 		if not kt.is_black():
-			bsdf.push_back(SpecularTransmission(kt, e, 1.))
+			bsdf.push_back(SpecularTransmission(kt, 1., e))
 
 		return bsdf
 
-- 
2.43.0


From bf9b9a816f3edf33b51c3b96906bd9e8ddc2ee49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:25 +0000
Subject: [PATCH 082/164] fix: an opacity above one lets nothing through

---
 pytracer/material/material.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index f32c280..503350f 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -339,8 +339,9 @@ class UberMaterial(Material):
 		bsdf = BSDF(dgs, dg_g.nn)
 		op = self.opacity(dgs).clip()   # op: Spectrum
 
-		if not op == [1., 1., 1.]:
-			bsdf.push_back(SpecularTransmission((1. - op), 1., 1.))
+		t = (1. - op).clip()
+		if not t.is_black():
+			bsdf.push_back(SpecularTransmission(t, 1., 1.))
 
 		kd = op * self.Kd(dgs).clip()
 		if not kd.is_black():
-- 
2.43.0


From 76b327fad89e10a97bae28245c75a87088b30f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:25 +0000
Subject: [PATCH 083/164] fix: subsurface materials evaluate their reflection

---
 pytracer/material/material.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 503350f..37e71e2 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -548,10 +548,10 @@ class SubsurfaceMaterial(Material):
 			dgs = Material.bump(self.bump_map, dg_g, dg_s)
 		else:
 			dgs = dg_s.copy()
-		util.clip(R = self.kr(dgs))
+		R = self.kr(dgs).clip()
 		bsdf = BSDF(dgs, dg_g.nn)
 
-		if not util.is_black(R):
+		if not R.is_black():
 			bsdf.push_back(SpecularReflection(R, FresnelDielectric(1., self.eta(dgs))))
 
 		return bsdf
@@ -589,10 +589,10 @@ class KdSubsurfaceMaterial(Material):
 		else:
 			dgs = dg_s.copy()
 
-		R = util.clip(self.kr(dgs))
+		R = self.kr(dgs).clip()
 		bsdf = BSDF(dgs, dg_g.nn)
 
-		if not util.is_black(R):
+		if not R.is_black():
 			bsdf.push_back(SpecularReflection(R, FresnelDielectric(1., self.eta(dgs))))
 
 		return bsdf
-- 
2.43.0


From a27458ed838f6c13a57e2dd79184fae5b656a859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:25 +0000
Subject: [PATCH 084/164] fix: mixtures iterate over the lobes of their members

---
 pytracer/material/material.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 37e71e2..3ae3e62 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -394,9 +394,9 @@ class MixMaterial(Material):
 		s1 = self.scale(dg_s).clip()
 		s2 = (Spectrum(1.) - s1).clip()
 
-		for i, b in b1.bdfs:
+		for i, b in enumerate(b1.bdfs):
 			b1.bdfs[i] = ScaledBDF(b, s1)
-		for i, b in b2.bdfs:
+		for b in b2.bdfs:
 			b1.push_back(ScaledBDF(b, s2))
 
 		return b1
-- 
2.43.0


From 844f62cc8ed3cafe4697efbffe75e7412d03a32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:25 +0000
Subject: [PATCH 085/164] fix: bump mapping divides by the shift it made and
 builds vectors

---
 pytracer/material/material.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 3ae3e62..fe3f1c3 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -72,7 +72,7 @@ class Material(object, metaclass=ABCMeta):
 
 		# shift du in v
 		dv = .5 * (np.fabs(dgs.dvdx) + np.fabs(dgs.dvdy))
-		if dv == 0.1:
+		if dv == 0.:
 			dv = 0.01
 		dg.p = dgs.p + dv * dgs.dpdv
 		dg.u = dgs.u
@@ -87,10 +87,10 @@ class Material(object, metaclass=ABCMeta):
 		dg = dgs.copy()
 
 		# geo.Vector * geo.Normal -> geo.Vector
-		dg.dpdu = dgs.dpdu + (u_disp - disp) / du * dgs.nn + disp * geo.Vector.fromNormal(dgs.dndu)
-		dg.dpdv = dgs.dpdv + (v_disp - disp) / dv * dgs.nn + disp * geo.Vector.fromNormal(dgs.dndv)
+		dg.dpdu = dgs.dpdu + (u_disp - disp) / du * dgs.nn + disp * geo.Vector.from_arr(dgs.dndu)
+		dg.dpdv = dgs.dpdv + (v_disp - disp) / dv * dgs.nn + disp * geo.Vector.from_arr(dgs.dndv)
 		dg.nn = geo.Normal.from_arr(geo.normalize(dg.dpdu.cross(dg.dpdv)))
-		if dgs.shape.ro ^ dgs.shape.transform_swaps_handedness:
+		if dgs.shape is not None and (dgs.shape.ro ^ dgs.shape.transform_swaps_handedness):
 			dg.nn *= -1.
 
 		# orient shding normal to match goemtric normal
-- 
2.43.0


From e07d82d599717a420f8c557d705bd129564f3f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:00 +0000
Subject: [PATCH 086/164] fix: the bumped normal faces the geometric normal

---
 pytracer/material/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index fe3f1c3..c8c61c5 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -94,7 +94,7 @@ class Material(object, metaclass=ABCMeta):
 			dg.nn *= -1.
 
 		# orient shding normal to match goemtric normal
-		dg.nn = geo.face_forward(dg.nn, dgg.nn)
+		dg.nn = geo.face_forward(dg.nn, geo.Vector.from_arr(dgg.nn))
 
 		return dg
 
-- 
2.43.0


From 9ebc0860dfa5a99eee7c347dcb06caaa394812fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:52 +0000
Subject: [PATCH 087/164] fix: band averages stop at the end of the band

---
 pytracer/spectral/spectrum.py | 38 +++++------------------------------
 1 file changed, 5 insertions(+), 33 deletions(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index afc93b4..b1274e3 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -456,39 +456,11 @@ class SampledSpectrum(CoefficientSpectrum):
 		if le > lam[-1]:
 			v_sum += v[-1] * (le - lam[-1])
 
-		# advance to the first and last contributable wavelength
-		idx_lo = np.searchsorted(lam, ls) - 1
-		idx_hi = np.searchsorted(lam, le) # due to np.searchsorted implementation
-
-		if idx_lo >= 0:
-			bk_lam_lo = lam[idx_lo]
-			bk_v_lo = v[idx_lo]
-			v[idx_lo] = util.lerp( (ls - bk_lam_lo) / (lam[idx_lo+1] - bk_lam_lo), v[idx_lo], v[idx_lo+1])
-			lam[idx_lo] = ls			
-		else:
-			idx_lo = 0
-			bk_lam_lo = lam[idx_lo]
-			bk_v_lo = v[idx_lo]
-
-		if idx_hi < len(lam) and lam[idx_hi] != le:
-			bk_lam_hi = lam[idx_hi]
-			bk_v_hi = v[idx_hi]
-			v[idx_hi] = util.lerp((bk_lam_hi - le) / (lam[idx_hi] - lam[idx_hi-1]), v[idx_hi], v[idx_hi-1])
-			lam[idx_hi] = le
-			idx_hi += 1
-		else:
-			idx_hi = len(lam)
-			bk_lam_hi = lam[-1]
-			bk_v_hi = v[-1]
-
-		# integrate using trapezoidal rule
-		v_sum += np.trapz(v[idx_lo:idx_hi], lam[idx_lo:idx_hi])
-
-		# clean-up
-		lam[idx_lo] = bk_lam_lo
-		lam[idx_hi-1] = bk_lam_hi
-		v[idx_lo] = bk_v_lo
-		v[idx_hi-1] = bk_v_hi
+		# integrate using trapezoidal rule, over the tabulated
+		# wavelengths inside and the ends of the covered range
+		lam, v = np.asarray(lam, dtype=FLOAT), np.asarray(v, dtype=FLOAT)
+		x = np.concatenate(([max(ls, lam[0])], lam[(lam > ls) & (lam < le)], [min(le, lam[-1])]))
+		v_sum += np.trapz(np.interp(x, lam, v), x)
 
 		return v_sum / (le - ls)
 
-- 
2.43.0


From a30630faff2ea7f5647f0cbc6b9e04c0bb196530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:53 +0000
Subject: [PATCH 088/164] fix: bands of sampled data end where the next begins

---
 pytracer/spectral/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index b1274e3..089cfc4 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -421,7 +421,7 @@ class SampledSpectrum(CoefficientSpectrum):
 		self = cls()
 		for i in range(N_SPECTRAL_SAMPLES):
 			l0 = util.lerp(i / N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START, SAMPLED_LAMBDA_END)
-			l1 = util.lerp(i+1 / N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START, SAMPLED_LAMBDA_END)
+			l1 = util.lerp((i+1) / N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START, SAMPLED_LAMBDA_END)
 			self[i] = cls.average_spectrum_samples(lam, v, l0, l1)
 
 		return self
-- 
2.43.0


From 2bf5df185df4e3bf7486efc4e5032f499e2ae190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:53 +0000
Subject: [PATCH 089/164] fix: spectra from RGB mix the right basis curves

---
 pytracer/spectral/spectrum.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index 089cfc4..f29c40f 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -471,31 +471,23 @@ class SampledSpectrum(CoefficientSpectrum):
 
 		if tp == SpectrumType.REFLECTANCE:
 			# reflectance spectrum from RGB
-			if lo == 0:
-				spec = [cls.rgbRefl2SpectCyan, cls.rgbRefl2SpectGreen, cls.rgbRefl2SpectBlue]
-			elif lo == 1:
-				spec = [cls.rgbRefl2SpectMagenta, cls.rgbRefl2SpectRed, cls.rgbRefl2SpectBlue]
-			else:
-				spec = [cls.rgbRefl2SpectYellow, cls.rgbRefl2SpectRed, cls.rgbRefl2SpectGreen]
+			secondary = [cls.rgbRefl2SpectCyan, cls.rgbRefl2SpectMagenta, cls.rgbRefl2SpectYellow]
+			primary = [cls.rgbRefl2SpectRed, cls.rgbRefl2SpectGreen, cls.rgbRefl2SpectBlue]
 
 			self += rgb[lo] * cls.rgbRefl2SpectWhite
-			self += (rgb[me] - rgb[lo]) * spec[lo]
-			self += (rgb[hi] - rgb[me]) * spec[hi]
+			self += (rgb[me] - rgb[lo]) * secondary[lo]
+			self += (rgb[hi] - rgb[me]) * primary[hi]
 
 			self *= .94
 
 		elif tp == SpectrumType.ILLUMINANT:
 			# illuminance spectrum
-			if lo == 0:
-				spec = [cls.rgbIllum2SpectCyan, cls.rgbIllum2SpectGreen, cls.rgbIllum2SpectBlue]
-			elif lo == 1:
-				spec = [cls.rgbIllum2SpectMagenta, cls.rgbIllum2SpectRed, cls.rgbIllum2SpectBlue]
-			else:
-				spec = [cls.rgbIllum2SpectYellow, cls.rgbIllum2SpectRed, cls.rgbIllum2SpectGreen]
+			secondary = [cls.rgbIllum2SpectCyan, cls.rgbIllum2SpectMagenta, cls.rgbIllum2SpectYellow]
+			primary = [cls.rgbIllum2SpectRed, cls.rgbIllum2SpectGreen, cls.rgbIllum2SpectBlue]
 
 			self += rgb[lo] * cls.rgbIllum2SpectWhite
-			self += (rgb[me] - rgb[lo]) * spec[lo]
-			self += (rgb[hi] - rgb[me]) * spec[hi]
+			self += (rgb[me] - rgb[lo]) * secondary[lo]
+			self += (rgb[hi] - rgb[me]) * primary[hi]
 
 			self *= .86445
 
-- 
2.43.0


From b804c65b3873e504c58013a3d6e9462449bbb6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:53 +0000
Subject: [PATCH 090/164] fix: a colour can be created from three numbers

---
 pytracer/spectral/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index f29c40f..6e4d81f 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -544,7 +544,7 @@ class RGBSpectrum(CoefficientSpectrum):
 
 		elif isinstance(arg, Iterable):
 			if np.ndim(arg) == 1 and np.shape(arg)[0] == 3:
-				return np.ndarray(arg).view(cls)
+				return np.array(arg).view(cls)
 
 		raise TypeError('Unsupported type {} for init {}'.format(type(arg), cls))
 
-- 
2.43.0


From 285a107697417ada702adc101a98ba33b358356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 091/164] fix: colours made of whole numbers are colours

---
 pytracer/spectral/spectrum.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index 6e4d81f..3b51606 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -49,7 +49,7 @@ class CoefficientSpectrum(np.ndarray, metaclass=ABCMeta):
 	`SampledSpectrum`
 	"""
 	def __new__(cls, n_samples: (INT, UINT), v: (FLOAT, float)=0.):
-		return np.full(n_samples, v).view(cls)
+		return np.full(n_samples, v, dtype=FLOAT).view(cls)
 
 	def __init__(self, n_samples: (INT, UINT), v: (FLOAT, float) = 0.):
 		pass
@@ -73,26 +73,26 @@ class CoefficientSpectrum(np.ndarray, metaclass=ABCMeta):
 
 	@classmethod
 	def create_from_array(cls, arr: 'np.ndarray'):
-		return arr.copy().view(cls)
+		return arr.astype(FLOAT).view(cls)
 
 	@classmethod
 	def create_from_list(cls, lst: list):
-		return np.array(lst).view(cls)
+		return np.array(lst, dtype=FLOAT).view(cls)
 
 	@classmethod
 	def create(cls, arg):
 		"""Creates from arg. Specific factory methods are preferred."""
 		if isinstance(arg, CoefficientSpectrum):
-			return arg.copy().view(cls)
+			return arg.astype(FLOAT).view(cls)
 
 		elif isinstance(arg, Iterable):
 			if not np.ndim(arg) == 1:
 				raise TypeError('{}-d np array cannot init {}'.format(np.ndim(arg), cls))
 
 			if isinstance(arg, np.ndarray):
-				return arg.copy().view(cls)
+				return arg.astype(FLOAT).view(cls)
 
-			return np.array(arg).view(cls)
+			return np.array(arg, dtype=FLOAT).view(cls)
 
 		else:
 			raise TypeError('Unsupported type {} for init {}'.format(type(arg), cls))
@@ -286,7 +286,7 @@ class SampledSpectrum(CoefficientSpectrum):
 		if v is None:
 			return np.full(N_SPECTRAL_SAMPLES, 0.).view(cls)
 		elif isinstance(v, Iterable):
-			return np.array(v).view(cls)
+			return np.array(v, dtype=FLOAT).view(cls)
 		raise TypeError('Unsupported type {} while initializing {}'.format(type(v), __class__))
 
 	def __init__(self, v: Iterable=None):
@@ -518,7 +518,7 @@ class RGBSpectrum(CoefficientSpectrum):
 	model RGB spectrum.
 	"""
 	def __new__(cls, v: FLOAT=0.):
-		return np.full(3, v).view(cls)
+		return np.full(3, v, dtype=FLOAT).view(cls)
 		# raise TypeError('Unsupported type {} while initializing {}'.format(type(v), __class__))
 
 	def __init__(self, v=0.):
@@ -530,21 +530,21 @@ class RGBSpectrum(CoefficientSpectrum):
 
 	@classmethod
 	def create_from_array(cls, arr: 'np.ndarray'):
-		return arr.copy().view(cls)
+		return arr.astype(FLOAT).view(cls)
 
 	@classmethod
 	def create_from_list(cls, lst: list):
-		return np.array(lst).view(cls)
+		return np.array(lst, dtype=FLOAT).view(cls)
 
 	@classmethod
 	def create(cls, arg):
 		"""Create from arg. Specific factory methods are preferred."""
 		if isinstance(arg, CoefficientSpectrum) and arg.n_samples == 3:
-			return arg.copy().view(cls)
+			return arg.astype(FLOAT).view(cls)
 
 		elif isinstance(arg, Iterable):
 			if np.ndim(arg) == 1 and np.shape(arg)[0] == 3:
-				return np.array(arg).view(cls)
+				return np.array(arg, dtype=FLOAT).view(cls)
 
 		raise TypeError('Unsupported type {} for init {}'.format(type(arg), cls))
 
-- 
2.43.0


From 77a723476eebdb73b0b9beb10f6db5db1ba89556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:24 +0000
Subject: [PATCH 092/164] fix: tabulated measurements are indexed by cell

---
 pytracer/reflection/bdf/measured.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/reflection/bdf/measured.py b/pytracer/reflection/bdf/measured.py
index 1c19ca7..a6f77c7 100644
--- a/pytracer/reflection/bdf/measured.py
+++ b/pytracer/reflection/bdf/measured.py
@@ -100,9 +100,9 @@ class ReHalfangleBRDF(BDF):
 		wdp = geo.spherical_phi(wd)
 		if wdp > PI:
 			wdp -= PI
-		wht_idx = np.clip(INT((np.sqrt(max(0., t / (PI / 2.)))) / self.nThetaH), 0, self.nThetaH - 1)
+		wht_idx = np.clip(INT(np.sqrt(max(0., t / (PI / 2.))) * self.nThetaH), 0, self.nThetaH - 1)
 
-		wdt_idx = np.clip(INT(wdt / (self.nThetaD * PI)), 0, self.nThetaD - 1)
+		wdt_idx = np.clip(INT(wdt / (PI / 2.) * self.nThetaD), 0, self.nThetaD - 1)
 
-		wdp_idx = np.clip(INT(wdp / (self.nPhiD * PI)), 0, self.nPhiD - 1)
+		wdp_idx = np.clip(INT(wdp / PI * self.nPhiD), 0, self.nPhiD - 1)
 		return Spectrum.from_rgb(self.brdf[wht_idx][wdt_idx][wdp_idx])
-- 
2.43.0


From cd42571e1ae41bcb1c17e898e0d052367cb90511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:24 +0000
Subject: [PATCH 093/164] fix: tabulated measurements are read from below as
 from above

---
 pytracer/reflection/bdf/measured.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytracer/reflection/bdf/measured.py b/pytracer/reflection/bdf/measured.py
index a6f77c7..f21d6b2 100644
--- a/pytracer/reflection/bdf/measured.py
+++ b/pytracer/reflection/bdf/measured.py
@@ -85,6 +85,8 @@ class ReHalfangleBRDF(BDF):
 	def f(self, wo: 'geo.Vector', wi: 'geo.Vector') -> 'Spectrum':
 		# find wh and transform wi to halfangle coord. system
 		wh = geo.normalize(wi + wo)
+		if wh.z < 0.:
+			wi, wh = -wi, -wh
 
 		t = geo.spherical_theta(wh)
 		cp = cos_phi(wh)
-- 
2.43.0


From f7b17aa3d1138f94761785689ff8e5f0ca8b840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:24 +0000
Subject: [PATCH 094/164] fix: a measurement loaded again keeps its samples

---
 pytracer/material/material.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index c8c61c5..24eca06 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -431,9 +431,10 @@ class MeasuredMaterial(Material):
 
 		# Irregular Sampled Isotropic BRDF
 		if ext == '.brdf' or ext == '.BRDF':
-			if file in IrIsotropicData:
+			key = os.path.abspath(filename)
+			if key in IrIsotropicData:
 				# already read
-				self.theta_phi_sample, self.theta_phi_tree = IrIsotropicData[file]
+				self.theta_phi_samples, self.theta_phi_tree = IrIsotropicData[key]
 				return
 
 			# read file
@@ -484,7 +485,7 @@ class MeasuredMaterial(Material):
 
 			self.theta_phi_samples = np.array(samples, dtype=object)
 			self.theta_phi_tree = KdTree(tree_data)
-			IrIsotropicData[file] = [self.theta_phi_samples, self.theta_phi_tree]
+			IrIsotropicData[key] = [self.theta_phi_samples, self.theta_phi_tree]
 
 		elif ext == '.binary':
 			# Regular Halfangle BRDF
-- 
2.43.0


From 1388825a64979741416342f2d2ee6c8babaa7fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:24 +0000
Subject: [PATCH 095/164] fix: comments of measurement files need no blank

---
 pytracer/material/material.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 24eca06..002c9d4 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -446,8 +446,8 @@ class MeasuredMaterial(Material):
 			val = []
 			with open(filename, 'r') as f:
 				for line in f:
-					line = line.split()
-					if not len(line) or line[0] == '#':
+					line = line.split('#')[0].split()
+					if not len(line):
 						# skip comments
 						continue
 					val.extend(np.array(line).astype(FLOAT))
-- 
2.43.0


From ece1e8cc5efe320d410a4922a0237b841c1e0ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 096/164] fix: the power of a light can be asked for

---
 pytracer/light/light.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index ecc0966..906567f 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -81,7 +81,6 @@ class Light(object, metaclass=ABCMeta):
 		raise NotImplementedError('src.core.light.{}.pdf(): abstract method '
 									'called'.format(self.__class__)) 		
 
-	@property
 	@abstractmethod
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
@@ -144,7 +143,6 @@ class PointLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		return 4. * PI * self.intensity
 
@@ -207,7 +205,6 @@ class SpotLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
 		power()
@@ -316,7 +313,6 @@ class ProjectionLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
 		power()
@@ -401,7 +397,6 @@ class GonioPhotometricLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		return 4. * PI * self.intensity * Spectrum(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
 
@@ -451,7 +446,6 @@ class DistantLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
 		power()
@@ -539,7 +533,6 @@ class DiffuseAreaLight(Light):
 
 
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		return self.emit * self.area * PI
 
@@ -677,7 +670,6 @@ class InfiniteAreaLight(Light):
 
 		return [ray, Ns, pdf, Spectrum.from_rgb(self.radMap.look_up([uv[0], uv[1]]), SpectrumType.ILLUMINANT)]
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		_, rad = scene.world_bound().bounding_sphere()
 		return PI * rad * rad * Spectrum.from_rgb(self.radMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
-- 
2.43.0


From 8201004a2ca5ffd0d57a139be07353f1c1498445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 097/164] fix: rays leaving lights carry their direction as
 normal

---
 pytracer/light/light.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 906567f..25e8e07 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -137,7 +137,7 @@ class PointLight(Light):
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
 						0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity]
 
@@ -199,7 +199,7 @@ class SpotLight(Light):
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
 		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__falloff(ray.d)]
 
@@ -307,7 +307,7 @@ class ProjectionLight(Light):
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
 		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__projection(ray.d)]
 
@@ -391,7 +391,7 @@ class GonioPhotometricLight(Light):
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
 						0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity * self.__scale(ray.d)]
 
@@ -440,7 +440,7 @@ class DistantLight(Light):
 
 		# set ray
 		ray = geo.Ray(pnt + rad * self.di, -self.di, 0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = 1. / (PI * rad * rad)
 		return [ray, Ns, pdf, self.l]
 
@@ -650,7 +650,7 @@ class InfiniteAreaLight(Light):
 		sp = np.sin(phi)
 		cp = np.cos(phi)
 		d = -self.l2w(geo.Vector(st * cp, st * sp, ct))
-		Ns = geo.Normal.fromVector(d)
+		Ns = geo.Normal.from_arr(d)
 
 		# choose point on disk oriented towards light
 		ctr, rad = scene.world_bound().bounding_sphere()
-- 
2.43.0


From ff6905d29092b1405e509f6a9e21430cb6730f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 098/164] fix: spot lights fall off with the cone and with
 distance

---
 pytracer/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 25e8e07..3509e54 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -191,7 +191,7 @@ class SpotLight(Light):
 		pdf = 1.
 		vis = VisibilityTester()
 		vis.set_segment(p, pEps, self.pos, 0., time)
-		return [self.intensity / self.__falloff(-wi), wi, pdf, vis]
+		return [self.intensity * self.__falloff(-wi) / (self.pos - p).sq_length(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
-- 
2.43.0


From 596e4f7165b0aacc43c27d1d7a4e6d115b5700bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 099/164] fix: shadow rays of directional lights are formed

---
 pytracer/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 3509e54..260102e 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -422,7 +422,7 @@ class DistantLight(Light):
 		wi = self.di.copy()
 		pdf = 1.
 		vis = VisibilityTester()
-		vis.set_ray(p, pEps, self.pos, wi, time)
+		vis.set_ray(p, pEps, wi, time)
 		return [self.l.copy(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
-- 
2.43.0


From c0f1bb382bc71d6214ae548ef3b9790d37be19e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 100/164] fix: the area of an area light is one number

---
 pytracer/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 260102e..ff52244 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -492,7 +492,7 @@ class DiffuseAreaLight(Light):
 		super().__init__(l2w, ns)
 		self.emit = emit
 		self.shape_set = ShapeSet(shape)
-		self.area = self.shape_set.areas
+		self.area = self.shape_set.sum_area
 
 	# debugging purposes only
 	def le(self, rd: 'geo.RayDifferential'):
-- 
2.43.0


From 7925fe31b2e483eb0c17a569576a221c5d267e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 101/164] fix: rays that miss an area light do not see it

---
 pytracer/light/light.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index ff52244..a9fe650 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -494,10 +494,6 @@ class DiffuseAreaLight(Light):
 		self.shape_set = ShapeSet(shape)
 		self.area = self.shape_set.sum_area
 
-	# debugging purposes only
-	def le(self, rd: 'geo.RayDifferential'):
-		return self.emit
-
 	def l(self, p: 'geo.Point', n: 'geo.Normal', w: 'geo.Vector') -> 'Spectrum':
 		return self.emit if n.dot(w) > 0. else Spectrum(0.)
 
-- 
2.43.0


From 638df73b8ec53f290ca528af6b2849a98df4cf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 102/164] fix: rays leaving area lights have the density of a
 point of the area

---
 pytracer/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index a9fe650..a156d3d 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -522,7 +522,7 @@ class DiffuseAreaLight(Light):
 		if di.dot(Ns) < 0.:
 			di *= -1.
 		ray = geo.Ray(org, di, EPS, np.inf, time)
-		pdf = self.shape_set.pdf(org) * INV_2PI
+		pdf = self.shape_set.pdf_p(org) * INV_2PI
 		return [ray, Ns, pdf, self.l(org, Ns, di)]
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return self.shape_set.pdf(p, wi)
-- 
2.43.0


From 9a6edfd26290b995288610a5e6c1705f8d25904b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:20 +0000
Subject: [PATCH 103/164] fix: rays leaving lights carry the requested time

---
 pytracer/light/light.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index a156d3d..0daabcc 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -136,7 +136,7 @@ class PointLight(Light):
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
-						0., np.inf, time)
+						0., np.inf, time=time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity]
@@ -198,7 +198,7 @@ class SpotLight(Light):
 		
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
-		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time)
+		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time=time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__falloff(ray.d)]
@@ -306,7 +306,7 @@ class ProjectionLight(Light):
 		
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
-		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time)
+		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time=time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__projection(ray.d)]
@@ -390,7 +390,7 @@ class GonioPhotometricLight(Light):
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
-						0., np.inf, time)
+						0., np.inf, time=time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity * self.__scale(ray.d)]
@@ -439,7 +439,7 @@ class DistantLight(Light):
 		pnt = ctr + rad * (d1 * v1 + d2 * v2)
 
 		# set ray
-		ray = geo.Ray(pnt + rad * self.di, -self.di, 0., np.inf, time)
+		ray = geo.Ray(pnt + rad * self.di, -self.di, 0., np.inf, time=time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = 1. / (PI * rad * rad)
 		return [ray, Ns, pdf, self.l]
@@ -521,7 +521,7 @@ class DiffuseAreaLight(Light):
 		di = mc.uniform_sample_sphere(u1, u2)
 		if di.dot(Ns) < 0.:
 			di *= -1.
-		ray = geo.Ray(org, di, EPS, np.inf, time)
+		ray = geo.Ray(org, di, EPS, np.inf, time=time)
 		pdf = self.shape_set.pdf_p(org) * INV_2PI
 		return [ray, Ns, pdf, self.l(org, Ns, di)]
 
@@ -655,7 +655,7 @@ class InfiniteAreaLight(Light):
 		pnt = ctr + rad * (d1 * v1 + d2 * v2)
 
 		# set ray
-		ray = geo.Ray(pnt + rad * (-d), d, 0., np.inf, time)
+		ray = geo.Ray(pnt + rad * (-d), d, 0., np.inf, time=time)
 
 		# compute pdf
 		dir_pdf = pdf / (2. * PI * PI * st)
-- 
2.43.0


From 1bfb21d1ee276c740bb45057f2f2389baccd3454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 104/164] fix: light sampled by scattering counts towards
 direct lighting

---
 pytracer/integrator/utility.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 6ee7a79..7f53826 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -209,6 +209,7 @@ def estimate_direct(scene: 'Scene', renderer: 'Renderer', light: 'Light', p:'geo
 	Estimate direct lighting
 	using MC Multiple Importance Sampling.
 	"""
+	from pytracer.aggregate import Intersection
 	from pytracer.reflection import BDFType
 	Ld = Spectrum(0.)
 	# sample light source
@@ -234,25 +235,26 @@ def estimate_direct(scene: 'Scene', renderer: 'Renderer', light: 'Light', p:'geo
 		bsdf_pdf, wi, smp_type, f = bsdf.sample_f(wo, bsdf_smp, flags)
 		if not util.is_black(f) and bsdf_pdf > 0.:
 			wt = 1.
-			if not (smp_type & BDFType.SPECULAR).v == 0:  # MIS not apply to specular direction
+			if not smp_type & BDFType.SPECULAR:  # MIS not apply to specular direction
 				light_pdf = light.pdf(p, wi)
 				if light_pdf == 0.:
 					return Ld
 				from pytracer.montecarlo import power_heuristic
 				wt = power_heuristic(1, bsdf_pdf, 1, light_pdf)
-				# add contribution
-				Li = Spectrum(0.)
-				ray = geo.RayDifferential(p, wi, r_eps, np.inf, time)
-				hit, light_isect = scene.intersect(ray)
-				if hit:
-					if light_isect.primitive.get_area_light() == light:
-						Li = light_isect.le(-wi)
-				else:
-					Li = light.le(ray) # light illum.
-
-				if not util.is_black(Li):
-					Li *= renderer.transmittance(scene, ray, None, rng) # attenuation
-					Ld += f * Li * wi.abs_dot(n) * wt / bsdf_pdf
+
+			# add contribution
+			Li = Spectrum(0.)
+			ray = geo.RayDifferential(p, wi, r_eps, np.inf, time=time)
+			light_isect = Intersection()
+			if scene.intersect(ray, light_isect):
+				if light_isect.primitive.get_area_light() is light:
+					Li = light_isect.le(-wi)
+			else:
+				Li = light.le(ray) # light illum.
+
+			if not util.is_black(Li):
+				Li = Li * renderer.transmittance(scene, ray, None, rng) # attenuation
+				Ld += f * Li * wi.abs_dot(n) * wt / bsdf_pdf
 
 	return Ld
 
-- 
2.43.0


From 4a18907dff96a1d6cc8e8bab7d13a167a1fc50b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 105/164] fix: attenuating light that arrives leaves its source
 alone

---
 pytracer/integrator/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 7f53826..4473b3e 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -220,7 +220,7 @@ def estimate_direct(scene: 'Scene', renderer: 'Renderer', light: 'Light', p:'geo
 			# add contribution to reflected radiance
 			## account for attenuation due to participating media,
 			## left for `VolumeIntegrator` to do
-			Li *= vis.transmittance(scene, renderer, None, rng)
+			Li = Li * vis.transmittance(scene, renderer, None, rng)
 			if light.is_delta_light():
 				Ld += f * Li * (wi.abs_dot(n) / light_pdf)
 			else:
-- 
2.43.0


From 4b8d2c48a5be8f72b5056857a224f2956b6ae11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 106/164] fix: specular transmission uses the radiance it
 traced

---
 pytracer/integrator/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 4473b3e..b97f528 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -194,7 +194,7 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			rd.rxDirection = wi + eta * dwodx - geo.Vector.from_arr(mu * dndx + dmudx * n)
 			rd.ryDirection = wi + eta * dwody - geo.Vector.from_arr(mu * dndy + dmudy * n)
 
-		_, Li = renderer.li(scene, rd, sample, isect, rng)
+		Li, _ = renderer.li(scene, rd, sample, isect, rng)
 		L = f * Li * wi.abs_dot(n) / pdf
 
 	return L
-- 
2.43.0


From d490086abc42dc3888d4d68254d96925690716dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 107/164] fix: tracing a specular ray leaves the intersection
 alone

---
 pytracer/integrator/utility.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index b97f528..e0ea949 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -119,6 +119,7 @@ def uniform_sample_one_light(scene: 'Scene', renderer: 'Renderer', p: 'geo.Point
 
 def specular_reflect(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersection',
                      renderer: 'Renderer', scene: 'Scene', sample: 'Sample', rng) -> 'Spectrum':
+	from pytracer.aggregate import Intersection
 	from pytracer.reflection import (BDFType, BSDFSample)
 
 	wo = -ray.d
@@ -149,7 +150,7 @@ def specular_reflect(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersect
 			rd.rxDirection = wi - dwodx + 2. * geo.Vector.from_arr(wo.dot(n) * dndx + dDNdx * n)
 			rd.ryDirection = wi - dwody + 2. * geo.Vector.from_arr(wo.dot(n) * dndy + dDNdy * n)
 
-		Li, _ = renderer.li(scene, rd, sample, isect, rng)
+		Li, _ = renderer.li(scene, rd, sample, Intersection(), rng)
 		L = f * Li * wi.abs_dot(n) / pdf
 
 	return L
@@ -157,6 +158,7 @@ def specular_reflect(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersect
 
 def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersection',
                       renderer: 'Renderer', scene: 'Scene', sample: 'Sample', rng) -> 'Spectrum':
+	from pytracer.aggregate import Intersection
 	from pytracer.reflection import (BDFType, BSDFSample)
 	wo = -ray.d
 	p = bsdf.dgs.p
@@ -194,7 +196,7 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			rd.rxDirection = wi + eta * dwodx - geo.Vector.from_arr(mu * dndx + dmudx * n)
 			rd.ryDirection = wi + eta * dwody - geo.Vector.from_arr(mu * dndy + dmudy * n)
 
-		Li, _ = renderer.li(scene, rd, sample, isect, rng)
+		Li, _ = renderer.li(scene, rd, sample, Intersection(), rng)
 		L = f * Li * wi.abs_dot(n) / pdf
 
 	return L
-- 
2.43.0


From d6f889b90e6ff4cd31a545f2a4657e0b74aa9640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 108/164] fix: direct lighting by one light requests and uses
 its samples

---
 pytracer/integrator/surface/direct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/integrator/surface/direct.py b/pytracer/integrator/surface/direct.py
index ad5461c..980341b 100644
--- a/pytracer/integrator/surface/direct.py
+++ b/pytracer/integrator/surface/direct.py
@@ -64,7 +64,7 @@ class DirectLightingIntegrator(SurfaceIntegrator):
 			# sampling one light
 			n_lights = len(scene.lights)
 			self.light_sample_offsets = [LightSampleOffset(1, sample)]
-			self.light_num_offset = sample.add1d(1)
+			self.light_num_offset = sample.add_1d(1)
 			self.bsdf_sample_offsets = [BSDFSampleOffset(1, sample)]
 
 	def li(self, scene: 'Scene', renderer: 'Renderer', ray: 'geo.RayDifferential',
@@ -91,7 +91,7 @@ class DirectLightingIntegrator(SurfaceIntegrator):
 			elif self.strategy == LightStrategy.SAMPLE_ONE_UNIFORM:
 				from pytracer.integrator.utility import uniform_sample_one_light
 				L += uniform_sample_one_light(scene, renderer, p, n, wo, isect.rEps, ray.time,
-						bsdf, sample, self.light_num_offset, self.light_sample_offsets, self.bsdf_sample_offsets, rng)
+						bsdf, sample, self.light_num_offset, self.light_sample_offsets[0], self.bsdf_sample_offsets[0], rng)
 
 			else:
 				raise RuntimeError("Unknown LightStrategy")
-- 
2.43.0


From d63639b6986fb73ef431121fcc14595ea9b9a4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 109/164] fix: paths count light found by diffuse bounces once

---
 pytracer/integrator/surface/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/integrator/surface/path.py b/pytracer/integrator/surface/path.py
index 0d30e6a..87f2aeb 100644
--- a/pytracer/integrator/surface/path.py
+++ b/pytracer/integrator/surface/path.py
@@ -109,7 +109,7 @@ class PathIntegrator(SurfaceIntegrator):
 			if f.is_black() or pdf == 0.:
 				break
 			# print('+++++')
-			specular_bounce = (flags & BDFType.SPECULAR) != 0
+			specular_bounce = bool(flags & BDFType.SPECULAR)
 			path_throughput *= f * wi.abs_dot(n) / pdf
 			ray = geo.RayDifferential.from_parent(p, wi, ray, isectp.rEps)
 			# print('#')
-- 
2.43.0


From 23feb22559d8157c3b1d2f0df7f69823b1e513cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 110/164] fix: every segment of a path is attenuated

---
 pytracer/integrator/surface/path.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pytracer/integrator/surface/path.py b/pytracer/integrator/surface/path.py
index 87f2aeb..17c4889 100644
--- a/pytracer/integrator/surface/path.py
+++ b/pytracer/integrator/surface/path.py
@@ -134,8 +134,7 @@ class PathIntegrator(SurfaceIntegrator):
 						L += path_throughput * light.le(ray)
 				break
 			# print('###')
-			if bounce_cnt > 1:
-				path_throughput *= renderer.transmittance(scene, ray, None, rng)
+			path_throughput = path_throughput * renderer.transmittance(scene, ray, None, rng)
 
 			isectp = local_isect
 
-- 
2.43.0


From 762d8e038079d189ed108f0c213f5af1905556c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:00 +0000
Subject: [PATCH 111/164] fix: refracted rays carry the differentials of their
 neighbours

---
 pytracer/integrator/utility.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index e0ea949..1a0e0a0 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -173,7 +173,7 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			rd.rxOrigin = p + isect.dg.dpdx
 			rd.ryOrigin = p + isect.dg.dpdy
 
-			eta = bsdf.eta
+			eta = 1. / bsdf.eta
 			w = -wo
 			if wo.dot(n) < 0.:
 				eta = 1. / eta
@@ -193,8 +193,8 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			dmudx = (eta - (eta * eta * w.dot(n) / wi.dot(n))) * dDNdx
 			dmudy = (eta - (eta * eta * w.dot(n) / wi.dot(n))) * dDNdy
 
-			rd.rxDirection = wi + eta * dwodx - geo.Vector.from_arr(mu * dndx + dmudx * n)
-			rd.ryDirection = wi + eta * dwody - geo.Vector.from_arr(mu * dndy + dmudy * n)
+			rd.rxDirection = wi - eta * dwodx - geo.Vector.from_arr(mu * dndx - dmudx * n)
+			rd.ryDirection = wi - eta * dwody - geo.Vector.from_arr(mu * dndy - dmudy * n)
 
 		Li, _ = renderer.li(scene, rd, sample, Intersection(), rng)
 		L = f * Li * wi.abs_dot(n) / pdf
-- 
2.43.0


From 6c804fac8c13fe65165325751673a997071c6af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:58 +0000
Subject: [PATCH 112/164] fix: rendering tasks cover their own part of the
 image

---
 pytracer/renderer/renderer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytracer/renderer/renderer.py b/pytracer/renderer/renderer.py
index 8c82b83..7685872 100644
--- a/pytracer/renderer/renderer.py
+++ b/pytracer/renderer/renderer.py
@@ -92,7 +92,7 @@ class SamplerRenderer(Renderer):
 		# init sample
 		sample = Sample(self.sampler, self.surf_integrator, self.vol_integrator, scene)
 
-		task = SamplerRendererTask(scene, self, self.camera, self.sampler, sample, False, 1, 1)
+		task = SamplerRendererTask(scene, self, self.camera, self.sampler, sample, False, 0, 1)
 		task()		
 		# main rendering loop: launch tasks
 		# numer of samples
@@ -132,8 +132,7 @@ class SamplerRendererTask(object):
 	def __call__(self):
 		from pytracer.aggregate import Intersection
 		# get sub-sampler
-		# sampler = self.main_sampler.get_subsampler(self.task_num, self.task_cnt)
-		sampler = self.main_sampler
+		sampler = self.main_sampler.get_subsampler(self.task_num, self.task_cnt)
 		if sampler is None:
 			return
 
-- 
2.43.0


From 1125be8e558d73fedac1684130f86c80044ca9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:58 +0000
Subject: [PATCH 113/164] fix: rays that leave the scene see the lights around
 it

---
 pytracer/renderer/renderer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pytracer/renderer/renderer.py b/pytracer/renderer/renderer.py
index 7685872..c5b2b1a 100644
--- a/pytracer/renderer/renderer.py
+++ b/pytracer/renderer/renderer.py
@@ -164,16 +164,14 @@ class SamplerRendererTask(object):
 				wt, rays[i] = self.camera.generate_ray_differential(sample)
 				rays[i].scale_differential(1. / np.sqrt(sampler.spp))
 
-				hit = self.scene.intersect_p(rays[i])
-
 				if self.vis_obj_id:
-					if hit and wt > 0.:
+					if wt > 0. and self.scene.intersect_p(rays[i]):
 						# random shading
 						Ls[i] = Spectrum.from_rgb([1., 1., 1.])
 					else:
 						Ls[i] = Spectrum(0.)
 				else:
-					if hit and wt > 0.:
+					if wt > 0.:
 						Ls[i], Ts[i] = self.renderer.li(self.scene, rays[i], sample, isects[i], rng)
 						Ls[i] *= wt
 
-- 
2.43.0


From 919272448a9fd9d4337a83bc7242973697d68b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:58 +0000
Subject: [PATCH 114/164] fix: radiance with infinite channels is rejected

---
 pytracer/renderer/renderer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/renderer/renderer.py b/pytracer/renderer/renderer.py
index c5b2b1a..2b8fec8 100644
--- a/pytracer/renderer/renderer.py
+++ b/pytracer/renderer/renderer.py
@@ -179,13 +179,13 @@ class SamplerRendererTask(object):
 						Ls[i] = Spectrum(0.)
 						Ts[i] = Spectrum(1.)
 
-				if Ls[i].has_nans():
+				if Ls[i].has_nans() or np.isnan(Ls[i].y()):
 					util.logging('Error', 'NAN radiance returned, setting to black.')
 					Ls[i] = Spectrum(0.)
 				elif Ls[i].y() < -EPS:
 					util.logging('Error', 'Negative luminance {} returned, setting to black.'.format(Ls[i].y()))
 					Ls[i] = Spectrum(0.)
-				elif Ls[i].y() == np.inf:
+				elif np.isinf(Ls[i].y()):
 					util.logging('Error', 'Infinite luminance returned, setting to balck.')
 					Ls[i] = Spectrum(0.)
 
-- 
2.43.0


From 89393d3aaa3b4e6451cd2cc636a6d581651ac89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:58 +0000
Subject: [PATCH 115/164] fix: weighting a sample leaves the radiance of others
 alone

---
 pytracer/renderer/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/renderer/renderer.py b/pytracer/renderer/renderer.py
index 2b8fec8..355cc4a 100644
--- a/pytracer/renderer/renderer.py
+++ b/pytracer/renderer/renderer.py
@@ -173,7 +173,7 @@ class SamplerRendererTask(object):
 				else:
 					if wt > 0.:
 						Ls[i], Ts[i] = self.renderer.li(self.scene, rays[i], sample, isects[i], rng)
-						Ls[i] *= wt
+						Ls[i] = Ls[i] * wt
 
 					else:
 						Ls[i] = Spectrum(0.)
-- 
2.43.0


From d7a5a90d8bbd91677b9acd6767043f7220b4adb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:58 +0000
Subject: [PATCH 116/164] fix: nothing is absorbed without a volume integrator

---
 pytracer/renderer/renderer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/renderer/renderer.py b/pytracer/renderer/renderer.py
index 355cc4a..98fa70c 100644
--- a/pytracer/renderer/renderer.py
+++ b/pytracer/renderer/renderer.py
@@ -72,10 +72,10 @@ class SamplerRenderer(Renderer):
 
 			return T * li + lvi, T
 		else:
-			return li, Spectrum(0.)
+			return li, Spectrum(1.)
 
 	def transmittance(self, scene: 'Scene', ray: 'geo.RayDifferential', sample: 'Sample',
-									rng='np.random.rand') -> 'Spectrum':
+									rng=np.random.rand) -> 'Spectrum':
 		if self.vol_integrator is not None:
 			return self.vol_integrator.transmittance(scene, self, ray, sample, rng)
 		else:
-- 
2.43.0


From 080daf242d8653250aa2c84a7b4ac4a0dd6b6cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:13 +0000
Subject: [PATCH 117/164] fix: rays meet placed media where they are

---
 pytracer/volume/volume.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 2a13f79..7465f5a 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -138,7 +138,7 @@ class HomogeneousVolumeDensity(VolumeRegion):
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
 		r = self.w2v(ray)
-		return self.extent.intersect_p(ray)
+		return self.extent.intersect_p(r)
 
 	def sigma_a(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		return self.sig_a if self.extent.inside(self.w2v(pnt)) else Spectrum(0.)
@@ -301,7 +301,7 @@ class VolumeGridDensity(DensityRegion):
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
 		r = self.w2v(ray)
-		return self.extent.intersect_p(ray)
+		return self.extent.intersect_p(r)
 
 
 class ExponentialDensity(DensityRegion):
@@ -331,7 +331,7 @@ class ExponentialDensity(DensityRegion):
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
 		r = self.w2v(ray)
-		return self.extent.intersect_p(ray)
+		return self.extent.intersect_p(r)
 
 
 class AggregateVolume(VolumeRegion):
-- 
2.43.0


From 565bb8736bb3ec76882624425a26367d03a26eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:13 +0000
Subject: [PATCH 118/164] fix: media scatter with their own asymmetry

---
 pytracer/volume/volume.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 7465f5a..1c9c7e8 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -157,7 +157,7 @@ class HomogeneousVolumeDensity(VolumeRegion):
 		if not self.extent.inside(self.w2v(pnt)):
 			return 0.
 		from pytracer.volume.utility import phase_hg
-		return phase_hg(wi, wo, tm)
+		return phase_hg(wi, wo, self.g)
 
 	def tau(self, ray: 'geo.Ray', step: FLOAT=1., offset: FLOAT=.5) ->  'Spectrum':
 		isec, t0, t1 = self.intersect_p(ray)
@@ -210,7 +210,7 @@ class DensityRegion(VolumeRegion):
 		Does not scale the phase function.
 		"""
 		from pytracer.volume.utility import phase_hg
-		return phase_hg(w, wp, tm)
+		return phase_hg(w, wp, self.g)
 
 	def sigma_t(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		return self(self.w2v(pnt)) * (self.sig_a + self.sig_s)
-- 
2.43.0


From d2e2ec09d2d25031acf664e8334fc903056c9e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:13 +0000
Subject: [PATCH 119/164] fix: the Schlick phase function is normalised

---
 pytracer/volume/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/utility.py b/pytracer/volume/utility.py
index 46af7f3..712bcdd 100644
--- a/pytracer/volume/utility.py
+++ b/pytracer/volume/utility.py
@@ -49,7 +49,7 @@ def phase_hg(w: 'geo.Vector', wp: 'geo.Vector', g: FLOAT) -> FLOAT:
 def phase_schlick(w: 'geo.Vector', wp: 'geo.Vector', g: FLOAT) -> FLOAT:
 	k = 1.55 * g - .55 * g * g * g
 	kct = k * w.dot(wp)
-	return ((1. - k * k) / (1. - kct) * (1. - kct)) / (4. * PI);
+	return ((1. - k * k) / ((1. - kct) * (1. - kct))) / (4. * PI);
 
 
 # Utility Functions
-- 
2.43.0


From 1f4f363b301d44203ed351cd788e9977e343c122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:13 +0000
Subject: [PATCH 120/164] fix: optical thickness of densities is taken along
 the ray

---
 pytracer/volume/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 1c9c7e8..f82647f 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -222,7 +222,7 @@ class DensityRegion(VolumeRegion):
 		if length == 0.:
 			return tau
 
-		rn = geo.Ray(r.o, r.d / length, r.mint * length, r.maxt * length, r.time)
+		rn = geo.Ray(r.o, r.d / length, r.mint * length, r.maxt * length, time=r.time)
 		hit, t0, t1 = self.intersect_p(rn)
 		if not hit:
 			return tau
-- 
2.43.0


From 7d8797f5ffd0e80335a88b4a5fbbc733fe6cce97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:13 +0000
Subject: [PATCH 121/164] fix: grid densities can be made and looked up

---
 pytracer/volume/volume.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index f82647f..83cc966 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -243,18 +243,13 @@ class VolumeGridDensity(DensityRegion):
 	"""
 	def __init__(self, sig_a: 'Spectrum', sig_s: 'Spectrum', g: FLOAT, le: 'Spectrum',
 					extent: 'geo.BBox', v2w: 'trans.Transform', d: 'np.ndarray'):
-		super().__init__()
-		self.sig_a = sig_a
-		self.sig_s = sig_s
-		self.g = g
-		self.le = le
+		super().__init__(sig_a, sig_s, g, le, v2w)
 		self.extent = extent
-		self.w2v = v2w.inverse()
 		self.density = d.copy() 	# 3D np array of densities in [z][y][x] order
 
 	@property
 	def nx(self):
-		return np.shape(self.density)[0]
+		return np.shape(self.density)[2]
 
 	@property
 	def ny(self):
@@ -262,10 +257,10 @@ class VolumeGridDensity(DensityRegion):
 
 	@property
 	def nz(self):
-		return np.shape(self.density)[2]
+		return np.shape(self.density)[0]
 
 	def __D(self, x: INT, y: INT, z: INT) -> FLOAT:
-		x, y, z = np.clip([x, y, z], 0, np.shape(self.density) - 1).astype(INT)
+		x, y, z = np.clip([x, y, z], 0, [self.nx - 1, self.ny - 1, self.nz - 1]).astype(INT)
 		return self.density[z][y][x]
 	
 	def __call__(self, pnt: 'geo.Point') -> FLOAT:
@@ -274,14 +269,13 @@ class VolumeGridDensity(DensityRegion):
 
 		# compute voxel coordinates and offsets
 		vox = self.extent.offset(pnt)
-		vox *= np.shape(self.density)
-		vox -= .5
-		vx = util.ftoi(vox.x)
-		vy = util.ftoi(vox.y)
-		vz = util.ftoi(vox.z)
-		dx = vox.x - vx
-		dy = vox.y - vy
-		dz = vox.z - vz
+		vox = vox * [self.nx, self.ny, self.nz] - .5
+		vx = util.ftoi(vox[0])
+		vy = util.ftoi(vox[1])
+		vz = util.ftoi(vox[2])
+		dx = vox[0] - vx
+		dy = vox[1] - vy
+		dz = vox[2] - vz
 
 		# trilinearly interpolation
 		d00 = util.lerp(dx, self.__D(vx, vy, vz), self.__D(vx+1,vy,vz))
-- 
2.43.0


From cfaca2eaeca5a37dae081c430c47a392f16124fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:13 +0000
Subject: [PATCH 122/164] fix: collections of media emit what their members
 emit

---
 pytracer/volume/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 83cc966..2b5d97c 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -362,7 +362,7 @@ class AggregateVolume(VolumeRegion):
 	def lve(self, pnt: 'geo.Point', w: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		s = Spectrum(0.)
 		for region in self.regions:
-			s += region.le(pnt, w, tm)
+			s += region.lve(pnt, w, tm)
 		return s		
 
 	def p(self, pnt: 'geo.Point', wi: 'geo.Vector', wo: 'geo.Vector', tm: FLOAT) ->  FLOAT:
-- 
2.43.0


From 6809b56837e1f3c8861b5cef629208df0407be83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:13 +0000
Subject: [PATCH 123/164] fix: collections of media scatter with a normalised
 phase function

---
 pytracer/volume/volume.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 2b5d97c..5f61d64 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -366,10 +366,14 @@ class AggregateVolume(VolumeRegion):
 		return s		
 
 	def p(self, pnt: 'geo.Point', wi: 'geo.Vector', wo: 'geo.Vector', tm: FLOAT) ->  FLOAT:
-		s = Spectrum(0.)
+		# average of the members, by how much they scatter
+		ph = 0.
+		wt_sum = 0.
 		for region in self.regions:
-			s += region.p(pnt, wi, wo, tm)
-		return s		
+			wt = region.sigma_s(pnt, wi, tm).y()
+			wt_sum += wt
+			ph += wt * region.p(pnt, wi, wo, tm)
+		return ph / wt_sum if wt_sum > 0. else 0.
 
 	def tau(self, ray: 'geo.Ray', step: FLOAT=1., offset: FLOAT=.5) ->  'Spectrum':
 		s = Spectrum(0.)
-- 
2.43.0


From a6fa36bebcd3da6520f2021b147ec2ca73b1029d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:13 +0000
Subject: [PATCH 124/164] fix: subsurface properties can be printed

---
 pytracer/volume/bssrdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/bssrdf.py b/pytracer/volume/bssrdf.py
index 58ddccd..a774052 100644
--- a/pytracer/volume/bssrdf.py
+++ b/pytracer/volume/bssrdf.py
@@ -29,7 +29,7 @@ class BSSRDF(object):
 
 	def __repr__(self):
 		return "{}\nEta: {} sigma_a: {} sigma'_s: {}\n".format(self.__class__,
-						self.__sig_a, self.__sigp_s)
+						self.__e, self.__sig_a, self.__sigp_s)
 
 	@property
 	def eta(self):
-- 
2.43.0


From caeae6c3518cbe6eeccea2a6fb3b88221745d351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:57 +0000
Subject: [PATCH 125/164] fix: measured media absorb what they absorb

---
 pytracer/volume/utility.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytracer/volume/utility.py b/pytracer/volume/utility.py
index 712bcdd..61dc0c4 100644
--- a/pytracer/volume/utility.py
+++ b/pytracer/volume/utility.py
@@ -72,8 +72,9 @@ def get_volume_scattering(name: str) -> ['Spectrum', 'Spectrum']:
 	"""
 	from pytracer.data.volume import MEASURED_SUF_SC
 	if name in MEASURED_SUF_SC:
-		return [Spectrum.from_rgb(MEASURED_SUF_SC[name][0]),
-		        Spectrum.from_rgb(MEASURED_SUF_SC[name][1])]
+		# stored as sigma'_s, sigma_a
+		return [Spectrum.from_rgb(MEASURED_SUF_SC[name][1]),
+		        Spectrum.from_rgb(MEASURED_SUF_SC[name][0])]
 	return [None, None]
 
 
-- 
2.43.0


From d4ca23d68522daf3207c7f1b16e311199343e551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:21 +0000
Subject: [PATCH 126/164] fix: the bound of a placed medium encloses it

---
 pytracer/volume/volume.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 5f61d64..c76a231 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -133,7 +133,7 @@ class HomogeneousVolumeDensity(VolumeRegion):
 
 
 	def world_bound(self) ->  'geo.BBox':
-		return self.w2v.inverse()(self.extent)
+		return self.w2v.inverse().enclose(self.extent)
 
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
@@ -290,7 +290,7 @@ class VolumeGridDensity(DensityRegion):
 
 
 	def world_bound(self) ->  'geo.BBox':
-		return self.w2v.inverse()(self.extent)
+		return self.w2v.inverse().enclose(self.extent)
 
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
@@ -320,7 +320,7 @@ class ExponentialDensity(DensityRegion):
 		return self.a * np.exp(-self.b * h)
 
 	def world_bound(self) ->  'geo.BBox':
-		return self.w2v.inverse()(self.extent)
+		return self.w2v.inverse().enclose(self.extent)
 
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
-- 
2.43.0


From 67e83d23133f6faec8fcd6f0bce18483db357ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:31 +0000
Subject: [PATCH 127/164] fix: image pyramids hold texels of the stored type

---
 pytracer/texture/utility.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index dbe61bf..b4f4442 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -223,7 +223,13 @@ class MIPMap(object):
 		self.max_aniso = max_aniso
 		self.wrap = wrap
 
-		sres, tres = img.shape[0:2]
+		# t runs along the rows of the image, s along its columns
+		tres, sres = img.shape[0:2]
+		texels = np.empty([tres, sres], dtype=object)
+		for t in range(tres):
+			for s in range(sres):
+				texels[t, s] = typename(img[t, s])
+		img = texels
 
 		resampled = None
 
@@ -240,7 +246,7 @@ class MIPMap(object):
 			s_wts = MIPMap.resample(sres, sp)
 
 			# init, take advantage of numba.jit
-			resampled = np.empty([tp, sp], dtype=typename)
+			resampled = np.empty([tp, sp], dtype=object)
 			for t in range(tres):
 				for s in range(sp):
 					resampled[t, s] = typename(0.)
@@ -282,7 +288,7 @@ class MIPMap(object):
 
 		# init levels of MIPMap
 		self.__n_levels = 1 + INT(np.log2(max(sres, tres)))
-		self.__pyramid = np.empty(self.__n_levels, dtype=self.typename)
+		self.__pyramid = [None] * self.__n_levels
 		# most detailed level
 		self.__pyramid[0] = img if resampled is None else resampled
 
-- 
2.43.0


From b4e4a1d857cbe78a95dca0dbe1439f8658c9f3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:31 +0000
Subject: [PATCH 128/164] fix: texels of images that are not square

---
 pytracer/texture/utility.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index b4f4442..070eac3 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -294,7 +294,7 @@ class MIPMap(object):
 
 		for i in range(1, self.__n_levels):
 			# bottom-up init
-			u, v = self.__pyramid[i - 1].shape[0:2]
+			v, u = self.__pyramid[i - 1].shape[0:2]
 			s_res = max(1, UINT(u // 2))
 			t_res = max(1, UINT(v // 2))
 			self.__pyramid[i] = np.empty([t_res, s_res], dtype=object)
@@ -314,7 +314,7 @@ class MIPMap(object):
 
 	def texel(self, level: UINT, s: INT, t: INT):
 		l = self.__pyramid[level]
-		u, v = l.shape[0:2]
+		v, u = l.shape[0:2]
 		# compute texel (s, t)
 		if self.wrap == ImageWrap.REPEAT:
 			s = s % u
@@ -326,7 +326,7 @@ class MIPMap(object):
 			if s < 0 or s >= u or t < 0 or t >= v:
 				return self.typename(0.)
 
-		return l[s, t].view(self.typename)
+		return self.typename(l[t, s])
 
 	@property
 	def width(self):
@@ -342,7 +342,8 @@ class MIPMap(object):
 
 	def __triangle(self, level: UINT, s: FLOAT, t: FLOAT):
 		level = np.clip(level, 0, self.__n_levels - 1)
-		s, t = np.array([s, t]) * self.__pyramid[level].shape[0:2] - .5
+		v, u = self.__pyramid[level].shape[0:2]
+		s, t = s * u - .5, t * v - .5
 		s0, t0 = util.ftoi(s), util.ftoi(t)
 		ds = s - s0
 		dt = t - t0
@@ -355,7 +356,7 @@ class MIPMap(object):
 		if level >= self.__n_levels:
 			return self.texel(self.__n_levels - 1, 0, 0)
 		# convert EWA coord to proper scale for level
-		u, v = self.__pyramid[level].shape[0:2]
+		v, u = self.__pyramid[level].shape[0:2]
 		s = s * u - .5
 		t = t * v - .5
 		ds0 *= u
-- 
2.43.0


From 1648b7f3b385fa0a7a0dc333c4d1b0bfc1e682d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:31 +0000
Subject: [PATCH 129/164] fix: levels one texel thick keep their colour

---
 pytracer/texture/utility.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 070eac3..22c57e5 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -300,11 +300,13 @@ class MIPMap(object):
 			self.__pyramid[i] = np.empty([t_res, s_res], dtype=object)
 			for t in range(t_res):
 				for s in range(s_res):
+					# a level one texel thick has no second neighbour
+					s_nxt, t_nxt = min(2 * s + 1, u - 1), min(2 * t + 1, v - 1)
 					self.__pyramid[i][t, s] = \
 						.25 * (self.texel(i - 1, 2 * s, 2 * t) +
-						       self.texel(i - 1, 2 * s + 1, 2 * t) +
-						       self.texel(i - 1, 2 * s, 2 * t + 1) +
-						       self.texel(i - 1, 2 * s + 1, 2 * t + 1))
+						       self.texel(i - 1, s_nxt, 2 * t) +
+						       self.texel(i - 1, 2 * s, t_nxt) +
+						       self.texel(i - 1, s_nxt, t_nxt))
 
 				# init EVA filter weighted if needed
 		if MIPMap.weight_lut is None:
-- 
2.43.0


From d66075a877dd2f639b7feb2104863874fc2759fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:31 +0000
Subject: [PATCH 130/164] fix: lookups as wide as the image are its average

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 22c57e5..66e04c4 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -436,7 +436,7 @@ class MIPMap(object):
 			if level < 0:
 				return self.__triangle(0, s, t)
 			elif level >= self.__n_levels - 1:
-				return self.__triangle(self.__n_levels, 0, 0)
+				return self.texel(self.__n_levels - 1, 0, 0)
 			else:
 				i_level = util.ftoi(level)
 				delta = level - i_level
-- 
2.43.0


From a8ecd97a86eaed9c78d45542f0a995fb764def0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:31 +0000
Subject: [PATCH 131/164] fix: anisotropic lookups in image pyramids

---
 pytracer/texture/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 66e04c4..a062e9a 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -384,7 +384,7 @@ class MIPMap(object):
 		det = -B * B + 4. * A * C
 		invDet = 1. / det
 		u_sq = np.sqrt(det * C)
-		v_sq = np.srqt(det * A)
+		v_sq = np.sqrt(det * A)
 		s0 = util.ctoi(s - 2. * invDet * u_sq)
 		s1 = util.ftoi(s + 2. * invDet * u_sq)
 		t0 = util.ctoi(t - 2. * invDet * v_sq)
@@ -401,7 +401,7 @@ class MIPMap(object):
 				r2 = A * ss * ss + B * ss * tt + C * tt * tt
 				if r2 < 1.:
 					# inside
-					wt = MIPMap.weight_lut[min(r2 * MIPMap.weight_lut_size, MIPMap.weight_lut_size - 1)]
+					wt = MIPMap.weight_lut[min(util.ftoi(r2 * MIPMap.weight_lut_size), MIPMap.weight_lut_size - 1)]
 					ret += self.texel(level, si, ti) * wt
 					sum_wt += wt
 
-- 
2.43.0


From e0cf6d53dd4b55620e2c98d321ce3a833fcbb871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:31 +0000
Subject: [PATCH 132/164] fix: overlong footprints widen along their minor axis

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index a062e9a..eac0d6a 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -459,8 +459,8 @@ class MIPMap(object):
 			# clamp eccentricity if too large
 			if minor_len * self.max_aniso < major_len and minor_len > 0.:
 				scale = major_len / (minor_len * self.max_aniso)
-				ds0 *= scale
 				ds1 *= scale
+				dt1 *= scale
 				minor_len *= scale
 
 			if minor_len == 0.:
-- 
2.43.0


From 6f71131c68c371f6d6bc491273b608f7389ab507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:31 +0000
Subject: [PATCH 133/164] fix: enlarged images have no negative colour

---
 pytracer/texture/utility.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index eac0d6a..2110614 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -262,7 +262,7 @@ class MIPMap(object):
 							resampled[t, s] += s_wts[s][1 + j] * img[t, orig_s]
 			## t
 			t_wts = MIPMap.resample(tres, tp)
-			t_tmp = np.zeros(tp, dtype=img.dtype)
+			t_tmp = np.zeros(tp, dtype=object)
 			for s in range(sp):
 				for t in range(tp):
 					# (s, t) in s-zoomed image
@@ -278,9 +278,8 @@ class MIPMap(object):
 							t_tmp[t] += t_wts[t][1 + j] * resampled[orig_t, s]
 
 				resampled[:, s] = t_tmp.copy()
-				if self.typename is Spectrum:
-					for t in range(tp):
-						resampled[t, s] = resampled[t, s].clip()
+				for t in range(tp):
+					resampled[t, s] = np.clip(resampled[t, s], 0., np.inf)
 
 			sres, tres = sp, tp
 
-- 
2.43.0


From 9fab45868a509760a689c2050968eab6738b8436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:31 +0000
Subject: [PATCH 134/164] fix: pyramids are not enlarged to fewer texels

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 2110614..fb2ee8a 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -193,7 +193,7 @@ class MIPMap(object):
 	@staticmethod
 	def resample(ores: UINT, nres: UINT) -> ['SampleWeight']:
 		if ores > nres:
-			RuntimeError('src.core.texture.{}.resample(): New resolution should '
+			raise RuntimeError('src.core.texture.{}.resample(): New resolution should '
 			             'be greater than the old one, abort resampling.'.format(ores, nres))
 		fil_width = 2.
 		wts = np.zeros([nres, 5], dtype=FLOAT)
-- 
2.43.0


From 79d12f084f621e94d13ddb4b7da9bb448bdc1754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:22 +0000
Subject: [PATCH 135/164] fix: image textures of files

---
 pytracer/texture/texture/image.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index db243a5..6642835 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -94,7 +94,7 @@ class ImageTexture(Texture):
 						type_mem is spec.RGBSpectrum:
 			return spec.RGBSpectrum( (scale * texel) ** gamma )
 		elif isinstance(texel, np.ndarray) and \
-						type_mem is (FLOAT or float):
+						type_mem in (FLOAT, float):
 			return (scale * spec.RGBSpectrum(texel).y()) ** gamma
 		else:
 			raise TypeError('src.core.texture.ImageTexture.__convert__in__: '
@@ -109,11 +109,11 @@ class ImageTexture(Texture):
 
 		# print(type(texel), type(type_ret))
 		# return Spectrum.from_rgb(texel)
-		if isinstance(texel, 'RGBSpectrum') and \
+		if isinstance(texel, spec.RGBSpectrum) and \
 						type_ret is Spectrum:
-			return Spectrum.from_rgb(texel.toRGB())
+			return Spectrum.from_rgb(texel.to_rgb())
 		elif (isinstance(texel, float) or isinstance(texel, FLOAT)) and \
-						type_ret is (float or FLOAT):
+						type_ret in (float, FLOAT):
 			return texel
 		else:
 			raise TypeError('src.core.texture.ImageTexture.__convert__in__: '
@@ -132,7 +132,7 @@ class ImageTexture(Texture):
 
 		try:
 			texels = iio.read_image(filename)
-			width, height = texels.shape[0:2]
+			height, width = texels.shape[0:2]
 		except:
 			print('{}.get_texture(): cannot process file {}, '
 			      'use default one-valued MIPMap'.format(self.__class__, filename))
@@ -149,8 +149,8 @@ class ImageTexture(Texture):
 
 		else:
 			# one-valued MIPMap
-			val = [[self.power(scale, gamma)]]
-			ret = MIPMap(self.type_mem, val)
+			val = np.array([[FLOAT(scale) ** gamma]])
+			ret = MIPMap(self.type_mem, val, trilinear, max_aniso, wrap)
 
 		ImageTexture.textures[tex_info] = ret
 		return ret
-- 
2.43.0


From 4a8e57ad18d87ff783d9402fefb373d20b61b3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:22 +0000
Subject: [PATCH 136/164] fix: image textures of different storage do not share
 an image

---
 pytracer/texture/texture/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index 6642835..8f83f1e 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -126,7 +126,7 @@ class ImageTexture(Texture):
 	def get_texture(self, filename: str, trilinear: bool, max_aniso: FLOAT,
 	                wrap: 'ImageWrap', scale: FLOAT, gamma: FLOAT) -> 'MIPMap':
 		# look in the cache
-		tex_info = ImageTexture.TexInfo(filename, trilinear, max_aniso, wrap, scale, gamma)
+		tex_info = (self.type_mem, ImageTexture.TexInfo(filename, trilinear, max_aniso, wrap, scale, gamma))
 		if tex_info in ImageTexture.textures:
 			return ImageTexture.textures[tex_info]
 
-- 
2.43.0


From 7cf6944579dc45c4b2f3aa99e0970a99d170ee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:22 +0000
Subject: [PATCH 137/164] fix: keys of image textures can be printed

---
 pytracer/texture/texture/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index 8f83f1e..26a1e38 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -48,7 +48,7 @@ class ImageTexture(Texture):
 
 		def __repr__(self):
 			return "{}\nFilename: {}\nTrilinear: {}\nMax Aniso: {}, Wrap: {}\nScale: {}, Gamma: {}" \
-				.format(self.__class__, self.trilinear, self.max_aniso, self.wrap, self.scale,
+				.format(self.__class__, self.filename, self.trilinear, self.max_aniso, self.wrap, self.scale,
 			            self.gamma)
 
 		def __hash__(self):
-- 
2.43.0


From e0e63e40bd1b94ae40395a1ed606c1ea451fc07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 138/164] fix: filtered checkerboards blend both textures

---
 pytracer/texture/texture/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index e186e38..cf300bb 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -173,10 +173,10 @@ class Chekcerboard2DTexture(Texture):
 			ti = ((util.ftoi(t1 / 2) + 2. * max(t1 / 2 - util.ftoi(t1 / 2) - .5, 0)) -
 				  (util.ftoi(t0 / 2) + 2. * max(t0 / 2 - util.ftoi(t0 / 2) - .5, 0))) / \
 				 (2. * dt)
-			area_sq = si * ti - 2. * si * ti
+			area_sq = si + ti - 2. * si * ti
 			if ds > 1. or dt > 1.:
 				area_sq = .5
-			return (1. - area_sq * self.tex1(dg)) + area_sq * self.tex2(dg)
+			return (1. - area_sq) * self.tex1(dg) + area_sq * self.tex2(dg)
 
 
 class Checkboard3DTexture(Texture):
-- 
2.43.0


From cc505eaf4f1ae36bbe08ab2cc9cb51942615ba9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 139/164] fix: checkerboards filtered along one direction only

---
 pytracer/texture/texture/__init__.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index cf300bb..35ddfd1 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -167,12 +167,18 @@ class Chekcerboard2DTexture(Texture):
 
 			## box filtering check region
 			# util.ftoi(x / 2) + 2. * max(x / 2 - util.ftoi(x / 2) -.5, 0)
-			si = ((util.ftoi(s1 / 2) + 2. * max(s1 / 2 - util.ftoi(s1 / 2) - .5, 0)) -
-				  (util.ftoi(s0 / 2) + 2. * max(s0 / 2 - util.ftoi(s0 / 2) - .5, 0))) / \
-				 (2. * ds)
-			ti = ((util.ftoi(t1 / 2) + 2. * max(t1 / 2 - util.ftoi(t1 / 2) - .5, 0)) -
-				  (util.ftoi(t0 / 2) + 2. * max(t0 / 2 - util.ftoi(t0 / 2) - .5, 0))) / \
-				 (2. * dt)
+			if ds > 0.:
+				si = ((util.ftoi(s1 / 2) + 2. * max(s1 / 2 - util.ftoi(s1 / 2) - .5, 0)) -
+					  (util.ftoi(s0 / 2) + 2. * max(s0 / 2 - util.ftoi(s0 / 2) - .5, 0))) / \
+					 (2. * ds)
+			else:
+				si = util.ftoi(s) % 2
+			if dt > 0.:
+				ti = ((util.ftoi(t1 / 2) + 2. * max(t1 / 2 - util.ftoi(t1 / 2) - .5, 0)) -
+					  (util.ftoi(t0 / 2) + 2. * max(t0 / 2 - util.ftoi(t0 / 2) - .5, 0))) / \
+					 (2. * dt)
+			else:
+				ti = util.ftoi(t) % 2
 			area_sq = si + ti - 2. * si * ti
 			if ds > 1. or dt > 1.:
 				area_sq = .5
-- 
2.43.0


From 9474b6bc54b3c0687e94fc4f69bd0777547c6259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 140/164] fix: polka dots

---
 pytracer/texture/texture/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index 35ddfd1..2bf45b9 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -223,16 +223,16 @@ class DotsTexture(Texture):
 		from pytracer.texture.utility import noise
 
 		# return insidedot result if inside
-		if noise(sc + .5 , tc + .5) > 0. :
+		if noise([sc + .5, tc + .5, .5]) > 0. :
 			rad = .35
 			max_shift = .5 - rad
-			s_ctr = sc + max_shift * noise(sc + 1.5, tc + 2.8)
-			t_ctr = tc + max_shift * noise(sc + 4.5, tc + 9.8)
+			s_ctr = sc + max_shift * noise([sc + 1.5, tc + 2.8, .5])
+			t_ctr = tc + max_shift * noise([sc + 4.5, tc + 9.8, .5])
 			ds = s - s_ctr
 			dt = t - t_ctr
 			if ds * ds + dt * dt < rad * rad:
 				# inside
-				self.inside_dot(dg)
+				return self.inside_dot(dg)
 
 
 		return self.outside_dot(dg)
-- 
2.43.0


From f2f601df8f2797417b45f1959ccc2253a0ffaf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 141/164] fix: marble textures

---
 pytracer/texture/texture/__init__.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index 2bf45b9..0256d47 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -301,7 +301,7 @@ class MarbleTexture(Texture):
 	spline = [  [ .58, .58, .6 ], [ .58, .58, .6 ], [ .58, .58, .6 ],
 				[ .5, .5, .5 ], [ .6, .59, .58 ], [ .58, .58, .6 ],
 				[ .58, .58, .6 ], [.2, .2, .33 ], [ .58, .58, .6 ], ]
-	spline_num = INT(27)
+	spline_num = INT(9)
 	def __init__(self, octaves: INT, roughness: FLOAT, scale: FLOAT, var: FLOAT, mapping: 'TextureMapping3D'):
 		self.octaves = octaves
 		self.omega = roughness
@@ -312,19 +312,17 @@ class MarbleTexture(Texture):
 	def __call__(self, dg: 'geo.DifferentialGeometry'):
 		from pytracer.texture.utility import FBm
 		p, dpdx, dpdy = self.mapping(dg)
-		p *= self.scale
+		p = p * self.scale
 		marble = p.y + self.var * FBm(p, self.scale * dpdx, self.scale * dpdy, self.omega, self.octaves)
-		wind = FBm(.1 * p, .1 * dpdx, .1 * dpdy, .5, 3)
-		wave = FBm(p, dpdx, dpdy, .5, 6)
-		t = .5 * .5 * np.sin(marble)
+		t = .5 + .5 * np.sin(marble)
 
 		# evaluate marble spline at $t$
-		fst = util.ftoi(t * self.spline_num - 3)
+		fst = min(util.ftoi(t * (self.spline_num - 3)), self.spline_num - 4)
 		t = t * (self.spline_num - 3) - fst
-		c0 = Spectrum.from_rgb(self.spline[fst:fst + 3])
-		c1 = Spectrum.from_rgb(self.spline[fst + 1:fst + 4])
-		c2 = Spectrum.from_rgb(self.spline[fst + 2:fst + 5])
-		c3 = Spectrum.from_rgb(self.spline[fst + 3:fst + 6])
+		c0 = Spectrum.from_rgb(self.spline[fst])
+		c1 = Spectrum.from_rgb(self.spline[fst + 1])
+		c2 = Spectrum.from_rgb(self.spline[fst + 2])
+		c3 = Spectrum.from_rgb(self.spline[fst + 3])
 
 		# Bezier spline evaluated with de Castilejau's algorithm
 		s0 = (1. - t) * c0 + t * c1
-- 
2.43.0


From cca73a6eaa3c85e65e07cbf92e8c223692bd6b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 142/164] fix: scaled textures are exported

---
 pytracer/texture/texture/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index 0256d47..d42319b 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -337,7 +337,7 @@ class MarbleTexture(Texture):
 
 from pytracer.texture.texture.image import ImageTexture
 
-__all__ = ['Texture', 'ImageTexture', 'ConstantTexture', 'SpectrumType', 'MixTexture',
+__all__ = ['Texture', 'ImageTexture', 'ConstantTexture', 'SpectrumType', 'ScaleTexture', 'MixTexture',
            'BilerpTexture', 'UVTexture', 'Chekcerboard2DTexture', 'Checkboard3DTexture',
            'DotsTexture', 'FBmTexture', 'WrinkledTexture', 'WindyTexture', 'MarbleTexture']
 
-- 
2.43.0


From 48e9bb57188c6f31a0aa5441d11e94a079719017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 143/164] fix: sums of noise octaves

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index fb2ee8a..3e71ed5 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -66,7 +66,7 @@ def FBm(p: 'geo.Point', dpdx: 'geo.Vector', dpdy: 'geo.Vector', omega: FLOAT, ma
 	l = 1.
 	o = 1.
 	for i in range(octaves):
-		sum += o * noise(l * p)
+		s += o * noise(l * p)
 		l *= 1.99  # not 2, since noise() returns 0. at integral grids
 		o *= omega
 	par = foct - octaves
-- 
2.43.0


From 7eebad06e9f5e5ec00ec4ce3503c6585950862fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 144/164] fix: large footprints leave no octave

---
 pytracer/texture/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 3e71ed5..73d439a 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -58,7 +58,7 @@ def FBm(p: 'geo.Point', dpdx: 'geo.Vector', dpdy: 'geo.Vector', omega: FLOAT, ma
 	"""
 	# number of octaves
 	s2 = max(dpdx.sq_length(), dpdy.sq_length())
-	foct = min(max_octaves, 1. - .5 * np.log2(s2))
+	foct = min(max_octaves, max(0., 1. - .5 * np.log2(s2)))
 	octaves = util.ftoi(foct)
 
 	# sum of octaves of noise
@@ -83,7 +83,7 @@ def turbulence(p: 'geo.Point', dpdx: 'geo.Vector', dpdy: 'geo.Vector', omega: FL
 	"""
 	# number of octaves
 	s2 = max(dpdx.sq_length(), dpdy.sq_length())
-	foct = min(max_octaves, 1. - .5 * np.log2(s2))
+	foct = min(max_octaves, max(0., 1. - .5 * np.log2(s2)))
 	octaves = util.ftoi(foct)
 
 	# sum of octaves
-- 
2.43.0


From b21f210cb23e5972920dfbdde408084bdfef20f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 145/164] fix: smooth steps go from zero to one

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 73d439a..92b4bca 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -46,7 +46,7 @@ def smooth_step(lo: FLOAT, hi: FLOAT, val: FLOAT):
 
 	Clip but with smooth interpolation
 	"""
-	v = np.clip(val, lo, hi)
+	v = np.clip((val - lo) / (hi - lo), 0., 1.)
 	return v * v * (3. - 2. * v)
 
 
-- 
2.43.0


From 3076f14b16dfbbd412e8dc79e1ab79703951db46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 146/164] fix: noise gradients keep their length

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 92b4bca..46321aa 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -108,7 +108,7 @@ def _grad(x: INT, y: INT, z: INT, dx, dy, dz):
 	u = dx if h < 8 or h == 12 or h == 13 else dy
 	v = dy if h < 4 or h == 12 or h == 13 else dz
 	if h & 1:
-		u = -1
+		u = -u
 	if h & 2:
 		v = -v
 	return u + v
-- 
2.43.0


From e4f9f953f24dbfa69621d58e6f8d19e7f999bf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 147/164] fix: noise is interpolated along y

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 46321aa..1d40ebe 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -160,7 +160,7 @@ def noise(pnt: 'geo.Point') -> FLOAT:
 	x01 = util.lerp(wx, w001, w101)
 	x11 = util.lerp(wx, w011, w111)
 	y0 = util.lerp(wy, x00, x10)
-	y1 = util.lerp(wz, x01, x11)
+	y1 = util.lerp(wy, x01, x11)
 	return util.lerp(wz, y0, y1)
 
 
-- 
2.43.0


From e6f94fc72cdaee85bd23436b8473a36947a353bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 148/164] fix: derivatives of spherical and cylindrical
 mappings across screen rows

---
 pytracer/texture/texturemap/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/texturemap/__init__.py b/pytracer/texture/texturemap/__init__.py
index e79113b..549b9e4 100644
--- a/pytracer/texture/texturemap/__init__.py
+++ b/pytracer/texture/texturemap/__init__.py
@@ -84,7 +84,7 @@ class SphericalMapping2D(TextureMapping2D):
 
 		sy, ty = self.__sphere(dg.p + delta * dg.dpdy)
 		dsdy = (sy - s) / delta
-		dtdy = (ty - s) / delta
+		dtdy = (ty - t) / delta
 		if dtdy > .5:
 			dtdy = 1. - dtdy
 		elif dtdy < -.5:
@@ -123,7 +123,7 @@ class CylindricalMapping2D(TextureMapping2D):
 
 		sy, ty = self.__cylinder(dg.p + delta * dg.dpdy)
 		dsdy = (sy - s) / delta
-		dtdy = (ty - s) / delta
+		dtdy = (ty - t) / delta
 		if dtdy > .5:
 			dtdy = 1. - dtdy
 		elif dtdy < -.5:
-- 
2.43.0


From e118dd5a683b811e71bcdacf910d0c773375637b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 149/164] fix: cylindrical mappings

---
 pytracer/texture/texturemap/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/texturemap/__init__.py b/pytracer/texture/texturemap/__init__.py
index 549b9e4..3749900 100644
--- a/pytracer/texture/texturemap/__init__.py
+++ b/pytracer/texture/texturemap/__init__.py
@@ -104,7 +104,7 @@ class CylindricalMapping2D(TextureMapping2D):
 		[s, t].
 		"""
 		v = geo.normalize(self.w2t(p) - geo.Point(0., 0., 0.))
-		return [(PI + self.arctan2(v.y, v.x)) * INV_2PI, v.z]
+		return [(PI + np.arctan2(v.y, v.x)) * INV_2PI, v.z]
 
 	def __call__(self, dg: 'geo.DifferentialGeometry') -> [FLOAT]:
 		s, t = self.__cylinder(dg.p)
-- 
2.43.0


From 4bdf0f44e86cc58f551bc43c035f29dced4c7261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 150/164] fix: texture derivatives across the seam of a mapping

---
 pytracer/texture/texturemap/__init__.py | 36 +++++++++++--------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/pytracer/texture/texturemap/__init__.py b/pytracer/texture/texturemap/__init__.py
index 3749900..7a622c7 100644
--- a/pytracer/texture/texturemap/__init__.py
+++ b/pytracer/texture/texturemap/__init__.py
@@ -19,6 +19,18 @@ __all__ = ['TextureMapping2D', 'TextureMapping3D', 'SphericalMapping2D', 'UVMapp
            'CylindricalMapping2D', 'PlannarMapping2D', 'IdentityMapping3D']
 
 
+def _wrap(d: FLOAT) -> FLOAT:
+	"""
+	Change of a texture coordinate that
+	starts over at one, across its seam.
+	"""
+	if d > .5:
+		return d - 1.
+	if d < -.5:
+		return d + 1.
+	return d
+
+
 class TextureMapping2D(object, metaclass=ABCMeta):
 	def __repr__(self):
 		return "{}".format(self.__class__)
@@ -76,19 +88,11 @@ class SphericalMapping2D(TextureMapping2D):
 
 		sx, tx = self.__sphere(dg.p + delta * dg.dpdx)
 		dsdx = (sx - s) / delta
-		dtdx = (tx - t) / delta
-		if dtdx > .5:
-			dtdx = 1. - dtdx
-		elif dtdx < -.5:
-			dtdx = -(dtdx + 1.)
+		dtdx = _wrap(tx - t) / delta
 
 		sy, ty = self.__sphere(dg.p + delta * dg.dpdy)
 		dsdy = (sy - s) / delta
-		dtdy = (ty - t) / delta
-		if dtdy > .5:
-			dtdy = 1. - dtdy
-		elif dtdy < -.5:
-			dtdy = -(dtdy + 1.)
+		dtdy = _wrap(ty - t) / delta
 
 		return [s, t, dsdx, dtdx, dsdy, dtdy]
 
@@ -114,20 +118,12 @@ class CylindricalMapping2D(TextureMapping2D):
 		delta = .1
 
 		sx, tx = self.__cylinder(dg.p + delta * dg.dpdx)
-		dsdx = (sx - s) / delta
+		dsdx = _wrap(sx - s) / delta
 		dtdx = (tx - t) / delta
-		if dtdx > .5:
-			dtdx = 1. - dtdx
-		elif dtdx < -.5:
-			dtdx = -(dtdx + 1.)
 
 		sy, ty = self.__cylinder(dg.p + delta * dg.dpdy)
-		dsdy = (sy - s) / delta
+		dsdy = _wrap(sy - s) / delta
 		dtdy = (ty - t) / delta
-		if dtdy > .5:
-			dtdy = 1. - dtdy
-		elif dtdy < -.5:
-			dtdy = -(dtdy + 1.)
 
 		return [s, t, dsdx, dtdx, dsdy, dtdy]
 
-- 
2.43.0


From 6e84378c1432dc4ad736db43b7ad28915e02683f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:38 +0000
Subject: [PATCH 151/164] fix: lights read their images

---
 pytracer/light/light.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 0daabcc..9e40e04 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -234,12 +234,12 @@ class ProjectionLight(Light):
 		try:
 			import pytracer.utility.imageio as iio
 			texels = iio.read_image(texname)
-			width, height = np.shape(texels)
+			height, width = np.shape(texels)[0:2]
 		except:
 			print('src.core.texture.{}.get_texture(): cannot process file {}, '
 					'use default one-valued MIPMap'.format(self.__class__, texname))
 			texels = None
-			width, height = 0, 0
+			width, height = 1, 1
 
 		if texels is not None:
 			from pytracer.texture import MIPMap
@@ -343,7 +343,6 @@ class GonioPhotometricLight(Light):
 		try:
 			import pytracer.utility.imageio as iio
 			texels = iio.read_image(texname)
-			width, height = np.shape(texels)
 		except:
 			print('src.core.texture.{}.get_texture(): cannot process file {}, '
 					'use default one-valued MIPMap'.format(self.__class__, texname))
@@ -556,7 +555,7 @@ class InfiniteAreaLight(Light):
 			try:
 				import pytracer.utility.imageio as iio
 				texels = iio.read_image(texmap)
-				width, height = np.shape(texels)
+				height, width = np.shape(texels)[0:2]
 			except:
 				print('src.core.texture.{}.get_texture(): cannot process file {}, '
 				'use default one-valued MIPMap'.format(self.__class__, texmap))
-- 
2.43.0


From 8b5cc9504808b04fe8fabf8db8090cd99f888977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:38 +0000
Subject: [PATCH 152/164] fix: radiance looked up in light images

---
 pytracer/light/light.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 9e40e04..4736e46 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -291,7 +291,7 @@ class ProjectionLight(Light):
 
 		s = (pl.x - self.scr_x0) / (self.scr_x1 - self.scr_x0)
 		t = (pl.y - self.scr_y0) / (self.scr_y1 - self.scr_y0)
-		return Spectrum(self.projMap.look_up([s, t]), SpectrumType.ILLUMINANT) 
+		return Spectrum.from_rgb(self.projMap.look_up([s, t]), SpectrumType.ILLUMINANT)
 
 	def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
 			time: FLOAT,) -> ['Spectrum', 'geo.Vector', FLOAT, 'VisibilityTester']:	
@@ -321,7 +321,7 @@ class ProjectionLight(Light):
 		diagonal of the image, scaled
 		by the average intensity.
 		"""
-		return Spectrum( self.projMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT) * \
+		return Spectrum.from_rgb(self.projMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT) * \
 					self.intensity * 2. * PI * (1. - self.cos_width)
 
 	def is_delta_light(self) -> bool:
@@ -376,7 +376,7 @@ class GonioPhotometricLight(Light):
 		s = phi * INV_2PI
 		t = theta * INV_PI
 
-		return Spectrum(self.projMap.look_up([s, t]), SpectrumType.ILLUMINANT)
+		return Spectrum.from_rgb(self.MIPMap.look_up([s, t]), SpectrumType.ILLUMINANT)
 
 	def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
 			time: FLOAT,) -> ['Spectrum', 'geo.Vector', FLOAT, 'VisibilityTester']:	
@@ -397,7 +397,7 @@ class GonioPhotometricLight(Light):
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
 	def power(self, scene: 'Scene') -> 'Spectrum':
-		return 4. * PI * self.intensity * Spectrum(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
+		return 4. * PI * self.intensity * Spectrum.from_rgb(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
 
 	def is_delta_light(self) -> bool:
 		return True
@@ -586,7 +586,7 @@ class InfiniteAreaLight(Light):
 		wh = geo.normalize(self.w2l(rd.d))
 		s = geo.spherical_phi(wh) * INV_2PI
 		t = geo.spherical_theta(wh) * INV_PI
-		return Spectrum.from_rgb(self.radMap.look_up(s, t), SpectrumType.ILLUMINANT)
+		return Spectrum.from_rgb(self.radMap.look_up([s, t]), SpectrumType.ILLUMINANT)
 
 	def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
 			time: FLOAT,) -> ['Spectrum', 'geo.Vector', FLOAT, 'VisibilityTester']:	
-- 
2.43.0


From 5e20e9151cdc88d6f7b822f75849592220a3be06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:38 +0000
Subject: [PATCH 153/164] fix: projected light is scaled by its image and
 distance

---
 pytracer/light/light.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 4736e46..804fef2 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -299,7 +299,7 @@ class ProjectionLight(Light):
 		pdf = 1.
 		vis = VisibilityTester()
 		vis.set_segment(p, pEps, self.pos, 0., time)
-		return [self.intensity / self.__projection(-wi), wi, pdf, vis]
+		return [self.intensity * self.__projection(-wi) / (self.pos - p).sq_length(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
@@ -384,7 +384,7 @@ class GonioPhotometricLight(Light):
 		pdf = 1.
 		vis = VisibilityTester()
 		vis.set_segment(p, pEps, self.pos, 0., time)
-		return [self.intensity / self.__scale(-wi), wi, pdf, vis]
+		return [self.intensity * self.__scale(-wi) / (self.pos - p).sq_length(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
-- 
2.43.0


From 7c98161c560b7fa5703e673d12136a9810c85226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:38 +0000
Subject: [PATCH 154/164] fix: the power of image lights without an image

---
 pytracer/light/light.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 804fef2..f14cbdb 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -321,8 +321,9 @@ class ProjectionLight(Light):
 		diagonal of the image, scaled
 		by the average intensity.
 		"""
-		return Spectrum.from_rgb(self.projMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT) * \
-					self.intensity * 2. * PI * (1. - self.cos_width)
+		avg = Spectrum(1.) if self.projMap is None else \
+			Spectrum.from_rgb(self.projMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
+		return avg * self.intensity * 2. * PI * (1. - self.cos_width)
 
 	def is_delta_light(self) -> bool:
 		return True
@@ -397,7 +398,9 @@ class GonioPhotometricLight(Light):
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
 	def power(self, scene: 'Scene') -> 'Spectrum':
-		return 4. * PI * self.intensity * Spectrum.from_rgb(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
+		avg = Spectrum(1.) if self.MIPMap is None else \
+			Spectrum.from_rgb(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
+		return 4. * PI * self.intensity * avg
 
 	def is_delta_light(self) -> bool:
 		return True
-- 
2.43.0


From fa17c426b1add6a53167f5cb76180d98db32347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:38 +0000
Subject: [PATCH 155/164] fix: rays leave projection lights towards all of
 their image

---
 pytracer/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index f14cbdb..4279b57 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -266,7 +266,7 @@ class ProjectionLight(Light):
 		self.proj_trans = trans.Transform.perspective(fov, self.hither, self.yon)
 
 		# compute cosine of cone
-		self.cos_width = np.cos(np.arctan(np.tan(np.deg2rad(fov) / 2.) * np.sqrt(1. + 1. / (aspect * aspect))))
+		self.cos_width = np.cos(np.arctan(np.tan(np.deg2rad(fov) / 2.) * np.sqrt(1. + max(aspect, 1. / aspect) ** 2)))
 
 	def __projection(self, w: 'geo.Vector') -> 'Spectrum':
 		"""
-- 
2.43.0


From 37be6b3c9ba14a7ee1cc363cc1d58268f5f7e1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:38 +0000
Subject: [PATCH 156/164] fix: densities of environment lights

---
 pytracer/light/light.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 4279b57..96e7f81 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -626,8 +626,8 @@ class InfiniteAreaLight(Light):
 		st = np.sin(theta)
 		if st == 0.:
 			return 0.
-		return self.dist.pdf(phi * INV_2PI, theta * INV_PI / 
-				(2. * PI * PI * st))
+		return self.dist.pdf(phi * INV_2PI, theta * INV_PI) / \
+				(2. * PI * PI * st)
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
-- 
2.43.0


From 002edebde5acdcdffe093287a3702253c6d8704f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:38 +0000
Subject: [PATCH 157/164] fix: directions at the poles of environment lights

---
 pytracer/light/light.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 96e7f81..66ffc16 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -607,9 +607,7 @@ class InfiniteAreaLight(Light):
 		wi = self.l2w(geo.Vector(st * cp, st * sp, ct))
 
 		# compute pdf for sampled inf light direction
-		if st == 0.:
-			pdf = 0.
-		pdf = pdf / (2. * PI * PI * st)
+		pdf = 0. if st == 0. else pdf / (2. * PI * PI * st)
 
 
 		# return radiance value
@@ -660,11 +658,9 @@ class InfiniteAreaLight(Light):
 		ray = geo.Ray(pnt + rad * (-d), d, 0., np.inf, time=time)
 
 		# compute pdf
-		dir_pdf = pdf / (2. * PI * PI * st)
+		dir_pdf = 0. if st == 0. else pdf / (2. * PI * PI * st)
 		area_pdf = 1. / (PI * rad * rad)
 		pdf = dir_pdf * area_pdf
-		if st == 0.:
-			pdf == 0.
 
 		return [ray, Ns, pdf, Spectrum.from_rgb(self.radMap.look_up([uv[0], uv[1]]), SpectrumType.ILLUMINANT)]
 
-- 
2.43.0


From 4a23350d1685eb03195367e3dd4a2df37cda7dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:39 +0000
Subject: [PATCH 158/164] fix: rays entering from an environment light

---
 pytracer/light/light.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 66ffc16..21ef84b 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -436,8 +436,8 @@ class DistantLight(Light):
 		"""
 		# choose point on disk oriented towards light
 		ctr, rad = scene.world_bound().bounding_sphere()
-		_, v1, v2 = geo.coordinate_system(self.di)
-		d1, d2 = mc.concentric_sample_disk(ls.u_pos[0], ls.u_pos[1])
+		_, v1, v2 = geo.coordinate_system(d)
+		d1, d2 = mc.concentric_sample_disk(u1, u2)
 		pnt = ctr + rad * (d1 * v1 + d2 * v2)
 
 		# set ray
@@ -650,8 +650,8 @@ class InfiniteAreaLight(Light):
 
 		# choose point on disk oriented towards light
 		ctr, rad = scene.world_bound().bounding_sphere()
-		_, v1, v2 = geo.coordinate_system(self.di)
-		d1, d2 = mc.concentric_sample_disk(ls.u_pos[0], ls.u_pos[1])
+		_, v1, v2 = geo.coordinate_system(d)
+		d1, d2 = mc.concentric_sample_disk(u1, u2)
 		pnt = ctr + rad * (d1 * v1 + d2 * v2)
 
 		# set ray
-- 
2.43.0


From 91c9a3db10bd5b00da1bd140c7aa5e02d8e9b57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:39 +0000
Subject: [PATCH 159/164] fix: all bright directions of an environment are
 sampled

---
 pytracer/light/light.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 21ef84b..8faa481 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -573,13 +573,14 @@ class InfiniteAreaLight(Light):
 		# init sampling PDFs <725>
 		# compute image for envir. map
 		img = np.empty([height, width], dtype=FLOAT)
-		filt = 1. / max(width, height)
+		# twice a texel, so that a direction next to a bright texel is drawn too
+		filt = 2. / max(width, height)
 
 		for v in range(height):
-			vp = v / height
+			vp = (v + .5) / height
 			st = np.sin(PI * (v + .5) / height)
 			for u in range(width):
-				up = u / width
+				up = (u + .5) / width
 				img[v][u] = self.radMap.look_up([up, vp, filt]).y()
 
 		# compute sampling distribution
-- 
2.43.0


From 5e18bc28ad7b4d3409da508988ff90dbdfd22337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:29 +0000
Subject: [PATCH 160/164] fix: axis of rays leaving distant lights

---
 pytracer/light/light.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 8faa481..effed1d 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -436,8 +436,8 @@ class DistantLight(Light):
 		"""
 		# choose point on disk oriented towards light
 		ctr, rad = scene.world_bound().bounding_sphere()
-		_, v1, v2 = geo.coordinate_system(d)
-		d1, d2 = mc.concentric_sample_disk(u1, u2)
+		_, v1, v2 = geo.coordinate_system(self.di)
+		d1, d2 = mc.concentric_sample_disk(ls.u_pos[0], ls.u_pos[1])
 		pnt = ctr + rad * (d1 * v1 + d2 * v2)
 
 		# set ray
-- 
2.43.0


From 89d0d3fdab19bb73403202b84a7b1c6e18fddb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:16 +0000
Subject: [PATCH 161/164] fix: a camera declared after look-at stands at the
 eye

---
 pytracer/interface/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index eb5523d..0e95d6b 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -107,7 +107,7 @@ def trans_look_at(eye: list, at: list, up: list):
 	for i, _ in enumerate(inter.TRANSFORM_SET):
 		inter.TRANSFORM_SET[i] *= trans.Transform.look_at(geo.Point.from_arr(eye),
 		                                                  geo.Point.from_arr(at),
-		                                                  geo.Vector.from_arr(up))
+		                                                  geo.Vector.from_arr(up)).inverse()
 
 
 @check_system_inited
-- 
2.43.0


From 04417a397f9dfedc08008f52f7470f3fbc1ec7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:16 +0000
Subject: [PATCH 162/164] fix: grey and palette images can be read

---
 pytracer/utility/imageio.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pytracer/utility/imageio.py b/pytracer/utility/imageio.py
index 76c23c7..784b461 100644
--- a/pytracer/utility/imageio.py
+++ b/pytracer/utility/imageio.py
@@ -29,11 +29,8 @@ def read_image(filename: str) -> ['spec.Spectrum']:
 	specs = None
 	img = None
 	with PIL.Image.open(filename) as pic:
-		img = np.array(pic)
-		width, height, chn = np.shape(img) # note the order of height and width
-		if chn >= 4:
-			# desert alpha
-			img = img[:,:,0:3]
+		# three channels per pixel, desert alpha
+		img = np.array(pic.convert('RGB'))
 
 	if img is not None:
 		return img
-- 
2.43.0


From eff9e8cff95f5f62fc45b0da7a9825951513c180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:25 +0000
Subject: [PATCH 163/164] fix: the medium dims an environment seen along a path

---
 pytracer/integrator/surface/path.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytracer/integrator/surface/path.py b/pytracer/integrator/surface/path.py
index 17c4889..b03aa44 100644
--- a/pytracer/integrator/surface/path.py
+++ b/pytracer/integrator/surface/path.py
@@ -130,6 +130,7 @@ class PathIntegrator(SurfaceIntegrator):
 			if not hit:
 				# ambient light
 				if specular_bounce:
+					path_throughput = path_throughput * renderer.transmittance(scene, ray, None, rng)
 					for light in scene.lights:
 						L += path_throughput * light.le(ray)
 				break
-- 
2.43.0


From fa653053b301f6a67385c78f7cb516cb59d2e944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:07 +0000
Subject: [PATCH 164/164] fix: sampled points face the hit side on triangles
 without usable coordinates

---
 pytracer/shape/triangle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 642184e..3fedfd4 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -158,9 +158,10 @@ class Triangle(Shape):
 				.cross(self.mesh.p[self.mesh.vertexIndex[self.v+2]] - self.mesh.p[self.mesh.vertexIndex[self.v]])))
 
 		# same side as the normal of a hit, which follows the parameterization
+		# (and is that of the arbitrary system if there is none)
 		uvs = self.get_uvs()
 		flip = self.ro ^ self.transform_swaps_handedness
-		if (uvs[0][0] - uvs[2][0]) * (uvs[1][1] - uvs[2][1]) < (uvs[1][0] - uvs[2][0]) * (uvs[0][1] - uvs[2][1]):
+		if (uvs[0][0] - uvs[2][0]) * (uvs[1][1] - uvs[2][1]) <= (uvs[1][0] - uvs[2][0]) * (uvs[0][1] - uvs[2][1]):
 			flip = not flip
 		if flip:
 			Ns *= -1.
-- 
2.43.0

