From a737eea280fc8e94fe6659e829d0e72a9c6bbaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 01/50] fix: polar angle from atan2 so that axis points and the
 origin convert to spherical without NaN

---
 src/coordinax/_src/vectors/d3/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/transform.py b/src/coordinax/_src/vectors/d3/transform.py
index a34d35e..870ec59 100644
--- a/src/coordinax/_src/vectors/d3/transform.py
+++ b/src/coordinax/_src/vectors/d3/transform.py
@@ -221,7 +221,7 @@ def represent_as(
 
     """
     r = xp.sqrt(current.x**2 + current.y**2 + current.z**2)
-    theta = xp.acos(current.z / r)
+    theta = xp.atan2(xp.sqrt(current.x**2 + current.y**2), current.z)
     phi = xp.atan2(current.y, current.x)
     return target(r=r, theta=theta, phi=phi)
 
@@ -305,7 +305,7 @@ def represent_as(
 
     """
     r = xp.sqrt(current.rho**2 + current.z**2)
-    theta = xp.acos(current.z / r)
+    theta = xp.atan2(current.rho, current.z)
     return target(r=r, theta=theta, phi=current.phi)
 
 
-- 
2.43.0


From a7db34e351abf614322412a04abe9384fdedf6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 02/50] fix: re-expressing prolate coordinates with a new Delta
 does not require identical units

---
 src/coordinax/_src/vectors/d3/transform.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/transform.py b/src/coordinax/_src/vectors/d3/transform.py
index 870ec59..fe9bfbf 100644
--- a/src/coordinax/_src/vectors/d3/transform.py
+++ b/src/coordinax/_src/vectors/d3/transform.py
@@ -6,7 +6,6 @@ __all__: list[str] = []
 from typing import Any
 
 import equinox as eqx
-import jax
 from plum import dispatch
 
 import quaxed.numpy as xp
@@ -764,14 +763,10 @@ def represent_as(
     Array(True, dtype=bool)
 
     """
-    Delta = kwargs.get("Delta", current.Delta)
-    return jax.lax.cond(
-        "Delta" in kwargs,
-        lambda Delta: represent_as(
-            represent_as(current, CylindricalPos), target, Delta=Delta
-        ),
-        lambda _: current,
-        Delta,
+    if "Delta" not in kwargs:
+        return current
+    return represent_as(
+        represent_as(current, CylindricalPos), target, Delta=kwargs["Delta"]
     )
 
 
-- 
2.43.0


From f39a9ce3300bcd16de3d1a16de1d3b90292f4f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 03/50] fix: prolate coordinates of the foci are finite

---
 src/coordinax/_src/vectors/d3/transform.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/transform.py b/src/coordinax/_src/vectors/d3/transform.py
index fe9bfbf..d642106 100644
--- a/src/coordinax/_src/vectors/d3/transform.py
+++ b/src/coordinax/_src/vectors/d3/transform.py
@@ -683,10 +683,14 @@ def represent_as(
 
     # compute mu and nu depending on sign of diff_ - avoids dividing by a small number
     pos_mu_minus_delta = 0.5 * (D + diff_)
-    pos_delta_minus_nu = Delta2 * R2 / pos_mu_minus_delta
+    pos_delta_minus_nu = Delta2 * R2 / xp.where(
+        pos_mu_minus_delta == 0, Delta2, pos_mu_minus_delta
+    )
 
     neg_delta_minus_nu = 0.5 * (D - diff_)
-    neg_mu_minus_delta = Delta2 * R2 / neg_delta_minus_nu
+    neg_mu_minus_delta = Delta2 * R2 / xp.where(
+        neg_delta_minus_nu == 0, Delta2, neg_delta_minus_nu
+    )
 
     # Select based on condition
     mu_minus_delta = xp.where(diff_ >= 0, pos_mu_minus_delta, neg_mu_minus_delta)
-- 
2.43.0


From 11974ad93bbe420d5a24d072c2fb6e097f3eef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 04/50] fix: accept a negative distance modulus as a radial
 coordinate

---
 src/coordinax/_src/vectors/checks.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coordinax/_src/vectors/checks.py b/src/coordinax/_src/vectors/checks.py
index b94a9a0..6dd83f9 100644
--- a/src/coordinax/_src/vectors/checks.py
+++ b/src/coordinax/_src/vectors/checks.py
@@ -10,6 +10,7 @@ import unxt as u
 from unxt.quantity import AbstractQuantity
 
 from coordinax._src.angles import Angle, BatchableAngleQ
+from coordinax._src.distances import DistanceModulus
 
 _0d = Angle(0, "rad")
 _pid = Angle(180, "deg")
@@ -36,6 +37,9 @@ def check_r_non_negative(r: AbstractQuantity) -> AbstractQuantity:
     ... except Exception: pass
 
     """
+    # A distance modulus is logarithmic: every value is a positive distance.
+    if isinstance(r, DistanceModulus):
+        return r
     return check_non_negative(r, name="radial distance r")
 
 
-- 
2.43.0


From a12f058e65559bbd2e456a3b9f3ddc172079e262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 05/50] fix: add and subtract Cartesian vectors whose
 components have different units

---
 src/coordinax/_src/vectors/d1/cartesian.py | 21 ++++++++++++++++-----
 src/coordinax/_src/vectors/d2/cartesian.py | 17 +++++++++++++----
 src/coordinax/_src/vectors/d3/cartesian.py | 20 +++++++++++++++-----
 3 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/src/coordinax/_src/vectors/d1/cartesian.py b/src/coordinax/_src/vectors/d1/cartesian.py
index 97b8bc3..9d6b3fd 100644
--- a/src/coordinax/_src/vectors/d1/cartesian.py
+++ b/src/coordinax/_src/vectors/d1/cartesian.py
@@ -14,6 +14,7 @@ from quax import register
 
 import quaxed.numpy as jnp
 import unxt as u
+from dataclassish import field_items
 from quaxed import lax as qlax
 
 import coordinax._src.typing as ct
@@ -89,7 +90,9 @@ def _add_qq(lhs: CartesianPos1D, rhs: AbstractPos, /) -> CartesianPos1D:
 
     """
     cart = rhs.represent_as(CartesianPos1D)
-    return jax.tree.map(qlax.add, lhs, cart)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(cart, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -158,7 +161,9 @@ def _sub_q1d_pos(self: CartesianPos1D, other: AbstractPos, /) -> CartesianPos1D:
 
     """
     cart = other.represent_as(CartesianPos1D)
-    return jax.tree.map(qlax.sub, self, cart)
+    return replace(
+        self, **{k: qlax.sub(v, getattr(cart, k)) for k, v in field_items(self)}
+    )
 
 
 #####################################################################
@@ -225,7 +230,9 @@ def _add_pp(lhs: CartesianVel1D, rhs: CartesianVel1D, /) -> CartesianVel1D:
     Quantity['speed'](Array(2, dtype=int32), unit='km / s')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -316,7 +323,9 @@ def _add_aa(lhs: CartesianAcc1D, rhs: CartesianAcc1D, /) -> CartesianAcc1D:
     Quantity['acceleration'](Array(2, dtype=int32), unit='km / s2')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -371,4 +380,6 @@ def _sub_a1_a1(self: CartesianAcc1D, other: CartesianAcc1D, /) -> CartesianAcc1D
     Quantity['acceleration'](Array(-1, dtype=int32, ...), unit='m / s2')
 
     """
-    return jax.tree.map(qlax.sub, self, other)
+    return replace(
+        self, **{k: qlax.sub(v, getattr(other, k)) for k, v in field_items(self)}
+    )
diff --git a/src/coordinax/_src/vectors/d2/cartesian.py b/src/coordinax/_src/vectors/d2/cartesian.py
index 5b097ba..d397af1 100644
--- a/src/coordinax/_src/vectors/d2/cartesian.py
+++ b/src/coordinax/_src/vectors/d2/cartesian.py
@@ -18,6 +18,7 @@ from quax import register
 
 import quaxed.numpy as jnp
 import unxt as u
+from dataclassish import field_items
 from quaxed import lax as qlax
 from unxt.quantity import AbstractQuantity, Quantity
 
@@ -98,7 +99,9 @@ def _add_cart2d_pos(lhs: CartesianPos2D, rhs: AbstractPos, /) -> CartesianPos2D:
 
     """
     cart = rhs.represent_as(CartesianPos2D)
-    return jax.tree.map(qlax.add, lhs, cart)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(cart, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -155,7 +158,9 @@ def _sub_cart2d_pos2d(lhs: CartesianPos2D, rhs: AbstractPos, /) -> CartesianPos2
 
     """
     cart = rhs.represent_as(CartesianPos2D)
-    return jax.tree.map(qlax.sub, lhs, cart)
+    return replace(
+        lhs, **{k: qlax.sub(v, getattr(cart, k)) for k, v in field_items(lhs)}
+    )
 
 
 #####################################################################
@@ -232,7 +237,9 @@ def _add_pp(lhs: CartesianVel2D, rhs: CartesianVel2D, /) -> CartesianVel2D:
     Quantity['speed'](Array(2., dtype=float32), unit='km / s')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -345,7 +352,9 @@ def _add_aa(lhs: CartesianAcc2D, rhs: CartesianAcc2D, /) -> CartesianAcc2D:
     Quantity['acceleration'](Array(6., dtype=float32), unit='km / s2')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
diff --git a/src/coordinax/_src/vectors/d3/cartesian.py b/src/coordinax/_src/vectors/d3/cartesian.py
index 1dffbdc..c5de3dc 100644
--- a/src/coordinax/_src/vectors/d3/cartesian.py
+++ b/src/coordinax/_src/vectors/d3/cartesian.py
@@ -148,7 +148,9 @@ def _sub_cart3d_pos(lhs: CartesianPos3D, rhs: AbstractPos, /) -> CartesianPos3D:
 
     """
     cart = rhs.represent_as(CartesianPos3D)
-    return jax.tree.map(qlax.sub, lhs, cart)
+    return replace(
+        lhs, **{k: qlax.sub(v, getattr(cart, k)) for k, v in field_items(lhs)}
+    )
 
 
 # =====================================================
@@ -286,7 +288,9 @@ def _add_pp(lhs: CartesianVel3D, rhs: CartesianVel3D, /) -> CartesianVel3D:
     Quantity['speed'](Array(4., dtype=float32), unit='km / s')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.sub_p)  # type: ignore[misc]
@@ -302,7 +306,9 @@ def _sub_v3_v3(lhs: CartesianVel3D, other: CartesianVel3D, /) -> CartesianVel3D:
     Quantity['speed'](Array(0., dtype=float32), unit='km / s')
 
     """
-    return jax.tree.map(qlax.sub, lhs, other)
+    return replace(
+        lhs, **{k: qlax.sub(v, getattr(other, k)) for k, v in field_items(lhs)}
+    )
 
 
 #####################################################################
@@ -386,7 +392,9 @@ def from_(
 @register(jax.lax.add_p)  # type: ignore[misc]
 def _add_aa(lhs: CartesianAcc3D, rhs: CartesianAcc3D, /) -> CartesianAcc3D:
     """Add two Cartesian accelerations."""
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -415,4 +423,6 @@ def _mul_ac3(lhs: ArrayLike, rhs: CartesianPos3D, /) -> CartesianPos3D:
 @register(jax.lax.sub_p)  # type: ignore[misc]
 def _sub_a3_a3(lhs: CartesianAcc3D, rhs: CartesianAcc3D, /) -> CartesianAcc3D:
     """Subtract two accelerations."""
-    return jax.tree.map(qlax.sub, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.sub(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
-- 
2.43.0


From 56d1caa35c039298817ecc9ebe6ccbcf915ef2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 06/50] fix: equality of vectors compares physical quantities,
 not raw values of identical structure

---
 src/coordinax/_src/vectors/base/base.py     | 8 ++++----
 src/coordinax/_src/vectors/base/base_pos.py | 5 ++++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index f45070a..eb5b19c 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -10,12 +10,13 @@ __all__ = [
 from abc import abstractmethod
 from collections.abc import Callable, Mapping
 from enum import Enum
+from functools import reduce
 from types import MappingProxyType
 from typing import TYPE_CHECKING, Any, NoReturn, TypeVar
 
 import jax
 import numpy as np
-from jax import Device, tree
+from jax import Device
 from jaxtyping import Array, ArrayLike, Bool
 from plum import dispatch
 from quax import ArrayValue, register
@@ -613,9 +614,8 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
         if type(other) is not type(self):
             return NotImplemented
 
-        comp_tree = tree.map(jnp.equal, self, other)
-        comp_leaves = jnp.array(tree.leaves(comp_tree))
-        return jax.numpy.logical_and.reduce(comp_leaves)
+        comps = [jnp.equal(v, getattr(other, k)) for k, v in field_items(self)]
+        return reduce(jax.numpy.logical_and, comps)
 
     # ---------------------------------------------------------------
     # methods
diff --git a/src/coordinax/_src/vectors/base/base_pos.py b/src/coordinax/_src/vectors/base/base_pos.py
index 4326807..94dee96 100644
--- a/src/coordinax/_src/vectors/base/base_pos.py
+++ b/src/coordinax/_src/vectors/base/base_pos.py
@@ -133,7 +133,10 @@ class AbstractPos(AvalMixin, AbstractVector):  # pylint: disable=abstract-method
         if not isinstance(other, AbstractPos):
             return NotImplemented
 
-        rhs = other.represent_as(type(self))
+        # Only convert between types: the same type needs no conversion (which
+        # may require extra arguments or not be possible).
+        same = type(other) is type(self)
+        rhs = other if same else other.represent_as(type(self))
         return super().__eq__(rhs)
 
     # ===============================================================
-- 
2.43.0


From fea4d401e88878c0de6ad82a76fe0445e0d3abf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:59 +0000
Subject: [PATCH 07/50] fix: forgiving spherical constructors accept any
 latitude, distance moduli, parallaxes and broadcastable shapes, and wrap the
 azimuth

---
 .../_src/vectors/d3/lonlatspherical.py        | 29 ++++++++++---------
 .../_src/vectors/d3/mathspherical.py          | 20 ++++++-------
 src/coordinax/_src/vectors/d3/spherical.py    | 20 ++++++-------
 3 files changed, 36 insertions(+), 33 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/lonlatspherical.py b/src/coordinax/_src/vectors/d3/lonlatspherical.py
index feb7a9f..dd9c73d 100644
--- a/src/coordinax/_src/vectors/d3/lonlatspherical.py
+++ b/src/coordinax/_src/vectors/d3/lonlatspherical.py
@@ -13,7 +13,6 @@ from typing_extensions import override
 
 import equinox as eqx
 
-import quaxed.lax as qlax
 import quaxed.numpy as jnp
 from dataclassish.converters import Unless
 from unxt.quantity import AbstractQuantity, Quantity
@@ -25,6 +24,7 @@ from .base_spherical import (
     AbstractSphericalVel,
     _90d,
     _180d,
+    _360d,
 )
 from coordinax._src.angles import Angle, BatchableAngle
 from coordinax._src.distances import AbstractDistance, BatchableDistance, Distance
@@ -222,24 +222,27 @@ def from_(
     lat = fields["lat"].metadata["converter"](lat)
     distance = fields["distance"].metadata["converter"](distance)
 
-    # 2) handle negative distances
-    distance_pred = distance < jnp.zeros_like(distance)
-    distance = qlax.select(distance_pred, -distance, distance)
-    lon = qlax.select(distance_pred, lon + _180d, lon)
-    lat = qlax.select(distance_pred, -lat, lat)
+    # 2) handle negative distances (parallaxes and distance moduli encode none)
+    if isinstance(distance, Distance):
+        distance_pred = distance < jnp.zeros_like(distance)
+        distance = jnp.where(distance_pred, -distance, distance)
+        lon = jnp.where(distance_pred, lon + _180d, lon)
+        lat = jnp.where(distance_pred, -lat, lat)
 
     # 3) Handle latitude outside of [-90, 90] degrees
-    # TODO: fix when lat < -180, lat > 180
+    lat_turns = jnp.mod(lat + _180d, _360d) - _180d  # wrap to [-180, 180) deg
+    lat = jnp.where(jnp.abs(lat) > _180d, lat_turns, lat)
+
     lat_pred = lat < -_90d
-    lat = qlax.select(lat_pred, -_180d - lat, lat)
-    lon = qlax.select(lat_pred, lon + _180d, lon)
+    lat = jnp.where(lat_pred, -_180d - lat, lat)
+    lon = jnp.where(lat_pred, lon + _180d, lon)
 
     lat_pred = lat > _90d
-    lat = qlax.select(lat_pred, _180d - lat, lat)
-    lon = qlax.select(lat_pred, lon + _180d, lon)
+    lat = jnp.where(lat_pred, _180d - lat, lat)
+    lon = jnp.where(lat_pred, lon + _180d, lon)
 
-    # 4) Construct. This also handles the longitude wrapping
-    return cls(lon=lon, lat=lat, distance=distance)
+    # 4) Construct, wrapping the azimuth that the steps above have moved
+    return cls(lon=converter_azimuth_to_range(lon), lat=lat, distance=distance)
 
 
 ##############################################################################
diff --git a/src/coordinax/_src/vectors/d3/mathspherical.py b/src/coordinax/_src/vectors/d3/mathspherical.py
index 63a1195..55a91c4 100644
--- a/src/coordinax/_src/vectors/d3/mathspherical.py
+++ b/src/coordinax/_src/vectors/d3/mathspherical.py
@@ -15,7 +15,6 @@ import jax
 from jaxtyping import ArrayLike
 from quax import register
 
-import quaxed.lax as qlax
 import quaxed.numpy as jnp
 from dataclassish import replace
 from dataclassish.converters import Unless
@@ -167,20 +166,21 @@ def from_(
     theta = fields["theta"].metadata["converter"](theta)
     phi = fields["phi"].metadata["converter"](phi)
 
-    # 2) handle negative distances
-    r_pred = r < jnp.zeros_like(r)
-    r = qlax.select(r_pred, -r, r)
-    theta = qlax.select(r_pred, theta + _180d, theta)
-    phi = qlax.select(r_pred, _180d - phi, phi)
+    # 2) handle negative distances (parallaxes and distance moduli encode none)
+    if isinstance(r, Distance):
+        r_pred = r < jnp.zeros_like(r)
+        r = jnp.where(r_pred, -r, r)
+        theta = jnp.where(r_pred, theta + _180d, theta)
+        phi = jnp.where(r_pred, _180d - phi, phi)
 
     # 3) Handle polar angle outside of [0, 180] degrees
     phi = jnp.mod(phi, _360d)  # wrap to [0, 360) deg
     phi_pred = phi < _180d
-    phi = qlax.select(phi_pred, phi, _360d - phi)
-    theta = qlax.select(phi_pred, theta, theta + _180d)
+    phi = jnp.where(phi_pred, phi, _360d - phi)
+    theta = jnp.where(phi_pred, theta, theta + _180d)
 
-    # 4) Construct. This also handles the azimuthal angle wrapping
-    return cls(r=r, theta=theta, phi=phi)
+    # 4) Construct, wrapping the azimuth that the steps above have moved
+    return cls(r=r, theta=converter_azimuth_to_range(theta), phi=phi)
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
diff --git a/src/coordinax/_src/vectors/d3/spherical.py b/src/coordinax/_src/vectors/d3/spherical.py
index f7dc3db..0cab1d3 100644
--- a/src/coordinax/_src/vectors/d3/spherical.py
+++ b/src/coordinax/_src/vectors/d3/spherical.py
@@ -7,7 +7,6 @@ from typing import final
 
 import equinox as eqx
 
-import quaxed.lax as qlax
 import quaxed.numpy as jnp
 import unxt as u
 from dataclassish.converters import Unless
@@ -145,20 +144,21 @@ def from_(
     theta = fields["theta"].metadata["converter"](theta)
     phi = fields["phi"].metadata["converter"](phi)
 
-    # 2) handle negative distances
-    r_pred = r < jnp.zeros_like(r)
-    r = qlax.select(r_pred, -r, r)
-    phi = qlax.select(r_pred, phi + _180d, phi)
-    theta = qlax.select(r_pred, _180d - theta, theta)
+    # 2) handle negative distances (parallaxes and distance moduli encode none)
+    if isinstance(r, Distance):
+        r_pred = r < jnp.zeros_like(r)
+        r = jnp.where(r_pred, -r, r)
+        phi = jnp.where(r_pred, phi + _180d, phi)
+        theta = jnp.where(r_pred, _180d - theta, theta)
 
     # 3) Handle polar angle outside of [0, 180] degrees
     theta = jnp.mod(theta, _360d)  # wrap to [0, 360) deg
     theta_pred = theta < _180d
-    theta = qlax.select(theta_pred, theta, _360d - theta)
-    phi = qlax.select(theta_pred, phi, phi + _180d)
+    theta = jnp.where(theta_pred, theta, _360d - theta)
+    phi = jnp.where(theta_pred, phi, phi + _180d)
 
-    # 4) Construct. This also handles the azimuthal angle wrapping
-    return cls(r=r, theta=theta, phi=phi)
+    # 4) Construct, wrapping the azimuth that the steps above have moved
+    return cls(r=r, theta=theta, phi=converter_azimuth_to_range(phi))
 
 
 ##############################################################################
-- 
2.43.0


From 9443def1319e18b716233c2fa614ca643d397b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 08/50] fix: scaling and dividing positions by any scalar
 scales the point, not the angles or the parallax

---
 src/coordinax/_src/vectors/base/base_pos.py   |  5 +++++
 src/coordinax/_src/vectors/d2/polar.py        |  7 +++++--
 .../_src/vectors/d3/mathspherical.py          |  8 ++++++--
 src/coordinax/_src/vectors/d4/spacetime.py    | 19 ++++++++++++++++++-
 4 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/base_pos.py b/src/coordinax/_src/vectors/base/base_pos.py
index 94dee96..64a76e4 100644
--- a/src/coordinax/_src/vectors/base/base_pos.py
+++ b/src/coordinax/_src/vectors/base/base_pos.py
@@ -217,6 +217,11 @@ def _div_pos_v(lhs: AbstractPos, rhs: ArrayLike) -> AbstractPos:
     Quantity['length'](Array(0.5, dtype=float32), unit='m')
 
     """
+    # Only Cartesian components scale with the vector.
+    cart_cls = lhs._cartesian_cls  # noqa: SLF001
+    if not isinstance(lhs, cart_cls):
+        return qlax.div(lhs.represent_as(cart_cls), rhs).represent_as(type(lhs))
+
     return replace(
         lhs, **{k: jnp.divide(v, rhs) for k, v in field_items(AttrFilter, lhs)}
     )
diff --git a/src/coordinax/_src/vectors/d2/polar.py b/src/coordinax/_src/vectors/d2/polar.py
index aaac9d7..7fc23af 100644
--- a/src/coordinax/_src/vectors/d2/polar.py
+++ b/src/coordinax/_src/vectors/d2/polar.py
@@ -10,6 +10,7 @@ import jax
 from jaxtyping import ArrayLike
 from quax import register
 
+import quaxed.numpy as jnp
 import unxt as u
 from dataclassish import replace
 from dataclassish.converters import Unless
@@ -88,8 +89,10 @@ def _mul_p_vpolar(lhs: ArrayLike, rhs: PolarPos, /) -> PolarPos:
     lhs = eqx.error_if(
         lhs, any(jax.numpy.shape(lhs)), f"must be a scalar, not {type(lhs)}"
     )
-    # Scale the radial distance
-    return replace(rhs, r=lhs * rhs.r)
+    # Scale the radial distance. A negative scale also turns the vector by 180 deg.
+    opposite = converter_azimuth_to_range(rhs.phi + Angle(180, "deg"))
+    phi = jnp.where(lhs < 0, opposite, rhs.phi)
+    return replace(rhs, r=jnp.abs(lhs) * rhs.r.distance, phi=phi)
 
 
 #####################################################################
diff --git a/src/coordinax/_src/vectors/d3/mathspherical.py b/src/coordinax/_src/vectors/d3/mathspherical.py
index 55a91c4..097bff7 100644
--- a/src/coordinax/_src/vectors/d3/mathspherical.py
+++ b/src/coordinax/_src/vectors/d3/mathspherical.py
@@ -215,8 +215,12 @@ def _mul_p_vmsph(lhs: ArrayLike, rhs: MathSphericalPos, /) -> MathSphericalPos:
     lhs = eqx.error_if(
         lhs, any(jax.numpy.shape(lhs)), f"must be a scalar, not {type(lhs)}"
     )
-    # Scale the radial distance
-    return replace(rhs, r=lhs * rhs.r)
+    # Scale the radial distance. A negative scale also points the vector to the
+    # antipode.
+    opposite = converter_azimuth_to_range(rhs.theta + _180d)
+    theta = jnp.where(lhs < 0, opposite, rhs.theta)
+    phi = jnp.where(lhs < 0, _180d - rhs.phi, rhs.phi)
+    return replace(rhs, r=jnp.abs(lhs) * rhs.r.distance, theta=theta, phi=phi)
 
 
 ##############################################################################
diff --git a/src/coordinax/_src/vectors/d4/spacetime.py b/src/coordinax/_src/vectors/d4/spacetime.py
index bfe21a8..0bf3b03 100644
--- a/src/coordinax/_src/vectors/d4/spacetime.py
+++ b/src/coordinax/_src/vectors/d4/spacetime.py
@@ -11,7 +11,7 @@ import equinox as eqx
 import jax
 import jax.numpy as jnp
 import numpy as np
-from jaxtyping import Shaped
+from jaxtyping import ArrayLike, Shaped
 from quax import register
 
 import quaxed.numpy as jnp
@@ -362,3 +362,20 @@ def _sub_4v_4v(lhs: FourVector, rhs: FourVector) -> FourVector:
 
     """
     return replace(lhs, t=lhs.t - rhs.t, q=lhs.q - rhs.q)
+
+
+@register(jax.lax.div_p)  # type: ignore[misc]
+def _div_4v_v(lhs: FourVector, rhs: ArrayLike) -> FourVector:
+    """Divide a 4-vector by a scalar.
+
+    Examples
+    --------
+    >>> import unxt as u
+    >>> import coordinax as cx
+
+    >>> w = cx.FourVector(t=u.Quantity(1, "s"), q=u.Quantity([1, 2, 3], "m"))
+    >>> (w / 2).t
+    Quantity['time'](Array(0.5, dtype=float32), unit='s')
+
+    """
+    return replace(lhs, t=lhs.t / rhs, q=lhs.q / rhs)
-- 
2.43.0


From 8d1ea35a8ddc366df0ec9c4fa554eb9721c06c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 09/50] fix: simplifying two consecutive rotations keeps their
 order

---
 src/coordinax/_src/operators/galilean/rotation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/operators/galilean/rotation.py b/src/coordinax/_src/operators/galilean/rotation.py
index 3c66d47..b686d49 100644
--- a/src/coordinax/_src/operators/galilean/rotation.py
+++ b/src/coordinax/_src/operators/galilean/rotation.py
@@ -432,8 +432,9 @@ def simplify_op(op1: GalileanRotation, op2: GalileanRotation) -> GalileanRotatio
     >>> op3
     GalileanRotation(rotation=f32[3,3])
 
-    >>> jnp.allclose(op3.rotation, op1.rotation @ op2.rotation)
+    >>> jnp.allclose(op3.rotation, op2.rotation @ op1.rotation)
     Array(True, dtype=bool)
 
     """
-    return GalileanRotation(rotation=op1.rotation @ op2.rotation)
+    # `op1` is applied first
+    return GalileanRotation(rotation=op2.rotation @ op1.rotation)
-- 
2.43.0


From 838fa961f60f1b1b1113ff52008124afc2f72e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 10/50] fix: composing an operator with a Pipe on the right

---
 src/coordinax/_src/operators/pipe.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/coordinax/_src/operators/pipe.py b/src/coordinax/_src/operators/pipe.py
index eee7760..3e71547 100644
--- a/src/coordinax/_src/operators/pipe.py
+++ b/src/coordinax/_src/operators/pipe.py
@@ -156,6 +156,20 @@ class Pipe(AbstractCompositeOperator):
         # Append single operators
         return replace(self, operators=(*self, other))
 
+    def __ror__(self, other: AbstractOperator) -> "Pipe":
+        """Prepend another operator.
+
+        Examples
+        --------
+        >>> import coordinax as cx
+
+        >>> pipe = cx.ops.Pipe((cx.ops.GalileanBoost.from_([1, 2, 3], "km/s"),))
+        >>> (cx.ops.Identity() | pipe).operators
+        (Identity(), GalileanBoost(CartesianVel3D( ... )))
+
+        """
+        return replace(self, operators=(other, *self.operators))
+
     def __repr__(self) -> str:
         ops = repr(self.operators)
         if "\n" in ops:
-- 
2.43.0


From 8dcd3eca6118e17427a7430249a49fca0589af34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 11/50] fix: simplify spatial translations of any dimension

---
 src/coordinax/_src/operators/galilean/spatial_translation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/operators/galilean/spatial_translation.py b/src/coordinax/_src/operators/galilean/spatial_translation.py
index 873627e..4fc86dc 100644
--- a/src/coordinax/_src/operators/galilean/spatial_translation.py
+++ b/src/coordinax/_src/operators/galilean/spatial_translation.py
@@ -388,9 +388,8 @@ def simplify_op(
 
     """
     # Check if the translation is zero.
-    if jnp.allclose(
-        convert(op.translation, u.Quantity).value, jnp.zeros((3,)), **kwargs
-    ):
+    x = convert(op.translation, u.Quantity).value
+    if jnp.allclose(x, jnp.zeros_like(x), **kwargs):
         return Identity()
     return op
 
-- 
2.43.0


From cc1b7efde3d736cd593cfecb8f3e5e6962c103a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 12/50] fix: operators keep the speed of light of a four-vector

---
 src/coordinax/_src/operators/compat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/operators/compat.py b/src/coordinax/_src/operators/compat.py
index 2068af2..1e778aa 100644
--- a/src/coordinax/_src/operators/compat.py
+++ b/src/coordinax/_src/operators/compat.py
@@ -3,6 +3,7 @@
 __all__: list[str] = []
 
 
+from dataclasses import replace
 from typing import Any, TypeAlias
 
 from jaxtyping import Shaped
@@ -215,7 +216,7 @@ def call(self: AbstractOperator, v4: FourVector, /, **kwargs: Any) -> FourVector
 
     """
     q, t = self(v4.q, v4.t, **kwargs)
-    return FourVector(t=t, q=q)
+    return replace(v4, t=t, q=q)
 
 
 @AbstractOperator.__call__.dispatch
-- 
2.43.0


From 4dcbb2d2756d1422d91b9e9b0741808dc7de8e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:22 +0000
Subject: [PATCH 13/50] fix: spatial translation of batched phase-space points
 keeps their velocity

---
 .../operators/galilean/spatial_translation.py | 20 ++++---------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/coordinax/_src/operators/galilean/spatial_translation.py b/src/coordinax/_src/operators/galilean/spatial_translation.py
index 4fc86dc..8324e98 100644
--- a/src/coordinax/_src/operators/galilean/spatial_translation.py
+++ b/src/coordinax/_src/operators/galilean/spatial_translation.py
@@ -340,22 +340,10 @@ def call(
     # Translate the position.
     newqvec = self(qvec)
 
-    # TODO: figure out how to do this in general, then all these dispatches
-    # can be consolidated. And do it on vectors, not the quantities.
-    #
-    # Translate the velocity (this operator will have no effect on the
-    # velocity).
-    # 1. convert to a Quantity in Cartesian coordinates.
-    q = convert(qvec.represent_as(qvec._cartesian_cls), u.Quantity)  # noqa: SLF001
-    p = convert(pvec.represent_as(pvec._cartesian_cls, q), u.Quantity)  # noqa: SLF001
-    # 2. create the Jacobian of the operation on the position
-    jac = u.experimental.jacfwd(self.__call__, argnums=0, units=(q.unit,))(q)
-    # 3. apply the Jacobian to the velocity
-    newp = jac @ p
-    # 4. convert the Quantity back to a Cartesian vector
-    newpvec = pvec._cartesian_cls.from_(newp)  # noqa: SLF001
-    # 5. convert the Quantity to the original vector type
-    newpvec = newpvec.represent_as(type(pvec), newqvec)
+    # The translation has no effect on the velocity, but its components in a
+    # curvilinear basis depend on the position.
+    cartp = pvec.represent_as(pvec._cartesian_cls, qvec)  # noqa: SLF001
+    newpvec = cartp.represent_as(type(pvec), newqvec)
 
     return newqvec, newpvec
 
-- 
2.43.0


From b6d6d2b2a502848a978ce3ee5c37d94ef5a8fb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:22 +0000
Subject: [PATCH 14/50] fix: mT of N-dimensional vectors with more than two
 batch axes

---
 src/coordinax/_src/vectors/dn/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/vectors/dn/base.py b/src/coordinax/_src/vectors/dn/base.py
index 25d8bbc..50953c2 100644
--- a/src/coordinax/_src/vectors/dn/base.py
+++ b/src/coordinax/_src/vectors/dn/base.py
@@ -70,7 +70,7 @@ class AbstractPosND(AbstractPos):
             ndim < 2,
             f"x must be at least two-dimensional for matrix_transpose; got {ndim=}",
         )
-        axes = (*range(ndim - 3), ndim - 1, ndim - 2, ndim)
+        axes = (*range(ndim - 2), ndim - 1, ndim - 2, ndim)
         return replace(self, q=qlax.transpose(self.q, axes))
 
     @property
@@ -206,7 +206,7 @@ class AbstractVelND(AbstractVel):
             ndim < 2,
             f"x must be at least two-dimensional for matrix_transpose; got {ndim=}",
         )
-        axes = (*range(ndim - 3), ndim - 1, ndim - 2, ndim)
+        axes = (*range(ndim - 2), ndim - 1, ndim - 2, ndim)
         return replace(self, d_q=qlax.transpose(self.d_q, axes))
 
     @property
@@ -345,7 +345,7 @@ class AbstractAccND(AbstractAcc):
             ndim < 2,
             f"x must be at least two-dimensional for matrix_transpose; got {ndim=}",
         )
-        axes = (*range(ndim - 3), ndim - 1, ndim - 2, ndim)
+        axes = (*range(ndim - 2), ndim - 1, ndim - 2, ndim)
         return replace(self, d2_q=qlax.transpose(self.d2_q, axes))
 
     @property
-- 
2.43.0


From 356dccfe880910f78a58cce32abf0ffe17bfe5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 15/50] fix: shape operations broadcast components of different
 shapes first

---
 src/coordinax/_src/vectors/base/base.py | 12 ++++++---
 src/coordinax/_src/vectors/utils.py     | 33 +++++++++++++++++++++----
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index eb5b19c..79fff7a 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -348,7 +348,8 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
                                   [1., 3.]], dtype=float32), unit='m')
 
         """
-        return replace(self, **{k: v.mT for k, v in field_items(AttrFilter, self)})
+        full = full_shaped(self)
+        return replace(full, **{k: v.mT for k, v in field_items(AttrFilter, full)})
 
     @property
     def ndim(self) -> int:
@@ -437,7 +438,8 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
                                   [1., 3.]], dtype=float32), unit='m')
 
         """
-        return replace(self, **{k: v.T for k, v in field_items(AttrFilter, self)})
+        full = full_shaped(self)
+        return replace(full, **{k: v.T for k, v in field_items(AttrFilter, full)})
 
     # ---------------------------------------------------------------
     # arithmetic operators
@@ -742,8 +744,9 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
         (4,)
 
         """
+        full = full_shaped(self)
         return replace(
-            self, **{k: v.flatten() for k, v in field_items(AttrFilter, self)}
+            full, **{k: v.flatten() for k, v in field_items(AttrFilter, full)}
         )
 
     def ravel(self) -> "Self":
@@ -763,7 +766,8 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
         (4,)
 
         """
-        return replace(self, **{k: v.ravel() for k, v in field_items(AttrFilter, self)})
+        full = full_shaped(self)
+        return replace(full, **{k: v.ravel() for k, v in field_items(AttrFilter, full)})
 
     def reshape(self, *shape: Any, order: str = "C") -> "Self":
         """Reshape the components of the vector.
diff --git a/src/coordinax/_src/vectors/utils.py b/src/coordinax/_src/vectors/utils.py
index e52e761..aa4b0fe 100644
--- a/src/coordinax/_src/vectors/utils.py
+++ b/src/coordinax/_src/vectors/utils.py
@@ -2,11 +2,10 @@
 
 __all__: list[str] = []
 
-from dataclasses import replace as _dataclass_replace
-from typing import TYPE_CHECKING
+from typing import TYPE_CHECKING, Any
 
 import quaxed.numpy as jnp
-from dataclassish import field_values
+from dataclassish import field_items, replace
 
 from .base.flags import AttrFilter
 
@@ -32,5 +31,29 @@ def full_shaped(obj: "AbstractVector", /) -> "AbstractVector":
     (2,)
 
     """
-    arrays = jnp.broadcast_arrays(*field_values(AttrFilter, obj))
-    return _dataclass_replace(obj, **dict(zip(obj.components, arrays, strict=True)))
+    from .base import AbstractVector
+
+    comps = dict(field_items(AttrFilter, obj))
+    # Vectors made of vectors, e.g. `FourVector`
+    if any(isinstance(v, AbstractVector) for v in comps.values()):
+        return replace(obj, **{k: _broadcast_to(v, obj.shape) for k, v in comps.items()})
+
+    arrays = jnp.broadcast_arrays(*comps.values())
+    return replace(obj, **dict(zip(comps, arrays, strict=True)))
+
+
+def _broadcast_to(x: Any, shape: tuple[int, ...], /) -> Any:
+    """Broadcast an array, or each component of a vector."""
+    from .base import AbstractVector
+
+    if not isinstance(x, AbstractVector):
+        return jnp.broadcast_to(x, shape)
+
+    # Components of N-dimensional vectors have trailing, non-batch, dimensions.
+    return replace(
+        x,
+        **{
+            k: _broadcast_to(v, shape + v.shape[x.ndim :])
+            for k, v in field_items(AttrFilter, x)
+        },
+    )
-- 
2.43.0


From 5bc549543d60c5f2519173ad787a051c97bb7a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 16/50] fix: iterating over a vector ends

---
 src/coordinax/_src/vectors/base/base.py  | 19 ++++++++++++++++++-
 src/coordinax/_src/vectors/space/core.py |  3 +++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index 79fff7a..0d3d31a 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -8,7 +8,7 @@ __all__ = [
 ]
 
 from abc import abstractmethod
-from collections.abc import Callable, Mapping
+from collections.abc import Callable, Iterator, Mapping
 from enum import Enum
 from functools import reduce
 from types import MappingProxyType
@@ -672,6 +672,23 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
         full = full_shaped(self)  # TODO: detect if need to make a full-shaped copy
         return replace(full, **{k: v[index] for k, v in field_items(AttrFilter, full)})
 
+    def __iter__(self) -> Iterator["Self"]:
+        """Iterate over the first axis of the vector.
+
+        Examples
+        --------
+        >>> import coordinax as cx
+
+        >>> vec = cx.vecs.CartesianPos1D.from_([[1], [2]], "m")
+        >>> [v.x.value.item() for v in vec]
+        [1.0, 2.0]
+
+        """
+        if self.ndim == 0:
+            msg = f"iteration over a scalar {type(self).__name__}"
+            raise TypeError(msg)
+        return (self[i] for i in range(self.shape[0]))
+
     # TODO: __index__
     # TODO: __int__
 
diff --git a/src/coordinax/_src/vectors/space/core.py b/src/coordinax/_src/vectors/space/core.py
index 31e4b44..7c36460 100644
--- a/src/coordinax/_src/vectors/space/core.py
+++ b/src/coordinax/_src/vectors/space/core.py
@@ -254,6 +254,9 @@ class Space(AbstractVector, ImmutableMap[Dimension, AbstractVector]):  # type: i
 
         return ImmutableMap.__getitem__(self, key)
 
+    # A Space is a mapping: iterate over the keys.
+    __iter__ = ImmutableMap.__iter__
+
     # ===============================================================
     # Quax
 
-- 
2.43.0


From db6b0d932031fb71f43de38da08c980ff2d65d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:18 +0000
Subject: [PATCH 17/50] fix: convert velocities to and from prolate spheroidal
 coordinates

Velocities based on a prolate position with a scalar focal length could not be
converted (the focal length was mapped over), and the cos-latitude conversions
dropped the Delta argument.
---
 src/coordinax/_src/vectors/d3/transform.py         | 6 +++---
 src/coordinax/_src/vectors/transform/velocities.py | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/transform.py b/src/coordinax/_src/vectors/d3/transform.py
index d642106..99932f1 100644
--- a/src/coordinax/_src/vectors/d3/transform.py
+++ b/src/coordinax/_src/vectors/d3/transform.py
@@ -867,7 +867,7 @@ def represent_as(
         )
 
     # Transform the differential to LonLatSphericalVel
-    current = represent_as(current, LonLatSphericalVel, posvec)
+    current = represent_as(current, LonLatSphericalVel, posvec, **kwargs)
 
     # Transform the position to the required type
     posvec = represent_as(posvec, current.integral_cls)
@@ -925,9 +925,9 @@ def represent_as(
             position
         )
     # Transform the differential to LonLatSphericalVel
-    current = represent_as(current, LonLatSphericalVel, posvec)
+    current = represent_as(current, LonLatSphericalVel, posvec, **kwargs)
     # Transform the position to the required type
-    return represent_as(current, target, posvec)
+    return represent_as(current, target, posvec, **kwargs)
 
 
 # =============================================================================
diff --git a/src/coordinax/_src/vectors/transform/velocities.py b/src/coordinax/_src/vectors/transform/velocities.py
index 6310fc1..f4b8560 100644
--- a/src/coordinax/_src/vectors/transform/velocities.py
+++ b/src/coordinax/_src/vectors/transform/velocities.py
@@ -131,7 +131,9 @@ def represent_as(
     # original type, with fields that are the columns of that row, but with only the
     # denomicator's units.
     tmp = partial(represent_as, **kwargs)
-    jac_rep_as = eqx.filter_jit(jax.vmap(jax.jacfwd(tmp), in_axes=(0, None)))
+    # Scalar attributes (e.g. the focal length) are shared by the whole batch.
+    in_axes = jax.tree.map(lambda x: 0 if x.ndim > 0 else None, current_pos)
+    jac_rep_as = eqx.filter_jit(jax.vmap(jax.jacfwd(tmp), in_axes=(in_axes, None)))
     jac_nested_vecs = jac_rep_as(current_pos, target.integral_cls)
 
     # This changes the Jacobian to be a dictionary of each row, with the value
-- 
2.43.0


From 5263e81963e407d2d71c2cac17e1236f6cee7064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 18/50] fix: convert accelerations to and from prolate
 spheroidal coordinates

The keyword arguments (Delta) were not passed to the position transform and the
focal length was treated as a component.
---
 .../_src/vectors/transform/accelerations.py   | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/coordinax/_src/vectors/transform/accelerations.py b/src/coordinax/_src/vectors/transform/accelerations.py
index 32df3da..e5fe312 100644
--- a/src/coordinax/_src/vectors/transform/accelerations.py
+++ b/src/coordinax/_src/vectors/transform/accelerations.py
@@ -16,6 +16,7 @@ from dataclassish import field_items
 
 from coordinax._src.distances import AbstractDistance
 from coordinax._src.vectors.base import AbstractAcc, AbstractPos, AbstractVel
+from coordinax._src.vectors.base.flags import AttrFilter
 from coordinax._src.vectors.d1 import AbstractAcc1D
 from coordinax._src.vectors.d2 import AbstractAcc2D
 from coordinax._src.vectors.d3 import AbstractAcc3D
@@ -148,7 +149,7 @@ def represent_as(
         current_pos,
         **{
             k: v.distance
-            for k, v in field_items(current_pos)
+            for k, v in field_items(AttrFilter, current_pos)
             if isinstance(v, AbstractDistance)
         },
     )
@@ -163,7 +164,9 @@ def represent_as(
     # the correct numerator unit (of the Jacobian row). The value is a Vector of the
     # original type, with fields that are the columns of that row, but with only the
     # denomicator's units.
-    jac_nested_vecs = jac_rep_as(current_pos, target.integral_cls.integral_cls)
+    jac_nested_vecs = jac_rep_as(
+        current_pos, target.integral_cls.integral_cls, **kwargs
+    )
 
     # This changes the Jacobian to be a dictionary of each row, with the value
     # being that row's column as a dictionary, now with the correct units for
@@ -171,9 +174,9 @@ def represent_as(
     jac_rows = {
         f"d2_{k}": {
             kk: u.Quantity(vv.value, unit=v.unit / vv.unit)
-            for kk, vv in field_items(v.value)
+            for kk, vv in field_items(AttrFilter, v.value)
         }
-        for k, v in field_items(jac_nested_vecs)
+        for k, v in field_items(AttrFilter, jac_nested_vecs)
     }
 
     # Now we can use the Jacobian to transform the differential.
@@ -200,4 +203,12 @@ def represent_as(
 
 
 # TODO: situate this better to show how represent_as is used
-jac_rep_as = eqx.filter_jit(jax.vmap(jax.jacfwd(represent_as), in_axes=(0, None)))
+@eqx.filter_jit
+def jac_rep_as(
+    current: AbstractPos, target: type[AbstractPos], /, **kwargs: Any
+) -> AbstractPos:
+    """Jacobian of the position transform, for each element of the batch."""
+    # Scalar attributes (e.g. the focal length) are shared by the whole batch.
+    in_axes = jax.tree.map(lambda x: 0 if x.ndim > 0 else None, current)
+    jac = jax.jacfwd(lambda x: represent_as(x, target, **kwargs))
+    return jax.vmap(jac, in_axes=(in_axes,))(current)
-- 
2.43.0


From 33fd82c37af2a1a6d9b83fb938e505185e677bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 19/50] fix: cos-latitude velocity self-conversion with a
 Quantity position is not ambiguous

---
 src/coordinax/_src/vectors/d3/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/transform.py b/src/coordinax/_src/vectors/d3/transform.py
index 99932f1..de66975 100644
--- a/src/coordinax/_src/vectors/d3/transform.py
+++ b/src/coordinax/_src/vectors/d3/transform.py
@@ -104,7 +104,7 @@ def represent_as(
     (
         LonCosLatSphericalVel,
         type[LonCosLatSphericalVel],
-        AbstractPos,
+        AbstractPos | u.Quantity["length"],
     ),
     (MathSphericalVel, type[MathSphericalVel], AbstractPos),
     (ProlateSpheroidalVel, type[ProlateSpheroidalVel], AbstractPos),
@@ -112,7 +112,7 @@ def represent_as(
 def represent_as(
     current: AbstractVel3D,
     target: type[AbstractVel3D],
-    position: AbstractPos,
+    position: AbstractPos | u.Quantity["length"],
     /,
     **kwargs: Any,
 ) -> AbstractVel3D:
-- 
2.43.0


From 3556087b31de715537fe5a73d55517f33bbc1ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 20/50] fix: dimension changes of positions given by a parallax
 or distance modulus

The raw parallax (or modulus) was used as a length: most conversions raised and
spherical -> polar silently returned the wrong radius.
---
 src/coordinax/_src/vectors/transform/d1.py |  6 +++---
 src/coordinax/_src/vectors/transform/d2.py |  4 ++--
 src/coordinax/_src/vectors/transform/d3.py | 16 ++++++++--------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/coordinax/_src/vectors/transform/d1.py b/src/coordinax/_src/vectors/transform/d1.py
index ca27163..d0f031b 100644
--- a/src/coordinax/_src/vectors/transform/d1.py
+++ b/src/coordinax/_src/vectors/transform/d1.py
@@ -284,7 +284,7 @@ def represent_as(
     Quantity['length'](Array(14., dtype=float32), unit='km')
 
     """
-    return target(x=current.r, y=y)
+    return target(x=current.r.distance, y=y)
 
 
 @dispatch
@@ -364,7 +364,7 @@ def represent_as(
     Quantity['length'](Array(0., dtype=float32), unit='m')
 
     """
-    return target(x=current.r, y=y, z=z)
+    return target(x=current.r.distance, y=y, z=z)
 
 
 @dispatch
@@ -468,4 +468,4 @@ def represent_as(
     Quantity['length'](Array(0., dtype=float32), unit='m')
 
     """
-    return target(rho=current.r, phi=phi, z=z)
+    return target(rho=current.r.distance, phi=phi, z=z)
diff --git a/src/coordinax/_src/vectors/transform/d2.py b/src/coordinax/_src/vectors/transform/d2.py
index b4900fb..a1d2263 100644
--- a/src/coordinax/_src/vectors/transform/d2.py
+++ b/src/coordinax/_src/vectors/transform/d2.py
@@ -245,7 +245,7 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(x=current.r * jnp.cos(current.phi))
+    return target(x=current.r.distance * jnp.cos(current.phi))
 
 
 @dispatch
@@ -364,4 +364,4 @@ def represent_as(
     Quantity['length'](Array(14., dtype=float32), unit='km')
 
     """
-    return target(rho=current.r, phi=current.phi, z=z)
+    return target(rho=current.r.distance, phi=current.phi, z=z)
diff --git a/src/coordinax/_src/vectors/transform/d3.py b/src/coordinax/_src/vectors/transform/d3.py
index c3f1cb8..c0f9b85 100644
--- a/src/coordinax/_src/vectors/transform/d3.py
+++ b/src/coordinax/_src/vectors/transform/d3.py
@@ -293,7 +293,7 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(x=current.r * jnp.sin(current.theta) * jnp.cos(current.phi))
+    return target(x=current.r.distance * jnp.sin(current.theta) * jnp.cos(current.phi))
 
 
 @dispatch
@@ -352,8 +352,8 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    x = current.r * jnp.sin(current.theta) * jnp.cos(current.phi)
-    y = current.r * jnp.sin(current.theta) * jnp.sin(current.phi)
+    x = current.r.distance * jnp.sin(current.theta) * jnp.cos(current.phi)
+    y = current.r.distance * jnp.sin(current.theta) * jnp.sin(current.phi)
     return target(x=x, y=y)
 
 
@@ -382,7 +382,7 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(r=current.r * jnp.sin(current.theta), phi=current.phi)
+    return target(r=current.r.distance * jnp.sin(current.theta), phi=current.phi)
 
 
 # =============================================================================
@@ -417,7 +417,7 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(x=current.r * jnp.sin(current.phi) * jnp.cos(current.theta))
+    return target(x=current.r.distance * jnp.sin(current.phi) * jnp.cos(current.theta))
 
 
 @dispatch
@@ -476,8 +476,8 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    x = current.r * jnp.sin(current.phi) * jnp.cos(current.theta)
-    y = current.r * jnp.sin(current.phi) * jnp.sin(current.theta)
+    x = current.r.distance * jnp.sin(current.phi) * jnp.cos(current.theta)
+    y = current.r.distance * jnp.sin(current.phi) * jnp.sin(current.theta)
     return target(x=x, y=y)
 
 
@@ -506,7 +506,7 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(r=current.r * jnp.sin(current.phi), phi=current.theta)
+    return target(r=current.r.distance * jnp.sin(current.phi), phi=current.theta)
 
 
 # =============================================================================
-- 
2.43.0


From 969182faa123bd96ca3a2c905778f50ecd8c84b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:06 +0000
Subject: [PATCH 21/50] fix: arithmetic and equality of prolate spheroidal
 positions keep the focal length

The result was converted back without Delta, so every operation raised.
---
 src/coordinax/_src/vectors/base/base_pos.py | 29 +++++++++++++++------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/base_pos.py b/src/coordinax/_src/vectors/base/base_pos.py
index 64a76e4..6daa150 100644
--- a/src/coordinax/_src/vectors/base/base_pos.py
+++ b/src/coordinax/_src/vectors/base/base_pos.py
@@ -136,7 +136,7 @@ class AbstractPos(AvalMixin, AbstractVector):  # pylint: disable=abstract-method
         # Only convert between types: the same type needs no conversion (which
         # may require extra arguments or not be possible).
         same = type(other) is type(self)
-        rhs = other if same else other.represent_as(type(self))
+        rhs = other if same else _represent_like(other, self)
         return super().__eq__(rhs)
 
     # ===============================================================
@@ -180,6 +180,17 @@ class AbstractPos(AvalMixin, AbstractVector):  # pylint: disable=abstract-method
 # Register primitives
 
 
+def _represent_like(obj: AbstractPos, like: AbstractPos, /) -> AbstractPos:
+    """Represent ``obj`` as the type of ``like``, with its attributes.
+
+    The attributes are the fields that are not components, e.g. the focal length
+    of a `coordinax.vecs.ProlateSpheroidalPos`.
+
+    """
+    attrs = {k: v for k, v in field_items(like) if k not in like.components}
+    return represent_as(obj, type(like), **attrs)
+
+
 @register(jax.lax.add_p)  # type: ignore[misc]
 def _add_qq(lhs: AbstractPos, rhs: AbstractPos, /) -> AbstractPos:
     # The base implementation is to convert to Cartesian and perform the
@@ -192,9 +203,10 @@ def _add_qq(lhs: AbstractPos, rhs: AbstractPos, /) -> AbstractPos:
         isinstance(lhs, cart_cls) and isinstance(rhs, cart_cls),
         "must register a Cartesian-specific dispatch for {cart_cls} addition",
     )
-    return qlax.add(  # re-dispatch on the Cartesian class
+    out = qlax.add(  # re-dispatch on the Cartesian class
         lhs.represent_as(cart_cls), rhs.represent_as(cart_cls)
-    ).represent_as(type(lhs))
+    )
+    return _represent_like(out, lhs)
 
 
 # ------------------------------------------------
@@ -220,7 +232,7 @@ def _div_pos_v(lhs: AbstractPos, rhs: ArrayLike) -> AbstractPos:
     # Only Cartesian components scale with the vector.
     cart_cls = lhs._cartesian_cls  # noqa: SLF001
     if not isinstance(lhs, cart_cls):
-        return qlax.div(lhs.represent_as(cart_cls), rhs).represent_as(type(lhs))
+        return _represent_like(qlax.div(lhs.represent_as(cart_cls), rhs), lhs)
 
     return replace(
         lhs, **{k: jnp.divide(v, rhs) for k, v in field_items(AttrFilter, lhs)}
@@ -329,7 +341,7 @@ def _mul_v_pos(lhs: ArrayLike, rhs: AbstractPos, /) -> AbstractPos:
 
     rc = rhs.represent_as(rhs._cartesian_cls)  # noqa: SLF001
     nr = qlax.mul(lhs, rc)
-    return nr.represent_as(type(rhs))
+    return _represent_like(nr, rhs)
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -410,7 +422,7 @@ def _neg_pos(obj: AbstractPos, /) -> AbstractPos:
     """
     cart = represent_as(obj, obj._cartesian_cls)  # noqa: SLF001
     negcart = jnp.negative(cart)
-    return represent_as(negcart, type(obj))
+    return _represent_like(negcart, obj)
 
 
 # ------------------------------------------------
@@ -462,7 +474,8 @@ def _sub_qq(lhs: AbstractPos, rhs: AbstractPos) -> AbstractPos:
     # operation.  Cartesian coordinates do not have any branch cuts or
     # singularities or ranges that need to be handled, so this is a safe
     # default.
-    return qlax.sub(
+    out = qlax.sub(
         lhs.represent_as(lhs._cartesian_cls),  # noqa: SLF001
         rhs.represent_as(lhs._cartesian_cls),  # noqa: SLF001
-    ).represent_as(type(lhs))
+    )
+    return _represent_like(out, lhs)
-- 
2.43.0


From 02629650928594ef9bb93245dcf8564ca55d0d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 22/50] fix: indexing and ravel of N-dimensional vectors keep
 the component axis

---
 src/coordinax/_src/vectors/dn/base.py | 43 +++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/vectors/dn/base.py b/src/coordinax/_src/vectors/dn/base.py
index 50953c2..d2f3d8c 100644
--- a/src/coordinax/_src/vectors/dn/base.py
+++ b/src/coordinax/_src/vectors/dn/base.py
@@ -11,6 +11,7 @@ import equinox as eqx
 
 import quaxed.lax as qlax
 import quaxed.numpy as jnp
+from dataclassish import field_items
 
 from coordinax._src.utils import classproperty
 from coordinax._src.vectors.base import (
@@ -18,13 +19,49 @@ from coordinax._src.vectors.base import (
     AbstractPos,
     AbstractVector,
     AbstractVel,
+    AttrFilter,
 )
 
 if TYPE_CHECKING:
     from typing import Never
 
 
-class AbstractPosND(AbstractPos):
+class ComponentAxisMixin:
+    """Array methods for vectors whose field has a trailing component axis."""
+
+    def __getitem__(self, index: Any) -> "Self":
+        """Index the batch axes, keeping the component axis.
+
+        Examples
+        --------
+        >>> import coordinax as cx
+
+        >>> vec = cx.vecs.CartesianPosND.from_([[[1, 2]], [[3, 4]]], "m")
+        >>> vec[..., 0].q
+        Quantity['length'](Array([[1., 2.], [3., 4.]], dtype=float32), unit='m')
+
+        """
+        idx = index if isinstance(index, tuple) else (index,)
+        has_ellipsis = any(i is Ellipsis for i in idx)
+        idx = (*idx, slice(None)) if has_ellipsis else (*idx, ..., slice(None))
+        return replace(self, **{k: v[idx] for k, v in field_items(AttrFilter, self)})
+
+    def ravel(self) -> "Self":
+        """Ravel the batch axes, keeping the component axis.
+
+        Examples
+        --------
+        >>> import coordinax as cx
+
+        >>> vec = cx.vecs.CartesianPosND.from_([[[1, 2]], [[3, 4]]], "m")
+        >>> vec.ravel().shape
+        (2,)
+
+        """
+        return self.flatten()
+
+
+class AbstractPosND(ComponentAxisMixin, AbstractPos):
     """Abstract representation of N-D coordinates in different systems."""
 
     @classproperty
@@ -152,7 +189,7 @@ class AbstractPosND(AbstractPos):
 #####################################################################
 
 
-class AbstractVelND(AbstractVel):
+class AbstractVelND(ComponentAxisMixin, AbstractVel):
     """Abstract representation of N-D vector differentials."""
 
     @classproperty
@@ -291,7 +328,7 @@ class AbstractVelND(AbstractVel):
 #####################################################################
 
 
-class AbstractAccND(AbstractAcc):
+class AbstractAccND(ComponentAxisMixin, AbstractAcc):
     """Abstract representation of N-D vector differentials."""
 
     @classproperty
-- 
2.43.0


From 6eed08cbae952969674120141dee7748ed1741fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 23/50] fix: equality of N-dimensional vectors is per vector,
 not per component

---
 src/coordinax/_src/vectors/dn/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/coordinax/_src/vectors/dn/base.py b/src/coordinax/_src/vectors/dn/base.py
index d2f3d8c..6884281 100644
--- a/src/coordinax/_src/vectors/dn/base.py
+++ b/src/coordinax/_src/vectors/dn/base.py
@@ -29,6 +29,11 @@ if TYPE_CHECKING:
 class ComponentAxisMixin:
     """Array methods for vectors whose field has a trailing component axis."""
 
+    def __eq__(self, other: object) -> Any:
+        """Element-wise equality: all the components are equal."""
+        out = super().__eq__(other)
+        return out if out is NotImplemented else out.all(axis=-1)
+
     def __getitem__(self, index: Any) -> "Self":
         """Index the batch axes, keeping the component axis.
 
-- 
2.43.0


From ef93f2c1c617b6b8a3eb148a63caba44b75c0bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 24/50] fix: reshape of N-dimensional vectors accepts the shape
 as a tuple

---
 src/coordinax/_src/vectors/dn/base.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/vectors/dn/base.py b/src/coordinax/_src/vectors/dn/base.py
index 6884281..a7155fc 100644
--- a/src/coordinax/_src/vectors/dn/base.py
+++ b/src/coordinax/_src/vectors/dn/base.py
@@ -4,6 +4,7 @@ __all__ = ["AbstractAccND", "AbstractPosND", "AbstractVelND"]
 
 
 from abc import abstractmethod
+from collections.abc import Sequence
 from dataclasses import replace
 from typing import TYPE_CHECKING, Any
 
@@ -26,6 +27,12 @@ if TYPE_CHECKING:
     from typing import Never
 
 
+def _as_sizes(shape: tuple[Any, ...], /) -> tuple[Any, ...]:
+    """Get the sizes, which can be given as ``*sizes`` or as one tuple."""
+    one = len(shape) == 1 and isinstance(shape[0], Sequence)
+    return tuple(shape[0]) if one else shape
+
+
 class ComponentAxisMixin:
     """Array methods for vectors whose field has a trailing component axis."""
 
@@ -188,7 +195,7 @@ class AbstractPosND(ComponentAxisMixin, AbstractPos):
         (1, 2, 1)
 
         """
-        return replace(self, q=self.q.reshape(*shape, self.q.shape[-1], order=order))
+        return replace(self, q=self.q.reshape(*_as_sizes(shape), self.q.shape[-1], order=order))
 
 
 #####################################################################
@@ -326,7 +333,7 @@ class AbstractVelND(ComponentAxisMixin, AbstractVel):
 
         """
         return replace(
-            self, d_q=self.d_q.reshape(*shape, self.d_q.shape[-1], order=order)
+            self, d_q=self.d_q.reshape(*_as_sizes(shape), self.d_q.shape[-1], order=order)
         )
 
 
@@ -464,5 +471,5 @@ class AbstractAccND(ComponentAxisMixin, AbstractAcc):
 
         """
         return replace(
-            self, d2_q=self.d2_q.reshape(*shape, self.d2_q.shape[-1], order=order)
+            self, d2_q=self.d2_q.reshape(*_as_sizes(shape), self.d2_q.shape[-1], order=order)
         )
-- 
2.43.0


From 0df1d3f364c6b38c00d077fe0b3d1179a6361654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 25/50] fix: broadcasting and reshaping with quaxed.numpy act
 on the batch axes of the components only

---
 src/coordinax/_src/vectors/base/base_pos.py            | 2 +-
 src/coordinax/_src/vectors/base/register_primitives.py | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/base_pos.py b/src/coordinax/_src/vectors/base/base_pos.py
index 6daa150..4497bf9 100644
--- a/src/coordinax/_src/vectors/base/base_pos.py
+++ b/src/coordinax/_src/vectors/base/base_pos.py
@@ -459,7 +459,7 @@ def _reshape_pos(
         operand,
         **{
             k: quaxify(jax.lax.reshape_p.bind)(v, new_sizes=new_sizes, **kwargs)
-            for k, v in field_items(operand)
+            for k, v in field_items(AttrFilter, operand)
         },
     )
 
diff --git a/src/coordinax/_src/vectors/base/register_primitives.py b/src/coordinax/_src/vectors/base/register_primitives.py
index 3368038..49b2723 100644
--- a/src/coordinax/_src/vectors/base/register_primitives.py
+++ b/src/coordinax/_src/vectors/base/register_primitives.py
@@ -11,6 +11,7 @@ import quaxed.numpy as jnp
 from dataclassish import field_items, replace
 
 from .base import AbstractVector
+from .flags import AttrFilter
 
 
 @register(jax.lax.convert_element_type_p)  # type: ignore[misc]
@@ -133,7 +134,11 @@ def _broadcast_in_dim_p(
     """
     # TODO: use `jax.lax.broadcast_in_dim_p`
     c_shape = shape[:-1]
+    ndim = operand.ndim  # N-dimensional vectors have a trailing component axis
     return replace(
         operand,
-        **{k: jnp.broadcast_to(v, c_shape) for k, v in field_items(operand)},
+        **{
+            k: jnp.broadcast_to(v, (*c_shape, *v.shape[ndim:]))
+            for k, v in field_items(AttrFilter, operand)
+        },
     )
-- 
2.43.0


From eff1208f6b783a2c17fbee9a086499b048001baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:43 +0000
Subject: [PATCH 26/50] fix: positions whose distances are of different kinds
 can be compared

---
 src/coordinax/_src/vectors/base/base.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index 0d3d31a..f1f6ab6 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -29,6 +29,7 @@ from unxt.quantity import AbstractQuantity
 
 from .flags import AttrFilter
 from .mixins import IPythonReprMixin
+from coordinax._src.distances import AbstractDistance
 from coordinax._src.typing import Unit
 from coordinax._src.utils import classproperty
 from coordinax._src.vectors.api import represent_as
@@ -40,6 +41,15 @@ if TYPE_CHECKING:
 VT = TypeVar("VT", bound="AbstractVector")
 
 
+def _equal(lhs: Any, rhs: Any, /) -> Any:
+    """Element-wise equality of two components."""
+    # The same distance can be a length, a parallax, or a distance modulus.
+    both = isinstance(lhs, AbstractDistance) and isinstance(rhs, AbstractDistance)
+    if both and type(lhs) is not type(rhs):
+        lhs, rhs = lhs.distance, rhs.distance
+    return jnp.equal(lhs, rhs)
+
+
 class ToUnitsOptions(Enum):
     """Options for the units argument of `AbstractVector.uconvert`."""
 
@@ -616,7 +626,7 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
         if type(other) is not type(self):
             return NotImplemented
 
-        comps = [jnp.equal(v, getattr(other, k)) for k, v in field_items(self)]
+        comps = [_equal(v, getattr(other, k)) for k, v in field_items(self)]
         return reduce(jax.numpy.logical_and, comps)
 
     # ---------------------------------------------------------------
-- 
2.43.0


From 5f5f47e811c465a72b8fd94370bab62fbcfa0e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 27/50] fix: norm of 2D velocities works; norm of Cartesian
 accelerations accepts velocity and position

---
 src/coordinax/_src/vectors/d1/cartesian.py |  7 ++++++-
 src/coordinax/_src/vectors/d2/cartesian.py | 24 +++++++++++++++++++++-
 src/coordinax/_src/vectors/d3/cartesian.py |  7 ++++++-
 3 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/vectors/d1/cartesian.py b/src/coordinax/_src/vectors/d1/cartesian.py
index 9d6b3fd..fbdc31e 100644
--- a/src/coordinax/_src/vectors/d1/cartesian.py
+++ b/src/coordinax/_src/vectors/d1/cartesian.py
@@ -287,7 +287,12 @@ class CartesianAcc1D(AvalMixin, AbstractAcc1D):
 
     @override
     @partial(eqx.filter_jit, inline=True)
-    def norm(self, _: AbstractPos1D | None = None, /) -> ct.BatchableAcc:
+    def norm(
+        self,
+        velocity: AbstractVel1D | None = None,
+        position: AbstractPos1D | None = None,
+        /,
+    ) -> ct.BatchableAcc:
         """Return the norm of the vector.
 
         Examples
diff --git a/src/coordinax/_src/vectors/d2/cartesian.py b/src/coordinax/_src/vectors/d2/cartesian.py
index d397af1..8145b39 100644
--- a/src/coordinax/_src/vectors/d2/cartesian.py
+++ b/src/coordinax/_src/vectors/d2/cartesian.py
@@ -190,6 +190,23 @@ class CartesianVel2D(AvalMixin, AbstractVel2D):
     def differential_cls(cls) -> type["CartesianAcc2D"]:
         return CartesianAcc2D
 
+    # -----------------------------------------------------
+
+    @override
+    @partial(eqx.filter_jit, inline=True)
+    def norm(self, _: AbstractPos2D | None = None, /) -> ct.BatchableSpeed:
+        """Return the norm of the vector.
+
+        Examples
+        --------
+        >>> import coordinax as cx
+        >>> v = cx.vecs.CartesianVel2D.from_([3, 4], "km/s")
+        >>> v.norm()
+        Quantity['speed'](Array(5., dtype=float32), unit='km / s')
+
+        """
+        return jnp.sqrt(self.d_x**2 + self.d_y**2)
+
 
 # -----------------------------------------------------
 
@@ -294,7 +311,12 @@ class CartesianAcc2D(AvalMixin, AbstractAcc2D):
 
     @override
     @partial(eqx.filter_jit, inline=True)
-    def norm(self, _: AbstractVel2D | None = None, /) -> ct.BatchableAcc:
+    def norm(
+        self,
+        velocity: AbstractVel2D | None = None,
+        position: AbstractPos2D | None = None,
+        /,
+    ) -> ct.BatchableAcc:
         """Return the norm of the vector.
 
         Examples
diff --git a/src/coordinax/_src/vectors/d3/cartesian.py b/src/coordinax/_src/vectors/d3/cartesian.py
index c5de3dc..632abca 100644
--- a/src/coordinax/_src/vectors/d3/cartesian.py
+++ b/src/coordinax/_src/vectors/d3/cartesian.py
@@ -344,7 +344,12 @@ class CartesianAcc3D(AvalMixin, AbstractAcc3D):
 
     @override
     @partial(eqx.filter_jit, inline=True)
-    def norm(self, _: AbstractVel3D | None = None, /) -> ct.BatchableAcc:
+    def norm(
+        self,
+        velocity: AbstractVel3D | None = None,
+        position: AbstractPos3D | None = None,
+        /,
+    ) -> ct.BatchableAcc:
         """Return the norm of the vector.
 
         Examples
-- 
2.43.0


From 92c6e8edb46e4c32bf9e5a0043eeddbeb8279f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 28/50] fix: products and quotients of angles degrade to
 quantities; tangent of an angle

---
 .../_src/angles/register_primitives.py        | 71 +++++++++++++++++++
 1 file changed, 71 insertions(+)

diff --git a/src/coordinax/_src/angles/register_primitives.py b/src/coordinax/_src/angles/register_primitives.py
index 5cf5440..7ef9a96 100644
--- a/src/coordinax/_src/angles/register_primitives.py
+++ b/src/coordinax/_src/angles/register_primitives.py
@@ -72,6 +72,39 @@ def _cos_p(x: AbstractAngle) -> u.Quantity:
 # ==============================================================================
 
 
+@register(lax.div_p)
+def _div_p_aa(x: AbstractAngle, y: AbstractAngle) -> u.Quantity:
+    """Division of two Angles.
+
+    Examples
+    --------
+    >>> from coordinax.angle import Angle
+
+    >>> Angle(6.0, "deg") / Angle(3.0, "deg")
+    Quantity['dimensionless'](Array(2., dtype=float32, ...), unit='')
+
+    """
+    return u.Quantity(qlax.div(x.value, y.value), unit=u.unit(x.unit / y.unit))
+
+
+@register(lax.div_p)
+def _div_p_va(x: ArrayLike, y: AbstractAngle) -> u.Quantity:
+    """Division of an array by an Angle.
+
+    Examples
+    --------
+    >>> from coordinax.angle import Angle
+
+    >>> 6.0 / Angle(3.0, "deg")
+    Quantity['rad-1'](Array(2., dtype=float32, ...), unit='1 / deg')
+
+    """
+    return u.Quantity(qlax.div(x, y.value), unit=y.unit**-1)
+
+
+# ==============================================================================
+
+
 @register(lax.dot_general_p)
 def _dot_general_aa(
     lhs: AbstractAngle, rhs: AbstractAngle, /, **kwargs: Any
@@ -120,6 +153,24 @@ def _integer_pow_p_a(x: AbstractAngle, *, y: Any) -> u.Quantity:
 # ==============================================================================
 
 
+@register(lax.mul_p)
+def _mul_p_aa(x: AbstractAngle, y: AbstractAngle) -> u.Quantity:
+    """Product of two Angles.
+
+    Examples
+    --------
+    >>> from coordinax.angle import Angle
+
+    >>> Angle(6.0, "rad") * Angle(3.0, "rad")
+    Quantity['solid angle'](Array(18., dtype=float32, ...), unit='rad2')
+
+    """
+    return u.Quantity(qlax.mul(x.value, y.value), unit=x.unit * y.unit)
+
+
+# ==============================================================================
+
+
 @register(lax.pow_p)
 def _pow_p_a(x: AbstractAngle, y: ArrayLike) -> u.Quantity:
     """Power of an Angle by redispatching to Quantity.
@@ -177,3 +228,23 @@ def _sqrt_p_a(x: AbstractAngle) -> u.Quantity:
     """
     # Promote to something that supports sqrt units.
     return u.Quantity(lax.sqrt(x.value), unit=x.unit ** (1 / 2))
+
+
+# ==============================================================================
+
+
+@register(lax.tan_p)
+def _tan_p_a(x: AbstractAngle) -> u.Quantity:
+    """Tangent of an Angle.
+
+    Examples
+    --------
+    >>> import quaxed.numpy as jnp
+    >>> from coordinax.angle import Angle
+
+    >>> q = Angle(45, "deg")
+    >>> jnp.tan(q).round(3)
+    Quantity['dimensionless'](Array(1., dtype=float32, ...), unit='')
+
+    """
+    return u.Quantity(qlax.tan(u.ustrip(radian, x)), unit=one)
-- 
2.43.0


From 6fc2b622bf710c7b7def3262fe2525deff99bfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 29/50] fix: products and quotients of distances degrade to
 quantities; sine and cosine of a parallax

---
 .../_src/distances/register_primitives.py     | 99 +++++++++++++++++++
 1 file changed, 99 insertions(+)

diff --git a/src/coordinax/_src/distances/register_primitives.py b/src/coordinax/_src/distances/register_primitives.py
index 4609db7..570859c 100644
--- a/src/coordinax/_src/distances/register_primitives.py
+++ b/src/coordinax/_src/distances/register_primitives.py
@@ -12,9 +12,11 @@ from jaxtyping import ArrayLike
 from quax import register as register_
 
 import unxt as u
+from quaxed import lax as qlax
 from unxt.quantity import AbstractQuantity
 
 from .base import AbstractDistance
+from coordinax._src.angles.base import AbstractAngle
 
 T = TypeVar("T")
 
@@ -51,6 +53,57 @@ def _cbrt_p_d(x: AbstractDistance) -> u.Quantity:
 # ==============================================================================
 
 
+@register(lax.div_p)
+def _div_p_dd(
+    x: AbstractDistance, y: AbstractDistance | AbstractAngle
+) -> u.Quantity:
+    """Division of a Distance by a Distance (or an Angle).
+
+    Examples
+    --------
+    >>> from coordinax.distance import Distance
+
+    >>> Distance(6.0, "m") / Distance(3.0, "m")
+    Quantity['dimensionless'](Array(2., dtype=float32, ...), unit='')
+
+    """
+    return u.Quantity(qlax.div(x.value, y.value), unit=u.unit(x.unit / y.unit))
+
+
+@register(lax.div_p)
+def _div_p_ad(x: AbstractAngle, y: AbstractDistance) -> u.Quantity:
+    """Division of an Angle by a Distance.
+
+    Examples
+    --------
+    >>> from coordinax.angle import Angle
+    >>> from coordinax.distance import Distance
+
+    >>> Angle(6.0, "rad") / Distance(3.0, "m")
+    Quantity['plate scale'](Array(2., dtype=float32, ...), unit='rad / m')
+
+    """
+    return u.Quantity(qlax.div(x.value, y.value), unit=u.unit(x.unit / y.unit))
+
+
+@register(lax.div_p)
+def _div_p_vd(x: ArrayLike, y: AbstractDistance) -> u.Quantity:
+    """Division of an array by a Distance.
+
+    Examples
+    --------
+    >>> from coordinax.distance import Distance
+
+    >>> 6.0 / Distance(3.0, "m")
+    Quantity['wavenumber'](Array(2., dtype=float32, ...), unit='1 / m')
+
+    """
+    return u.Quantity(qlax.div(x, y.value), unit=y.unit**-1)
+
+
+# ==============================================================================
+
+
 @register(lax.dot_general_p)
 def _dot_general_dd(
     lhs: AbstractDistance, rhs: AbstractDistance, /, **kwargs: Any
@@ -112,6 +165,42 @@ def _integer_pow_p_d(x: AbstractDistance, *, y: Any) -> u.Quantity:
 # ==============================================================================
 
 
+@register(lax.mul_p)
+def _mul_p_dd(
+    x: AbstractDistance, y: AbstractDistance | AbstractAngle
+) -> u.Quantity:
+    """Product of a Distance and a Distance (or an Angle).
+
+    Examples
+    --------
+    >>> from coordinax.distance import Distance
+
+    >>> Distance(6.0, "m") * Distance(3.0, "m")
+    Quantity['area'](Array(18., dtype=float32, ...), unit='m2')
+
+    """
+    return u.Quantity(qlax.mul(x.value, y.value), unit=x.unit * y.unit)
+
+
+@register(lax.mul_p)
+def _mul_p_ad(x: AbstractAngle, y: AbstractDistance) -> u.Quantity:
+    """Product of an Angle and a Distance.
+
+    Examples
+    --------
+    >>> from coordinax.angle import Angle
+    >>> from coordinax.distance import Distance
+
+    >>> Angle(6.0, "rad") * Distance(3.0, "m")
+    Quantity['m rad'](Array(18., dtype=float32, ...), unit='m rad')
+
+    """
+    return u.Quantity(qlax.mul(x.value, y.value), unit=x.unit * y.unit)
+
+
+# ==============================================================================
+
+
 @register(lax.pow_p)
 def _pow_p_d(x: AbstractDistance, y: ArrayLike) -> u.Quantity:
     """Power of a Distance by redispatching to Quantity.
@@ -167,3 +256,13 @@ def _to_value_rad_or_one(q: AbstractQuantity) -> ArrayLike:
 @register(lax.tan_p)
 def _tan_p_d(x: AbstractDistance) -> u.Quantity["dimensionless"]:
     return u.Quantity(lax.tan(_to_value_rad_or_one(x)), unit=one)
+
+
+@register(lax.cos_p)
+def _cos_p_d(x: AbstractDistance) -> u.Quantity["dimensionless"]:
+    return u.Quantity(lax.cos(_to_value_rad_or_one(x)), unit=one)
+
+
+@register(lax.sin_p)
+def _sin_p_d(x: AbstractDistance) -> u.Quantity["dimensionless"]:
+    return u.Quantity(lax.sin(_to_value_rad_or_one(x)), unit=one)
-- 
2.43.0


From 73c5d321d7772931b692cad5c57265d1f5a231e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:46 +0000
Subject: [PATCH 30/50] fix: rotating a prolate spheroidal position keeps its
 focal length

---
 src/coordinax/_src/operators/galilean/rotation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/operators/galilean/rotation.py b/src/coordinax/_src/operators/galilean/rotation.py
index b686d49..e0e0102 100644
--- a/src/coordinax/_src/operators/galilean/rotation.py
+++ b/src/coordinax/_src/operators/galilean/rotation.py
@@ -23,6 +23,7 @@ from coordinax._src.angles import Angle
 from coordinax._src.operators.base import AbstractOperator
 from coordinax._src.operators.identity import Identity
 from coordinax._src.vectors.base import ToUnitsOptions
+from coordinax._src.vectors.base.base_pos import _represent_like
 from coordinax._src.vectors.d3 import AbstractPos3D, CartesianPos3D
 
 vec_matmul = quaxify(jax.numpy.vectorize(jax.numpy.matmul, signature="(3,3),(3)->(3)"))
@@ -286,7 +287,7 @@ class GalileanRotation(AbstractGalileanOperator):
             u.Quantity,
         )
         rcart = CartesianPos3D.from_(vec_matmul(self.rotation, vec))
-        return rcart.represent_as(type(q))
+        return _represent_like(rcart, q)
 
     @AbstractOperator.__call__.dispatch
     def __call__(
-- 
2.43.0


From 720fc5098d342e91939926c1e46c5902519540c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:25 +0000
Subject: [PATCH 31/50] fix: translating a prolate spheroidal position and
 velocity keeps the focal length

---
 src/coordinax/_src/operators/galilean/spatial_translation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/operators/galilean/spatial_translation.py b/src/coordinax/_src/operators/galilean/spatial_translation.py
index 8324e98..0b290b5 100644
--- a/src/coordinax/_src/operators/galilean/spatial_translation.py
+++ b/src/coordinax/_src/operators/galilean/spatial_translation.py
@@ -13,6 +13,7 @@ from plum import convert, dispatch
 
 import quaxed.numpy as jnp
 import unxt as u
+from dataclassish import field_items
 
 from .base import AbstractGalileanOperator
 from coordinax._src.distances import AbstractDistance
@@ -343,7 +344,8 @@ def call(
     # The translation has no effect on the velocity, but its components in a
     # curvilinear basis depend on the position.
     cartp = pvec.represent_as(pvec._cartesian_cls, qvec)  # noqa: SLF001
-    newpvec = cartp.represent_as(type(pvec), newqvec)
+    attrs = {k: v for k, v in field_items(newqvec) if k not in newqvec.components}
+    newpvec = cartp.represent_as(type(pvec), newqvec, **attrs)
 
     return newqvec, newpvec
 
-- 
2.43.0


From d708296e404f5489337a31ca0c7602712d97ea96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:53 +0000
Subject: [PATCH 32/50] fix: a parallax or distance modulus becomes a distance
 in astropy spherical representations

---
 .../_interop/coordinax_interop_astropy/converters.py          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_interop/coordinax_interop_astropy/converters.py b/src/coordinax/_interop/coordinax_interop_astropy/converters.py
index ba591a1..682b8c0 100644
--- a/src/coordinax/_interop/coordinax_interop_astropy/converters.py
+++ b/src/coordinax/_interop/coordinax_interop_astropy/converters.py
@@ -204,7 +204,7 @@ def sph_to_apysph(obj: cx.SphericalPos, /) -> apyc.PhysicsSphericalRepresentatio
 
     """
     return apyc.PhysicsSphericalRepresentation(
-        r=convert(obj.r, apyu.Quantity),
+        r=convert(obj.r.distance, apyu.Quantity),
         phi=convert(obj.phi, apyu.Quantity),
         theta=convert(obj.theta, apyu.Quantity),
     )
@@ -260,7 +260,7 @@ def lonlatsph_to_apysph(
     return apyc.SphericalRepresentation(
         lon=convert(obj.lon, apyu.Quantity),
         lat=convert(obj.lat, apyu.Quantity),
-        distance=convert(obj.distance, apyu.Quantity),
+        distance=convert(obj.distance.distance, apyu.Quantity),
     )
 
 
-- 
2.43.0


From 1d2b4a94b8858ace4b8437e59ec6cac6169fda43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:58 +0000
Subject: [PATCH 33/50] fix: a prolate spheroidal position can be built from a
 mapping of astropy quantities

---
 .../_interop/coordinax_interop_astropy/constructors.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinax/_interop/coordinax_interop_astropy/constructors.py b/src/coordinax/_interop/coordinax_interop_astropy/constructors.py
index b356767..e2a31e2 100644
--- a/src/coordinax/_interop/coordinax_interop_astropy/constructors.py
+++ b/src/coordinax/_interop/coordinax_interop_astropy/constructors.py
@@ -55,7 +55,7 @@ def from_(
     )
 
     """
-    return cls(**obj)
+    return cls(**{k: convert(v, u.Quantity) for k, v in obj.items()})
 
 
 #####################################################################
-- 
2.43.0


From d7201850352a54e8dc738bbd503b52e838f63374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:48 +0000
Subject: [PATCH 34/50] fix: a four-vector with a scalar time and batched
 position converts to a quantity

---
 src/coordinax/_src/vectors/d4/compat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/d4/compat.py b/src/coordinax/_src/vectors/d4/compat.py
index 4ec6cf8..62ac8d9 100644
--- a/src/coordinax/_src/vectors/d4/compat.py
+++ b/src/coordinax/_src/vectors/d4/compat.py
@@ -16,4 +16,5 @@ from .spacetime import FourVector
 def vec_to_q(obj: FourVector, /) -> Shaped[u.Quantity["length"], "*batch 4"]:
     """`coordinax.AbstractPos3D` -> `unxt.Quantity`."""
     cart = convert(obj.q, u.Quantity)
-    return jnp.concat([obj.c * obj.t[..., None], cart], axis=-1)
+    t = jnp.broadcast_to(obj.t, cart.shape[:-1])
+    return jnp.concat([obj.c * t[..., None], cart], axis=-1)
-- 
2.43.0


From 68a19bf282ceeaa01f803adef043b4441a4c33b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:48 +0000
Subject: [PATCH 35/50] fix: the norm of a position given by a parallax or
 distance modulus is a distance

---
 src/coordinax/_src/vectors/d3/lonlatspherical.py | 2 +-
 src/coordinax/_src/vectors/d3/mathspherical.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/lonlatspherical.py b/src/coordinax/_src/vectors/d3/lonlatspherical.py
index dd9c73d..1c75049 100644
--- a/src/coordinax/_src/vectors/d3/lonlatspherical.py
+++ b/src/coordinax/_src/vectors/d3/lonlatspherical.py
@@ -142,7 +142,7 @@ class LonLatSphericalPos(AbstractSphericalPos):
         Distance(Array(3., dtype=float32), unit='kpc')
 
         """
-        return self.distance
+        return self.distance.distance
 
 
 @LonLatSphericalPos.from_._f.register  # type: ignore[attr-defined, misc]  # noqa: SLF001
diff --git a/src/coordinax/_src/vectors/d3/mathspherical.py b/src/coordinax/_src/vectors/d3/mathspherical.py
index 097bff7..ef296fa 100644
--- a/src/coordinax/_src/vectors/d3/mathspherical.py
+++ b/src/coordinax/_src/vectors/d3/mathspherical.py
@@ -95,7 +95,7 @@ class MathSphericalPos(AbstractSphericalPos):
         Distance(Array(3., dtype=float32), unit='kpc')
 
         """
-        return self.r
+        return self.r.distance
 
 
 @MathSphericalPos.from_._f.register  # type: ignore[attr-defined, misc]  # noqa: SLF001
-- 
2.43.0


From 8733d87e384b76a9eee74d835629c8665fee8db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:18 +0000
Subject: [PATCH 36/50] fix: refuse a quantity with the wrong number of
 components instead of dropping or inventing some

---
 src/coordinax/_src/vectors/d1/base.py      | 25 +++++++++++++++++++---
 src/coordinax/_src/vectors/d2/cartesian.py |  5 +++++
 src/coordinax/_src/vectors/d3/cartesian.py |  5 +++++
 src/coordinax/_src/vectors/d3/generic.py   |  5 +++++
 4 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/vectors/d1/base.py b/src/coordinax/_src/vectors/d1/base.py
index e7f443f..2891e0d 100644
--- a/src/coordinax/_src/vectors/d1/base.py
+++ b/src/coordinax/_src/vectors/d1/base.py
@@ -6,6 +6,7 @@ __all__ = ["AbstractAcc1D", "AbstractPos1D", "AbstractVel1D"]
 from abc import abstractmethod
 from dataclasses import fields
 
+import equinox as eqx
 from jaxtyping import Shaped
 
 import quaxed.numpy as jnp
@@ -69,7 +70,13 @@ def from_(
     RadialPos(r=Distance(value=f32[], unit=Unit("m")))
 
     """
-    comps = {f.name: jnp.atleast_1d(obj)[..., i] for i, f in enumerate(fields(cls))}
+    obj = jnp.atleast_1d(obj)
+    _ = eqx.error_if(
+        obj,
+        obj.shape[-1] != 1,
+        f"Cannot construct {cls} from array with shape {obj.shape}.",
+    )
+    comps = {f.name: obj[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
 
 
@@ -129,7 +136,13 @@ def from_(
     RadialVel( d_r=Quantity[...]( value=i32[], unit=Unit("m / s") ) )
 
     """
-    comps = {f.name: jnp.atleast_1d(obj)[..., i] for i, f in enumerate(fields(cls))}
+    obj = jnp.atleast_1d(obj)
+    _ = eqx.error_if(
+        obj,
+        obj.shape[-1] != 1,
+        f"Cannot construct {cls} from array with shape {obj.shape}.",
+    )
+    comps = {f.name: obj[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
 
 
@@ -183,5 +196,11 @@ def from_(
     RadialAcc( d2_r=Quantity[...](value=i32[], unit=Unit("m / s2")) )
 
     """
-    comps = {f.name: jnp.atleast_1d(obj)[..., i] for i, f in enumerate(fields(cls))}
+    obj = jnp.atleast_1d(obj)
+    _ = eqx.error_if(
+        obj,
+        obj.shape[-1] != 1,
+        f"Cannot construct {cls} from array with shape {obj.shape}.",
+    )
+    comps = {f.name: obj[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
diff --git a/src/coordinax/_src/vectors/d2/cartesian.py b/src/coordinax/_src/vectors/d2/cartesian.py
index 8145b39..9472cda 100644
--- a/src/coordinax/_src/vectors/d2/cartesian.py
+++ b/src/coordinax/_src/vectors/d2/cartesian.py
@@ -350,6 +350,11 @@ def from_(cls: type[CartesianAcc2D], obj: AbstractQuantity, /) -> CartesianAcc2D
     )
 
     """
+    _ = eqx.error_if(
+        obj,
+        obj.shape[-1] != 2,
+        f"Cannot construct {cls} from array with shape {obj.shape}.",
+    )
     comps = {f.name: obj[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
 
diff --git a/src/coordinax/_src/vectors/d3/cartesian.py b/src/coordinax/_src/vectors/d3/cartesian.py
index 632abca..aba59df 100644
--- a/src/coordinax/_src/vectors/d3/cartesian.py
+++ b/src/coordinax/_src/vectors/d3/cartesian.py
@@ -88,6 +88,11 @@ def from_(
     )
 
     """
+    _ = eqx.error_if(
+        obj,
+        obj.shape[-1] != 3,
+        f"Cannot construct {cls} from array with shape {obj.shape}.",
+    )
     comps = {f.name: obj[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
 
diff --git a/src/coordinax/_src/vectors/d3/generic.py b/src/coordinax/_src/vectors/d3/generic.py
index c7b56ca..14bd961 100644
--- a/src/coordinax/_src/vectors/d3/generic.py
+++ b/src/coordinax/_src/vectors/d3/generic.py
@@ -95,5 +95,10 @@ def from_(
     )
 
     """
+    _ = eqx.error_if(
+        obj,
+        obj.shape[-1] != 3,
+        f"Cannot construct {cls} from array with shape {obj.shape}.",
+    )
     comps = {f.name: obj[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
-- 
2.43.0


From 4437b573b335cfa1b536f87a351bea912e34bec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:20 +0000
Subject: [PATCH 37/50] fix: every name of a dimension reaches the member of a
 Space

---
 src/coordinax/_src/vectors/space/core.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/vectors/space/core.py b/src/coordinax/_src/vectors/space/core.py
index 7c36460..d981d44 100644
--- a/src/coordinax/_src/vectors/space/core.py
+++ b/src/coordinax/_src/vectors/space/core.py
@@ -35,6 +35,14 @@ def _get_dimension_name(dim: DimensionLike, /) -> str:
     return u.dimension(dim)._physical_type_list[0]  # noqa: SLF001
 
 
+def _normalize_key(key: Any, /) -> Any:
+    """Get the name under which a `Space` stores the vector of a dimension."""
+    try:
+        return _get_dimension_name(key)
+    except (LookupError, TypeError, ValueError):  # not a dimension
+        return key
+
+
 def _can_broadcast_shapes(*shapes: tuple[int, ...]) -> bool:
     """Check if the shapes can be broadcasted together."""
     try:
@@ -249,10 +257,14 @@ class Space(AbstractVector, ImmutableMap[Dimension, AbstractVector]):  # type: i
         )
 
         """
-        if isinstance(key, Dimension):
-            key = _get_dimension_name(key)
+        return ImmutableMap.__getitem__(self, _normalize_key(key))
+
+    def __contains__(self, key: Any) -> bool:
+        return ImmutableMap.__contains__(self, _normalize_key(key))
 
-        return ImmutableMap.__getitem__(self, key)
+    def get(self, key: DimensionLike, /, default: Any = None) -> Any:
+        """Get the vector by key, or the default if there is no such vector."""
+        return ImmutableMap.get(self, _normalize_key(key), default)
 
     # A Space is a mapping: iterate over the keys.
     __iter__ = ImmutableMap.__iter__
-- 
2.43.0


From 11a21fc711a0c1fdc4f402b0df2758696e5d9e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:41 +0000
Subject: [PATCH 38/50] fix: converting an acceleration accepts a prolate
 spheroidal position and velocity

---
 src/coordinax/_src/vectors/transform/accelerations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/transform/accelerations.py b/src/coordinax/_src/vectors/transform/accelerations.py
index e5fe312..f2b5597 100644
--- a/src/coordinax/_src/vectors/transform/accelerations.py
+++ b/src/coordinax/_src/vectors/transform/accelerations.py
@@ -156,7 +156,7 @@ def represent_as(
 
     # Start by transforming the velocity to the type required by the
     # differential to construct the Jacobian.
-    current_vel = represent_as(velvec, current.integral_cls, current_pos, **kwargs)  # noqa: F841  # pylint: disable=unused-variable
+    current_vel = represent_as(velvec, current.integral_cls, posvec, **kwargs)  # noqa: F841  # pylint: disable=unused-variable
 
     # Takes the Jacobian through the representation transformation function.  This
     # returns a representation of the target type, where the value of each field the
-- 
2.43.0


From 8d3b83aab96e02d2be43d4994b7df238843f1e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:45 +0000
Subject: [PATCH 39/50] fix: the norm of cylindrical and spherical positions
 has the batch shape of the vector

---
 src/coordinax/_src/vectors/d3/cylindrical.py     | 2 +-
 src/coordinax/_src/vectors/d3/lonlatspherical.py | 2 +-
 src/coordinax/_src/vectors/d3/mathspherical.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/cylindrical.py b/src/coordinax/_src/vectors/d3/cylindrical.py
index 1fd292b..97b591a 100644
--- a/src/coordinax/_src/vectors/d3/cylindrical.py
+++ b/src/coordinax/_src/vectors/d3/cylindrical.py
@@ -76,7 +76,7 @@ class CylindricalPos(AbstractPos3D):
         Quantity['length'](Array(5., dtype=float32), unit='kpc')
 
         """
-        return xp.sqrt(self.rho**2 + self.z**2)
+        return xp.broadcast_to(xp.sqrt(self.rho**2 + self.z**2), self.shape)
 
 
 @final
diff --git a/src/coordinax/_src/vectors/d3/lonlatspherical.py b/src/coordinax/_src/vectors/d3/lonlatspherical.py
index 1c75049..84996e9 100644
--- a/src/coordinax/_src/vectors/d3/lonlatspherical.py
+++ b/src/coordinax/_src/vectors/d3/lonlatspherical.py
@@ -142,7 +142,7 @@ class LonLatSphericalPos(AbstractSphericalPos):
         Distance(Array(3., dtype=float32), unit='kpc')
 
         """
-        return self.distance.distance
+        return jnp.broadcast_to(self.distance.distance, self.shape)
 
 
 @LonLatSphericalPos.from_._f.register  # type: ignore[attr-defined, misc]  # noqa: SLF001
diff --git a/src/coordinax/_src/vectors/d3/mathspherical.py b/src/coordinax/_src/vectors/d3/mathspherical.py
index ef296fa..e9d5df0 100644
--- a/src/coordinax/_src/vectors/d3/mathspherical.py
+++ b/src/coordinax/_src/vectors/d3/mathspherical.py
@@ -95,7 +95,7 @@ class MathSphericalPos(AbstractSphericalPos):
         Distance(Array(3., dtype=float32), unit='kpc')
 
         """
-        return self.r.distance
+        return jnp.broadcast_to(self.r.distance, self.shape)
 
 
 @MathSphericalPos.from_._f.register  # type: ignore[attr-defined, misc]  # noqa: SLF001
-- 
2.43.0


From 5c129b5834db484fa6e1be4690bac49fef39868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:36 +0000
Subject: [PATCH 40/50] fix: converting N-dimensional positions to any quantity
 type keeps the component axis last

---
 src/coordinax/_src/vectors/dn/cartesian.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/dn/cartesian.py b/src/coordinax/_src/vectors/dn/cartesian.py
index eefdf73..7e51597 100644
--- a/src/coordinax/_src/vectors/dn/cartesian.py
+++ b/src/coordinax/_src/vectors/dn/cartesian.py
@@ -10,16 +10,17 @@ from typing_extensions import override
 import equinox as eqx
 import jax
 from jaxtyping import ArrayLike, Shaped
-from plum import conversion_method
+from plum import conversion_method, convert
 from quax import register
 
 import quaxed.lax as qlax
 import quaxed.numpy as jnp
 import unxt as u
+from unxt.quantity import AbstractQuantity, UncheckedQuantity
 
 import coordinax._src.typing as ct
 from .base import AbstractAccND, AbstractPosND, AbstractVelND
-from coordinax._src.distances import BatchableLength
+from coordinax._src.distances import BatchableLength, Distance
 from coordinax._src.utils import classproperty
 from coordinax._src.vectors.base import AbstractPos
 from coordinax._src.vectors.base.mixins import AvalMixin
@@ -174,6 +175,7 @@ def from_(
     return cls(jnp.atleast_1d(x))
 
 
+@conversion_method(CartesianPosND, AbstractQuantity)  # type: ignore[misc]
 @conversion_method(CartesianPosND, u.Quantity)  # type: ignore[misc]
 def _vec_to_q(obj: CartesianPosND, /) -> Shaped[u.Quantity["length"], "*batch N"]:
     """`coordinax.AbstractPos3D` -> `unxt.Quantity`.
@@ -192,6 +194,20 @@ def _vec_to_q(obj: CartesianPosND, /) -> Shaped[u.Quantity["length"], "*batch N"
     return obj.q
 
 
+@conversion_method(CartesianPosND, UncheckedQuantity)  # type: ignore[misc]
+def _vec_to_uncheckedq(
+    obj: CartesianPosND, /
+) -> Shaped[UncheckedQuantity, "*batch N"]:
+    """`coordinax.CartesianPosND` -> `unxt.UncheckedQuantity`."""
+    return convert(obj.q, UncheckedQuantity)
+
+
+@conversion_method(CartesianPosND, Distance)  # type: ignore[misc]
+def _vec_to_distance(obj: CartesianPosND, /) -> Shaped[Distance, "*batch N"]:
+    """`coordinax.CartesianPosND` -> `coordinax.Distance`."""
+    return convert(obj.q, Distance)
+
+
 @register(jax.lax.add_p)  # type: ignore[misc]
 def _add_vcnd(lhs: CartesianPosND, rhs: AbstractPos, /) -> CartesianPosND:
     """Add two vectors.
-- 
2.43.0


From 13502d1302ea8446b4a02d5f6e82f526d5a1cb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:15 +0000
Subject: [PATCH 41/50] fix: a FourVector can be copied and pickled

---
 src/coordinax/_src/vectors/d4/spacetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coordinax/_src/vectors/d4/spacetime.py b/src/coordinax/_src/vectors/d4/spacetime.py
index 0bf3b03..6b0ad1f 100644
--- a/src/coordinax/_src/vectors/d4/spacetime.py
+++ b/src/coordinax/_src/vectors/d4/spacetime.py
@@ -167,6 +167,8 @@ class FourVector(AbstractPos4D):
         Quantity['length'](Array(1., dtype=float32), unit='m')
 
         """
+        if name == "q":  # not set yet, e.g. while the object is being copied
+            raise AttributeError(name)
         return getattr(self.q, name)
 
     # -------------------------------------------
-- 
2.43.0


From 9cdc4cd48eb6e66aa069e68d3fea6f721b522965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:26 +0000
Subject: [PATCH 42/50] fix: two-sphere vectors convert to their own class

---
 src/coordinax/_src/vectors/d2/transform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/coordinax/_src/vectors/d2/transform.py b/src/coordinax/_src/vectors/d2/transform.py
index dcac1d7..d39c7a1 100644
--- a/src/coordinax/_src/vectors/d2/transform.py
+++ b/src/coordinax/_src/vectors/d2/transform.py
@@ -11,6 +11,7 @@ import quaxed.numpy as xp
 from .base import AbstractPos2D, AbstractVel2D
 from .cartesian import CartesianAcc2D, CartesianPos2D, CartesianVel2D
 from .polar import PolarPos, PolarVel
+from .spherical import TwoSpherePos, TwoSphereVel
 from coordinax._src.vectors.base import AbstractPos
 
 
@@ -28,6 +29,7 @@ def represent_as(
 @dispatch.multi(
     (CartesianPos2D, type[CartesianPos2D]),
     (PolarPos, type[PolarPos]),
+    (TwoSpherePos, type[TwoSpherePos]),
 )
 def represent_as(
     current: AbstractPos2D, target: type[AbstractPos2D], /, **kwargs: Any
@@ -39,6 +41,7 @@ def represent_as(
 @dispatch.multi(
     (CartesianVel2D, type[CartesianVel2D], AbstractPos),
     (PolarVel, type[PolarVel], AbstractPos),
+    (TwoSphereVel, type[TwoSphereVel], AbstractPos),
 )
 def represent_as(
     current: AbstractVel2D,
-- 
2.43.0


From 318ebcf3aee31f93ec87bba010f7503f3f478976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:04 +0000
Subject: [PATCH 43/50] fix: an N-dimensional acceleration converts to its own
 class at a velocity and position

---
 src/coordinax/_src/vectors/dn/transform.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/coordinax/_src/vectors/dn/transform.py b/src/coordinax/_src/vectors/dn/transform.py
index 7de9865..ca01023 100644
--- a/src/coordinax/_src/vectors/dn/transform.py
+++ b/src/coordinax/_src/vectors/dn/transform.py
@@ -57,6 +57,19 @@ def represent_as(
     return current
 
 
+@dispatch
+def represent_as(
+    current: CartesianAccND,
+    target: type[CartesianAccND],
+    velocity: CartesianVelND,
+    position: CartesianPosND,
+    /,
+    **kwargs: Any,
+) -> CartesianAccND:
+    """CartesianAccND -> CartesianAccND."""
+    return current
+
+
 # =============================================================================
 # CartesianVelND
 
-- 
2.43.0


From cd4c0561645448be4f4ba18c02797536fc586b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:37 +0000
Subject: [PATCH 44/50] fix: a FourVector refuses a speed of light without the
 dimensions of speed

---
 src/coordinax/_src/vectors/d4/spacetime.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coordinax/_src/vectors/d4/spacetime.py b/src/coordinax/_src/vectors/d4/spacetime.py
index 6b0ad1f..e08a566 100644
--- a/src/coordinax/_src/vectors/d4/spacetime.py
+++ b/src/coordinax/_src/vectors/d4/spacetime.py
@@ -99,6 +99,10 @@ class FourVector(AbstractPos4D):
         if shape != self.q.shape:
             msg = "t and q must be broadcastable to the same shape."
             raise ValueError(msg)
+        # Check the dimensions of the speed of light.
+        if u.dimension_of(self.c) != u.dimension("speed"):
+            msg = "c must have dimensions of speed."
+            raise ValueError(msg)
 
     # ---------------------------------------------------------------
     # Constructors
-- 
2.43.0


From 8793dbc2d21d2f9038cffb407b992b4dd139a3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:30 +0000
Subject: [PATCH 45/50] fix: keep the N-dimensional acceleration
 self-conversion after the definitions it followed

---
 src/coordinax/_src/vectors/dn/transform.py | 30 ++++++++++++----------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/coordinax/_src/vectors/dn/transform.py b/src/coordinax/_src/vectors/dn/transform.py
index ca01023..7d693c6 100644
--- a/src/coordinax/_src/vectors/dn/transform.py
+++ b/src/coordinax/_src/vectors/dn/transform.py
@@ -57,19 +57,6 @@ def represent_as(
     return current
 
 
-@dispatch
-def represent_as(
-    current: CartesianAccND,
-    target: type[CartesianAccND],
-    velocity: CartesianVelND,
-    position: CartesianPosND,
-    /,
-    **kwargs: Any,
-) -> CartesianAccND:
-    """CartesianAccND -> CartesianAccND."""
-    return current
-
-
 # =============================================================================
 # CartesianVelND
 
@@ -136,3 +123,20 @@ def represent_as(
 ) -> PoincarePolarVector:
     """PoincarePolarVector -> PoincarePolarVector."""
     return current
+
+
+# =============================================================================
+# CartesianAccND, with a velocity and a position
+
+
+@dispatch
+def represent_as(
+    current: CartesianAccND,
+    target: type[CartesianAccND],
+    velocity: CartesianVelND,
+    position: CartesianPosND,
+    /,
+    **kwargs: Any,
+) -> CartesianAccND:
+    """CartesianAccND -> CartesianAccND."""
+    return current
-- 
2.43.0


From 182430d376bfdab468a46ba4622129820b0ec4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:16 +0000
Subject: [PATCH 46/50] fix: abs() of a vector with a Distance component passes
 runtime type checking

---
 src/coordinax/_src/vectors/base/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index f1f6ab6..403d172 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -632,7 +632,7 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
     # ---------------------------------------------------------------
     # methods
 
-    def __abs__(self) -> u.Quantity:
+    def __abs__(self) -> AbstractQuantity:
         """Return the norm of the vector.
 
         Examples
-- 
2.43.0


From c56d3b733abd2cfc5c47b37293e9d683dcda4508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:26 +0000
Subject: [PATCH 47/50] fix: refuse empty arrays as factors of a vector

any(shape) is False for a zero-size array, so a non-scalar (empty) factor
passed the scalar check.
---
 src/coordinax/_src/vectors/base/base_pos.py    | 2 +-
 src/coordinax/_src/vectors/d1/cartesian.py     | 6 +++---
 src/coordinax/_src/vectors/d2/cartesian.py     | 6 +++---
 src/coordinax/_src/vectors/d2/polar.py         | 2 +-
 src/coordinax/_src/vectors/d3/cartesian.py     | 2 +-
 src/coordinax/_src/vectors/d3/mathspherical.py | 2 +-
 src/coordinax/_src/vectors/dn/cartesian.py     | 2 +-
 7 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/base_pos.py b/src/coordinax/_src/vectors/base/base_pos.py
index 4497bf9..4cd54e1 100644
--- a/src/coordinax/_src/vectors/base/base_pos.py
+++ b/src/coordinax/_src/vectors/base/base_pos.py
@@ -331,7 +331,7 @@ def _mul_v_pos(lhs: ArrayLike, rhs: AbstractPos, /) -> AbstractPos:
     """  # noqa: E501
     # Validation
     lhs = eqx.error_if(
-        lhs, any(jax.numpy.shape(lhs)), f"must be a scalar, not {type(lhs)}"
+        lhs, jax.numpy.ndim(lhs) > 0, f"must be a scalar, not {type(lhs)}"
     )
     rhs = eqx.error_if(
         rhs,
diff --git a/src/coordinax/_src/vectors/d1/cartesian.py b/src/coordinax/_src/vectors/d1/cartesian.py
index fbdc31e..1824c80 100644
--- a/src/coordinax/_src/vectors/d1/cartesian.py
+++ b/src/coordinax/_src/vectors/d1/cartesian.py
@@ -114,7 +114,7 @@ def _mul_ac1(lhs: ArrayLike, rhs: CartesianPos1D, /) -> CartesianPos1D:
     """
     # Validation
     lhs = eqx.error_if(
-        lhs, any(jax.numpy.shape(lhs)), f"must be a scalar, not {type(lhs)}"
+        lhs, jax.numpy.ndim(lhs) > 0, f"must be a scalar, not {type(lhs)}"
     )
 
     # Scale the components
@@ -260,7 +260,7 @@ def _mul_vcart(lhs: ArrayLike, rhs: CartesianVel1D, /) -> CartesianVel1D:
     """
     # Validation
     lhs = eqx.error_if(
-        lhs, any(jax.numpy.shape(lhs)), f"must be a scalar, not {type(lhs)}"
+        lhs, jax.numpy.ndim(lhs) > 0, f"must be a scalar, not {type(lhs)}"
     )
 
     # Scale the components
@@ -356,7 +356,7 @@ def _mul_aq(lhs: ArrayLike, rhs: CartesianAcc1D, /) -> CartesianAcc1D:
     """
     # Validation
     lhs = eqx.error_if(
-        lhs, any(jax.numpy.shape(lhs)), f"must be a scalar, not {type(lhs)}"
+        lhs, jax.numpy.ndim(lhs) > 0, f"must be a scalar, not {type(lhs)}"
     )
 
     # Scale the components
diff --git a/src/coordinax/_src/vectors/d2/cartesian.py b/src/coordinax/_src/vectors/d2/cartesian.py
index 9472cda..1486166 100644
--- a/src/coordinax/_src/vectors/d2/cartesian.py
+++ b/src/coordinax/_src/vectors/d2/cartesian.py
@@ -120,7 +120,7 @@ def _mul_v_cart2d(lhs: ArrayLike, rhs: CartesianPos2D, /) -> CartesianPos2D:
     """
     # Validation
     lhs = eqx.error_if(
-        lhs, any(jax.numpy.shape(lhs)), f"must be a scalar, not {type(lhs)}"
+        lhs, jax.numpy.ndim(lhs) > 0, f"must be a scalar, not {type(lhs)}"
     )
 
     # Scale the components
@@ -278,7 +278,7 @@ def _mul_vp(lhs: ArrayLike, rhts: CartesianVel2D, /) -> CartesianVel2D:
     """
     # Validation
     lhs = eqx.error_if(
-        lhs, any(jax.numpy.shape(lhs)), f"must be a scalar, not {type(lhs)}"
+        lhs, jax.numpy.ndim(lhs) > 0, f"must be a scalar, not {type(lhs)}"
     )
 
     # Scale the components
@@ -403,7 +403,7 @@ def _mul_va(lhs: ArrayLike, rhts: CartesianAcc2D, /) -> CartesianAcc2D:
     """
     # Validation
     lhs = eqx.error_if(
-        lhs, any(jax.numpy.shape(lhs)), f"must be a scalar, not {type(lhs)}"
+        lhs, jax.numpy.ndim(lhs) > 0, f"must be a scalar, not {type(lhs)}"
     )
 
     # Scale the components
diff --git a/src/coordinax/_src/vectors/d2/polar.py b/src/coordinax/_src/vectors/d2/polar.py
index 7fc23af..58e9bb2 100644
--- a/src/coordinax/_src/vectors/d2/polar.py
+++ b/src/coordinax/_src/vectors/d2/polar.py
@@ -87,7 +87,7 @@ def _mul_p_vpolar(lhs: ArrayLike, rhs: PolarPos, /) -> PolarPos:
     """
     # Validation
     lhs = eqx.error_if(
-        lhs, any(jax.numpy.shape(lhs)), f"must be a scalar, not {type(lhs)}"
+        lhs, jax.numpy.ndim(lhs) > 0, f"must be a scalar, not {type(lhs)}"
     )
     # Scale the radial distance. A negative scale also turns the vector by 180 deg.
     opposite = converter_azimuth_to_range(rhs.phi + Angle(180, "deg"))
diff --git a/src/coordinax/_src/vectors/d3/cartesian.py b/src/coordinax/_src/vectors/d3/cartesian.py
index aba59df..67f2d96 100644
--- a/src/coordinax/_src/vectors/d3/cartesian.py
+++ b/src/coordinax/_src/vectors/d3/cartesian.py
@@ -423,7 +423,7 @@ def _mul_ac3(lhs: ArrayLike, rhs: CartesianPos3D, /) -> CartesianPos3D:
     """
     # Validation
     lhs = eqx.error_if(
-        lhs, any(jax.numpy.shape(lhs)), f"must be a scalar, not {type(lhs)}"
+        lhs, jax.numpy.ndim(lhs) > 0, f"must be a scalar, not {type(lhs)}"
     )
 
     # Scale the components
diff --git a/src/coordinax/_src/vectors/d3/mathspherical.py b/src/coordinax/_src/vectors/d3/mathspherical.py
index e9d5df0..89bf05e 100644
--- a/src/coordinax/_src/vectors/d3/mathspherical.py
+++ b/src/coordinax/_src/vectors/d3/mathspherical.py
@@ -213,7 +213,7 @@ def _mul_p_vmsph(lhs: ArrayLike, rhs: MathSphericalPos, /) -> MathSphericalPos:
     """
     # Validation
     lhs = eqx.error_if(
-        lhs, any(jax.numpy.shape(lhs)), f"must be a scalar, not {type(lhs)}"
+        lhs, jax.numpy.ndim(lhs) > 0, f"must be a scalar, not {type(lhs)}"
     )
     # Scale the radial distance. A negative scale also points the vector to the
     # antipode.
diff --git a/src/coordinax/_src/vectors/dn/cartesian.py b/src/coordinax/_src/vectors/dn/cartesian.py
index 7e51597..2cf7c02 100644
--- a/src/coordinax/_src/vectors/dn/cartesian.py
+++ b/src/coordinax/_src/vectors/dn/cartesian.py
@@ -245,7 +245,7 @@ def _mul_vcnd(lhs: ArrayLike, rhs: CartesianPosND, /) -> CartesianPosND:
     """
     # Validation
     lhs = eqx.error_if(
-        lhs, any(jax.numpy.shape(lhs)), f"must be a scalar, not {type(lhs)}"
+        lhs, jax.numpy.ndim(lhs) > 0, f"must be a scalar, not {type(lhs)}"
     )
 
     # Scale the components
-- 
2.43.0


From e1a3ea6e148507b99f24a4d991a3ee0fcad645af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:28 +0000
Subject: [PATCH 48/50] fix: Space refuses two vectors for one dimension

---
 src/coordinax/_src/vectors/space/compat.py | 2 +-
 src/coordinax/_src/vectors/space/core.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/space/compat.py b/src/coordinax/_src/vectors/space/compat.py
index bbe119b..5fa6b63 100644
--- a/src/coordinax/_src/vectors/space/compat.py
+++ b/src/coordinax/_src/vectors/space/compat.py
@@ -135,4 +135,4 @@ def replace(obj: Space, /, **kwargs: AbstractVector) -> Space:
     Quantity['length'](Array(3., dtype=float32), unit='km')
 
     """
-    return type(obj)(**{**obj, **kwargs})
+    return type(obj)(**{**obj, **type(obj)(**kwargs)})
diff --git a/src/coordinax/_src/vectors/space/core.py b/src/coordinax/_src/vectors/space/core.py
index d981d44..5cb24bc 100644
--- a/src/coordinax/_src/vectors/space/core.py
+++ b/src/coordinax/_src/vectors/space/core.py
@@ -121,7 +121,7 @@ class Space(AbstractVector, ImmutableMap[Dimension, AbstractVector]):  # type: i
         keys = [_get_dimension_name(k) for k in raw]
         keys = eqx.error_if(
             keys,
-            len(keys) < len(raw),
+            len(set(keys)) < len(raw),
             f"Space(**input) contained duplicate keys {set(raw) - set(keys)}.",
         )
         # TODO: check the key dimension makes sense for the value
-- 
2.43.0


From 8ef1be0a51e13d3641581ac11fb5872b8d32f819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:54 +0000
Subject: [PATCH 49/50] fix: simplify boosts of one and two dimensions

---
 src/coordinax/_src/operators/boost.py          | 3 ++-
 src/coordinax/_src/operators/galilean/boost.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/operators/boost.py b/src/coordinax/_src/operators/boost.py
index 64d7da7..b06c2d0 100644
--- a/src/coordinax/_src/operators/boost.py
+++ b/src/coordinax/_src/operators/boost.py
@@ -286,7 +286,8 @@ def simplify_op(op: VelocityBoost, /, **kwargs: Any) -> VelocityBoost | Identity
 
     """
     # Check if the velocity is zero.
-    if jnp.allclose(convert(op.velocity, u.Quantity).value, jnp.zeros((3,)), **kwargs):
+    x = convert(op.velocity, u.Quantity).value
+    if jnp.allclose(x, jnp.zeros_like(x), **kwargs):
         return Identity()
     return op
 
diff --git a/src/coordinax/_src/operators/galilean/boost.py b/src/coordinax/_src/operators/galilean/boost.py
index c0f47c7..9e272fa 100644
--- a/src/coordinax/_src/operators/galilean/boost.py
+++ b/src/coordinax/_src/operators/galilean/boost.py
@@ -227,7 +227,8 @@ def simplify_op(op: GalileanBoost, /, **kwargs: Any) -> GalileanBoost | Identity
 
     """
     # Check if the velocity is zero.
-    if jnp.allclose(convert(op.velocity, u.Quantity).value, jnp.zeros((3,)), **kwargs):
+    x = convert(op.velocity, u.Quantity).value
+    if jnp.allclose(x, jnp.zeros_like(x), **kwargs):
         return Identity()
     return op
 
-- 
2.43.0


From 0e89679cda46bc64dcfa7e6bdd6ec2019f9b2f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:45 +0000
Subject: [PATCH 50/50] fix: index the broadcast members of a Space

---
 src/coordinax/_src/vectors/space/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/space/core.py b/src/coordinax/_src/vectors/space/core.py
index 5cb24bc..ba50a5e 100644
--- a/src/coordinax/_src/vectors/space/core.py
+++ b/src/coordinax/_src/vectors/space/core.py
@@ -27,6 +27,7 @@ from coordinax._src.vectors.base import (
     AbstractVector,
     AbstractVel,
 )
+from coordinax._src.vectors.utils import full_shaped
 
 DimensionLike: TypeAlias = Dimension | str
 
@@ -225,7 +226,8 @@ class Space(AbstractVector, ImmutableMap[Dimension, AbstractVector]):  # type: i
         highlights core python indexing.
 
         """
-        return Space(**{k: v[key] for k, v in self.items()})
+        full = full_shaped(self)
+        return Space(**{k: v[key] for k, v in full.items()})
 
     @dispatch
     def __getitem__(self, key: str | Dimension) -> Any:
-- 
2.43.0

