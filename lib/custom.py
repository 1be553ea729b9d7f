"""User-defined interactable objects, written against the public abstract class only."""

from typing import Any

import equinox as eqx
import jax.numpy as jnp
from differt2d.abc import Interactable
from differt2d.logic import false_value, greater_equal, less_equal, logical_all, true_value

_cache = {}


def Blob(pts):
    """Object of m = len(pts) - 1 parameters: pts[0] + sum_k u_k * pts[k]."""
    m = pts.shape[0] - 1
    if m not in _cache:
        _cache[m] = _make(m)
    return _cache[m](pts)


def _make(m):
    class _Blob(eqx.Module, Interactable):
        pts: Any

        @staticmethod
        def parameters_count() -> int:
            return m

        def parametric_to_cartesian(self, param_coords):
            assert param_coords.shape == (m,), param_coords.shape
            out = self.pts[0]
            for k in range(m):
                out = out + param_coords[k] * self.pts[k + 1]
            return out

        def cartesian_to_parametric(self, carte_coords):
            if m == 0:
                return jnp.zeros(0, carte_coords.dtype)
            a = self.pts[1:].T
            return jnp.linalg.pinv(a) @ (carte_coords - self.pts[0])

        def contains_parametric(self, param_coords, approx=None, **kwargs):
            out = [true_value(approx=approx)]
            for k in range(m):
                out += [greater_equal(param_coords[k], jnp.array(0.0), approx=approx, **kwargs),
                        less_equal(param_coords[k], jnp.array(1.0), approx=approx, **kwargs)]
            return logical_all(*out, approx=approx)

        def intersects_cartesian(self, ray, patch=0.0, approx=None, **kwargs):
            return false_value(approx=approx)

        def evaluate_cartesian(self, ray_path):
            # distance-like score: 0 when the outgoing leg is as long as the incoming one
            i, r = ray_path[1] - ray_path[0], ray_path[2] - ray_path[1]
            return (jnp.dot(i, i) - jnp.dot(r, r)) ** 2

    _Blob.__name__ = f"Blob{m}"
    return _Blob


def named_wall():
    """A class of walls with a static attribute, as users write to attach materials."""
    if "named" not in _cache:
        from differt2d.geometry import Wall

        class NamedWall(Wall):
            name: str = eqx.field(static=True, default="")

        _cache["named"] = NamedWall
    return _cache["named"]


def extra_wall():
    """A class of walls with an additional array of any shape."""
    if "extra" not in _cache:
        from differt2d.geometry import Wall

        class ExtraWall(Wall):
            extra: Any = eqx.field(converter=jnp.asarray, default=0.0)

        _cache["extra"] = ExtraWall
    return _cache["extra"]
