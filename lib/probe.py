"""User-defined scene members whose answers are numeric fingerprints of what they were asked (written against the abstract classes only).

Each answer is a smooth function of *all* the arguments the interface passes, so that NumPy can tell from the final numbers alone which
object was asked what.  `np_*` are the float64 counterparts.
"""

from typing import Any

import equinox as eqx
import jax.numpy as jnp
import numpy as np
from differt2d.abc import Object
from differt2d.geometry import Point

_cache = {}


def _h(xp, s, a, x, shift):
    """A number in (0.05, 0.95)."""
    return 0.5 + 0.45 * xp.sin(xp.sum(a * x) + s + shift)


def shift_of(kw):
    return 0.013 * kw.get("alpha", 0.0) + (0.7 if kw.get("function") is not None else 0.0)


def np_contains(o, point, kw):
    par = o["M"] @ point + o["c"]
    return _h(np, o["s"], o["ka"][: len(par)], par, shift_of(kw))


def np_intersects(o, a, b, patch, kw):
    return _h(np, 2 * o["s"], o["kr"], np.concatenate([a + b, a * b]), shift_of(kw) + 3.0 * patch)


def np_score(o, pts):
    return 0.02 * (1 + np.sin(np.sum(o["ke"] * pts) + o["s"]))


def np_point(o, par):
    return o["p0"] + o["B"] @ par if len(par) else o["p0"]


def probe(m):
    if m in _cache:
        return _cache[m]

    class _Probe(eqx.Module, Object):
        s: Any
        M: Any
        c: Any
        ka: Any
        kr: Any
        ke: Any
        p0: Any
        B: Any
        box: Any

        @staticmethod
        def parameters_count() -> int:
            return m

        def parametric_to_cartesian(self, param_coords):
            assert param_coords.shape == (m,), param_coords.shape
            return self.p0 + self.B @ param_coords if m else self.p0

        def cartesian_to_parametric(self, carte_coords):
            return self.M @ carte_coords + self.c

        def contains_parametric(self, param_coords, approx=None, **kwargs):
            assert param_coords.shape == (m,), param_coords.shape
            return self.answer(_h(jnp, self.s, self.ka[:m], param_coords, shift_of(kwargs)), approx)

        def intersects_cartesian(self, ray, patch=0.0, approx=None, **kwargs):
            a, b = ray
            return self.answer(_h(jnp, 2 * self.s, self.kr, jnp.concatenate([a + b, a * b]), shift_of(kwargs) + 3.0 * patch), approx)

        def evaluate_cartesian(self, ray_path):
            return 0.02 * (1 + jnp.sin(jnp.sum(self.ke * ray_path) + self.s))

        @staticmethod
        def answer(x, approx):
            if approx is None:
                from differt2d import logic

                approx = logic.ENABLE_APPROX
            return x if approx else x > 0.5

        def bounding_box(self):
            return self.box

        def plot(self, ax, *args, **kwargs):
            PLOTTED.append((self, ax, args, kwargs))
            return [ax.text(0.1, 0.1, f"probe {m}"), ax.text(0.2, 0.2, "second artist")]

    _Probe.__name__ = f"Probe{m}"
    _cache[m] = _Probe
    return _Probe


PLOTTED = []


class RadioNode(Point):
    """A node with attributes of its own."""

    gain: Any = eqx.field(converter=jnp.asarray, default=1.0)
    band: str = eqx.field(static=True, default="")


def random_probe(rng, m, q):
    return dict(s=float(q(rng.uniform(0, 6))), M=q(rng.normal(size=(m, 2))), c=q(rng.normal(size=m)), ka=q(rng.normal(size=3) * 2), kr=q(rng.normal(size=4)),
                ke=q(rng.normal(size=(3, 2))), p0=q(rng.normal(size=2)), B=q(rng.normal(size=(2, m))), box=q(np.sort(rng.normal(size=(2, 2)) * 3, axis=0)), m=m)


def build(d):
    return probe(d["m"])(**{k: jnp.array(v) for k, v in d.items() if k != "m"})
