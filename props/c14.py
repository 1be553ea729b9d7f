"""Rotations: closed form, rigid motion, composition, inverse, purity."""

import math

import numpy as np

from lib import gen

ID = "C14"
N = {"quick": {"f32": 240, "x64": 240}, "thorough": {"f32": 6000, "x64": 6000}}
SHARDS = {"f32": 2, "x64": 2}
MIN = {"quick": {"rotations": 3000, "compositions": 1000, "inverses": 1000, "attributes": 400, "originals_intact": 1000, "vmapped": 100,
                 "around_point": 300, "around_array": 300, "around_origin": 300}}
RULE = """Rays, walls and RIS of any size and offset, rotated by angles of any size and sign about the origin, a Point, a Vertex or an
array, directly, under jit and vmap; distinct = (ray, angle, center) triples compared with the closed form."""
ASSUMES = ["a result equal to R @ (xys - c) + c (rows instead of columns) is the recorded known finding; any other deviation is a violation"]
ANG = [0.0, math.pi / 2, -math.pi / 2, math.pi, 0.3, -1.1, 2 * math.pi, 4.0, -7.5, 25.0, 1e-3]


def closed(xys, ang, c):
    co, si = math.cos(ang), math.sin(ang)
    R = np.array([[co, -si], [si, co]])
    return (xys - c) @ R.T + c, R @ (xys - c) + c


def setup(ctx):
    import jax

    ctx.state["vm"] = jax.jit(jax.vmap(lambda r, a, c: r.rotate(a, c)))
    ctx.state["jit"] = jax.jit(lambda r, a, c: r.rotate(a, around=c))


def run_case(ctx, index):
    import jax
    import jax.numpy as jnp
    from differt2d.geometry import RIS, Point, Ray, Vertex, Wall

    rng = ctx.rng
    cls = [Ray, Wall, RIS][index % 3]
    sc = 10 ** rng.uniform(-2, 2) if rng.random() < 0.5 else 1.0
    xys = gen.q(rng.uniform(-1, 1, (2, 2)) * sc + (rng.uniform(-3, 3, 2) * sc if rng.random() < 0.5 else 0))
    phi = gen.q(rng.uniform(-3, 3))
    ray = cls(xys=jnp.array(xys), phi=jnp.array(phi)) if cls is RIS else cls(xys=jnp.array(xys))
    before = jax.tree_util.tree_map(lambda a: np.asarray(a).copy(), ray)

    def judge(got, x, ang, c, size, what):
        ctx.ev("rotations")
        rigid, mixed = closed(x, ang, c)
        tol = 16 * ctx.eps * size * (2 + abs(ang))
        got = np.asarray(got, np.float64)
        if not np.isfinite(got).all():
            ctx.violate("rotate-not-finite", got=got, of=what)
        elif np.abs(got - rigid).max() <= tol:
            ctx.ev("rigid")
        elif np.abs(got - mixed).max() <= tol:
            ctx.ev("row_mixing")
            ctx.violate("rotate-row-mixing", got=got, want=rigid, of=what)
        else:
            ctx.violate("rotate-wrong", got=got, want=rigid, known_deviation=mixed, of=what)
        ctx.sig(x.tobytes(), ang, c.tobytes())

    for j in range(8):
        kind = int(rng.integers(4)) if j else index % 4
        ang = gen.q(rng.choice(ANG) if rng.random() < 0.6 else rng.normal() * 2)
        ang = float(ang)
        c = gen.q(rng.uniform(-2, 2, 2) * sc)
        if rng.random() < 0.3:
            c = xys[rng.integers(2)]
        if kind == 0:
            c, around = np.zeros(2), None
            ctx.ev("around_origin")
        elif kind == 1:
            around = Point(xy=jnp.array(c))
            ctx.ev("around_point")
        elif kind == 2:
            around = jnp.array(c)
            ctx.ev("around_array")
        else:
            around = Vertex(xy=jnp.array(c))
            ctx.ev("around_point")
        size = np.abs(xys).max() + np.abs(c).max()
        ctx.case_info = dict(cls=cls.__name__, xys=xys, angle=ang, around=c, kind=kind)
        a = ang if j % 3 == 0 else jnp.array(ang)
        out = ray.rotate(a) if around is None and j % 2 else ray.rotate(angle=a, around=around) if j % 2 else ray.rotate(a, around)
        ctx.check(type(out) is cls and np.asarray(out.xys).shape == (2, 2), "rotate-class-or-shape", got=type(out).__name__)
        judge(out.xys, xys, ang, c, size, "direct")
        # identity, composition and inverse hold for the recorded deviation too
        b = float(gen.q(rng.normal() * 2))
        tol = 40 * ctx.eps * size * (4 + abs(ang) + abs(b))
        two = np.asarray(out.rotate(jnp.array(b), around).xys)
        ref2 = np.asarray(ray.rotate(jnp.array(ang + b), around).xys)
        ctx.ev("compositions")
        ctx.check(np.abs(two - ref2).max() <= tol, "rotations-do-not-compose", got=two, want=ref2, b=b)
        back = np.asarray(out.rotate(jnp.array(-ang), around).xys)
        ctx.ev("inverses")
        ctx.check(np.abs(back - xys).max() <= tol, "rotating-back-does-not-restore", got=back)
        if kind == 0 and j < 3:  # default center is the origin
            z = np.asarray(ray.rotate(jnp.array(ang), jnp.zeros(2)).xys)
            ctx.check(np.abs(z - np.asarray(out.xys)).max() <= tol, "default-center-is-not-the-origin", got=out.xys, want=z)
        if kind and j < 3:  # every way of giving the center is the same
            z = [np.asarray(ray.rotate(jnp.array(ang), x).xys) for x in (Point(xy=jnp.array(c)), jnp.array(c), Vertex(xy=jnp.array(c)))]
            ctx.check(max(np.abs(z[0] - z[1]).max(), np.abs(z[0] - z[2]).max()) <= tol, "center-types-disagree", got=z)
        if j == 0:
            judge(ctx.state["jit"](ray, jnp.array(ang), jnp.array(c)).xys, xys, ang, c, size, "jit")
        if cls is RIS:
            ctx.ev("attributes")
            ctx.check(float(out.phi) == float(before.phi), "attribute-changed", got=float(out.phi), want=float(before.phi))
        ctx.ev("originals_intact")
        ctx.check((np.asarray(ray.xys) == before.xys).all() and out is not ray, "original-changed", got=ray.xys)
    if index % 3 == 0:
        n = 16
        X, A, C = gen.q(rng.uniform(-1, 1, (n, 2, 2))), gen.q(rng.normal(size=n) * 3), gen.q(rng.uniform(-1, 1, (n, 2)))
        o = np.asarray(ctx.state["vm"](Ray(xys=X) if False else jax.vmap(lambda x: Ray(xys=x))(jnp.array(X)), jnp.array(A), jnp.array(C)).xys)
        for k in range(n):
            ctx.ev("vmapped")
            ctx.case_info = dict(xys=X[k], angle=A[k], around=C[k])
            judge(o[k], X[k], float(A[k]), C[k], 2.0, "vmap")
    ctx.sample(dict(xys=xys, angle=ang, around=c, got=out.xys))
