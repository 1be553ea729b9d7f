"""Closed forms, round trips and sampling law of the objects' own methods."""

import math

import numpy as np

from lib import gen, ref

ID = "C13"
N = {"quick": {"f32": 60, "x64": 60}, "thorough": {"f32": 1500, "x64": 1500}}
SHARDS = {"f32": 4, "x64": 4}
MIN = {"quick": {"round_trips": 5000, "contains_decided": 4000, "contains_true": 800, "normals": 4000, "images": 5000, "specular_zero": 1200,
                 "ris_zero": 1000, "losses": 5000, "samples": 40000, "uniformity_tests": 20, "vertices": 500, "rays": 500,
                 "direct_calls": 300, "custom_objects": 10}}
RULE = """Batches of 64 walls, RIS (any angle), vertices and rays of any size, orientation and offset with points on the line,
inside, outside and at the end points, directly and under vmap; sampling logs of 512 keys per object; user-defined objects of
0 to 3 parameters for sample; distinct = walls whose closed forms were all compared."""
ASSUMES = ["tolerances are forward error bounds of the closed forms; points within them of an end point may be in or out",
           "uniformity is tested by Kolmogorov-Smirnov distance at significance far below one in a million"]
B = 64
KS = 2.9  # sqrt(n) * D; P(exceed) < 1e-7


def setup(ctx):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from differt2d.geometry import RIS, Wall

    def wall_all(w, phi, p, a, c, s, t):
        wall, ris = Wall(xys=w), RIS(xys=w, phi=phi)
        out = {}
        for nm, o in (("wall", wall), ("ris", ris)):
            q = o.parametric_to_cartesian(s[None])
            out[nm] = dict(
                q=q, back=o.cartesian_to_parametric(q), par=o.cartesian_to_parametric(p),
                inside=o.contains_parametric(t[None], approx=False), normal=o.normal(), image=o.image_of(p),
                twice=o.image_of(o.image_of(p)), loss=o.evaluate_cartesian(jnp.stack([a, q, c])),
                o=o.origin(), d=o.dest(), t=o.t(), v0=o.get_vertices()[0].xy, v1=o.get_vertices()[1].xy,
            )
        return out

    ctx.state["all"] = jax.jit(jax.vmap(wall_all))
    ctx.state["one"] = wall_all
    ctx.state["sample"] = jax.jit(jax.vmap(lambda o, k: o.sample(k), in_axes=(None, 0)))
    del eqx


def walls(rng, n):
    out = np.zeros((n, 2, 2))
    for i in range(n):
        r = rng.random()
        if r < 0.25:
            w = rng.integers(-3, 4, (2, 2)).astype(float)
            while (w[0] == w[1]).all():
                w = rng.integers(-3, 4, (2, 2)).astype(float)
        elif r < 0.5:  # axis-aligned
            w = rng.uniform(-1, 1, (2, 2))
            k = rng.integers(2)
            w[1, k] = w[0, k]
        else:
            w = rng.uniform(-1, 1, (2, 2))
        r = rng.random()
        if r < 0.4:
            w = w * 10 ** rng.uniform(-3, 3)
        if r < 0.2:
            w = w + rng.uniform(-5, 5, 2) * np.abs(w).max()
        out[i] = w
    out = gen.q(out)
    for i in range(n):
        if np.hypot(*(out[i, 1] - out[i, 0])) < 1e-3 * np.abs(out[i]).max():
            out[i] = [[0.25, -1.0], [1.5, 2.0]]
    return out


def vec(a):
    return np.asarray(a, np.float64)


def run_case(ctx, index):
    import jax
    import jax.numpy as jnp
    from differt2d.geometry import RIS, Point, Ray, Vertex, Wall

    rng = ctx.rng
    eps = 4 * ctx.eps
    W = walls(rng, B)
    O, T = W[:, 0], W[:, 1] - W[:, 0]
    L = np.hypot(T[:, 0], T[:, 1])
    M = np.abs(W).reshape(B, 4).max(1)
    nrm = np.stack([T[:, 1], -T[:, 0]], 1) / L[:, None]
    phi = gen.q(rng.choice([0.0, math.pi / 4, -0.3, 1.2, math.pi / 2, 3.0, 9.0], B) + rng.choice([0, 1], B) * rng.uniform(-3, 3, B))
    s = gen.q(rng.choice([0.0, 1.0, 0.5, 0.25, -0.3, 1.4], B) + rng.choice([0, 1, 1], B) * rng.normal(size=B) * 0.4)
    t = gen.q(np.where(rng.random(B) < 0.3, rng.integers(0, 2, B).astype(float), rng.uniform(-0.6, 1.6, B)))
    tiny = rng.random(B) < 0.1
    t = np.where(tiny, gen.q(rng.integers(0, 2, B) + rng.choice([-1, 1], B) * 1e-4), t)
    P = gen.q(O + rng.uniform(-1.5, 2.5, (B, 1)) * T + rng.choice([0, 1], (B, 1)) * rng.normal(size=(B, 1)) * nrm * L[:, None])
    Q = O + s[:, None] * T
    A = gen.q(Q + rng.normal(size=(B, 2)) * L[:, None])
    C = gen.q(Q + rng.normal(size=(B, 2)) * L[:, None])
    mode = rng.integers(0, 3, B)
    for i in range(B):
        if mode[i] == 1:  # specular: mirror the incoming direction
            d = Q[i] - A[i]
            C[i] = gen.q(Q[i] + rng.uniform(0.2, 2) * (d - 2 * (d @ nrm[i]) * nrm[i]))
        elif mode[i] == 2:  # leaves at phi: -r = rotation of n by -phi, see the definition of the score
            cp, sp = math.cos(phi[i]), math.sin(phi[i])
            # cross(-r, n) = sin(phi) and dot(-r, n) = cos(phi)
            n = nrm[i]
            m = np.array([cp * n[0] + sp * n[1], cp * n[1] - sp * n[0]])
            C[i] = gen.q(Q[i] - m * L[i] * rng.uniform(0.2, 2))
    J = jnp.array
    got = jax.tree_util.tree_map(np.asarray, ctx.state["all"](J(W), J(phi), J(P), J(A), J(C), J(s), J(t)))
    k = int(rng.integers(B))
    if index % 4 == 0:  # the same through direct calls
        one = ctx.state["one"](J(W[k]), J(phi[k]), J(P[k]), J(A[k]), J(C[k]), J(s[k]), J(t[k]))
        for nm in got:
            for f, v in one[nm].items():
                ctx.ev("direct_calls")
                g = got[nm][f][k]
                v = np.asarray(v)
                ctx.check(v.shape == g.shape and v.dtype == g.dtype, "shape-or-type", of=f, shape=v.shape, dtype=str(v.dtype))
                if v.dtype == bool:
                    ctx.check(bool(v) == bool(g), "direct-differs-from-vmap", of=f)
                else:
                    sc = M[k] + np.abs(P[k]).max() + np.abs(Q[k]).max() if f not in ("loss", "normal", "par", "back") else 1 + np.abs(g).max() * (1 + M[k] / L[k])
                    ctx.check(np.abs(v - g).max() <= 64 * eps * sc, "direct-differs-from-vmap", of=f, got=v, want=g)
    for nm in ("wall", "ris"):
        g = got[nm]
        for f, sh in dict(q=(B, 2), back=(B, 1), par=(B, 1), inside=(B,), normal=(B, 2), image=(B, 2), loss=(B,)).items():
            ctx.check(g[f].shape == sh, "shape-or-type", of=f, shape=g[f].shape)
        ctx.check(g["inside"].dtype == bool, "shape-or-type", of="contains_parametric", dtype=str(g["inside"].dtype))
        for i in range(B):
            ctx.case_info = dict(cls=nm, wall=W[i], phi=phi[i], s=s[i], t=t[i], p=P[i], a=A[i], c=C[i])
            m = M[i] + abs(s[i]) * L[i]
            ctx.check(np.abs(g["q"][i] - Q[i]).max() <= 4 * eps * m, "parametric_to_cartesian", got=g["q"][i], want=Q[i])
            ctx.ev("round_trips")
            ctx.check(abs(g["back"][i, 0] - s[i]) <= 16 * eps * (1 + abs(s[i]) + m / L[i]), "round-trip", got=g["back"][i], want=s[i])
            pp = float(T[i] @ (P[i] - O[i])) / L[i] ** 2
            ep = 16 * eps * (1 + abs(pp) + (M[i] + np.abs(P[i]).max()) / L[i])
            ctx.check(abs(g["par"][i, 0] - pp) <= ep, "cartesian_to_parametric", got=g["par"][i], want=pp)
            ctx.ev("contains_decided")
            ctx.ev("contains_true", 0 <= t[i] <= 1)
            ctx.check(bool(g["inside"][i]) == bool(0 <= t[i] <= 1), "contains_parametric", t=t[i], got=g["inside"][i])
            ctx.ev("normals")
            en = 16 * eps * (1 + M[i] / L[i])
            gn = vec(g["normal"][i])
            ctx.check(abs(np.hypot(*gn) - 1) <= 16 * eps and abs(gn @ T[i]) / L[i] <= en, "normal-not-unit-or-not-orthogonal", got=gn)
            ctx.check(np.abs(gn - nrm[i]).max() <= en, "normal-orientation", got=gn, want=nrm[i])
            ctx.ev("images")
            im = ref.reflect(O[i], T[i], P[i])
            ei = 32 * eps * (1 + M[i] / L[i]) * (M[i] + np.abs(P[i]).max())
            ctx.check(np.abs(g["image"][i] - im).max() <= ei, "image_of", got=g["image"][i], want=im)
            ctx.check(np.abs(g["twice"][i] - P[i]).max() <= 3 * ei, "image_of-not-involutive", got=g["twice"][i], want=P[i])
            # interaction score; relative direction errors first
            la, lc = np.hypot(*(A[i] - Q[i])), np.hypot(*(C[i] - Q[i]))
            if min(la, lc) > 1e-4 * L[i] and min(la, lc) > 0:
                ctx.ev("losses")
                de = 16 * eps * ((m + np.abs(A[i]).max()) / la + (m + np.abs(C[i]).max()) / lc + 1 + M[i] / L[i])
                want = ref.bounce_loss(W[i], A[i], Q[i], C[i]) if nm == "wall" else ref.ris_loss(W[i], phi[i], A[i], Q[i], C[i])
                de = de + (16 * eps * abs(phi[i]) if nm == "ris" else 0)
                v = float(g["loss"][i])
                dz = de + 2.4e-7 * np.abs(C[i]).max() / lc  # C was rounded to float32
                ctx.check(v >= 0, "score-negative", got=v)
                ctx.check(abs(v - want) <= 4 * de * (math.sqrt(max(want, 0)) + de) + 4 * eps * want, "score", got=v, want=want)
                if nm == "wall" and mode[i] == 1 and dz < 1e-2:
                    ctx.ev("specular_zero")
                    ctx.check(v <= 16 * dz * dz, "score-of-specular-reflection-not-zero", got=v, err=dz)
                if nm == "ris" and mode[i] == 2 and dz < 1e-2:
                    ctx.ev("ris_zero")
                    ctx.check(v <= 16 * dz * dz, "score-at-phi-not-zero", got=v, err=dz)
            for f, w in (("o", O[i]), ("d", W[i, 1]), ("v0", W[i, 0]), ("v1", W[i, 1])):
                ctx.check((g[f][i] == w).all(), "end-points", of=f, got=g[f][i], want=w)
            ctx.check(np.abs(g["t"][i] - T[i]).max() <= 2 * eps * M[i], "direction", got=g["t"][i], want=T[i])
            if nm == "wall":
                ctx.sig(W[i].tobytes(), P[i].tobytes())
    ctx.sample(dict(wall=W[k], p=P[k], image=got["wall"]["image"][k], score=got["wall"]["loss"][k], ris=got["ris"]["loss"][k]))

    # Vertices, rays, parameter counts
    for i in range(10):
        ctx.case_info = dict(vertex=P[i], ray=W[i])
        ctx.ev("vertices")
        v = Vertex(xy=J(P[i]))
        e = jnp.zeros(0)
        ctx.check((vec(v.parametric_to_cartesian(e)) == P[i]).all(), "vertex-position")
        ctx.check(np.asarray(v.cartesian_to_parametric(J(Q[i]))).shape == (0,), "vertex-parameters")
        ctx.check(int(v.parameters_count()) == 0 and int(Wall.parameters_count()) == 1 and int(RIS(xys=J(W[i])).parameters_count()) == 1, "parameters_count")
        for ap in (False, True):
            c, h = np.asarray(v.contains_parametric(e, approx=ap)), np.asarray(v.intersects_cartesian(J(W[i]), patch=J(0.3), approx=ap))
            ctx.check(c == 1 and h == 0 and (c.dtype == bool) == (not ap) and (h.dtype == bool) == (not ap), "vertex-verdicts", approx=ap, contains=c, hits=h)
        # an obstacle test right across the vertex
        ray = np.array([P[i] - [0.5, 0.25], P[i] + [0.5, 0.25]])
        ctx.check(not bool(v.intersects_cartesian(J(ray), approx=False)), "vertex-verdicts", hits=True)
        ctx.check(float(v.evaluate_cartesian(J(np.stack([A[i], P[i], C[i]])))) == 0.0, "vertex-score")
        ctx.check((vec(v.sample(jax.random.PRNGKey(i))) == P[i]).all(), "sample-off-the-object", got="vertex")
        ctx.ev("rays")
        r = Ray(xys=J(W[i]))
        ctx.check((vec(r.origin()) == O[i]).all() and (vec(r.dest()) == W[i, 1]).all() and np.abs(vec(r.t()) - T[i]).max() <= 2 * eps * M[i], "ray-accessors",
                  o=r.origin(), d=r.dest(), t=r.t())
        vs = Wall(xys=J(W[i])).get_vertices()
        ctx.check(len(vs) == 2 and all(type(x) is Vertex for x in vs), "vertices-type", got=[type(x).__name__ for x in vs])
        ctx.check((vec(Point(xy=P[i]).xy) == P[i]).all(), "point-position")
    d = Ray(), Point(), RIS()
    ctx.check((vec(d[0].xys) == [[0, 0], [1, 1]]).all() and (vec(d[1].xy) == 0).all() and abs(float(d[2].phi) - math.pi / 4) < 1e-6, "documented-defaults")

    # Sampling
    n = 512
    keys = jax.random.split(ctx.key(), n)
    for o in (Wall(xys=J(W[k])), RIS(xys=J(W[k]))):
        ctx.case_info = dict(wall=W[k], cls=type(o).__name__)
        x = vec(ctx.state["sample"](o, keys))
        if index % 4 == 1:
            one = vec(o.sample(keys[7]))
            ctx.check(np.abs(one - x[7]).max() <= 8 * eps * M[k], "sample-depends-on-vmap", got=one, want=x[7])
        u = (x - O[k]) @ T[k] / L[k] ** 2
        off = np.abs((x - O[k]) @ nrm[k])
        ee = 16 * eps * M[k] / L[k]
        ctx.ev("samples", n)
        ctx.check(off.max() <= 16 * eps * M[k] and u.min() >= -ee and u.max() <= 1 + ee, "sample-off-the-object", lo=u.min(), hi=u.max(), off=off.max())
        uniform(ctx, u, "sample-not-uniform")
    if index % 8 == 2:
        custom(ctx, keys)


def uniform(ctx, u, mech):
    n = len(u)
    u = np.sort(u)
    D = max((np.arange(1, n + 1) / n - u).max(), (u - np.arange(n) / n).max())
    ctx.ev("uniformity_tests")
    ctx.check(D * math.sqrt(n) < KS, mech, ks=D * math.sqrt(n), n=n)
    ctx.check((np.diff(u) > 0).mean() > 0.95, "samples-repeat", distinct=len(np.unique(u)))


def custom(ctx, keys):
    """sample is inherited by user-defined objects with any number of parameters."""
    import jax.numpy as jnp
    from lib import custom as cu

    for m in (0, 2, 3):
        o = cu.Blob(jnp.array(gen.q(ctx.rng.uniform(-2, 2, (m + 1, 2)))))
        x = vec(ctx.state["sample"](o, keys))
        ctx.ev("custom_objects")
        base = vec(o.pts)
        if m == 0:
            ctx.check(np.abs(x - base[0]).max() == 0, "sample-off-the-object", got="0 parameters")
        if m == 2:
            u = np.linalg.solve((base[1:]).T + 1e-300, (x - base[0]).T) if abs(np.linalg.det(base[1:])) > 0.05 else None
            if u is not None:
                ctx.check(u.min() > -1e-4 and u.max() < 1 + 1e-4, "sample-off-the-object", lo=u.min(), hi=u.max())
                uniform(ctx, u[0], "sample-not-uniform")
                uniform(ctx, u[1], "sample-not-uniform")
                c = abs(np.corrcoef(u)[0, 1]) * math.sqrt(len(keys))
                ctx.check(c < 5.5, "sample-parameters-dependent", z=c)
