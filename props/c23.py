"""received_power against the closed form in float64, on bare paths and through the scene methods."""

import numpy as np

from lib import gen, ref, tracing

ID = "C23"
N = {"quick": {"f32": 160, "x64": 160}, "thorough": {"f32": 4000, "x64": 4000}}
SHARDS = {"f32": 4, "x64": 4}
MIN = {"quick": {"powers": 4000, "zero_length": 200, "zero_coefficient": 200, "unit_coefficient": 200, "orders": 1000, "monotone_length": 500, "monotone_interactions": 500,
                 "through_scene": 200, "through_grid": 60, "classes": 1000, "reached": 100}}
RULE = """Random paths of 0 to 6 interactions (every path class, repeated points, zero length), coefficients in [0, 1], heights from 1e-3 to 1e3, other nodes and objects at
random, positional and keyword parameters; scene sums and grid maps with fun_args/fun_kwargs; distinct = (path, parameters)."""
ASSUMES = ["heights are positive; coefficients are 0 or at least 1e-4 (no underflow); relative tolerance from rounding and from the epsilon added to each leg"]


def law(pts, r, h):
    pts = np.asarray(pts, float)
    L = np.linalg.norm(np.diff(pts, axis=0), axis=1).sum()
    n = len(pts) - 2
    return float(r) ** n / (float(h) ** 2 + L * L), L


def tol(ctx, pts, h, L):
    pts = np.asarray(pts, float)
    dl = (len(pts)) * 4 * ctx.eps * (1 + L + np.abs(pts).max())
    return 64 * ctx.eps + 2 * dl * (L + dl) / (h * h + L * L)


def run_case(ctx, index):
    [bare, bare, bare, through_scene][index % 4](ctx, index // 4)


def params(ctx):
    rng = ctx.rng
    r = float(gen.q(rng.choice([0.0, 1.0, 0.5, rng.random(), rng.random() ** 4])))
    r = r if r == 0 or r > 1e-4 else 1e-4  # r**6 stays in the range of float32
    h = float(gen.q(10.0 ** rng.uniform(-3, 3) if rng.random() < 0.7 else rng.choice([0.1, 1.0])))
    return r, h


def bare(ctx, k):
    import jax.numpy as jnp
    from differt2d.geometry import RIS, FermatPath, ImagePath, MinPath, Path, Point, Vertex, Wall
    from differt2d.utils import P0, received_power

    rng = ctx.rng
    n = k % 7
    s = 10.0 ** rng.uniform(-2, 2)
    cls = [Path, ImagePath, FermatPath, MinPath][k % 4]
    ctx.check(P0 == 100.0, "P0", got=P0)
    for _ in range(8):
        pts = rng.normal(size=(n + 2, 2)) * s
        z = rng.random()
        if z < 0.15:
            pts[:] = pts[0]
            ctx.ev("zero_length")
        elif z < 0.3:
            pts[-1] = pts[0]
        pts = gen.q(pts)
        r, h = params(ctx)
        p = cls(xys=jnp.array(pts), loss=jnp.array(gen.q(abs(rng.normal()))))
        ctx.case_info = dict(points=pts, r_coef=r, height=h, cls=cls.__name__)
        ctx.sig(pts.tobytes(), r, h)
        want, L = law(pts, r, h)
        a, b = Point(xy=jnp.array(gen.q(rng.normal(size=2) * 3))), Point(xy=jnp.array(gen.q(rng.normal(size=2))))
        w = Wall(xys=jnp.array(gen.q(rng.normal(size=(2, 2)))))
        others = [[], [w], (RIS(xys=w.xys), w), [w] * n, [Vertex(xy=a.xy)]][k % 5]
        got = received_power(a, b, p, others, jnp.array(r), jnp.array(h))
        got2 = received_power(Point(xy=p.xys[0]), Point(xy=p.xys[-1]), p, [], r_coef=jnp.array(r), height=jnp.array(h))
        got3 = received_power(a, b, p, others, r, height=h)
        t = tol(ctx, pts, h, L)
        for g, nm in ((got, "positional"), (got2, "keyword"), (got3, "float")):
            g = np.asarray(g)
            ctx.ev("powers")
            ctx.check(g.shape == () and abs(float(g) - want) <= t * want, "power-law", how=nm, got=g, want=want, interactions=n, length=L)
            ctx.check(float(g) > 0 or (r == 0 and n > 0), "not-positive", got=g)
        ctx.ev("orders", n > 0)
        ctx.ev("classes")
        ctx.ev("zero_coefficient", r == 0)
        ctx.ev("unit_coefficient", r == 1)
        # parameters left out are the documented ones
        d = float(received_power(a, b, p, others))
        want, L = law(pts, 0.5, 0.1)
        ctx.check(abs(d - want) <= tol(ctx, pts, 0.1, L) * want, "default-parameters", got=d, want=want)
        if n == 0 and L == 0:
            ctx.check(abs(d - P0) <= 1e-4 * P0, "P0-at-zero-length", got=d)
        only_r, only_h = float(received_power(a, b, p, others, r_coef=jnp.array(r))), float(received_power(a, b, p, others, height=jnp.array(h)))
        ctx.check(abs(only_r - law(pts, r, 0.1)[0]) <= tol(ctx, pts, 0.1, L) * law(pts, r, 0.1)[0], "r_coef-only", got=only_r)
        ctx.check(abs(only_h - law(pts, 0.5, h)[0]) <= tol(ctx, pts, h, L) * law(pts, 0.5, h)[0], "height-only", got=only_h)
        # relations between executions
        far = cls(xys=jnp.array(gen.q(pts * 1.5)))
        f = float(received_power(a, b, far, others))
        ctx.ev("monotone_length", L > 0)
        ctx.check(f < d if L > 0.05 else f <= d * (1 + 64 * ctx.eps), "power-grows-with-length", near=d, far=f, length=L)
        more = cls(xys=jnp.concatenate([p.xys, p.xys[-1:]]))
        m = float(received_power(a, b, more, others))
        ctx.ev("monotone_interactions")
        ctx.check(m < d and abs(m - 0.5 * d) <= 1e-3 * d, "power-does-not-drop-with-interactions", without=d, with_=m)
    ctx.sample(dict(points=pts, r_coef=r, height=h, power=got))


def through_scene(ctx, k):
    import jax.numpy as jnp
    from differt2d.geometry import FermatPath, ImagePath, Path
    from differt2d.utils import received_power

    rng = ctx.rng
    n, hi = [(0, 0), (1, 1), (2, 2), (3, 1)][k % 4]
    for _ in range(80):
        walls, tx, rx = gen.scene_arrays(rng, n, 1 + k % 2, 1 + (k // 2) % 2, plain=True)
        robjs = tracing.ref_objs(walls)
        sure = [[[(c, ref.path_verdict(walls, robjs, c, a, b, 64 * ctx.eps, rng)) for c in ref.candidates(n, 0, hi)] for b in rx] for a in tx]
        if all(v[0] is not None for row in sure for cell in row for _, v in cell):
            break
    else:
        from lib.core import Skip

        raise Skip
    scene = gen.make_scene(walls, tx, rx)
    r, h = params(ctx)
    seen = []

    def fun(t, q, p, objs, *args, **kw):
        seen.append((args, sorted(kw.items())))
        return received_power(t, q, p, objs, *args, **kw)

    R, H = jnp.array(r), jnp.array(h)
    ctx.case_info = dict(walls=walls, tx=tx, rx=rx, r_coef=r, height=h)
    ctx.sig("scene", walls.tobytes(), tx.tobytes(), r, h)
    got0 = [(t, q, p) for t, q, p, _ in scene.all_valid_paths(max_order=hi, approx=False)]
    want = {}
    for a in scene.transmitters:
        for b in scene.receivers:
            want[a, b] = sum(law(np.asarray(p.xys, float), r, h)[0] for t, q, p in got0 if (t, q) == (a, b))
    for args, kw in (((R, H), {}), ((R,), {"height": H}), ((), {"r_coef": R, "height": H})):
        out = list(scene.accumulate_over_paths(fun, fun_args=args, fun_kwargs=kw, max_order=hi, approx=False))
        tot = float(scene.accumulate_over_paths(fun, fun_args=args, fun_kwargs=kw, max_order=hi, approx=False, reduce_all=True))
        ctx.ev("through_scene")
        T = 2e-4 if not ctx.x64 else 1e-9
        ctx.check(sorted((a, b) for a, b, _ in out) == sorted(want), "pairs", got=[(a, b) for a, b, _ in out])
        for a, b, v in out:
            ctx.check(abs(float(v) - want[a, b]) <= T * (want[a, b] + 1e-30), "parameters-do-not-reach-the-function", pair=(a, b), got=v, want=want[a, b], args=args, kwargs=kw)
        ctx.check(abs(tot - sum(want.values())) <= T * (sum(want.values()) + 1e-30), "sum", got=tot, want=sum(want.values()))
        ctx.check(bool(seen) and all(len(a) == len(args) and [x for x, _ in kws] == sorted(kw) for a, kws in seen), "arguments-given", seen=str(seen[:2]))
        ctx.ev("reached", len(seen))
        seen.clear()
    if k % 2:
        # a line-of-sight map: closed form at every cell
        free = gen.make_scene(np.zeros((0, 2, 2)), tx, rx)
        X, Y = np.meshgrid(gen.q(rng.random(3)), gen.q(rng.random(2)))
        for nm, nodes in (("accumulate_on_receivers_grid_over_paths", tx), ("accumulate_on_transmitters_grid_over_paths", rx)):
            for args, kw in (((R, H), {}), ((), {"r_coef": R, "height": H})):
                out = list(getattr(free, nm)(jnp.array(X), jnp.array(Y), received_power, fun_args=args, fun_kwargs=kw, max_order=0, approx=False))
                ctx.ev("through_grid")
                for (name, Z), node in zip(out, nodes):
                    want = 1.0 / (h * h + (X - node[0]) ** 2 + (Y - node[1]) ** 2)
                    ctx.check(np.allclose(np.asarray(Z, float), want, rtol=1e-3 if not ctx.x64 else 1e-9), "grid-power", method=nm, got=Z, want=want)
