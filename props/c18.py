"""Convergence of the optimizer-based path tracers, per-run optimality bounds."""

import math

import numpy as np

from lib import gen, ref

ID = "C18"
N = {"quick": {"f32": 40, "x64": 64}, "thorough": {"f32": 1600, "x64": 2400}}
SHARDS = {"f32": 4, "x64": 4}
MIN = {"quick": {"fermat_1": 150, "fermat_2": 150, "fermat_3": 150, "min_1": 150, "min_2": 150, "fermat_mixed": 150, "min_mixed": 150, "min_ris": 150,
                 "fermat_scene": 40, "min_scene": 40, "fermat_vertex": 100, "bounds": 2000}}
MERGED = [
    {"num": "fermat_1_missed", "den": "fermat_1", "min_den": 100, "max_rate": 0.04, "mech": "FermatPath-does-not-converge (1 wall)"},
    {"num": "fermat_2_missed", "den": "fermat_2", "min_den": 100, "max_rate": 0.05, "mech": "FermatPath-does-not-converge (2 walls)"},
    {"num": "fermat_3_missed", "den": "fermat_3", "min_den": 100, "max_rate": 0.06, "mech": "FermatPath-does-not-converge (3 walls)"},
    {"num": "min_1_missed", "den": "min_1", "min_den": 100, "max_rate": 0.06, "mech": "MinPath-does-not-converge (1 wall)"},
    {"num": "min_2_missed", "den": "min_2", "min_den": 100, "max_rate": 0.08, "mech": "MinPath-does-not-converge (2 walls)"},
    {"num": "fermat_mixed_missed", "den": "fermat_mixed", "min_den": 100, "max_rate": 0.05, "mech": "FermatPath-does-not-converge (walls and vertices)"},
    {"num": "min_mixed_missed", "den": "min_mixed", "min_den": 100, "max_rate": 0.08, "mech": "MinPath-does-not-converge (walls and vertices)"},
    {"num": "min_ris_missed", "den": "min_ris", "min_den": 100, "max_rate": 0.06, "mech": "MinPath-does-not-leave-RIS-at-phi"},
    {"num": "fermat_scene_missed", "den": "fermat_scene", "min_den": 30, "max_rate": 0.15, "mech": "FermatPath-in-scene-misses-image-paths"},
    {"num": "min_scene_missed", "den": "min_scene", "min_den": 30, "max_rate": 0.2, "mech": "MinPath-in-scene-misses-image-paths"},
]
RULE = """Batches of 32-64 random configurations of 1-3 walls (with mirrors' specular path inside the walls), walls mixed with
vertices, RIS with a closed-form solution, and whole scenes traced by FermatPath/MinPath; many=10 starts, 300 steps;
distinct = configurations with a known optimum."""
ASSUMES = ["convergence is judged on rates over all runs (measured misses are below a third of the allowed rates)",
           "per-run bounds are exact: no path is shorter than the specular one, the optimum of a convex function"]
B = 64


def setup(ctx):
    import jax
    from differt2d.geometry import RIS, FermatPath, MinPath, Vertex, Wall

    def runner(cls, kinds):
        def one(w, phi, tx, rx, key):
            objs = []
            for k, c in enumerate(kinds):
                objs.append(Wall(xys=w[k]) if c == "w" else Vertex(xy=w[k, 0]) if c == "v" else RIS(xys=w[k], phi=phi))
            p = cls.from_tx_objects_rx(tx, objs, rx, key=key, steps=300, many=10)
            return p.xys, p.loss, p.length()

        return jax.jit(jax.vmap(one))

    S = ctx.state
    S["make"] = lambda cls, kinds: S.setdefault((cls, kinds), runner({"F": FermatPath, "M": MinPath}[cls], kinds))


def specular(rng, kinds):
    """Walls and nodes such that the path through chosen interior points is specular (unit-square scale)."""
    while True:
        n = len(kinds)
        pts = rng.uniform(-1, 1, (n + 2, 2))
        legs = np.hypot(*np.diff(pts, axis=0).T)
        if legs.min() < 0.25:
            continue
        w = np.zeros((n, 2, 2))
        ok = True
        for k, c in enumerate(kinds):
            a, b, d = pts[k], pts[k + 1], pts[k + 2]
            i, r = (b - a) / np.hypot(*(b - a)), (d - b) / np.hypot(*(d - b))
            nrm = r - i
            if c == "v":
                w[k] = [b, b + [1, 0]]
                continue
            if np.hypot(*nrm) < 0.5:  # not grazing
                ok = False
                break
            nrm /= np.hypot(*nrm)
            t = np.array([nrm[1], -nrm[0]]) * rng.choice([-1, 1])
            L = rng.uniform(0.4, 2.0)
            u = rng.uniform(0.15, 0.85)
            w[k] = [b - u * L * t, b + (1 - u) * L * t]
        if ok:
            return gen.q(w), gen.q(pts[0]), gen.q(pts[-1])


def best(w, kinds, tx, rx):
    """Reference optimum: image method between consecutive vertices."""
    pts, a, group = [np.array(tx)], np.array(tx), []
    ends = [(k, c) for k, c in enumerate(kinds)] + [(len(kinds), "end")]
    for k, c in ends:
        if c == "w":
            group.append(w[k])
            continue
        b = np.array(rx) if c == "end" else w[k, 0]
        seg = ref.trace(np.array(group).reshape(-1, 2, 2), a, b)
        if seg is None:
            return None
        pts += list(seg[1:])
        a, group = b, []
    return np.array(pts)


CFG = ["F:w", "F:ww", "F:www", "M:w", "M:ww", "mixed", "ris", "scene"]


def run_case(ctx, index):
    import jax
    import jax.numpy as jnp

    rng = ctx.rng
    cfg = CFG[(index + index // 8) % 8 if ctx.thorough else index % 8]
    if cfg == "scene":
        return scene(ctx, index)
    if cfg == "ris":
        return ris(ctx, index)
    j = index // 8
    if cfg == "mixed":
        cls, kinds = [("F", "wv"), ("M", "vw"), ("F", "v"), ("M", "wv"), ("F", "vwv"), ("M", "v"), ("F", "wvw")][j % 7]
        name = {"F": "fermat", "M": "min"}[cls] + ("_vertex" if set(kinds) == {"v"} else "_mixed")
    else:
        cls, kinds = cfg.split(":")
        name = {"F": "fermat", "M": "min"}[cls] + f"_{len(kinds)}"
    W, T, R = map(np.array, zip(*[specular(rng, kinds) for _ in range(B)]))
    keys = jax.random.split(ctx.key(), B)
    X, loss, L = [np.asarray(a, float) for a in ctx.state["make"](cls, kinds)(jnp.array(W), jnp.zeros(B), jnp.array(T), jnp.array(R), keys)]
    for i in range(B):
        want = best(W[i], kinds, T[i], R[i])
        ctx.case_info = dict(cls=cls, kinds=kinds, walls=W[i], tx=T[i], rx=R[i])
        if want is None:
            continue
        Lw = ref.length(want)
        ctx.ev(name)
        ctx.ev("bounds")
        ctx.sig(cls, kinds, W[i].tobytes())
        lt = ref.length(X[i])
        ctx.check(np.isfinite(X[i]).all() and abs(L[i] - lt) <= 64 * ctx.eps * (1 + lt), "length-is-not-that-of-the-points", got=L[i], want=lt)
        ctx.check(lt >= Lw - 64 * ctx.eps * (1 + Lw), "shorter-than-the-optimum", got=X[i], optimum=want)
        ctx.check(loss[i] >= 0, "negative-loss", got=loss[i])
        dev = np.abs(X[i] - want).max()
        vt = [k + 1 for k, c in enumerate(kinds) if c == "v"]
        ctx.check((X[i][vt] == W[i][[k - 1 for k in vt], 0]).all(), "vertex-not-on-the-path", got=X[i])
        lim = {"F": {1: 5e-3, 2: 1e-2, 3: 2e-2}, "M": {1: 3e-2, 2: 8e-2, 3: 0.1}}[cls][len(kinds)]
        if dev > lim:
            ctx.ev(name + "_missed")
            ctx.sample(dict(missed=name, dev=dev, got=X[i], want=want, loss=loss[i]))
        elif len(kinds) > 1:
            ctx.sample(dict(run=name, got=X[i], want=want, loss=loss[i]))
        if set(kinds) == {"v"}:
            ctx.check(dev == 0 and loss[i] == 0, "vertex-path-not-straight", got=X[i], loss=loss[i])


def ris(ctx, index):
    import jax
    import jax.numpy as jnp

    rng = ctx.rng
    W, PH, T, R, Q = [], [], [], [], []
    for _ in range(B):
        w = rng.uniform(-1, 1, (2, 2))
        while np.hypot(*(w[1] - w[0])) < 0.4:
            w = rng.uniform(-1, 1, (2, 2))
        w = gen.q(w)
        phi = float(gen.q(rng.uniform(-1.1, 1.1)))
        d = w[1] - w[0]
        n = np.array([d[1], -d[0]]) / np.hypot(*d)
        cp, sp = math.cos(phi), math.sin(phi)
        m = np.array([cp * n[0] + sp * n[1], cp * n[1] - sp * n[0]])
        q = w[0] + rng.uniform(0.15, 0.85) * d
        W.append([w])
        PH.append(phi)
        T.append(gen.q(q + rng.normal(size=2)))
        R.append(gen.q(q - m * rng.uniform(0.3, 1.5)))
        Q.append(q)
    keys = jax.random.split(ctx.key(), B)
    X, loss, _ = [np.asarray(a, float) for a in ctx.state["make"]("M", "r")(*map(jnp.array, (np.array(W), np.array(PH), np.array(T), np.array(R))), keys)]
    for i in range(B):
        ctx.case_info = dict(cls="M", kinds="r", walls=W[i], phi=PH[i], tx=T[i], rx=R[i])
        ctx.ev("min_ris")
        ctx.sig("ris", W[i][0].tobytes())
        if np.abs(X[i][1] - Q[i]).max() > 3e-2:
            ctx.ev("min_ris_missed")
        r = X[i][2] - X[i][1]
        d = W[i][0][1] - W[i][0][0]
        n = np.array([d[1], -d[0]]) / np.hypot(*d)
        ang = math.atan2(-r[0] * n[1] + r[1] * n[0], -float(r @ n))  # angle of departure seen from the normal
        if loss[i] < 1e-6:
            ctx.ev("bounds")
            e = abs((ang - PH[i] + math.pi) % (2 * math.pi) - math.pi)
            ctx.check(e < 5e-3, "small-loss-but-wrong-angle", angle=ang, phi=PH[i], loss=loss[i])
    ctx.sample(dict(ris=W[0], phi=PH[0], got=X[0], loss=loss[0], want=Q[0]))


def scene(ctx, index):
    """Whole scenes: the optimizer-based classes find what the image method finds."""
    import jax.numpy as jnp
    from differt2d.geometry import FermatPath, MinPath
    from differt2d.scene import Scene
    from differt2d.geometry import Point

    rng = ctx.rng
    kw = dict(max_order=2, approx=False)
    for nm, cls in (("fermat_scene", FermatPath), ("min_scene", MinPath)):
        sc = Scene.square_scene()
        a, b = rng.uniform(0.1, 0.9, (2, 2))
        sc = sc.with_transmitters(a=Point(xy=jnp.array(a))).with_receivers(b=Point(xy=jnp.array(b)))
        img = {tuple(np.asarray(c).tolist()): np.asarray(p.xys, float) for _, _, p, c in sc.all_valid_paths(**kw)}
        got = {tuple(np.asarray(c).tolist()): np.asarray(p.xys, float)
               for _, _, p, c in sc.all_valid_paths(path_cls=cls, path_cls_kwargs={"steps": 300, "many": 10}, key=ctx.key(), **kw)}
        ctx.case_info = dict(scene="square", tx=a, rx=b, cls=cls.__name__)
        for c, x in img.items():
            ctx.ev(nm)
            ctx.ev("bounds")
            ctx.sig(nm, c, x.tobytes())
            if c not in got or np.abs(got[c] - x).max() > 5e-2:
                ctx.ev(nm + "_missed")
        extra = [c for c in got if c not in img]
        ctx.ev(nm + "_extra", len(extra))
        ctx.check(() in got, "line-of-sight-lost", got=sorted(got))
