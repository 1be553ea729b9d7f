"""Gradients versus finite differences of the values of the same call."""

import numpy as np

from lib import gen

ID = "C07"
N = {"quick": {"x64": 64}, "thorough": {"x64": 2400}}
SHARDS = {"x64": 8}
MIN = {"quick": {"derivatives_compared": 900, "derivatives_nonzero": 500, "grid_derivatives": 60, "alpha_derivatives": 40,
                 "wall_derivatives": 120, "exact_configs": 10, "approx_configs": 10, "optimizer_configs": 3, "mixed_configs": 4}}
RULE = """Random scenes in float64; parameters are transmitter, receiver, all wall end points and the slope; gradients by
jax.grad of accumulate_over_paths / path length / validity and by the grid methods, projected on random directions and on
each node coordinate; distinct = directions with a non-zero derivative at which one-sided and two-step finite differences
agree (i.e. where the value is differentiable)."""
ASSUMES = ["points where one-sided finite differences disagree are treated as non-differentiable and skipped (counted)"]

CONFIGS = [(2, 1), (1, 1), (3, 1), (2, 2), (0, 0), (1, 1), (2, 1), (1, 1)]


def run_case(ctx, index):
    import jax
    import jax.numpy as jnp
    from differt2d.geometry import RIS, FermatPath, ImagePath, MinPath, Path, Point, Vertex, Wall
    from differt2d.logic import hard_sigmoid, sigmoid
    from differt2d.scene import Scene
    from differt2d.utils import received_power

    rng = ctx.rng
    n, order = CONFIGS[(index + index // 8) % 8]
    kind = ["accumulate", "accumulate", "grid_rx", "length", "grid_tx", "validity", "accumulate", "optimizer"][(index // 2 + index // 16) % 8]
    if n == 0 and kind in ("validity", "optimizer"):
        kind = "accumulate"
    approx = bool((index // 8 + index) % 2)
    if kind == "validity":
        approx = True
    fn = [sigmoid, hard_sigmoid][rng.integers(2)]
    kw = dict(approx=approx)
    if approx:
        kw["function"] = fn
    cls = ImagePath
    if kind == "optimizer":
        cls = [FermatPath, MinPath][rng.integers(2)]
        order = min(order, 2)
        ctx.ev("optimizer_configs")
    elif rng.random() < 0.15:
        cls = Path
    akw = dict(kw, path_cls=cls, max_order=order)
    if kind == "optimizer":
        akw.update(min_order=1, path_cls_kwargs=dict(steps=15, many=1), key=ctx.key())
    ctx.ev("approx_configs" if approx else "exact_configs")
    patch = jnp.array(0.1) if rng.random() < 0.25 else None
    if patch is not None and kind != "length":
        akw["patch"] = patch

    types = ["wall"] * n
    if cls is not ImagePath and rng.random() < 0.6:
        types = [["ris", "vertex", "wall"][(i + index) % 3] for i in range(n)]
        if n:
            ctx.ev("mixed_configs")

    def obj_of(p, i):
        if types[i] == "ris":
            return RIS(xys=p["walls"][i], phi=p["phi"])
        if types[i] == "vertex":
            return Vertex(xy=p["walls"][i, 0])
        return Wall(xys=p["walls"][i])

    def scene_of(p):
        return Scene(
            transmitters={"tx": Point(xy=p["tx"])},
            receivers={"rx": Point(xy=p["rx"])},
            objects=[obj_of(p, i) for i in range(n)],
        )

    key = ctx.key()

    def value(p):
        sc = scene_of(p)
        a = dict(akw)
        if approx:
            a["alpha"] = p["alpha"]
        if kind in ("accumulate", "optimizer"):
            return sc.accumulate_over_paths(received_power, reduce_all=True, fun_args=(p["r_coef"], p["height"]), **a)
        objs = list(sc.objects)[: order if n >= order else n]
        path = cls.from_tx_objects_rx(p["tx"], objs, p["rx"], key=key)
        if kind == "length":
            return path.length()
        cand = jnp.arange(len(objs))
        b = dict(kw, alpha=p["alpha"], tol=jnp.array(0.5))
        if patch is not None:
            b["patch"] = patch
        return path.is_valid(list(sc.objects), cand, objs, **b)

    # (XLA takes minutes to compile some approximate gradients as one program)
    f, df = value, jax.grad(value)
    hetero = len(set(types)) > 1  # candidates cannot be traced for objects of several classes
    if not hetero:
        f = jax.jit(f)
    if not approx and not hetero:
        df = jax.jit(df)

    for _ in range(3 if not ctx.thorough else 8):
        s = float(rng.choice([1.0, 1.0, 0.2, 5.0]))
        w, t, r = gen.scene_arrays(rng, n, plain=True)
        w, t, r = w * s, t * s, r * s
        # slopes such that validity is neither saturated nor flat on these scenes
        p0 = dict(tx=t[0], rx=r[0], walls=w, alpha=np.array(float(rng.choice([2.0, 5.0, 20.0, 100.0]))),
                  r_coef=np.array(float(rng.uniform(0.1, 0.9))), height=np.array(float(rng.uniform(0.05, 0.5))),
                  phi=np.array(float(rng.uniform(-1, 1))))
        ctx.case_info = dict(kind=kind, n=n, order=order, approx=approx, cls=cls.__name__, fn=fn.__name__, point=p0,
                             patch=patch is not None, types=types)
        h = 1e-7 * s
        if kind.startswith("grid"):
            on_rx = kind == "grid_rx"
            sc = scene_of(jax.tree_util.tree_map(jnp.array, p0))
            base = r[0] if on_rx else t[0]
            dirs = np.array([[1, 0], [0, 1], rng.normal(size=2)])
            offs = np.concatenate([[[0, 0]], dirs * h, -dirs * h, dirs * h / 4, -dirs * h / 4])
            P = base + offs
            a = dict(akw)
            if approx:
                a["alpha"] = jnp.array(p0["alpha"])
            g = getattr(sc, "accumulate_on_receivers_grid_over_paths" if on_rx else "accumulate_on_transmitters_grid_over_paths")
            v, gr = g(jnp.array(P[:, :1]), jnp.array(P[:, 1:]), received_power, reduce_all=True, value_and_grad=True, **a)
            v, gr = np.asarray(v, float).ravel(), np.asarray(gr, float).reshape(-1, 2)
            for k in range(3):
                judge(ctx, "grid", v[0], v[1 + k], v[4 + k], v[7 + k], v[10 + k], h, float(gr[0] @ dirs[k]), kind)
            continue
        G = {k: np.asarray(v, float) for k, v in df(jax.tree_util.tree_map(jnp.array, p0)).items()}
        v0 = float(f(jax.tree_util.tree_map(jnp.array, p0)))
        cases = []
        for nm in ("tx", "rx"):
            for c in range(2):
                e = np.zeros(2)
                e[c] = 1
                cases.append((nm, e, h))
        for nm in ("tx", "rx", "walls", "walls"):
            if p0[nm].size:
                cases.append((nm, rng.normal(size=p0[nm].shape), h))
        if n:
            e = np.zeros(w.shape)
            e[rng.integers(n), rng.integers(2), rng.integers(2)] = 1
            cases.append(("walls", e, h))
        if "ris" in types:
            cases.append(("phi", np.array(1.0), 1e-7))
        if approx:
            cases.append(("alpha", np.array(1.0), 1e-6))
        if kind in ("accumulate", "optimizer"):
            cases += [("height", np.array(1.0), 1e-7), ("r_coef", np.array(1.0), 1e-7)]
        for nm, d, hh in cases:
            vs = []
            for st in (hh, -hh, hh / 4, -hh / 4):
                q = dict(p0)
                q[nm] = p0[nm] + st * d
                vs.append(float(f(jax.tree_util.tree_map(jnp.array, q))))
            judge(ctx, nm, v0, *vs, hh, float((G[nm] * d).sum()), kind)


def judge(ctx, nm, v0, vp, vm, vp4, vm4, h, g, kind):
    D, Dp, Dm, D4 = (vp - vm) / (2 * h), (vp - v0) / h, (v0 - vm) / h, (vp4 - vm4) / (h / 2)
    noise = 16 * 2.3e-16 * (abs(v0) + abs(vp)) / (h / 4)
    mag = max(abs(D), abs(Dp), abs(Dm), abs(D4))
    if not np.isfinite(mag):
        ctx.check(False, "non-finite-value", wrt=nm, kind=kind, values=[v0, vp, vm])
        return
    spread = max(abs(Dp - Dm), abs(D4 - D))
    tol = 1e-4 * mag + 10 * noise + 1e-9
    if spread > 0.02 * mag + 10 * noise + 1e-9:
        ctx.ev("not_differentiable_here")
        return
    ctx.ev("derivatives_compared")
    if abs(D) > 100 * noise + 1e-9:
        ctx.ev("derivatives_nonzero")
        ctx.sig(nm, kind, round(D, 9), round(v0, 12))
        ctx.sample(dict(wrt=nm, kind=kind, finite_difference=D, gradient=g))
    if nm == "grid":
        ctx.ev("grid_derivatives")
    elif nm == "alpha":
        ctx.ev("alpha_derivatives")
    elif nm == "phi":
        ctx.ev("phi_derivatives")
    elif nm == "walls":
        ctx.ev("wall_derivatives")
    ctx.check(np.isfinite(g) and abs(g - D) <= tol + 3 * spread, "gradient-differs-from-derivative:" + nm,
              kind=kind, gradient=g, finite_difference=D, spread=spread, value=v0)
