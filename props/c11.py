"""Approximate mode versus a fuzzy reference, exact mode, and its limit."""

import numpy as np

from lib import fuzzy, gen, ref

ID = "C11"
N = {"quick": {"f32": 600, "x64": 800}, "thorough": {"f32": 12000, "x64": 16000}}
SHARDS = {"f32": 4, "x64": 4}
MIN = {"quick": {"fuzzy_values": 2500, "strictly_between": 500, "exact_agreements": 500, "valid_exact": 60, "limits": 300,
                 "scene_paths": 250, "scene_sums": 30, "alpha_seen": 60, "ranged": 200}}
RULE = """Random scenes of walls, RIS and vertices with arbitrary path points, loss, tol, patch, slope and three activation
functions (one never reaches 0 nor 1, so that a comparison made with another function shows); scenes traced through
all_paths, all_valid_paths, accumulate_over_paths and the grid methods; distinct = inputs with a validity strictly
between 0 and 1."""
ASSUMES = ["reference values are intervals that account for rounding errors of the margins"]
SHAPES = [(3, 1), (5, 2), (2, 0), (4, 3), (1, 1), (6, 1), (3, 2), (2, 2)]


def functions():
    import jax.numpy as jnp
    from differt2d.logic import hard_sigmoid, sigmoid

    def ranged(x, alpha):
        s = lambda z: 0.5 * (jnp.tanh(z / 2) + 1)
        return 0.2 + 0.5 * s(alpha * x) + 0.1 * s(2 * alpha * x + 1.0)

    return {"hard_sigmoid": hard_sigmoid, "sigmoid": sigmoid, "ranged": ranged}


def setup(ctx):
    ctx.state["fn"] = functions()


def inside(ctx, got, iv, mech, slack, **d):
    g = np.asarray(got)
    ctx.ev("fuzzy_values")
    if not ctx.check(np.issubdtype(g.dtype, np.floating) and g.shape == (), "approximate-validity-not-a-float", of=mech, dtype=str(g.dtype)):
        return
    g = float(g)
    ctx.check(0 <= g <= 1, "validity-out-of-range", of=mech, got=g)
    ctx.check(iv[0] - slack <= g <= iv[1] + slack, mech, got=g, want=iv, **d)


def run_case(ctx, index):
    import jax.numpy as jnp
    from differt2d.geometry import RIS, FermatPath, ImagePath, MinPath, Path, Vertex, Wall
    from differt2d.logic import is_true

    rng = ctx.rng
    if (index // 8) % 16 == 5:
        return scene_case(ctx, index)
    if (index // 8) % 40 == 7:
        return monitor_case(ctx, index)
    n, order = SHAPES[index % 8]
    mixed = (index // 8) % 2 == 1
    walls, _, _ = gen.scene_arrays(rng, n, plain=rng.random() < 0.6)
    kinds = [("ris" if mixed and j % 3 == 1 else "vertex" if mixed and j % 4 == 2 else "wall") for j in range(n)]
    objs, robjs = [], []
    for w, k in zip(walls, kinds):
        objs.append(Wall(xys=jnp.array(w)) if k == "wall" else RIS(xys=jnp.array(w)) if k == "ris" else Vertex(xy=jnp.array(w[0])))
        robjs.append(ref.Obj(k, w, 0.3))
    cand = [int(i) for i in rng.integers(0, n, order)]
    for k in range(1, len(cand)):
        while n > 1 and cand[k] == cand[k - 1]:
            cand[k] = int(rng.integers(n))
    if mixed and order == 3:
        cand[2] = cand[0]
    lo, h = walls.reshape(-1, 2).min(0), walls.reshape(-1, 2).max(0)
    span = np.maximum(h - lo, 1e-3)
    pts = lo + span * rng.uniform(-0.1, 1.1, (order + 2, 2))
    for k, i in enumerate(cand):
        w = walls[i]
        t = w[1] - w[0]
        r = rng.random()
        s = rng.random() if r < 0.6 else rng.normal() * 0.01 + rng.integers(0, 2) if r < 0.85 else rng.uniform(-0.6, 1.6)
        pts[k + 1] = w[0] + s * t
    r = rng.random()
    if r < 0.3:
        pts[0], pts[-1] = pts[1] + 0.05 * span * rng.normal(size=2), pts[-2] + 0.05 * span * rng.normal(size=2)
    elif r < 0.5:  # a leg that ends close to a wall end or a wall
        w = walls[rng.integers(n)]
        pts[0] = w[0] + rng.uniform(-0.2, 1.2) * (w[1] - w[0]) + rng.normal(size=2) * 0.02 * span
    pts = gen.q(pts)
    loss = float(np.float32(rng.choice([0.0, 1e-3, 0.009, 0.02, 0.5])))
    tol = float(np.float32(rng.choice([1e-2, 1e-2, 0.1, 1.0])))
    patch = float(np.float32(rng.choice([0.0, 0.0, 0.05, 0.3, -0.1])))
    nm = ["hard_sigmoid", "sigmoid", "ranged"][(index // 16) % 3]
    alpha = float(np.float32(rng.choice([1.0, 10.0, 100.0, 100.0, 500.0])))
    cls = [Path, ImagePath, FermatPath, MinPath][index % 4]
    path = cls(xys=jnp.array(pts), loss=jnp.array(loss))
    ic, inter, rinter = jnp.array(cand, dtype=jnp.int32), [objs[i] for i in cand], [robjs[i] for i in cand]
    ctx.case_info = dict(walls=walls, kinds=kinds, cand=cand, pts=pts, loss=loss, tol=tol, patch=patch, fn=nm, alpha=alpha)
    kw = dict(approx=True, alpha=jnp.array(alpha), function=ctx.state["fn"][nm])
    if nm == "hard_sigmoid" and rng.random() < 0.5:
        del kw["function"]
        if alpha == 100.0:
            del kw["alpha"]
    if nm == "ranged":
        ctx.ev("ranged")
    eps = 4 * ctx.eps
    errs = np.zeros(len(pts))
    on = fuzzy.on_margin(pts, errs, rinter, eps)
    hit = fuzzy.hit_margin(pts, errs, robjs, cand, patch, eps)
    fn = getattr(fuzzy, nm)
    O, H, V = fuzzy.validity(fn, alpha, on, hit, loss, tol, eps)
    if kinds and any(kinds[j] == "vertex" for j in range(n)) and hit[0] is not None:
        H = (max(H[0], 0.0), H[1])
    slack = 30 * ctx.eps
    pk, tk = {"patch": jnp.array(patch)}, {"tol": jnp.array(tol)}
    inside(ctx, path.on_objects(inter, **kw), O, "approximate-on_objects-wrong", slack)
    inside(ctx, path.intersects_with_objects(objs, ic, **pk, **kw), H, "approximate-intersects-wrong", slack)
    v = path.is_valid(objs, ic, inter, **tk, **pk, **kw)
    inside(ctx, v, V, "approximate-is_valid-wrong", slack)
    if 1e-3 < float(v) < 1 - 1e-3:
        ctx.ev("strictly_between")
        ctx.sig(pts.tobytes(), walls.tobytes(), alpha, nm)
        if index % 8 == 3:
            ctx.sample(dict(pts=pts, cand=cand, alpha=alpha, fn=nm, interval=V, got=float(v)))
    # exact mode: same verdict away from thresholds (activations that are odd around 1/2)
    lo_m, hi_m = fuzzy.exact_margin(on, hit, loss, tol)
    e = path.is_valid(objs, ic, inter, **tk, **pk, approx=False, **({"alpha": jnp.array(alpha)} if rng.random() < 0.1 else {}))
    want = True if lo_m > 1e-30 else False if hi_m < -1e-30 else None
    if want is not None and hi_m - lo_m < 1e-2:
        ctx.check(bool(e) == want, "exact-validity-wrong", want=want, margin=[lo_m, hi_m])
        m = min(abs(lo_m), abs(hi_m))
        if nm != "ranged" and m * alpha > 1e3 * ctx.eps:
            ctx.ev("exact_agreements")
            if want:
                ctx.ev("valid_exact")
            ctx.check(bool(is_true(v, approx=True)) == bool(e), "approximate-and-exact-disagree", approx=float(v), exact=bool(e), margin=m)
        if nm != "ranged" and m > 1e-4 and (index // 8) % 2 == 0:
            ctx.ev("limits")
            last = None
            kw2 = dict(kw, function=ctx.state["fn"][nm])
            for a in (10.0, 1e3, 1e5, 1e7):
                kw2["alpha"] = jnp.array(a)
                d = abs(float(path.is_valid(objs, ic, inter, **tk, **pk, **kw2)) - float(bool(e)))
                ctx.check(last is None or d <= last + 10 * ctx.eps, "validity-moves-away-from-exact-as-alpha-grows", alpha=a, distance=d, before=last)
                last = d
            ctx.check(last <= 1e-6, "approximate-validity-does-not-converge", distance=last, margin=m)


def scene_case(ctx, index):
    import jax.numpy as jnp
    from differt2d.geometry import ImagePath
    from differt2d.utils import received_power

    rng = ctx.rng
    n, order = [(3, 1), (2, 2), (4, 1), (1, 1)][index % 4]
    walls, tx, rx = gen.scene_arrays(rng, n, 1, 1, plain=True)
    scene = gen.make_scene(walls, tx, rx)
    robjs = [ref.Obj("wall", w) for w in walls]
    nm = ["hard_sigmoid", "sigmoid", "ranged"][(index // 128) % 3]
    fn = getattr(fuzzy, nm)
    alpha = float(rng.choice([5.0, 20.0, 100.0]))
    tol, patch = float(np.float32(rng.choice([1e-2, 0.5]))), float(np.float32(rng.choice([0.0, 0.2])))
    kw = dict(approx=True, alpha=jnp.array(alpha), function=ctx.state["fn"][nm], tol=jnp.array(tol), patch=jnp.array(patch), max_order=order)
    ctx.case_info = dict(walls=walls, tx=tx, rx=rx, fn=nm, alpha=alpha, tol=tol, patch=patch, order=order)
    eps = 4 * ctx.eps
    total, power_ok = np.zeros(2), True
    fuzzy_ids, exact_ids, clear = [], [], True
    for t, r, valid, path, cand in scene.all_paths(**kw):
        cand = [int(c) for c in np.asarray(cand)]
        pts, loss = np.asarray(path.xys, float), float(path.loss)
        errs = np.zeros(len(pts))
        on = fuzzy.on_margin(pts, errs, [robjs[i] for i in cand], eps)
        hit = fuzzy.hit_margin(pts, errs, robjs, cand, patch, eps)
        _, _, V = fuzzy.validity(fn, alpha, on, hit, loss, tol, eps)
        inside(ctx, valid, V, "approximate-validity-in-scene-wrong", 30 * ctx.eps, candidate=cand, pts=pts)
        ctx.ev("scene_paths")
        p = 0.5 ** len(cand) / (0.01 + ref.length(pts) ** 2)
        total += np.array(V) * p
        lo_m, hi_m = fuzzy.exact_margin(on, hit, loss, tol)
        clear &= lo_m * hi_m > 0 and min(abs(lo_m), abs(hi_m)) * alpha > 1e3 * ctx.eps
        if 1e-3 < float(valid) < 0.999:
            ctx.sig("scene", pts.tobytes(), alpha)
    if nm != "ranged":
        a = [(t, r, tuple(np.asarray(c).tolist())) for t, r, _, c in scene.all_valid_paths(**kw)]
        ek = {k: v for k, v in kw.items() if k not in ("alpha", "function")}
        ek["approx"] = False
        e = [(t, r, tuple(np.asarray(c).tolist())) for t, r, _, c in scene.all_valid_paths(**ek)]
        if clear:
            ctx.ev("exact_agreements")
            ctx.check(a == e, "valid-paths-differ-between-modes", approx=a, exact=e)
    s = 200 * ctx.eps * (1 + total[1])
    got = float(scene.accumulate_over_paths(received_power, reduce_all=True, **kw))
    ctx.ev("scene_sums")
    ctx.check(total[0] - s <= got <= total[1] + s, "approximate-sum-wrong", got=got, want=total)
    for g, p in ((scene.accumulate_on_receivers_grid_over_paths, rx[0]), (scene.accumulate_on_transmitters_grid_over_paths, tx[0])):
        v = float(np.asarray(g(jnp.array([[p[0]]]), jnp.array([[p[1]]]), received_power, reduce_all=True, **kw))[0, 0])
        ctx.check(total[0] - s - 1e-3 * ctx.eps <= v <= total[1] + s or not np.isfinite(total).all(), "approximate-map-wrong", got=v, want=total)
        ctx.ev("scene_sums")
    if nm != "ranged" and clear:
        big = dict(kw, alpha=jnp.array(1e7))
        lim = float(scene.accumulate_over_paths(received_power, reduce_all=True, **big))
        exact = float(scene.accumulate_over_paths(received_power, reduce_all=True, **ek))
        ctx.check(abs(lim - exact) <= 1e-3 * (1 + exact) or margin_small(scene, ek, robjs, patch, tol, eps), "approximate-sum-does-not-converge", limit=lim, exact=exact)


def margin_small(scene, ek, robjs, patch, tol, eps):
    for _, _, _, path, cand in scene.all_paths(**ek):
        cand = [int(c) for c in np.asarray(cand)]
        pts = np.asarray(path.xys, float)
        on = fuzzy.on_margin(pts, np.zeros(len(pts)), [robjs[i] for i in cand], eps)
        hit = fuzzy.hit_margin(pts, np.zeros(len(pts)), robjs, cand, patch, eps)
        lo, hi = fuzzy.exact_margin(on, hit, float(path.loss), tol)
        if not (min(abs(lo), abs(hi)) > 1e-5 and lo * hi > 0):
            return True
    return False


def monitor_case(ctx, index):
    """Record which slopes reach the activation function."""
    import jax
    import jax.numpy as jnp
    from differt2d.utils import received_power

    rng = ctx.rng
    walls, tx, rx = gen.scene_arrays(rng, 2, 1, 1, plain=True)
    scene = gen.make_scene(walls, tx, rx)
    alpha = float(np.float32(rng.uniform(3, 60)))
    seen = []

    def fn(x, a):
        jax.debug.callback(lambda b: seen.append(float(b)), jnp.asarray(a, dtype=float))
        return 0.5 * (1 + jnp.tanh(a * x))

    kw = dict(approx=True, alpha=jnp.array(alpha), function=fn, max_order=1)
    ctx.case_info = dict(walls=walls, tx=tx, rx=rx, alpha=alpha)
    one = jnp.array([[0.3]])
    calls = [
        lambda: list(scene.all_paths(**kw)),
        lambda: list(scene.all_valid_paths(**kw)),
        lambda: scene.accumulate_over_paths(received_power, reduce_all=True, **kw),
        lambda: scene.accumulate_on_receivers_grid_over_paths(one, one, received_power, reduce_all=True, **kw),
        lambda: scene.accumulate_on_transmitters_grid_over_paths(one, one, received_power, reduce_all=True, **kw),
    ]
    for i, c in enumerate(calls):
        seen.clear()
        jax.block_until_ready(jax.tree_util.tree_leaves([x for x in jax.tree_util.tree_leaves(c()) if hasattr(x, "shape")]))
        jax.effects_barrier()
        ctx.ev("alpha_seen", len(seen))
        # 1 loss test per path, 2 per interaction, 4 per leg and obstacle
        ctx.check(len(seen) >= 3 and all(abs(a - alpha) < 1e-4 for a in seen), "slope-or-function-not-forwarded", call=i, seen=sorted(set(seen))[:5], n=len(seen), alpha=alpha)
