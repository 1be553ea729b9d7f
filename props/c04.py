"""Validity verdicts of arbitrary paths versus a three-valued float64 reference."""

import numpy as np

from lib import gen, ref, tracing

ID = "C04"
N = {"quick": {"f32": 1000, "x64": 1000}, "thorough": {"f32": 20000, "x64": 20000}}
SHARDS = {"f32": 4, "x64": 4}
MIN = {"quick": {"decided_on": 1000, "decided_hit": 1000, "decided_valid": 1000, "valid_true": 150, "hit_true": 300,
                 "hit_false": 300, "on_true": 200, "on_false": 200, "patched": 300, "mixed": 300, "loss_decides": 100, "large_shapes": 50}}
RULE = """Random scenes mixing Wall/RIS/Vertex, random candidates (also with repeats or non-adjacent duplicates), path
points on, near or off their objects, random loss, tol (0..10) and patch (-0.3..1); distinct = decided is_valid verdicts
with distinct inputs."""
ASSUMES = ["verdicts within rounding error of a threshold accept either answer"]
SHAPES = [(3, 1), (5, 2), (2, 0), (4, 3), (1, 1), (6, 1), (3, 2), (8, 1)]
BIG = [(6, 5), (16, 2), (4, 6), (24, 1), (3, 4), (40, 1), (12, 3), (2, 7)]  # rare: long paths, many objects


def run_case(ctx, index):
    import jax.numpy as jnp
    from differt2d.geometry import RIS, FermatPath, ImagePath, MinPath, Path, Vertex, Wall

    rng = ctx.rng
    n, order = SHAPES[index % 8]
    if (index // 8) % 40 == 7:
        n, order = 0, 0
    if (index // 8) % 20 == 4:  # even: walls only
        n, order = BIG[index % 8]
        ctx.ev("large_shapes")
    mixed = (index // 8) % 2 == 1
    walls, _, _ = gen.scene_arrays(rng, n)
    # types fixed per shape to bound recompilation
    kinds = [("ris" if mixed and j % 3 == 1 else "vertex" if mixed and j % 4 == 2 else "wall") for j in range(n)]
    objs, robjs = [], []
    for w, k in zip(walls, kinds):
        if k == "wall":
            objs.append(Wall(xys=jnp.array(w)))
            robjs.append(ref.Obj("wall", w))
        elif k == "ris":
            objs.append(RIS(xys=jnp.array(w), phi=jnp.array(0.3)))
            robjs.append(ref.Obj("ris", w, 0.3))
        else:
            objs.append(Vertex(xy=jnp.array(w[0])))
            robjs.append(ref.Obj("vertex", w))
    if mixed:
        ctx.ev("mixed")
    cand = [int(i) for i in rng.integers(0, n, order)] if n else []
    if rng.random() < 0.7:
        for k in range(1, len(cand)):
            while n > 1 and cand[k] == cand[k - 1]:
                cand[k] = int(rng.integers(n))
    if mixed and order == 3:  # bounds the number of type sequences to compile
        cand[2] = cand[0]
    lo, h = (walls.reshape(-1, 2).min(0), walls.reshape(-1, 2).max(0)) if n else (np.zeros(2), np.ones(2))
    span = np.maximum(h - lo, 1e-3)
    pts = lo + span * rng.uniform(-0.1, 1.1, (order + 2, 2))
    for k, i in enumerate(cand):
        w = walls[i]
        r = rng.random()
        t = w[1] - w[0]
        s = rng.random() if r < 0.75 else rng.uniform(-0.6, 1.6)
        pts[k + 1] = w[0] + s * t + (rng.normal(size=2) * 0.05 * np.hypot(*t) if rng.random() < 0.25 else 0)
    if n and rng.random() < 0.3:  # short legs: often unobstructed
        pts[0] = pts[1] + 0.05 * span * rng.normal(size=2)
        pts[-1] = pts[-2] + 0.05 * span * rng.normal(size=2)
    pts = gen.q(pts)
    loss = float(np.float32(rng.choice([0.0, 1e-3, 0.009, 0.02, 0.5, 4.0])))
    r = rng.random()
    tol = 1e-2 if r < 0.5 else float(np.float32(rng.choice([1e-4, 0.1, 1.0, 0.015, 10.0])))
    if rng.random() < 0.1:  # exactly at the tolerance: not below it
        loss = tol = float(np.float32(rng.choice([0.0, 0.25, 1.0, 0.015, 10.0])))
    patch = 0.0 if rng.random() < 0.45 else float(np.float32(rng.choice([0.05, 0.2, 1.0, -0.1, -0.3, 0.5])))
    ctx.case_info = dict(walls=walls, kinds=kinds, cand=cand, pts=pts, loss=loss, tol=tol, patch=patch)
    cls = [Path, ImagePath, FermatPath, MinPath][index % 4]
    path = cls(xys=jnp.array(pts), loss=jnp.array(loss))
    ic = jnp.array(cand, dtype=jnp.int32)
    inter = [objs[i] for i in cand]
    rinter = [robjs[i] for i in cand]
    errs = np.zeros(len(pts))
    eps = 4 * ctx.eps
    on = ref.on_objects3(pts, errs, rinter, eps)
    hit = ref.intersects3(pts, errs, robjs, cand, patch, eps)
    lv = ref.lt3(loss, tol, 2 * ctx.eps * max(loss, tol)) if loss != tol else False
    ctx.ev("loss_at_tol", loss == tol)
    want = ref.and3(on, ref.not3(hit), lv)
    kw = {} if rng.random() < 0.3 else {"approx": False}
    # Python floats are compile-time constants for the code under test: use few of them
    num = float if rng.random() < 0.03 else jnp.array
    kp = {} if patch == 0.0 and rng.random() < 0.8 else {"patch": num(patch)}
    kt = {} if tol == 1e-2 else {"tol": num(tol)}
    g_on = path.on_objects(inter, **kw)
    g_hit = path.intersects_with_objects(objs, ic, **kp, **kw)
    g_val = path.is_valid(objs, ic, inter, **kt, **kp, **kw)
    for nm, g in (("on_objects", g_on), ("intersects_with_objects", g_hit), ("is_valid", g_val)):
        ctx.check(np.asarray(g).dtype == bool and np.asarray(g).shape == (), "verdict-not-a-boolean-scalar", of=nm,
                  dtype=str(np.asarray(g).dtype))
    if patch:
        ctx.ev("patched")
    if on is not None:
        ctx.ev("decided_on")
        ctx.ev("on_true" if on else "on_false")
        ctx.check(bool(g_on) == on, "on_objects-wrong", want=on)
    if hit is not None:
        ctx.ev("decided_hit")
        ctx.ev("hit_true" if hit else "hit_false")
        ctx.check(bool(g_hit) == hit, "intersects_with_objects-wrong", want=hit)
    if want is not None:
        ctx.ev("decided_valid")
        if want:
            ctx.ev("valid_true")
        if on is True and hit is False:
            ctx.ev("loss_decides")
            ctx.ev("loss_at_tol_decides", loss == tol)
        ctx.check(bool(g_val) == want, "is_valid-wrong", want=want, on=on, hit=hit, loss_ok=lv)
        ctx.sig(pts.tobytes(), tuple(cand), tol, patch, loss, walls.tobytes())
        if order == 2:
            ctx.sample(dict(cand=cand, pts=pts, loss=loss, tol=tol, patch=patch, valid=want))
    else:
        ctx.ev("undecidable")
    # single-object intersection with patch, for each object
    if n:
        j = int(rng.integers(n))
        ray = pts[:2]
        w3 = robjs[j].intersects3(ray[0], ray[1], patch, ref.TOL_SEG, 0.0, 0.0, eps)
        g = objs[j].intersects_cartesian(jnp.array(ray), **({"patch": num(patch)} if patch else {}), **kw)
        if w3 is not None:
            ctx.ev("decided_object_hits")
            ctx.check(bool(g) == w3, "intersects_cartesian-wrong", object=j, want=w3)
        ctx.check(bool(objs[j].intersects_cartesian(jnp.array(ray), patch=num(patch), **kw)) == bool(
            objs[j].intersects_cartesian(jnp.array(ray[::-1].copy()), patch=num(patch), **kw)) or w3 is None,
            "intersects_cartesian-depends-on-ray-direction", object=j)
