"""Soundness of valid paths: every yielded path is inspected by a physics monitor."""

import numpy as np

from lib import gen, ref, tracing

ID = "C01"
N = {"quick": {"f32": 240, "x64": 240}, "thorough": {"f32": 4000, "x64": 4000}}
SHARDS = {"f32": 4, "x64": 4}
MIN = {"quick": {"valid_paths": 300, "reflections_checked": 250, "legs_vs_objects": 1000, "valid_filtered": 15, "large_shapes": 20}}
RULE = """Random scenes (8 wall-generator families, random scale/offset/orientation, 0..9 walls, several nodes placed
near, on the axis of, or far from walls), random order range and object filter; a path is non-trivial (counted once per
geometry) when it is valid and has at least one reflection or at least one possible obstacle."""
ASSUMES = ["default validity tolerances of the library (loss 1e-2, segment tolerance 0.005) are part of the contract"]


def run_case(ctx, index):
    import jax.numpy as jnp

    rng = ctx.rng
    n, lo, hi = tracing.shape(ctx, index)
    if rng.random() < 0.2:
        lo = int(rng.integers(0, hi + 1))
    ntx, nrx = int(rng.integers(1, 3)), int(rng.integers(1, 4))
    walls, _, _ = gen.scene_arrays(rng, n)
    tx, rx = tracing.special_nodes(rng, walls, ntx), tracing.special_nodes(rng, walls, nrx)
    txn, rxn = gen.names(rng, ntx, "tx"), gen.names(rng, nrx, "rx")
    scene = gen.make_scene(walls, tx, rx, txn, rxn)
    ctx.case_info = dict(walls=walls, tx=tx, rx=rx, txn=txn, rxn=rxn, lo=lo, hi=hi)
    kw = dict(min_order=lo, max_order=hi)
    if lo == hi and rng.random() < 0.5:
        kw = dict(order=hi)
    allowed = None
    if n > 1 and rng.random() < 0.25:
        keep = rng.random(n) < 0.7
        allowed = {i for i in range(n) if keep[i]}
        objs = list(scene.objects)
        kw["filter_objects"] = lambda o: any(o is objs[i] for i in allowed)
    mode = rng.integers(3)
    if mode == 0:
        kw["approx"] = False
    T, R = dict(zip(txn, tx)), dict(zip(rxn, rx))
    robjs = tracing.ref_objs(walls)
    eps = ctx.eps
    seen = set()
    for tk, rk, path, cand in scene.all_valid_paths(**kw):
        ctx.ev("valid_paths")
        c = tuple(int(i) for i in np.asarray(cand))
        pts = np.asarray(path.xys, np.float64)
        det = dict(tx=tk, rx=rk, cand=c, pts=pts)
        if not ctx.check(tk in T and rk in R, "unknown-node-name", **det):
            continue
        ctx.check((tk, rk, c) not in seen, "same-path-twice", **det)
        seen.add((tk, rk, c))
        okc = lo <= len(c) <= hi and all(0 <= i < n for i in c) and all(a != b for a, b in zip(c, c[1:]))
        if not ctx.check(okc, "candidate-not-a-sequence-of-scene-objects", **det):
            continue
        if allowed is not None and c:
            ctx.ev("valid_filtered")
        ctx.check(allowed is None or set(c) <= allowed, "filtered-object-used", **det)
        if not ctx.check(pts.shape == (len(c) + 2, 2) and np.isfinite(pts).all(), "malformed-points", **det):
            continue
        ctx.check((pts[0] == T[tk]).all(), "does-not-start-at-transmitter", **det)
        ctx.check((pts[-1] == R[rk]).all(), "does-not-end-at-receiver", **det)
        wl = walls[list(c)].reshape(-1, 2, 2)
        rp, errs = ref.trace_cond(wl, T[tk], R[rk], eps, rng)
        if rp is None or errs.max() > 0.01 * tracing.sc(walls):
            ctx.ev("ill_conditioned")
            errs = None
        for k, w in enumerate(wl):
            ctx.ev("reflections_checked")
            p = pts[k + 1]
            t = w[1] - w[0]
            L = float(np.hypot(*t))
            if L == 0:
                continue
            if errs is not None:
                off = abs(t[0] * (p - w[0])[1] - t[1] * (p - w[0])[0]) / L
                ctx.check(off <= 4 * errs[k + 1], "point-off-wall-line", off=off, bound=errs[k + 1], k=k, **det)
            M = max(np.abs(w).max(), np.abs(p).max())
            s = float(t @ (p - w[0])) / L**2
            es = 32 * eps * (1 + abs(s) + M / L)
            ctx.check(-es <= s <= 1 + es, "point-outside-wall-extent", s=s, k=k, **det)
            loss = ref.bounce_loss(w, pts[k], p, pts[k + 2])
            la, lc = np.hypot(*(p - pts[k])), np.hypot(*(p - pts[k + 2]))
            if errs is not None and min(la, lc) > 0:
                # direction error of both legs, then |e|^2
                de = 4 * (errs[k] + errs[k + 1]) / la + 4 * (errs[k + 1] + errs[k + 2]) / lc + 64 * eps * (1 + M / L)
                bound = (0.1 + de) ** 2 * 1.001
                ctx.check(loss <= bound, "not-a-mirror-reflection", loss=loss, bound=bound, k=k, **det)
                # a genuine reflection keeps both legs on the same side of the wall
                nn = np.array([t[1], -t[0]]) / L
                a, b = float((pts[k] - w[0]) @ nn), float((pts[k + 2] - w[0]) @ nn)
                ea, eb = 4 * errs[k] + 16 * eps * M, 4 * errs[k + 2] + 16 * eps * M
                if a * b < 0 and abs(a) > ea and abs(b) > eb:
                    # only tolerated when so grazing that the loss is below tol
                    g = min(abs(a) / la, abs(b) / lc)
                    ctx.check(4 * g * g <= 0.0101 + 8 * de, "reflection-through-the-wall", grazing=g, k=k, **det)
        zero = np.zeros(len(pts))
        for k in range(len(pts) - 1):
            ends = ([c[k - 1]] if k > 0 else []) + ([c[k]] if k < len(c) else [])
            for j, o in enumerate(robjs):
                if j in ends:
                    continue
                ctx.ev("legs_vs_objects")
                hit = o.intersects3(pts[k], pts[k + 1], 0.0, ref.TOL_SEG, zero[k], zero[k + 1], 2 * eps)
                ctx.check(hit is not True, "leg-crosses-object", leg=k, object=j, **det)
        if len(c) or n:
            ctx.sig(walls.tobytes(), tk, rk, c, pts.tobytes())
        if len(c) >= 2:
            ctx.ev("valid_order_ge2")
            ctx.sample(dict(walls=walls, cand=c, pts=pts))
