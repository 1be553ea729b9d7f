"""Completeness: set of valid paths versus an independent image-method enumeration."""

from collections import Counter

import numpy as np

from lib import gen, ref, tracing

ID = "C02"
N = {"quick": {"f32": 200, "x64": 200}, "thorough": {"f32": 3200, "x64": 3200}}
SHARDS = {"f32": 4, "x64": 4}
MIN = {"quick": {"expected_valid": 300, "expected_invalid": 3000, "expected_valid_reflections": 150, "symmetric_scenes": 30, "equal_lengths": 20, "large_shapes": 20}}
RULE = """Random scenes as in C01; for every pair and every candidate sequence the float64 reference gives a verdict
valid/invalid/undecidable-within-rounding; distinct = decided candidates of order >= 1, non-trivial = decided by geometry
(not skipped as undecidable)."""
ASSUMES = ["undecidable cases (verdict flips under perturbations of the size of rounding errors) accept either answer"]


def run_case(ctx, index):
    rng = ctx.rng
    n, lo, hi = tracing.shape(ctx, index)
    ntx, nrx = (1, 1) if rng.random() < 0.5 else (int(rng.integers(1, 3)), int(rng.integers(1, 3)))
    walls, _, _ = gen.scene_arrays(rng, n)
    tx, rx = tracing.special_nodes(rng, walls, ntx), tracing.special_nodes(rng, walls, nrx)
    if rng.random() < 0.5 and n:  # keep most nodes inside the scene: more valid paths
        l, h = walls.reshape(-1, 2).min(0), walls.reshape(-1, 2).max(0)
        tx, rx = gen.q(l + (h - l) * rng.random((ntx, 2))), gen.q(l + (h - l) * rng.random((nrx, 2)))
    if n >= 2 and rng.random() < 0.2:  # symmetric about a horizontal axis, nodes on it: distinct paths of the same length
        m = n // 2
        up = rng.integers(1, 17, (m, 2, 2)) / 8.0
        for w in up:
            if (w[0] == w[1]).all():
                w[1, 0] += 1.0
        mid = [[[3.0, -1.0], [3.0, 1.0]]] if n % 2 else []
        walls = np.concatenate([up, up * np.array([1.0, -1.0]), np.array(mid).reshape(-1, 2, 2)])
        if rng.random() < 0.5:  # horizontal mirrors on both sides
            walls[0], walls[m] = [[-1.0, 2.5], [4.0, 2.5]], [[-1.0, -2.5], [4.0, -2.5]]
        walls = walls[rng.permutation(n)]
        tx, rx = rng.integers(-4, 25, (ntx, 2)) / 8.0 * [1, 0], rng.integers(-4, 25, (nrx, 2)) / 8.0 * [1, 0] + [0.0625, 0]
        ctx.ev("symmetric_scenes")
    txn, rxn = gen.names(rng, ntx, "tx"), gen.names(rng, nrx, "rx")
    scene = gen.make_scene(walls, tx, rx, txn, rxn)
    ctx.case_info = dict(walls=walls, tx=tx, rx=rx, txn=txn, rxn=rxn, lo=lo, hi=hi)
    robjs = tracing.ref_objs(walls)
    scale = tracing.sc(np.concatenate([walls.reshape(-1), tx.ravel(), rx.ravel()]))

    every, valid, got = Counter(), Counter(), {}
    for tk, rk, v, path, cand in scene.all_paths(min_order=lo, max_order=hi, approx=False):
        k = (tk, rk, tuple(int(i) for i in np.asarray(cand)))
        every[k] += 1
        got[k] = (bool(v), np.asarray(path.xys, np.float64), float(path.length()))
        if bool(v):
            valid[k] += 1
    cands = ref.candidates(n, lo, hi)
    want = {(a, b, c) for a in txn for b in rxn for c in cands}
    ctx.check(set(every) == want, "candidates-missing-or-unknown",
              missing=sorted(want - set(every))[:5], unknown=sorted(set(every) - want)[:5])
    ctx.check(all(v == 1 for v in every.values()), "path-reported-twice", dup=[k for k, v in every.items() if v > 1][:5])
    vs = Counter((a, b, tuple(int(i) for i in np.asarray(c)))
                 for a, b, _, c in scene.all_valid_paths(min_order=lo, max_order=hi, approx=False))
    ctx.check(vs == valid, "all_valid_paths-differs-from-valid-paths", extra=list((vs - valid).items())[:5],
              lost=list((valid - vs).items())[:5])
    ctx.ev("all_valid_paths_calls")
    lengths = Counter((k[0], k[1], len(k[2]), got[k][2]) for k in valid)
    ctx.ev("equal_lengths", sum(v - 1 for v in lengths.values()))
    for a, tp in zip(txn, tx):
        for b, rp in zip(rxn, rx):
            for c in cands:
                verdict, pts, errs = ref.path_verdict(walls, robjs, c, tp, rp, ctx.eps, rng)
                key = (a, b, c)
                if key not in got:
                    continue
                ok, gp, gl = got[key]
                if verdict is None:
                    ctx.ev("undecidable")
                    continue
                ctx.ev("expected_valid" if verdict else "expected_invalid")
                if verdict and c:
                    ctx.ev("expected_valid_reflections")
                    ctx.ev(f"expected_valid_order_{len(c)}")
                if c:
                    ctx.sig(walls.tobytes(), key, verdict)
                ctx.check(ok == verdict, "valid-path-missed" if verdict else "invalid-path-reported",
                          pair=(a, b), cand=c, ref_pts=pts, got_pts=gp)
                if verdict and gp.shape == pts.shape:
                    dev = np.abs(gp - pts).max(axis=1)
                    bound = 4 * errs + 64 * ctx.eps * scale
                    ctx.check((dev <= bound).all(), "wrong-coordinates", cand=c, got=gp, want=pts, bound=bound)
                    L = ref.length(pts)
                    ctx.check(abs(gl - L) <= 4 * errs.sum() * 2 + 128 * ctx.eps * scale * len(pts), "wrong-length",
                              cand=c, got=gl, want=L)
                    if len(c) > 1:
                        ctx.sample(dict(cand=c, pts=pts, length=L, walls=walls))
                elif verdict:
                    ctx.check(False, "wrong-number-of-points", cand=c, got=gp.shape, want=pts.shape)
