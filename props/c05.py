"""Exactly-once accounting of accumulate_over_paths with a recording, bit-weighted fun."""

import numpy as np

from lib import gen, ref

ID = "C05"
N = {"quick": {"f32": 200, "x64": 200}, "thorough": {"f32": 4000, "x64": 4000}}
SHARDS = {"f32": 4, "x64": 4}
MIN = {"quick": {"fun_calls": 2000, "pairs": 500, "reduce_all": 100, "nonzero_sums": 150, "no_candidate_calls": 5,
                 "keyed_calls": 20, "approx_calls": 60}}
RULE = """Scenes with 0..3 transmitters, 0..3 receivers, 0..4 objects (walls or mixed), order ranges (possibly without any
candidate), filters and path classes; fun returns the k-th power of two at its k-th call of a pair, so that the sum spells
out which calls were counted and with which validity; distinct = (pair, candidate list, validity pattern) with >= 1 candidate."""


def run_case(ctx, index):
    import jax.numpy as jnp
    from differt2d.geometry import RIS, FermatPath, ImagePath, MinPath, Path, Point, Vertex, Wall

    rng = ctx.rng
    # few shapes per worker
    n, lo, hi = [(3, 0, 1), (2, 0, 2), (4, 0, 1), (3, 1, 2), (1, 0, 1), (3, 0, 2), (4, 2, 2), (2, 0, 3)][index % 8]
    r = rng.random()
    if r < 0.06:
        n = 0
    elif r < 0.1:
        n, lo, hi = 1, 2, 3  # no candidate at all
    elif r < 0.14:
        hi = lo - 1  # empty order range
    ntx, nrx = int(rng.integers(0, 4)), int(rng.integers(0, 4))
    if rng.random() < 0.7:
        ntx, nrx = max(ntx, 1), max(nrx, 1)
    walls, tx, rx = gen.scene_arrays(rng, n, ntx, nrx)
    if ntx > 1 and rng.random() < 0.2:
        tx[-1] = tx[0]  # several nodes at the same place
    if nrx > 1 and rng.random() < 0.2:
        rx[:] = rx[0]
    txn, rxn = gen.names(rng, ntx, "tx"), gen.names(rng, nrx, "rx")
    cls_i = [0, 0, 0, 1, 2, 3][rng.integers(6)]
    if rng.random() > 0.35 and cls_i >= 2:
        cls_i = 0
    cls = [ImagePath, Path, FermatPath, MinPath][cls_i]
    objects = [Wall(xys=jnp.array(w)) for w in walls]
    if cls_i >= 2 and n and rng.random() < 0.5:
        objects[-1] = RIS(xys=jnp.array(walls[-1])) if index % 2 else Vertex(xy=jnp.array(walls[-1][0]))
    scene = gen.make_scene(walls, tx, rx, txn, rxn, objects=objects)
    kw = dict(min_order=lo, max_order=hi, path_cls=cls)
    if cls_i >= 2:
        kw.update(key=ctx.key(), path_cls_kwargs=dict(steps=3))
        ctx.ev("keyed_calls")
    if n and rng.random() < 0.2:
        x0 = float(np.median(walls[:, 0, 0]))
        kw["filter_objects"] = lambda o: bool((o.xys[0, 0] if hasattr(o, "xys") else o.xy[0]) <= x0)
    approx = None
    r = rng.random()
    if r < 0.4:
        kw["approx"] = approx = False
    elif r < 0.75:
        kw["approx"] = approx = True
        ctx.ev("approx_calls")
    if rng.random() < 0.15:
        kw["patch"] = jnp.array(0.1)
    ctx.case_info = dict(walls=walls, tx=tx, rx=rx, txn=txn, rxn=rxn, kw={k: v for k, v in kw.items() if k != "key"},
                         types=[type(o).__name__ for o in objects])
    objs = list(scene.objects)

    # reference: the flat list of paths
    flat = [(a, b, np.asarray(v, float).item(), np.asarray(p.xys), tuple(int(i) for i in np.asarray(c)))
            for a, b, v, p, c in scene.all_paths(**kw)]
    pairs = [(a, b) for a in txn for b in rxn]
    ctx.check([(a, b) for (a, _), (b, _) in scene.all_transmitter_receiver_pairs()] == pairs, "pairs-not-the-product",
              want=pairs)
    per_pair = {p: [f for f in flat if f[:2] == p] for p in pairs}
    ctx.check(len(flat) == sum(len(v) for v in per_pair.values()), "path-of-an-unknown-pair")
    ncand = len({f[4] for f in flat})
    ctx.check(all(len(v) == ncand for v in per_pair.values()), "pairs-with-different-candidates",
              counts={str(k): len(v) for k, v in per_pair.items()})
    if not ncand:
        ctx.ev("no_candidate_calls")
    elif approx is not True and ncand > (22 if not ctx.x64 else 50):
        ctx.ev("too_many_for_bit_weights")

    log = []
    a1, a2, kwv = object(), {"x": 1}, float(rng.random())
    nargs = int(rng.integers(0, 3))
    fargs = (a1, a2)[:nargs]
    fkw = {"extra": kwv} if rng.random() < 0.5 else None
    count = [0]

    def fun(t, r, path, inter, *args, **kwargs):
        k = count[0]
        count[0] += 1
        w = 2.0 ** (k % max(ncand, 1))
        log.append((t, r, np.asarray(path.xys), path, inter, args, kwargs, w))
        ctx.ev("fun_calls")
        return jnp.array(w)

    akw = dict(kw)
    akw.update({"fun_args": fargs} if nargs or rng.random() < 0.3 else {})
    if fkw is not None:
        akw["fun_kwargs"] = fkw
    out = list(scene.accumulate_over_paths(fun, **akw))
    ctx.check([(o[0], o[1]) for o in out] == pairs, "pairs-yielded-wrong", got=[(o[0], o[1]) for o in out], want=pairs)
    ctx.ev("pairs", len(pairs))
    if not ctx.check(len(log) == len(flat), "fun-not-called-once-per-path", calls=len(log), paths=len(flat)):
        return
    # match calls with the flat list
    T, R = dict(zip(txn, tx)), dict(zip(rxn, rx))
    for (t, r_, xys, path, inter, args, kwargs, w), (a, b, v, pxys, c) in zip(log, flat):
        ok = isinstance(t, Point) and isinstance(r_, Point)
        ok = ok and (np.asarray(t.xy) == T[a]).all() and (np.asarray(r_.xy) == R[b]).all()
        ctx.check(ok, "fun-called-with-wrong-node", pair=(a, b), t=repr(t), r=repr(r_))
        near = xys.shape == pxys.shape and np.allclose(xys, pxys, rtol=2e3 * ctx.eps,
                                                       atol=2e3 * ctx.eps * (1e-9 + max(np.abs(pxys).max(), 0.0)), equal_nan=True)
        ctx.check(near, "fun-called-with-wrong-path", pair=(a, b), cand=c, got=xys, want=pxys)
        ctx.check(isinstance(path, cls), "fun-called-with-wrong-path-class", got=type(path).__name__)
        same = len(inter) == len(c) and all(
            type(o) is type(objs[i]) and np.array_equal(np.asarray(getattr(o, "xys", getattr(o, "xy", 0))),
                                                       np.asarray(getattr(objs[i], "xys", getattr(objs[i], "xy", 0))))
            for o, i in zip(inter, c))
        ctx.check(same, "fun-called-with-wrong-objects", cand=c)
        ctx.check(len(args) == nargs and all(x is y for x, y in zip(args, fargs)), "fun_args-not-forwarded", got=args)
        ctx.check(kwargs == (fkw or {}), "fun_kwargs-not-forwarded", got=kwargs, want=fkw)
    total = 0.0
    for o, p in zip(out, pairs):
        ws = [2.0 ** k for k in range(len(per_pair[p]))]
        want = float(sum(w * f[2] for w, f in zip(ws, per_pair[p])))
        total += want
        got = np.asarray(o[2])
        exact = all(f[2] in (0.0, 1.0) for f in per_pair[p]) and len(ws) <= (22 if not ctx.x64 else 50)
        tol = 0.0 if exact else 4 * ctx.eps * len(ws) * (sum(ws) + 1)
        ctx.check(got.shape == () and abs(float(got) - want) <= tol, "sum-of-pair-wrong", pair=p, got=got, want=want,
                  validity=[f[2] for f in per_pair[p]])
        if want:
            ctx.ev("nonzero_sums")
        if per_pair[p]:
            ctx.sig(p, [f[4] for f in per_pair[p]], [round(f[2], 3) for f in per_pair[p]], walls.tobytes())
    count[0] = 0
    log.clear()
    z = np.asarray(scene.accumulate_over_paths(fun, reduce_all=True, **akw))
    ctx.ev("reduce_all")
    ctx.check(len(log) == len(flat), "reduce_all-fun-not-called-once-per-path", calls=len(log), paths=len(flat))
    bound = 8 * ctx.eps * (ncand + len(pairs)) * (2.0 ** max(ncand, 1) * max(len(pairs), 1) + 1)
    ctx.check(z.shape == () and abs(float(z) - total) <= bound, "reduce_all-not-the-sum-over-pairs", got=z, want=total)
    if ncand > 3:
        ctx.sample(dict(pairs=pairs, sums=[float(o[2]) for o in out], ncand=ncand))
