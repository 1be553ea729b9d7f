"""User-defined objects, path classes and nodes: what the library asks them, told from numeric fingerprints, against the interface contract."""

import numpy as np

from lib import gen

ID = "C27"
N = {"quick": {"f32": 320, "x64": 320}, "thorough": {"f32": 6000, "x64": 6000}}
SHARDS = {"f32": 4, "x64": 4}
MIN = {"quick": {"direct_verdicts": 1100, "direct_approx": 600, "hit_decides": 200, "contains_decides": 100, "loss_decides": 20, "scene_paths": 400, "scene_valid": 100, "accumulated": 80, "grid_cells": 200,
                 "overridden_validity": 300, "user_nodes": 80, "boxes": 50, "plots": 50, "samples": 50, "losses": 150, "wall_overrides": 60, "object_methods": 250, "path_methods": 60, "replaced_nodes": 60, "mixed_parameters": 100}}
RULE = """Random scenes of user-defined objects (0 to 3 parameters, mixed or homogeneous) whose answers fingerprint every argument they are given, random paths and candidates,
alpha/function/patch/tol, exact and approximate; user-defined path classes (own construction, own validity) and node classes through every scene method;
distinct = (method, scene, arguments)."""
ASSUMES = ["intersection answers do not depend on the direction of a leg", "in exact mode answers within 1e-3 of the probes' threshold are skipped"]
SHAPES = [(3, 2), (2, 1), (4, 2), (1, 1), (5, 1), (3, 3), (2, 0), (4, 1)]
MS = [[1, 1, 1, 1, 1], [0, 1, 2, 3, 1], [2, 2, 2, 2, 2], [1], [3, 0, 1, 1, 2], [1, 2, 1], [0, 2], [2, 0, 3, 1]]


def scenery(ctx, n, kinds):
    from lib import probe

    ds = [probe.random_probe(ctx.rng, m, gen.q) for m in kinds[:n]]
    return ds, [probe.build(d) for d in ds]


def act(x, kw):
    """float64 activation."""
    a = kw.get("alpha", 100.0)
    f = kw.get("function")
    name = getattr(f, "__name__", str(f)) if f is not None else "hard_sigmoid"
    return 1 / (1 + np.exp(-np.clip(a * x, -500, 500))) if "hard" not in name else np.clip(a * x / 6 + 0.5, 0, 1)


def oracle(ds, cand, pts, loss, patch, tol, approx, kw):
    """(on, hit, valid); None where too close to call."""
    from lib import probe

    con = [probe.np_contains(ds[i], pts[k + 1], kw) for k, i in enumerate(cand)]
    full = [-1, *cand, -1]
    hit = [probe.np_intersects(d, pts[k], pts[k + 1], patch, kw) for k in range(len(pts) - 1) for j, d in enumerate(ds) if j not in (full[k], full[k + 1])]
    if approx:
        on, h = min([1.0, *con]), max([0.0, *hit])
        lo = act(tol - loss, kw)
        return on, h, min(on, 1 - h, lo)
    if any(abs(v - 0.5) < 1e-3 for v in con + hit) or abs(loss - tol) < 1e-5:
        return None, None, None
    on, h = all(v > 0.5 for v in con), any(v > 0.5 for v in hit)
    return on, h, on and not h and loss < tol


def same(ctx, got, want, approx, mech, **detail):
    g = np.asarray(got)
    if approx:
        return ctx.check(g.shape == () and g.dtype.kind == "f" and abs(float(g) - want) <= (2e-4 if not ctx.x64 else 1e-9), mech, got=g, want=want, **detail)
    return ctx.check(g.shape == () and g.dtype == bool and bool(g) == want, mech, got=g, want=want, **detail)


def mode(ctx, k):
    from differt2d.logic import hard_sigmoid, sigmoid

    rng = ctx.rng
    approx = bool(k % 2)
    kw = {}
    if approx and rng.random() < 0.7:
        kw["alpha"] = float(rng.choice([1.0, 10.0, 40.0]))
    if approx and rng.random() < 0.5:
        kw["function"] = [sigmoid, hard_sigmoid][int(rng.integers(2))]
    patch = float(gen.q(rng.choice([0.0, rng.uniform(-0.3, 1.0)])))
    tol = float(gen.q(rng.choice([1e-2, 0.03, 0.1, 1.0])))
    return approx, kw, patch, tol


def run_case(ctx, index):
    [direct, direct, through_scene, members, overridden, walls, one_method, one_path_method][(index // 8) % 8](ctx, index)


def traced(kw):
    import jax.numpy as jnp

    return {k: jnp.array(v) if k == "alpha" else v for k, v in kw.items()}


def direct(ctx, index):
    import jax.numpy as jnp
    from differt2d.geometry import FermatPath, ImagePath, MinPath, Path

    rng = ctx.rng
    n, order = SHAPES[index % 8]
    ms = MS[index % 8]
    for j in range(10):
        ds, objs = scenery(ctx, n, (ms * 5)[:n])
        approx, kw, patch, tol = mode(ctx, j)
        if order and j % 3 == 0:
            cand = list(range(order))  # an order of parameter counts of its own
        else:
            cand = [int(i) for i in rng.permutation(n)[:order]] if order <= n else [int(i) for i in rng.integers(0, n, order)]
        pts = gen.q(rng.normal(size=(order + 2, 2)))
        loss = float(gen.q(rng.choice([0.0, 0.02, 0.5, 1e-3])))
        ctx.case_info = dict(objects=ds, candidate=cand, points=pts, loss=loss, patch=patch, tol=tol, approx=approx, kwargs=str(kw))
        p = [Path, ImagePath, FermatPath, MinPath][j % 4](xys=jnp.array(pts), loss=jnp.array(loss))
        inter = [objs[i] for i in cand]
        on, hit, val = oracle(ds, cand, pts, loss, patch, tol, approx, kw)
        if on is None:
            ctx.ev("undecided")
            continue
        tk = traced(kw)
        ctx.ev("direct_verdicts")
        ctx.ev("direct_approx", approx)
        ctx.ev("mixed_parameters", len(set(d["m"] for d in ds)) > 1)
        ctx.sig("direct", pts.tobytes(), str(cand), approx)
        same(ctx, p.on_objects(inter, approx=approx, **tk), on, approx, "on_objects-is-not-the-conjunction-of-the-objects-answers")
        same(ctx, p.intersects_with_objects(objs, jnp.array(cand, dtype=jnp.int32), patch=jnp.array(patch), approx=approx, **tk), hit, approx,
             "intersects-is-not-the-disjunction-of-the-objects-answers")
        same(ctx, p.is_valid(objs, jnp.array(cand, dtype=jnp.int32), inter, tol=jnp.array(tol), patch=jnp.array(patch), approx=approx, **tk), val, approx,
             "is_valid-of-user-defined-objects")
        if approx:
            lo = act(tol - loss, kw)
            ctx.ev("contains_decides", val == on < 1)
            ctx.ev("hit_decides", val == 1 - hit)
            ctx.ev("loss_decides", val == lo and lo < 1)
    ctx.sample(ctx.case_info)


def user_path(base, override=None):
    """A path class that builds its own points; calls are recorded."""
    import equinox as eqx
    import jax.numpy as jnp
    from differt2d.geometry import Point

    calls = []

    class UserPath(base):
        @classmethod
        def from_tx_objects_rx(cls, tx, objects, rx, *, key=None, where=0.25, **kwargs):
            calls.append((tx, list(objects), rx, key, where, dict(kwargs)))
            a, b = (x.xy if isinstance(x, Point) else x for x in (tx, rx))
            pts = jnp.vstack([a, *[o.parametric_to_cartesian(jnp.full(o.parameters_count(), where)) for o in objects], b])
            loss = jnp.array(0.0)
            for i, o in enumerate(objects):
                loss = loss + o.evaluate_cartesian(pts[i: i + 3])
            return cls(xys=pts, loss=loss)

        if override is not None:
            def is_valid(self, *args, **kwargs):
                return override(self, *args, **kwargs)

    return UserPath, calls


def np_path(ds, cand, a, b, where):
    from lib import probe

    pts = np.array([a, *[probe.np_point(ds[i], np.full(ds[i]["m"], where)) for i in cand], b])
    return pts, sum(probe.np_score(ds[i], pts[k: k + 3]) for k, i in enumerate(cand))


def candidates(n, hi):
    out = [()]
    level = [()]
    for _ in range(hi):
        level = [c + (i,) for c in level for i in range(n) if not c or c[-1] != i]
        out += level
    return out


def nodes(ctx, nt, nr, index):
    """Scene nodes of a user-defined class."""
    import jax.numpy as jnp
    from lib.probe import RadioNode

    rng = ctx.rng
    tx, rx = gen.q(rng.normal(size=(nt, 2))), gen.q(rng.normal(size=(nr, 2)))
    T = {f"t{i}": RadioNode(xy=jnp.array(p), gain=jnp.array(gen.q(1 + rng.random())), band=f"b{i}") for i, p in enumerate(tx)}
    R = {f"r{i}": RadioNode(xy=jnp.array(p), gain=jnp.array(gen.q(1 + rng.random())), band="rx") for i, p in enumerate(rx)}
    return tx, rx, T, R


def link(t, r, p, objs, factor=1.0):
    """User function: uses the attributes of the nodes, of the path and of the objects."""
    v = factor * t.gain + 0.1 * r.gain * p.xys[0, 0] + 0.01 * p.xys[-1, 1]
    for i, o in enumerate(objs):
        v = v + (i + 1) * o.s
    return v


def np_link(tg, rg, pts, ds, cand, factor=1.0):
    return factor * tg + 0.1 * rg * pts[0, 0] + 0.01 * pts[-1, 1] + sum((i + 1) * ds[c]["s"] for i, c in enumerate(cand))


def through_scene(ctx, index):
    import jax
    import jax.numpy as jnp
    from differt2d.geometry import Path
    from differt2d.scene import Scene

    rng = ctx.rng
    n, hi = [(3, 1), (2, 2), (4, 1), (1, 1), (3, 2), (2, 1), (0, 1), (4, 1)][index % 8]
    ds, objs = scenery(ctx, n, (MS[index % 8] * 5)[:n])
    nt, nr = [(1, 1), (2, 1), (1, 2)][index % 3]
    tx, rx, T, R = nodes(ctx, nt, nr, index)
    scene = Scene(transmitters=T, receivers=R, objects=objs)
    approx, kw, patch, tol = mode(ctx, index // 48)
    where = float(gen.q(rng.random()))
    cls, calls = user_path(Path)
    key = ctx.key() if index % 4 < 2 else None
    args = dict(path_cls=cls, path_cls_kwargs={"where": where, "extra": "x"}, max_order=hi, key=key, approx=approx, patch=jnp.array(patch), tol=jnp.array(tol), **traced(kw))
    ctx.case_info = dict(objects=ds, tx=tx, rx=rx, patch=patch, tol=tol, approx=approx, kwargs=str(kw), where=where)
    ctx.sig("scene", tx.tobytes(), approx, str(kw))
    want = [(a, b, c) for a in range(nt) for b in range(nr) for c in candidates(n, hi)]
    got = list(scene.all_paths(**args))
    if not ctx.check(len(got) == len(want) == len(calls), "number-of-paths", got=len(got), want=len(want), built=len(calls)):
        return
    sums, clear, sure = {}, True, {}
    for (a, b, c), (ta, rb, v, p, cand), (tx_, objects, rx_, k, w, extra) in zip(sorted(want, key=lambda w: (w[0], w[1], len(w[2]))), sorted(got, key=lambda g: (g[0], g[1], len(g[4]), [int(x) for x in g[4]])), calls_sorted(calls, got)):
        c = tuple(int(x) for x in cand)
        a, b = int(ta[1:]), int(rb[1:])
        pts, loss = np_path(ds, c, tx[a], rx[b], where)
        ctx.ev("scene_paths")
        ctx.check(type(p) is cls and np.abs(np.asarray(p.xys) - pts).max() < 1e-4 and abs(float(p.loss) - loss) < 1e-4, "path-is-not-that-of-the-user-class", got=p, want=pts)
        ctx.check(w == where and extra == {"extra": "x"} and (k is None) == (key is None), "path-class-keyword-arguments", got=(w, str(extra), str(k)))
        on, hit, val = oracle(ds, c, pts, loss, patch, tol, approx, kw)
        if val is None:
            clear = False
            sure[a, b, c] = None
        else:
            same(ctx, v, val, approx, "validity-through-the-scene", candidate=c)
            sure[a, b, c] = val > 0.5 if approx else val
            sure[a, b, c] = None if approx and abs(val - 0.5) < 1e-3 else sure[a, b, c]
            sums[a, b] = sums.get((a, b), 0.0) + val * np_link(float(T[ta].gain), float(R[rb].gain), pts, ds, c, 2.0)
    ctx.check(sorted((a, b, c) for a, b, c in sure) == sorted(want), "pairs-and-candidates", got=sorted(sure), want=want)
    # valid paths
    if approx:
        sure = {k: None if v is None else v for k, v in sure.items()}
    yielded = {(int(a[1:]), int(b[1:]), tuple(int(x) for x in c)) for a, b, _, c in scene.all_valid_paths(**args)} if not approx else None
    if yielded is not None:
        for kk, v in sure.items():
            if v is not None:
                ctx.ev("scene_valid")
                ctx.check((kk in yielded) == v, "valid-paths-of-user-classes", path=kk, want=v)
    if not clear:
        return
    T_ = 1e-2 if not ctx.x64 else 1e-7
    out = list(scene.accumulate_over_paths(link, fun_args=(2.0,), **args))
    for a, b, v in out:
        ctx.ev("accumulated")
        w = sums[int(a[1:]), int(b[1:])]
        ctx.check(abs(float(v) - w) <= T_ * (1 + abs(w)), "accumulated-over-user-classes", pair=(a, b), got=v, want=w)
    # grids
    if index % 2 == 0 or approx:
        from lib.probe import RadioNode

        X, Y = jnp.array(gen.q(rng.normal(size=(2, 3)))), jnp.array(gen.q(rng.normal(size=(2, 3))))
        rec = []

        def funn(t, r, p, o):
            rec.append((type(t), type(r)))
            return link(t, r, p, o)

        side = index % 2
        name = ["accumulate_on_receivers_grid_over_paths", "accumulate_on_transmitters_grid_over_paths"][side]
        out = list(getattr(scene, name)(X, Y, funn, **{["receiver_cls", "transmitter_cls"][side]: RadioNode}, **args))
        ctx.check(bool(rec) and all(t is RadioNode and r is RadioNode for t, r in rec), "node-classes-given-to-the-function", got=str(rec[:2]))
        fixed = list((T if side == 0 else R).items())
        ctx.check([nm for nm, _ in out] == [nm for nm, _ in fixed], "grid-names", got=[nm for nm, _ in out])
        for (nm, Z), (_, node) in zip(out, fixed):
            Z = np.asarray(Z, float)
            if not ctx.check(Z.shape == (2, 3), "grid-shape", got=Z.shape):
                continue
            for i in range(2):
                for j in range(3):
                    cell = np.array([float(X[i, j]), float(Y[i, j])])
                    a, b = (np.asarray(node.xy, float), cell) if side == 0 else (cell, np.asarray(node.xy, float))
                    tg, rg = (float(node.gain), 1.0) if side == 0 else (1.0, float(node.gain))
                    w = 0.0
                    for c in candidates(n, hi):
                        pts, loss = np_path(ds, c, a, b, where)
                        val = oracle(ds, c, pts, loss, patch, tol, approx, kw)[2]
                        w = None if val is None or w is None else w + val * np_link(tg, rg, pts, ds, c)
                    if w is None:
                        continue
                    ctx.ev("grid_cells")
                    ctx.check(abs(Z[i, j] - w) <= T_ * (1 + abs(w)), "grid-over-user-classes", method=name, got=Z[i, j], want=w)


def calls_sorted(calls, got):
    """Calls in the order of the paths sorted by pair and candidate."""
    order = sorted(range(len(got)), key=lambda i: (got[i][0], got[i][1], len(got[i][4]), [int(x) for x in got[i][4]]))
    return [calls[i] for i in order] if len(calls) == len(got) else calls


def overridden(ctx, index):
    """A path class with its own notion of validity."""
    import jax.numpy as jnp
    from differt2d.geometry import Path
    from differt2d.scene import Scene

    rng = ctx.rng
    n, hi = [(3, 1), (2, 2), (2, 1), (1, 1)][index % 4]
    ds, objs = scenery(ctx, n, (MS[index % 8] * 5)[:n])
    tx, rx, T, R = nodes(ctx, 2, 1, index)
    scene = Scene(transmitters=T, receivers=R, objects=objs)
    approx = bool((index // 48) % 2)
    asked = []

    def validity(path, *args, **kwargs):
        names = ("objects", "path_candidate", "interacting_objects")
        full = {**dict(zip(names, args)), **kwargs}
        asked.append(full)
        if full.get("approx"):
            return 0.5 + 0.45 * jnp.sin(3 * path.xys[0, 0] + len(path.xys)) * full.get("alpha", 1.0)
        return jnp.sin(3 * path.xys[0, 0] + len(path.xys)) > 0

    cls, calls = user_path(Path, validity)
    kw = {"approx": approx, **({"alpha": 0.5} if approx else {"flavour": "own"})}
    got = list(scene.all_paths(path_cls=cls, max_order=hi, **kw))
    ctx.case_info = dict(tx=tx, rx=rx, n=n, approx=approx)
    ctx.check(len(asked) == len(got), "own-validity-not-asked-once-per-path", asked=len(asked), paths=len(got))
    sums = {}
    for (a, b, v, p, c), full in zip(got, asked):
        x = np.sin(3 * tx[int(a[1:]), 0] + len(c) + 2)
        want = 0.5 + 0.45 * x * 0.5 if approx else bool(x > 0)
        if not approx and abs(x) < 1e-3:
            return
        ctx.ev("overridden_validity")
        ctx.sig("own", approx, float(x), len(c))
        same(ctx, v, want, approx, "own-validity-not-used", candidate=c)
        objs_ok = len(full["objects"]) == n and all(x is y for x, y in zip(full["objects"], objs))
        cand_ok = [int(i) for i in full["path_candidate"]] == [int(i) for i in c]
        inter_ok = len(full["interacting_objects"]) == len(c) and all(abs(float(o.s) - ds[int(i)]["s"]) < 1e-6 for o, i in zip(full["interacting_objects"], c))
        extra_ok = all(full.get(k) == v for k, v in kw.items())
        ctx.check(objs_ok and cand_ok and inter_ok and extra_ok, "own-validity-asked-about-something-else", objects=objs_ok, candidate=cand_ok, interacting=inter_ok, keywords=extra_ok)
        sums[a, b] = sums.get((a, b), 0.0) + float(want) * (1 + len(c))
    fun = lambda t, r, p, o: jnp.array(1.0 + len(o))  # noqa: E731
    for a, b, v in scene.accumulate_over_paths(fun, path_cls=cls, max_order=hi, **kw):
        ctx.check(abs(float(v) - sums[a, b]) <= 1e-3, "own-validity-not-used-in-sums", got=v, want=sums[a, b])
    if not approx:
        k = sum(1 for _ in scene.all_valid_paths(path_cls=cls, max_order=hi, **kw))
        ctx.check(k == sum(bool(g[2]) for g in got), "own-validity-not-used-for-valid-paths", got=k)
    X, Y = jnp.array(gen.q(rng.normal(size=(1, 2)))), jnp.array(gen.q(rng.normal(size=(1, 2))))
    for nm, Z in scene.accumulate_on_receivers_grid_over_paths(X, Y, fun, path_cls=cls, max_order=hi, **kw):
        w = sum(v for (a, _), v in sums.items() if a == nm)
        ctx.check(np.abs(np.asarray(Z, float) - w).max() <= 1e-3, "own-validity-not-used-on-grids", got=Z, want=w)


def members(ctx, index):
    """Boxes, plots, samples, nodes and losses of user-defined members."""
    import jax
    import jax.numpy as jnp
    import matplotlib.pyplot as plt
    from differt2d.geometry import FermatPath, MinPath, Path
    from differt2d.scene import Scene
    from lib import probe

    rng = ctx.rng
    n = SHAPES[index % 8][0]
    ds, objs = scenery(ctx, n, (MS[index % 8] * 5)[:n])
    tx, rx, T, R = nodes(ctx, 1, 2, index)
    scene = Scene(transmitters=T, receivers=R, objects=objs)
    ctx.case_info = dict(objects=ds, tx=tx, rx=rx)
    lo = np.vstack([tx, rx, *[d["box"][0] for d in ds]]).min(0)
    hi = np.vstack([tx, rx, *[d["box"][1] for d in ds]]).max(0)
    box = np.asarray(scene.bounding_box(), float)
    ctx.ev("boxes")
    ctx.sig("members", tx.tobytes(), n)
    ctx.check(box.shape == (2, 2) and np.abs(box - [lo, hi]).max() < 1e-6, "box-of-user-objects", got=box, want=[lo, hi])
    for d, o in zip(ds[:2], objs):
        b = d["box"]
        ctx.check(np.abs(np.asarray(o.center(), float) - b.mean(0)).max() < 1e-5, "center-of-user-object", got=o.center(), want=b)
        ctx.check(np.abs(np.asarray(o.get_location("NE"), float) - b[1]).max() < 1e-6, "location-of-user-object", got=o.get_location("NE"), want=b)
        X, Y = o.grid(3, 2)
        ctx.check(X.shape == (2, 3) and np.allclose(X[0], np.linspace(b[0, 0], b[1, 0], 3), atol=1e-5) and np.allclose(Y[:, 0], b[:, 1], atol=1e-5), "grid-of-user-object", got=(X, Y), want=b)
        # a sample is the image of parameters in the unit cube
        for _ in range(2):
            ctx.ev("samples")
            s = np.asarray(o.sample(ctx.key()), float)
            if d["m"] == 0:
                ctx.check(np.abs(s - d["p0"]).max() < 1e-5, "sample-of-user-object", got=s, want=d["p0"])
            elif d["m"] <= 2:
                par, res = np.linalg.lstsq(d["B"], s - d["p0"], rcond=None)[:2]
                if np.linalg.cond(d["B"]) < 1e2:
                    ctx.check(((par > -1e-3) & (par < 1 + 1e-3)).all() and np.abs(d["B"] @ par + d["p0"] - s).max() < 1e-3, "sample-of-user-object", got=s, parameters=par)
    # plots
    fig, ax = plt.subplots()
    try:
        probe.PLOTTED.clear()
        arts = scene.plot(ax, objects_args=("first",), objects_kwargs={"lw": 3}, annotate=False)
        ctx.ev("plots")
        ctx.check([p[0] for p in probe.PLOTTED] == list(scene.objects) if n == 0 else len(probe.PLOTTED) == n and all(p[0] is o for p, o in zip(probe.PLOTTED, scene.objects)), "user-objects-not-plotted-once-each", got=len(probe.PLOTTED), want=n)
        ctx.check(all(a is ax and args == ("first",) and kw.get("lw") == 3 for _, a, args, kw in probe.PLOTTED), "plot-arguments-of-user-objects", got=str([p[2:] for p in probe.PLOTTED])[:300])
        ctx.check(len(arts) == 3 + 2 * n, "artists-of-user-objects", got=len(arts), want=3 + 2 * n)
    finally:
        plt.close(fig)
    # nodes travel unchanged
    for (a, ta), (b, rb) in scene.all_transmitter_receiver_pairs():
        ctx.ev("user_nodes")
        ctx.check(type(ta) is probe.RadioNode and float(ta.gain) == float(T[a].gain) and ta.band == T[a].band and type(rb) is probe.RadioNode and float(rb.gain) == float(R[b].gain), "node-of-a-user-class-changed", got=(ta, rb))
    s2 = scene.update_transmitters(z=T["t0"]).rename_receivers(r0="q").with_objects(*objs[::-1])
    ctx.check(float(s2.transmitters["z"].gain) == float(T["t0"].gain) and float(s2.receivers["q"].gain) == float(R["r0"].gain) and s2.receivers["q"].band == "rx" and [type(o) for o in s2.objects] == [type(o) for o in objs[::-1]],
              "node-of-a-user-class-changed", got=(s2.transmitters["z"], s2.receivers["q"]))
    # losses of the library's path classes over user-defined objects
    order = min(n, [1, 2, 3][index % 3])
    cand = [int(i) for i in range(n)][:order] if index % 2 else [int(i) for i in range(n)][::-1][:order]
    inter = [objs[i] for i in cand]
    for cls in (FermatPath, MinPath, Path):
        p = cls.from_tx_objects_rx(T["t0"], inter, R["r1"], key=ctx.key(), **({} if cls is Path else {"steps": 5}))
        pts = np.asarray(p.xys, float)
        ctx.ev("losses")
        want = 0.0 if cls is Path else sum(probe.np_score(ds[i], pts[k: k + 3]) for k, i in enumerate(cand))
        ctx.check(pts.shape == (len(cand) + 2, 2) and abs(float(p.loss) - want) < 1e-4, "loss-over-user-objects", cls=cls.__name__, got=p.loss, want=want)
        ctx.check(np.abs(pts[0] - tx[0]).max() == 0 and np.abs(pts[-1] - rx[1]).max() == 0, "ends-over-user-objects", got=pts)
        if cls is Path:
            ctx.check(np.abs(pts - np_path(ds, cand, tx[0], rx[1], 0.5)[0]).max() < 1e-4, "default-path-over-user-objects", got=pts)


def walls(ctx, index):
    """Subclasses of Wall that override one method."""
    import equinox as eqx
    import jax.numpy as jnp
    from differt2d.geometry import ImagePath, Wall
    from lib import ref

    rng = ctx.rng
    g = CLASSES()
    w = gen.wall_array(rng, 3, "uniform")
    w = gen.q(w)
    which = index % 4
    cls = g[which]
    val = gen.q(rng.uniform(0.001, 0.02, 3))
    objs = [cls(xys=jnp.array(x), v=jnp.array(v)) for x, v in zip(w, val)]
    order = [1, 2, 1, 2][which]
    cand = [0, 1][:order]
    a, b = gen.q(rng.random(2)), gen.q(rng.random(2))
    ctx.case_info = dict(walls=w, overrides=cls.__name__, tx=a, rx=b)
    ctx.sig("walls", w.tobytes(), which)
    p = ImagePath.from_tx_objects_rx(jnp.array(a), [objs[i] for i in cand], jnp.array(b))
    pts = np.asarray(p.xys, float)
    if not np.isfinite(pts).all() or np.abs(pts).max() > 50:
        from lib.core import Skip

        raise Skip
    ic = jnp.array(cand, dtype=jnp.int32)
    ctx.ev("wall_overrides")
    if cls.__name__ == "ScoredWall":
        want = sum(val[i] * (1 + k) for k, i in enumerate(cand)) - sum(val[i] * k for k, i in enumerate(cand))
        ctx.check(abs(float(p.loss) - want) < 1e-5, "overridden-score-not-used", got=p.loss, want=want)
    elif cls.__name__ == "GlassWall":  # obstructs nothing
        ctx.check(not bool(p.intersects_with_objects(objs, ic, approx=False)), "overridden-obstruction-not-used", got=True)
        ctx.check(float(p.intersects_with_objects(objs, ic, approx=True)) == 0.0, "overridden-obstruction-not-used", got=True)
    elif cls.__name__ == "EndlessWall":  # contains every point of its line
        ctx.check(bool(p.on_objects([objs[i] for i in cand], approx=False)), "overridden-extent-not-used", got=False)
        ctx.check(float(p.on_objects([objs[i] for i in cand], approx=True)) == 1.0, "overridden-extent-not-used", got=False)
    else:  # ShiftedWall: the mirror is the line moved along its normal by v: image_of is that of the moved line
        q = Wall(xys=jnp.array(w[0]))
        n = np.asarray(q.normal(), float)
        img = a - 2 * np.dot(a - w[0, 0], n) * n + 2 * val[0] * n
        got = np.asarray(objs[0].image_of(jnp.array(a)), float)
        ctx.check(np.abs(got - img).max() < 1e-4, "image_of", got=got, want=img)
        i2 = np.asarray(objs[1].image_of(jnp.array(img if not ctx.x64 else img)), float)
        # the last point lies on wall 1's line, on the ray from the overridden image to rx
        d, e = pts[2] - i2, b - i2
        ctx.check(abs(d[0] * e[1] - d[1] * e[0]) <= (2e-3 if not ctx.x64 else 1e-9) * (1 + np.abs(i2).max()) * (1 + np.abs(e).max() + np.abs(d).max()) ** 1, "overridden-image-not-used", points=pts, image=i2)


_C = {}


def CLASSES():
    if _C:
        return _C["all"]
    from typing import Any

    import equinox as eqx
    import jax.numpy as jnp
    from differt2d.geometry import Wall
    from differt2d.logic import false_value, true_value

    class ScoredWall(Wall):
        v: Any = 0.0

        def evaluate_cartesian(self, ray_path):
            return self.v

    class GlassWall(Wall):
        v: Any = 0.0

        def intersects_cartesian(self, ray, patch=0.0, approx=None, **kwargs):
            return false_value(approx=approx)

    class EndlessWall(Wall):
        v: Any = 0.0

        def contains_parametric(self, param_coords, approx=None, **kwargs):
            return true_value(approx=approx)

    class ShiftedWall(Wall):
        v: Any = 0.0

        def image_of(self, point):
            return super().image_of(point) + 2 * self.v * self.normal()

    _C["all"] = [ScoredWall, GlassWall, EndlessWall, ShiftedWall]
    return _C["all"]


BOX = [[-7.0, -8.0], [9.0, 11.0]]


def marked(base, method):
    """A subclass of a built-in object or node overriding a single method."""
    if (base, method) in _C:
        return _C[base, method]
    from typing import Any

    import jax.numpy as jnp
    from differt2d import geometry as g
    from differt2d.logic import false_value, true_value

    body = {"__annotations__": {"m": Any}, "m": 1.0}
    calls = []
    if method == "bounding_box":
        body[method] = lambda self: jnp.array(BOX) * self.m
    elif method == "plot":
        def plot(self, ax, *args, **kwargs):
            calls.append((self, ax, args, kwargs))
            return [ax.plot([0, 1], [0, 1])[0], ax.plot([0, 1], [1, 0])[0]]

        body[method] = plot
    elif method == "intersects_cartesian":
        def intersects_cartesian(self, ray_path, patch=0.0, approx=None, **kwargs):
            t, f = true_value(approx=approx), false_value(approx=approx)
            return jnp.where(self.m > 0, t, f)

        body[method] = intersects_cartesian
    elif method == "contains_parametric":
        def contains_parametric(self, param_coords, approx=None, **kwargs):
            t, f = true_value(approx=approx), false_value(approx=approx)
            return jnp.where(self.m > 0, t, f)

        body[method] = contains_parametric
    elif method == "evaluate_cartesian":
        body[method] = lambda self, ray_path: self.m * ray_path[1, 0] + 10.0
    elif method == "parametric_to_cartesian":
        body[method] = lambda self, param_coords: jnp.array([3.0, 4.0]) * self.m + jnp.sum(param_coords)
    elif method == "cartesian_to_parametric":
        body[method] = lambda self, carthesian_coords: jnp.full(type(self).parameters_count(), 0.5) + self.m
    cls = type(f"{base}_{method}", (getattr(g, base),), body)
    _C[base, method] = cls, calls
    return _C[base, method]


def built(ctx, base, cls, m):
    import jax.numpy as jnp

    xs = gen.q(ctx.rng.random((2, 2)))
    return cls(xys=jnp.array(xs), m=jnp.array(m)) if base in ("Wall", "RIS") else cls(xy=jnp.array(xs[0]), m=jnp.array(m))


def one_method(ctx, index):
    """Scenes whose members are built-in ones with one method overridden."""
    import jax.numpy as jnp
    import matplotlib.pyplot as plt
    from differt2d.geometry import FermatPath, ImagePath, MinPath, Path, Point, Vertex, Wall
    from differt2d.scene import Scene

    rng = ctx.rng
    base = ["Wall", "RIS", "Vertex", "Wall"][index % 4]
    others = [] if (index // 4) % 2 else [Wall(xys=jnp.array([[90.0, 90.0], [91.0, 90.0]])), Vertex(xy=jnp.array([92.0, 90.0]))]
    approx = bool((index // 64) % 2)
    T, R = {"a": Point(xy=jnp.array([0.25, 0.5]))}, {"b": Point(xy=jnp.array([0.75, 0.25]))}
    make = lambda objs, t=T, r=R: Scene(transmitters=t, receivers=r, objects=objs)  # noqa: E731
    ctx.case_info = dict(base=base, mixed=bool(others), approx=approx)
    ctx.sig("one method", base, bool(others), approx)
    # boxes: objects, transmitters, receivers
    near = [Wall(xys=jnp.array([[0.0, 0.0], [1.0, 1.0]]))] if others else []
    cls, _ = marked(base, "bounding_box")
    node, _ = marked("Point", "bounding_box")
    n = node(xy=jnp.zeros(2), m=jnp.array(1.0))
    for of, sc in (("object", make([*near, built(ctx, base, cls, 1.0)])), ("objects", make([built(ctx, base, cls, 0.5), built(ctx, base, cls, 1.0)])),
                   ("transmitter", make(near, {**T, "z": n})), ("receiver", make(near, T, {**R, "z": n}))):
        ctx.ev("object_methods")
        box = np.asarray(sc.bounding_box(), float)
        ok = np.abs(box - BOX).max() < 1e-5 and np.abs(np.asarray(sc.get_location("SW"), float) - BOX[0]).max() < 1e-5
        ok &= np.abs(np.asarray(sc.center(), float) - [1.0, 1.5]).max() < 1e-5 and abs(float(sc.grid(3)[0][0, 2]) - 9) < 1e-5
        ctx.check(ok, "own-bounding_box-not-used", of=of, got=box, want=BOX)
    # plots
    fig, ax = plt.subplots()
    try:
        for of, b in (("object", base), ("transmitter", "Point"), ("receiver", "Point")):
            cls, calls = marked(b, "plot")
            calls.clear()
            x = built(ctx, b, cls, 1.0)
            sc = make([*others, x]) if of == "object" else make(others, {"a": x}) if of == "transmitter" else make(others, T, {"b": x})
            arts = sc.plot(ax, annotate=False, **{f"{of}s_args": ("p",), f"{of}s_kwargs": {"zz": 3}}) if not others or of != "object" else sc.plot(ax, annotate=False)
            ctx.ev("object_methods")
            ctx.check(len(calls) == 1 and calls[0][0] is x and calls[0][1] is ax, "own-plot-not-used", of=of, got=len(calls))
            if calls and (not others or of != "object"):
                ctx.check(calls[0][2] == ("p",) and calls[0][3].get("zz") == 3, "arguments-of-own-plot", of=of, got=str(calls[0][2:]))
            ctx.check(len(arts) == len(others) + 2 + (2 if of == "object" else 1), "artists-of-own-plot", of=of, got=len(arts))
    finally:
        plt.close(fig)
    # obstruction: a member far away that blocks, a member in the way that does not
    cls, _ = marked(base, "intersects_cartesian")
    for m in (1.0, 0.0):
        x = cls(xys=jnp.array([[0.25, 0.0], [0.75, 1.0]]) + 40 * m, m=jnp.array(m)) if base != "Vertex" else cls(xy=jnp.array([0.5, 0.375]), m=jnp.array(m))
        v = [v for _, _, v, _, c in make([*others, x]).all_paths(order=0, approx=approx)]
        ctx.ev("object_methods")
        ctx.check(len(v) == 1 and float(v[0]) <= 1 and (float(v[0]) > 0.5) == (m == 0), "own-intersects_cartesian-not-used", got=v, blocks=bool(m))
    i = len(others)
    only = lambda sc, pc, **kw: [(v, p) for _, _, v, p, c in sc.all_paths(path_cls=pc, order=1, approx=approx, key=ctx.key(), tol=jnp.array(1e3), **kw) if [int(j) for j in c] == [i]][0]  # noqa: E731
    # extent
    for method, vals in (("contains_parametric", (1.0, 0.0)), ("cartesian_to_parametric", (0.0, 7.0))):
        if method == "cartesian_to_parametric" and base == "Vertex":
            continue  # it has no parameter
        cls, _ = marked(base, method)
        for m, inside in zip(vals, (True, False)):
            x = built(ctx, base, cls, m)
            p = Path(xys=jnp.array([[0.0, 5.0], [30.0, 40.0], [1.0, 5.0]]))
            ctx.ev("object_methods")
            on = p.on_objects([x], approx=approx)
            ctx.check((float(on) > 0.5) == inside, f"own-{method}-not-used", got=on, inside=inside)
            va = p.is_valid([*others, x], jnp.array([i]), [x], approx=approx)
            ctx.check((float(va) > 0.5) == inside, f"own-{method}-not-used", of="is_valid", got=va, inside=inside)
    # score
    cls, _ = marked(base, "evaluate_cartesian")
    x = built(ctx, base, cls, float(gen.q(rng.random())))
    for pc in (FermatPath, MinPath, *([ImagePath] if base != "Vertex" and not others else [])):
        p = only(make([*others, x]), pc, **({} if pc is ImagePath else {"path_cls_kwargs": {"steps": 3}}))[1]
        w = float(x.m) * float(p.xys[1, 0]) + 10.0
        ctx.ev("object_methods")
        ctx.check(not np.isfinite(w) or abs(float(p.loss) - w) <= 1e-4 * (1 + abs(w)), "own-evaluate_cartesian-not-used", of=pc.__name__, got=p.loss, want=w)
    # position
    cls, _ = marked(base, "parametric_to_cartesian")
    x = built(ctx, base, cls, float(gen.q(rng.random())))
    k = 0.5 if base != "Vertex" else 0.0
    want = np.array([3.0, 4.0]) * float(x.m) + k
    p = only(make([*others, x]), Path)[1]
    ctx.ev("object_methods")
    ctx.check(np.abs(np.asarray(p.xys[1], float) - want).max() < 1e-4, "own-parametric_to_cartesian-not-used", of="Path", got=p.xys, want=want)
    for pc in (FermatPath, MinPath):
        u = np.asarray(only(make([*others, x]), pc, path_cls_kwargs={"steps": 0})[1].xys[1], float) - [3 * float(x.m), 4 * float(x.m)]
        ctx.ev("object_methods")
        ctx.check(abs(u[0] - u[1]) < 1e-4 and -1e-4 <= u[0] <= (1 if k else 0) + 1e-4, "own-parametric_to_cartesian-not-used", of=pc.__name__, got=u)
    if base != "Vertex":
        u = np.asarray(x.sample(ctx.key()), float) - [3 * float(x.m), 4 * float(x.m)]
        ctx.check(abs(u[0] - u[1]) < 1e-4 and -1e-4 <= u[0] <= 1 + 1e-4, "own-parametric_to_cartesian-not-used", of="sample", got=u)
    # nodes replaced by nodes of another class, in any way
    from lib.probe import RadioNode

    r = RadioNode(xy=jnp.array([0.5, 0.25]), gain=jnp.array(3.0), band="k")
    sc = make([])
    for of, t in (("update_transmitters", sc.update_transmitters(a=r).transmitters["a"]), ("update_receivers", sc.update_receivers(b=r).receivers["b"]), ("with_transmitters", sc.with_transmitters(a=r).transmitters["a"]),
                  ("with_receivers", sc.with_receivers(b=r).receivers["b"]), ("rename_transmitters", make([], {"a": r}).rename_transmitters(a="q").transmitters["q"]),
                  ("update_receivers back", type(sc)(receivers={"b": r}).update_receivers(b=Point(xy=r.xy)).receivers["b"])):
        ctx.ev("replaced_nodes")
        if of.endswith("back"):
            ctx.check(type(t) is Point, "node-of-a-user-class-changed", of=of, got=t)
        else:
            ctx.check(type(t) is RadioNode and float(t.gain) == 3 and t.band == "k" and np.array_equal(np.asarray(t.xy), np.asarray(r.xy)), "node-of-a-user-class-changed", of=of, got=t)


def path_classes():
    if "paths" in _C:
        return _C["paths"]
    import jax.numpy as jnp
    from differt2d import geometry as g
    from differt2d.logic import false_value, true_value

    out = {}
    for base in ("Path", "ImagePath", "FermatPath", "MinPath"):
        B = getattr(g, base)
        seen = []

        def is_valid(self, objects, path_candidate, interacting_objects, approx=None, **kwargs):
            return jnp.where(jnp.asarray(len(interacting_objects) == 1), true_value(approx=approx), false_value(approx=approx))

        def on_objects(self, objects, approx=None, **kwargs):
            return jnp.where(jnp.asarray(len(objects) == 1), true_value(approx=approx), false_value(approx=approx))

        def intersects_with_objects(self, objects, path_candidate, patch=0.0, approx=None, **kwargs):
            return jnp.where(jnp.asarray(len(path_candidate) != 1), true_value(approx=approx), false_value(approx=approx))

        def length(self):
            return jnp.array(3.0)

        def from_static(tx, objects, rx, *, key=None, flag=0, seen=seen, **kwargs):
            seen.append(flag)
            a, b = (x.xy if isinstance(x, g.Point) else x for x in (tx, rx))
            return g.Path(xys=jnp.vstack([a, *[jnp.full(2, 60.0 + flag) for _ in objects], b]))

        for nm, f in (("is_valid", is_valid), ("on_objects", on_objects), ("intersects_with_objects", intersects_with_objects), ("length", length), ("static", None)):
            body = {nm: f} if f is not None else {"from_tx_objects_rx": staticmethod(from_static)}
            out[base, nm] = type(f"{base}_{nm}", (B,), body), seen
    _C["paths"] = out
    return out


def one_path_method(ctx, index):
    """Path classes that override one method of a built-in one, through every method of the scene."""
    import jax.numpy as jnp
    from differt2d.scene import Scene
    from differt2d.geometry import Point, Wall
    from differt2d.utils import received_power

    rng = ctx.rng
    base = ["Path", "ImagePath", "FermatPath", "MinPath"][index % 4]
    approx = bool((index // 64) % 2)
    q = gen.q(rng.random((4, 2)))
    # two walls far from the nodes and each other: line of sight is valid, and every other obstruction is absent
    sc = Scene(transmitters={"a": Point(xy=jnp.array(q[0]))}, receivers={"b": Point(xy=jnp.array(q[1] + 2))},
               objects=[Wall(xys=jnp.array([[-20.0, 30.0], [20.0, 31.0]])), Wall(xys=jnp.array([[-20.0, -30.0], [20.0, -31.0]]))])
    kw = dict(max_order=1, approx=approx, tol=jnp.array(1e6), key=ctx.key())
    opt = {"path_cls_kwargs": {"steps": 2}} if base in ("FermatPath", "MinPath") else {}
    one = lambda t, r, p, o: jnp.array(10.0 if o else 1.0)  # noqa: E731
    X, Y = jnp.array([[0.25, 0.5]]), jnp.array([[0.75, 0.125]])
    for nm in ("is_valid", "on_objects", "intersects_with_objects"):
        cls, _ = path_classes()[base, nm]
        ctx.case_info = dict(base=base, overrides=nm, approx=approx)
        got = [(len(c), float(v)) for _, _, v, _, c in sc.all_paths(path_cls=cls, **opt, **kw)]
        ctx.ev("path_methods")
        ctx.sig("path method", base, nm, approx, q.tobytes())
        # without interaction: not valid by the override
        ctx.check([v for n, v in got if n == 0] == [0.0], "own-method-of-the-path-class-not-used", method=nm, of=base, got=got)
        if nm == "is_valid":
            ctx.check([v for n, v in got if n == 1] == [1.0, 1.0], "own-method-of-the-path-class-not-used", method=nm, of=base, got=got)
        s = sum(v * (10.0 if n else 1.0) for n, v in got)
        z = sc.accumulate_over_paths(one, reduce_all=True, path_cls=cls, **opt, **kw)
        ctx.check(abs(float(z) - s) < 1e-3, "own-method-of-the-path-class-not-used", method=nm, of=f"{base} sums", got=z, want=s)
        if not approx:
            k = [len(c) for _, _, _, c in sc.all_valid_paths(path_cls=cls, **opt, **kw)]
            ctx.check(k == [n for n, v in got if v], "own-method-of-the-path-class-not-used", method=nm, of=f"{base} valid paths", got=k, want=got)
        if nm == "is_valid":
            for f in (sc.accumulate_on_receivers_grid_over_paths, sc.accumulate_on_transmitters_grid_over_paths):
                Z = np.asarray(f(X, Y, one, reduce_all=True, path_cls=cls, **opt, **kw), float)
                ctx.check(np.abs(Z - 20.0).max() < 1e-3, "own-method-of-the-path-class-not-used", method=nm, of=f"{base} {f.__name__}", got=Z, want=20.0)
    cls, _ = path_classes()[base, "length"]
    for t, r, v in sc.accumulate_over_paths(received_power, path_cls=cls, order=0, fun_kwargs={"height": 1.0}, approx=approx, tol=jnp.array(1e6), key=ctx.key()):
        ctx.ev("path_methods")
        ctx.check(abs(float(v) - 0.1) < 1e-5, "own-method-of-the-path-class-not-used", method="length", of=base, got=v, want=0.1)
    cls, seen = path_classes()[base, "static"]
    seen.clear()
    flag = int(rng.integers(1, 9))
    got = list(sc.all_paths(path_cls=cls, path_cls_kwargs={"flag": flag}, **kw))
    ctx.ev("path_methods")
    ctx.check(seen == [flag] * 3, "path-class-keyword-arguments", of=base, got=seen, want=flag)
    ctx.check(all(np.abs(np.asarray(p.xys[1:-1], float) - 60 - flag).max(initial=0.0) < 1e-4 for _, _, _, p, _ in got), "own-method-of-the-path-class-not-used", method="from_tx_objects_rx", of=base, got=got)
