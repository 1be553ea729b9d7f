"""Grid maps versus point-by-point evaluation."""

import numpy as np

from lib import gen

ID = "C06"
N = {"quick": {"f32": 20, "x64": 32}, "thorough": {"f32": 1200, "x64": 2000}}
SHARDS = {"f32": 3, "x64": 5}
MIN = {"quick": {"cells_compared": 300, "cells_nonzero": 150, "gradient_cells": 150, "rx_grids": 40, "tx_grids": 40,
                 "value_and_grad": 25, "reduce_all": 20, "multi_node": 12, "keyed_1x1": 2, "eager_grids": 4, "unused_keys": 8, "path_cls_kwargs": 4,
                 "lattice_grids": 250, "lattice_zeros": 150}}
RULE = """Random scenes, irregular and non-square grids (also 1xN and Nx1, non-monotonic), several nodes with names that
clash with the names used internally, fun depending asymmetrically on transmitter, receiver, path, objects and arguments,
exact and approximate mode with random alpha/function; per static configuration several data draws go through one
compilation; distinct = grid cells with a non-zero value."""
ASSUMES = ["cells whose point-by-point value changes under position perturbations of rounding size are widened accordingly"]


def lattice(ctx, index):
    """Closed form: without objects every cell is the value of fun, also where it (or its derivative) is exactly zero or negative."""
    import jax.numpy as jnp
    from differt2d.geometry import Point
    from differt2d.scene import Scene

    rng = ctx.rng
    on_rx = bool((index // 2) % 2)
    m, k = [(2, 2), (3, 3), (2, 3), (1, 1), (4, 4), (3, 1)][(index // 4) % 6]
    keep = rng.integers(-4, 5, size=(int(rng.integers(1, 4)), 2)) / 4
    kn = gen.names(rng, len(keep))
    X, Y = rng.integers(-3, 4, size=(m, k)) / 4, rng.integers(-3, 4, size=(m, k)) / 4
    a, b, c = rng.choice(X.ravel()), rng.integers(0, 3), rng.choice(Y.ravel())
    nodes = {nm: Point(xy=jnp.array(q)) for nm, q in zip(kn, keep)}
    sc = Scene().with_transmitters(**nodes) if on_rx else Scene().with_receivers(**nodes)

    def fun(t, r, path, inter):
        p, q = (r.xy, t.xy) if on_rx else (t.xy, r.xy)
        return (p[0] - a) * (q[1] + 1.0) + b * (p[1] - c) ** 3

    v = [(X - a) * (q[1] + 1) + b * (Y - c) ** 3 for q in keep]
    g = [np.stack([np.full_like(X, q[1] + 1), 3 * b * (Y - c) ** 2], -1) for q in keep]
    f = getattr(sc, "accumulate_on_" + ("receivers" if on_rx else "transmitters") + "_grid_over_paths")
    ctx.case_info = dict(on_rx=on_rx, nodes=keep, names=kn, X=X, Y=Y, abc=(a, b, c))
    close = lambda got, want: np.shape(got) == np.shape(want) and np.abs(np.asarray(got, float) - want).max() <= 256 * ctx.eps
    for kw in ({}, {"grad": True}, {"value_and_grad": True}, {"grad": True, "value_and_grad": True}):
        want = (lambda i: (v[i], g[i])) if "value_and_grad" in kw else (lambda i: (g[i],)) if kw else (lambda i: (v[i],))
        for red in (False, True):
            res = f(jnp.array(X), jnp.array(Y), fun, order=0, approx=False, reduce_all=red, **kw)
            ctx.ev("lattice_grids")
            ctx.ev("lattice_zeros", sum((x == 0).sum() for x in v))
            if red:
                w = [tuple(sum(x) for x in zip(*[want(i) for i in range(len(keep))]))]
                got = [res]
            else:
                res = list(res)
                ctx.check([nm for nm, _ in res] == kn, "grid-entries-not-one-per-node", got=[nm for nm, _ in res], want=kn)
                got, w = [x for _, x in res], [want(i) for i in range(len(keep))]
            for x, y in zip(got, w):
                x = x if isinstance(x, tuple) else (x,)
                ctx.check(len(x) == len(y) and all(close(*z) for z in zip(x, y)), "grid-differs-from-closed-form", flags=kw, reduce_all=red, got=x, want=y)
    ctx.sig("lattice", X.tobytes(), Y.tobytes(), kn)


def run_case(ctx, index):
    lattice(ctx, index)
    import jax
    import jax.numpy as jnp
    from differt2d.geometry import FermatPath, ImagePath, MinPath, Path, Point
    from differt2d.logic import hard_sigmoid, sigmoid
    from differt2d.utils import received_power

    rng = ctx.rng

    class NodeA(Point):
        pass

    class Bent(ImagePath):
        @classmethod
        def from_tx_objects_rx(cls, tx, objects, rx, *, key=None, bend=0.0):
            p = ImagePath.from_tx_objects_rx(tx, objects, rx)
            return cls(xys=p.xys.at[1:-1].add(bend), loss=p.loss + bend)

    on_rx = bool(index % 2)
    n, hi = [(3, 1), (2, 2), (4, 1), (1, 1), (0, 0), (3, 1), (5, 1), (2, 2)][(index // 2) % 8]
    lo = 0 if rng.random() < 0.7 else int(rng.integers(0, hi + 1))
    nkeep = int(rng.integers(1, 4))
    nother = int(rng.integers(0, 3))
    kn = gen.names(rng, nkeep)
    on = gen.names(rng, nother)
    if rng.random() < 0.3:
        kn[0] = ["tx", "rx"][rng.integers(2)] if "tx" not in kn and "rx" not in kn else kn[0]
    if nkeep > 1:
        ctx.ev("multi_node")
    m, k = [(3, 2), (1, 4), (5, 1), (2, 3), (1, 1), (4, 3), (2, 2), (3, 1)][(index // 2) % 8]

    kw = dict(min_order=lo, max_order=hi)
    if rng.random() < 0.2:
        kw = dict(order=hi)
    approx = bool(rng.random() < 0.5)
    kw["approx"] = approx
    if approx and rng.random() < 0.5:
        kw["alpha"] = jnp.array(float(rng.choice([10.0, 50.0])))
    if approx and rng.random() < 0.5:
        kw["function"] = [sigmoid, hard_sigmoid][rng.integers(2)]
    if rng.random() < 0.2:
        kw["patch"] = jnp.array(0.1)
    if rng.random() < 0.2:
        kw["tol"] = jnp.array(0.5)
    eager = bool(rng.random() < 0.2)
    if n and rng.random() < 0.1:
        eager = True
        kw["filter_objects"] = lambda o: bool(o.xys[0, 0] <= x0)
    if rng.random() < 0.15:
        kw["path_cls"] = Path
    elif rng.random() < 0.25:
        kw.update(path_cls=Bent, path_cls_kwargs={"bend": float(gen.q(rng.uniform(-0.05, 0.05)))})
        ctx.ev("path_cls_kwargs")
    seen_types, seen_args = [], []

    def fun(t, r, path, inter, *args, **kwargs):
        seen_types.append((type(t), type(r), type(path), len(inter)))
        seen_args.append((args, kwargs))
        c = args[0] if args else 0.7
        e = kwargs.get("e", 0.3)
        v = received_power(t, r, path, inter)
        s = sum((jnp.sum(o.xys[0]) for o in inter), jnp.array(0.0))
        return v * (1.0 + 0.1 * (t.xy[0] + 2.0 * r.xy[1])) + c + e * jnp.sum(r.xy - 3 * t.xy) + 0.2 * s

    fargs = (float(rng.random()),) if rng.random() < 0.5 else ()
    fkw = {"e": float(rng.random())} if rng.random() < 0.5 else None
    use = received_power if rng.random() < 0.25 else fun
    akw = dict(kw)
    if fargs and use is fun:
        akw["fun_args"] = fargs
    if fkw and use is fun:
        akw["fun_kwargs"] = fkw
    node_cls = NodeA if rng.random() < 0.5 else None
    gkw = dict(akw)
    if node_cls:
        gkw["receiver_cls" if on_rx else "transmitter_cls"] = node_cls
    if rng.random() < 0.35:  # of no use to these path classes, so it changes nothing
        gkw["key"] = ctx.key()
        ctx.ev("unused_keys")
    variant = ["value", "grad", "vg", "vg_grad"][(index // 2 + index // 16) % 4]
    reduce_all = bool(rng.random() < 0.4)
    if variant == "grad":
        gkw["grad"] = True
    elif variant == "vg":
        gkw["value_and_grad"] = True
    elif variant == "vg_grad":
        gkw.update(value_and_grad=True, grad=True)
    gname = "accumulate_on_receivers_grid_over_paths" if on_rx else "accumulate_on_transmitters_grid_over_paths"
    got_names = []

    def grid(sc, a, b):
        res = getattr(sc, gname)(a, b, use, reduce_all=reduce_all, **gkw)
        if reduce_all:
            got_names[:] = [None]
            return [res]
        res = list(res)
        got_names[:] = [nm for nm, _ in res]
        return [x for _, x in res]

    def at(sc, keep_pts, p):
        """Point-by-point values, one per kept node."""
        nodes = {nm: Point(xy=x) for nm, x in zip(kn, keep_pts)}
        me = {"here": Point(xy=p)}
        s = sc.with_transmitters(**(nodes if on_rx else me)).with_receivers(**(me if on_rx else nodes))
        out = {}
        for t, r, v in s.accumulate_over_paths(use, **akw):
            out[t if on_rx else r] = v
        assert list(out) == kn
        return jnp.stack([jnp.asarray(out[nm], dtype=float) for nm in kn])

    atj = jax.jacrev(at, argnums=2)
    jgrid = grid
    if not eager:
        at = jax.jit(at)
        if not approx or variant == "value":  # (XLA takes minutes to compile some of these gradients as one program)
            atj, jgrid = jax.jit(atj), jax.jit(grid)
    vg = variant in ("vg", "vg_grad")

    for draw in range(1 if eager else 3 if not ctx.thorough else 6):
        walls, keep, other = gen.scene_arrays(rng, n, nkeep, nother)
        scene = gen.make_scene(walls, keep if on_rx else other, other if on_rx else keep, kn if on_rx else on, on if on_rx else kn)
        pts = walls.reshape(-1, 2) if n else np.array([[0, 0], [1, 1.0]])
        x0 = float(np.median(walls[:, 0, 0])) if n else 0.0
        lo_, sp = pts.min(0), np.maximum(np.ptp(pts, axis=0), 1e-3 * (1 + np.abs(pts).max()))
        if rng.random() < 0.5:  # regular mesh
            X, Y = np.meshgrid(lo_[0] + sp[0] * np.sort(rng.random(k)), lo_[1] + sp[1] * np.sort(rng.random(m)))
        else:
            X, Y = lo_[0] + sp[0] * rng.random((m, k)), lo_[1] + sp[1] * rng.random((m, k))
        X, Y = gen.q(X), gen.q(Y)
        scale = float(max(np.abs(pts).max(), np.abs(X).max(), np.abs(Y).max()))
        ctx.case_info = dict(walls=walls, nodes=keep, names=kn, others=on, X=X, Y=Y, on_rx=on_rx, variant=variant,
                             reduce_all=reduce_all, kw=dict(kw), fun=use.__name__, fargs=fargs, fkw=fkw, eager=eager)
        out = jgrid(scene, jnp.array(X), jnp.array(Y))
        ctx.ev("rx_grids" if on_rx else "tx_grids")
        ctx.ev("eager_grids" if eager else "compiled_grids")
        if reduce_all:
            ctx.ev("reduce_all")
        elif not ctx.check(got_names == kn, "grid-entries-not-one-per-node", got=got_names, want=kn):
            continue
        if vg:
            ctx.ev("value_and_grad")
        if use is fun and draw == 0 and seen_types:
            want_r = (node_cls or Point) if on_rx else Point
            want_t = Point if on_rx else (node_cls or Point)
            ctx.check(all(t is want_t and r is want_r for t, r, _, _ in seen_types), "fun-called-with-wrong-node-class",
                      got=sorted({(t.__name__, r.__name__) for t, r, _, _ in seen_types}), want=(want_t.__name__, want_r.__name__))
            ctx.check(all(a == fargs and b == (fkw or {}) for a, b in seen_args), "fun-arguments-not-forwarded")
            pc = kw.get("path_cls", ImagePath)
            ctx.check(all(issubclass(p, pc) for _, _, p, _ in seen_types), "wrong-path-class")
        jkeep = jnp.array(keep)
        cells = [(i, j) for i in range(m) for j in range(k)]
        if len(cells) > 8 and not ctx.thorough:
            cells = [cells[i] for i in sorted(rng.choice(len(cells), 8, replace=False))]
        if eager:
            cells = cells[:4]
        vals, grads = [], []
        ok = True
        for val in out:
            if vg:
                ok &= ctx.check(isinstance(val, tuple) and len(val) == 2, "value_and_grad-not-a-pair")
                if not ok:
                    break
                v, g = np.asarray(val[0], float), np.asarray(val[1], float)
            elif variant == "grad":
                v, g = None, np.asarray(val, float)
            else:
                v, g = np.asarray(val, float), None
            if v is not None:
                ok &= ctx.check(v.shape == (m, k), "grid-shape-wrong", got=v.shape, want=(m, k))
            if g is not None:
                ok &= ctx.check(g.shape == (m, k, 2), "gradient-shape-wrong", got=g.shape, want=(m, k, 2))
            vals.append(v)
            grads.append(g)
        if not ok:
            continue
        h = 4 * ctx.eps * scale
        red = (lambda a: a.sum(0, keepdims=True)) if reduce_all else (lambda a: a)
        for i, j in cells:
            p = np.array([X[i, j], Y[i, j]])

            def ref_v(d=(0.0, 0.0), p=p):
                return red(np.asarray(at(scene, jkeep, jnp.array(p + np.array(d))), float))

            def ref_g(d=(0.0, 0.0), p=p):
                return red(np.asarray(atj(scene, jkeep, jnp.array(p + np.array(d))), float))

            if vals[0] is not None:
                w = ref_v()
                got = np.array([v[i, j] for v in vals])
                ctx.ev("cells_compared", len(got))
                ctx.ev("cells_nonzero", np.count_nonzero(w))
                if np.any(w):
                    ctx.sig(walls.tobytes(), p.tobytes(), kn, approx)
                base = 400 * ctx.eps * (1 + scale) * (1 + np.abs(w).max())
                if not np.abs(got - w).max() <= base:
                    alt = [ref_v(h * np.array(d)) for d in [[1, 1], [-1, 1], [1, -1], [-1, -1], [3, 0], [0, 3], [-3, 0], [0, -3]]]
                    dev = max(np.abs(a - w).max() for a in alt)
                    ctx.ev("cells_widened")
                    ctx.check(np.abs(got - w).max() <= base + 20 * dev, "grid-value-differs-from-pointwise",
                              cell=(i, j), got=got, want=w, dev=dev)
                else:
                    ctx.ev("oracle_checks")
            if grads[0] is not None and ctx.x64:
                wg = ref_g()
                got = np.array([g[i, j] for g in grads])
                ctx.ev("gradient_cells", len(got))
                base = 1e-9 * (1 + scale) * (1 + np.abs(wg).max())
                if not np.abs(got - wg).max() <= base:
                    alt = [ref_g(h * np.array(d)) for d in [[1, 1], [-1, 1], [1, -1], [-1, -1]]]
                    dev = max(np.abs(a - wg).max() for a in alt)
                    ctx.check(np.abs(got - wg).max() <= base + 20 * dev, "grid-gradient-differs-from-pointwise",
                              cell=(i, j), got=got, want=wg, dev=dev)
                else:
                    ctx.ev("oracle_checks")
        if n and draw == 0 and index % 13 == 3:  # optimizer-based classes: a cell must not depend on the rest of the grid
            pc = [FermatPath, MinPath][rng.integers(2)]
            kk = dict(max_order=1, path_cls=pc, path_cls_kwargs=dict(steps=10), key=ctx.key(), approx=True, reduce_all=True)
            f = getattr(scene, gname)
            full = np.asarray(f(jnp.array(X), jnp.array(Y), received_power, **kk), float)
            i, j = cells[rng.integers(len(cells))]
            one = np.asarray(f(jnp.array(X[i:i + 1, j:j + 1]), jnp.array(Y[i:i + 1, j:j + 1]), received_power, **kk), float)
            ctx.ev("keyed_1x1")
            ctx.check(abs(full[i, j] - one[0, 0]) <= 5e-2 * (abs(one[0, 0]) + 1e-3),
                      "keyed-grid-cell-depends-on-the-rest-of-the-grid", full=full[i, j], alone=one[0, 0], cls=pc.__name__)
        if len(cells) > 3 and variant == "vg":
            ctx.sample(dict(on_rx=on_rx, X=X, Y=Y, names=kn))
