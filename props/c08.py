"""Non-finite sanitizer on values and gradients, at degenerate placements."""

import numpy as np

from lib import gen

ID = "C08"
N = {"quick": {"f32": 16, "x64": 16}, "thorough": {"f32": 400, "x64": 400}}
SHARDS = {"f32": 4, "x64": 4}
MIN = {"quick": {"values_scanned": 9000, "gradients_scanned": 16000, "path_coordinates_scanned": 8000, "degenerate_walls": 30,
                 "node_on_wall": 100, "node_on_wall_end": 100, "coinciding_nodes": 40, "image_coincidence": 40, "collinear_node": 100,
                 "wall_gradients": 400, "optimizer_values": 300, "optimizer_gradients": 20}}
RULE = """Lattice and random scenes with zero-length, collinear, parallel, touching and duplicated walls; nodes on walls, wall
ends, wall extensions, on each other, on the mirror image of each other and on lattice points; every value and gradient
element returned by grid maps, paths, lengths and validities is scanned; distinct = distinct (scene, node) placements."""
ASSUMES = ["inputs are finite and of moderate magnitude (|x| <= 1e4); wall lengths are zero or at least about 1e-6 (1e-8 in float64), "
           "so that gradients, which grow like inverse powers of them, do not exceed the floating-point range"]


def finite(ctx, what, arr, n="values_scanned", **d):
    a = np.asarray(arr, float)
    ctx.ev(n, a.size)
    ok = np.isfinite(a)
    if ok.all():
        ctx.ev("oracle_checks")
        return True
    bad = np.argwhere(~ok)
    ctx.check(False, "non-finite:" + what, first=bad[0], n_bad=len(bad), of=a.size, **d)
    return False


def run_case(ctx, index):
    import jax
    import jax.numpy as jnp
    from differt2d.geometry import RIS, FermatPath, ImagePath, MinPath, Path, Point, Vertex, Wall
    from differt2d.logic import hard_sigmoid, sigmoid
    from differt2d.scene import Scene
    from differt2d.utils import received_power

    rng = ctx.rng
    n, hi = [(2, 1), (1, 1), (3, 1), (2, 2)][(index // 4) % 4]
    approx = bool((index // 2) % 2)
    on_rx = bool((index + index // 4) % 2)
    opt = index % 4 == 3  # optimizer-based classes
    kind = "wall"
    cls = ImagePath
    if opt:
        cls = [MinPath, FermatPath][(index // 4) % 2]
        kind = ["wall", "ris", "vertex"][(index // 8) % 3] if cls is MinPath else ["wall", "vertex"][(index // 8) % 2]
        hi = 1
    fn = [sigmoid, hard_sigmoid][(index // 8) % 2]
    kw = dict(max_order=hi, approx=approx, path_cls=cls)
    if approx:
        kw["function"] = fn
    if opt:
        kw.update(key=ctx.key(), path_cls_kwargs=dict(steps=30, many=2))
    m, k = 4, 6

    def scene_of(p):
        objs = [Wall(xys=p["walls"][i]) for i in range(n)]
        if kind == "ris":
            objs[-1] = RIS(xys=p["walls"][n - 1])
        elif kind == "vertex":
            objs.append(Vertex(xy=p["walls"][0, 0]))
        me = dict(transmitters={"tx": Point(xy=p["node"])}) if on_rx else dict(receivers={"rx": Point(xy=p["node"])})
        return Scene(objects=objs, **me)

    gname = "accumulate_on_receivers_grid_over_paths" if on_rx else "accumulate_on_transmitters_grid_over_paths"

    def grid(p, X, Y):
        return getattr(scene_of(p), gname)(X, Y, received_power, reduce_all=True, value_and_grad=True, **kw)

    def single(p):
        """All paths of one pair: everything a user may look at."""
        sc = scene_of(p)
        other = {"o": Point(xy=p["other"])}
        sc = sc.with_receivers(**other) if on_rx else sc.with_transmitters(**other)
        out = []
        for _, _, valid, path, _ in sc.all_paths(**kw):
            out.append((jnp.asarray(valid, dtype=float), path.xys, path.loss, path.length()))
        return out

    def total(p):
        return sum(v * l + 0.1 * l + 0.01 * jnp.sum(x) for v, x, _, l in single(p))

    plain_cls = [Path, ImagePath][rng.integers(2)]

    def lengths(p):
        path = plain_cls.from_tx_objects_rx(p["node"], [Wall(xys=p["walls"][i]) for i in range(n)][:2], p["other"])
        return path.length()

    gl = jax.jit(jax.value_and_grad(lengths))
    jgrid = grid if approx or kind != "wall" else jax.jit(grid)
    gt = jax.value_and_grad(total)
    gt = gt if approx else jax.jit(gt)
    jsingle = jax.jit(single) if kind == "wall" else single  # (scenes of mixed types cannot be traced)
    draws = (7 if not opt else 4) * (4 if ctx.thorough else 1)
    for draw in range(draws):
        W, node, P, general = placement(ctx, rng, n, m * k, force_general=opt and draw % 2 == 1)
        p = dict(walls=jnp.array(W), node=jnp.array(node))
        P = P.reshape(m, k, 2)
        ctx.case_info = dict(W=W, node=node, P=P, kw={a: b for a, b in kw.items() if a != "key"}, on_rx=on_rx, kind=kind, general=general)
        v, g = jgrid(p, jnp.array(P[..., 0]), jnp.array(P[..., 1]))
        finite(ctx, f"map-value:{cls.__name__}", v)
        ctx.ev("optimizer_values", np.size(v) if opt else 0)
        grads_on = not opt or (general and ctx.x64)
        if grads_on:
            finite(ctx, f"map-gradient:{cls.__name__}", g, "gradients_scanned")
            ctx.ev("optimizer_gradients", np.size(g) if opt else 0)
        for j in rng.choice(m * k, 4 if not opt else 1, replace=False):
            q = dict(p, other=jnp.array(P.reshape(-1, 2)[j]))
            ctx.case_info["other"] = P.reshape(-1, 2)[j]
            ctx.sig(W.tobytes(), node.tobytes(), P.reshape(-1, 2)[j].tobytes())
            for v, x, l, ln in jsingle(q):
                finite(ctx, "path-coordinates", x, "path_coordinates_scanned")
                finite(ctx, "path-loss", l)
                finite(ctx, "path-length", ln)
                finite(ctx, "validity", v)
            if grads_on and not opt:
                v, gr = gt(q)
                finite(ctx, "total-value", v)
                for nm, a in gr.items():
                    finite(ctx, "gradient-wrt-" + nm, a, "gradients_scanned")
                    ctx.ev("wall_gradients", np.size(a) if nm == "walls" else 0)
                v, gr = gl(q)
                finite(ctx, "length-value", v)
                for nm, a in gr.items():
                    finite(ctx, "length-gradient-wrt-" + nm, a, "gradients_scanned")
        if draw == 1:
            ctx.sample(dict(W=W, node=node, others=P.reshape(-1, 2)[:4], approx=approx, cls=cls.__name__))


def placement(ctx, rng, n, count, force_general=False):
    general = force_general
    if general:
        W = rng.random((n, 2, 2))
        if rng.random() < 0.4:
            W[0, 1] = W[0, 0]
        node = rng.random(2)
        P = rng.random((count, 2))
        return gen.q(W), gen.q(node), gen.q(P), True
    W = rng.integers(0, 5, (n, 2, 2)) / 4.0 if rng.random() < 0.65 else rng.random((n, 2, 2))
    r = rng.random()
    if n > 1 and r < 0.15:
        W[1] = W[0]
    elif n > 1 and r < 0.3:
        W[1] = W[0] + W[0][1] - W[0][0]
    elif n > 1 and r < 0.4:
        W[1] = W[0] + rng.integers(-2, 3, 2) / 4.0
    elif n > 1 and r < 0.5:
        W[1, 0] = W[0, 1]
    elif r < 0.6:
        W[0, 1] = W[0, 0]
    elif r < 0.65:
        W[0, 1] = W[0, 0] + (1e-6 if ctx.x64 else 1e-4) * rng.normal(size=2)
    node = rng.integers(0, 5, 2) / 4.0 if rng.random() < 0.65 else rng.random(2)
    r = rng.random()
    if r < 0.15:
        node = W[0, 0].copy()
    elif r < 0.3:
        node = W[0, 0] + rng.uniform(-0.5, 1.5) * (W[0, 1] - W[0, 0])
    ctx.ev("degenerate_walls", int((W[:, 0] == W[:, 1]).all(-1).sum()))
    pts = [node.copy(), node.copy()]
    ctx.ev("coinciding_nodes", 2)
    for w in W:
        t = w[1] - w[0]
        pts += [w[0], w[1], w[0] + 0.5 * t, w[0] + rng.random() * t, w[0] + 2 * t, w[0] - 0.25 * t]
        ctx.ev("node_on_wall_end", 2)
        ctx.ev("node_on_wall", 2)
        ctx.ev("collinear_node", 2)
    t = W[0][1] - W[0][0]
    L = t @ t
    if L > 0:
        nn = np.array([t[1], -t[0]])
        im = node - 2 * ((node - W[0][0]) @ nn) / L * nn
        pts += [im, im + 0.3 * t, node + 0.3 * t]
        ctx.ev("image_coincidence")
    for _ in range(4):
        pts.append(rng.integers(0, 5, 2) / 4.0)
    pts.append(np.array([1e4, -1e4]))
    pts.append(np.array([0.0, 0.0]))
    pts = pts[-count:] if len(pts) > count else pts
    while len(pts) < count:
        pts.append(rng.random(2))
    P = np.array(pts)
    if rng.random() < 0.25:
        s = float(rng.choice([1e-2, 50.0, 1000.0]))
        W, node, P = W * s, node * s, np.clip(P * s, -1e4, 1e4)
    return gen.q(W), gen.q(node), gen.q(P), False
