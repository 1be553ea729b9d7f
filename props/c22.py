"""Bounding boxes, grids, named points, nearest nodes and path lengths against float64 closed forms."""

import numpy as np

from lib import gen

ID = "C22"
N = {"quick": {"f32": 240, "x64": 240}, "thorough": {"f32": 6000, "x64": 6000}}
SHARDS = {"f32": 4, "x64": 4}
MIN = {"quick": {"boxes": 4000, "grids": 2500, "grid_one": 300, "grid_not_square": 1500, "locations": 15000, "nearest": 2000, "nearest_margin": 1500, "lengths": 1500, "repeated_points": 200,
                 "jit": 300, "scene_boxes": 400, "negative_only": 100}}
RULE = """Random points, vertices, rays, walls, RIS, paths of every class and scenes (mixed objects, no objects, one node) over scales 1e-3 to 1e5 and far offsets; every
location, grid sizes 1 to 9 in both directions; compared with NumPy float64; distinct = (object, coordinates) observations."""
ASSUMES = ["scenes have at least one node or object", "a nearest node is any one within rounding of the smallest distance"]
LOCS = {"N": (0.5, 1), "E": (1, 0.5), "S": (0.5, 0), "W": (0, 0.5), "C": (0.5, 0.5), "NE": (1, 1), "NW": (0, 1), "SE": (1, 0), "SW": (0, 0)}
GRIDS = [(1, None), (1, 1), (1, 4), (5, 1), (2, 3), (7, 2), (3, None), (4, 9)]


def coords(ctx, shape):
    rng = ctx.rng
    r = rng.random()
    s = 10.0 ** rng.uniform(-3, 5)
    x = rng.normal(size=shape) * s * np.array([1.0, 10.0 ** rng.uniform(-2, 2)])
    if r < 0.3:
        x = x + rng.normal(size=2) * s * 5
    elif r < 0.45:
        x = -np.abs(x)
        ctx.ev("negative_only")
    elif r < 0.6:
        x = rng.integers(-3, 4, shape).astype(float)
    elif r < 0.7:
        x[..., int(rng.integers(2))] = rng.normal()  # flat box
    return gen.q(x)


def box_of(ctx, obj, pts, what):
    """obj.bounding_box() is the tightest box of pts; returns (lo, hi)."""
    pts = np.asarray(pts, float).reshape(-1, 2)
    want = np.stack([pts.min(0), pts.max(0)])
    got = np.asarray(obj.bounding_box())
    ctx.ev("boxes")
    ctx.check(got.shape == (2, 2) and (got == want).all(), "bounding-box", of=what, got=got, want=want)
    return want


def named_points(ctx, obj, pts, what, some=False):
    lo, hi = box_of(ctx, obj, pts, what)
    t = 4 * ctx.eps * max(np.abs(lo).max(), np.abs(hi).max(), 1e-30)
    c = np.asarray(obj.center(), float)
    ctx.check(c.shape == (2,) and np.abs(c - (lo + hi) / 2).max() <= t, "center", of=what, got=c, want=(lo + hi) / 2)
    for loc, f in LOCS.items():
        if some and ctx.rng.random() < 0.6:
            continue
        got = np.asarray(obj.get_location(loc), float)
        want = lo + np.array(f) * (hi - lo)
        ctx.ev("locations")
        ctx.check(got.shape == (2,) and np.abs(got - want).max() <= t, "location", of=what, location=loc, got=got, want=want)


def grid_of(ctx, obj, pts, what, m, n, how=0):
    pts = np.asarray(pts, float).reshape(-1, 2)
    lo, hi = pts.min(0), pts.max(0)
    X, Y = (obj.grid(m) if n is None else obj.grid(m, n)) if how == 0 else (obj.grid(m=m) if n is None else obj.grid(m=m, n=n)) if how == 1 else obj.grid(m, n)
    nn = m if n is None else n
    X, Y = np.asarray(X, float), np.asarray(Y, float)
    ctx.ev("grids")
    ctx.ev("grid_one", 1 in (m, nn))
    ctx.ev("grid_not_square", m != nn)
    if not ctx.check(X.shape == Y.shape == (nn, m), "grid-shape", of=what, m=m, n=n, X=X.shape, Y=Y.shape):
        return
    t = 8 * ctx.eps * max(np.abs(lo).max(), np.abs(hi).max(), 1e-30)
    wx, wy = np.linspace(lo[0], hi[0], m), np.linspace(lo[1], hi[1], nn)
    ctx.check(np.abs(X - wx[None, :]).max() <= t, "grid-x", of=what, m=m, n=n, got=X, want=wx)
    ctx.check(np.abs(Y - wy[:, None]).max() <= t, "grid-y", of=what, m=m, n=n, got=Y, want=wy)


def length_of(ctx, got, pts, what):
    pts = np.asarray(pts, float)
    legs = np.linalg.norm(np.diff(pts, axis=0), axis=1)
    want = legs.sum()
    # epsilon added to each leg, and rounding of the differences of coordinates
    t = len(legs) * 4 * ctx.eps * (1 + want + np.abs(pts).max())
    got = float(np.asarray(got))
    ctx.ev("lengths")
    ctx.ev("repeated_points", (legs == 0).any())
    ctx.check(abs(got - want) <= t, "path-length", of=what, got=got, want=want, points=pts)
    ctx.check(got >= np.linalg.norm(pts[-1] - pts[0]) - t and got >= 0, "path-shorter-than-its-chord", of=what, got=got, points=pts)


def nearest(ctx, pts, target, i, d, what):
    ds = np.linalg.norm(np.asarray(pts, float) - np.asarray(target, float), axis=1)
    t = 8 * ctx.eps * (ds.min() + 1e-30) + 4 * ctx.eps * np.abs(np.asarray(pts, float) - target).max() * 1e-3
    ctx.ev("nearest")
    ctx.ev("nearest_margin", len(ds) > 1 and np.sort(ds)[1] > ds.min() + 10 * t)
    ctx.check(0 <= i < len(ds) and ds[i] <= ds.min() + t, "not-nearest", of=what, index=i, distances=ds)
    ctx.check(abs(float(d) - ds.min()) <= t, "wrong-distance", of=what, got=d, want=ds.min())


def run_case(ctx, index):
    [objects, objects, paths, paths, scenes, scenes, near, near][index % 8](ctx, index // 8)


def objects(ctx, k):
    import jax
    import jax.numpy as jnp
    from differt2d.geometry import RIS, Point, Ray, Vertex, Wall

    classes = [Point, Vertex, Ray, Wall, RIS]
    st = ctx.state.setdefault("jit", {})
    for _ in range(6):
        for cls in classes:
            one = cls in (Point, Vertex)
            pts = coords(ctx, (1, 2) if one else (2, 2))
            obj = cls(xy=jnp.array(pts[0])) if one else cls(xys=jnp.array(pts))
            ctx.case_info = dict(cls=cls.__name__, points=pts)
            ctx.sig(cls.__name__, pts.tobytes())
            if cls is Ray:
                box_of(ctx, obj, pts, "Ray")
                o, d, t = np.asarray(obj.origin(), float), np.asarray(obj.dest(), float), np.asarray(obj.t(), float)
                ctx.check((o == pts[0]).all() and (d == pts[1]).all(), "ends", origin=o, dest=d)
                ctx.check(np.abs(t - (pts[1] - pts[0])).max() <= 2 * ctx.eps * np.abs(pts).max(), "direction", got=t)
            else:
                named_points(ctx, obj, pts, cls.__name__)
                m, n = GRIDS[(k + ctx.rng.integers(2)) % len(GRIDS)]
                grid_of(ctx, obj, pts, cls.__name__, m, n, int(ctx.rng.integers(3)))
            if cls in (Wall, RIS):
                v = list(obj.get_vertices())
                ctx.check(len(v) == 2 and all(type(p) is Vertex for p in v) and (np.asarray([p.xy for p in v], float) == pts).all(), "vertices", of=cls.__name__, got=[p.xy for p in v])
                if cls not in st:
                    st[cls] = jax.jit(lambda o: (o.bounding_box(), o.center(), o.grid(3, 2)))
                b, c, (X, Y) = st[cls](obj)
                ctx.ev("jit")
                ctx.check((np.asarray(b) == [pts.min(0), pts.max(0)]).all(), "bounding-box", of="jit", got=b)
                grid_of(ctx, type("G", (), {"grid": lambda s, m, n: (X, Y)})(), pts, "jit", 3, 2)
            if k == 0 and _ == 0 and cls is not Ray:
                grid_of(ctx, type("G", (), {"grid": lambda s, m, n, obj=obj: obj.grid()})(), pts, "default grid", 50, 50)
    # the whole family of grid sizes, each compiled once
    if k % 3 == 0:
        m, n = int(ctx.rng.integers(1, 10)), int(ctx.rng.integers(1, 10))
        pts = coords(ctx, (2, 2))
        grid_of(ctx, Wall(xys=jnp.array(pts)), pts, "Wall", m, n)
    ctx.sample(dict(points=pts))


def paths(ctx, k):
    import jax.numpy as jnp
    from differt2d.geometry import FermatPath, ImagePath, MinPath, Path, path_length

    rng = ctx.rng
    n = [2, 3, 4, 5, 8, 2, 3][k % 7]
    for j in range(8):
        pts = coords(ctx, (n, 2))
        if rng.random() < 0.25:
            pts[int(rng.integers(1, n))] = pts[0]
        if rng.random() < 0.1:
            pts[:] = pts[0]
        cls = [Path, ImagePath, FermatPath, MinPath][j % 4]
        p = cls(xys=jnp.array(pts))
        ctx.case_info = dict(cls=cls.__name__, points=pts)
        ctx.sig(cls.__name__, pts.tobytes())
        named_points(ctx, p, pts, cls.__name__, some=True)
        m_, n_ = GRIDS[(k + j // 4) % len(GRIDS)]
        grid_of(ctx, p, pts, cls.__name__, m_, n_, j % 3)
        length_of(ctx, p.length(), pts, cls.__name__)
        length_of(ctx, path_length(jnp.array(pts)), pts, "path_length")
        # splitting a path conserves its length
        if n > 2:
            c = int(rng.integers(1, n - 1))
            a, b = float(path_length(jnp.array(pts[: c + 1]))), float(path_length(jnp.array(pts[c:])))
            tot = float(p.length())
            ctx.check(abs(a + b - tot) <= 16 * n * ctx.eps * (1 + tot), "length-not-additive", parts=(a, b), total=tot)
        back = float(path_length(jnp.array(pts[::-1].copy())))
        ctx.check(abs(back - float(p.length())) <= 16 * n * ctx.eps * (1 + back), "length-depends-on-direction", got=back)


def scene_of(ctx, k):
    import jax.numpy as jnp
    from differt2d.geometry import RIS, Point, Vertex, Wall
    from differt2d.scene import Scene

    ntx, nrx, kinds = [(1, 1, "W"), (0, 0, "WW"), (2, 1, "WRV"), (0, 1, ""), (1, 0, "V"), (3, 2, "WW"), (1, 0, ""), (2, 3, "VRW")][k % 8]
    tot = coords(ctx, (ntx + nrx + 2 * len(kinds), 2))
    tot = tot[ctx.rng.permutation(len(tot))]
    tx, rx, rest = tot[:ntx], tot[ntx : ntx + nrx], tot[ntx + nrx :].reshape(-1, 2, 2)
    pts = [*tx, *rx]
    objs = []
    for c, w in zip(kinds, rest):
        objs.append(Vertex(xy=jnp.array(w[0])) if c == "V" else (Wall if c == "W" else RIS)(xys=jnp.array(w)))
        pts += [w[0]] if c == "V" else [w[0], w[1]]
    txn, rxn = gen.names(ctx.rng, ntx), gen.names(ctx.rng, nrx)
    s = Scene(transmitters={a: Point(xy=jnp.array(p)) for a, p in zip(txn, tx)}, receivers={a: Point(xy=jnp.array(p)) for a, p in zip(rxn, rx)}, objects=objs)
    ctx.case_info = dict(tx=tx, rx=rx, kinds=kinds, objects=rest, txn=txn, rxn=rxn)
    return s, np.array(pts), tx, rx, txn, rxn


def scenes(ctx, k):
    for _ in range(3):
        s, pts, *_ = scene_of(ctx, k)
        ctx.sig("scene", pts.tobytes())
        box_of(ctx, s, pts, "Scene")
        ctx.ev("scene_boxes")
    # scenes are static in their names: the methods under filter_jit compile once per scene structure
    names = {k: list(v) for k, v in (("t", s.transmitters), ("r", s.receivers))}
    s2 = type(s)(transmitters={f"t{i}": p for i, p in enumerate(s.transmitters.values())}, receivers={f"r{i}": p for i, p in enumerate(s.receivers.values())}, objects=s.objects)
    named_points(ctx, s2, pts, "Scene")
    m, n = GRIDS[k // 8 % len(GRIDS)]
    grid_of(ctx, s2, pts, "Scene", m, n, k % 3)
    ctx.check(list(s.transmitters) == names["t"] and list(s.receivers) == names["r"], "scene-changed")
    ctx.ev("scene_boxes")
    ctx.sample(dict(points=pts))


def near(ctx, k):
    import jax.numpy as jnp
    from differt2d.geometry import closest_point

    rng = ctx.rng
    n = [1, 2, 3, 5, 9][k % 5]
    for _ in range(6):
        pts = coords(ctx, (n, 2))
        t = gen.q(pts[int(rng.integers(n))] + rng.normal(size=2) * rng.choice([0, 1e-3, 1, 100]) * np.abs(pts).max())
        ctx.case_info = dict(points=pts, target=t)
        ctx.sig("near", pts.tobytes(), t.tobytes())
        i, d = closest_point(jnp.array(pts), jnp.array(t))
        nearest(ctx, pts, t, int(i), d, "closest_point")
    for _ in range(8):
        s, pts, tx, rx, txn, rxn = scene_of(ctx, int(rng.choice([2, 5, 7])))
        for P, names, f, what in ((tx, txn, s.get_closest_transmitter, "transmitter"), (rx, rxn, s.get_closest_receiver, "receiver")):
            t = gen.q(pts[int(rng.integers(len(pts)))] + rng.normal(size=2) * rng.choice([0, 1]) * np.abs(pts).max())
            ctx.case_info["target"] = t
            nm, d = f(jnp.array(t))
            if ctx.check(type(nm) is str and nm in names, "unknown-name", of=what, got=nm, names=names):
                nearest(ctx, P, t, names.index(nm), d, what)
