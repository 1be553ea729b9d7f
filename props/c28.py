"""Precision sanitizer: every result has the precision of its inputs, told from dtypes and from its response to changes far below single precision."""

import json

import numpy as np

from lib import gen

ID = "C28"
N = {"quick": {"f32": 64, "x64": 320}, "thorough": {"f32": 800, "x64": 12000}}
SHARDS = {"f32": 2, "x64": 6}
MIN = {"quick": {"responses": 1500, "response_elements": 8000, "dtypes": 4000, "paths": 40, "optimizers": 40, "sums": 40, "grids": 40, "gradients": 40, "objects": 40, "logic": 40, "scenes": 40, "stored_decimals": 200,
                 "float32_runs": 60, "identities": 100, "late_runs": 3}}
RULE = """About 40 public functions at random generic inputs: dtype of every floating output; in double precision, response of every output element to a displacement of all
coordinates by 1e-9 against the derivative along it (from steps of 1e-5); decimals stored by constructors and importers bit by bit; distinct = (function, inputs)."""
ASSUMES = ["outputs whose derivative along the displacement differs between steps (kinks, visibility changes within 1e-5) are skipped"]


def run_case(ctx, index):
    fams = [paths, optimizers, sums, grids, gradients, objects, logic, scenes]
    fam = fams[index % 8]
    ctx.ev(fam.__name__)
    ctx.ev("float32_runs", not ctx.x64)
    fam(ctx, index // 8)
    if index == 6 and not ctx.x64:
        late(ctx)


LATE = """
import sys
import jax
import differt2d.scene, differt2d.utils, differt2d.geometry as g
from differt2d.scene import Scene
import json
%s
jax.config.update("jax_enable_x64", True)
import numpy as np
out = {}
for nm in ("basic_scene", "square_scene", "square_scene_with_wall", "square_scene_with_obstacle"):
    s = getattr(Scene, nm)()
    out[nm] = [[str(x.dtype), np.asarray(x, np.float64).ravel().tolist()] for x in jax.tree_util.tree_leaves(s)]
for nm, x in dict(point=g.Point(), wall=g.Wall(), ris=g.RIS(), path=g.Path(xys=[[0.1, 0.2], [0.3, 0.7]])).items():
    out[nm] = [[str(v.dtype), np.asarray(v, np.float64).ravel().tolist()] for v in jax.tree_util.tree_leaves(x)]
print(json.dumps(out))
"""


def late(ctx):
    """Double precision enabled after the library was imported, or used."""
    import json
    import os
    import subprocess
    import sys

    env = {k: v for k, v in os.environ.items() if k != "JAX_ENABLE_X64"}
    root = os.path.dirname(os.path.dirname(sys.modules["differt2d"].__file__))
    env["PYTHONPATH"] = root + os.pathsep + env.get("PYTHONPATH", "")
    runs = []
    for before in ("jax.config.update('jax_enable_x64', True)", "", "Scene.basic_scene(), Scene.square_scene(), Scene.square_scene_with_wall(), g.Point(), g.RIS()"):
        r = subprocess.run([sys.executable, "-B", "-c", LATE % before], capture_output=True, text=True, timeout=300, env=env)
        ctx.case_info = dict(when="enabled after the import", before=before)
        ctx.check(r.returncode == 0, "late-double-precision-failed", error=r.stderr[-300:])
        if r.returncode:
            return
        runs.append(json.loads(r.stdout))
    decimals = {0.1, 0.2, 0.5, 0.6, 0.8, 0.302, 0.2147}
    for out in runs:
        ctx.ev("late_runs")
        for nm, v in out.items():
            ctx.check(v == runs[0][nm], "precision-depends-on-when-it-was-enabled", of=nm, got=v[:3], want=runs[0][nm][:3])
            ctx.check(all(d == "float64" for d, _ in v), "not-double-precision", of=nm, got=v[:3])
    got = [x for nm in ("basic_scene", "square_scene") for d, xs in runs[1][nm][:2] for x in xs]
    ctx.check(set(got) <= decimals, "default-coordinates-not-doubles", got=got)


def leaves(out):
    import jax

    return [x for x in jax.tree_util.tree_leaves(out) if hasattr(x, "dtype") or isinstance(x, float)]


def dtypes(ctx, what, out):
    want = np.float64 if ctx.x64 else np.float32
    for x in leaves(out):
        a = np.asarray(x)
        if a.dtype.kind == "f" and hasattr(x, "dtype"):
            ctx.ev("dtypes")
            ctx.check(a.dtype == want, "result-of-another-precision", of=what, dtype=str(a.dtype), want=str(np.dtype(want)))
        ctx.check(a.dtype.kind != "c", "complex-result", of=what)


def flat(out):
    xs = [np.asarray(x, np.float64).ravel() for x in leaves(out) if np.asarray(x).dtype.kind == "f"]
    return np.concatenate(xs) if xs else np.zeros(0)


def probe(ctx, what, F, theta):
    """F maps an array of coordinates to a pytree of results."""
    import jax.numpy as jnp

    rng = ctx.rng
    theta = np.asarray(theta, np.float64)
    ctx.case_info = dict(function=what, inputs=theta)
    out = F(jnp.array(theta))
    dtypes(ctx, what, out)
    if not ctx.x64:
        return
    d = rng.uniform(0.3, 1.0, theta.shape) * rng.choice([-1, 1], theta.shape)
    f = lambda h: flat(F(jnp.array(theta + h * d)))  # noqa: E731
    f0 = f(0.0)
    h, e = 1e-5, 1e-9
    a, b = f(h), f(-h)
    a2, b2 = f(h / 2), f(-h / 2)
    p, m = f(e), f(-e)
    if not (len(a) == len(b) == len(f0) == len(a2) == len(p)):
        return
    D, D2 = (a - b) / (2 * h), (a2 - b2) / h
    with np.errstate(all="ignore"):
        ok = np.isfinite(D) & np.isfinite(D2) & (np.abs(D - D2) <= 1e-4 * (np.abs(D) + 1e-3)) & (np.abs(a + b - 2 * f0) <= 1e-3 * h * (1 + np.abs(D)))
        ok &= np.abs(D) < 1e3
    ctx.ev("responses")
    ctx.ev("response_elements", ok.sum())
    ctx.sig(what, theta.tobytes())
    err = np.abs((p - m) - 2 * e * D)
    tol = 2 * e * (1e-3 * np.abs(D) + 1e-3) + 1e-12 * (1 + np.abs(f0))
    bad = ok & ~(err <= tol)
    ctx.check(not bad.any(), "result-does-not-follow-its-inputs-in-double-precision", of=what, element=int(np.argmax(bad)) if bad.any() else None,
              response=(p - m)[bad][:3], want=(2 * e * D)[bad][:3], value=f0[bad][:3])


def segs(t, n):
    from differt2d.geometry import Wall

    return [Wall(xys=t[4 * i: 4 * i + 4].reshape(2, 2)) for i in range(n)]


def paths(ctx, k):
    import jax.numpy as jnp
    from differt2d import geometry as g

    rng = ctx.rng
    n = [1, 2, 3][k % 3]
    th = rng.uniform(0, 1, 4 * n + 4)

    def image(t):
        return g.ImagePath.from_tx_objects_rx(t[-4:-2], segs(t, n), t[-2:])

    probe(ctx, "ImagePath", image, th)
    probe(ctx, "ImagePath (Points)", lambda t: g.ImagePath.from_tx_objects_rx(g.Point(xy=t[-4:-2]), segs(t, n), g.Point(xy=t[-2:])), th)
    probe(ctx, "Path", lambda t: g.Path.from_tx_objects_rx(t[-4:-2], segs(t, n), t[-2:]), th)
    probe(ctx, "Path.length", lambda t: g.Path(xys=t.reshape(-1, 2)).length(), th)
    probe(ctx, "path_length", lambda t: g.path_length(t.reshape(-1, 2)), th)
    probe(ctx, "Path.bounding_box", lambda t: g.Path(xys=t.reshape(-1, 2)).bounding_box(), th)
    c = jnp.arange(n)
    a = jnp.array(1.0)
    probe(ctx, "Path.on_objects", lambda t: image(t).on_objects(segs(t, n), approx=True, alpha=a), th)
    probe(ctx, "Path.intersects_with_objects", lambda t: image(t).intersects_with_objects(segs(t, n), c, approx=True, alpha=a), th)
    probe(ctx, "Path.is_valid", lambda t: image(t).is_valid(segs(t, n), c, segs(t, n), approx=True, alpha=a, tol=jnp.array(0.3), patch=jnp.array(0.1)), th)
    probe(ctx, "ImagePath without objects", lambda t: g.ImagePath.from_tx_objects_rx(t[:2], [], t[2:4]), th)


def optimizers(ctx, k):
    import jax.numpy as jnp
    from differt2d import geometry as g
    from differt2d import optimize as o

    rng = ctx.rng
    n = [1, 2][k % 2]
    th = rng.uniform(0, 1, 4 * n + 4)
    key = ctx.key()
    for cls in (g.FermatPath, g.MinPath):
        for many in (1, 3):
            probe(ctx, f"{cls.__name__} many={many}", lambda t: cls.from_tx_objects_rx(t[-4:-2], segs(t, n), t[-2:], key=key, steps=6, many=many), th)
    f = _fun
    x = rng.uniform(0, 1, 3)
    c = jnp.array(rng.uniform(0, 1, 3))
    probe(ctx, "minimize", lambda t: o.minimize(f, t, args=(c,), steps=7), x)
    probe(ctx, "minimize (argument)", lambda t: o.minimize(f, c, args=(t,), steps=7), x)
    probe(ctx, "minimize_random_uniform", lambda t: o.minimize_random_uniform(f, key, 3, args=(t,), steps=7), x)
    probe(ctx, "minimize_many_random_uniform", lambda t: o.minimize_many_random_uniform(f, key, 3, args=(t,), steps=7, many=4), x)
    if ctx.x64:
        # random starts have all their bits
        s = np.asarray(o.minimize_random_uniform(f, key, 8, args=(jnp.zeros(8),), steps=0)[0])
        ctx.check((s != s.astype(np.float32)).sum() >= 4, "random-start-in-single-precision", got=s)


def _fun(x, c):
    return ((x - c) ** 2).sum() + 0.1 * (x * x * x).sum()


def scene_of(t, n):
    from differt2d.geometry import Point
    from differt2d.scene import Scene

    return Scene(transmitters={"tx": Point(xy=t[-4:-2])}, receivers={"rx": Point(xy=t[-2:])}, objects=segs(t, n))


def sums(ctx, k):
    import jax.numpy as jnp
    from differt2d.geometry import MinPath
    from differt2d.logic import hard_sigmoid, less, sigmoid
    from differt2d.utils import received_power

    rng = ctx.rng
    n, hi = [(1, 1), (2, 1), (3, 1), (2, 2)][k % 4]
    th = rng.uniform(0, 1, 4 * n + 4)
    a, key = jnp.array(2.0), ctx.key()
    probe(ctx, "accumulate_over_paths approx", lambda t: [v for *_, v in scene_of(t, n).accumulate_over_paths(received_power, max_order=hi, approx=True, alpha=a)], th)
    probe(ctx, "accumulate_over_paths exact", lambda t: [v for *_, v in scene_of(t, n).accumulate_over_paths(received_power, max_order=hi, approx=False)], th)
    probe(ctx, "accumulate_over_paths reduce_all", lambda t: scene_of(t, n).accumulate_over_paths(received_power, max_order=hi, approx=True, alpha=a, reduce_all=True), th)
    probe(ctx, "all_paths", lambda t: [(v, p) for _, _, v, p, _ in scene_of(t, n).all_paths(max_order=hi, approx=True, alpha=a)], th)
    # identities that hold to the last bits: quantities rounded in between break them
    sc = scene_of(jnp.array(th), n)
    for al in (0.5, 3.0):
        kw = dict(max_order=2, approx=True, alpha=jnp.array(al), tol=jnp.array(0.3), function=[sigmoid, hard_sigmoid][k % 2])
        terms = [np.float64(v) * np.float64(received_power(sc.transmitters["tx"], sc.receivers["rx"], p, [])) for _, _, v, p, _ in sc.all_paths(**kw)]
        w, bound = float(np.sum(terms)), 64 * ctx.eps * (1 + float(np.sum(np.abs(terms))))
        for of, z in (("accumulate_over_paths", sc.accumulate_over_paths(received_power, reduce_all=True, **kw)), ("accumulate_over_paths pairs", [v for *_, v in sc.accumulate_over_paths(received_power, **kw)][0])):
            ctx.ev("identities")
            ctx.check(abs(float(z) - w) <= bound, "sum-rounded-in-between", of=of, got=float(z), want=w)
        for p in [p for *_, p, _ in sc.all_paths(order=2, approx=True)][:2]:
            c = jnp.arange(2, dtype=jnp.int32)
            args = {q: kw[q] for q in ("alpha", "function", "approx")}
            on, hit = float(p.on_objects(sc.objects[:2], **args)), float(p.intersects_with_objects(sc.objects, c, **args))
            v = float(p.is_valid(sc.objects, c, sc.objects[:2], tol=kw["tol"], **args))
            less_ = float(less(p.loss, kw["tol"], **args))
            ctx.ev("identities")
            ctx.check(not np.isfinite(on + hit + less_) or abs(v - min(on, 1 - hit, less_)) <= 64 * ctx.eps, "validity-rounded-in-between", got=v, want=(on, 1 - hit, less_))
    if k % 4 < 2:
        probe(ctx, "all_paths MinPath", lambda t: [(v, p) for _, _, v, p, _ in scene_of(t, n).all_paths(path_cls=MinPath, path_cls_kwargs={"steps": 5}, key=key, max_order=1, approx=True, alpha=a)], th)
    r = rng.uniform(0.2, 1, 2)
    probe(ctx, "received_power", lambda t: received_power(None_node(), None_node(), path_of(t[2:]), [], t[0], t[1]), np.concatenate([r, rng.uniform(0, 1, 8)]))


def None_node():
    from differt2d.geometry import Point

    return Point()


def path_of(t):
    from differt2d.geometry import Path

    return Path(xys=t.reshape(-1, 2))


def grids(ctx, k):
    import jax.numpy as jnp
    from differt2d.utils import received_power

    rng = ctx.rng
    n, hi = [(1, 1), (2, 1)][k % 2]
    th = rng.uniform(0, 1, 4 * n + 4 + 12)
    opts = [{}, {"grad": True}, {"value_and_grad": True}, {"reduce_all": True}, {"value_and_grad": True, "reduce_all": True}][k % 5]
    for nm in ("accumulate_on_receivers_grid_over_paths", "accumulate_on_transmitters_grid_over_paths"):
        def F(t):
            X, Y = t[:6].reshape(2, 3), t[6:12].reshape(2, 3)
            out = getattr(scene_of(t[12:], n), nm)(X, Y, received_power, max_order=hi, approx=bool(k % 3), **({"alpha": jnp.array(1.0)} if k % 3 else {}), **opts)
            return out if "reduce_all" in opts else [v for _, v in out]

        probe(ctx, f"{nm} {opts}", F, th)


def gradients(ctx, k):
    import jax
    import jax.numpy as jnp
    from differt2d.utils import received_power

    rng = ctx.rng
    n = [1, 2][k % 2]
    th = rng.uniform(0, 1, 4 * n + 4)
    a = jnp.array(1.0)
    probe(ctx, "grad of accumulate_over_paths", jax.grad(lambda t: scene_of(t, n).accumulate_over_paths(received_power, max_order=1, approx=True, alpha=a, reduce_all=True)), th)
    al = rng.uniform(0.5, 2, 1)
    tt = jnp.array(th)
    probe(ctx, "grad with respect to alpha", jax.grad(lambda s: scene_of(tt, n).accumulate_over_paths(received_power, max_order=1, approx=True, alpha=s[0], reduce_all=True)), al)


def objects(ctx, k):
    import jax.numpy as jnp
    from differt2d import geometry as g

    rng = ctx.rng
    th = rng.uniform(-1, 1, 10)
    w = lambda t: g.Wall(xys=t[:4].reshape(2, 2))  # noqa: E731
    r = lambda t: g.RIS(xys=t[:4].reshape(2, 2), phi=t[9])  # noqa: E731
    v = lambda t: g.Vertex(xy=t[:2])  # noqa: E731
    key = ctx.key()
    for nm, F in {
        "Wall.normal": lambda t: w(t).normal(), "Wall.image_of": lambda t: w(t).image_of(t[4:6]), "Wall.t": lambda t: (w(t).t(), w(t).origin(), w(t).dest()),
        "Wall.parametric_to_cartesian": lambda t: w(t).parametric_to_cartesian(t[6:7]), "Wall.cartesian_to_parametric": lambda t: w(t).cartesian_to_parametric(t[4:6]),
        "Wall.contains_parametric": lambda t: w(t).contains_parametric(t[6:7], approx=True, alpha=jnp.array(1.0)),
        "Wall.intersects_cartesian": lambda t: w(t).intersects_cartesian(t[4:8].reshape(2, 2), patch=t[8], approx=True, alpha=jnp.array(1.0)),
        "Wall.evaluate_cartesian": lambda t: w(t).evaluate_cartesian(t[4:].reshape(3, 2)), "Wall.sample": lambda t: w(t).sample(key), "Wall.get_vertices": lambda t: w(t).get_vertices(),
        "RIS.evaluate_cartesian": lambda t: r(t).evaluate_cartesian(t[3:9].reshape(3, 2)), "Vertex": lambda t: (v(t), v(t).sample(key), v(t).parametric_to_cartesian(jnp.zeros(0)), v(t).bounding_box()),
        "Wall.rotate": lambda t: w(t).rotate(t[8], t[4:6]), "Wall.rotate (Point)": lambda t: w(t).rotate(t[8], around=g.Point(xy=t[4:6])), "Ray.rotate": lambda t: g.Ray(xys=t[:4].reshape(2, 2)).rotate(t[8]),
        "Wall.bounding_box": lambda t: w(t).bounding_box(), "Wall.center": lambda t: w(t).center(), "Wall.grid": lambda t: w(t).grid(3, 2), "Wall.get_location": lambda t: w(t).get_location("NW"),
        "Point.get_location": lambda t: g.Point(xy=t[:2]).get_location("C"), "normalize": lambda t: g.normalize(t[:2]), "closest_point": lambda t: g.closest_point(t[:8].reshape(4, 2), t[8:10])[1],
        "segments_intersect": lambda t: g.segments_intersect(t[:2], t[2:4], t[4:6], t[6:8], tol=abs(t[8]), approx=True, alpha=jnp.array(1.0)),
        "stack_leaves": lambda t: g.stack_leaves([w(t), w(t[4:8])]), "unstack_leaves": lambda t: g.unstack_leaves(g.stack_leaves([w(t), w(t[4:8])])),
    }.items():
        probe(ctx, nm, F, th)
    if ctx.x64:
        ctx.check(float(g.RIS(xys=jnp.zeros((2, 2))).phi) == np.pi / 4, "default-angle-in-single-precision", got=g.RIS(xys=jnp.zeros((2, 2))).phi)
        s = np.array([np.asarray(w(jnp.array(th)).sample(kk)) for kk in keys(key, 4)]).ravel()
        ctx.check((s != s.astype(np.float32)).sum() >= 4, "sample-in-single-precision", got=s)


def keys(key, n):
    import jax

    return list(jax.random.split(key, n))


def logic(ctx, k):
    import jax.numpy as jnp
    from differt2d import logic as L

    rng = ctx.rng
    th = rng.uniform(0.05, 0.95, 8)
    a = jnp.array(1.0)
    x, y = (lambda t: t[:4]), (lambda t: t[4:])
    for nm, F in {
        "sigmoid": lambda t: L.sigmoid(t, a), "hard_sigmoid": lambda t: L.hard_sigmoid(t, a), "activation": lambda t: L.activation(t, alpha=a), "activation (scalar)": lambda t: L.activation(t[0], alpha=t[1]),
        "greater": lambda t: L.greater(x(t), y(t), approx=True, alpha=a), "greater_equal": lambda t: L.greater_equal(x(t), y(t), approx=True, alpha=a),
        "less": lambda t: L.less(x(t), y(t), approx=True, alpha=a), "less_equal": lambda t: L.less_equal(x(t), y(t), approx=True, alpha=a),
        "logical_and": lambda t: L.logical_and(x(t), y(t), approx=True), "logical_or": lambda t: L.logical_or(x(t), y(t), approx=True), "logical_not": lambda t: L.logical_not(t, approx=True),
        "logical_all": lambda t: L.logical_all(x(t), y(t), approx=True, axis=0), "logical_any": lambda t: L.logical_any(t.reshape(2, 4), approx=True),
        "greater (scalar)": lambda t: L.greater(t[0], 0.5, approx=True, alpha=a), "less (mixed)": lambda t: L.less(t, 0.5, approx=True, alpha=a),
    }.items():
        probe(ctx, nm, F, th)
    dtypes(ctx, "true_value", L.true_value(approx=True))
    dtypes(ctx, "false_value", L.false_value(approx=True))
    if ctx.x64:
        t = 1.0 - 1e-12  # below single precision
        ctx.check(bool(L.is_true(jnp.array(t), tol=1e-13, approx=True)) is False and bool(L.is_true(jnp.array(t), tol=1e-11, approx=True)) is True, "truth-threshold-in-single-precision")
        ctx.check(bool(L.greater(jnp.array(1 + 1e-12), jnp.array(1.0), approx=False)) and bool(L.less(jnp.array(1.0), 1 + 1e-12, approx=False)), "comparison-in-single-precision")


def scenes(ctx, k):
    import jax.numpy as jnp
    from differt2d.geometry import Point, Vertex, Wall
    from differt2d.scene import Scene

    rng = ctx.rng
    n = [1, 2, 3][k % 3]
    th = rng.uniform(0, 1, 4 * n + 4)
    S = lambda t: scene_of(t, n)  # noqa: E731
    for nm, F in {
        "Scene.bounding_box": lambda t: S(t).bounding_box(), "Scene.grid": lambda t: S(t).grid(4, 3), "Scene.center": lambda t: S(t).center(), "Scene.get_location": lambda t: S(t).get_location("SE"),
        "get_closest_transmitter": lambda t: S(t).get_closest_transmitter(t[:2])[1], "get_closest_receiver": lambda t: S(t).get_closest_receiver(t[:2])[1],
        "get_object": lambda t: S(t).get_object(jnp.int32(n - 1)), "get_interacting_objects": lambda t: S(t).get_interacting_objects(jnp.arange(n)), "stacked_objects": lambda t: S(t).stacked_objects(),
        "from_stacked_objects": lambda t: Scene.from_stacked_objects(S(t).stacked_objects()).objects, "from_walls_array": lambda t: Scene.from_walls_array(t[: 4 * n].reshape(n, 2, 2)).objects,
        "with_transmitters": lambda t: S(t).with_transmitters(a=Point(xy=t[:2])).update_receivers(b=Point(xy=t[1:3])).rename_receivers(b="c").add_objects(Vertex(xy=t[:2])),
        "square_scene": lambda t: Scene.square_scene(tx_coords=t[:2], rx_coords=t[2:4]), "basic_scene": lambda t: Scene.basic_scene(tx_coords=t[:2], rx_coords=t[2:4]),
        "square_scene_with_obstacle": lambda t: Scene.square_scene_with_obstacle(ratio=t[4], tx_coords=t[:2], rx_coords=t[2:4]), "square_scene_with_wall": lambda t: Scene.from_scene_name("square_scene_with_wall", tx_coords=t[:2]),
    }.items():
        probe(ctx, nm, F, th)
    # decimals arrive bit by bit
    fl = np.float64 if ctx.x64 else np.float32
    dec = [round(float(x), 9) for x in rng.uniform(-180, 180, 8)]
    pts = np.array(dec).reshape(4, 2)
    doc = json.dumps({"type": "FeatureCollection", "features": [{"type": "Feature", "geometry": {"type": "Polygon", "coordinates": [pts.tolist()]}}]})
    sc = Scene.from_geojson(doc)
    dtypes(ctx, "from_geojson", sc)
    ctx.case_info = dict(decimals=dec)
    got = np.array([np.asarray(o.xys) for o in sc.objects])
    want = np.stack([np.roll(pts, 1, 0), pts], 1).astype(fl)
    ctx.ev("stored_decimals", want.size)
    ctx.check(got.shape == want.shape and (got == want).all(), "imported-coordinates-rounded", got=got, want=want)
    for conv in (list, tuple, np.asarray, jnp.array):
        o = [Point(xy=conv(dec[:2])) if conv in (np.asarray, jnp.array) else Point(xy=np.array(conv(dec[:2]))), Vertex(xy=np.asarray(dec[:2])), Wall(xys=np.asarray(dec[:4]).reshape(2, 2))]
        for x in o:
            v = np.asarray(x.xy if hasattr(x, "xy") else x.xys).ravel()
            ctx.ev("stored_decimals", v.size)
            ctx.check(v.dtype == fl and (v == np.array(dec[: v.size], fl)).all(), "stored-coordinates-rounded", cls=type(x).__name__, got=v, want=dec)
    s = Scene.basic_scene()
    ctx.check((np.asarray(s.receivers["rx"].xy) == np.array([0.302, 0.2147], fl)).all(), "default-coordinates-rounded", got=s.receivers["rx"].xy)
    s = Scene.random_uniform_scene(key=ctx.key(), n_transmitters=2, n_walls=3, n_receivers=2)
    dtypes(ctx, "random_uniform_scene", s)
    if ctx.x64:
        v = flat(s)
        ctx.check((v != v.astype(np.float32)).sum() >= v.size // 2, "random-scene-in-single-precision", got=v)
    ctx.sample(dict(decimals=dec))
