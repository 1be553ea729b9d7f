"""Refusal monitor: arguments of the wrong shape, type or name must raise, and a refused call must leave no trace."""

import hashlib
import io
import json
import threading

import numpy as np

from lib import gen

ID = "C29"
N = {"quick": {"f32": 120, "x64": 120}, "thorough": {"f32": 3000, "x64": 3000}}
SHARDS = {"f32": 4, "x64": 4}
MIN = {"quick": {"refusals": 8000, "accepted": 2500, "wrong_shapes": 3000, "wrong_dtypes": 800, "under_jit": 500, "names": 1000, "documents": 800, "mutations": 1000, "keys": 200, "canaries": 200, "fingerprints": 1000, "buffers": 800}}
RULE = """Every constructor and geometric function with random arrays of a wrong shape (0 to 3 dimensions) or type, eagerly and while tracing; unknown names and locations;
ill-formed documents and sources; missing keys; attempts to modify scenes, objects and mappings in place, or through the NumPy arrays they were made from; after each batch of refusals the results of a fixed set of calls,
the approximation setting and its lock are compared with those before; well-formed counterparts must be accepted; distinct = (function, kind of argument)."""
ASSUMES = ["any exception counts as a refusal"]


def refused(ctx, kind, what, f, *args):
    ctx.ev("refusals")
    ctx.ev(kind)
    ctx.sig(what, kind, *(str(getattr(a, "shape", a))[:60] + str(getattr(a, "dtype", "")) for a in args))
    try:
        out = f(*args)
        if hasattr(out, "__next__"):
            out = list(out)
    except Exception:  # noqa: BLE001
        return
    ctx.violate("malformed-input-accepted", of=what, arguments=[a if not hasattr(a, "shape") else {"shape": list(a.shape), "dtype": str(a.dtype)} for a in args], got=str(out)[:200])


def accepted(ctx, what, f, *args):
    ctx.ev("accepted")
    try:
        return f(*args)
    except Exception as e:  # noqa: BLE001
        ctx.violate("well-formed-input-refused", of=what, arguments=[str(a)[:80] for a in args], error=f"{type(e).__name__}: {e}"[:300])


def functions():
    """name -> (function of one array, shape of that array with None for any size, minimum of that size)."""
    import jax.numpy as jnp
    from differt2d import geometry as g

    W = g.Wall(xys=jnp.array([[0.1, 0.2], [0.9, 0.4]]))
    R = g.RIS(xys=W.xys)
    V = g.Vertex(xy=W.xys[0])
    z = jnp.zeros(2)
    pairs = jnp.array([[0.0, 0.0], [1.0, 0.5], [0.3, 0.7]])
    return {
        "Point": (lambda x: g.Point(xy=x), (2,)), "Vertex": (lambda x: g.Vertex(xy=x), (2,)), "Ray": (lambda x: g.Ray(xys=x), (2, 2)), "Wall": (lambda x: g.Wall(xys=x), (2, 2)),
        "RIS": (lambda x: g.RIS(xys=x), (2, 2)), "RIS.phi": (lambda x: g.RIS(xys=W.xys, phi=x), ()), "Path": (lambda x: g.Path(xys=x), (None, 2)), "ImagePath": (lambda x: g.ImagePath(xys=x), (None, 2)),
        "FermatPath": (lambda x: g.FermatPath(xys=x), (None, 2)), "MinPath": (lambda x: g.MinPath(xys=x), (None, 2)), "Path.loss": (lambda x: g.Path(xys=pairs, loss=x), ()),
        "path_length": (g.path_length, (None, 2)), "normalize": (g.normalize, (2,)), "closest_point": (lambda x: g.closest_point(x, z), (None, 2)), "closest_point target": (lambda x: g.closest_point(pairs, x), (2,)),
        "segments_intersect P1": (lambda x: g.segments_intersect(x, z, z, z), (2,)), "segments_intersect P3": (lambda x: g.segments_intersect(z, z, x, z), (2,)), "segments_intersect P4": (lambda x: g.segments_intersect(z, z, z, x), (2,)),
        "Wall.image_of": (W.image_of, (2,)), "Wall.cartesian_to_parametric": (W.cartesian_to_parametric, (2,)), "Wall.intersects_cartesian": (W.intersects_cartesian, (2, 2)),
        "Wall.evaluate_cartesian": (W.evaluate_cartesian, (3, 2)), "RIS.evaluate_cartesian": (R.evaluate_cartesian, (3, 2)), "Vertex.evaluate_cartesian": (V.evaluate_cartesian, (3, 2)),
        "Vertex.cartesian_to_parametric": (V.cartesian_to_parametric, (2,)), "Vertex.intersects_cartesian": (V.intersects_cartesian, (2, 2)),
    }


def run_case(ctx, index):
    before = canary(ctx)
    for f in ([shapes, shapes, names_and_documents, mutations, keys_and_grids][index % 5], *([buffers] if index % 5 == 3 else []),):
        f(ctx, index // 5)
    after = canary(ctx)
    ctx.ev("canaries")
    ctx.check(before == after, "refused-calls-left-a-trace", before=before, after=after)


def canary(ctx):
    import jax
    import jax.numpy as jnp
    from differt2d import logic
    from differt2d.scene import Scene
    from differt2d.utils import received_power

    s = Scene.square_scene_with_wall()
    h = hashlib.sha256()
    for *_, v in s.accumulate_over_paths(received_power, max_order=1, approx=bool(ctx.index % 2)):
        h.update(np.asarray(v).tobytes())
    h.update(repr([list(map(int, c)) for c in s.all_path_candidates(max_order=2)]).encode())
    h.update(np.asarray(logic.greater(jnp.array(0.1), jnp.array(0.0), approx=True)).tobytes())
    state = [None]

    def other():
        with logic.enable_approx(True):
            state[0] = logic.ENABLE_APPROX

    t = threading.Thread(target=other, daemon=True)
    t.start()
    t.join(60)
    return h.hexdigest(), bool(logic.ENABLE_APPROX), state[0]


def fits(shape, want):
    return len(shape) == len(want) and all(w is None or s == w for s, w in zip(shape, want))


def shapes(ctx, k):
    import jax
    import jax.numpy as jnp

    rng = ctx.rng
    F = functions()
    names = sorted(F)
    for j in range(60):
        name = names[(k * 60 + j) % len(names)]
        f, want = F[name]
        good = tuple(int(rng.integers(2, 5)) if w is None else w for w in want)
        r = rng.random()
        if r < 0.55:
            while True:
                z = rng.random()
                if z < 0.4:  # one dimension off by one
                    shape = list(good) or [int(rng.integers(1, 4))]
                    i = int(rng.integers(len(shape)))
                    shape[i] = max(0, shape[i] + int(rng.choice([-1, 1, 2])))
                elif z < 0.6:
                    shape = [1, *good] if rng.random() < 0.5 else [*good, 1]
                elif z < 0.75:
                    shape = list(good[1:])
                else:
                    shape = [int(x) for x in rng.integers(0, 5, int(rng.integers(0, 4)))]
                if not fits(shape, want):
                    break
            x = jnp.array(rng.random(tuple(shape)))
            refused(ctx, "wrong_shapes", name, f, x)
            if rng.random() < 0.3:
                refused(ctx, "under_jit", name, jax.jit(lambda y: jax.tree_util.tree_leaves(f(y))), x)
        elif r < 0.7:
            dt = [int, bool, complex][int(rng.integers(3))]
            refused(ctx, "wrong_dtypes", name, f, jnp.array((rng.random(good) * 3).astype(dt)))
        else:
            accepted(ctx, name, f, jnp.array(rng.random(good)))


DOCS = ["", "{", " ", '{"features": []} {"features": []}', '{"features": []},', '{"features": []}x', '{"features": []', '{"features": [],}', "{'features': []}", "nonsense", "[1, 2", '{"features": [}', '{"features": [{"geometry": {"type": "Polygon", "coordinates": [[[1], [2]]]}}]}',
        '{"features": [{"geometry": {"type": "Polygon", "coordinates": [[["a", "b"], ["c", "d"]]]}}]}', '{"features": [{"geometry": {"type": "Polygon", "coordinates": [[[1, 2], [], [2, 2]]]}}]}']


def names_and_documents(ctx, k):
    import jax.numpy as jnp
    from differt2d.geometry import Point, Wall
    from differt2d.scene import Scene

    rng = ctx.rng
    s = Scene.square_scene()
    good = json.dumps({"features": [{"geometry": {"type": "Polygon", "coordinates": [[[0, 0], [1, 0], [1, 1]]]}}]})
    locs = ["N", "E", "S", "W", "C", "NE", "NW", "SE", "SW"]
    for j in range(20):
        word = "".join(rng.choice(list("NESWCnw _xq1"), int(rng.integers(0, 4))))
        things = [s, s.objects[0], s.transmitters["tx"], s.add_objects(s.transmitters["tx"]) if False else s.objects[1]]
        o = things[j % 4]
        if word in locs:
            accepted(ctx, "get_location", o.get_location, word)
            accepted(ctx, "from_geojson location", lambda w: Scene.from_geojson(good, tx_loc=w), word)
        else:
            refused(ctx, "names", "get_location", o.get_location, word)
            refused(ctx, "names", "from_geojson location", lambda w: Scene.from_geojson(good, tx_loc=w), word)
            refused(ctx, "names", "from_geojson receiver location", lambda w: Scene.from_geojson(good, rx_loc=w), word)
            refused(ctx, "names", "from_scene_name", Scene.from_scene_name, "no_" + word)
            refused(ctx, "names", "transmitters[...]", lambda w: s.transmitters[w], word)
            refused(ctx, "names", "receivers[...]", lambda w: s.receivers[w], "tx")
        d = DOCS[(k * 20 + j) % len(DOCS)]
        src = [lambda x: x, lambda x: x.encode(), lambda x: bytearray(x.encode()), io.StringIO, lambda x: io.BytesIO(x.encode())][j % 5]
        refused(ctx, "documents", "from_geojson", lambda x: Scene.from_geojson(src(x)), d)
        for bad in (12, None, {}, [], 1.5, object()):
            refused(ctx, "documents", "from_geojson source", Scene.from_geojson, bad)
        accepted(ctx, "from_geojson", lambda: Scene.from_geojson(src(good)))
        ctx.check(s.transmitters.get("absent") is None and "absent" not in s.transmitters and "tx" in s.transmitters, "mapping-membership", got=list(s.transmitters))
    # scenes without what is asked for
    empty = Scene()
    z = jnp.zeros(2)
    refused(ctx, "names", "bounding_box of an empty scene", lambda: empty.bounding_box())
    refused(ctx, "names", "closest of none", lambda: empty.get_closest_transmitter(z))
    refused(ctx, "names", "closest of none", lambda: empty.get_closest_receiver(z))
    refused(ctx, "names", "object of none", lambda: empty.get_object(jnp.int32(0)))
    refused(ctx, "names", "get_closest_transmitter", s.get_closest_transmitter, jnp.zeros(3))
    refused(ctx, "names", "get_closest_receiver", s.get_closest_receiver, jnp.zeros((2, 2)))
    refused(ctx, "names", "get_object", s.get_object, jnp.array(0.5))
    refused(ctx, "names", "get_object", s.get_object, jnp.array([0, 1]))
    for shape in [(3, 2), (2, 3, 2), (2, 2, 3), (2, 1, 2), (2, 4)]:
        refused(ctx, "wrong_shapes", "from_walls_array", Scene.from_walls_array, jnp.zeros(shape))


def mutations(ctx, k):
    import jax.numpy as jnp
    from differt2d.geometry import RIS, Path, Point, Vertex, Wall
    from differt2d.scene import PyTreeDict, Scene

    rng = ctx.rng
    pt = lambda: Point(xy=jnp.array(gen.q(rng.random(2))))  # noqa: E731
    w = Wall(xys=jnp.array(gen.q(rng.random((2, 2)))))
    for _ in range(8):
        s = Scene(transmitters={"a": pt(), "b": pt()}, receivers={"c": pt()}, objects=(w, RIS(xys=w.xys)))
        things = [s, s.transmitters, s.receivers, *s.objects, s.transmitters["a"], Vertex(xy=w.xys[0]), Path(xys=w.xys)]
        ctx.case_info = dict(kind="mutation")

        def fp():
            return [(type(t).__name__, str({n: np.asarray(v).tolist() if hasattr(v, "dtype") else str(v) for n, v in vars(t).items()})) for t in things]

        f0 = fp()
        for t in things:
            for field in list(vars(t)) + ["brand_new"]:
                refused(ctx, "mutations", f"{type(t).__name__}.{field} = ...", lambda: setattr(t, field, jnp.zeros(2)))
                refused(ctx, "mutations", f"del {type(t).__name__}.{field}", lambda: delattr(t, field))
        for m in (s.transmitters, s.receivers):
            for f in (lambda: m.__setitem__("a", pt()), lambda: m.__delitem__("a"), lambda: m.pop("a"), lambda: m.update({"z": pt()}), lambda: m.clear(), lambda: m.setdefault("z", pt()), lambda: m.popitem()):
                refused(ctx, "mutations", "in-place change of a mapping", f)
        for x in (s.transmitters["a"].xy, w.xys):
            refused(ctx, "mutations", "in-place change of an array", lambda: x.__setitem__(0, 1.0))
        ctx.ev("fingerprints", len(f0))
        ctx.check(fp() == f0, "refused-change-has-an-effect", before=f0, after=fp())
        refused(ctx, "names", "PyTreeDict", lambda: PyTreeDict(_keys=["a", "b"], _values=[1]))
        refused(ctx, "names", "PyTreeDict", lambda: PyTreeDict(_keys=[], _values=[1]))
        accepted(ctx, "PyTreeDict", lambda: PyTreeDict(_keys=["a"], _values=[1]))


def buffer(ctx, x):
    """A NumPy array with these values in the default precision, aligned for JAX to share it (half of the time anyhow)."""
    x = np.asarray(x, np.float64 if ctx.mode == "x64" else np.float32)
    raw = np.zeros(x.nbytes + 256, np.uint8)
    off = -raw.ctypes.data % 64 + int(ctx.rng.choice([0, 0, 0, 8, 16]))
    v = raw[off : off + x.nbytes].view(x.dtype).reshape(x.shape)
    v[...] = x
    return v


def buffers(ctx, k):
    """Values made from NumPy arrays which their owner changes afterwards."""
    import jax
    from differt2d.geometry import RIS, ImagePath, Path, Point, Ray, Vertex, Wall
    from differt2d.scene import Scene

    rng = ctx.rng
    B = lambda *shape: buffer(ctx, gen.q(rng.random(shape)))  # noqa: E731
    makers = {
        "Point": lambda a: Point(xy=a[0]), "Vertex": lambda a: Vertex(xy=a[0]), "Ray": lambda a: Ray(xys=a), "Wall": lambda a: Wall(xys=a), "RIS": lambda a: RIS(xys=a, phi=a[0, 0].reshape(())), "RIS.phi": lambda a: RIS(phi=a[1:, 1:].reshape(())),
        "Path": lambda a: Path(xys=a), "Path.loss": lambda a: Path(xys=a, loss=a[:1, 0].reshape(())), "ImagePath": lambda a: ImagePath(xys=a), "from_walls_array": lambda a: Scene.from_walls_array(a[None]),
        "square_scene": lambda a: Scene.square_scene(tx_coords=a[0], rx_coords=a[1]), "basic_scene": lambda a: Scene.basic_scene(tx_coords=a[0], rx_coords=a[1]), "square_scene_with_wall": lambda a: Scene.square_scene_with_wall(rx_coords=a[1]),
        "square_scene_with_obstacle": lambda a: Scene.square_scene_with_obstacle(tx_coords=a[1]), "with_transmitters": lambda a: Scene().with_transmitters(x=Point(xy=a[0])), "add_objects": lambda a: Scene().add_objects(Wall(xys=a)),
        "Path.from_tx_objects_rx": lambda a: Path.from_tx_objects_rx(a[0], [], a[1]), "ImagePath.from_tx_objects_rx": lambda a: ImagePath.from_tx_objects_rx(a[0], [Wall(xys=a)], a[1]),
        "Wall in one buffer": lambda a: [Wall(xys=a), Vertex(xy=a[1]), Point(xy=a[0])],
    }
    for what, make in makers.items():
        a = B(2, 2)
        ctx.case_info = dict(kind="buffer", what=what)
        before = a.copy()
        v = make(a)
        leaves = [np.array(x) for x in jax.tree_util.tree_leaves(v)]
        a[...] = rng.random((2, 2)) + 5
        after = [np.array(x) for x in jax.tree_util.tree_leaves(v)]
        ctx.ev("buffers")
        ctx.sig("buffer", what)
        ctx.check(all(np.array_equal(x, y) for x, y in zip(leaves, after)), "value-changes-with-the-array-it-was-made-from", of=what, given=before, leaves=leaves, after=after)


def keys_and_grids(ctx, k):
    import jax
    import jax.numpy as jnp
    from differt2d import logic as L
    from differt2d.geometry import FermatPath, ImagePath, MinPath, Path, Vertex, stack_leaves
    from differt2d.optimize import minimize
    from differt2d.scene import Scene
    from differt2d.utils import received_power

    rng = ctx.rng
    s = Scene.square_scene_with_wall()
    z = jnp.array(gen.q(rng.random(2)))
    for cls in (FermatPath, MinPath):
        refused(ctx, "keys", f"{cls.__name__} without a key", lambda: cls.from_tx_objects_rx(z, [s.objects[0]], z + 1, steps=3))
        refused(ctx, "keys", f"{cls.__name__} without a key", lambda: cls.from_tx_objects_rx(z, [s.objects[0]], z + 1, key=None, steps=3))
        refused(ctx, "keys", f"all_paths of {cls.__name__} without a key", lambda: s.all_paths(path_cls=cls, order=1, path_cls_kwargs={"steps": 3}))
    accepted(ctx, "FermatPath", lambda: FermatPath.from_tx_objects_rx(z, [s.objects[0]], z + 1, key=ctx.key(), steps=3))
    shp = [(2, 3), (3, 2), (2, 2), (1, 3), (4,), (2, 3, 1)]
    for j in range(10):
        a, b = (tuple(shp[int(i)]) for i in rng.integers(0, 4, 2))
        X, Y = jnp.array(rng.random(a)), jnp.array(rng.random(b))
        nm = ["accumulate_on_receivers_grid_over_paths", "accumulate_on_transmitters_grid_over_paths"][j % 2]
        if a != b:
            refused(ctx, "wrong_shapes", nm, lambda x, y: getattr(s, nm)(x, y, received_power, order=0), X, Y)
        cls = [ImagePath, Path, FermatPath, MinPath][j % 4]
        kw = {"key": ctx.key(), "steps": 3} if j % 4 > 1 else {}
        for bad in ((3,), (1,), (0,)):
            for n in (0, 1):
                objs = list(s.objects[:n])
                refused(ctx, "wrong_shapes", f"{cls.__name__} from a transmitter", lambda x: cls.from_tx_objects_rx(x, objs, z, **kw), jnp.array(rng.random(bad)))
                if bad != (1,) or n == 0 or cls is not ImagePath:
                    refused(ctx, "wrong_shapes", f"{cls.__name__} to a receiver", lambda x: cls.from_tx_objects_rx(z, objs, x, **kw), jnp.array(rng.random(bad))) if bad != (1,) else None
        # candidates
        p = Path(xys=jnp.array(rng.random((3, 2))))
        for c in (jnp.zeros((1, 1), jnp.int32), jnp.zeros(1), jnp.int32(0)):
            refused(ctx, "wrong_dtypes", "is_valid candidate", lambda x: p.is_valid(s.objects, x, [s.objects[0]]), c)
        # logic
        n, m = (int(x) for x in rng.choice([2, 3, 4, 5], 2, replace=False))
        for nm2 in ("logical_and", "logical_or", "greater", "less", "greater_equal", "less_equal"):
            for ap in (True, False):
                refused(ctx, "wrong_shapes", nm2, lambda x, y: getattr(L, nm2)(x, y, approx=ap), jnp.array(rng.random(n)), jnp.array(rng.random(m)))
        accepted(ctx, "greater", lambda: L.greater(jnp.array(rng.random(n)), jnp.array(rng.random(n)), approx=True))
        refused(ctx, "wrong_shapes", "minimize of a vector function", lambda x: minimize(_vec, x), jnp.array(rng.random(3)))
    refused(ctx, "wrong_dtypes", "stacking different classes", lambda: stack_leaves([s.objects[0], Vertex(xy=z)]))
    refused(ctx, "wrong_dtypes", "stacking nothing", lambda: stack_leaves([]))
    refused(ctx, "wrong_dtypes", "get_object of mixed classes", lambda: s.add_objects(Vertex(xy=z)).get_object(jnp.int32(0)))
    refused(ctx, "wrong_dtypes", "ImagePath over a vertex", lambda: ImagePath.from_tx_objects_rx(z, [Vertex(xy=z)], z + 1))


def _vec(x):
    return x * 2
