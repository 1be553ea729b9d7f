"""The same calls directly, under jit, vmap, disable_jit and after pytree round trips; leak sanitizer."""

import contextlib

import numpy as np

from lib import gen, ref, tracing

ID = "C20"
N = {"quick": {"f32": 40, "x64": 40}, "thorough": {"f32": 800, "x64": 800}}
SHARDS = {"f32": 4, "x64": 4}
MIN = {"quick": {"compared": 1500, "mode_jit": 200, "mode_filter_jit": 8, "mode_vmap": 200, "mode_disable_jit": 80, "mode_boundary": 8, "mode_flatten": 12,
                 "mode_tree_map": 8, "mode_vmap_scenes": 8, "stack_round_trips": 40, "get_object": 200, "clamped": 80, "leak_checked": 30}}
RULE = """Scene sums, grid maps, path classes, object methods, logic functions, minimizers and accessors on random inputs, called
directly and through each transformation, compared leaf by leaf (structure, dtype, shape, value); jax.checking_leaks on all
of them; distinct = (function, transformation, input) comparisons."""
ASSUMES = ["values may differ by rounding between compiled and eager execution; cases within rounding of a visibility boundary are not compared",
           "scenes of one object type, candidates enumerated without coordinate-dependent filter (these cannot be traced)"]
LOC = ["N", "E", "S", "W", "C", "NE", "NW", "SE", "SW"]


def tol(ctx):
    return 1e-9 if ctx.x64 else 2e-3


def same(ctx, what, mode, a, b, t=None, exact=False):
    """a: direct result, b: result under the transformation."""
    import jax

    la, ta = jax.tree_util.tree_flatten(a)
    lb, tb = jax.tree_util.tree_flatten(b)
    ctx.ev("compared")
    ctx.ev("mode_" + mode)
    if not ctx.check(ta == tb, "structure-differs", of=what, mode=mode, direct=str(ta)[:300], other=str(tb)[:300]):
        return
    for x, y in zip(la, lb):
        ctx.check(not isinstance(y, jax.core.Tracer), "tracer-leaked", of=what, mode=mode)
        x, y = np.asarray(x), np.asarray(y)
        if not ctx.check(x.shape == y.shape and x.dtype == y.dtype, "shape-or-type-differs", of=what, mode=mode, direct=(x.shape, str(x.dtype)), other=(y.shape, str(y.dtype))):
            continue
        if x.dtype == bool or exact:
            ok = (x == y).all()
        else:
            t_ = tol(ctx) if t is None else t
            ok = (np.isnan(x) == np.isnan(y)).all() and np.allclose(np.nan_to_num(x), np.nan_to_num(y), rtol=t_, atol=t_ * max(1.0, np.abs(np.nan_to_num(x)).max(initial=0.0)) * 1e-1)
        ctx.check(ok, f"value-differs-under-{mode}", of=what, direct=x, other=y)
    ctx.sig(what, mode, ctx.index, [np.asarray(x).tobytes()[:64] for x in la[:3]])


def decided(ctx, walls, tx, rx, hi):
    robjs = tracing.ref_objs(walls)
    return all(ref.path_verdict(walls, robjs, c, t, r, 16 * ctx.eps, ctx.rng)[0] is not None
               for t in tx for r in rx for c in ref.candidates(len(walls), 0, hi))


def case_scene(ctx, n, hi, ntx=1, nrx=1):
    for _ in range(40):
        walls, tx, rx = gen.scene_arrays(ctx.rng, n, ntx, nrx, plain=True)
        if decided(ctx, walls, tx, rx, hi):
            return walls, tx, rx
    from lib.core import Skip

    raise Skip


def run_case(ctx, index):
    [scene_sums, grids, image_paths, opt_paths, objects, stacking, misc, leaks][index % 8](ctx, index)


def scene_sums(ctx, index):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from differt2d.utils import received_power

    n, hi = [(3, 1), (2, 2), (0, 1), (4, 1)][(index // 8) % 4]
    nodes = [(1, 1), (2, 1), (1, 2)][(index // 8) % 3]
    walls, tx, rx = case_scene(ctx, n, hi, *nodes)
    scene = gen.make_scene(walls, tx, rx)
    approx = (index // 8) % 2 == 1
    kw = dict(max_order=hi, approx=approx)
    ctx.case_info = dict(walls=walls, tx=tx, rx=rx, approx=approx, max_order=hi)

    def total(s):
        return s.accumulate_over_paths(received_power, reduce_all=True, **kw)

    def parts(s):
        return [z for _, _, z in s.accumulate_over_paths(received_power, **kw)]

    def paths(s):
        return [(v, p.xys, p.loss, c) for _, _, v, p, c in s.all_paths(**kw)]

    for nm, f in (("accumulate(reduce_all)", total), ("accumulate", parts), ("all_paths", paths)):
        want = f(scene)
        if nm == "all_paths":  # only valid paths are well conditioned
            pick = [i for i, v in enumerate(want) if float(v[0]) > 0]
            g = lambda s, f=f, pick=pick: [f(s)[i] for i in pick]
            want = [want[i] for i in pick]
        else:
            g = f
        same(ctx, nm, "jit", want, jax.jit(g)(scene))
        if nm == "accumulate(reduce_all)":
            same(ctx, nm, "filter_jit", want, eqx.filter_jit(g)(scene))
            lv, td = jax.tree_util.tree_flatten(scene)
            same(ctx, nm, "flatten", want, g(jax.tree_util.tree_unflatten(td, lv)))
            same(ctx, nm, "tree_map", want, g(jax.tree_util.tree_map(lambda x: x + 0, scene)))
            b = jax.jit(lambda s: s)(scene)
            ctx.check(list(b.transmitters) == list(scene.transmitters) and list(b.receivers) == list(scene.receivers) and len(b.objects) == len(scene.objects) and
                      [type(o) for o in b.objects] == [type(o) for o in scene.objects] and type(b) is type(scene), "scene-changed-by-a-jit-boundary")
            same(ctx, nm, "boundary", want, g(b))
            # built inside jit
            made = jax.jit(lambda s: s.update_receivers(more=list(s.transmitters.values())[0]).add_objects(*s.objects[:1]))(scene)
            direct = scene.update_receivers(more=list(scene.transmitters.values())[0]).add_objects(*scene.objects[:1])
            same(ctx, "scene built inside jit", "boundary", direct, made)
            if (index // 8) % 2 == 0 and n < 4:
                with jax.disable_jit():
                    same(ctx, nm, "disable_jit", want, g(scene))
            # a batch of scenes as one pytree
            many = []
            for _ in range(3):
                w2, t2, r2 = case_scene(ctx, n, hi, *nodes)
                many.append(gen.make_scene(w2, t2, r2))
            stacked = jax.tree_util.tree_map(lambda *x: jnp.stack(x), *many)
            same(ctx, nm, "vmap_scenes", jnp.stack([g(s) for s in many]), jax.vmap(g)(stacked))
    ctx.sample(dict(walls=walls, tx=tx, rx=rx, power=want))


def grids(ctx, index):
    import jax
    import jax.numpy as jnp
    from differt2d.utils import received_power

    n = [2, 3][(index // 8) % 2]
    rng = ctx.rng
    for _ in range(60):
        walls, tx, rx = case_scene(ctx, n, 1)
        X, Y = np.meshgrid(gen.q(rng.random(3)), gen.q(rng.random(2)))
        g = np.stack([X.ravel(), Y.ravel()], 1)
        if decided(ctx, walls, tx, g, 1) and decided(ctx, walls, g, rx, 1):
            break
    else:
        return
    scene = gen.make_scene(walls, tx, rx)
    X, Y = jnp.array(X), jnp.array(Y)
    ctx.case_info = dict(walls=walls, tx=tx, rx=rx, X=X, Y=Y)
    for nm in ("accumulate_on_receivers_grid_over_paths", "accumulate_on_transmitters_grid_over_paths"):
        for vg in (False, True) if (index // 8) % 2 else (False,):
            f = lambda s, X, Y, vg=vg, nm=nm: getattr(s, nm)(X, Y, received_power, reduce_all=True, value_and_grad=vg, approx=False)
            want = f(scene, X, Y)
            same(ctx, nm, "jit", want, jax.jit(f)(scene, X, Y))
            f1 = lambda x, f=f: f(scene, x, Y)
            if not vg:
                same(ctx, nm, "vmap", jnp.stack([f1(X), f1(X * 1.0)]), jax.vmap(f1)(jnp.stack([X, X])))
        names = [k for k, _ in getattr(scene, nm)(X, Y, received_power, approx=False)]
        ctx.check(names == list(scene.transmitters if "receivers" in nm else scene.receivers), "names-lost", got=names)


def image_paths(ctx, index):
    import jax
    import jax.numpy as jnp
    from differt2d.geometry import RIS, ImagePath, Path, Point, Wall

    rng = ctx.rng
    order = [1, 2, 0, 3][(index // 8) % 4]
    B = 4
    W, T, R = [], [], []
    while len(W) < B:
        w, t, r = gen.scene_arrays(rng, order, 1, 1, kind="uniform", plain=True) if order else (np.zeros((0, 2, 2)), rng.random((1, 2)), rng.random((1, 2)))
        p, e = ref.trace_cond(w, t[0], r[0], ctx.eps, rng)
        if p is not None and e.max() < (1e-4 if not ctx.x64 else 1e-12) and np.abs(p).max() < 20:
            W.append(w), T.append(gen.q(t[0])), R.append(gen.q(r[0]))
    W, T, R = jnp.array(np.array(W)), jnp.array(np.array(T)), jnp.array(np.array(R))
    ctx.case_info = dict(walls=W, tx=T, rx=R)
    for cls in (ImagePath, Path):
        for ocls in (Wall, RIS):
            def f(w, t, r, cls=cls, ocls=ocls):
                objs = [ocls(xys=w[k]) for k in range(order)]
                p = cls.from_tx_objects_rx(t, objs, Point(xy=r))
                return p, p.length(), p.bounding_box()

            def g(w, t, r, f=f, ocls=ocls):
                p, _, _ = f(w, t, r)
                objs = [ocls(xys=w[k]) for k in range(order)]
                c = jnp.arange(order)
                return p.on_objects(objs, approx=True, alpha=1.0), p.is_valid(objs, c, objs, approx=True, alpha=1.0), p.intersects_with_objects(objs, c, approx=True, alpha=1.0)

            nm = f"{cls.__name__}({ocls.__name__})"
            direct = [f(*x) for x in zip(W, T, R)]
            same(ctx, nm, "jit", direct[0], jax.jit(f)(W[0], T[0], R[0]))
            same(ctx, nm, "vmap", jax.tree_util.tree_map(lambda *x: jnp.stack(x), *direct), jax.vmap(f)(W, T, R))
            with jax.disable_jit():
                same(ctx, nm, "disable_jit", direct[1], f(W[1], T[1], R[1]))
            d2 = [g(*x) for x in zip(W, T, R)]
            same(ctx, nm + " validity", "jit", d2[0], jax.jit(g)(W[0], T[0], R[0]), 5e-3 if not ctx.x64 else None)
            same(ctx, nm + " validity", "vmap", jax.tree_util.tree_map(lambda *x: jnp.stack(x), *d2), jax.vmap(g)(W, T, R), 5e-3 if not ctx.x64 else None)
            p = direct[0][0]
            lv, td = jax.tree_util.tree_flatten(p)
            q = jax.tree_util.tree_unflatten(td, lv)
            ctx.check(type(q) is cls and type(jax.jit(lambda z: z)(p)) is cls, "class-lost", of=nm)
    ctx.sample(dict(order=order, tx=T[0], path=direct[0][0].xys))


def opt_paths(ctx, index):
    import jax
    import jax.numpy as jnp
    from differt2d.geometry import RIS, FermatPath, MinPath, Vertex, Wall

    rng = ctx.rng
    order = 1 + (index // 8) % 2
    B = 3
    W, T, R = [gen.q(rng.uniform(-1, 1, s)) for s in ((B, order, 2, 2), (B, 2), (B, 2))]
    W[:, :, 1] = W[:, :, 0] + np.where(rng.random((B, order, 1)) < 0.5, [[[0.9, 0.3]]], [[[-0.4, 0.8]]])
    W, T, R = map(jnp.array, (gen.q(W), T, R))
    keys = jax.random.split(ctx.key(), B)
    ctx.case_info = dict(walls=W, tx=T, rx=R)
    first = [Wall, RIS, Vertex][(index // 16) % 3]
    for cls in (FermatPath, MinPath):
        def f(w, t, r, key, cls=cls, many=2, steps=4):
            objs = [Vertex(xy=w[k, 0]) if first is Vertex and k == 0 else (first if k == 0 and first is not Vertex else Wall)(xys=w[k]) for k in range(order)]
            return cls.from_tx_objects_rx(t, objs, r, key=key, many=many, steps=steps)

        nm = f"{cls.__name__}({first.__name__}...)"
        direct = [f(*x) for x in zip(W, T, R, keys)]
        same(ctx, nm, "jit", direct[0], jax.jit(f)(W[0], T[0], R[0], keys[0]))
        same(ctx, nm, "vmap", jax.tree_util.tree_map(lambda *x: jnp.stack(x), *direct), jax.vmap(f)(W, T, R, keys))
        with jax.disable_jit():
            same(ctx, nm, "disable_jit", direct[1], f(W[1], T[1], R[1], keys[1]))


def objects(ctx, index):
    import jax
    import jax.numpy as jnp
    from differt2d import logic
    from differt2d.geometry import RIS, Point, Ray, Vertex, Wall, closest_point, normalize, path_length, segments_intersect

    rng = ctx.rng
    B = 5
    W, P, A = [jnp.array(gen.q(rng.uniform(-1, 1, s))) for s in ((B, 2, 2), (B, 2), (B, 3, 2))]
    s = jnp.array(gen.q(rng.normal(size=B)))
    al = jnp.array([1.0, 5.0, 30.0, 2.0, 100.0])
    half = index // 8 % 2
    fs = {}
    for c in (Wall, RIS):
        fs.update({
            f"{c.__name__}.normal": lambda w, p, a, s, al, c=c: c(xys=w).normal(),
            f"{c.__name__}.image_of": lambda w, p, a, s, al, c=c: c(xys=w).image_of(p),
            f"{c.__name__}.evaluate_cartesian": lambda w, p, a, s, al, c=c: c(xys=w).evaluate_cartesian(a),
            f"{c.__name__}.cartesian_to_parametric": lambda w, p, a, s, al, c=c: c(xys=w).cartesian_to_parametric(p),
            f"{c.__name__}.parametric_to_cartesian": lambda w, p, a, s, al, c=c: c(xys=w).parametric_to_cartesian(s[None]),
            f"{c.__name__}.intersects_cartesian": lambda w, p, a, s, al, c=c: c(xys=w).intersects_cartesian(a[:2], patch=s * 0.1, approx=True, alpha=al * 0.01),
            f"{c.__name__}.contains_parametric": lambda w, p, a, s, al, c=c: (c(xys=w).contains_parametric(s[None], approx=False), c(xys=w).contains_parametric(s[None], approx=True, alpha=al)),
            f"{c.__name__}.get_vertices": lambda w, p, a, s, al, c=c: c(xys=w).get_vertices(),
            f"{c.__name__}.rotate": lambda w, p, a, s, al, c=c: (c(xys=w).rotate(s), c(xys=w).rotate(s, Point(xy=p))),
            f"{c.__name__}.accessors": lambda w, p, a, s, al, c=c: (c(xys=w).origin(), c(xys=w).dest(), c(xys=w).t(), c(xys=w).bounding_box(), c(xys=w).center(), c(xys=w).get_location("NW")),
        })
    fs.update({
        "Vertex": lambda w, p, a, s, al: (Vertex(xy=p).parametric_to_cartesian(jnp.zeros(0)), Vertex(xy=p).evaluate_cartesian(a), Vertex(xy=p).intersects_cartesian(a[:2], approx=True),
                                          Vertex(xy=p).contains_parametric(jnp.zeros(0), approx=False), Vertex(xy=p).bounding_box()),
        "Ray.grid": lambda w, p, a, s, al: Ray(xys=w).grid(3, 2) if hasattr(Ray, "grid") else Wall(xys=w).grid(3, 2),
        "segments_intersect": lambda w, p, a, s, al: (segments_intersect(w[0], w[1], a[0], a[1], approx=True, alpha=al * 0.01), segments_intersect(w[0], w[1], a[0], a[1], tol=abs(s), approx=False)),
        "path_length": lambda w, p, a, s, al: path_length(a),
        "normalize": lambda w, p, a, s, al: normalize(p),
        "closest_point": lambda w, p, a, s, al: closest_point(a, p),
        "activation": lambda w, p, a, s, al: (logic.activation(a, al), logic.activation(a, alpha=al, function=logic.sigmoid)),
        "compare": lambda w, p, a, s, al: [g(a, s, approx=ap, **({"alpha": al} if ap else {})) for g in (logic.less, logic.less_equal, logic.greater, logic.greater_equal) for ap in (True, False)],
        "combine": lambda w, p, a, s, al: [g(logic.greater(w, s, approx=ap), logic.less(w, 0.0 * s, approx=ap), approx=ap) for g in (logic.logical_and, logic.logical_or) for ap in (True, False)],
        "reduce": lambda w, p, a, s, al: [g(logic.greater(a, s, approx=ap), axis=-1, approx=ap) for g in (logic.logical_all, logic.logical_any) for ap in (True, False)],
        "not/true/false": lambda w, p, a, s, al: (logic.logical_not(logic.greater(a, s, approx=True), approx=True), logic.logical_not(a > s, approx=False), logic.is_true(jax.nn.sigmoid(a), tol=0.3, approx=True),
                                                  logic.is_false(jax.nn.sigmoid(a), tol=0.3, approx=True), logic.true_value(approx=True), logic.false_value(approx=False)),
    })
    ctx.case_info = dict(walls=W, points=P, paths=A, s=s)
    for k, (nm, f) in enumerate(sorted(fs.items())):
        if k % 2 != half:
            continue
        args = (W, P, A, s, al)
        direct = [f(*x) for x in zip(*args)]
        t = 5e-3 if not ctx.x64 else None
        same(ctx, nm, "jit", direct[0], jax.jit(f)(*[x[0] for x in args]), t)
        same(ctx, nm, "vmap", jax.tree_util.tree_map(lambda *x: jnp.stack([jnp.asarray(v) for v in x]), *direct), jax.vmap(f)(*args), t)
        with jax.disable_jit():
            same(ctx, nm, "disable_jit", direct[1], f(*[x[1] for x in args]), t)
    ctx.sample(dict(functions=len(fs) // 2, wall=W[0]))


def stacking(ctx, index):
    import jax
    import jax.numpy as jnp
    from differt2d.geometry import RIS, Point, Vertex, Wall, stack_leaves, unstack_leaves
    from differt2d.scene import Scene

    rng = ctx.rng
    n = [1, 2, 3, 5, 7][(index // 8) % 5]
    X = gen.q(rng.normal(size=(n, 2, 2)))
    for cls in (Wall, RIS, Vertex, Point):
        objs = [RIS(xys=jnp.array(x), phi=jnp.array(gen.q(rng.normal()))) if cls is RIS else cls(xys=jnp.array(x)) if cls is Wall else cls(xy=jnp.array(x[0])) for x in X]
        ctx.case_info = dict(cls=cls.__name__, X=X)
        st = stack_leaves(objs)
        ctx.ev("stack_round_trips")
        ctx.check(type(st) is cls, "class-lost", of="stack_leaves", got=type(st).__name__)
        want = jax.tree_util.tree_map(lambda *v: jnp.stack(v), *objs)
        same(ctx, "stack_leaves", "jit", want, st, exact=True)
        back = unstack_leaves(st)
        ctx.check(isinstance(back, list) and len(back) == n, "unstack-length", got=len(back), want=n)
        same(ctx, "unstack_leaves", "jit", objs, back, exact=True)
        same(ctx, "stack(unstack)", "jit", st, stack_leaves(back), exact=True)
        same(ctx, "unstack under jit", "jit", objs, jax.jit(unstack_leaves)(st), exact=True)
        ax = stack_leaves([{"a": jnp.arange(6.0).reshape(2, 3) + i} for i in range(n)], axis=1)["a"]
        ctx.check(ax.shape == (2, n, 3) and (np.asarray(ax[:, n - 1]) == np.arange(6).reshape(2, 3) + n - 1).all(), "stack-axis", shape=ax.shape)
        if cls is Point:
            continue
        scene = Scene(transmitters={"t": Point(xy=jnp.zeros(2))}, receivers={}, objects=objs)
        so = scene.stacked_objects()
        same(ctx, "stacked_objects", "jit", want, so, exact=True)
        s2 = Scene.from_stacked_objects(so)
        ctx.check(len(s2.transmitters) == 0 and len(s2.receivers) == 0 and len(s2.objects) == n and all(type(o) is cls for o in s2.objects), "from_stacked_objects", got=str(s2)[:300])
        same(ctx, "from_stacked_objects", "jit", objs, list(s2.objects), exact=True)
        # indices of every kind, in and out of range
        jget = jax.jit(lambda s, i: s.get_object(i))
        for i in [0, n - 1, n, n + 5, -1, -7, int(rng.integers(n)), 10**6]:
            w = objs[min(max(i, 0), n - 1)]
            ctx.ev("get_object")
            ctx.ev("clamped", not 0 <= i < n)
            same(ctx, "get_object(array)", "jit", w, scene.get_object(jnp.array(i)), exact=True)
            same(ctx, "get_object(traced)", "jit", w, jget(scene, jnp.array(i)), exact=True)
            if i in (0, n - 1):
                same(ctx, "get_object(int)", "jit", w, scene.get_object(i), exact=True)
        idx = jnp.array(rng.integers(-2, n + 2, 6))
        got = jax.vmap(scene.get_object)(idx)
        same(ctx, "get_object", "vmap", jax.tree_util.tree_map(lambda *v: jnp.stack(v), *[objs[min(max(int(i), 0), n - 1)] for i in idx]), got, exact=True)
        c = jnp.array(rng.integers(0, n, 3), dtype=jnp.int32)
        same(ctx, "get_interacting_objects(traced)", "jit", [objs[int(i)] for i in c], jax.jit(lambda s, c: s.get_interacting_objects(c))(scene, c), exact=True)
        same(ctx, "get_interacting_objects", "flatten", [objs[int(i)] for i in c], scene.get_interacting_objects(c), exact=True)


def misc(ctx, index):
    import jax
    import jax.numpy as jnp
    from differt2d.optimize import minimize, minimize_many_random_uniform, minimize_random_uniform
    from differt2d.scene import Scene
    from differt2d.utils import received_power
    from differt2d.geometry import Path, Point

    rng = ctx.rng
    B = 3
    X0, A = jnp.array(gen.q(rng.normal(size=(B, 3)))), jnp.array(gen.q(rng.uniform(0.2, 2, B)))
    keys = jax.random.split(ctx.key(), B)
    fun = lambda x, a: jnp.sum((x - a) ** 2) + 0.1 * jnp.sum(jnp.cos(x))
    fs = {
        "minimize": lambda x, a, k: minimize(fun, x, args=(a,), steps=5),
        "minimize_random_uniform": lambda x, a, k: minimize_random_uniform(fun, k, 3, args=(a,), steps=5),
        "minimize_many_random_uniform": lambda x, a, k: minimize_many_random_uniform(fun, k, 3, many=3, args=(a,), steps=5),
        "received_power": lambda x, a, k: received_power(Point(xy=x[:2]), Point(xy=x[1:]), Path(xys=jnp.stack([x[:2], x[1:], x[::2]])), [], a * 0.3, a),
        "random_uniform_scene": lambda x, a, k: Scene.random_uniform_scene(key=k, n_transmitters=2, n_walls=2, n_receivers=1),
        "square_scene_with_wall": lambda x, a, k: Scene.square_scene_with_wall(ratio=a),
        "square_scene_with_obstacle": lambda x, a, k: Scene.square_scene_with_obstacle(ratio=a),
        "from_walls_array": lambda x, a, k: Scene.from_walls_array(jnp.stack([x[:2], x[1:]])[None]),
    }
    sc = Scene.square_scene_with_wall()

    def near(x, a, k):
        s = sc.with_transmitters(a=Point(xy=x[:2]), b=Point(xy=x[1:])).with_receivers(q=Point(xy=x[::2]))
        return s.bounding_box(), s.grid(3, 2), s.center(), [s.get_location(v) for v in LOC[:: 1 + index % 3]], s.get_closest_transmitter(jnp.array([0.3, 0.7]))[1] if False else s.all_path_candidates(order=1)

    fs["scene geometry"] = near
    ctx.case_info = dict(x0=X0, a=A)
    for nm, f in fs.items():
        direct = [f(*x) for x in zip(X0, A, keys)]
        same(ctx, nm, "jit", direct[0], jax.jit(f)(X0[0], A[0], keys[0]))
        same(ctx, nm, "vmap", jax.tree_util.tree_map(lambda *x: jnp.stack(x), *direct), jax.vmap(f, out_axes=0)(X0, A, keys))
        with jax.disable_jit():
            same(ctx, nm, "disable_jit", direct[1], f(X0[1], A[1], keys[1]))


def leaks(ctx, index):
    """Tracer-leak sanitizer over the public entry points."""
    import jax
    import jax.numpy as jnp
    from differt2d import logic
    from differt2d.geometry import FermatPath, MinPath
    from differt2d.optimize import minimize_many_random_uniform
    from differt2d.utils import received_power

    from differt2d import abc as abc_, geometry, logic as logic_, optimize, scene as scene_, utils

    def held(v, depth=0):
        """Values reachable from a module attribute through containers and class attributes."""
        if isinstance(v, dict):
            vs = list(v.values())
        elif isinstance(v, (list, tuple, set)):
            vs = list(v)
        elif isinstance(v, type) and v.__module__.startswith("differt2d"):
            vs = list(vars(v).values())
        else:
            return [v]
        return [z for w in vs for z in held(w, depth + 1)] if depth < 3 else []

    walls, tx, rx = gen.scene_arrays(ctx.rng, 2, 1, 1, plain=True)
    scene = gen.make_scene(walls, tx, rx)
    X, Y = scene.grid(2, 2)
    key = ctx.key()
    fs = {
        "accumulate": lambda s: s.accumulate_over_paths(received_power, reduce_all=True),
        "grid": lambda s: s.accumulate_on_receivers_grid_over_paths(X, Y, received_power, reduce_all=True, value_and_grad=True, approx=False),
        "all_valid_paths": lambda s: [p.length() for _, _, _, p, _ in s.all_paths(approx=True)],
        "fermat": lambda s: [p.xys for _, _, _, p, _ in s.all_paths(path_cls=FermatPath, path_cls_kwargs={"steps": 2}, key=key)],
        "minpath": lambda s: [p.xys for _, _, _, p, _ in s.all_paths(path_cls=MinPath, path_cls_kwargs={"steps": 2, "many": 2}, key=key)],
        "update": lambda s: s.update_transmitters(z=list(s.receivers.values())[0]).bounding_box(),
        "stack": lambda s: type(s).from_stacked_objects(s.stacked_objects()).bounding_box(),
        "minimize": lambda s: minimize_many_random_uniform(lambda x, y: jnp.sum((x - y) ** 2), key, 2, args=(s.objects[0].xys[0],), many=2, steps=2),
        "grad": lambda s: jax.grad(lambda t: s.with_transmitters(t=type(list(s.transmitters.values())[0])(xy=t)).accumulate_over_paths(received_power, reduce_all=True, approx=False))(jnp.array(tx[0])),
    }

    def scoped(s):
        with logic.enable_approx(True):
            return s.accumulate_over_paths(received_power, reduce_all=True)

    fs["enable_approx inside jit"] = scoped
    names = sorted(fs)
    k = (index // 8) % 3
    for nm in names[k::3]:
        ctx.ev("leak_checked")
        ctx.case_info = dict(function=nm, walls=walls)
        before = logic.ENABLE_APPROX
        # JAX's own cache of nested jit calls keeps the closures it is given (as FermatPath and MinPath do), which the
        # sanitizer reports whatever the program does: these are followed through their results instead.
        closures = nm in ("fermat", "minpath")
        ctx.ev("leak_sanitized", not closures)
        with contextlib.nullcontext() if closures else jax.checking_leaks():
            try:
                out = jax.jit(fs[nm])(scene)
            except Exception as e:  # noqa: BLE001
                if "eaked" in str(e):
                    ctx.check(False, "tracer-leaked", of=nm, error=str(e)[:500])
                    continue
                raise
        ctx.check(not any(isinstance(v, jax.core.Tracer) for v in jax.tree_util.tree_leaves((out, scene))), "tracer-leaked", of=nm)
        # tracers left behind anywhere would break, or show in, the next calls
        other = gen.make_scene(walls + np.array(0.125, walls.dtype), tx + np.array(0.125, tx.dtype), rx + np.array(0.125, rx.dtype))
        for s in (other, scene):
            again = jax.jit(lambda s, f=fs[nm]: f(s))(s)
            ctx.check(not any(isinstance(v, jax.core.Tracer) for v in jax.tree_util.tree_leaves((again, s))), "tracer-leaked", of=nm)
        same(ctx, nm, "jit_again", out, again, exact=True)
        for mod in (geometry, scene_, logic_, optimize, utils, abc_):
            for name, v in list(vars(mod).items()):
                if not name.startswith("__"):
                    ctx.check(not any(isinstance(z, jax.core.Tracer) for z in held(v)), "tracer-left-in-module", of=nm, where=f"{mod.__name__}.{name}")
        ctx.check(logic.ENABLE_APPROX is before, "setting-changed-by-tracing", of=nm, got=str(logic.ENABLE_APPROX))
