"""Steady state: after the first calls, calls with new data of the same kind compile nothing and leave nothing behind."""

import collections
import gc
import io
import json
import os
import sys
import threading

import numpy as np

from lib import gen

ID = "C31"
N = {"quick": {"f32": 32, "x64": 32}, "thorough": {"f32": 640, "x64": 640}}
SHARDS = {"f32": 4, "x64": 4}
MIN = {"quick": {"programs": 60, "steady_runs": 900, "compilations_seen_when_cold": 300, "arrays_seen": 900, "library_objects_seen": 600}}
RULE = """About 40 programs over the whole public interface; each is run with several different data of the same shapes and options until warm, then again with new
data, alternating with other programs: compilations, live arrays, instances of library classes, module-level containers, threads and open files are counted
before and after; distinct = (program, data)."""
ASSUMES = ["settings that JAX treats as constants of the program (Python numbers, flags, functions, shapes) are kept",
           "compilations are those reported by jax.monitoring",
           "a call that fails while JAX traces a user-given function may be kept by JAX itself: not counted"]


def setup(ctx):
    import jax.monitoring

    S = ctx.state
    S["compiled"] = 0

    def listen(event, duration, **kw):
        if "backend_compile" in event:
            S["compiled"] += 1

    jax.monitoring.register_event_duration_secs_listener(listen)
    S["programs"] = programs()


def link(t, r, p, o):
    return p.length() + t.xy[0] + len(o)


def square(x, a):
    return ((x - a) ** 2).sum()


def programs():
    import jax
    import jax.numpy as jnp
    import matplotlib.pyplot as plt
    import optax
    from differt2d import geometry as g
    from differt2d import logic as L
    from differt2d import optimize as o
    from differt2d.scene import Scene, all_path_candidates
    from differt2d.utils import received_power

    a = lambda rng, *s: jnp.array(gen.q(rng.random(s)))  # noqa: E731
    key = lambda rng: jax.random.PRNGKey(int(rng.integers(2**31)))  # noqa: E731
    sc = lambda rng, n=3, nt=1, nr=1: Scene(transmitters={f"t{i}": g.Point(xy=a(rng, 2)) for i in range(nt)}, receivers={f"r{i}": g.Point(xy=a(rng, 2)) for i in range(nr)},  # noqa: E731
                                            objects=[g.Wall(xys=a(rng, 2, 2)) for _ in range(n)])
    mixed = lambda rng: sc(rng, 1).add_objects(g.Vertex(xy=a(rng, 2)), g.RIS(xys=a(rng, 2, 2), phi=a(rng)))  # noqa: E731
    sgd = optax.sgd(0.1)
    keep = lambda o: isinstance(o, g.Wall)  # noqa: E731
    P = {}

    def prog(f):
        P[f.__name__] = f

    @prog
    def valid_paths(rng):
        return list(sc(rng, 3, 2, 1).all_valid_paths(max_order=2, approx=False))

    @prog
    def soft_paths(rng):
        return list(sc(rng, 2, 1, 2).all_paths(max_order=1, approx=True, alpha=1 + 9 * a(rng), tol=a(rng), patch=a(rng)))

    @prog
    def filtered(rng):
        return list(mixed(rng).all_paths(path_cls=g.Path, max_order=2, approx=False, filter_objects=keep))

    @prog
    def fermat(rng):
        return list(mixed(rng).all_paths(path_cls=g.FermatPath, path_cls_kwargs={"steps": 3}, order=1, key=key(rng), approx=False))

    @prog
    def minpath(rng):
        return list(sc(rng, 2).all_paths(path_cls=g.MinPath, path_cls_kwargs={"steps": 3, "many": 2}, order=1, key=key(rng), approx=True))

    @prog
    def candidates(rng):
        return sc(rng, 4).all_path_candidates(max_order=2), all_path_candidates(5, 0, 2), mixed(rng).all_path_candidates(order=1, filter_objects=keep)

    @prog
    def sums(rng):
        return list(sc(rng, 2, 2, 2).accumulate_over_paths(received_power, approx=True, alpha=1 + a(rng))), sc(rng, 2).accumulate_over_paths(link, reduce_all=True, approx=False)

    @prog
    def power_options(rng):
        return sc(rng, 2).accumulate_over_paths(received_power, fun_kwargs={"r_coef": a(rng), "height": a(rng)}, reduce_all=True, approx=False)

    for side in ("receivers", "transmitters"):
        for i, kw in enumerate(({}, {"grad": True}, {"value_and_grad": True, "reduce_all": True}, {"reduce_all": True})):
            def grid(rng, side=side, kw=kw):
                s = sc(rng, 1, 2, 1)
                r = getattr(s, f"accumulate_on_{side}_grid_over_paths")(a(rng, 2, 3), a(rng, 2, 3), received_power, max_order=1, approx=bool(len(kw) % 2), **kw)
                return r if "reduce_all" in kw else list(r)

            P[f"grid_{side}_{i}"] = grid

    @prog
    def grid_minpath(rng):
        return list(sc(rng, 1).accumulate_on_receivers_grid_over_paths(a(rng, 1, 2), a(rng, 1, 2), received_power, order=1, path_cls=g.MinPath, path_cls_kwargs={"steps": 2}, key=key(rng), approx=True))

    @prog
    def gradients(rng):
        return GRAD(a(rng, 2))

    def power_at(x):
        return Scene.square_scene(tx_coords=x).accumulate_over_paths(received_power, reduce_all=True, approx=True, max_order=1)

    GRAD = jax.grad(power_at)

    @prog
    def image_paths(rng):
        p = g.ImagePath.from_tx_objects_rx(a(rng, 2), [g.Wall(xys=a(rng, 2, 2)), g.RIS(xys=a(rng, 2, 2))], g.Point(xy=a(rng, 2)))
        return p, p.length(), p.bounding_box(), p.center(), p.get_location("NW"), p.grid(3)

    @prog
    def path_verdicts(rng):
        ws = [g.Wall(xys=a(rng, 2, 2)) for _ in range(3)]
        p = g.Path.from_tx_objects_rx(a(rng, 2), ws[:1], a(rng, 2))
        c = jnp.array([0], dtype=jnp.int32)
        return p.on_objects(ws[:1], approx=False), p.intersects_with_objects(ws, c, patch=a(rng), approx=True), p.is_valid(ws, c, ws[:1], approx=False)

    @prog
    def objects(rng):
        w, v, r = g.Wall(xys=a(rng, 2, 2)), g.Vertex(xy=a(rng, 2)), g.RIS(xys=a(rng, 2, 2), phi=a(rng))
        p = a(rng, 3, 2)
        return [w.normal(), w.image_of(p[0]), w.get_vertices(), w.origin(), w.dest(), w.t(), w.rotate(a(rng), p[0]), w.rotate(a(rng), around=v), v.sample(key(rng)), v.bounding_box(), v.center()] + [
            m for o in (w, r) for m in (o.sample(key(rng)), o.evaluate_cartesian(p), o.contains_parametric(a(rng, 1), approx=False), o.parametric_to_cartesian(a(rng, 1)), o.cartesian_to_parametric(p[0]),
                                        o.intersects_cartesian(p[:2], patch=a(rng), approx=True), o.grid(2, 3), o.get_location("C"))]

    @prog
    def functions(rng):
        p = a(rng, 4, 2)
        return g.segments_intersect(*p, approx=False), g.segments_intersect(*p, tol=a(rng), approx=True, alpha=a(rng)), g.path_length(p), g.normalize(p[0]), g.closest_point(p, p[1])

    @prog
    def logic(rng):
        x, y = a(rng, 3), a(rng, 3)
        return [L.greater(x, y, approx=True, alpha=a(rng)), L.less_equal(x, y, approx=False), L.logical_and(x, y, approx=True), L.logical_or(x > y, y > x, approx=False), L.logical_not(x, approx=True),
                L.logical_all(x, y, approx=True), L.logical_any(x, approx=True, axis=0), L.is_true(x[0], approx=True), L.is_false(x[0] > 1, approx=False), L.sigmoid(x, a(rng)), L.activation(x, function=L.sigmoid)]

    @prog
    def approx_blocks(rng):
        out = []
        for v in (True, False):
            with L.enable_approx(v):
                out.append(L.true_value())
            with L.disable_approx(v):
                out.append(L.false_value())
        return out

    @prog
    def minimizers(rng):
        k = key(rng)
        return [o.minimize(square, a(rng, 2), args=(a(rng, 2),), steps=3), o.minimize_random_uniform(square, k, 2, args=(a(rng, 2),), steps=3, optimizer=sgd),
                o.minimize_many_random_uniform(square, k, 2, args=(a(rng, 2),), steps=3, many=3)]

    @prog
    def default_minimizer(rng):
        return o.minimize(square, a(rng, 2), args=(a(rng, 2),))

    @prog
    def editing(rng):
        s = sc(rng, 2, 2, 2)
        q = g.Point(xy=a(rng, 2))
        return [s.with_transmitters(z=q), s.with_receivers(z=q), s.update_transmitters(t0=q), s.update_receivers(n=q), s.rename_transmitters(t0="x"), s.rename_receivers(r1="y"), s.with_objects(*s.objects[:1]),
                s.add_objects(*s.objects), s.filter_objects(keep), s.get_object(jnp.int32(int(rng.integers(2)))), s.stacked_objects(), Scene.from_stacked_objects(s.stacked_objects()),
                s.get_closest_transmitter(a(rng, 2)), s.get_closest_receiver(a(rng, 2)), s.bounding_box(), s.grid(3, 2), s.center(), s.get_location("SE"), list(s.all_transmitter_receiver_pairs())]

    @prog
    def stacking(rng):
        st = g.stack_leaves([g.Wall(xys=a(rng, 2, 2)) for _ in range(3)])
        return st, g.unstack_leaves(st)

    @prog
    def factories(rng):
        return [Scene.basic_scene(tx_coords=a(rng, 2)), Scene.square_scene(rx_coords=a(rng, 2)), Scene.square_scene_with_wall(), Scene.square_scene_with_obstacle(ratio=a(rng)), Scene.from_walls_array(a(rng, 3, 2, 2)),
                Scene.random_uniform_scene(key=key(rng), n_walls=3, n_receivers=2), Scene.from_scene_name("basic_scene")]

    @prog
    def geojson(rng):
        doc = json.dumps({"features": [{"geometry": {"type": "Polygon", "coordinates": [gen.q(rng.random((4, 2))).tolist()]}}]})
        return [Scene.from_geojson(doc), Scene.from_geojson(doc.encode(), "N", "S"), Scene.from_geojson(io.StringIO(doc), tx_loc="C")]

    @prog
    def plots(rng):
        fig, ax = plt.subplots()
        try:
            s = mixed(rng)
            s.plot(ax)
            for *_, p, _ in s.all_paths(path_cls=g.Path, order=1, approx=False):
                p.plot(ax)
        finally:
            plt.close(fig)

    @prog
    def power(rng):
        n = g.Point()
        return received_power(n, n, g.Path(xys=a(rng, 3, 2)), []), received_power(n, n, g.Path(xys=a(rng, 4, 2)), [], a(rng), a(rng))

    @prog
    def refused(rng):
        for f in (lambda: g.Point(xy=a(rng, 3)), lambda: Scene.from_geojson("{"), lambda: g.closest_point(a(rng, 3, 2), a(rng, 3)), lambda: sc(rng).get_location("Q"), lambda: sc(rng).accumulate_over_paths(crash, reduce_all=True, approx=False)):
            try:
                f()
            except Exception:  # noqa: BLE001
                pass
        return []

    @prog
    def abandoned(rng):
        it = sc(rng, 3).all_paths(max_order=1, approx=False)
        next(it), next(it)
        it2 = sc(rng, 2, 2, 1).accumulate_over_paths(received_power, max_order=1, approx=False)
        next(it2)
        return it, it2

    return P


def crash(*args):
    raise KeyError("user function")


def containers():
    """Sizes of the containers reachable from the library's modules and classes (not through functions)."""
    out = collections.Counter()
    for nm, m in list(sys.modules.items()):
        if nm != "differt2d" and not nm.startswith("differt2d."):
            continue
        todo = [(nm + "." + k, v, 0) for k, v in vars(m).items() if not k.startswith("__")]
        while todo:
            path, x, d = todo.pop()
            if isinstance(x, type) and getattr(x, "__module__", "").startswith("differt2d") and d < 2:
                todo += [(path + "." + k, v, d + 1) for k, v in vars(x).items() if isinstance(v, (dict, list, set, tuple, collections.deque))]
            elif isinstance(x, (dict, list, set, tuple, collections.deque)) and not isinstance(x, type(sys)):
                out[path] += len(x)
                if d < 3 and len(x) < 1000:
                    todo += [(path, v, d + 1) for v in (x.values() if isinstance(x, dict) else x)]
            elif hasattr(x, "cache_info") and callable(x.cache_info):
                try:
                    out[path] += x.cache_info().currsize
                except Exception:  # noqa: BLE001
                    pass
    return out


def census(ctx):
    import jax

    gc.collect()
    lib = sum(1 for o in gc.get_objects() if type(o).__module__.startswith("differt2d"))
    import matplotlib.pyplot as plt

    fds = len(os.listdir("/proc/self/fd")) if os.path.isdir("/proc/self/fd") else 0
    return dict(arrays=len(jax.live_arrays()), library_objects=lib, threads=threading.active_count(), files=fds, figures=len(plt.get_fignums()))


def run_case(ctx, index):
    import jax

    S, rng = ctx.state, ctx.rng
    names = sorted(S["programs"])
    rounds = index // 8
    # each worker has its own programs, alternating
    mine = [n for i, n in enumerate(names) if i % 4 == index % 4]
    warm = S.setdefault("warm", set())
    cold = S["compiled"]
    for n in mine:
        if n not in warm:
            for _ in range(3):
                jax.block_until_ready([x for x in jax.tree_util.tree_leaves(S["programs"][n](rng)) if hasattr(x, "block_until_ready")])
            warm.add(n)
            ctx.ev("programs")
    ctx.ev("compilations_seen_when_cold", S["compiled"] - cold)
    for n in mine:  # the other programs ran in between
        S["programs"][n](rng)
    c0, k0 = census(ctx), containers()
    order = [mine[i] for _ in range(3) for i in rng.permutation(len(mine))]
    for n in order:
        ctx.case_info = dict(program=n, round=rounds)
        before = S["compiled"]
        out = S["programs"][n](rng)
        ctx.ev("steady_runs")
        ctx.sig(n, rounds, int(rng.integers(2**40)))
        ctx.check(S["compiled"] == before, "recompiled-in-the-steady-state", program=n, compilations=S["compiled"] - before)
        leaves = [x for x in jax.tree_util.tree_leaves(out) if hasattr(x, "block_until_ready")]
        ctx.ev("arrays_seen", len(leaves))
        ctx.ev("library_objects_seen", 1)
        del out, leaves
    c1, k1 = census(ctx), containers()
    ctx.case_info = dict(programs=mine, round=rounds)
    for what in c0:
        ctx.check(c1[what] <= c0[what], "left-behind", what=what, before=c0[what], after=c1[what])
    grown = {k: (k0[k], v) for k, v in k1.items() if v > k0[k]}
    ctx.check(not grown, "module-level-container-grew", grown=str(grown)[:300])
    ctx.sample(dict(programs=mine, census=c1))
