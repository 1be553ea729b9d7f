"""The same calls in shuffled histories, processes and threads, compared bit for bit; keys handed to each path observed."""

import hashlib
import sys
import threading
import time

import numpy as np

from lib import gen

ID = "C24"
N = {"quick": {"f32": 16, "x64": 16}, "thorough": {"f32": 160, "x64": 160}}
SHARDS = {"f32": 4, "x64": 4}
VARY_HASH = True
MIN = {"quick": {"calls": 1000, "repeated": 1200, "across_processes": 150, "noise": 200, "exceptions": 100, "abandoned": 10, "threads": 32, "thread_calls": 2000, "thread_switches": 2000, "warm_calls": 150,
                 "delays": 500, "keys_seen": 600, "starts": 1500, "old_results": 300, "image_keys": 20,
                 "short_lived_filters": 1500, "short_lived_scenes": 300, "short_lived_objectives": 50, "interleaved": 200, "aliases": 300}}
RULE = """A pool of calls over every module (fixed per seed) run in a different order in every process (different hash seeds too), interleaved with other shapes, orders, alpha, activation
functions, approx values, exceptions, abandoned generators and cleared caches, then from six threads at once with delays injected at the lines of the repository's functions; short-lived scenes, filters, functions and
objectives whose addresses are used again, each result computed independently; digests of all
leaves compared within and across processes; keys recorded at the path classes; distinct = (call, history position, digest)."""
ASSUMES = ["same machine, same versions, single-threaded XLA kernels", "concurrent calls pass approx explicitly (enable_approx is a process-wide setting read at compilation, as documented; see C10)"]


def digest(x):
    import jax

    leaves, td = jax.tree_util.tree_flatten(x)
    h = hashlib.blake2b(digest_size=12)
    for v in leaves:
        if isinstance(v, str):
            h.update(v.encode())
            continue
        a = np.asarray(v)
        h.update(f"{a.dtype}{a.shape}".encode())
        h.update(a.tobytes())
    h.update(str(len(leaves)).encode())
    return h.hexdigest()


def pool(ctx):
    """(name, call) for every part of the package, the same in all workers of a mode."""
    import jax
    import jax.numpy as jnp
    from differt2d import geometry as G, logic as L, optimize as O
    from differt2d.scene import Scene
    from differt2d.utils import received_power

    rng = np.random.default_rng([ctx.seed, 24, int(ctx.x64)])
    key = jax.random.PRNGKey(int(rng.integers(2**31)))
    A = gen.make_scene(*gen.scene_arrays(rng, 3, 1, 2, plain=True))
    w, t, r = gen.scene_arrays(rng, 2, 2, 1, plain=True)
    B = gen.make_scene(w, t, r, objects=[G.RIS(xys=jnp.array(w[0])), G.Wall(xys=jnp.array(w[1])), G.Vertex(xy=jnp.array(w[0, 1]))])
    C = gen.make_scene(*gen.scene_arrays(rng, 2, 1, 1, plain=True))
    X, Y = map(jnp.array, map(gen.q, np.meshgrid(rng.random(3), rng.random(2))))
    x, y, z = (jnp.array(gen.q(rng.normal(size=4))) for _ in range(3))
    pts = jnp.array(gen.q(rng.normal(size=(4, 2))))
    geo = '{"type":"FeatureCollection","features":[{"type":"Feature","geometry":{"type":"Polygon","coordinates":[[[0,0],[1,0.2],[0.3,1]]]}}]}'
    jtot = jax.jit(lambda s: s.accumulate_over_paths(received_power, reduce_all=True, approx=False))

    def paths(s, **kw):
        return [(a, b, v, p, c) for a, b, v, p, c in s.all_paths(**kw)]

    def fun(tx, rx, p, objs, a=1.0):
        return a * p.length()

    def tanh(v, alpha):
        return 0.5 + 0.5 * jnp.tanh(alpha * v)

    def quartic(v, a):
        return jnp.sum((v - a) ** 4)

    def waves(v, a):
        return jnp.sum(jnp.cos(3 * v) + (v - a[:3]) ** 2)

    P = {
        "paths exact": lambda: paths(A, max_order=2, approx=False),
        "paths approx": lambda: paths(A, max_order=1, approx=True, alpha=50.0),
        "paths sigmoid": lambda: paths(A, max_order=1, approx=True, alpha=20.0, function=L.sigmoid),
        "paths hard_sigmoid": lambda: paths(A, max_order=1, approx=True, alpha=20.0, function=L.hard_sigmoid),
        "paths mixed objects": lambda: paths(B, max_order=1, approx=False, path_cls=G.Path),
        "paths filtered": lambda: paths(A, max_order=2, approx=False, filter_objects=lambda o: o.xys[0, 0] > 0.3),
        "paths order": lambda: paths(C, order=2, approx=False, patch=0.1, tol=0.02),
        "valid paths": lambda: [(a, b, p, c) for a, b, p, c in A.all_valid_paths(max_order=2, approx=False)],
        "sum": lambda: A.accumulate_over_paths(received_power, reduce_all=True, max_order=2, approx=False),
        "pairs": lambda: list(A.accumulate_over_paths(fun, fun_args=(2.0,), max_order=1, approx=True)),
        "receivers grid": lambda: list(C.accumulate_on_receivers_grid_over_paths(X, Y, received_power, approx=False, value_and_grad=True)),
        "transmitters grid": lambda: C.accumulate_on_transmitters_grid_over_paths(X, Y, fun, fun_kwargs={"a": 3.0}, reduce_all=True, approx=True, alpha=30.0),
        "fermat": lambda: paths(C, max_order=2, approx=False, path_cls=G.FermatPath, key=key, path_cls_kwargs={"steps": 15, "many": 2}),
        "minpath": lambda: paths(C, max_order=1, approx=False, path_cls=G.MinPath, key=key, path_cls_kwargs={"steps": 15}),
        "minimize": lambda: O.minimize(quartic, x, args=(y,), steps=7),
        "minimize many": lambda: O.minimize_many_random_uniform(waves, key, 3, args=(y,), steps=9, many=4),
        "candidates": lambda: A.all_path_candidates(min_order=1, max_order=3),
        "candidates filtered": lambda: A.all_path_candidates(max_order=2, filter_objects=lambda o: o.xys[1, 1] < 0.5),
        "random scene": lambda: Scene.random_uniform_scene(3, 2, 1, key=key),
        "scene edits": lambda: A.update_transmitters(new=A.receivers["rx_0"]).rename_receivers(rx_0="q").add_objects(*C.objects).filter_objects(lambda o: o.xys[0, 0] > 0.2),
        "scene geometry": lambda: (B.bounding_box(), B.grid(4, 3), B.center(), A.get_closest_receiver(x[:2]), A.get_object(1), A.stacked_objects()),
        "geojson": lambda: Scene.from_geojson(geo, "E", "SW"),
        "sample": lambda: [o.sample(key) for o in A.objects],
        "image": lambda: G.ImagePath.from_tx_objects_rx(x[:2], list(A.objects), y[:2]),
        "object methods": lambda: [(o.normal(), o.image_of(x[:2]), o.evaluate_cartesian(pts[:3]), o.intersects_cartesian(pts[:2], approx=True, alpha=3.0), o.rotate(0.3)) for o in (*A.objects, *B.objects[:1])],
        "vertices": lambda: [v for o in A.objects for v in o.get_vertices()],
        "comparisons": lambda: [f(x, y, approx=True, alpha=a, function=g) for f in (L.less, L.greater_equal) for a in (1.0, 10.0) for g in (L.sigmoid, L.hard_sigmoid)],
        "comparisons exact": lambda: [f(x, y, approx=False) for f in (L.less, L.greater, L.less_equal, L.greater_equal)],
        "activation": lambda: [L.activation(x, a, function=g) for a in (0.5, 7.0) for g in (L.sigmoid, L.hard_sigmoid, tanh)],
        "connectives": lambda: [(f(*(L.greater(v, 0.0, approx=ap) for v in (x, y)), approx=ap), g(*(L.less(v, 0.1, approx=ap) for v in (x, y, z)), approx=ap))
                                for f in (L.logical_and, L.logical_or) for g in (L.logical_all, L.logical_any) for ap in (True, False)],
        "power": lambda: [received_power(G.Point(xy=x[:2]), G.Point(xy=y[:2]), G.Path(xys=pts[:k]), [], r_coef=jnp.array(0.3), height=jnp.array(h)) for k in (2, 3, 4) for h in (0.1, 2.0)],
        "jitted total": lambda: [jtot(A), jtot(C)],
        "stack": lambda: (G.stack_leaves(list(A.objects)), G.unstack_leaves(A.stacked_objects())),
    }
    # calls that depend on the process-wide setting, for sequential histories only
    def scoped(flag, nested=False):
        # the setting is documented to be read at compilation: without jit it must be followed whatever was compiled before
        with jax.disable_jit(), L.enable_approx(flag):
            if nested:
                with L.enable_approx(not flag):
                    L.less(x, y)
            return [L.less(x, y), L.logical_any(L.greater(x, 0.0), L.less(y, 0.0)), C.accumulate_over_paths(received_power, reduce_all=True, max_order=1)]

    S = {"scoped approx": lambda: scoped(True), "scoped exact": lambda: scoped(False), "scoped nested": lambda: scoped(True, True)}
    return P, S, dict(A=A, B=B, C=C, X=X, Y=Y, x=x, y=y, pts=pts, key=key)


def noise(ctx, v, k):
    """Something else happening between two calls."""
    import jax
    import jax.numpy as jnp
    from differt2d import geometry as G, logic as L, optimize as O
    from differt2d.scene import Scene
    from differt2d.utils import received_power

    rng, A, C, x, y = ctx.rng, v["A"], v["C"], v["x"], v["y"]
    al = float(rng.choice([1.0, 3.0, 20.0, 77.0]))

    class Boom(Exception):
        pass

    def boom(*a, **kw):
        raise Boom

    def expect(f):
        ctx.ev("exceptions")
        try:
            f()
        except Exception:  # noqa: BLE001
            return
        ctx.ev("noise_did_not_raise")

    def scoped_failure():
        with L.enable_approx(bool(k % 2)):
            with L.enable_approx(not k % 2):
                boom()

    def abandon():
        ctx.ev("abandoned")
        g = A.all_paths(max_order=2, approx=bool(k % 2))
        for _ in range(int(rng.integers(1, 4))):
            next(g)
        g2 = A.accumulate_over_paths(received_power, approx=False)
        next(g2)

    things = [
        lambda: expect(lambda: list(A.accumulate_over_paths(boom, approx=False))),
        lambda: expect(lambda: C.accumulate_on_receivers_grid_over_paths(v["X"], v["Y"], boom, reduce_all=True, approx=False)),
        lambda: expect(lambda: A.all_path_candidates(max_order=2, filter_objects=boom)),
        lambda: expect(lambda: G.Wall(xys=jnp.zeros((3, 2)))),
        lambda: expect(lambda: list(C.all_paths(path_cls=G.MinPath, max_order=1, approx=False))),
        lambda: expect(lambda: A.get_location("nowhere")),
        lambda: expect(lambda: O.minimize(boom, x)),
        lambda: expect(lambda: Scene.from_geojson("{")),
        lambda: expect(scoped_failure),
        lambda: expect(lambda: A.transmitters["nobody"]),
        lambda: expect(lambda: L.less(x, jnp.zeros(3), approx=True)),
        abandon,
        abandon,
        lambda: list(A.all_paths(max_order=1, approx=True, alpha=al, function=[L.sigmoid, L.hard_sigmoid][k % 2])),
        lambda: list(A.with_receivers(z=A.receivers["rx_1"]).all_paths(max_order=k % 3, approx=False)),
        lambda: L.less(x[: 1 + k % 4], y[: 1 + k % 4], approx=True, alpha=al),
        lambda: L.activation(y, al, function=lambda u, a: 0.5 + a * u),
        lambda: received_power(G.Point(), G.Point(), G.Path(xys=v["pts"][: 2 + k % 3]), [], r_coef=0.9 / (1 + k % 2)),
        lambda: O.minimize(lambda u: jnp.sum(u**2) * al, x[: 1 + k % 4], steps=3),
        lambda: Scene.random_uniform_scene(n_walls=1 + k % 3, key=jax.random.PRNGKey(k)),
        lambda: [o.sample(jax.random.PRNGKey(k)) for o in A.objects],
        lambda: list(C.all_paths(path_cls=G.FermatPath, key=jax.random.PRNGKey(k), path_cls_kwargs={"steps": 2 + k % 2}, approx=False)),
        lambda: A.add_objects(*C.objects).accumulate_over_paths(received_power, reduce_all=True, approx=True, alpha=al),
        lambda: C.accumulate_on_receivers_grid_over_paths(v["X"].T, v["Y"].T, received_power, reduce_all=True, approx=bool(k % 2)),
    ]
    ctx.ev("noise")
    things[int(rng.integers(len(things)))]()


def observe(ctx, name, out, where):
    d = digest(out)
    if name in ctx.digests:
        ctx.ev("repeated")
        ctx.check(ctx.digests[name] == d, "result-depends-on-history" if where != "threads" else "result-depends-on-concurrency", call=name, where=where, first=ctx.digests[name], now=d,
                  value=str(out)[:400])
    else:
        ctx.digests[name] = d
        ctx.ev("across_processes")
    ctx.sig(name, where, d, ctx.index)
    return d


COMPILED = [0]


def setup(ctx):
    import jax

    def count(event, duration, **kw):
        COMPILED[0] += "compile" in event or "trace" in event

    jax.monitoring.register_event_duration_secs_listener(count)
    ctx.pool = pool(ctx)
    ctx.inputs = digest(ctx.pool[2])
    ctx.kept = []


def run_case(ctx, index):
    k = index // ctx.nshards if ctx.nshards > 1 else index // 4
    [history, history, threads, keys][k % 4](ctx, index)
    if k % 4 in (1, 3):
        churn(ctx, index)
        interleaved(ctx)
        aliases(ctx)
    ctx.check(digest(ctx.pool[2]) == ctx.inputs, "arguments-changed")
    for name, out, d in ctx.kept:
        ctx.ev("old_results")
        ctx.check(digest(out) == d, "earlier-result-changed", call=name)


def history(ctx, index):
    import jax
    from differt2d import logic

    P, S, v = ctx.pool
    rng = ctx.rng
    calls = {**P, **S}
    names = [str(n) for n in rng.permutation(sorted(calls))]
    before = logic.ENABLE_APPROX
    ctx.case_info = dict(history=[])
    for i, nm in enumerate(names):
        ctx.case_info["history"].append(nm)
        for _ in range(1 + (i % 5 == 0)):
            out = calls[nm]()
            ctx.ev("calls")
            d = observe(ctx, nm, out, "history")
        if len(ctx.kept) < 40 and rng.random() < 0.3:
            ctx.kept.append((nm, out, d))
        if rng.random() < 0.5:
            noise(ctx, v, int(rng.integers(1000)))
            ctx.check(logic.ENABLE_APPROX is before, "setting-left-changed", got=str(logic.ENABLE_APPROX))
            logic.ENABLE_APPROX = before
        if i == len(names) // 2 and index % 8 == 5:
            jax.clear_caches()
    # a second time, in another order: nothing compiles any more
    for nm in [str(n) for n in rng.permutation(sorted(calls))]:
        observe(ctx, nm, calls[nm](), "second pass")
        ctx.ev("calls")
    ctx.sample(dict(history=names[:10]))


class Delays:
    """Random short sleeps at the lines of the repository's functions, and the thread switches seen there."""

    def __init__(self, ctx, seed):
        self.ctx, self.rng, self.last, self.switches, self.delays, self.lines = ctx, np.random.default_rng(seed), None, 0, 0, 0
        self.u = self.rng.random(100003)

    def __enter__(self):
        import gc
        import types

        from lib import core

        m = sys.monitoring
        self.tool = 4
        m.use_tool_id(self.tool, "delays")
        root = core.REPO + "/differt2d/"
        self.codes = [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType) and f.__code__.co_filename.startswith(root)]
        for c in {id(c): c for c in self.codes}.values():
            m.set_local_events(self.tool, c, m.events.LINE | m.events.PY_START)
        m.register_callback(self.tool, m.events.LINE, self.line)
        m.register_callback(self.tool, m.events.PY_START, self.line)
        self.interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        return self

    def line(self, code, _):
        self.lines += 1
        me = threading.get_ident()
        if me != self.last:
            self.switches += 1
            self.last = me
        u = self.u[self.lines % 100003]
        if u < 0.03:
            self.delays += 1
            time.sleep(u * 0.03)
        elif u < 0.2:
            time.sleep(0)

    def __exit__(self, *exc):
        m = sys.monitoring
        sys.setswitchinterval(self.interval)
        for c in {id(c): c for c in self.codes}.values():
            m.set_local_events(self.tool, c, 0)
        m.register_callback(self.tool, m.events.LINE, None)
        m.register_callback(self.tool, m.events.PY_START, None)
        m.free_tool_id(self.tool)


def threads(ctx, index):
    P, _, v = ctx.pool
    rng = ctx.rng
    names = sorted(P)
    # JAX itself is not safe when several threads compile at once (tools/jax_compile_race.py shows it without this repository), so
    # only calls that have nothing left to trace or compile run concurrently.
    warm = []
    for nm in names:
        for _ in range(3):
            COMPILED[0] = 0
            observe(ctx, nm, P[nm](), "before threads")
            if COMPILED[0] == 0:
                warm.append(nm)
                break
    ctx.ev("warm_calls", len(warm))
    for _ in range(3):
        chosen = warm
        n = 6
        outs, errs = [], []
        barrier = threading.Barrier(n)
        orders = [[str(x) for x in (chosen if i % 3 == 0 else rng.permutation(chosen))] for i in range(n)]

        def work(i):
            try:
                barrier.wait(60)
                for nm in orders[i]:
                    outs.append((nm, P[nm]()))
            except Exception as e:  # noqa: BLE001
                errs.append((orders[i], e))

        ctx.case_info = dict(orders=orders)
        COMPILED[0] = 0
        with Delays(ctx, [ctx.seed, index, _]) as d:
            ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join(300)
        if any(t.is_alive() for t in ts):
            ctx.violate("threads-do-not-finish")
            ctx.state["stop"] = True
            return
        ctx.ev("threads", n)
        ctx.ev("compiled_in_threads", COMPILED[0])
        ctx.ev("thread_switches", d.switches)
        ctx.ev("delays", d.delays)
        ctx.ev("lines_observed", d.lines)
        if COMPILED[0]:
            continue  # something compiled after all: whatever happened may be JAX's doing
        for _, e in errs:
            raise e
        for nm, out in outs:
            ctx.ev("thread_calls")
            observe(ctx, nm, out, "threads")


def keys(ctx, index):
    """Keys given to each path, and the random starts they make."""
    import jax
    import jax.numpy as jnp
    from differt2d.geometry import FermatPath, ImagePath, MinPath, Path
    from differt2d.utils import received_power

    rng = ctx.rng
    seen = []

    class Recorder(Path):
        @classmethod
        def from_tx_objects_rx(cls, tx, objects, rx, *, key=None, **kw):
            seen.append(None if key is None else np.asarray(key).tobytes())
            return ImagePath.from_tx_objects_rx(tx, objects, rx)

    n, hi = int(rng.integers(1, 4)), 2
    walls, tx, rx = gen.scene_arrays(rng, n, 2, 2, plain=True)
    s = gen.make_scene(walls, tx, rx)
    X, Y = s.grid(2, 3)
    all_keys = set()
    for _ in range(3):
        key = ctx.key()
        ctx.case_info = dict(walls=walls, tx=tx, rx=rx, key=key)
        for what, f in (("all_paths", lambda k: list(s.all_paths(path_cls=Recorder, max_order=hi, key=k, approx=False))),
                        ("accumulate_over_paths", lambda k: s.accumulate_over_paths(received_power, path_cls=Recorder, reduce_all=True, max_order=hi, key=k, approx=False)),
                        ("receivers grid", lambda k: s.with_transmitters(t=list(s.transmitters.values())[0]).accumulate_on_receivers_grid_over_paths(X, Y, received_power, path_cls=Recorder, reduce_all=True, max_order=hi, key=k, approx=False)),
                        ("transmitters grid", lambda k: s.with_receivers(r=list(s.receivers.values())[0]).accumulate_on_transmitters_grid_over_paths(X, Y, received_power, path_cls=Recorder, reduce_all=True, max_order=hi, key=k, approx=False))):
            seen.clear()
            f(key)
            a = list(seen)
            ctx.ev("keys_seen", len(a))
            ctx.check(len(a) > 0 and None not in a, "key-not-given", of=what)
            ctx.check(len(set(a)) == len(a), "key-given-twice", of=what, keys=len(a), distinct=len(set(a)))
            ctx.check(np.asarray(key).tobytes() not in a, "key-reused", of=what)
            if what == "all_paths":
                ctx.check(not set(a) & all_keys, "key-shared-between-calls", of=what)
                all_keys |= set(a)
            seen.clear()
            f(key)
            ctx.check(list(seen) == a, "keys-not-determined", of=what)
            seen.clear()
            f(None)
            ctx.check(set(seen) <= {None} and len(seen) == len(a), "key-from-nowhere", of=what)
        # the image method ignores the key
        p0 = digest(list(s.all_paths(max_order=hi, approx=False)))
        p1 = digest(list(s.all_paths(max_order=hi, approx=False, key=key)))
        p2 = digest(list(s.all_paths(max_order=hi, approx=False, key=ctx.key(), path_cls=ImagePath)))
        ctx.ev("image_keys")
        ctx.check(p0 == p1 == p2, "key-changes-image-paths")
    # starts of the optimizers, observed before the first step
    one = gen.make_scene(np.array([[[0.0, 0.0], [1.0, 0.0]], [[0.0, 1.0], [1.0, 1.0]]]), [[0.2, 0.5], [0.7, 0.5]], [[0.4, 0.5], [0.9, 0.5]])
    X0 = ctx.state.setdefault("starts", [])
    for _ in range(4):
        for cls in (FermatPath, MinPath):
            st = []
            for a, b, _, p, c in one.all_paths(path_cls=cls, key=ctx.key(), path_cls_kwargs={"steps": 0}, max_order=2, approx=False):
                if len(c):
                    st += [float(v) for v in np.asarray(p.xys)[1:-1, 0]]
            ctx.ev("starts", len(st))
            ctx.case_info = dict(starts=st)
            ctx.check(len(set(st)) == len(st), "random-start-used-twice", of=cls.__name__, starts=st)
            ctx.check(all(0 <= v <= 1 for v in st), "start-out-of-range", starts=st)
            X0.append(st)


def words(kept, lo, hi):
    """Every sequence over the kept objects without immediate repetition, by length."""
    out, level = [], [()]
    for n in range(hi + 1):
        if n >= lo:
            out += level
        level = [(*w, i) for w in level for i in kept if not w or w[-1] != i]
    return sorted(out)


def churn(ctx, index):
    """Many short-lived scenes, filters and functions, freed at once so that addresses are used again; each result computed here as well."""
    import functools
    import gc

    import jax
    import jax.numpy as jnp
    from differt2d import geometry as G, optimize as O

    rng = ctx.rng

    class Keep:
        def __init__(self, c):
            self.c = c

        def __call__(self, o):
            return o.xys[0, 0] > self.c

        def method(self, o):
            return o.xys[0, 0] > self.c

    def free(c, o):
        return o.xys[0, 0] > c

    lasting = Keep(0.0)
    scenes = []
    for n in (1, 2, 3, 4, 5, 7, 8, 9, 11):
        for _ in range(2):
            walls, tx, rx = gen.scene_arrays(rng, n, 1, 1, plain=True)
            scenes.append((walls, tx, rx, gen.make_scene(walls, tx, rx)))
    ctx.case_info = dict(scenes=[x[0] for x in scenes])
    for r in range(10):
        for i in [int(j) for j in rng.permutation(len(scenes))]:
            walls, tx, rx, s = scenes[i]
            n = len(walls)
            x0 = np.asarray(walls)[:, 0, 0]
            c = float(gen.q(rng.choice([-1e9, *x0, *(x0 - 0.01)])))
            kept = [j for j in range(n) if np.asarray(s.objects[j].xys)[0, 0] > c]
            lasting.c = c
            hi = 2 if n < 6 else 1
            kind = int(rng.integers(6))
            # not bound to a name: gone when the call returns
            if kind == 0:
                got = s.all_path_candidates(max_order=hi, filter_objects=lambda o: o.xys[0, 0] > c)
            elif kind == 1:
                got = s.all_path_candidates(max_order=hi, filter_objects=functools.partial(free, c))
            elif kind == 2:
                got = s.all_path_candidates(max_order=hi, filter_objects=Keep(c))
            elif kind == 3:
                got = s.all_path_candidates(max_order=hi, filter_objects=Keep(c).method)
            elif kind == 4:
                got = s.all_path_candidates(max_order=hi, filter_objects=lasting)
            else:
                got = s.filter_objects(lambda o: o.xys[0, 0] > c).all_path_candidates(max_order=hi)
                kept = list(range(len(kept)))
            ctx.ev("short_lived_filters")
            got = sorted(tuple(int(v) for v in np.asarray(w)) for w in got)
            ctx.check(got == words(kept, 0, hi), "stale-filter", kind=kind, n=n, round=r, threshold=c, got=got[:20], expected=words(kept, 0, hi)[:20])
    # short-lived scenes of one size, short-lived functions
    for r in range(40):
        n = int(rng.integers(1, 4))
        walls, tx, rx = gen.scene_arrays(rng, n, 1, 1, plain=True)
        s = gen.make_scene(walls, tx, rx)
        T, R = np.asarray(s.transmitters["tx_0"].xy), np.asarray(s.receivers["rx_0"].xy)
        W = np.stack([np.asarray(o.xys) for o in s.objects])
        ctx.case_info = dict(walls=walls, tx=tx, rx=rx)
        allp = np.concatenate([W.reshape(-1, 2), [T], [R]])
        box = np.asarray(s.bounding_box())
        ctx.check(np.array_equal(box, [allp.min(0), allp.max(0)]), "stale-bounding-box", got=box)
        st = s.stacked_objects()
        ctx.check(np.array_equal(np.asarray(st.xys), W), "stale-stacked-objects")
        j = int(rng.integers(n))
        ctx.check(np.array_equal(np.asarray(s.get_object(j).xys), W[j]), "stale-object")
        c = float(rng.integers(1, 9))
        got = s.accumulate_over_paths(lambda a, b, p, o: jnp.array(c), reduce_all=True, order=0, approx=False) if r % 2 else None
        nval = sum(1 for _ in s.all_valid_paths(order=0, approx=False))
        if got is not None:
            ctx.check(float(got) == c * nval, "stale-function", got=float(got), expected=c * nval)
        # the line of sight runs from this scene's transmitter to this scene's receiver
        for _, _, _, p, _ in s.all_paths(order=0, approx=False):
            ctx.check(np.array_equal(np.asarray(p.xys), [T, R]), "stale-path", got=np.asarray(p.xys))
        ctx.ev("short_lived_scenes")
        del s, st
        if r % 10 == 0:
            gc.collect()
    for r in range(6):
        a = jnp.array(gen.q(rng.normal(size=3)))
        c = float(rng.integers(-5, 6))
        k = 1 + r % 2
        x, l = O.minimize(lambda v: jnp.sum((v - a) ** 2) * k + c, a, steps=3)
        ctx.case_info = dict(a=np.asarray(a), c=c, k=k)
        ctx.check(np.array_equal(np.asarray(x), np.asarray(a)) and float(l) == c, "stale-objective", got=[np.asarray(x), float(l)])
        ctx.ev("short_lived_objectives")


def interleaved(ctx):
    """Several iterators consumed in turns give what each gives alone."""
    from differt2d import geometry as G
    from differt2d.utils import received_power

    rng, v = ctx.rng, ctx.pool[2]
    A, B, C, X, Y, key = (v[k] for k in "A B C X Y key".split())
    lo = float(np.median([np.asarray(o.xys)[0, 0] for o in A.objects]))
    D = A.rename_receivers(rx_0="other").with_objects(*A.objects[::-1])
    its = {
        "A<=1": lambda: A.all_paths(max_order=1, approx=False),
        "A<=0": lambda: A.all_paths(max_order=0, approx=False),
        "A=2": lambda: A.all_paths(order=2, approx=False),
        "A filtered": lambda: A.all_paths(max_order=2, approx=False, filter_objects=lambda o: o.xys[0, 0] <= lo),
        "A fuzzy": lambda: A.all_paths(max_order=1, approx=True, alpha=50.0),
        "D<=1": lambda: D.all_paths(max_order=1, approx=False),
        "B": lambda: B.all_paths(max_order=1, approx=False, path_cls=G.Path),
        "A valid": lambda: A.all_valid_paths(max_order=2, approx=False),
        "A sums": lambda: A.accumulate_over_paths(received_power, max_order=1, approx=False),
        "D sums": lambda: D.accumulate_over_paths(received_power, max_order=2, approx=False, fun_kwargs={"r_coef": 0.3}),
        "B sums": lambda: B.accumulate_over_paths(received_power, max_order=0, approx=False),
        "C grid": lambda: C.accumulate_on_receivers_grid_over_paths(X, Y, received_power, approx=False),
        "A grid": lambda: A.accumulate_on_transmitters_grid_over_paths(X, Y, received_power, max_order=0, approx=False),
        "A pairs": lambda: A.all_transmitter_receiver_pairs(),
        "D pairs": lambda: D.all_transmitter_receiver_pairs(),
        "C keyed": lambda: C.all_paths(max_order=1, approx=False, path_cls=G.MinPath, key=key, path_cls_kwargs={"steps": 4}),
    }
    alone = {k: [digest(x) for x in f()] for k, f in its.items()}
    for r in range(6):
        names = [str(n) for n in rng.choice(sorted(its), int(rng.integers(2, 6)), replace=r % 2 == 1)]
        live = [(n, iter(its[n]()), []) for n in names]
        todo, steps = list(range(len(live))), []
        while todo:
            j = int(rng.choice(todo))
            steps.append(names[j])
            try:
                live[j][2].append(digest(next(live[j][1])))
            except StopIteration:
                todo.remove(j)
        ctx.case_info = dict(iterators=names, steps=steps)
        for n, _, got in live:
            ctx.ev("interleaved")
            ctx.check(got == alone[n], "iterator-disturbed-by-another", of=n, items=len(got), expected=len(alone[n]))


def aliases(ctx):
    """Changing a list that was returned, or a mapping that was given, afterwards does not change later results."""
    import jax
    import jax.numpy as jnp
    import matplotlib.pyplot as plt
    from differt2d import geometry as G
    from differt2d.scene import Scene

    rng, v = ctx.rng, ctx.pool[2]
    A, B, C = v["A"], v["B"], v["C"]
    ctx.case_info = {}
    lists = {
        "candidates": lambda: A.all_path_candidates(max_order=2),
        "candidates of 0": lambda: C.all_path_candidates(max_order=0),
        "candidates filtered": lambda: A.all_path_candidates(max_order=1, filter_objects=lambda o: o.xys[0, 0] > 0.3),
        "interacting": lambda: A.get_interacting_objects(jnp.array([1, 0])),
        "interacting mixed": lambda: B.get_interacting_objects(jnp.array([0, 2])),
        "unstacked": lambda: G.unstack_leaves(A.stacked_objects()),
    }
    for nm, f in lists.items():
        first = f()
        d = digest(first)
        for how in ("clear", "reverse", "append", "pop"):
            x = f()
            if isinstance(x, list):
                {"clear": x.clear, "reverse": x.reverse, "append": lambda: x.append(jnp.array([7])), "pop": lambda: x and x.pop()}[how]()
            ctx.ev("aliases")
            ctx.check(digest(f()) == d, "returned-list-is-shared", of=nm, how=how)
            ctx.check(digest(first) == d, "returned-list-is-shared", of=nm, how=how)
    P = [G.Point(xy=jnp.array(gen.q(rng.random(2)))) for _ in range(4)]
    tx, rx, objs = {"a": P[0], "b": P[1]}, {"c": P[2]}, list(A.objects)
    s = Scene(transmitters=tx, receivers=rx, objects=tuple(objs))
    e = s.with_transmitters(**tx).update_receivers(**rx).with_objects(*objs)
    ks, de = (list(s.transmitters), list(s.receivers)), (digest(s), digest(e))
    tx["z"], tx["a"] = P[3], P[3]
    del tx["b"]
    rx.clear()
    objs.reverse()
    objs.append(G.Vertex())
    ctx.ev("aliases")
    ctx.check((list(s.transmitters), list(s.receivers)) == ks and (digest(s), digest(e)) == de, "scene-shares-its-arguments")
    # NumPy arrays can be changed in place after they were given
    a = np.array(gen.q(rng.random((2, 2))), np.float32)
    b = a.copy()
    w, pt, sc = G.Wall(xys=jnp.array(a)), G.Point(xy=jnp.array(a[0])), Scene.from_walls_array(jnp.array(a[None]))
    a[:] = 77.0
    ctx.ev("aliases")
    ctx.check(np.array_equal(w.xys, b) and np.array_equal(pt.xy, b[0]) and np.array_equal(sc.objects[0].xys, b[None][0]), "array-shared")
    kw = {"steps": 3}
    fk, pk = {"r_coef": jnp.array(0.5)}, dict(kw)
    from differt2d.utils import received_power

    list(C.accumulate_over_paths(received_power, fun_kwargs=fk, path_cls=G.MinPath, path_cls_kwargs=pk, key=jax.random.PRNGKey(1), approx=False))
    C.accumulate_on_receivers_grid_over_paths(v["X"], v["Y"], received_power, fun_kwargs=fk, path_cls=G.FermatPath, path_cls_kwargs=pk, key=jax.random.PRNGKey(1), approx=False, reduce_all=True)
    tk, ok, rk = {"marker": "x"}, {"alpha": 0.5}, {}
    ax = plt.figure().gca()
    A.plot(ax, transmitters_kwargs=tk, objects_kwargs=ok, receivers_kwargs=rk)
    plt.close("all")
    ctx.ev("aliases")
    ctx.check(pk == kw and set(fk) == {"r_coef"} and (tk, ok, rk) == ({"marker": "x"}, {"alpha": 0.5}, {}), "given-mapping-changed", got=[pk, list(fk), tk, ok, rk])


def finish(ctx):
    x = np.array(ctx.state.get("starts", []))
    if x.size >= 400:
        ctx.case_info, ctx.index = {}, None
        v = np.sort(x.ravel())
        d = np.abs(v - (np.arange(len(v)) + 0.5) / len(v)).max() * np.sqrt(len(v))
        ctx.check(d < 3.2, "starts-not-uniform", distance=d, n=len(v))
