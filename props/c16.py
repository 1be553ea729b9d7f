"""Minimizers: update log, matching loss, best of independent starts."""

import math

import numpy as np

from lib import gen

ID = "C16"
N = {"quick": {"f32": 144, "x64": 144}, "thorough": {"f32": 4000, "x64": 4000}}
SHARDS = {"f32": 4, "x64": 4}
MIN = {"quick": {"trajectories": 130, "loss_matches": 450, "counted_steps": 150, "starts_logged": 100, "best_of_many": 60, "start_tests": 100,
                 "forwarded": 60, "zero_steps": 15, "no_unknowns": 16, "path_runs": 40, "evaluations_logged": 400, "reads_unknowns": 16, "one_unknown": 8, "path_starts": 60}}
RULE = """Random smooth objectives of 1-6 unknowns (or a scalar, or none) with 0-2 extra arguments, 0-100 steps, eleven
optimizers, some reading the unknowns (weight decay) and three that count their calls; compared with an independent Python loop and with the log of evaluated points;
distinct = (objective, start, steps, optimizer) runs."""
ASSUMES = ["trajectories agree up to accumulated rounding on well-conditioned objectives",
           "start laws are tested by Kolmogorov-Smirnov distance at significance below one in a million"]


def counter(k):
    """Optimizer adding 1 to every unknown (k=0), the number of earlier updates (k=1), or doubling the unknowns (k=2)."""
    import jax
    import jax.numpy as jnp
    import optax

    def init(p):
        return jnp.zeros((), jnp.int32)

    def update(g, s, p=None):
        u = jnp.ones_like(g) if k == 0 else jnp.ones_like(g) * s if k == 1 else p
        return u, s + 1

    del jax
    return optax.GradientTransformation(init, update)


def setup(ctx):
    import jax
    import jax.numpy as jnp
    import optax

    S = ctx.state
    S["opt"] = [None, optax.adam(0.1), optax.sgd(0.05), optax.sgd(0.03, momentum=0.7), optax.adam(0.01), optax.chain(optax.clip(0.5), optax.adam(0.05)),
                optax.adamw(0.05, weight_decay=0.3), optax.chain(optax.add_decayed_weights(0.5), optax.sgd(0.04))]
    S["cnt"] = [counter(0), counter(1), counter(2)]

    def quad(x):
        return jnp.sum((x - 0.7) ** 2) + 0.3 * jnp.sum(jnp.cos(x))

    def quad1(x, a):
        return jnp.sum(jnp.log1p((x - a) ** 2)) + 0.1 * jnp.sum(x) ** 2

    def quad2(x, a, b):
        return jnp.sum(b * (x - a) ** 2) + 0.2 * jnp.sum(jnp.sin(2 * x))

    S["funs"] = [quad, quad1, quad2]
    log = S["log"] = []

    def logged(x, a, off):
        jax.debug.callback(lambda v: log.append(np.array(v)), x)
        return jnp.sum((x - a) ** 2 * (1 + jnp.arange(x.shape[0]))) - off

    S["logged"] = logged
    S["first"] = lambda x: x[0]
    from differt2d.optimize import minimize_many_random_uniform, minimize_random_uniform

    S["rnd"] = {}
    for m in (None, 1, 3, 10, -1):
        def one(key, m=m):
            if m == -1:
                return minimize_random_uniform(lambda x: x[0] + 0.5 * x[1], key, 3, steps=0)
            kw = {} if m is None else {"many": m}
            return minimize_many_random_uniform(S["first"], key, 3, steps=0, **kw)

        S["rnd"][m] = jax.jit(jax.vmap(one))


def near(ctx, a, b, k):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.abs(a - b).max(initial=0.0) <= k * ctx.eps * (1 + np.abs(b).max(initial=0.0))


def run_case(ctx, index):
    [single, single, counts, single, many, single, starts, paths][index % 8](ctx, index)


def single(ctx, index):
    """minimize versus an independent loop."""
    import jax
    import jax.numpy as jnp
    import optax
    from differt2d.optimize import minimize, minimize_many_random_uniform, minimize_random_uniform

    rng, S = ctx.rng, ctx.state
    j = index // 8
    na = j % 3
    n = [3, None, 1, 6, 0][j % 5]
    steps = [100, 0, 1, 7, 23, None][(j + index) % 6]
    oi = (j + index // 3) % 8
    f, opt = S["funs"][na], S["opt"][oi]
    args = tuple(jnp.array(gen.q(rng.uniform(0.2, 2))) for _ in range(na))
    x0 = jnp.array(gen.q(rng.normal(size=() if n is None else n)))
    ctx.case_info = dict(fun=na, n=n, steps=steps, optimizer=oi, x0=x0, args=args)
    kw = {} if steps is None else {"steps": steps}
    if opt is not None:
        kw["optimizer"] = opt
    if na:
        kw["args"] = args
    x, y = minimize(f, x0, **kw)
    ctx.check(np.shape(x) == np.shape(x0) and np.shape(y) == (), "shape", x=np.shape(x), y=np.shape(y))
    ctx.ev("loss_matches")
    ctx.check(near(ctx, y, f(x, *args), 64), "loss-is-not-that-of-the-solution", got=y, want=f(x, *args), x=x)
    if steps == 0:
        ctx.ev("zero_steps")
        ctx.check((np.asarray(x) == np.asarray(x0)).all(), "zero-steps-moved")
    ref = opt or optax.adam(0.1)
    step = S.setdefault(("step", na, oi), jax.jit(lambda x, s, a: (lambda u, s2: (x + u, s2))(*ref.update(jax.grad(f)(x, *a), s, x))))
    z, st = x0, ref.init(x0)
    for _ in range(100 if steps is None else steps):
        z, st = step(z, st, args)
    ctx.ev("trajectories")
    ctx.ev("no_unknowns", n == 0)
    ctx.sig(na, n, steps, oi, np.asarray(x0).tobytes())
    ctx.check(near(ctx, x, z, 2e4) if not ctx.x64 else near(ctx, x, z, 1e8), "not-the-documented-updates", got=x, want=z)
    ctx.sample(dict(fun=na, steps=steps, optimizer=oi, x0=x0, x=x, loss=y))
    # the random variants: the start of the key, then exactly minimize
    if n:
        key = ctx.key()
        kw.pop("args", None)
        kw2 = dict(kw, args=args) if na else kw
        s0, _ = minimize_random_uniform(f, key, n, **dict(kw2, steps=0))
        ctx.check(np.asarray(s0).shape == (n,) and (np.asarray(s0) >= 0).all() and (np.asarray(s0) < 1).all(), "start-outside-the-unit-cube", got=s0)
        want = minimize(f, s0, **kw2)
        ctx.ev("forwarded")
        for nm, got in (("minimize_random_uniform", minimize_random_uniform(f, key, n, **kw2)),
                        ("minimize_many_random_uniform(many=1)", minimize_many_random_uniform(f, key, n, many=1, **kw2))):
            if "many" in nm:  # its start may be derived differently from the key: compare through its own start
                s1, _ = minimize_many_random_uniform(f, key, n, many=1, **dict(kw2, steps=0))
                want = minimize(f, s1, **kw2)
            ctx.ev("loss_matches")
            ctx.check(near(ctx, got[0], want[0], 2e4 if not ctx.x64 else 1e8), "random-start-run-differs-from-minimize", of=nm, got=got, want=want)
            ctx.check(near(ctx, got[1], f(got[0], *args), 64), "loss-is-not-that-of-the-solution", of=nm, got=got)


def counts(ctx, index):
    """Optimizers that count their own calls, through the three entry points."""
    import jax.numpy as jnp
    from differt2d.optimize import minimize, minimize_many_random_uniform, minimize_random_uniform

    rng, S = ctx.rng, ctx.state
    key = ctx.key()
    a = jnp.array(gen.q(rng.uniform(0, 3)))
    for kind in (0, 1):
        steps = [0, 1, 2, 5, 17, None][(index // 8 + kind) % 6]
        k = 100 if steps is None else steps
        move = k if kind == 0 else k * (k - 1) // 2
        kw = dict(args=(a,), optimizer=S["cnt"][kind])
        if steps is not None:
            kw["steps"] = steps
        ctx.case_info = dict(kind=kind, steps=steps, a=a)
        x0 = jnp.array(gen.q(rng.random(2)))
        x, y = minimize(S["funs"][1], x0, **kw)
        ctx.ev("counted_steps")
        ctx.check(np.abs(np.asarray(x) - np.asarray(x0) - move).max() <= 8 * ctx.eps * (1 + move) * (1 + k), "number-of-updates", got=np.asarray(x) - np.asarray(x0), want=move)
        ctx.ev("loss_matches")
        ctx.check(near(ctx, y, S["funs"][1](x, a), 64), "loss-is-not-that-of-the-solution", got=y, want=S["funs"][1](x, a))
        for nm, r in (("minimize_random_uniform", minimize_random_uniform(S["funs"][1], key, 2, **kw)),
                      ("minimize_many_random_uniform", minimize_many_random_uniform(S["funs"][1], key, 2, many=4, **kw))):
            ctx.ev("counted_steps")
            u = np.asarray(r[0]) - move
            e = 8 * ctx.eps * (1 + move) * (1 + k)
            ctx.check((u >= -e).all() and (u < 1 + e).all(), "number-of-updates", of=nm, got=r[0], want=f"start + {move}")
            ctx.ev("loss_matches")
            ctx.check(near(ctx, r[1], S["funs"][1](r[0], a), 64), "loss-is-not-that-of-the-solution", of=nm, got=r)
        ctx.sig("count", kind, steps, float(a))
    # an optimizer that reads the unknowns, as those with weight decay do
    steps = [0, 1, 4, 9][(index // 8) % 4]
    x0 = jnp.array(gen.q(0.1 + rng.random(2)))
    ctx.case_info = dict(kind=2, steps=steps, x0=x0)
    kw = dict(args=(a,), optimizer=S["cnt"][2], steps=steps)
    x, y = minimize(S["funs"][1], x0, **kw)
    ctx.ev("counted_steps")
    ctx.ev("reads_unknowns")
    ctx.check(near(ctx, x, np.asarray(x0, float) * 2.0**steps, 16), "optimizer-does-not-see-the-unknowns", got=x, x0=x0, steps=steps)
    s0, _ = minimize_many_random_uniform(S["funs"][1], key, 2, many=1, **dict(kw, steps=0))
    x, y = minimize_many_random_uniform(S["funs"][1], key, 2, many=1, **kw)
    ctx.check(near(ctx, x, np.asarray(s0, float) * 2.0**steps, 16), "optimizer-does-not-see-the-unknowns", of="minimize_many_random_uniform", got=x, x0=s0, steps=steps)


def distinct(p):
    tol = 1e-4 if p.shape[1] > 1 else 3e-6  # a single unknown collides by chance more easily
    out = []
    for x in p:
        if not any(np.abs(x - q).max() < tol for q in out):
            out.append(x)
    return np.array(out).reshape(-1, p.shape[1])


def many(ctx, index):
    """Every evaluated point is logged: many starts, best of the final solutions."""
    import jax
    import jax.numpy as jnp
    from differt2d.optimize import minimize_many_random_uniform

    rng, S = ctx.rng, ctx.state
    r = index // 8
    many_of(ctx, [2, 5, None, 16, 3, 4, 33][r % 7], [3, 2, 6][(r + r // 7) % 3], r)
    many_of(ctx, [2, 3, 5, None, 4][r % 5], 1, r)
    # with a real optimizer, more starts from a multimodal objective never lose to the returned loss of any own start
    g = S.setdefault("multi", lambda x: jnp.sum(jnp.cos(9 * x) + x * x))
    k = ctx.key()
    x1, y1 = minimize_many_random_uniform(g, k, 2, many=8, steps=20)
    ctx.ev("best_of_many")
    ctx.check(near(ctx, y1, g(x1), 256), "loss-is-not-that-of-the-solution", got=y1, want=g(x1))


def many_of(ctx, m, n, r):
    """m starts (None: the default), n unknowns."""
    import jax
    import jax.numpy as jnp
    from differt2d.optimize import minimize_many_random_uniform

    rng, S = ctx.rng, ctx.state
    steps = [0, 3, 1, 0, 2][(r + r // 5) % 5]
    mm = 10 if m is None else m
    kw = {} if m is None else {"many": m}
    a = jnp.array(gen.q(steps + rng.random(n)))
    off = float(gen.q(rng.choice([0.0, 0.5, 1.5, 30.0, -5.0])))  # the objective may take any sign
    S["log"].clear()
    x, y = minimize_many_random_uniform(S["logged"], ctx.key(), n, args=(a, jnp.array(off)), steps=steps, optimizer=S["cnt"][0], **kw)
    jax.block_until_ready((x, y))
    jax.effects_barrier()
    pts = np.array(S["log"], float)
    pts = pts.reshape(-1, n)
    ctx.case_info = dict(unknowns=n, many=m, steps=steps, a=a)
    ctx.ev("evaluations_logged", len(pts))
    f = lambda p: (np.square(np.asarray(p, float) - np.asarray(a, float)) * np.arange(1, n + 1)).sum(-1) - off
    fin = pts[(pts >= steps - 1e-5).all(1) & (pts < steps + 1 + 1e-5).all(1)]
    fin = distinct(fin)
    ctx.ev("starts_logged", len(fin))
    ctx.check(len(fin) == mm, "number-of-independent-starts", got=len(fin), want=mm)
    if steps:
        st = distinct(pts[(pts < 1).all(1)])
        ctx.check(len(st) == mm, "number-of-independent-starts", got=len(st), want=mm, of="first evaluations")
    ctx.ev("best_of_many")
    ctx.ev("one_unknown", n == 1)
    if len(fin):
        b = f(fin).min()
        ctx.check(abs(f(x) - b) <= 1e-3 * (1 + abs(b)), "not-the-best-of-the-solutions", got=f(x), best=b, losses=f(fin))
    ctx.ev("loss_matches")
    ctx.check(near(ctx, y, f(x), 64), "loss-is-not-that-of-the-solution", got=y, want=f(x))
    ctx.sig("many", m, n, steps, np.asarray(a).tobytes())


def ks(u):
    n = len(u)
    u = np.sort(u)
    return max((np.arange(1, n + 1) / n - u).max(), (u - np.arange(n) / n).max()) * math.sqrt(n)


def starts(ctx, index):
    """Law of the starts: uniform, independent, as many as asked for."""
    import jax

    n = 4096
    for m in (-1, None, 1, 3, 10):
        key = ctx.key()
        keys = jax.random.split(key, n)
        x, y = ctx.state["rnd"][m](keys)
        x, y = np.asarray(x, float), np.asarray(y, float)
        k = 10 if m is None else abs(m)
        ctx.case_info = dict(many=m)
        ctx.ev("start_tests")
        ctx.check(x.min() >= 0 and x.max() < 1, "start-outside-the-unit-cube", lo=x.min(), hi=x.max())
        v = ks(1 - (1 - x[:, 0]) ** k)
        ctx.check(v < 3.0, "law-of-the-best-start", many=m, ks=v)
        v = max(ks(x[:, 1]), ks(x[:, 2]))
        ctx.check(v < 3.0, "start-not-uniform", many=m, ks=v)
        c = np.abs(np.corrcoef(x.T) - np.eye(3)).max() * math.sqrt(n)
        ctx.check(c < 6, "start-components-dependent", many=m, z=c)
        c = abs(np.corrcoef(x[:-1, 1], x[1:, 1])[0, 1]) * math.sqrt(n)
        ctx.check(c < 6, "starts-of-different-keys-dependent", many=m, z=c)
        x2, _ = ctx.state["rnd"][m](keys)
        ctx.check((np.asarray(x2, float) == x).all(), "start-not-determined-by-the-key", many=m)
        ctx.sig("starts", m, x[0].tobytes())


def paths(ctx, index):
    """The optimizer-based paths forward steps, optimizer and many."""
    import jax.numpy as jnp
    from differt2d.geometry import FermatPath, MinPath, Wall

    rng, S = ctx.rng, ctx.state
    cls = [FermatPath, MinPath][(index // 8) % 2]
    order = 1 + (index // 16) % 2
    w, t, r = gen.scene_arrays(rng, order, 1, 1, kind="uniform", plain=True)
    steps = [0, 3][(index // 8) % 2 ^ (index // 32) % 2]
    for m in (None, 1, 5):
        kw = dict(steps=steps, optimizer=S["cnt"][0], key=ctx.key())
        if m:
            kw["many"] = m
        p = cls.from_tx_objects_rx(jnp.array(t[0]), [Wall(xys=jnp.array(x)) for x in w], jnp.array(r[0]), **kw)
        ctx.case_info = dict(cls=cls.__name__, walls=w, steps=steps, many=m)
        xy = np.asarray(p.xys, float)[1:-1]
        for k in range(order):
            d = w[k, 1] - w[k, 0]
            u = float((xy[k] - w[k, 0]) @ d / (d @ d)) - steps
            e = 64 * ctx.eps * (1 + steps) * (1 + np.abs(w[k]).max() / np.hypot(*d))
            ctx.ev("path_runs")
            ctx.check(-e <= u <= 1 + e, "path-ignores-steps-or-optimizer", got=u, steps=steps)
        ctx.sig("path", cls.__name__, steps, m, w.tobytes())
    path_starts(ctx, cls, [1, 4, None, 2, 9, 16][(index // 8) % 6], [0, 2, 1][(index // 16) % 3])


def plane(log):
    """An object filling the plane (two parameters), which logs the parameters it is asked about."""
    import jax
    import jax.numpy as jnp
    from differt2d.geometry import Wall

    class Plane(Wall):
        @staticmethod
        def parameters_count():
            return 2

        def parametric_to_cartesian(self, param_coords):
            jax.debug.callback(lambda v: log.append(np.array(v)), param_coords)
            return self.xys[0] + param_coords * (self.xys[1] - self.xys[0])

        def evaluate_cartesian(self, ray_path):
            return jnp.sum((ray_path[1] - self.xys[1]) ** 2) + 0.1

    return Plane


def path_starts(ctx, cls, m, steps):
    """As many independent starts as asked for (one by default), of which the best."""
    import jax
    import jax.numpy as jnp
    from differt2d.geometry import FermatPath

    rng, S = ctx.rng, ctx.state
    log = S.setdefault("plane_log", [])
    if "plane" not in S:
        S["plane"] = plane(log)
    t, r, x = gen.q(rng.normal(size=2)), gen.q(rng.normal(size=2) + 2), np.stack([gen.q(rng.normal(size=2)), gen.q(rng.normal(size=2) + 3)])
    log.clear()
    kw = {} if m is None else {"many": m}
    ctx.case_info = dict(cls=cls.__name__, many=m, steps=steps, tx=t, rx=r, plane=x)
    p = cls.from_tx_objects_rx(jnp.array(t), [S["plane"](xys=jnp.array(x))], jnp.array(r), key=ctx.key(), steps=steps, optimizer=S["cnt"][0], **kw)
    jax.block_until_ready(p.xys)
    jax.effects_barrier()
    pts = np.array(log, float).reshape(-1, 2)
    fin = distinct(pts[(pts >= steps - 1e-5).all(1) & (pts < steps + 1 + 1e-5).all(1)])
    ctx.ev("path_starts", len(fin))
    ctx.check(len(fin) == (m or 1), "number-of-independent-starts", of=cls.__name__, got=len(fin), want=m or 1)
    xy = x[0] + fin * (x[1] - x[0])
    f = (lambda q: np.hypot(*(q - t).T) + np.hypot(*(q - r).T)) if cls is FermatPath else (lambda q: ((q - x[1]) ** 2).sum(-1) + 0.1)
    if len(fin):
        b, g = f(xy).min(), f(np.asarray(p.xys, float)[1:2])[0]
        ctx.check(abs(g - b) <= 1e-3 * (1 + abs(b)), "not-the-best-of-the-solutions", of=cls.__name__, got=g, losses=f(xy))
    ctx.sig("starts", cls.__name__, m, steps, x.tobytes())
