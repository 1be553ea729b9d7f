"""Scene factories against their documented geometry, and random scenes against a uniform law."""

import numpy as np

from lib import gen

ID = "C26"
N = {"quick": {"f32": 160, "x64": 160}, "thorough": {"f32": 4000, "x64": 4000}}
SHARDS = {"f32": 4, "x64": 4}
MIN = {"quick": {"rooms": 1500, "with_wall": 300, "with_obstacle": 300, "from_name": 2000, "default_nodes": 200, "random_scenes": 1000, "random_points": 8000, "empty_kind": 200,
                 "same_key": 300, "walls_arrays": 400, "no_walls": 20, "zero_length_rows": 100, "statistics": 8}}
RULE = """Every factory over random ratios (0 to 1.5, and exact ends), coordinates of every array type, through the constructor and through from_scene_name; random scenes over
counts 0 to 9 and keys, their pooled coordinates against the uniform law (Kolmogorov distance, correlations) at 6 sigma; distinct = (factory, parameters)."""
ASSUMES = ["walls are compared as undirected segments in any order, except for from_walls_array", "independence is judged by correlations and absence of repeated points"]
ROOM = [((0, 0), (1, 0)), ((1, 0), (1, 1)), ((1, 1), (0, 1)), ((0, 1), (0, 0))]
INNER = [((0.4, 0), (0.4, 0.4)), ((0.4, 0.4), (0.3, 0.4)), ((0.1, 0.4), (0, 0.4))]
DEFAULTS = {"basic_scene": ((0.1, 0.1), (0.302, 0.2147)), "square_scene": ((0.2, 0.2), (0.5, 0.6)), "square_scene_with_wall": ((0.2, 0.5), (0.8, 0.5)),
            "square_scene_with_obstacle": ((0.2, 0.2), (0.5, 0.6))}


def walls_of(name, ratio):
    if name == "basic_scene":
        return ROOM + INNER
    if name == "square_scene":
        return list(ROOM)
    a, b = 0.5 - ratio / 2, 0.5 + ratio / 2
    if name == "square_scene_with_wall":
        return ROOM + [((0.5, a), (0.5, b))]
    return ROOM + [((a, a), (b, a)), ((b, a), (b, b)), ((b, b), (a, b)), ((a, b), (a, a))]


def same_walls(ctx, objs, want, what):
    from differt2d.geometry import Wall

    if not ctx.check(len(objs) == len(want) and all(type(o) is Wall for o in objs), "wrong-walls", of=what, got=[o for o in objs]):
        return
    got = [np.asarray(o.xys, float) for o in objs]
    left = list(range(len(got)))
    for w in np.asarray(want, float):
        hit = next((i for i in left if np.abs(got[i] - w).max() <= 8 * ctx.eps or np.abs(got[i][::-1] - w).max() <= 8 * ctx.eps), None)
        if ctx.check(hit is not None, "wrong-walls", of=what, missing=w, got=got):
            left.remove(hit)


def node(ctx, nodes, name, want, what):
    from differt2d.geometry import Point

    if ctx.check(list(nodes) == [name] and type(nodes[name]) is Point, "wrong-nodes", of=what, got=list(nodes)):
        got = np.asarray(nodes[name].xy)
        ctx.check(got.shape == (2,) and got.dtype == (np.float64 if ctx.x64 else np.float32) and np.abs(got - np.asarray(want, float)).max() <= 2 * ctx.eps * max(1, np.abs(want).max()),
                  "node-misplaced", of=what, node=name, got=got, want=want)


def run_case(ctx, index):
    [rooms, random_scenes][index % 2](ctx, index // 2)


def rooms(ctx, k):
    import jax.numpy as jnp
    from differt2d.scene import Scene

    rng = ctx.rng
    for name in DEFAULTS:
        for j in range(4):
            ratio = float(rng.choice([0.0, 0.1, 0.5, 0.6, 1.0, rng.random(), rng.random(), 1.5 * rng.random()]))
            tx, rx = gen.q(rng.uniform(-1, 2, 2)), gen.q(rng.uniform(-1, 2, 2))
            kw, want_r, (wt, wr) = {}, {"square_scene_with_wall": 0.6, "square_scene_with_obstacle": 0.1}.get(name, 0.0), DEFAULTS[name]
            conv = [jnp.array, np.asarray, lambda x: tuple(map(float, x)), list][(k + j) % 4]
            if rng.random() < 0.75:
                kw["tx_coords"], wt = conv(tx), tx
            if rng.random() < 0.75:
                kw["rx_coords"], wr = conv(rx), rx
            if "with" in name and rng.random() < 0.8:
                kw["ratio"], want_r = (jnp.array(ratio) if name.endswith("obstacle") and j % 2 else ratio), ratio
            ctx.case_info = dict(name=name, ratio=kw.get("ratio"), tx=kw.get("tx_coords"), rx=kw.get("rx_coords"))
            ctx.sig(name, want_r, tuple(wt), tuple(wr))
            ctx.ev("rooms")
            ctx.ev("with_wall", name.endswith("wall"))
            ctx.ev("with_obstacle", name.endswith("obstacle"))
            ctx.ev("default_nodes", len(kw) < 2)
            scenes = [(getattr(Scene, name)(**kw), "constructor"), (Scene.from_scene_name(name, **kw), "from_scene_name")]
            if "ratio" in kw:
                k2 = dict(kw)
                r = k2.pop("ratio")
                scenes += [(getattr(Scene, name)(r, **k2), "positional"), (Scene.from_scene_name(name, r, **k2), "from_scene_name positional")]
            elif "tx_coords" in kw and "with" not in name:
                k2 = dict(kw)
                t = k2.pop("tx_coords")
                scenes += [(getattr(Scene, name)(t, **k2), "positional"), (Scene.from_scene_name(name, t, **k2), "from_scene_name positional")]
            for s, how in scenes:
                ctx.ev("from_name", "name" in how)
                what = f"{name} ({how})"
                node(ctx, s.transmitters, "tx", wt, what)
                node(ctx, s.receivers, "rx", wr, what)
                same_walls(ctx, list(s.objects), walls_of(name, want_r), what)
            a, b = scenes[0][0], scenes[1][0]
            ctx.check([np.asarray(o.xys).tolist() for o in a.objects] == [np.asarray(o.xys).tolist() for o in b.objects], "from_scene_name-differs", of=name)
    # one wall per row
    for j in range(3):
        n = [0, 1, 2, 5, 11, 30][(k + j) % 6]
        w = gen.q(rng.normal(size=(n, 2, 2)) * 10.0 ** rng.integers(-3, 4))
        for i in range(n):  # rows that coincide, are reversed, shared, collapsed or at zero
            u, other = rng.random(), int(rng.integers(0, n))
            if u < 0.1:
                w[i] = w[other]
            elif u < 0.2:
                w[i] = w[other][::-1]
            elif u < 0.3:
                w[i, 1] = w[i, 0]
                ctx.ev("zero_length_rows")
            elif u < 0.35:
                w[i] = 0.0
            elif u < 0.45:
                w[i, 0] = w[i - 1, 1]
        ctx.case_info = dict(walls=w)
        s = Scene.from_walls_array(jnp.array(w))
        ctx.ev("walls_arrays")
        ctx.ev("no_walls", n == 0)
        from differt2d.geometry import Wall
        ctx.check(type(s) is Scene and len(s.transmitters) == 0 and len(s.receivers) == 0 and len(s.objects) == n and all(type(o) is Wall for o in s.objects), "from_walls_array", got=str(s)[:300])
        ctx.check(all((np.asarray(o.xys, float) == x).all() for o, x in zip(s.objects, w)), "from_walls_array-order", got=[o.xys for o in s.objects], want=w)
        ctx.sig("walls", w.tobytes())
    ctx.sample(dict(name=name, ratio=want_r))


def points(s):
    tx = [np.asarray(s.transmitters[n].xy, float) for n in s.transmitters]
    rx = [np.asarray(s.receivers[n].xy, float) for n in s.receivers]
    ob = [np.asarray(o.xys, float) for o in s.objects]
    return tx, rx, ob


def random_scenes(ctx, k):
    import jax
    from differt2d.geometry import Point, Wall
    from differt2d.scene import Scene

    rng = ctx.rng
    pool = ctx.state.setdefault("pool", [])
    seen = ctx.state.setdefault("seen", set())
    for j in range(8):
        nt, nw, nr = [int(v) for v in rng.choice([0, 1, 1, 2, 3, 5, 9], 3)]
        key = ctx.key()
        ctx.case_info = dict(n_transmitters=nt, n_walls=nw, n_receivers=nr, key=key)
        if j == 0:
            s, (nt, nw, nr) = Scene.random_uniform_scene(key=key), (1, 1, 1)
        elif j % 2:
            s = Scene.random_uniform_scene(nt, nw, nr, key=key)
        else:
            s = Scene.random_uniform_scene(n_receivers=nr, key=key, n_walls=nw, n_transmitters=nt)
        ctx.ev("random_scenes")
        ctx.ev("empty_kind", 0 in (nt, nw, nr))
        ctx.sig(nt, nw, nr, np.asarray(key).tobytes())
        ctx.check(list(s.transmitters) == [f"tx_{i}" for i in range(nt)] and list(s.receivers) == [f"rx_{i}" for i in range(nr)] and len(s.objects) == nw, "wrong-counts",
                  tx=list(s.transmitters), rx=list(s.receivers), walls=len(s.objects))
        ctx.check(all(type(v) is Point for v in [*s.transmitters.values(), *s.receivers.values()]) and all(type(o) is Wall for o in s.objects), "wrong-types")
        tx, rx, ob = points(s)
        flat = [*tx, *rx, *[p for w in ob for p in w]]
        if not flat:
            continue
        flat = np.array(flat)
        ctx.ev("random_points", len(flat))
        ctx.check((flat >= 0).all() and (flat < 1).all(), "outside-unit-square", points=flat)
        ctx.check(len({p.tobytes() for p in flat}) == len(flat), "point-used-twice", points=flat)
        if nt + nr + 2 * nw > 1 or j:
            ids = {p.tobytes() for p in flat}
            ctx.check(not ids & seen, "points-shared-by-different-keys", points=flat)
            seen |= ids
        again = Scene.random_uniform_scene(nt, nw, nr, key=key)
        ctx.ev("same_key")
        ctx.check(np.array_equal(np.array([*points(again)[0], *points(again)[1], *[p for w in points(again)[2] for p in w]]), flat), "not-determined-by-the-key")
        # successive roles, so that correlations between roles can be seen
        for role, ps in (("tx", tx), ("rx", rx), ("wall", [p for w in ob for p in w])):
            for p in ps:
                pool.append(p)
        prs = ctx.state.setdefault("pairs", {})
        for nm, a, b in [("tx-rx", tx, rx), ("wall-ends", [w[0] for w in ob], [w[1] for w in ob]), ("tx-wall", tx, [w[0] for w in ob]), ("rx-wall", rx, [w[1] for w in ob]),
                         ("tx-tx", tx[:-1], tx[1:]), ("wall-wall", [w[0] for w in ob[:-1]], [w[0] for w in ob[1:]])]:
            for p, q in zip(a, b):
                prs.setdefault(nm, []).append([*p, *q])


def finish(ctx):
    x = np.array(ctx.state.get("pool", []))
    if len(x) < 500:
        return
    ctx.case_info = dict(points=len(x))
    ctx.index = None
    n = len(x)
    for c in range(2):
        v = np.sort(x[:, c])
        d = np.abs(v - (np.arange(n) + 0.5) / n).max()
        ctx.check(d * np.sqrt(n) < 3.2, "not-uniform", axis=c, distance=d, points=n)  # P < 3e-9
    ctx.check(abs(np.corrcoef(x.T)[0, 1]) * np.sqrt(n) < 6, "x-y-correlated", r=np.corrcoef(x.T)[0, 1])
    for nm, v in ctx.state["pairs"].items():
        if len(v) >= 100:
            r = np.corrcoef(np.array(v).T)[:2, 2:]
            ctx.ev("statistics")
            ctx.check(np.abs(r).max() * np.sqrt(len(v)) < 6.5, "points-correlated", pair=nm, r=r, n=len(v))
