"""Random operation histories on scenes versus a model of two ordered dicts and a list."""

import numpy as np

from lib import gen

ID = "C19"
N = {"quick": {"f32": 240, "x64": 120}, "thorough": {"f32": 4000, "x64": 2000}}
SHARDS = {"f32": 4, "x64": 4}
MIN = {"quick": {"operations": 4000, "states_compared": 4000, "old_states_intact": 6000, "mapping_reads": 4000, "immutable": 500, "arguments_intact": 300,
                 "op_with_transmitters": 150, "op_update_receivers": 150, "op_rename_transmitters": 150, "op_rename_receivers": 150, "op_filter_objects": 150,
                 "op_add_objects": 150, "op_with_objects": 150, "op_construct": 150, "renames_swapped": 40, "replaced_in_place": 200, "filter_calls": 600}}
RULE = """Branching histories of 24 operations (any operation on any earlier scene) with unicode and colliding-looking names, mixed
object types, sub-classed scenes and points; after each, the new state and earlier states are compared with the model, bit by bit;
distinct = states reached."""
ASSUMES = ["renames that would give two nodes the same name are not generated (their meaning is not documented)"]
NAMES = ["tx", "rx", "a", "b", "B2", "été", "名", "_x", "TX", "tx_0", "tx_1", "", "with space", "0", "objects", "key"]


def setup(ctx):
    from differt2d.geometry import Point
    from differt2d.scene import Scene

    class MyScene(Scene):
        pass

    class Antenna(Point):
        gain: float = 1.5

    ctx.state.update(MyScene=MyScene, Antenna=Antenna)


def fp_obj(o):
    import jax

    lv, td = jax.tree_util.tree_flatten(o)
    return (type(o).__name__, tuple((np.asarray(v).dtype.str, np.asarray(v).shape, np.asarray(v).tobytes()) for v in lv))


def fp(scene):
    return (type(scene).__name__, [(k, fp_obj(v)) for k, v in scene.transmitters.items()], [(k, fp_obj(v)) for k, v in scene.receivers.items()],
            [fp_obj(o) for o in scene.objects])


def fp_model(m):
    return (m["cls"], [(k, fp_obj(v)) for k, v in m["tx"].items()], [(k, fp_obj(v)) for k, v in m["rx"].items()], [fp_obj(o) for o in m["objs"]])


def run_case(ctx, index):
    import dataclasses

    import jax.numpy as jnp
    from differt2d.geometry import RIS, Point, Ray, Vertex, Wall
    from differt2d.scene import PyTreeDict, Scene

    rng, S = ctx.rng, ctx.state

    def point():
        p = jnp.array(gen.q(rng.normal(size=2)))
        r = rng.random()
        return Point(xy=p) if r < 0.7 else Vertex(xy=p) if r < 0.85 else S["Antenna"](xy=p)

    def obj():
        r = rng.random()
        x = jnp.array(gen.q(rng.normal(size=(2, 2))))
        return Wall(xys=x) if r < 0.5 else RIS(xys=x, phi=jnp.array(gen.q(rng.normal()))) if r < 0.75 else Vertex(xy=x[0])

    def nodes(lo=0, hi=4):
        return {str(k): point() for k in rng.choice(NAMES, int(rng.integers(lo, hi)), replace=False)}

    def construct():
        cls = Scene if rng.random() < 0.7 else S["MyScene"]
        tx, rx, objs = nodes(), nodes(), [obj() for _ in range(rng.integers(0, 4))]
        r = rng.random()
        if r < 0.1:
            return cls(), dict(cls=cls.__name__, tx={}, rx={}, objs=[])
        if r < 0.2:
            a = np.asarray(gen.q(rng.normal(size=(int(rng.integers(1, 4)), 2, 2))))
            return Scene.from_walls_array(jnp.array(a)), dict(cls="Scene", tx={}, rx={}, objs=[Wall(xys=jnp.array(w)) for w in a])
        if r < 0.5:
            m = PyTreeDict.from_mapping(tx)
            out = cls(transmitters=m, receivers=rx, objects=tuple(objs))
            ctx.check(list(m.items()) == list(tx.items()) or [k for k in m] == list(tx), "argument-mapping-changed")
        else:
            t2, r2 = dict(tx), dict(rx)
            out = cls(transmitters=t2, receivers=r2, objects=objs)
            ctx.ev("arguments_intact")
            ctx.check(list(t2) == list(tx) and list(r2) == list(rx) and all(t2[k] is tx[k] for k in tx), "argument-mapping-changed")
            before = fp(out)
            t2["later"] = point()  # the caller's mapping changes afterwards
            r2.clear()
            ctx.check(fp(out) == before, "scene-follows-changes-of-the-argument")
        return out, dict(cls=cls.__name__, tx=tx, rx=rx, objs=objs)

    scene, model = construct()
    pool = [(scene, model, fp_model(model))]
    ctx.ev("op_construct")
    log = []
    for step in range(24):
        scene, model, want0 = pool[rng.integers(len(pool))] if rng.random() < 0.35 else pool[-1]
        op = ["with_transmitters", "with_receivers", "update_transmitters", "update_receivers", "rename_transmitters", "rename_receivers",
              "with_objects", "add_objects", "filter_objects", "construct", "update_transmitters", "add_objects"][rng.integers(12)]
        new = dict(model, tx=dict(model["tx"]), rx=dict(model["rx"]), objs=list(model["objs"]))
        side = "tx" if "transmitters" in op else "rx"
        if op == "construct":
            out, new = construct()
            arg = None
        elif op.startswith("with_") and op != "with_objects":
            arg = nodes()
            out, new[side] = getattr(scene, op)(**arg), dict(arg)
        elif op.startswith("update_"):
            arg = nodes()
            if model[side] and rng.random() < 0.6:
                k = list(model[side])[rng.integers(len(model[side]))]
                arg[k] = point()
                ctx.ev("replaced_in_place")
            out = getattr(scene, op)(**arg)
            new[side].update(arg)
        elif op.startswith("rename_"):
            cur = list(model[side])
            free = [n for n in NAMES if n not in cur]
            arg = {}
            r = rng.random()
            if len(cur) >= 2 and r < 0.35:  # swap or rotate names: no collision in the result
                k = int(rng.integers(2, len(cur) + 1))
                sub = [str(x) for x in rng.choice(cur, k, replace=False)]
                arg = {a: b for a, b in zip(sub, sub[1:] + sub[:1])}
                ctx.ev("renames_swapped")
            else:
                for a in cur:
                    if rng.random() < 0.5 and free:
                        arg[a] = free.pop(int(rng.integers(len(free))))
                if free and rng.random() < 0.3:
                    arg[free[0]] = "ghost"  # not a node of the scene
            out = getattr(scene, op)(**arg)
            new[side] = {arg.get(a, a): p for a, p in model[side].items()}
        elif op == "with_objects":
            arg = [obj() for _ in range(rng.integers(0, 4))]
            out, new["objs"] = scene.with_objects(*arg), list(arg)
        elif op == "add_objects":
            arg = [obj() for _ in range(rng.integers(0, 3))]
            if model["objs"] and rng.random() < 0.2:
                arg.append(model["objs"][0])  # the same object twice
            out = scene.add_objects(*arg)
            new["objs"] = new["objs"] + arg
        else:
            seen = []
            kind = rng.integers(4)
            x0 = float(rng.normal())
            base = [lambda o: True, lambda o: False, lambda o: type(o) is Wall,
                    lambda o: float((o.xy if isinstance(o, Point) else o.xys).ravel()[0]) > x0][kind]

            def spec(o, base=base, seen=seen):
                seen.append(fp_obj(o))
                return base(o)

            arg = int(kind)
            out = scene.filter_objects(spec)
            new["objs"] = [o for o in model["objs"] if base(o)]
            ctx.ev("filter_calls", len(seen))
            ctx.check(set(seen) >= {fp_obj(o) for o in model["objs"]}, "filter-not-called-on-the-objects")
        log.append(dict(op=op, arg=sorted(arg) if isinstance(arg, dict) else str(arg)[:80]))
        ctx.case_info = dict(history=log[-8:], step=step)
        ctx.ev("operations")
        ctx.ev("op_" + op)
        if op != "construct":
            new["cls"] = model["cls"]
        want, got = fp_model(new), fp(out)
        ctx.ev("states_compared")
        for i, part in enumerate(("class", "transmitters", "receivers", "objects")):
            ctx.check(got[i] == want[i], f"{op}-wrong-{part}", got=repr(got[i])[:500], want=repr(want[i])[:500])
        if not all(g == w for g, w in zip(got, want)):
            return
        ctx.check(out is not scene, "not-a-new-scene", op=op)
        for k in {len(pool) - 1, int(rng.integers(len(pool)))} | ({0} if step % 8 == 0 else set()):
            ctx.ev("old_states_intact")
            ctx.check(fp(pool[k][0]) == pool[k][2], "earlier-scene-changed", op=op, scene=k)
        ctx.ev("old_states_intact")
        ctx.check(fp(scene) == want0, "receiver-of-the-call-changed", op=op)
        mappings(ctx, out, new, rng, point, dataclasses)
        pairs = [(a, b, fp_obj(p), fp_obj(q)) for (a, p), (b, q) in out.all_transmitter_receiver_pairs()]
        ctx.check(pairs == [(a, b, fp_obj(p), fp_obj(q)) for a, p in new["tx"].items() for b, q in new["rx"].items()], "pairs-of-the-scene", op=op)
        ctx.sig(repr(got))
        pool.append((out, new, want))
    for s, _, w in pool:
        ctx.ev("old_states_intact")
        ctx.check(fp(s) == w, "earlier-scene-changed", op="end of history")
    ctx.sample(dict(history=log, final=dict(tx=list(new["tx"]), rx=list(new["rx"]), objects=[type(o).__name__ for o in new["objs"]])))
    del Ray


def mappings(ctx, scene, model, rng, point, dataclasses):
    from collections.abc import Mapping

    for d, m in ((scene.transmitters, model["tx"]), (scene.receivers, model["rx"])):
        ctx.ev("mapping_reads")
        ok = (isinstance(d, Mapping) and len(d) == len(m) and list(d) == list(m) and list(d.keys()) == list(m) and
              [k for k, _ in d.items()] == list(m) and [fp_obj(v) for v in d.values()] == [fp_obj(v) for v in m.values()])
        ctx.check(ok, "mapping-protocol", keys=list(d), want=list(m))
        for k in m:
            ctx.check(k in d and fp_obj(d[k]) == fp_obj(m[k]) and d.get(k) is not None, "mapping-lookup", key=k)
        miss = [n for n in NAMES if n not in m][0]
        try:
            d[miss]
            ctx.check(False, "missing-name-found", key=miss)
        except KeyError:
            pass
        ctx.check(miss not in d and d.get(miss) is None, "missing-name-found", key=miss)
        if rng.random() < 0.15:
            before = fp(scene)
            for nm, f in (("setitem", lambda: d.__setitem__("zz", point())), ("delitem", lambda: d.__delitem__(next(iter(m), "zz"))),
                          ("setattr", lambda: setattr(scene, "transmitters", {})), ("setattr-objects", lambda: setattr(scene, "objects", ()))):
                ctx.ev("immutable")
                try:
                    f()
                    ctx.check(False, "mutable", how=nm)
                except (TypeError, AttributeError, dataclasses.FrozenInstanceError):
                    pass
            ctx.check(fp(scene) == before, "scene-changed-by-a-refused-mutation")
