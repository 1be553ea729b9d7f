"""Candidate enumeration versus brute-force enumeration."""

from collections import Counter

import numpy as np

from lib import custom, gen, ref

ID = "C03"
N = {"quick": 1000, "thorough": 12000}
SHARDS = {"f32": 8}
MIN = {"quick": {"candidates_seen": 5000, "filtered_calls": 60, "mixed_scenes": 40, "mixed_structures": 40, "interacting_lists": 300, "other_truth_values": 40}}
RULE = """Random (object count 0..9, order range 0..6 bounded by 1500 sequences, filter) triples, walls only, mixing
Wall/RIS/Vertex, or user-defined walls of one class with other names, shapes or precisions; distinct = different (count, order range, filter set, call form) with at least one candidate of order
>= 2 or an active filter."""


def make_objects(rng, n, mixed):
    import jax.numpy as jnp
    from differt2d.geometry import RIS, Vertex, Wall

    objs = []
    for i in range(n):
        if mixed == 2:  # one class, but another structure: name, shape or precision
            xys = jnp.array(rng.random((2, 2)), [jnp.float32, jnp.float16][int(rng.random() < 0.2)])
            objs.append(custom.named_wall()(xys=xys, name=f"w{rng.integers(3)}") if n % 2 else custom.extra_wall()(xys=xys, extra=jnp.array(rng.random(int(rng.integers(1, 4))))))
            continue
        k = rng.integers(3) if mixed else 0
        xys = jnp.array(rng.random((2, 2)))
        objs.append([Wall(xys=xys), RIS(xys=xys, phi=jnp.array(rng.random())), Vertex(xy=xys[0])][k])
    return objs


def run_case(ctx, index):
    import jax.numpy as jnp
    from differt2d.geometry import Point
    from differt2d.scene import Scene, all_path_candidates

    rng = ctx.rng
    mixed = [0, 0, 0, 1, 1, 2][int(rng.integers(6))]
    n = int(rng.integers(0, 10))
    cap = 400 if not ctx.thorough else 3000
    lo = int(rng.integers(0, 4))
    hi = lo + int(rng.integers(0, 4))
    while ref.count_candidates(n, lo, hi) > cap:
        hi -= 1
        if hi < lo:
            lo = hi
    objs = make_objects(rng, n, mixed)
    scene = Scene(objects=objs)
    if rng.random() < 0.5:
        scene = scene.with_transmitters(tx=Point(xy=jnp.zeros(2))).with_receivers(rx=Point(xy=jnp.ones(2)))
    objs = list(scene.objects)
    kw = dict(min_order=lo, max_order=hi)
    form = rng.integers(4)
    if form == 0:
        kw = dict(order=hi)
        lo = hi
    elif form == 1 and ref.count_candidates(n, 0, hi) <= cap:
        kw = dict(max_order=hi)
        lo = 0
    elif form == 2 and n and ref.count_candidates(n, 0, 1) <= cap:
        kw, lo, hi = {}, 0, 1
    elif form == 3:
        o = int(rng.integers(lo, hi + 1))
        kw = dict(min_order=lo, max_order=hi, order=o)  # order takes precedence
        lo = hi = o
    allowed, by_position = None, None
    if rng.random() < 0.5:
        r = rng.random()
        if r < 0.6:
            keep = rng.random(n) < rng.choice([0.3, 0.7])
        elif r < 0.7:
            keep = np.zeros(n, bool)
        elif r < 0.8:
            keep = np.ones(n, bool)
        elif r < 0.9:
            cut = rng.random()
            px = lambda o: float(o.xy[0] if isinstance(o, Point) else o.xys[0, 0])  # noqa: E731
            keep = np.array([px(o) < cut for o in objs], bool)
            by_position = cut
            ctx.ev("position_filters")
        else:
            ty = type(objs[rng.integers(n)]) if n else object
            keep = np.array([type(o) is ty for o in objs], bool)
        allowed = {i for i in range(n) if keep[i]}
        ctx.ev("filtered_calls")
    ctx.case_info = dict(n=n, kw=kw, allowed=allowed and sorted(allowed), mixed=mixed, types=[type(o).__name__ for o in objs])
    direct = bool(rng.random() < 0.3)
    if direct:
        fn = None if allowed is None else tuple(i for i in range(n) if i not in allowed)
        out = all_path_candidates(n, filter_nodes=fn, **kw)
    else:
        if allowed is not None:
            keep_it = (lambda o: px(o) < by_position) if by_position is not None else lambda o: any(o is objs[i] for i in allowed)
            # truth values come in many types
            form = [bool, bool, np.bool_, jnp.array, int, lambda b: "yes" if b else "", lambda b: [1] if b else None][int(rng.integers(7))]
            ctx.ev("other_truth_values", form is not bool)
            kw["filter_objects"] = lambda o: form(keep_it(o))
        out = scene.all_path_candidates(**kw)
    ctx.ev("mixed_scenes", mixed == 1)
    ctx.ev("mixed_structures", mixed == 2)
    got = []
    for c in out:
        a = np.asarray(c)
        ctx.ev("candidates_seen")
        if not ctx.check(a.ndim == 1 and np.issubdtype(a.dtype, np.integer), "candidate-not-an-integer-vector",
                         dtype=str(a.dtype), shape=a.shape):
            return
        got.append(tuple(int(i) for i in a))
    want = ref.candidates(n, lo, hi, allowed)
    cg, cw = Counter(got), Counter(want)
    ctx.check(not (cw - cg), "candidate-lost", lost=list((cw - cg))[:6], n=n, lo=lo, hi=hi)
    ctx.check(not (cg - cw), "candidate-unexpected-or-duplicated", extra=list((cg - cw))[:6], n=n, lo=lo, hi=hi)
    ctx.check([len(g) for g in got] == sorted(len(g) for g in got), "orders-not-grouped-in-increasing-order",
              lens=[len(g) for g in got][:60])
    if hi >= 2 or allowed is not None:
        ctx.sig(n, lo, hi, sorted(allowed) if allowed is not None else None, direct)
    if n == 5 and hi == 2:
        ctx.sample(dict(n=n, lo=lo, hi=hi, first=got[:8], total=len(got)))
    # interacting objects
    pick = list(rng.permutation(len(out)))[: 4 if n else 1]
    for k in pick:
        inter = scene.get_interacting_objects(out[k])
        ctx.ev("interacting_lists")
        if not ctx.check(len(inter) == len(got[k]), "interacting-objects-count", cand=got[k], count=len(inter)):
            continue
        for i, o in zip(got[k], inter):
            w = objs[i]
            same = type(o) is type(w)
            if same:
                for f in ("xy", "xys", "phi", "extra"):
                    if hasattr(w, f):
                        same = same and np.array_equal(np.asarray(getattr(o, f)), np.asarray(getattr(w, f)))
                same = same and getattr(o, "name", None) == getattr(w, "name", None)
            ctx.check(same, "wrong-interacting-object", cand=got[k], i=i, got=repr(o), want=repr(w))
