"""Metamorphic monitor: the same problem seen through physical symmetries."""

import math

import numpy as np

from lib import fuzzy, gen, ref, tracing

ID = "C15"
N = {"quick": {"f32": 96, "x64": 96}, "thorough": {"f32": 2400, "x64": 2400}}
SHARDS = {"f32": 4, "x64": 4}
MIN = {"quick": {"compared": 4000, "compared_valid": 250, "compared_valid_reflections": 60, "approx_compared": 3000, "approx_between": 60,
                 "sums_compared": 150, "kind_exchange": 60, "kind_translate": 60, "kind_rotate": 60, "kind_mirror": 60, "kind_scale": 60,
                 "kind_reverse": 60, "kind_permute": 60, "kind_nodes": 30, "fermat": 20, "patched": 40}}
RULE = """Scenes of 0-9 walls with dyadic coordinates, so that every symmetry applied is exact in floating point; each compared
under a single symmetry and under a random composition of several; distinct = (scene, symmetry, candidate) with a decided
verdict."""
ASSUMES = ["candidates whose verdict is within rounding error of a boundary in one of the two scenes are not compared"]
KINDS = ["exchange", "translate", "rotate", "mirror", "scale", "reverse", "permute", "nodes"]
TOL = 1e-2


def symmetry(rng, kinds, n):
    """Returns point map, scale, wall map and candidate map."""
    A, b, s = np.eye(2), np.zeros(2), 1.0
    if "rotate" in kinds:
        A = np.linalg.matrix_power(np.array([[0.0, -1.0], [1.0, 0.0]]), int(rng.integers(1, 4))) @ A
    if "mirror" in kinds:
        A = [np.diag([-1.0, 1.0]), np.diag([1.0, -1.0]), np.array([[0.0, 1.0], [1.0, 0.0]])][rng.integers(3)] @ A
    if "scale" in kinds:
        s = float(rng.choice([0.125, 0.5, 2.0, 3.0, 16.0, 10.0]))
    if "translate" in kinds:
        b = rng.integers(-40, 41, 2) / 8.0
    perm = rng.permutation(n) if "permute" in kinds else np.arange(n)  # new position of old index
    rev = rng.random(n) < 0.6 if "reverse" in kinds else np.zeros(n, bool)
    f = lambda p: (np.asarray(p) @ A.T) * s + b
    return f, s, perm, rev


def rows(ctx, walls, tx, rx, lo, hi, akw):
    scene = gen.make_scene(walls, [p for _, p in tx], [p for _, p in rx], [k for k, _ in tx], [k for k, _ in rx])
    out = {}
    for tk, rk, v, path, cand in scene.all_paths(min_order=lo, max_order=hi, approx=False, patch=akw["patch"]):
        c = tuple(int(i) for i in np.asarray(cand))
        av = path.is_valid(scene.objects, cand, scene.get_interacting_objects(cand), approx=True, **akw) if akw else None
        out[tk, rk, c] = (bool(v), None if av is None else float(av), np.asarray(path.xys, float), float(path.length()), float(path.loss))
    return scene, out


def run_case(ctx, index):
    import jax.numpy as jnp
    from differt2d.utils import received_power

    rng = ctx.rng
    n, lo, hi = tracing.POOL[index % 8]
    if n > 5:
        hi = min(hi, 1)
    if n == 2:
        hi = 3
    if (index // 8) % 4 == 3 and ctx.x64:
        fermat(ctx, index)
        return
    for _ in range(20):
        w, t, r = gen.scene_arrays(rng, n, 1, 1, plain=True)
        dy = lambda a: np.round(np.asarray(a) * 4096) / 4096
        walls, tp, rp = dy(w), dy(t[0]), dy(r[0])
        if rng.random() < 0.6 and n:
            l, h = walls.reshape(-1, 2).min(0), walls.reshape(-1, 2).max(0)
            tp, rp = dy(l + (h - l) * rng.random(2)), dy(l + (h - l) * rng.random(2))
        if not n or np.hypot(*(walls[:, 1] - walls[:, 0]).T).min() > 1e-3:
            break
    tx, rx = [("tx", tp)], [("rx", rp)]
    two = index % 3 == 0
    if two:
        tx, rx = tx + [("tx2", dy(rng.random(2)))], rx + [("b", dy(rng.random(2)))]
    patch = float(rng.choice([0.0, 0.0, 0.0, 0.0625, 0.25, -0.0625]))
    akw = {"alpha": jnp.array(float(rng.choice([5.0, 20.0, 100.0]))), "patch": jnp.array(patch)}
    ctx.ev("patched", patch != 0)
    alpha = float(akw["alpha"])
    s0, base = rows(ctx, walls, tx, rx, lo, hi, akw)
    height = 0.125
    robjs = tracing.ref_objs(walls)
    for k in range(2):
        if k == 0:
            kinds = [KINDS[(index + ctx.shard + index // 8) % 8]]
        else:
            kinds = list(rng.choice(KINDS, int(rng.integers(2, 6)), replace=False))
        f, s, perm, rev = symmetry(rng, kinds, n)
        w2 = np.array([f(w) for w in walls]).reshape(-1, 2, 2)
        w2[rev] = w2[rev][:, ::-1]
        w2 = w2[np.argsort(perm)] if n else w2  # w2[perm[i]] is the image of wall i
        tx2, rx2 = [(a, f(p)) for a, p in tx], [(a, f(p)) for a, p in rx]
        swap = "exchange" in kinds
        if swap:
            tx2, rx2 = rx2, tx2
        if "nodes" in kinds:
            tx2, rx2 = tx2[::-1], rx2[::-1]
        ctx.case_info = dict(walls=walls, tx=tx, rx=rx, kinds=kinds, walls2=w2, tx2=tx2, rx2=rx2, lo=lo, hi=hi, alpha=alpha)
        s1, img = rows(ctx, w2, tx2, rx2, lo, hi, akw)
        for nm in kinds:
            ctx.ev("kind_" + nm)

        def key2(a, b, c):
            c = tuple(int(perm[i]) for i in c)
            return (b, a, c[::-1]) if swap else (a, b, c)

        ctx.check({key2(*q) for q in base} == set(img), "set-of-candidates-changed", lost=sorted({key2(*q) for q in base} - set(img))[:4],
                  new=sorted(set(img) - {key2(*q) for q in base})[:4])
        robjs2 = tracing.ref_objs(w2)
        total, err, all_ok = 0.0, 0.0, True
        tpos, rpos = dict(tx), dict(rx)
        tpos2, rpos2 = dict(tx2), dict(rx2)
        for q, (v, av, pts, ln, loss) in base.items():
            q2 = key2(*q)
            if q2 not in img:
                continue
            v2, av2, pts2, ln2, loss2 = img[q2]
            d1, p1, e1 = ref.path_verdict(walls, robjs, q[2], tpos[q[0]], rpos[q[1]], 4 * ctx.eps, rng, patch)
            d2, p2, e2 = ref.path_verdict(w2, robjs2, q2[2], tpos2[q2[0]], rpos2[q2[1]], 4 * ctx.eps, rng, patch)
            if d1 is None or d2 is None:
                ctx.ev("undecided")
                all_ok = False
                continue
            ctx.ev("compared")
            ctx.ev("compared_valid", v)
            ctx.ev("compared_valid_reflections", v and len(q[2]) > 0)
            ctx.sig(walls.tobytes(), tuple(kinds), q)
            ctx.check(v == v2, "validity-not-invariant", path=q, image=q2, original=v, transformed=v2, points=pts)
            if pts2.shape != pts.shape:
                ctx.check(False, "number-of-points-not-invariant", path=q)
                continue
            want = f(pts[::-1] if swap else pts)
            e1s = (e1[::-1] if swap else e1) * s
            bound = 8 * (e1s + e2) + 64 * ctx.eps * (np.abs(pts2).max() + s * np.abs(pts).max())
            ctx.check((np.abs(want - pts2).max(1) <= bound).all(), "path-not-equivariant", path=q, got=pts2, want=want, bound=bound)
            le = 2 * bound.sum()
            ctx.check(abs(ln2 - s * ln) <= le, "length-not-equivariant", path=q, got=ln2, want=s * ln)
            # loss and approximate validity
            legs = np.hypot(*np.diff(pts2, axis=0).T)
            if len(q[2]) == 0 or legs.min() > 1e3 * bound.max():
                de = (2 * bound.max() / max(legs.min(), 1e-300) + 64 * ctx.eps * (1 + max(np.abs(w2).max() / 1e-3 / s, 1) if n else 1)) * (len(q[2]) > 0)
                dl = 4 * de * (math.sqrt(max(loss, 0)) + de) * 2
                if de < 0.05:
                    ctx.check(abs(loss - loss2) <= dl + 8 * ctx.eps * loss, "loss-not-invariant", path=q, original=loss, transformed=loss2, bound=dl)
                    eps = 8 * ctx.eps
                    wd = 0.0
                    for (P, E, R, c) in ((pts, bound / s if not swap else bound[::-1] / s, robjs, q[2]), (pts2, bound, robjs2, q2[2])):
                        V = fuzzy.validity(fuzzy.hard_sigmoid, alpha, fuzzy.on_margin(P, E, [R[i] for i in c], eps),
                                           fuzzy.hit_margin(P, E, R, c, patch, eps), loss, TOL, eps)[2]
                        wd += max(V[1] - V[0], 0.0)
                    lim = wd + alpha * dl / 6 + 64 * ctx.eps * (1 + alpha * TOL)
                    ctx.ev("approx_compared", lim < 0.2)
                    ctx.ev("approx_between", lim < 0.2 and 0.01 < av < 0.99)
                    ctx.check(abs(av - av2) <= lim, "approximate-validity-not-invariant", path=q, original=av, transformed=av2, bound=lim)
            if v:
                p = 0.5 ** len(q[2]) / (height**2 + ln**2)
                total += p
                err += p * (4 * le / s * ln / (height**2 + ln**2) + 16 * ctx.eps)
        if all_ok:
            a = [(i, j, float(x)) for i, j, x in s0.accumulate_over_paths(received_power, (0.5, jnp.array(height)), min_order=lo, max_order=hi, approx=False, patch=akw["patch"])]
            b = [(i, j, float(x)) for i, j, x in s1.accumulate_over_paths(received_power, (0.5, jnp.array(height * s)), min_order=lo, max_order=hi, approx=False, patch=akw["patch"])]
            m = {((j, i) if swap else (i, j)): x for i, j, x in b}
            for i, j, x in a:
                ctx.ev("sums_compared")
                ctx.check(abs(x - m.get((i, j), math.nan) * s * s) <= 2 * err + 64 * ctx.eps * (x + total), "power-not-invariant", pair=(i, j), original=x,
                          transformed=m.get((i, j)), scale=s, bound=err)
    ctx.sample(dict(kinds=kinds, walls=walls, walls2=w2, compared=len(base)))


def fermat(ctx, index):
    """Same key, rigid motion: the optimizer must follow the same trajectory."""
    import jax.numpy as jnp
    from differt2d.geometry import FermatPath, Wall

    rng = ctx.rng
    order = 1 + index % 2
    walls, t, r = gen.scene_arrays(rng, order, 1, 1, kind="uniform", plain=True)
    walls, t, r = [np.round(a * 4096) / 4096 for a in (walls, t[0], r[0])]
    key = ctx.key()
    kinds = list(rng.choice(["translate", "rotate", "mirror"], int(rng.integers(1, 4)), replace=False))
    f, s, _, _ = symmetry(rng, kinds, order)
    run = lambda w, a, b: FermatPath.from_tx_objects_rx(jnp.array(a), [Wall(xys=jnp.array(x)) for x in w], jnp.array(b), key=key, many=8, steps=400)
    p, p2 = run(walls, t, r), run([f(w) for w in walls], f(t), f(r))
    ctx.case_info = dict(walls=walls, tx=t, rx=r, kinds=kinds)
    ctx.ev("fermat")
    L, L2 = float(p.length()), float(p2.length())
    ctx.check(abs(L - L2) <= 2e-3 * L, "fermat-length-not-invariant", original=L, transformed=L2)
