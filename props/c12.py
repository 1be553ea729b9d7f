"""Segment intersection versus exact rational arithmetic."""

from fractions import Fraction

import numpy as np

from lib import gen, ref

ID = "C12"
N = {"quick": {"f32": 64, "x64": 64}, "thorough": {"f32": 3000, "x64": 3000}}
SHARDS = {"f32": 4, "x64": 4}
MIN = {"quick": {"decided": 20000, "true": 3000, "false": 8000, "within_tol_only": 150, "parallel": 1500, "degenerate": 1000,
                 "symmetry_checks": 20000, "through_objects": 400, "custom_tol": 5000, "single_calls": 300, "exact_boundary": 200, "true_at_extreme_scale": 50}}
RULE = """Pairs of segments: random, sharing end points, T-junctions at and around the tolerance, lattice, collinear, parallel,
nearly parallel, zero-length, of very different sizes and far from the origin; 64-200 pairs per batch through vmap and
directly; distinct = pairs whose verdict is decided."""
ASSUMES = ["pairs within rounding error of the tolerance boundary or of parallelism accept either answer"]
TOL = [None, 0.0, 0.005, 0.05, 0.3, -0.1]


def pair(rng):
    r = rng.integers(12)
    if r == 0:
        s = rng.random((4, 2))
    elif r == 1:
        s = rng.integers(0, 5, (4, 2)) / 4.0
    elif r in (2, 3):  # crossing at chosen parameters
        a, b = rng.choice([0.0, 1.0, 0.5, -0.005, 1.005, -0.004, 1.006, 0.003, 1.3, -0.2, rng.random()], 2) + (rng.normal(size=2) * 0.002 if rng.random() < 0.5 else 0)
        p, q = rng.normal(size=2), rng.normal(size=2)
        x = rng.random(2)
        s = np.array([x - a * p, x + (1 - a) * p, x - b * q, x + (1 - b) * q])
    elif r == 4:  # shared end point
        s = rng.random((4, 2))
        s[2 + rng.integers(2)] = s[rng.integers(2)]
    elif r == 5:  # T-junction on a lattice line (exact)
        s = rng.integers(-4, 5, (4, 2)).astype(float)
        k = rng.integers(0, 5) / 4.0
        s[2] = s[0] + k * (s[1] - s[0])
    elif r == 6:  # parallel
        s = rng.integers(-4, 5, (4, 2)).astype(float)
        s[3] = s[2] + (s[1] - s[0]) * rng.choice([-1.0, 1.0, 2.0, 0.5])
    elif r == 7:  # collinear, overlapping or not
        s = rng.integers(-4, 5, (4, 2)).astype(float)
        d = s[1] - s[0]
        s[2], s[3] = s[0] + rng.integers(-3, 4) * d / 2, s[0] + rng.integers(-3, 4) * d / 2
    elif r == 8:  # zero length
        s = rng.random((4, 2)) if rng.random() < 0.5 else rng.integers(0, 3, (4, 2)).astype(float)
        k = rng.integers(3)
        if k != 1:
            s[1] = s[0]
        if k != 0:
            s[3] = s[2]
        if rng.random() < 0.3:
            s[2:] = s[2:] - s[2] + s[0]
    elif r == 9:  # nearly parallel
        s = rng.random((4, 2))
        s[3] = s[2] + (s[1] - s[0]) * (1 + rng.normal() * 0.1) + rng.normal(size=2) * 10 ** rng.uniform(-5, -1)
    elif r == 10:  # axis-aligned
        s = rng.integers(0, 9, (4, 2)) / 8.0
        s[1, 0] = s[0, 0]
        s[3, 1] = s[2, 1]
    else:  # very different sizes
        s = rng.random((4, 2))
        s[3] = s[2] + (s[3] - s[2]) * 10 ** rng.uniform(-3, 2)
    if rng.random() < 0.3:
        s = s * 10 ** rng.uniform(-2, 2)
    if rng.random() < 0.2:
        s = s + rng.normal(size=2) * 10
    if rng.random() < 0.08:  # nanometres to millions of kilometres
        s = s * 10 ** rng.uniform(-12, 12)
    o = rng.permutation(2)
    s = s.reshape(2, 2, 2)[o]
    for k in range(2):
        if rng.random() < 0.5:
            s[k] = s[k][::-1]
    return gen.q(s.reshape(4, 2))


def run_case(ctx, index):
    import jax
    import jax.numpy as jnp
    from differt2d.geometry import Wall, segments_intersect

    rng = ctx.rng
    m = 200
    S = np.array([pair(rng) for _ in range(m)])
    tol = TOL[(index // 8) % 6]
    ctx.case_info = dict(tol=tol)
    kw = {"approx": False}
    if tol is not None:
        tol = float(np.float32(tol))
        ctx.ev("custom_tol", m)
    t = ref.TOL_SEG if tol is None else tol
    if "fns" not in ctx.state:
        def call(P1, P2, P3, P4, tl):
            return segments_intersect(P1, P2, P3, P4, tol=tl, approx=False)

        def default(P1, P2, P3, P4):
            return segments_intersect(P1, P2, P3, P4, approx=False)

        ctx.state["fns"] = jax.jit(jax.vmap(call, in_axes=(0, 0, 0, 0, None))), jax.jit(jax.vmap(default))
    fn, fd = ctx.state["fns"]

    def verdicts(T):
        P = [jnp.array(T[:, k]) for k in range(4)]
        return np.asarray(fd(*P) if tol is None else fn(*P, jnp.array(tol)))

    got = verdicts(S)
    ctx.check(got.dtype == bool and got.shape == (m,), "verdict-not-boolean", dtype=str(got.dtype))
    flips = {"first-reversed": [1, 0, 2, 3], "second-reversed": [0, 1, 3, 2], "swapped": [2, 3, 0, 1], "both": [3, 2, 1, 0]}
    alt = {k: verdicts(S[:, p]) for k, p in flips.items()}
    eps = 4 * ctx.eps
    singles = set(rng.choice(m, 4, replace=False).tolist())
    for i in range(m):
        s = S[i]
        M = np.abs(s).max()
        want = ref.seg3(s[0], s[1], s[2], s[3], t, 0.0, 0.0, 0.0, eps)
        exact, a, b, den = ref.seg_exact(*s, tol=Fraction(t))
        if den == 0:
            # parallel, exactly: decided when the inputs' differences are exact too
            deg = (s[0] == s[1]).all() or (s[2] == s[3]).all()
            ctx.ev("degenerate" if deg else "parallel")
            small = np.abs(s * 4096) == np.round(np.abs(s * 4096))
            if deg or (small.all() and M < 64):
                want = False
        elif exact and ref.seg_exact(*s)[0] is False:
            ctx.ev("within_tol_only")
        small = ((s * 64) == np.round(s * 64)).all() and M <= 64
        if want is None and small and den != 0 and float(t) == 0.0 and (a in (0, 1) or b in (0, 1)):
            # all products are exact, and the division of equal numbers is exact
            want = exact
            ctx.ev("exact_boundary")
        if want is None:
            ctx.ev("undecidable")
            continue
        ctx.ev("decided")
        ctx.ev("true" if want else "false")
        if want and not 1e-6 < M < 1e6:
            ctx.ev("true_at_extreme_scale")
        ctx.sig(s.tobytes(), t)
        ctx.check(bool(got[i]) == want, "wrong-verdict", s=s, tol=t, want=want, params=[None if x is None else float(x) for x in (a, b)])
        for k, v in alt.items():
            ctx.ev("symmetry_checks")
            ctx.check(bool(v[i]) == want, "not-symmetric:" + k, s=s, tol=t, want=want)
        if i in singles:
            P = [jnp.array(x) for x in s]
            one = segments_intersect(*P, approx=False, **({} if tol is None else {"tol": jnp.array(tol)}))
            ctx.ev("single_calls")
            ctx.check(bool(one) == want, "wrong-verdict-single-call", s=s, tol=t, want=want)
            w = ref.seg3(s[0], s[1], s[2], s[3], ref.TOL_SEG, 0, 0, 0, 2 * eps)
            if w is not None:
                ctx.ev("through_objects")
                g = Wall(xys=P and jnp.array(s[:2])).intersects_cartesian(jnp.array(s[2:]), approx=False)
                ctx.check(bool(g) == w, "wrong-verdict-through-wall", s=s, want=w)
                if index % 16 == 0:
                    ctx.sample(dict(s=s, tol=t, verdict=want))
