"""Logic functions versus a NumPy float64 model and the algebraic laws."""

import numpy as np

ID = "C09"
N = {"quick": {"f32": 1200, "x64": 1200}, "thorough": {"f32": 40000, "x64": 40000}}
SHARDS = {"f32": 4, "x64": 4}
MIN = {"quick": {"model_checks": 8000, "law_checks": 6000, "reductions": 2000, "comparisons": 3000, "saturations": 600,
                 "bool_inputs": 500, "broadcasts": 200, "scalars": 60}}
RULE = """Random truth values (including exact 0, 1, 1/2 and ties), random reals (including equal, huge and tiny ones) of 0-3
dimensions, random alpha, both activation functions and a custom one; distinct = distinct input arrays."""
ASSUMES = ["arrays are not empty, and a call mixes no two different shapes unless these broadcast"]
SHAPES = [(), (1,), (5,), (2, 3), (3, 1), (2, 2, 3), (1, 4), (7,)]


def run_case(ctx, index):
    import jax
    import jax.numpy as jnp
    from differt2d import logic as L

    rng = ctx.rng
    shape = SHAPES[index % 8]
    dt = np.float64 if ctx.x64 else np.float32
    approx = bool((index // 8) % 2)
    r32 = (lambda a: np.asarray(a, np.float32).astype(np.float64))

    def truth(s):
        v = rng.choice([0.0, 1.0, 0.5, 0.25], s) if rng.random() < 0.4 else rng.random(s)
        return np.asarray(r32(v))

    def wrap(a):
        return jnp.array(np.asarray(a))

    ctx.case_info = dict(shape=shape, approx=approx)
    if not approx:
        x, y, z = (rng.random(shape) < 0.5 for _ in range(3))
        x, y, z = map(np.asarray, (x, y, z))
        ctx.ev("bool_inputs")
    else:
        x, y, z = truth(shape), truth(shape), truth(shape)
        if rng.random() < 0.3:
            y = x.copy()
    if shape == (5,) and rng.random() < 0.6:
        y = np.asarray(y.ravel()[0])
        ctx.ev("broadcasts")
    elif shape == (2, 3) and rng.random() < 0.5:
        y = y[:1]
        ctx.ev("broadcasts")
    ctx.sig(shape, approx, x.tobytes(), y.tobytes())
    X, Y, Z = wrap(x), wrap(y), wrap(z)
    if shape == () and rng.random() < 0.5:
        X, Y, Z = x.item(), y.item(), z.item()
        ctx.ev("scalars")
    kw = dict(approx=approx)

    def val(a):
        a = np.asarray(a)
        want = (np.floating if approx else np.bool_)
        ctx.check(np.issubdtype(a.dtype, want), "result-of-wrong-type", dtype=str(a.dtype), approx=approx)
        return a.astype(np.float64) if approx else a

    def same(got, want, mech, tol=0.0, **d):
        ctx.ev("model_checks")
        got = np.asarray(got)
        want = np.asarray(want)
        if not ctx.check(got.shape == want.shape, mech + "-shape", got=got.shape, want=want.shape, **d):
            return
        ok = (got == want).all() if np.isscalar(tol) and tol == 0 else (np.abs(got.astype(float) - want) <= tol).all()
        ctx.check(ok, mech, got=got, want=want, x=x, y=y, **d)

    lo, hi = (np.minimum, np.maximum) if approx else (np.logical_and, np.logical_or)
    inv = (lambda a: (1.0 - a)) if approx else np.logical_not
    e1 = 2 * ctx.eps if approx else 0.0
    A, O, Nt = (lambda a, b: L.logical_and(a, b, **kw)), (lambda a, b: L.logical_or(a, b, **kw)), (lambda a: L.logical_not(a, **kw))
    same(val(A(X, Y)), lo(x, y), "logical_and-wrong")
    same(val(O(X, Y)), hi(x, y), "logical_or-wrong")
    same(val(Nt(X)), inv(x), "logical_not-wrong", e1)
    # laws, on the implementation alone
    laws = [("and-commutes", A(X, Y), A(Y, X)), ("or-commutes", O(X, Y), O(Y, X)),
            ("and-associates", A(A(X, Y), Z), A(X, A(Y, Z))), ("or-associates", O(O(X, Y), Z), O(X, O(Y, Z))),
            ("absorption", A(X, O(X, Z)), X), ("distributes", A(X, O(Y, Z)), O(A(X, Y), A(X, Z)))]
    for nm, a, b in laws:
        ctx.ev("law_checks")
        ctx.check((np.asarray(a) == np.asarray(b)).all(), "law:" + nm, x=x, y=y, z=z)
    for nm, a, b in [("involution", Nt(Nt(X)), X), ("de-morgan-and", Nt(A(X, Y)), O(Nt(X), Nt(Y))), ("de-morgan-or", Nt(O(X, Y)), A(Nt(X), Nt(Y)))]:
        ctx.ev("law_checks")
        ctx.check((np.abs(np.asarray(a, float) - np.asarray(b, float)) <= 2 * e1).all(), "law:" + nm, x=x, y=y)
    # reductions
    stack = [x] if rng.random() < 0.4 else [x, z, inv(z)][: int(rng.integers(2, 4))]
    arr = np.stack(stack)
    ax = None
    if arr.ndim and rng.random() < 0.7:
        ax = int(rng.integers(-arr.ndim, arr.ndim))
        if arr.ndim > 1 and rng.random() < 0.3:
            ax = tuple(sorted(int(i) for i in rng.choice(arr.ndim, int(rng.integers(1, arr.ndim + 1)), replace=False)))
    akw = dict(kw) if ax is None and rng.random() < 0.5 else dict(kw, axis=ax)
    args = [wrap(a) for a in stack]
    if shape == () and rng.random() < 0.5:
        args = [np.asarray(a).item() for a in stack]
    mn, mx = (np.min, np.max) if approx else (np.all, np.any)
    tol = e1
    same(val(L.logical_all(*args, **akw)), mn(arr, axis=ax), "logical_all-wrong", tol, axis=ax)
    same(val(L.logical_any(*args, **akw)), mx(arr, axis=ax), "logical_any-wrong", tol, axis=ax)
    ctx.ev("reductions", 2)
    # truth of values
    t = float(np.float32(rng.choice([0.5, 0.25, 0.01, 0.9])))
    T = jnp.array(t)
    tk = {} if t == 0.5 else {"tol": T}
    for nm, f in (("is_true", L.is_true), ("is_false", L.is_false)):
        got = np.asarray(f(X, **tk, **kw))
        ctx.check(got.dtype == bool and got.shape == x.shape, nm + "-not-boolean", dtype=str(got.dtype), shape=got.shape)
        if approx:
            m = (x - (1.0 - t)) if nm == "is_true" else (t - x)
            clear = np.abs(m) > 4 * ctx.eps
            if t in (0.5, 0.25):
                clear = np.ones_like(m, bool)
            ctx.check(((got == (m > 0)) | ~clear).all(), nm + "-wrong", x=x, tol=t, got=got)
        else:
            ctx.check((got == (x if nm == "is_true" else ~x)).all(), nm + "-wrong", x=x, got=got)
        ctx.ev("model_checks")
    for nm, f, w in (("true_value", L.true_value, 1.0), ("false_value", L.false_value, 0.0)):
        v = np.asarray(f(**kw))
        ctx.check(v.shape == () and float(v) == w and (v.dtype == bool) == (not approx), nm + "-wrong", got=v, dtype=str(v.dtype))
        ctx.check(bool(L.is_true(jnp.asarray(v), **kw)) == bool(w) and bool(L.is_false(jnp.asarray(v), **kw)) == (not w), nm + "-not-recognized")
    # comparisons
    s = float(rng.choice([1e-2, 1.0, 1.0, 1e3]))
    a = np.asarray(r32(rng.normal(size=shape) * s))
    b = np.asarray(r32(rng.normal(size=shape) * s))
    r = rng.random()
    if r < 0.25:
        b = a.copy()
    elif r < 0.45:
        b = np.asarray(r32(a + rng.normal(size=shape) * 0.02))
    elif r < 0.55:
        b = np.asarray(rng.integers(-2, 3, shape), float)
        a = np.asarray(rng.integers(-2, 3, shape), float)
    if shape == (7,) and rng.random() < 0.5:
        b = np.asarray(b[0])
        ctx.ev("broadcasts")
    Aj, Bj = (a.item(), b.item()) if shape == () and rng.random() < 0.5 else (wrap(a), wrap(b))
    ctx.case_info.update(a=a, b=b)
    alpha = float(np.float32(rng.choice([100.0, 1.0, 7.0, 0.3, 1000.0])))
    ckw = dict(kw)
    custom = False
    fn = "hard_sigmoid"
    if approx:
        if alpha != 100.0 or rng.random() < 0.3:
            ckw["alpha"] = jnp.array(alpha) if rng.random() < 0.98 else alpha
        r = rng.random()
        if r < 0.35:
            ckw["function"], fn = L.sigmoid, "sigmoid"
        elif r < 0.5:
            ckw["function"] = L.hard_sigmoid
        elif r < 0.6:
            ckw["function"], fn, custom = tanhish, "tanhish", True
    ctx.case_info.update(alpha=alpha, fn=fn)
    diff = (a.astype(dt) - b.astype(dt)).astype(float)
    for nm, f, sgn, op in (("greater", L.greater, 1, np.greater), ("greater_equal", L.greater_equal, 1, np.greater_equal),
                           ("less", L.less, -1, np.less), ("less_equal", L.less_equal, -1, np.less_equal)):
        got = val(f(Aj, Bj, **ckw))
        ctx.ev("comparisons")
        if not approx:
            same(got, op(a, b), nm + "-wrong")
            continue
        want = model(fn, sgn * diff * alpha)
        if fn != "hard_sigmoid":
            tol = 40 * ctx.eps * (1 + np.minimum(np.abs(diff * alpha), 20))
        else:
            tol = 10 * ctx.eps * (1 + np.minimum(np.abs(diff * alpha), 3))
        same(got, want, nm + "-wrong", tol, a=a, b=b, alpha=alpha, fn=fn)
        ctx.check(((got >= 0) & (got <= 1)).all(), nm + "-out-of-range", got=got)
        swapped = np.asarray(f(Bj, Aj, **ckw), float)
        ctx.check((np.abs(got + swapped - 1) <= 20 * ctx.eps * (1 + np.minimum(np.abs(diff * alpha), 20))).all(), nm + "-swap-not-complementary", got=got, swapped=swapped)
        eq = np.broadcast_to(np.asarray(diff == 0), got.shape)
        ctx.check((np.abs(got[eq] - 0.5) <= 2 * ctx.eps).all(), nm + "-not-half-at-equality", got=got[eq])
        far = np.broadcast_to(np.asarray(np.abs(diff) * alpha > (3.0001 if fn == "hard_sigmoid" else 60)), got.shape)
        ctx.ev("saturations", far.sum())
        sat = np.broadcast_to(sgn * diff > 0, got.shape).astype(float)
        ctx.check((np.abs(got[far] - sat[far]) <= (0 if fn == "hard_sigmoid" else 4 * ctx.eps)).all(), nm + "-not-saturated", got=got[far])
    if approx:  # monotone in the difference, and direct calls of the activation
        xs = np.sort(r32(rng.normal(size=24) * 4 / alpha))
        f = {"sigmoid": L.sigmoid, "hard_sigmoid": L.hard_sigmoid, "tanhish": tanhish}[fn]
        akw = {k: v for k, v in ckw.items() if k != "approx"}
        v = np.asarray(L.activation(wrap(xs), **akw), float)
        d = np.asarray(f(wrap(xs), jnp.array(alpha)), float)
        want = model(fn, xs * alpha)
        ctx.check((np.diff(v) >= -4 * ctx.eps).all(), "activation-not-monotone", x=xs, v=v)
        ctx.check((np.abs(v - want) <= 60 * ctx.eps * (1 + np.abs(xs * alpha))).all(), "activation-wrong", fn=fn, alpha=alpha, got=v, want=want)
        ctx.check((np.abs(d - want) <= 60 * ctx.eps * (1 + np.abs(xs * alpha))).all(), fn + "-wrong", alpha=alpha, got=d, want=want)
        ctx.ev("law_checks", 3)
    if index % 40 < 8:
        ctx.sample(dict(approx=approx, x=x, y=y, a=a, b=b, fn=fn, alpha=alpha), cap=2)


def tanhish(x, alpha):
    import jax.numpy as jnp

    return 0.5 * (1.0 + jnp.tanh(alpha * x))


def model(fn, z):
    z = np.asarray(z, np.float64)
    if fn == "sigmoid":
        return np.where(z >= 0, 1 / (1 + np.exp(-np.abs(z))), np.exp(-np.abs(z)) / (1 + np.exp(-np.abs(z))))
    if fn == "tanhish":
        return 0.5 * (1 + np.tanh(z))
    return np.clip((z + 3) / 6, 0, 1)
