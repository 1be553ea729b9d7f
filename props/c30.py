"""Derivative sanitizer for every public numeric function: forward mode, reverse mode and second order, against each other and finite differences."""

import numpy as np

from props import c28

ID = "C30"
N = {"quick": {"x64": 40}, "thorough": {"x64": 4000}}
SHARDS = {"x64": 8}
MIN = {"quick": {"functions": 250, "forward_checked": 700, "transposes": 250, "second_order": 250, "second_checked": 500, "symmetric": 230, "paths": 5, "optimizers": 5, "sums": 5, "grids": 5, "objects": 5, "logic": 5, "scenes": 5}}
RULE = """About 100 calls of public numeric functions at random generic inputs in float64: Jacobian-vector products against finite differences of the values, transposition
identity between forward and reverse mode, Hessian-vector products (forward over reverse) against finite differences of the gradient and their symmetry; distinct = (function, inputs)."""
ASSUMES = ["elements for which finite differences of several steps disagree (kinks, visibility changes) are skipped; the transposition identity needs no such exception"]
NOT_TRACED = {"get_closest_transmitter", "get_closest_receiver"}  # they return a name


def run_case(ctx, index):
    fams = [c28.paths, c28.optimizers, c28.sums, c28.grids, c28.objects, c28.logic, c28.scenes]
    c28.probe = probe
    c28.dtypes = lambda *a: None
    fam = fams[(index // 8 + index) % 7]
    ctx.ev(fam.__name__)
    row = index // 8
    ctx.state["skip"] = {"FermatPath many=1", "FermatPath many=3", "MinPath many=1", "MinPath many=3"} - {("FermatPath many=1", "MinPath many=3", "FermatPath many=3", "MinPath many=1")[row % 4]}
    fam(ctx, index // 8 + index % 8)


def probe(ctx, what, F, theta):
    import jax
    import jax.numpy as jnp

    if what in NOT_TRACED or what in ctx.state["skip"]:
        return
    rng = ctx.rng
    t0 = jnp.array(np.asarray(theta, np.float64))
    ctx.case_info = dict(function=what, inputs=t0)

    def f(t):
        xs = [jnp.ravel(x) for x in jax.tree_util.tree_leaves(F(t)) if jnp.issubdtype(jnp.result_type(x), jnp.floating)]
        return jnp.concatenate(xs)

    d, e = (jnp.array(rng.uniform(0.3, 1.0, t0.shape) * rng.choice([-1, 1], t0.shape)) for _ in range(2))
    f0, Jd = jax.jvp(f, (t0,), (d,))
    u = jnp.array(rng.uniform(0.3, 1.0, f0.shape) * rng.choice([-1, 1], f0.shape))
    ctx.ev("functions")
    ctx.sig(what, np.asarray(t0).tobytes())
    f0, J = np.asarray(f0), np.asarray(Jd)

    def fd(g, h):
        g0, a, b, c, m = np.asarray(jax.vmap(g)(jnp.stack([t0 + s * d for s in (0, h, -h, h / 2, -h / 2)])))
        D, D2 = (a - b) / (2 * h), (c - m) / h
        with np.errstate(all="ignore"):
            ok = np.isfinite(D) & np.isfinite(D2) & (np.abs(D - D2) <= 1e-5 * (np.abs(D) + 1e-2)) & (np.abs(a + b - 2 * g0) <= 1e-3 * h * (1 + np.abs(D))) & (np.abs(D) < 1e3)
        return g0, D, ok

    _, D, ok = fd(f, 1e-5)
    ctx.ev("forward_checked", ok.sum())
    bad = ok & ~(np.abs(J - D) <= 1e-3 * np.abs(D) + 1e-4)
    ctx.check(not bad.any(), "forward-derivative-differs", of=what, element=int(np.argmax(bad)) if bad.any() else None, got=J[bad][:3], want=D[bad][:3], value=f0[bad][:3])
    # reverse mode is the transpose
    grad = jax.grad(lambda t: jnp.dot(u, f(t)))
    g, lin = jax.linearize(grad, t0)
    Hd, He = lin(d), lin(e)
    lhs, rhs = float(np.dot(np.asarray(u), J)), float(np.dot(np.asarray(g), np.asarray(d)))
    size = float(np.abs(np.asarray(u) * J).sum() + np.abs(np.asarray(g) * np.asarray(d)).sum())
    if np.isfinite(lhs) and np.isfinite(rhs):
        ctx.ev("transposes")
        ctx.check(abs(lhs - rhs) <= 1e-9 * (1 + size), "reverse-mode-is-not-the-transpose-of-forward-mode", of=what, forward=lhs, reverse=rhs)
    else:
        ctx.ev("non_finite")
    Hd, He = np.asarray(Hd), np.asarray(He)
    ctx.ev("second_order")
    if np.isfinite(Hd).all() and np.isfinite(He).all():
        a, b = float(np.dot(Hd, np.asarray(e))), float(np.dot(He, np.asarray(d)))
        size = float(np.abs(Hd * np.asarray(e)).sum() + np.abs(He * np.asarray(d)).sum())
        ctx.ev("symmetric")
        ctx.check(abs(a - b) <= 1e-8 * (1 + size), "second-derivative-not-symmetric", of=what, got=(a, b))
        _, D, ok = fd(grad, 1e-5)
        ctx.ev("second_checked", ok.sum())
        bad = ok & ~(np.abs(Hd - D) <= 1e-3 * np.abs(D) + 1e-3)
        ctx.check(not bad.any(), "second-derivative-differs", of=what, element=int(np.argmax(bad)) if bad.any() else None, got=Hd[bad][:3], want=D[bad][:3])
    else:
        ctx.ev("non_finite_second")
    ctx.sample(dict(function=what, inputs=t0))
