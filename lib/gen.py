"""Workload generators: scenes, nodes, paths (all coordinates exact in float32)."""

import numpy as np


def q(a):
    return np.asarray(np.asarray(a, np.float32), np.float64)


def affine(rng):
    """Random scale and offset, kept moderate so that float32 keeps meaning."""
    r = rng.random()
    if r < 0.45:
        return 1.0, np.zeros(2)
    scale = float(rng.choice([0.05, 0.3, 3.0, 10.0, 100.0]))
    off = rng.uniform(-3, 3, 2) * scale
    return scale, off


def wall_array(rng, n, kind=None):
    """(n,2,2) wall coordinates in the unit box."""
    if n == 0:
        return np.zeros((0, 2, 2))
    kind = kind or rng.choice(["uniform", "uniform", "lattice", "room", "short", "polygon", "parallel"])
    if kind == "uniform":
        w = rng.random((n, 2, 2))
    elif kind == "lattice":
        w = rng.integers(0, 9, (n, 2, 2)) / 8.0
        for i in range(n):
            while (w[i, 0] == w[i, 1]).all():
                w[i] = rng.integers(0, 9, (2, 2)) / 8.0
    elif kind == "room":
        c = [[[0, 0], [1, 0]], [[1, 0], [1, 1]], [[1, 1], [0, 1]], [[0, 1], [0, 0]]]
        w = np.array((c * ((n + 3) // 4))[:n], float)
        if n > 4:
            w[4:] = rng.uniform(0.1, 0.9, (n - 4, 2, 2))
        w[:, :, 0] *= rng.uniform(0.6, 1.4)
    elif kind == "short":
        c = rng.random((n, 1, 2))
        w = c + rng.uniform(-0.15, 0.15, (n, 2, 2))
    elif kind == "polygon":
        m = max(n, 3)
        ang = np.sort(rng.uniform(0, 2 * np.pi, m))
        rad = rng.uniform(0.3, 0.5, m)
        p = 0.5 + np.stack([rad * np.cos(ang), rad * np.sin(ang)], 1)
        w = np.stack([p, np.roll(p, -1, 0)], 1)[:n]
    else:  # parallel mirrors
        x = np.sort(rng.random(n))
        w = np.stack([np.stack([x, rng.uniform(-0.5, 0.2, n)], 1), np.stack([x, rng.uniform(0.8, 1.5, n)], 1)], 1)
        if rng.random() < 0.5:
            w = w[:, :, ::-1]
    w = np.array(w, float).reshape(n, 2, 2)
    flip = rng.random(n) < 0.5
    w[flip] = w[flip][:, ::-1]
    return w[rng.permutation(n)] if n else w.reshape(0, 2, 2)


def scene_arrays(rng, n, ntx=1, nrx=1, kind=None, plain=False):
    w = wall_array(rng, n, kind)
    tx = rng.uniform(-0.1, 1.1, (ntx, 2))
    rx = rng.uniform(-0.1, 1.1, (nrx, 2))
    if not plain:
        s, o = affine(rng)
        w, tx, rx = w * s + o, tx * s + o, rx * s + o
    return q(w), q(tx), q(rx)


NAMES = ["tx", "rx", "a", "B2", "node_1", "été", "名", "_x", "TX", "z9", "tx_0", "rx_10"]


def names(rng, n, prefix=None):
    if prefix and rng.random() < 0.5:
        return [f"{prefix}_{i}" for i in range(n)]
    base = list(rng.permutation(NAMES))
    out = base[:n]
    while len(out) < n:
        out.append(f"n{len(out)}_{int(rng.integers(1e6))}")
    return [str(x) for x in out]


def make_scene(walls, tx, rx, txn=None, rxn=None, objects=None):
    import jax.numpy as jnp
    from differt2d.geometry import Point, Wall
    from differt2d.scene import Scene

    txn = txn or [f"tx_{i}" for i in range(len(tx))]
    rxn = rxn or [f"rx_{i}" for i in range(len(rx))]
    if objects is None:
        objects = [Wall(xys=jnp.array(w)) for w in walls]
    return Scene(
        transmitters={k: Point(xy=jnp.array(p)) for k, p in zip(txn, tx)},
        receivers={k: Point(xy=jnp.array(p)) for k, p in zip(rxn, rx)},
        objects=objects,
    )
