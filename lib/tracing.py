"""Shared pieces of the tracing checks (C01, C02, C15, ...)."""

import numpy as np

from . import gen, ref

# number of walls and order range by case index: keeps the number of compiled
# shapes per worker small while covering many shapes over the workers.
POOL = [(3, 0, 3), (5, 0, 2), (2, 0, 4), (4, 0, 2), (7, 0, 1), (6, 1, 2), (1, 0, 2), (9, 0, 1)]
POOL_T = [(3, 0, 4), (5, 0, 3), (2, 0, 6), (4, 0, 3), (7, 0, 2), (6, 1, 2), (1, 0, 3), (12, 0, 1)]

# rare: long sequences and many objects
BIG = [(2, 5, 6), (14, 0, 1), (3, 4, 4), (20, 1, 1), (2, 7, 7), (4, 3, 3), (26, 0, 1), (1, 0, 5)]


def shape(ctx, index):
    if (index // 8) % 12 == 5:
        ctx.ev("large_shapes")
        return BIG[index % 8]
    return (POOL_T if ctx.thorough else POOL)[index % 8]


def sc(walls):
    return float(np.abs(walls).max()) if len(walls) else 1.0


def special_nodes(rng, walls, k):
    """Node positions that stress the tracer: near walls, on mirrors' axes, far away."""
    out = []
    for _ in range(k):
        r = rng.random()
        if len(walls) and r < 0.25:
            w = walls[rng.integers(len(walls))]
            t = w[1] - w[0]
            n = np.array([t[1], -t[0]])
            out.append(w[0] + rng.uniform(-0.5, 1.5) * t + rng.choice([-1, 1]) * 10 ** rng.uniform(-2, 0.3) * n)
        elif len(walls) and r < 0.35:
            c, s = walls.reshape(-1, 2).mean(0), np.ptp(walls.reshape(-1, 2), axis=0).max()
            a = rng.uniform(0, 2 * np.pi)
            out.append(c + s * rng.uniform(1, 4) * np.array([np.cos(a), np.sin(a)]))
        else:
            lo, hi = (walls.reshape(-1, 2).min(0), walls.reshape(-1, 2).max(0)) if len(walls) else (np.zeros(2), np.ones(2))
            out.append(lo + (hi - lo) * rng.uniform(-0.05, 1.05, 2))
    return gen.q(np.array(out))


def ref_objs(walls):
    return [ref.Obj("wall", w) for w in walls]
