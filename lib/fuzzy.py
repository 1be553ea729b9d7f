"""Float64 interval reference of approximate validity (margins, activation)."""

import math

import numpy as np

from . import ref

INF = math.inf


def act_interval(fn, lo, hi, alpha):
    return float(fn(alpha * lo)), float(fn(alpha * hi))


def hard_sigmoid(z):
    return min(max((z + 3.0) / 6.0, 0.0), 1.0)


def sigmoid(z):
    if z >= 0:
        return 1.0 / (1.0 + math.exp(-min(z, 700.0)))
    e = math.exp(max(z, -700.0))
    return e / (1.0 + e)


def ranged(z):
    """Monotone, not symmetric, never 0 nor 1."""
    return 0.2 + 0.5 * sigmoid(z) + 0.1 * sigmoid(2 * z + 1.0)


def seg_margin(p1, p2, p3, p4, tol, e12, e3, e4, eps):
    """Interval of min(s+tol, 1+tol-s, t+tol, 1+tol-t); parallel gives -inf."""
    ax, ay = p2[0] - p1[0], p2[1] - p1[1]
    bx, by = p4[0] - p3[0], p4[1] - p3[1]
    cx, cy = p3[0] - p1[0], p3[1] - p1[1]
    M = max(abs(v) for p in (p1, p2, p3, p4) for v in p)
    eA, eB, eC = 2 * e12 + 2 * eps * M, e3 + e4 + 2 * eps * M, e12 + e3 + 2 * eps * M

    def cross(ux, uy, vx, vy, eu, ev):
        return ux * vy - uy * vx, 2 * ((abs(ux) + abs(uy)) * ev + (abs(vx) + abs(vy)) * eu + 2 * eu * ev + 4 * eps * (abs(ux * vy) + abs(uy * vx)))

    d, ed = cross(ax, ay, bx, by, eA, eB)
    lo, hi = INF, INF
    if not abs(d) > 4 * ed:
        return -INF, INF
    for num, en in (cross(cx, cy, bx, by, eC, eB), cross(cx, cy, ax, ay, eC, eA)):
        t = num / d
        et = (en + abs(t) * ed) / (abs(d) - ed) + 8 * eps * (1 + abs(t))
        m = min(t + tol, 1 + tol - t)
        lo, hi = min(lo, m - et), min(hi, m + et)
    return lo, hi


def on_margin(pts, errs, inter, eps):
    lo, hi = INF, INF
    for k, o in enumerate(inter):
        if o.kind == "vertex":
            continue
        p, t = pts[k + 1], o.xys[1] - o.xys[0]
        L = math.hypot(*t)
        M = max(np.abs(o.xys).max(), np.abs(p).max())
        v = o.param(p)
        e = 0.0 if L == 0 else 2 * ((1.5 * errs[k + 1] + 8 * eps * M) / L + 8 * eps * (1 + abs(v)) + 4 * eps * M * (1 + abs(v)) / L)
        if L == 0:
            lo, hi = min(lo, -INF), hi
            continue
        m = min(v, 1 - v)
        lo, hi = min(lo, m - e), min(hi, m + e)
    return lo, hi


def hit_margin(pts, errs, objs, cand, patch, eps, tol=ref.TOL_SEG):
    cand = [-1, *[int(c) for c in cand], -1]
    lo, hi = -INF, -INF
    any_ = False
    for k in range(len(pts) - 1):
        for j, o in enumerate(objs):
            if j == cand[k] or j == cand[k + 1] or o.kind == "vertex":
                continue
            any_ = True
            t = o.xys[1] - o.xys[0]
            p1, p2 = o.xys[0] - patch * t, o.xys[1] + patch * t
            M = max(np.abs(p1).max(), np.abs(p2).max(), np.abs(o.xys).max())
            a, b = seg_margin(p1, p2, pts[k], pts[k + 1], tol, 4 * eps * M, errs[k], errs[k + 1], eps)
            lo, hi = max(lo, a), max(hi, b)
    return (lo, hi) if any_ else (None, None)


def validity(fn, alpha, on, hit, loss, tol, eps):
    """Intervals of on_objects, intersects and validity."""
    O = (1.0, 1.0) if on == (INF, INF) else act_interval(fn, *on, alpha)
    H = (0.0, 0.0) if hit[0] is None else hit_value(fn, alpha, hit)
    e = 4 * eps * max(abs(tol), abs(loss))
    Lo = act_interval(fn, tol - loss - e, tol - loss + e, alpha)
    V = (min(O[0], 1 - H[1], Lo[0]), min(O[1], 1 - H[0], Lo[1]))
    return O, H, V


def hit_value(fn, alpha, hit):
    # The accumulator starts at 0 (false); a parallel object contributes the lowest value.
    return act_interval(fn, *hit, alpha)


def exact_margin(on, hit, loss, tol):
    """(lower, upper) bound of the margin by which the path is valid."""
    h = (-INF, -INF) if hit[0] is None else hit
    return min(on[0], -h[1], tol - loss), min(on[1], -h[0], tol - loss)
