"""Independent float64 reference of 2D specular ray tracing.

Three-valued verdicts: True / False / None, None meaning that the inputs are
within rounding error of a decision boundary (either answer is then accepted).
Nothing here is shared with the code under test.
"""

import itertools
import math
from fractions import Fraction

import numpy as np

TOL_SEG = 0.005  # documented default tolerance of the intersection test


def and3(*xs):
    if any(x is False for x in xs):
        return False
    if any(x is None for x in xs):
        return None
    return True


def or3(*xs):
    if any(x is True for x in xs):
        return True
    if any(x is None for x in xs):
        return None
    return False


def not3(x):
    return None if x is None else (not x)


def lt3(v, thr, err):
    """v < thr."""
    if v < thr - err:
        return True
    if v > thr + err:
        return False
    return None


def within3(v, lo, hi, err):
    """lo <= v <= hi."""
    return and3(not3(lt3(v, lo, err)), not3(lt3(hi, v, err)))


# ---------------------------------------------------------------- candidates
def candidates(n, lo, hi, allowed=None):
    nodes = [i for i in range(n) if allowed is None or i in allowed]
    out = []
    for order in range(lo, hi + 1):
        for seq in itertools.product(nodes, repeat=order):
            if all(a != b for a, b in zip(seq, seq[1:])):
                out.append(seq)
    return out


def count_candidates(n, lo, hi):
    tot = 0
    for k in range(lo, hi + 1):
        tot += 1 if k == 0 else n * (n - 1) ** (k - 1)
    return tot


# -------------------------------------------------------------- segment test
def seg_exact(p1, p2, p3, p4, tol=Fraction(0)):
    """Exact rational verdict and the two parameters."""
    F = Fraction
    p1, p2, p3, p4 = ([F(float(c)) for c in p] for p in (p1, p2, p3, p4))
    tol = F(tol)
    ax, ay = p2[0] - p1[0], p2[1] - p1[1]
    bx, by = p4[0] - p3[0], p4[1] - p3[1]
    cx, cy = p3[0] - p1[0], p3[1] - p1[1]
    den = ax * by - ay * bx
    if den == 0:
        return False, None, None, den
    s = (cx * by - cy * bx) / den
    t = (cx * ay - cy * ax) / den
    return (-tol <= s <= 1 + tol) and (-tol <= t <= 1 + tol), s, t, den


def seg3(p1, p2, p3, p4, tol, e12, e3, e4, eps):
    """Three-valued intersection with coordinate errors e12 (first segment), e3, e4."""
    ax, ay = p2[0] - p1[0], p2[1] - p1[1]
    bx, by = p4[0] - p3[0], p4[1] - p3[1]
    cx, cy = p3[0] - p1[0], p3[1] - p1[1]
    M = max(abs(v) for p in (p1, p2, p3, p4) for v in p)
    eA = 2 * e12 + 2 * eps * M
    eB = e3 + e4 + 2 * eps * M
    eC = e12 + e3 + 2 * eps * M

    def cross(ux, uy, vx, vy, eu, ev):
        val = ux * vy - uy * vx
        su, sv = abs(ux) + abs(uy), abs(vx) + abs(vy)
        err = su * ev + sv * eu + 2 * eu * ev + 4 * eps * (abs(ux * vy) + abs(uy * vx))
        return val, err

    d, ed = cross(ax, ay, bx, by, eA, eB)
    a, ea = cross(cx, cy, bx, by, eC, eB)
    b, eb = cross(cx, cy, ax, ay, eC, eA)

    ed = 2 * ed + 1e-300
    ea, eb = 2 * ea, 2 * eb

    def par(num, en):
        if abs(d) > 2 * ed:
            t = num / d
            et = (en + abs(t) * ed) / (abs(d) - ed) + 8 * eps * (1 + abs(t))
            return within3(t, -tol, 1 + tol, et)
        # the denominator is not resolved: definitely out if the numerator dwarfs it
        if abs(num) - en > (1.5 + 2 * abs(tol)) * (abs(d) + ed) + 1e-300:
            return False
        return None

    return and3(par(a, ea), par(b, eb))


# ------------------------------------------------------------- image tracing
def reflect(o, t, p):
    L2 = t[0] * t[0] + t[1] * t[1]
    if L2 == 0.0:
        return np.array(p, float)
    n = np.array([t[1], -t[0]]) / math.sqrt(L2)
    return p - 2 * np.dot(p - o, n) * n


def trace(walls, tx, rx):
    """Image path through the given (k,2,2) walls. Returns points or None if singular."""
    imgs = []
    p = np.array(tx, float)
    for w in walls:
        p = reflect(w[0], w[1] - w[0], p)
        imgs.append(p)
    pts = [np.array(rx, float)]
    for w, im in zip(walls[::-1], imgs[::-1]):
        q = pts[-1]
        o, t = w[0], w[1] - w[0]
        n = np.array([t[1], -t[0]])
        u = q - im
        un = float(np.dot(u, n))
        vn = float(np.dot(o - q, n))
        if abs(un) < 1e-12 * (np.linalg.norm(u) * np.linalg.norm(n) + 1e-300):
            return None
        pts.append(q + vn / un * u)
    pts.append(np.array(tx, float))
    return np.array(pts[::-1])


def trace_cond(walls, tx, rx, eps, rng, reps=4):
    """Trace and estimate the forward error of a computation with unit roundoff eps."""
    pts = trace(walls, tx, rx)
    if pts is None:
        return None, None
    M = max(float(np.abs(walls).max()) if len(walls) else 0.0, np.abs(tx).max(), np.abs(rx).max(), 1e-30)
    dev = np.zeros(len(pts))
    h = 1e-7 if eps > 1e-10 else 1e-10  # finite perturbation, scaled back to eps
    for _ in range(reps):
        w2 = walls + rng.uniform(-1, 1, walls.shape) * h * M
        q = trace(w2, tx + rng.uniform(-1, 1, 2) * h * M, rx + rng.uniform(-1, 1, 2) * h * M)
        if q is None:
            return None, None
        dev = np.maximum(dev, np.abs(q - pts).max(axis=1))
    err = dev * (eps / h) * 12 + 16 * eps * np.maximum(M, np.abs(pts).max(axis=1))
    err[0] = err[-1] = 0.0
    return pts, err


def bounce_loss(w, a, b, c):
    t = w[1] - w[0]
    L = math.hypot(*t)
    n = np.array([t[1], -t[0]]) / L if L > 0 else np.zeros(2)
    i, r = b - a, c - b
    li, lr = math.hypot(*i), math.hypot(*r)
    i = i / li if li > 0 else i
    r = r / lr if lr > 0 else r
    e = r - (i - 2 * np.dot(i, n) * n)
    return float(e @ e)


def ris_loss(w, phi, a, b, c):
    t = w[1] - w[0]
    L = math.hypot(*t)
    n = np.array([t[1], -t[0]]) / L if L > 0 else np.zeros(2)
    r = c - b
    lr = math.hypot(*r)
    r = r / lr if lr > 0 else r
    s = -r[0] * n[1] + r[1] * n[0]
    co = -float(np.dot(r, n))
    return (s - math.sin(phi)) ** 2 + (co - math.cos(phi)) ** 2


class Obj:
    """Reference object: kind in wall, ris, vertex."""

    def __init__(self, kind, xys, phi=None):
        self.kind = kind
        self.xys = np.asarray(xys, float)
        self.phi = phi

    def param(self, p):
        o, t = self.xys[0], self.xys[1] - self.xys[0]
        L2 = float(t @ t)
        return float(t @ (p - o)) / (L2 if L2 else 1.0)

    def contains3(self, p, err, eps):
        if self.kind == "vertex":
            return True
        t = self.xys[1] - self.xys[0]
        L2 = float(t @ t)
        M = max(np.abs(self.xys).max(), np.abs(p).max())
        v = self.param(p)
        if L2 == 0.0:
            return True if v == 0.0 else None
        L = math.sqrt(L2)
        e = (1.5 * err + 8 * eps * M) / L + 8 * eps * (1 + abs(v)) + 4 * eps * M * (1 + abs(v)) / L
        return within3(v, 0.0, 1.0, 2 * e)

    def intersects3(self, p, q, patch, tol, ep, eq, eps):
        if self.kind == "vertex":
            return False
        t = self.xys[1] - self.xys[0]
        p1, p2 = self.xys[0] - patch * t, self.xys[1] + patch * t
        M = max(np.abs(p1).max(), np.abs(p2).max(), np.abs(self.xys).max())
        return seg3(p1, p2, p, q, tol, 4 * eps * M, ep, eq, eps)

    def loss(self, a, b, c):
        if self.kind == "vertex":
            return 0.0
        if self.kind == "ris":
            return ris_loss(self.xys, self.phi, a, b, c)
        return bounce_loss(self.xys, a, b, c)


def on_objects3(pts, errs, inter, eps):
    return and3(True, *[o.contains3(pts[k + 1], errs[k + 1], eps) for k, o in enumerate(inter)])


def intersects3(pts, errs, objs, cand, patch, eps, tol=TOL_SEG):
    cand = [-1, *[int(c) for c in cand], -1]
    acc = False
    for k in range(len(pts) - 1):
        for j, o in enumerate(objs):
            if j == cand[k] or j == cand[k + 1]:
                continue
            acc = or3(acc, o.intersects3(pts[k], pts[k + 1], patch, tol, errs[k], errs[k + 1], eps))
            if acc is True:
                return True
    return acc


def path_verdict(walls, objs, cand, tx, rx, eps, rng, patch=0.0):
    """Definite verdict of the image path of a candidate in a wall scene.

    Returns (verdict, pts, errs). A bounce that is not a reflection (point behind
    the mirror) has loss 4 and is invalid.
    """
    cand = list(cand)
    wl = np.array([walls[i] for i in cand]).reshape(-1, 2, 2)
    if any((w[0] == w[1]).all() for w in wl):
        return None, None, None
    pts, errs = trace_cond(wl, np.asarray(tx, float), np.asarray(rx, float), eps, rng)
    if pts is None:
        return None, None, None
    inter = [objs[i] for i in cand]
    on = on_objects3(pts, errs, inter, eps)
    # loss: 0 for a reflection, 4 when the path goes through the wall
    loss = True
    for k, w in enumerate(wl):
        a, b, c = pts[k], pts[k + 1], pts[k + 2]
        t = w[1] - w[0]
        n = np.array([t[1], -t[0]]) / math.hypot(*t)
        da, dc = float(np.dot(a - b, n)), float(np.dot(c - b, n))
        ea, ec = errs[k] + errs[k + 1], errs[k + 1] + errs[k + 2]
        la, lc = math.hypot(*(a - b)), math.hypot(*(c - b))
        # direction errors must be small for the loss to be near 0 or 4
        if min(la, lc) == 0 or ea / max(la, 1e-300) > 0.01 or ec / max(lc, 1e-300) > 0.01:
            loss = and3(loss, None)
        elif abs(da) < 4 * ea or abs(dc) < 4 * ec:
            loss = and3(loss, None)
        else:
            grazing = min(abs(da) / la, abs(dc) / lc)
            if da * dc > 0:
                loss = and3(loss, True)
            else:
                loss = and3(loss, False if 4 * grazing**2 > 0.02 else None)
    hit = intersects3(pts, errs, objs, cand, patch, eps)
    return and3(on, loss, not3(hit)), pts, errs


def length(pts):
    return float(np.hypot(*np.diff(np.asarray(pts, float), axis=0).T).sum())
