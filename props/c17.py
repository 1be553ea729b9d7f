"""Well-formedness contract of the path classes, also with user-defined objects."""

import math

import numpy as np

from lib import gen, ref

ID = "C17"
N = {"quick": {"f32": 44, "x64": 44}, "thorough": {"f32": 700, "x64": 700}}
SHARDS = {"f32": 4, "x64": 4}
MIN = {"quick": {"paths": 900, "points_on_objects": 1500, "losses": 700, "Path": 200, "ImagePath": 60, "FermatPath": 200, "MinPath": 200,
                 "with_vertex": 150, "with_ris": 200, "with_custom": 300, "empty": 20, "parameters_recovered": 100, "node_types": 60, "mixed_precision": 90, "image_mixed_classes": 40}}
RULE = """Random sequences of 0-4 objects among walls, RIS, vertices, user-defined walls with a name and user-defined objects of 0-3 parameters, in single, double and mixed precision, four path classes
and user-defined subclasses, nodes as arrays, points and vertices, with random optimizer options; distinct = constructed
paths with at least one interaction."""
ASSUMES = ["scores are recomputed from the returned points; legs shorter than rounding allows are not compared",
           "ImagePath is used with walls of any class (it needs images), the others with any object"]
SEQS = ["w", "wv", "r", "wrw", "v", "c2", "ww", "c0w", "vw", "wc1r", "wwv", "c3", "rr", "c1c2", "vv", "rvw", "www", "wc2v", "c2w", "vc1w",
        "rw", "wvw", "c1", "", "wwww", "c0c2", "rrr", "vrv", "c2c1c0", "wr", "c1vw", "wwr", "ss", "sws", "rs"]


def parse(seq):
    out, i = [], 0
    while i < len(seq):
        if seq[i] == "c":
            out.append(seq[i:i + 2])
            i += 2
        else:
            out.append(seq[i])
            i += 1
    return out


def setup(ctx):
    from differt2d.geometry import FermatPath, ImagePath, MinPath, Path

    class MyImage(ImagePath):
        pass

    class MyFermat(FermatPath):
        pass

    ctx.state["cls"] = dict(Path=Path, ImagePath=ImagePath, FermatPath=FermatPath, MinPath=MinPath)
    ctx.state["sub"] = dict(ImagePath=MyImage, FermatPath=MyFermat)


def build(rng, kinds, arr=None):
    import jax.numpy as jnp
    from differt2d.geometry import RIS, Vertex, Wall
    from lib import custom

    objs, refs = [], []
    arr = arr or jnp.array
    for k in kinds:
        w = gen.q(rng.uniform(-1, 1, (2, 2)))
        while np.hypot(*(w[1] - w[0])) < 0.1:
            w = gen.q(rng.uniform(-1, 1, (2, 2)))
        if k == "w":
            objs.append(Wall(xys=arr(w)))
            refs.append(("w", w, None))
        elif k == "s":
            objs.append(custom.named_wall()(xys=arr(w), name=f"wall {len(objs)}"))
            refs.append(("w", w, None))
        elif k == "r":
            phi = float(gen.q(rng.uniform(-1.5, 1.5)))
            objs.append(RIS(xys=arr(w), phi=jnp.array(phi)))
            refs.append(("r", w, phi))
        elif k == "v":
            objs.append(Vertex(xy=arr(w[0])))
            refs.append(("v", w, None))
        else:
            m = int(k[1])
            pts = gen.q(rng.uniform(-1, 1, (m + 1, 2)))
            objs.append(custom.Blob(jnp.array(pts)))
            refs.append((k, pts, m))
    return objs, refs


def run_case(ctx, index):
    import jax.numpy as jnp
    from differt2d.geometry import Point, Vertex

    rng, S = ctx.rng, ctx.state
    kinds = parse(SEQS[(index + 8 * ctx.x64) % len(SEQS)])
    n = len(kinds)
    same = all(k in "wrs" for k in kinds)
    for nm, base in S["cls"].items():
        if nm == "ImagePath" and not same:
            continue
        for draw in range(5):
            cls = base
            # nodes and objects of several precisions
            mixed = ctx.x64 and draw == 3
            arr = (lambda v: jnp.array(v, [jnp.float32, jnp.float64][int(rng.integers(2))])) if mixed else jnp.array
            objs, refs = build(rng, kinds, arr)
            tx, rx = gen.q(rng.uniform(-1.2, 1.2, (2, 2)))
            node = draw if draw < 3 else 0
            if node and index % 4 and n:
                node = 0
            mk = [arr, lambda p: Point(xy=jnp.array(p)), lambda p: Vertex(xy=jnp.array(p))][node]
            if node:
                ctx.ev("node_types")
            kw = {}
            if nm in ("FermatPath", "MinPath"):
                kw = dict(key=ctx.key(), steps=[30, 30, 30, 0, 0][draw] if n else 10)
                if draw == 2 and index % 2:
                    kw["many"] = 3
            elif index % 4 == 1 and draw == 0:
                kw = dict(key=ctx.key(), steps=7, many=2)  # accepted and unused
            if draw == 2 and nm in S["sub"] and index % 4 == 2:
                cls = S["sub"][nm]
            ctx.case_info = dict(cls=cls.__name__, objects=[(k, p) for k, p, _ in refs], tx=tx, rx=rx, kw={k: v for k, v in kw.items() if k != "key"})
            p = cls.from_tx_objects_rx(mk(tx), tuple(objs) if draw == 1 and index % 4 == 3 else objs, mk(rx), **kw)
            ctx.ev("mixed_precision", mixed)
            ctx.ev("image_mixed_classes", nm == "ImagePath" and len(set(kinds)) > 1)
            judge(ctx, cls, nm, p, refs, tx, rx, kw, 1.2e-7 if mixed else ctx.eps)
    ctx.sample(dict(sequence=kinds, points=p.xys, loss=p.loss))


def judge(ctx, cls, nm, p, refs, tx, rx, kw, eps):
    n = len(refs)
    ctx.ev("paths")
    ctx.ev(nm)
    ctx.ev("empty", n == 0)
    ctx.ev("with_vertex", any(r[0] == "v" for r in refs))
    ctx.ev("with_ris", any(r[0] == "r" for r in refs))
    ctx.ev("with_custom", any(r[0][0] == "c" for r in refs))
    ctx.check(type(p) is cls, "class", got=type(p).__name__)
    x, loss = np.asarray(p.xys), np.asarray(p.loss)
    if not ctx.check(x.shape == (n + 2, 2) and loss.shape == () and np.issubdtype(x.dtype, np.floating) and np.issubdtype(loss.dtype, np.floating),
                     "shape-or-type", points=x.shape, loss=loss.shape, dtypes=[str(x.dtype), str(loss.dtype)]):
        return
    x, loss = x.astype(float), float(loss)
    ctx.check(np.isfinite(x).all() and math.isfinite(loss), "not-finite", points=x, loss=loss)
    ctx.check((x[0] == tx).all() and (x[-1] == rx).all(), "end-points", got=x[[0, -1]])
    ctx.check(loss >= 0, "negative-loss", loss=loss)
    size = np.abs(x).max() + 1
    us, total, err = [], 0.0, 0.0
    for k, (kind, c, extra) in enumerate(refs):
        q = x[k + 1]
        ctx.ev("points_on_objects")
        tol = 32 * eps * size
        if kind in ("w", "r") or kind == "c1":
            o, d = (c[0], c[1] - c[0]) if kind != "c1" else (c[0], c[1])
            L = math.hypot(*d)
            off = abs(float(np.cross(d, q - o))) / L
            # the image method may go far away for nearly parallel legs
            ctx.check(off <= tol * (1 if nm != "ImagePath" else 64), "point-off-its-object", at=k, kind=kind, off=off, got=q)
            us.append(float((q - o) @ d) / L**2)
            if nm == "Path":
                ctx.check(np.abs(q - (o + 0.5 * d)).max() <= tol, "not-the-midpoint", at=k, got=q, want=o + 0.5 * d)
        elif kind in ("v", "c0"):
            ctx.check((q == c[0]).all(), "point-off-its-object", at=k, kind=kind, got=q, want=c[0])
        elif kind == "c2" and abs(np.linalg.det(c[1:])) > 0.1:
            u = np.linalg.solve(c[1:].T, q - c[0])
            us += list(u)
            if nm == "Path":
                ctx.check(np.abs(u - 0.5).max() <= 100 * tol, "not-the-midpoint", at=k, got=q)
        elif nm == "Path":
            ctx.check(np.abs(q - (c[0] + 0.5 * c[1:].sum(0))).max() <= tol, "not-the-midpoint", at=k, got=q)
        a, b, e = x[k], q, x[k + 2]
        la, lc = math.hypot(*(b - a)), math.hypot(*(e - b))
        if kind[0] == "c":
            s = (la**2 - lc**2) ** 2
            total += s
            err += 64 * eps * size**2 * (la**2 + lc**2 + abs(la**2 - lc**2)) * 4
        elif kind in "wr":
            if min(la, lc) < 1e-3:
                err = math.inf
                continue
            s = ref.bounce_loss(c, a, b, e) if kind == "w" else ref.ris_loss(c, extra, a, b, e)
            de = 32 * eps * (size / la + size / lc + size / 0.1)
            total += s
            err += 4 * de * (math.sqrt(s) + de)
    if nm == "Path" or n == 0:
        ctx.check(loss == 0, "loss-not-zero", loss=loss)
    elif math.isfinite(err) and err < 0.1 * (1 + total):
        ctx.ev("losses")
        ctx.check(abs(loss - total) <= err + 32 * eps * total, "loss-is-not-the-sum-of-scores", got=loss, want=total, bound=err)
    if nm in ("FermatPath", "MinPath") and kw.get("steps") == 0 and us:
        # random starts seen through the points: every unknown has its own value
        ctx.ev("parameters_recovered")
        us = np.array(us)
        ctx.check((us > -1e-3).all() and (us < 1 + 1e-3).all(), "start-outside-the-unit-cube", got=us)
        d = np.abs(us[:, None] - us[None]) + np.eye(len(us))
        ctx.check(len(us) < 2 or d.min() > 1e-6 * (not ctx.x64) + 1e-9, "unknown-shared-between-objects", got=us)
    if n:
        ctx.sig(cls.__name__, x.tobytes())
