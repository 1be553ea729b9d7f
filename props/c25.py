"""Log of the artists that plotting adds to the axes, against the scene plotted."""

from collections.abc import MutableSequence

import numpy as np

from lib import gen

ID = "C25"
N = {"quick": {"f32": 800, "x64": 480}, "thorough": {"f32": 4000, "x64": 4000}}
SHARDS = {"f32": 4, "x64": 4}
MIN = {"quick": {"plots": 5000, "artists": 12000, "scatter": 3000, "lines": 2500, "annotations": 1000, "not_annotated": 300, "overridden": 1000, "default_style": 1000, "parts_off": 200,
                 "positional_style": 100, "offset": 150, "scene_plots": 1500, "busy_axes": 200}}
RULE = """Random points, vertices, rays, walls, RIS, paths and mixed scenes plotted on axes that already hold artists, with every selection of parts, annotations, offsets,
positional and keyword styles; the axes' children before and after are compared with the returned list and the scene; distinct = (object, options)."""
ASSUMES = ["positions compared within float32 rounding; node names are not empty"]
COLORS = ["red", "blue", "green", "orange", "black", "purple", "#12ab9f"]


def rgba(c):
    from matplotlib.colors import to_rgba

    return np.array(to_rgba(c))


class Watch:
    """Artists added to the axes inside the block."""

    def __init__(self, ax):
        self.ax = ax

    def __enter__(self):
        self.before = [id(a) for a in self.ax.get_children()]
        self.keep = list(self.ax.get_children())
        return self

    def __exit__(self, *exc):
        now = self.ax.get_children()
        self.added = [a for a in now if id(a) not in set(self.before)]
        self.lost = [i for i in self.before if i not in {id(a) for a in now}]


def judge(ctx, ax, plot, want, what):
    """want: one dict per artist expected, in order."""
    from matplotlib.collections import PathCollection
    from matplotlib.lines import Line2D
    from matplotlib.text import Annotation

    with Watch(ax) as w:
        got = plot()
    ctx.ev("plots")
    ctx.ev("busy_axes", len(w.before) > 12)
    if not ctx.check(isinstance(got, MutableSequence) and len(got) == len(want), "returned-artists", of=what, got=[str(a) for a in got], want=[e["kind"] for e in want]):
        return
    ctx.check(not w.lost, "artists-removed", of=what)
    ctx.check(len(w.added) == len(got) and {id(a) for a in w.added} == {id(a) for a in got} and len({id(a) for a in got}) == len(got), "artists-on-axes-differ-from-returned",
              of=what, added=[str(a) for a in w.added], returned=[str(a) for a in got])
    t = 4e-7 if not ctx.x64 else 1e-15
    for k, (a, e) in enumerate(zip(got, want)):
        ctx.ev("artists")
        kind = {"scatter": PathCollection, "line": Line2D, "text": Annotation}[e["kind"]]
        if not ctx.check(isinstance(a, kind), "wrong-artist", of=what, k=k, got=str(a), want=e["kind"]):
            continue
        if e["kind"] == "scatter":
            ctx.ev("scatter")
            xy = np.asarray(np.ma.getdata(a.get_offsets()), float)
            ctx.check(xy.shape == (1, 2) and np.abs(xy[0] - e["xy"]).max() <= t * max(1, np.abs(e["xy"]).max()), "wrong-position", of=what, k=k, got=xy, want=e["xy"])
            colors = {"face": a.get_facecolor(), "edge": a.get_edgecolor()}
            if "s" in e:
                ctx.check(np.allclose(a.get_sizes(), [e["s"]]), "style", of=what, got=a.get_sizes(), want=e["s"])
            if "marker" in e:
                from matplotlib.markers import MarkerStyle
                m = MarkerStyle(e["marker"])
                v = m.get_path().transformed(m.get_transform()).vertices
                ctx.check(np.allclose(a.get_paths()[0].vertices, v), "style-marker", of=what, want=e["marker"])
        elif e["kind"] == "line":
            ctx.ev("lines")
            xy = np.stack([np.asarray(a.get_xdata(), float), np.asarray(a.get_ydata(), float)], 1)
            ctx.check(xy.shape == e["xys"].shape and np.abs(xy - e["xys"]).max() <= t * max(1, np.abs(e["xys"]).max()), "wrong-position", of=what, k=k, got=xy, want=e["xys"])
            colors = {"face": rgba(a.get_color())}
            if "linestyle" in e:
                ctx.check(a.get_linestyle() == e["linestyle"], "style-linestyle", of=what, got=a.get_linestyle(), want=e["linestyle"])
        else:
            ctx.ev("annotations")
            ctx.check(a.get_text() == e["text"], "wrong-annotation", of=what, k=k, got=a.get_text(), want=e["text"])
            pos, xy = np.asarray(a.get_position(), float), np.asarray(a.xy, float)
            ctx.check(np.abs(xy - e["xy"]).max() <= t * max(1, np.abs(e["xy"]).max()), "wrong-position", of=what, k=k, got=xy, want=e["xy"])
            off = e.get("offset", (0, 0))
            ctx.ev("offset", tuple(off) != (0, 0))
            ctx.check(np.abs(pos - e["xy"] - off).max() <= 2 * t * max(1, np.abs(e["xy"]).max(), np.abs(off).max()), "wrong-annotation-offset", of=what, got=pos, want=e["xy"] + off)
            colors = {"face": rgba(a.get_color())}
            if "fontsize" in e:
                ctx.check(a.get_fontsize() == e["fontsize"], "style-annotation", of=what, got=a.get_fontsize(), want=e["fontsize"])
        for part in ("face", "edge"):
            if part + "color" in e:
                c, want_c = np.asarray(colors[part], float).reshape(-1, 4), rgba(e[part + "color"])
                if e.get("alpha") is not None and e["kind"] == "scatter":
                    want_c[3] = e["alpha"]
                ctx.check(len(c) == 1 and np.allclose(c[0], want_c), "style-color", of=what, k=k, got=c, want=want_c)
        for prop in ("alpha", "zorder", "label"):
            if e.get(prop) is not None:
                ctx.check(getattr(a, "get_" + prop)() == e[prop], "style-" + prop, of=what, k=k, got=getattr(a, "get_" + prop)(), want=e[prop])


def style(ctx, kind):
    """Random keyword arguments and what they ask of the artist."""
    rng = ctx.rng
    kw = {}
    if rng.random() < 0.25:
        ctx.ev("default_style")
        return {}
    if rng.random() < 0.5:
        kw["color"] = str(rng.choice(COLORS))
    if rng.random() < 0.3:
        kw["alpha"] = float(rng.choice([0.25, 0.5, 1.0]))
    if rng.random() < 0.3:
        kw["zorder"] = int(rng.integers(-2, 9))
    if rng.random() < 0.2:
        kw["label"] = "été"
    if rng.random() < 0.3:
        kw.update({"marker": str(rng.choice(["x", "s", "^"]))} if kind == "scatter" else {"linestyle": str(rng.choice(["--", ":", "-."]))})
    ctx.ev("overridden" if kw else "default_style")
    return kw


def expect(base, kw):
    e = dict(base)
    for k, v in kw.items():
        if k == "color":
            e["facecolor"] = v
            if e["kind"] == "scatter":
                e["edgecolor"] = v
        elif k in ("alpha", "zorder", "label", "marker", "linestyle", "s"):
            e[k] = v
    if e["kind"] == "scatter" and e.get("marker") in ("x",):
        e.pop("facecolor", None), e.pop("edgecolor", None)  # unfilled markers: matplotlib decides which of the two is used
    return e


def leaves(x):
    import jax

    a, b = jax.tree_util.tree_flatten(x)
    return [np.asarray(v).tobytes() for v in a], str(b)


def run_case(ctx, index):
    import matplotlib.pyplot as plt

    fig, ax = plt.subplots()
    try:
        if ctx.rng.random() < 0.5:
            ax.plot([0, 1], [0, 1])
            ax.scatter(0.5, 0.5)
            ax.text(0, 0, "before")
        (singles if index % 2 == 0 else scenes)(ctx, index // 2, ax)
        if index % 16 == 3:
            fig.canvas.draw()  # what was plotted can be drawn
    finally:
        plt.close(fig)


def singles(ctx, k, ax):
    import jax.numpy as jnp
    from differt2d.geometry import RIS, FermatPath, ImagePath, MinPath, Path, Point, Ray, Vertex, Wall

    rng = ctx.rng
    for cls in (Point, Vertex, Point):
        xy = gen.q(rng.normal(size=2) * 10.0 ** rng.uniform(-2, 3))
        o = cls(xy=jnp.array(xy))
        base = dict(kind="scatter", xy=xy, marker="o")
        kw = style(ctx, "scatter")
        if cls is Point:
            base.update(facecolor="red", edgecolor="red")
            want = [expect(base, kw)]
        else:
            kw.pop("color", None), kw.pop("alpha", None)
            if kw.get("marker") == "x":
                kw["marker"] = "s"
            base.update(facecolor=(1.0, 1.0, 0.0, 0.5), edgecolor="black")
            if rng.random() < 0.5:
                kw["facecolors"] = base["facecolor"] = str(rng.choice(COLORS))
            if rng.random() < 0.5:
                kw["edgecolors"] = base["edgecolor"] = str(rng.choice(COLORS))
            want = [expect(base, kw)]
        args = ()
        if rng.random() < 0.2:
            args = (30.0,)
            want[0]["s"] = 30.0
            ctx.ev("positional_style")
        if rng.random() < 0.6:
            text = str(rng.choice(["tx", "名", "a b", "$x_0$", "0"]))
            t = dict(kind="text", text=text, xy=xy)
            kw["annotate"] = text
            if rng.random() < 0.6:
                off = gen.q(rng.normal(size=2))
                kw["annotate_offset"], t["offset"] = tuple(map(float, off)), off
            if rng.random() < 0.4:
                kw["annotate_kwargs"] = {"fontsize": 17.0, "color": "purple"}
                t.update(fontsize=17.0, facecolor="purple")
            want.append(t)
        else:
            ctx.ev("not_annotated")
            if rng.random() < 0.3:
                kw["annotate"] = None
        given = {a: dict(b) if isinstance(b, dict) else b for a, b in kw.items()}
        before = leaves(o)
        ctx.case_info = dict(cls=cls.__name__, xy=xy, args=args, kwargs=kw)
        ctx.sig(cls.__name__, xy.tobytes(), sorted(kw))
        judge(ctx, ax, lambda: o.plot(ax, *args, **kw), want, cls.__name__)
        ctx.check(leaves(o) == before and kw == given, "plotting-changed-its-arguments", of=cls.__name__)
    for cls, color in ((Ray, "blue"), (Wall, "blue"), (RIS, "green"), ([Path, ImagePath, FermatPath, MinPath][k % 4], "orange")):
        n = 2 if cls in (Ray, Wall, RIS) else int(rng.choice([2, 3, 5]))
        xys = gen.q(rng.normal(size=(n, 2)) * 10.0 ** rng.uniform(-2, 3))
        o = cls(xys=jnp.array(xys))
        kw = style(ctx, "line")
        want = expect(dict(kind="line", xys=xys, facecolor=color, linestyle="-"), kw)
        args = ()
        if rng.random() < 0.3 and "linestyle" not in kw:
            args = ("--",)
            want["linestyle"] = "--"
            ctx.ev("positional_style")
        before = leaves(o)
        ctx.case_info = dict(cls=cls.__name__, xys=xys, args=args, kwargs=kw)
        ctx.sig(cls.__name__, xys.tobytes(), sorted(kw))
        judge(ctx, ax, lambda: o.plot(ax, *args, **kw), [want], cls.__name__)
        ctx.check(leaves(o) == before, "plotting-changed-its-arguments", of=cls.__name__)
    ctx.sample(ctx.case_info)


def scenes(ctx, k, ax):
    import jax.numpy as jnp
    from differt2d.geometry import RIS, Point, Vertex, Wall
    from differt2d.scene import Scene

    rng = ctx.rng
    for _ in range(4):
        ntx, nrx, no = int(rng.integers(0, 4)), int(rng.integers(0, 4)), int(rng.integers(0, 5))
        txn, rxn = gen.names(rng, ntx, "tx"), gen.names(rng, nrx, "rx")
        T, R, W = gen.q(rng.normal(size=(ntx, 2))), gen.q(rng.normal(size=(nrx, 2))), gen.q(rng.normal(size=(no, 2, 2)))
        kinds = [str(rng.choice(["wall", "ris", "vertex"], p=[0.5, 0.25, 0.25])) for _ in range(no)]
        objs = [Vertex(xy=jnp.array(w[0])) if c == "vertex" else (Wall if c == "wall" else RIS)(xys=jnp.array(w)) for c, w in zip(kinds, W)]
        s = Scene(transmitters={a: Point(xy=jnp.array(p)) for a, p in zip(txn, T)}, receivers={a: Point(xy=jnp.array(p)) for a, p in zip(rxn, R)}, objects=objs)
        on = {p: bool(rng.random() < 0.7) for p in ("transmitters", "objects", "receivers")}
        kw = {p: v for p, v in on.items() if not v or rng.random() < 0.5}
        ann = bool(rng.random() < 0.6)
        if not ann or rng.random() < 0.3:
            kw["annotate"] = ann
        ctx.ev("parts_off", not all(on.values()))
        common, per = {}, {p: {} for p in on}
        if rng.random() < 0.4:
            common["zorder"] = int(rng.integers(0, 9))
        if rng.random() < 0.3 and "vertex" not in kinds:
            common["color"] = str(rng.choice(COLORS))
        if rng.random() < 0.3 and "vertex" not in kinds:
            common["alpha"] = 0.5
        args = {p: () for p in on}
        for p in on:
            kind = "line" if p == "objects" else "scatter"
            if p == "objects" and "vertex" in kinds:
                continue
            if rng.random() < 0.4:
                per[p] = style(ctx, kind)
                kw[p + "_kwargs"] = dict(per[p])
            if rng.random() < 0.25 and "linestyle" not in per[p]:
                args[p] = ("--",) if p == "objects" else (44.0,)
                kw[p + "_args"] = args[p]
                ctx.ev("positional_style")
        offs = {}
        for p in ("transmitters", "receivers"):
            if ann and rng.random() < 0.3:
                off = gen.q(rng.normal(size=2))
                kw[p + "_kwargs"] = {**kw.get(p + "_kwargs", {}), "annotate_offset": tuple(map(float, off))}
                offs[p] = off
        want = []

        def nodes(p, names, P, color):
            for nm, xy in zip(names, P):
                e = expect(dict(kind="scatter", xy=xy, marker="o", facecolor=color, edgecolor=color), {**common, **per[p]})
                if args[p]:
                    e["s"] = 44.0
                want.append(e)
                if ann:
                    want.append(dict(kind="text", text=nm, xy=xy, offset=offs.get(p, (0, 0))))
                else:
                    ctx.ev("not_annotated")

        if on["transmitters"]:
            nodes("transmitters", txn, T, "blue")
        if on["objects"]:
            for c, w in zip(kinds, W):
                if c == "vertex":
                    want.append(expect(dict(kind="scatter", xy=w[0], marker="o", facecolor=(1.0, 1.0, 0.0, 0.5), edgecolor="black"), common))
                else:
                    e = expect(dict(kind="line", xys=w, facecolor="blue" if c == "wall" else "green", linestyle="-"), {**common, **per["objects"]})
                    if args["objects"]:
                        e["linestyle"] = "--"
                    want.append(e)
        if on["receivers"]:
            nodes("receivers", rxn, R, "green")
        given = {a: dict(b) if isinstance(b, dict) else b for a, b in kw.items()}
        before = leaves(s)
        ctx.case_info = dict(tx=T, rx=R, objects=W, kinds=kinds, kwargs=kw, common=common)
        ctx.sig(T.tobytes(), W.tobytes(), R.tobytes(), sorted(kw), sorted(common))
        judge(ctx, ax, lambda: s.plot(ax, **kw, **common), want, "Scene")
        ctx.ev("scene_plots")
        ctx.check(leaves(s) == before and kw == given, "plotting-changed-its-arguments", of="Scene")
    ctx.sample(dict(kinds=kinds, kwargs=kw, artists=len(want)))
