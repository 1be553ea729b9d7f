"""Generated GeoJSON documents against the walls recorded while generating them."""

import io
import json

import numpy as np

ID = "C21"
N = {"quick": {"f32": 144, "x64": 96}, "thorough": {"f32": 4000, "x64": 4000}}
SHARDS = {"f32": 4, "x64": 4}
MIN = {"quick": {"documents": 200, "walls": 1000, "holes": 80, "non_polygon": 100, "no_geometry": 30, "no_walls": 30, "closed_rings": 80, "open_rings": 80, "src_str": 200, "src_bytes": 200, "src_bytearray": 200, "src_textio": 200, "src_bytesio": 200, "src_file": 60, "src_reader": 60, "locations": 2000, "altitude": 10, "empty_ring": 5, "unicode": 80}}
RULE = """Random feature collections (every geometry type, holes, open and closed rings, rings of 0 to 12 vertices, clockwise or not, altitudes, integers, exponents,
null or missing members, foreign members, unicode, any formatting) read from all source types and locations; walls compared with the ones recorded by the generator;
distinct = documents."""
ASSUMES = ["documents are JSON objects following the GeoJSON grammar; coordinates are compared after rounding to the working precision"]
LOCS = {"N": (0.5, 1), "E": (1, 0.5), "S": (0.5, 0), "W": (0, 0.5), "C": (0.5, 0.5), "NE": (1, 1), "NW": (0, 1), "SE": (1, 0), "SW": (0, 0)}
WORDS = ["building", "name", "é", "名前", "a\"b", "\\", "\n", "", "Polygon", "coordinates", "geometry", "\U0001f3e0", "type"]


def num(ctx, x):
    r = ctx.rng.random()
    if r < 0.15:
        return int(round(x))
    if r < 0.3:
        return round(float(x), 3)
    if r < 0.35:
        return float(x) * 1e-9
    return float(x)


def pos(ctx, c, s, alt):
    p = [num(ctx, c[0] + s[0] * ctx.rng.normal()), num(ctx, c[1] + s[1] * ctx.rng.normal())]
    return p + [round(float(ctx.rng.normal() * 50), 2)] if alt else p


def ring(ctx, c, s, alt, n=None):
    rng = ctx.rng
    n = int(rng.choice([0, 1, 2, 3, 3, 4, 4, 5, 8, 12], p=[0.08, 0.03, 0.04, 0.2, 0.1, 0.15, 0.1, 0.1, 0.1, 0.1])) if n is None else n
    pts = [pos(ctx, c, s, alt) for _ in range(n)]
    if n >= 3 and rng.random() < 0.6:
        pts.append(list(pts[0]))
        ctx.ev("closed_rings")
    elif n >= 3:
        ctx.ev("open_rings")
    return pts


def props(ctx, depth=0):
    rng = ctx.rng
    out = {}
    for _ in range(int(rng.integers(0, 4))):
        k = str(rng.choice(WORDS))
        ctx.ev("unicode", any(ord(c) > 127 for c in k))
        r = rng.random()
        out[k] = (str(rng.choice(WORDS)) if r < 0.4 else None if r < 0.5 else props(ctx, depth + 1) if r < 0.6 and depth < 2 else
                  [[0, 0], [1, 1]] if r < 0.7 else bool(r < 0.8) if r < 0.85 else num(ctx, rng.normal()))
    return out


def geometry(ctx, c, s, walls):
    rng = ctx.rng
    alt = rng.random() < 0.1
    r = rng.random()
    if r < 0.6:
        ext = ring(ctx, c, s, alt)
        ctx.ev("altitude", alt and len(ext) > 0)
        rings = [ext]
        for _ in range(int(rng.choice([0, 0, 1, 2]))):
            rings.append(ring(ctx, c, s, alt))
            ctx.ev("holes")
        n = len(ext)
        ctx.ev("empty_ring", n == 0)
        for i in range(n):
            walls.append((ext[(i + n - 1) % n][:2], ext[i][:2]))
        g = {"type": "Polygon", "coordinates": rings}
        if n == 0 and rng.random() < 0.5:
            g["coordinates"] = []
    else:
        ctx.ev("non_polygon")
        P, R = lambda: pos(ctx, c, s, alt), lambda: ring(ctx, c, s, alt, 4)
        t = str(rng.choice(["Point", "MultiPoint", "LineString", "MultiLineString", "MultiPolygon", "GeometryCollection"]))
        if t == "GeometryCollection":
            g = {"type": t, "geometries": [{"type": "Polygon", "coordinates": [R()]}, {"type": "Point", "coordinates": P()}][: int(rng.integers(0, 3))]}
        else:
            g = {"type": t, "coordinates": {"Point": P, "MultiPoint": lambda: [P(), P()], "LineString": lambda: [P(), P(), P()],
                                            "MultiLineString": lambda: [[P(), P()], [P(), P()]], "MultiPolygon": lambda: [[R()], [R(), R()]]}[t]()}
    if rng.random() < 0.2:
        g["bbox"] = [0, 0, 1, 1]
    if rng.random() < 0.2:
        g = dict(reversed(list(g.items())))
    return g


def document(ctx):
    rng = ctx.rng
    walls, feats = [], []
    c = rng.uniform(-180, 180, 2) if rng.random() < 0.5 else np.array([4.62, 50.66]) if rng.random() < 0.5 else rng.normal(size=2)
    s = np.array([1.0, 1.0]) * 10.0 ** rng.uniform(-3, 1) * rng.uniform(0.2, 1, 2)
    for _ in range(int(rng.choice([0, 1, 1, 2, 3, 4]))):
        f = {"type": "Feature", "properties": props(ctx) if rng.random() < 0.8 else None}
        r = rng.random()
        if r < 0.12:
            ctx.ev("no_geometry")
            if r < 0.06:
                f["geometry"] = None
        else:
            f["geometry"] = geometry(ctx, c, s, walls)
        if rng.random() < 0.3:
            f["id"] = str(rng.choice(WORDS))
        if rng.random() < 0.2:
            f["coordinates"] = [[[0, 0], [1, 0], [1, 1]]]
        items = list(f.items())
        feats.append(dict([items[i] for i in rng.permutation(len(items))]))
    d = {"type": "FeatureCollection", **props(ctx), "features": feats}
    d["type"] = "FeatureCollection"
    if not feats and rng.random() < 0.5:
        del d["features"]
    ctx.ev("documents")
    return json.dumps(d, ensure_ascii=bool(rng.random() < 0.5), indent=None if rng.random() < 0.5 else int(rng.integers(0, 5))), walls


class Reader:
    """A user's file-like object: nothing but read()."""

    def __init__(self, data):
        self.data = data

    def read(self):
        return self.data


def run_case(ctx, index):
    import tempfile

    from differt2d.geometry import Point, Wall
    from differt2d.scene import Scene

    rng = ctx.rng
    text, walls = document(ctx)
    ctx.case_info = dict(document=text[:3000])
    dt = np.float64 if ctx.x64 else np.float32
    want = np.array(walls, dtype=np.float64).reshape(-1, 2, 2).astype(dt)
    ctx.ev("walls", len(walls))
    ctx.ev("no_walls", not walls)
    ctx.sig(text)
    names = list(LOCS)

    def judge(s, lt, lr, src):
        ctx.ev("src_" + src)
        if not ctx.check(type(s) is Scene and len(s.objects) == len(want), "number-of-walls", source=src, got=len(s.objects), want=len(want)):
            return
        for k, (o, w) in enumerate(zip(s.objects, want)):
            xys = np.asarray(o.xys)
            ctx.check(type(o) is Wall and xys.dtype == dt and (xys == w).all(), "wrong-wall", source=src, k=k, got=xys, want=w)
        ok = ctx.check(list(s.transmitters) == ["tx"] and list(s.receivers) == ["rx"], "node-names", tx=list(s.transmitters), rx=list(s.receivers))
        if not ok:
            return
        for node, loc, dflt, nm in ((s.transmitters["tx"], lt, (0, 0), "tx"), (s.receivers["rx"], lr, (1, 1), "rx")):
            ctx.ev("locations")
            if len(want):
                lo, hi = want.reshape(-1, 2).min(0).astype(float), want.reshape(-1, 2).max(0).astype(float)
                p = lo + np.array(LOCS[loc]) * (hi - lo)
                t = 4 * ctx.eps * np.abs(want).max()
            else:
                p, t = np.array(dflt, float), 0.0
            got = np.asarray(node.xy, float)
            ctx.check(type(node) is Point and np.abs(got - p).max() <= t, f"{nm}-misplaced", location=loc, got=got, want=p, source=src)

    judge(Scene.from_geojson(text), "NW", "SE", "str")
    sources = [("str", text), ("bytes", text.encode()), ("bytearray", bytearray(text.encode())), ("textio", io.StringIO(text)), ("bytesio", io.BytesIO(text.encode()))]
    if index % 4 < 2:
        sources += [("file", None), ("reader", Reader(text if index % 2 else text.encode()))]
    for k, (src, v) in enumerate(sources):
        lt, lr = str(rng.choice(names)), str(rng.choice(names))
        how = int(rng.integers(3))

        def call(v, lt=lt, lr=lr, how=how):
            return (Scene.from_geojson(v, lt, lr) if how == 0 else Scene.from_geojson(v, tx_loc=lt, rx_loc=lr) if how == 1 else Scene.from_geojson(v, lt, rx_loc=lr))

        if src == "file":
            with tempfile.TemporaryDirectory() as d:
                with open(d + "/a.geojson", "wb") as f:
                    f.write(text.encode())
                with open(d + "/a.geojson", **({"encoding": "utf-8"} if how else {"mode": "rb"})) as f:
                    judge(call(f), lt, lr, src)
        else:
            judge(call(v), lt, lr, src)
            if src == "bytearray":
                ctx.check(bytes(v) == text.encode(), "source-changed")
        if src == "str" and rng.random() < 0.5:
            judge(Scene.from_geojson(v, rx_loc=lr), "NW", lr, src)
            judge(Scene.from_geojson(v, tx_loc=lt), lt, "SE", src)
    ctx.sample(dict(document=text[:600], walls=want[:4]))
