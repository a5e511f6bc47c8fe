"""C09: Grid cells, coordinates, boxes and tiles agree with each other."""
import itertools
import os
import random
import sys

import numpy as np
from vlib import attempt, main, q, qm, qv

from glimpse import Raster
from glimpse.raster import Grid


def ints(a):
    a = np.asarray(a)
    if a.dtype.kind not in "iu":
        return [[12345]]
    return a.tolist()


def build(rng, s):
    """Build the grid in one of the equivalent ways."""
    nx, ny = s["n"]
    xl, yl = np.array(s["xl"]) / 16, np.array(s["yl"]) / 16
    k = rng.random()
    x, y = xl, yl
    if k < 0.3:
        c = [l[0] + (np.arange(n) + 0.5) * (l[1] - l[0]) / n for l, n in ((xl, nx), (yl, ny))]
        X, Y = np.meshgrid(c[0], c[1])
        if nx > 2:
            x = rng.choice([c[0], X]) if ny > 1 else c[0]
        if ny > 2:
            y = rng.choice([c[1], Y]) if nx > 1 else c[1]
    elif k < 0.5:
        x, y = tuple(xl), list(yl)
    if rng.random() < 0.3:
        r = Raster(np.zeros((ny, nx)), x=x, y=y)
        return r if rng.random() < 0.5 else r.grid
    size = rng.choice([(nx, ny), [nx, ny], np.array([nx, ny])])
    if nx == ny and rng.random() < 0.5:
        size = nx
    g = Grid(size, x=x, y=y)
    if rng.random() < 0.2:
        g = g.copy()
    return g


def events(rng, s, g):
    nx, ny = s["n"]
    lim = [s["xl"], s["yl"]]
    n = [nx, ny]
    d = [(lim[k][1] - lim[k][0]) // n[k] for k in (0, 1)]

    def point(out=True):
        p = []
        for k in (0, 1):
            a, b = (-24, 16 * n[k] + 24) if out else (0, 16 * n[k])
            u = rng.choice([rng.randint(a, b), 8 * rng.randint(a // 8, b // 8)])
            p.append(lim[k][0] + u * d[k] // 16)
        return p

    def uvs(m):
        return [[rng.randint(-8, 16 * n[k] + 8) for k in (0, 1)] for _ in range(m)]

    def arr(p):
        return np.array(p) / 16

    ev = []

    def add(op, fn, encode, **kw):
        v, err = attempt(fn)
        e = dict(op=op, err=err, **kw)
        e.update({k: [] for k in encode(None)} if err else encode(v))
        ev.append(e)

    def one(f):
        return lambda v: {"out": None if v is None else f(v)}

    def attr(v):
        if v is None:
            return dict.fromkeys(["n", "shape", "xl", "yl", "d", "x", "y", "X", "Y", "box"])
        return {"n": [int(i) for i in v.size], "shape": [int(i) for i in v.shape], "xl": qv(v.xlim, 16), "yl": qv(v.ylim, 16),
                "d": qv(v.d, 16), "x": qv(v.x, 16), "y": qv(v.y, 16), "X": qm(v.X, 16), "Y": qm(v.Y, 16),
                "box": qv(np.hstack((v.min, v.max)), 16) if np.array_equal(v.box2d, np.hstack((v.min, v.max))) else []}

    add("attr", lambda: g, attr)
    # Equality with another
    o = {"n": list(n), "xl": list(lim[0]), "yl": list(lim[1])}
    k = rng.random()
    if k < 0.2:
        o["n"] = n[::-1]
    elif k < 0.4:
        o["xl"] = o["xl"][::-1]
    elif k < 0.6:
        o["yl"] = [o["yl"][0], 2 * o["yl"][1] - o["yl"][0]]
    if isinstance(g, Raster):
        if o["n"] == n:
            add("eq", lambda: g == Raster(np.zeros(o["n"][::-1]), x=arr(o["xl"]), y=arr(o["yl"])), one(lambda v: int(bool(v))), g=o)
    else:
        add("eq", lambda: g == Grid(tuple(o["n"]), x=arr(o["xl"]), y=arr(o["yl"])), one(lambda v: int(bool(v))), g=o)
    p = [point() for _ in range(4)]
    add("rowcol", lambda: g.xy_to_rowcol(arr(p)), one(lambda v: qm(v, 16)), p=p)
    inb = rng.random() < 0.6
    p2 = [point(False) for _ in range(5)]
    add("cell", lambda: g.xy_to_rowcol(arr(p2), snap=True, **({} if inb else {"inbounds": False})), one(ints), p=p2, inb=int(inb))
    rc = [[rng.randrange(ny), rng.randrange(nx)] for _ in range(3)]
    add("center", lambda: g.rowcol_to_xy(np.array(rc)), one(lambda v: qm(v, 16)), p=rc)
    add("flat", lambda: g.rowcol_to_idx(np.array(rc)), one(lambda v: qv(v)), p=rc)
    idx = [rng.randrange(nx * ny) for _ in range(3)]
    add("unflat", lambda: g.idx_to_rowcol(np.array(idx)), one(lambda v: qm(v)), p=idx)
    p3 = [point() for _ in range(3)]
    xyz = arr(p3)
    if rng.random() < 0.5:
        xyz = np.column_stack((xyz, [1, 2, 3]))
    add("uv", lambda: g.xyz_to_uv(xyz if rng.random() < 0.5 else xyz.tolist()), one(lambda v: qm(v, 16)), p=p3)
    uv = uvs(3)
    add("xyz", lambda: g.uv_to_xyz(arr(uv)),
        lambda v: {"out": None, "nan": None} if v is None else {"out": qm(v[:, :2], 16), "nan": int(v.shape[1] == 3 and np.isnan(v[:, 2]).all())}, p=uv)
    p4 = [point() for _ in range(6)]
    add("inxy", lambda: g.inbounds_xy(arr(p4)), one(lambda v: [int(x) for x in v]), p=p4)
    x, y = [a[0] for a in p4], [a[1] for a in p4[:3]]
    add("ingrid", lambda: g.inbounds_xy((np.array(x) / 16, np.array(y) / 16), grid=True),
        lambda v: {"outx": None, "outy": None} if v is None else {"outx": [int(a) for a in v[0]], "outy": [int(a) for a in v[1]]}, x=x, y=y)
    uv2 = uvs(4) + [[0, 16 * ny], [16 * nx, 0], [16 * nx + 1, 3], [3, -1]]
    add("inuv", lambda: g.inbounds(arr(uv2)), one(lambda v: [int(a) for a in v]), p=uv2)
    for c, e in rng.sample([(0, 0), (0, 1), (1, 0), (1, 1)], 2) + [(1, 0)]:
        inb = rng.random() < 0.7
        p5 = [point() for _ in range(5)] + [[lim[0][1], lim[1][0]], [lim[0][0], lim[1][1]]]
        add("snap", lambda: g.snap_xy(arr(p5), centers=bool(c), edges=bool(e), **({} if inb and rng.random() < 0.5 else {"inbounds": inb})),
            one(lambda v: qm(v, 16)), p=p5, centers=c, edges=e, inb=int(inb))
    # Boxes
    c, e = rng.choice([(0, 1), (0, 1), (1, 0), (1, 1)])
    inb = rng.random() < 0.7
    p6 = point(False)
    half = [rng.randint(0, 8 * n[k] + 4) * abs(d[k]) // 16 for k in (0, 1)]
    if rng.random() < 0.5:
        half = [min(half[k], abs(p6[k] - lim[k][0]), abs(p6[k] - lim[k][1])) for k in (0, 1)]
    kw = {} if (c, e) == (0, 1) and rng.random() < 0.5 else {"centers": bool(c), "edges": bool(e)}
    add("box", lambda: g.snap_box(np.array(p6) / 16, np.array(half) / 8, **kw, **({} if inb else {"inbounds": False})),
        one(lambda v: qv(v, 16)), p=p6, half=half, centers=c, edges=e, inb=int(inb))
    # Crop
    for _ in range(2):
        cl, kw = [], {}
        for k in (0, 1):
            if rng.random() < 0.2:
                cl.append(lim[k])
                continue
            a = sorted(rng.sample(range(-6, 4 * n[k] + 7), 2))
            if rng.random() < 0.2:
                # Within a cell
                a = [a[0], a[0] + 1]
            if a[0] == 4 * n[k] or a[1] == 0:
                a = [1, 2]
            v = [lim[k][0] + a[j] * d[k] // 4 for j in (0, 1)]
            if rng.random() < 0.5:
                v = v[::-1]
            cl.append(v)
            kw["xy"[k] + "lim"] = rng.choice([np.array, list, tuple])([t / 16 for t in v])
        add("crop", lambda: g.crop_extent(**kw),
            lambda v: dict.fromkeys(["xl", "yl", "rows", "cols"]) if v is None else
            {"xl": qv(v[0], 16), "yl": qv(v[1], 16), "rows": [int(t) for t in v[2]], "cols": [int(t) for t in v[3]]},
            x=cl[0], y=cl[1])
    # Tiles
    size = [rng.randint(1, 2 * n[k] + 1) for k in (0, 1)]
    over = [rng.choice([0, 1, 2]), rng.choice([0, 0, 1, 3])]
    kw = {} if over == [0, 0] else {"overlap": tuple(over)}
    add("tiles", lambda: g.tile_indices(tuple(size), **kw),
        one(lambda v: [[int(a.start), int(a.stop), int(b.start), int(b.stop)] for a, b in v]), size=size, overlap=over)
    return ev


def run(c):
    rng = random.Random(c.seed)
    big = c.thorough
    c.model("GridMC", "SPECIFICATION Spec\nINVARIANTS RoundTrip Snapped StaysIn Covers\n"
            "CONSTANTS N = 4\nT = 3\n", workers=8)
    c.model("GridMC", f"SPECIFICATION Spec\nINVARIANTS TilesPartition\nCONSTANTS N = 1\nT = {24 if big else 14}\nCONSTRAINT Stop\n".replace("CONSTRAINT Stop\n", ""), workers=8)
    hist = []
    # Every size and direction, and random limits
    for nx, ny in itertools.product(range(1, 6), range(1, 6)):
        for fx, fy in itertools.product((0, 1), (0, 1)):
            for _ in range(40 if big else 8):
                lim = []
                for k, f in ((nx, fx), (ny, fy)):
                    a = rng.randint(-60, 60) * 16
                    l = [a, a + k * rng.choice([16, 32, 64, 48, 160])]
                    lim.append(l[::-1] if f else l)
                s = {"n": [nx, ny], "xl": lim[0], "yl": lim[1]}
                g = build(rng, s)
                hist.append({"kf": "", "g": s, "ev": events(rng, s, g)})
    # Larger
    for _ in range(600 if big else 100):
        n = [rng.randint(1, 30), rng.randint(1, 30)]
        lim = []
        for k in n:
            a = rng.randint(-6000, 6000)
            l = [a, a + k * rng.choice([16, 32, 480])]
            lim.append(l if rng.random() < 0.5 else l[::-1])
        s = {"n": n, "xl": lim[0], "yl": lim[1]}
        hist.append({"kf": "", "g": s, "ev": events(rng, s, build(rng, s))})
    # Grids that cannot be
    ev = []
    for size, kw in [((0, 2), {}), ((2, -1), {}), ((1.5, 2), {}), ((1, 2, 3), {}), ((2, 2), {"xlim": (1, 1)}),
                     ((2, 2), {"ylim": (1, 2, 3)}), ((2, 2), {"xlim": ("a", "b")})]:
        def make():
            g = Grid(size, x=(0, 1), y=(0, 1))
            for k, v in kw.items():
                setattr(g, k, v)
        _, err = attempt(make)
        ev.append({"op": "build", "err": err})
    hist.append({"kf": "", "g": {"n": [1, 1], "xl": [0, 16], "yl": [0, 16]}, "ev": ev})
    # Cells whose size is not a binary fraction keep their centers
    for _ in range(400 if big else 80):
        n = [rng.randint(1, 90), rng.randint(1, 90)]
        d = [rng.choice([-1, 1]) * rng.choice([0.1, 1 / 3, 0.3, 0.7, 1e-3, 12.3]) for _ in n]
        o = [rng.uniform(-1e4, 1e4), rng.uniform(-100, 1e5)]
        g = Grid(tuple(n), x=(o[0], o[0] + n[0] * d[0]), y=(o[1], o[1] + n[1] * d[1]))
        rc = [[rng.randrange(n[1]), rng.randrange(n[0])] for _ in range(20)]
        v, err = attempt(lambda: g.xy_to_rowcol(g.rowcol_to_xy(np.array(rc)), snap=True))
        u = 16
        s = {"n": n, "xl": [0, u * n[0]], "yl": [0, u * n[1]]}
        p = [[u * b + u // 2, u * a + u // 2] for a, b in rc]
        hist.append({"kf": "", "g": s, "ev": [{"op": "cell", "err": err, "p": p, "inb": 1, "out": [] if err else ints(v)}]})
    c.judge("GridTrace", hist, "grids")


sys.exit(main("C09", run))
