"""C14: Rasterizing and projecting put each value in the cell it belongs to."""
import math
import os
import random
import shutil
import sys
import tempfile

import numpy as np
from osgeo import gdal
from vlib import NAN, attempt, main

from glimpse import Camera, Image, Raster, helpers

FIFTHS = [(5, 0), (0, 5), (-5, 0), (0, -5), (3, 4), (-4, 3), (-3, -4), (4, -3), (4, 3), (3, -4), (-3, 4), (-4, -3)]


def code(v, scale=840):
    v = float(v)
    if math.isnan(v):
        return NAN
    return int(round(v * scale)) if abs(v * scale) < 1e9 else 1500000000


def image(a, scales=(840,)):
    """Rows of columns of bands."""
    a = np.asarray(a, dtype=float)
    a = a[:, :, None] if a.ndim == 2 else a
    return [[[code(v, scales[min(i, len(scales) - 1)]) for i, v in enumerate(c)] for c in r] for r in a]


def values(rng, n):
    """Values of points in a random form."""
    bands = rng.choice([0, 0, 1, 2, 3])
    v = [[rng.randint(0, 9) for _ in range(max(bands, 1))] for _ in range(n)]
    dtype = rng.choice([float, int, "uint8", "float32", bool])
    if dtype is bool:
        v = [[min(x, 1) for x in r] for r in v]
    a = np.array(v, dtype=dtype).reshape(n, max(bands, 1))
    if dtype in (float, "float32") and rng.random() < 0.5:
        # NOTE: The description is four times the values
        a = a / 4
    else:
        v = [[4 * x for x in r] for r in v]
    return v, max(bands, 1), a if bands else a[:, 0]


def points_to_image(rng, n, uv):
    cam = Camera(imgsz=n, f=3, c=rng.choice([0, 1]))
    v, bands, a = values(rng, len(uv))
    return draw(cam, n, uv, v, bands, a)


def draw(cam, n, uv, v, bands, a, scale=4 * 840):
    out, err = attempt(cam.rasterize, np.array(uv, dtype=float).reshape(-1, 2) / 4, a)
    return {"op": "image", "n": n, "uv": uv, "vals": v, "bands": bands, "err": err, "out": [] if err else image(out, (scale,))}


def indices(rng):
    n = [rng.randint(1, 4), rng.randint(1, 4)]
    k = rng.choice([1, 2, 4, 7])
    cells = [[rng.randint(1, n[1]), rng.randint(1, n[0])] for _ in range(k)]
    v, bands, a = values(rng, k)
    rows, cols = [c[0] - 1 for c in cells], [c[1] - 1 for c in cells]
    form = rng.choice([list, tuple, np.array])
    rows, cols = form(rows), form(cols)
    if rng.random() < 0.5:
        a = a.tolist()
    e = {"n": n, "cells": cells, "vals": v, "bands": bands}
    if rng.random() < 0.5:
        out, err = attempt(helpers.rasterize_points, rows, cols, a, shape=rng.choice([tuple, list])(n[::-1]))
        e.update(op="flat", err=err, idx=[], means=[])
        if not err:
            m = np.asarray(out[1], dtype=float).reshape(len(out[0]), -1)
            e.update(idx=[int(i) for i in out[0]], means=[[code(x, 4 * 840) for x in r] for r in m])
        return e
    was = [[rng.choice([NAN, 840 * rng.randint(0, 9)]) for _ in range(n[0])] for _ in range(n[1])]
    b = np.array([[np.nan if x == NAN else x / 3360 for x in r] for r in was])
    if np.ndim(a) == 2 and (bands > 1 or rng.random() < 0.5):
        b = np.dstack([b] * bands)
    _, err = attempt(helpers.rasterize_points, rows, cols, a, a=b)
    return {**e, "op": "indices", "was": was, "err": err, "out": image(b, (4 * 840,))}


def grid(rng, top=5):
    n = [rng.randint(1, top), rng.randint(1, top)]
    d = rng.choice([4, 8])
    xl = [d * rng.randint(-3, 3)] * 2
    yl = [d * rng.randint(-3, 3)] * 2
    xl[1] += n[0] * d
    yl[1] += n[1] * d
    xl, yl = rng.choice([xl, xl, xl[::-1]]), rng.choice([yl, yl[::-1], yl[::-1]])
    return n, d, xl, yl, Raster(np.zeros(n[::-1]), x=xl, y=yl)


def to_raster(rng):
    n, d, xl, yl, raster = grid(rng)
    k = rng.choice([0, 1, 3, 8])
    v = [[rng.randint(0, 9)] for _ in range(k)]
    xy = []
    for _ in range(k):
        p = []
        for i, lim in enumerate((xl, yl)):
            # NOTE: Not on a border between cells
            u = rng.choice([j for j in range(-2, 4 * n[i] + 3) if j % 4 or j in (0, 4 * n[i])])
            p.append(lim[0] + (1 if lim[1] > lim[0] else -1) * u * d // 4)
        xy.append(p)
    if rng.random() < 0.3:
        raster.array = np.zeros((*raster.array.shape, 2))
    out, err = attempt(raster.rasterize, np.array(xy, dtype=rng.choice([float, float, int])).reshape(-1, 2),
                       np.array(v, dtype=rng.choice([float, int])).reshape(-1))
    return {"op": "raster", "n": n, "d": d, "xl": xl, "yl": yl, "xy": xy, "vals": v, "err": err,
            "out": [] if err else image(out)}


def star(rng, n, lo=-4):
    """Simple polygon with vertices in quarters."""
    k = rng.randint(3, 7)
    box = [rng.randint(lo, 4 * n[0]), rng.randint(lo, 4 * n[1])]
    size = [rng.randint(4, 4 * n[0] + 4), rng.randint(4, 4 * n[1] + 4)]
    pts = {(box[0] + rng.randint(0, size[0]), box[1] + rng.randint(0, size[1])) for _ in range(k)}
    c = np.mean(list(pts), axis=0) + 0.01
    return [list(p) for p in sorted(pts, key=lambda p: math.atan2(p[1] - c[1], p[0] - c[0]))]


def simple(q):
    """Whether no edges of a polygon cross or overlap."""
    def side(a, b, c):
        return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    m = len(q)
    for i in range(m):
        for j in range(i + 1, m):
            a, b, c, d = q[i], q[(i + 1) % m], q[j], q[(j + 1) % m]
            if j == i + 1 or (i == 0 and j == m - 1):
                if side(a, b, d if j == i + 1 else c) == 0:
                    return False
            elif side(a, b, c) * side(a, b, d) <= 0 and side(c, d, a) * side(c, d, b) <= 0:
                return False
    return m >= 3


def polygons(rng):
    n, d, xl, yl, raster = grid(rng, 7)
    polys, holes = ([p for p in (star(rng, n) for _ in range(k)) if simple(p)] for k in (rng.randint(1, 3), rng.choice([0, 0, 1, 2])))
    polys = [rng.choice([p, p[::-1]]) for p in polys]
    onto = rng.random() < 0.5
    if onto:
        def place(p):
            return [lim[0] + (1 if lim[1] > lim[0] else -1) * u * d // 4 for u, lim in zip(p, (xl, yl))]
        polys, holes = ([[place(p) for p in q] for q in z] for z in (polys, holes))
    scale = 1 if onto else 4

    def form(z):
        z = [[tuple(v / scale for v in p) for p in q] for q in z]
        # Closed or not
        z = [q + q[:1] if rng.random() < 0.3 else q for q in z]
        return [np.array(q) if rng.random() < 0.3 else q for q in z]

    a, b = form(polys), form(holes)
    kw = {"holes": b} if holes or rng.random() < 0.5 else {}
    if onto:
        out, err = attempt(raster.rasterize_polygons, a, **kw)
    else:
        out, err = attempt(helpers.polygons_to_mask, a, rng.choice([tuple, np.array])(n), **kw)
    return {"op": "polygons", "n": n, "d": d if onto else 0, "xl": xl, "yl": yl, "polys": polys, "holes": holes,
            "err": err, "out": [] if err else [[int(v) for v in r] for r in out]}


def degrees(a):
    return math.degrees(math.atan2(a[1], a[0]))


def rotation(ang):
    y, p, r = ang
    m = np.array([[1, 0, 0], [0, 0, -1], [0, 1, 0]])
    m = np.array([[y[0], 0, -y[1]], [0, 5, 0], [y[1], 0, y[0]]]) @ m
    m = np.array([[5, 0, 0], [0, p[0], p[1]], [0, -p[1], p[0]]]) @ m
    return np.array([[r[0], r[1], 0], [-r[1], r[0], 0], [0, 0, 5]]) @ m


def surface(rng, parallel=False):
    """Surface seen by a camera, no point of which is on a border of pixels."""
    while True:
        n = [rng.randint(1, 8), rng.randint(1, 8)]
        ang = [rng.choice(FIFTHS), rng.choice([(0, -5), (3, -4), (4, -3), (5, 0), (-3, -4)]), rng.choice(FIFTHS)]
        cam = {"ang": ang, "pos": [rng.randint(-2, 2), rng.randint(-2, 2), rng.randint(3, 8)], "n": n,
               "f": [rng.choice([1, 2, 4, 5]) for _ in range(2)], "c8": [rng.choice([-5, -1, 1, 3]) for _ in range(2)]}
        m = [rng.randint(3, 7), rng.randint(3, 7)]
        dx, dy = rng.choice([1, 1, -1, 2]), rng.choice([-1, -1, 1, -2])
        x = [rng.randint(-4, 1) + dx * i for i in range(m[0])] if rng.random() < 0.5 else [dx * (i - m[0] // 2) for i in range(m[0])]
        x = [x[0] + dx * i for i in range(m[0])]
        y0 = rng.randint(-4, 4)
        y = [y0 + dy * i for i in range(m[1])]
        z = np.array([[rng.choice([0, 0, 1, 2, -1]) for _ in x] for _ in y])
        XYZ = np.array([[[xi, yi, z[r, c]] for c, xi in enumerate(x)] for r, yi in enumerate(y)]) - cam["pos"]
        C = XYZ @ rotation(ang).T
        ok = np.all(C[..., 2] != 0)
        for i in range(2):
            u = 8 * cam["f"][i] * C[..., i] + (4 * n[i] + cam["c8"][i]) * C[..., 2]
            ok = ok and not np.any((C[..., 2] > 0) & (u % np.where(C[..., 2] == 0, 1, 8 * C[..., 2]) == 0))
        if ok:
            break
    missing = np.array([[rng.random() < 0.15 for _ in x] for _ in y]) & (rng.random() < 0.5)
    zz = z.astype(float)
    zz[missing] = np.nan
    if rng.random() < 0.3 and not missing.any():
        zz = z
    dem = Raster(zz, x=np.array(x), y=np.array(y))
    bands = rng.choice([0, 1, 1, 2])
    vals = [[[rng.randint(0, 9) for _ in range(bands)] for _ in x] for _ in y]
    depth = 1 if bands == 0 else rng.randrange(2)
    mask = [[1] * len(x) for _ in y]
    kw = {}
    if bands:
        a = np.array(vals, dtype=rng.choice([float, int, "uint8"]))
        kw["values"] = a[:, :, 0] if bands == 1 and rng.random() < 0.5 else a
    if depth or rng.random() < 0.3:
        kw["return_depth"] = bool(depth)
    if rng.random() < 0.4:
        mask = [[int(rng.random() < 0.7) for _ in x] for _ in y]
        kw["mask"] = np.array(mask, dtype=bool)
    if rng.random() < 0.6 or parallel:
        kw["tile_size"] = rng.choice([(2, 2), (3, 1), (2, 4), (1, 1), (100, 2)])
    if rng.random() < 0.4:
        kw["tile_overlap"] = rng.choice([(0, 0), (1, 0), (1, 1)])
    if parallel:
        kw["parallel"] = 2
    obj = Camera(imgsz=n, f=cam["f"], c=[v / 8 for v in cam["c8"]], xyz=cam["pos"], viewdir=[degrees(a) for a in ang])
    tiles = len(dem.tile_indices(size=kw.get("tile_size", (256, 256))))
    before = [dem.array.copy()] + [kw[k].copy() for k in ("values", "mask") if k in kw]
    out, err = attempt(obj.project_dem, dem, **kw)
    kept = all(np.array_equal(a, b, equal_nan=a.dtype.kind == "f") for a, b in
               zip(before, [dem.array] + [kw[k] for k in ("values", "mask") if k in kw]))
    return {"op": "dem", "cam": cam, "x": x, "y": y, "z": [[NAN if missing[r, c] else int(z[r, c]) for c in range(len(x))] for r in range(len(y))],
            "mask": mask, "vals": vals, "bands": bands, "depth": depth, "tiles": tiles, "err": err, "kept": int(kept),
            "out": [] if err else image(out, [60] * bands + [60000])}


def write(path, a, kind):
    ds = gdal.GetDriverByName("GTiff").Create(path, a.shape[2], a.shape[1], a.shape[0], kind)
    for i, band in enumerate(a):
        ds.GetRasterBand(i + 1).WriteArray(band)
    ds.FlushCache()


def view(rng, path):
    n = [rng.randint(2, 8), rng.randint(2, 8)]
    same = rng.random()
    ang = [rng.choice(FIFTHS) for _ in range(3)]
    pos = [rng.randint(-3, 3) for _ in range(3)]
    f = rng.choice([2, 4, 5, 8])
    fr = {"ang": ang, "pos": pos, "n": n, "f": [f, f], "c": [rng.choice([0, 0, 1]) for _ in range(2)]}
    to = {k: list(v) for k, v in fr.items()}
    if same > 0.2:
        to["n"] = [rng.randint(1, 8), rng.randint(1, 8)]
        to["c"] = [rng.choice([0, 0, 1, -1]) for _ in range(2)]
        f = rng.choice([f, 2, 4, 8])
        to["f"] = [f, f]
    if same > 0.5:
        # Turned a little, a quarter, or anyhow
        i = rng.randrange(3)
        k = FIFTHS.index(ang[i])
        turns = {(5, 0): [(4, 3), (4, -3)], (0, 5): [(3, 4), (-3, 4)], (-5, 0): [(-4, 3), (-4, -3)], (0, -5): [(3, -4), (-3, -4)]}
        to["ang"][i] = rng.choice(turns[ang[i]]) if ang[i] in turns and rng.random() < 0.7 else rng.choice(FIFTHS[:4]) if k < 4 else rng.choice(FIFTHS)
    if same > 0.97:
        to["pos"] = [pos[0], pos[1], pos[2] + 1]
    kind, whole = rng.choice([(gdal.GDT_Byte, 1), (gdal.GDT_Float32, 0), (gdal.GDT_Int16, 1), (gdal.GDT_Float32, 0)])
    bands = rng.choice([1, 1, 3])
    img = [[[rng.randint(1, 60) for _ in range(n[0])] for _ in range(n[1])] for _ in range(bands)]
    write(path, np.array(img), kind)
    cams = [Camera(imgsz=c["n"], f=c["f"], c=c["c"], xyz=c["pos"], viewdir=[degrees(a) for a in c["ang"]]) for c in (fr, to)]
    nearest = rng.randrange(2)
    kw = {"method": "nearest"} if nearest else rng.choice([{}, {"method": "linear"}])
    out, err = attempt(Image(path, cam=cams[0], datetime=None).project, cams[1], **kw)
    return {"op": "view", "from": fr, "to": to, "bands": bands, "img": img, "whole": whole, "nearest": nearest, "err": err,
            "out": [] if err else image(out, (1000,))}


def tiles(rng):
    n = [rng.randint(1, 12), rng.randint(1, 12)]
    size = [rng.randint(1, 14), rng.randint(1, 14)]
    raster = Raster(np.zeros(n[::-1]))
    out, err = attempt(raster.tile_indices, size=size)
    least = [min(s[k].stop - s[k].start for s in out) for k in (1, 0)] if not err else [1, 1]
    overlap = [rng.randrange(least[0]), rng.randrange(least[1])]
    if not err and rng.random() < 0.7:
        out, err = attempt(raster.tile_indices, size=size, overlap=overlap)
    else:
        overlap = [0, 0]
    return {"op": "tiles", "n": n, "size": size, "overlap": overlap, "err": err,
            "tiles": [] if err else [[int(s[0].start), int(s[0].stop), int(s[1].start), int(s[1].stop)] for s in out]}


def run(c):
    rng = random.Random(c.seed)
    big = c.thorough
    hist = []

    def keep(e):
        hist.append({"kf": "", "ev": e if isinstance(e, list) else [e]})

    sets = c.behaviours_of("RasterizeMC", "SPECIFICATION Spec\nINVARIANTS Means Between Kept Emit\nCONSTANTS N = 2\n")
    rng.shuffle(sets)
    for s in sets[:3000 if big else 700]:
        v = [[p["val"]] for p in s]
        keep(draw(Camera(imgsz=(2, 1), f=3), [2, 1], [p["uv"] for p in s], v, 1, np.array(v)[:, 0], 840))
    k = 6 if big else 1
    for _ in range(300 * k):
        n = [rng.randint(1, 5), rng.randint(1, 5)]
        uv = [[rng.randint(-2, 4 * n[0] + 2), rng.randint(-2, 4 * n[1] + 2)] for _ in range(rng.choice([0, 1, 3, 6]))]
        keep(points_to_image(rng, n, uv))
    for _ in range(300 * k):
        keep(indices(rng))
    for _ in range(400 * k):
        keep(to_raster(rng))
    for _ in range(500 * k):
        keep(polygons(rng))
    for _ in range(700 * k):
        keep(surface(rng))
    for _ in range(10 * k):
        keep(surface(rng, parallel=True))
    folder = tempfile.mkdtemp()
    try:
        for i in range(600 * k):
            keep(view(rng, os.path.join(folder, f"{i}.tif")))
    finally:
        shutil.rmtree(folder)
    for _ in range(300 * k):
        keep(tiles(rng))
    c.judge("RasterizeTrace", hist, "cells")


sys.exit(main("C14", run))
