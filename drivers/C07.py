"""C07: Reading images is independent of what was read or cached before."""
import datetime
import os
import random
import sys

import numpy as np
import osgeo.gdal
from vlib import attempt, main, q

from glimpse import Camera, Image, Raster
from glimpse.track import Observer

T0 = datetime.datetime(2020, 1, 1)
TYPES = {"uint16": 2, "int16": 3, "uint32": 4, "int32": 5, "float32": 6, "float64": 7}
NODATA = -99


class Thing:
    """A file, and an image or raster that reads it."""

    def __init__(self, rng, n, kind):
        self.rng, self.kind = rng, kind
        self.path = os.path.join(os.getcwd(), f"f{n}.tif")
        self.version = 1
        self.nb = (rng.randint(1, 5), rng.randint(1, 4))
        self.fm = 4  # pixels per block in the file
        self.nbands = rng.choice([1, 1, 2, 3]) if kind == "image" else rng.choice([1, 2])
        self.missing = int(kind == "raster" and rng.random() < 0.4)
        self.dtype = rng.choice(list(TYPES))
        if self.missing:
            self.dtype = rng.choice(["int16", "float32", "float64", "int32"])
        self.ydir = rng.choice([-1, -1, 1])
        self.xdir = 1
        self.write()
        m = rng.choice([1, 2, 4, 8]) if kind == "image" else rng.choice([4, 4, 2, 1])
        self.m = [m, m]
        self.box0 = [0, 0]
        if kind == "image":
            self.bands = list(range(1, self.nbands + 1))
            self.span = self.nb
            f = 100
            self.thing = Image(self.path, cam=Camera(imgsz=[self.fm * x for x in self.nb], f=f), datetime=T0)
            if m != self.fm:
                self.thing.cam.resize(m / self.fm)
        else:
            band = rng.randint(1, self.nbands)
            self.bands = [band]
            kw = {"datetime": T0}
            if self.nbands > 1 or rng.random() < 0.5:
                kw["band"] = band
            if m != self.fm:
                kw["d"] = self.fm / m
            x0, x1, y0, y1 = 0, self.nb[0], 0, self.nb[1]
            if rng.random() < 0.6:
                # Crop to whole blocks
                x0, y0 = rng.randrange(self.nb[0]), rng.randrange(self.nb[1])
                x1, y1 = rng.randint(x0 + 1, self.nb[0]), rng.randint(y0 + 1, self.nb[1])
                if rng.random() < 0.8:
                    kw["xlim"] = np.array([100 + self.fm * x0 + .25, 100 + self.fm * x1 - .25])
                else:
                    x0, x1 = 0, self.nb[0]
                kw["ylim"] = np.array([-30 + self.ydir * (self.fm * y0 + .25), -30 + self.ydir * (self.fm * y1 - .25)])
                if rng.random() < 0.5:
                    kw["ylim"] = kw["ylim"][::-1]
            if self.missing and self.dtype.startswith("int"):
                kw["nan"] = NODATA
            self.box0 = [x0 * m, y0 * m]
            self.span = (x1 - x0, y1 - y0)
            self.thing = Raster.open(self.path, **kw)
        self.view = {"m": self.m, "ox": self.box0[0], "oy": self.box0[1], "bands": self.bands,
                     "missing": self.missing}

    def write(self):
        nx, ny = self.nb[0] * self.fm, self.nb[1] * self.fm
        c, r = np.meshgrid(np.arange(nx) // self.fm, np.arange(ny) // self.fm)
        if os.path.exists(self.path):
            ds = osgeo.gdal.Open(self.path, 1)
        else:
            ds = osgeo.gdal.GetDriverByName("GTiff").Create(self.path, nx, ny, self.nbands, TYPES[self.dtype])
            ds.SetGeoTransform([100, 1, 0, -30, 0, self.ydir])
        for b in range(self.nbands):
            a = self.version * 1000 + (b + 1) * 100 + r * 10 + c
            if self.missing:
                a = np.where((c + r) % 3 == 1, NODATA, a)
                ds.GetRasterBand(b + 1).SetNoDataValue(NODATA)
            ds.GetRasterBand(b + 1).WriteArray(a.astype(self.dtype))
        ds = None

    def size(self):
        return [self.span[0] * self.m[0], self.span[1] * self.m[1]]

    def box(self):
        out = []
        for n, m in zip(self.size(), self.m):
            # Whole pixels of the file
            k = max(1, m // self.fm)
            a = self.rng.randrange(0, n, k)
            out.append((a, self.rng.randrange(a + k, n + 1, k)))
        return [out[0][0], out[1][0], out[0][1], out[1][1]]

    def encode(self, a):
        a = np.asarray(a)
        if a.ndim == 2:
            a = a[:, :, None]
        if a.ndim != 3 or a.size > 4000:
            return [[[0]]]
        return [[[q(x) for x in p] for p in row] for row in a.tolist()]

    def same_type(self, a):
        if self.missing and self.dtype.startswith("int"):
            return int(np.issubdtype(a.dtype, np.floating))
        return int(a.dtype == self.dtype)


def play(rng, things, script, observer):
    """Run operations [(object, op), ...]."""
    kept = []
    ev = []
    for i, o in script:
        t = things[i]
        e = {"op": o["op"], "obj": i + 1, "err": "", "stable": 0}
        img = t.thing
        if o["op"] == "read":
            full = o["box"] == "full"
            box = [0, 0] + t.size() if full else t.box()
            e.update(cache=o["cache"], box=box, out=[], dtype=0)
            arg = rng.choice([np.array, tuple, list])(box)
            if observer is not None and (not full or rng.random() < 0.5):
                observer.cache = bool(o["cache"])
                out, e["err"] = attempt(observer.extract_tile, box=arg, img=i)
            elif observer is not None and o["cache"]:
                _, e["err"] = attempt(
                    observer.cache_images, rng.choice([[i], slice(i, i + 1), np.arange(len(things)) == i]))
                out = None
            else:
                kw = {} if full and rng.random() < 0.7 else {"box": arg}
                if not o["cache"] or rng.random() < 0.7:
                    kw["cache"] = bool(o["cache"])
                out, e["err"] = attempt(img.read, **kw)
            if out is None and not e["err"]:
                out, e["err"] = attempt(img.read)
            if not e["err"]:
                e["out"], e["dtype"] = t.encode(out), t.same_type(out)
                kept.append((out, out.copy()))
        elif o["op"] == "value":
            e.update(box=[0, 0] + t.size(), out=[])
            out, e["err"] = attempt(lambda: img.array if t.kind == "raster" else img.read())
            if not e["err"]:
                e["out"] = t.encode(out)
                kept.append((out, out.copy()))
        elif o["op"] == "clear":
            if observer is not None and rng.random() < 0.7:
                _, e["err"] = attempt(observer.clear_images, rng.choice([[i], slice(i, i + 1)]))
            else:
                img.array = None
        elif o["op"] == "resize":
            if t.kind == "raster":
                continue
            t.m = o["m"]
            e["m"] = o["m"]
            k = rng.random()
            if k < 0.5 and t.m[0] == t.m[1]:
                _, e["err"] = attempt(img.cam.resize, t.m[0] / t.fm)
            else:
                img.cam.imgsz = t.size()
        elif o["op"] == "rewrite":
            t.version += 1
            t.write()
        elif o["op"] == "use":
            # Operations on tiles returned earlier
            e["op"] = "use"
            if observer is not None and kept:
                tile = kept[-1][0]
                if min(tile.shape[:2]) >= 4 and not np.isnan(tile.astype(float)).any():
                    _, e["err"] = attempt(observer.shift_tile, tile, (.25, -.5))
                    if not e["err"] and tile.ndim == 2:
                        b = [0, 0, tile.shape[1], tile.shape[0]]
                        _, e["err"] = attempt(
                            observer.sample_tile, np.array([[1.5, 1.5]]), tile, b, kx=1, ky=1)
            elif t.kind == "raster" and min(t.size()) > 1:
                g = img.grid
                xy = np.array([[g.min[0] + 1.3, g.min[1] + 1.1]])
                e["op"] = "value"
                e.update(box=[0, 0] + t.size(), out=[])
                _, e["err"] = attempt(img.sample, xy)
                out, e["err"] = attempt(lambda: img.array)
                if not e["err"]:
                    e["out"] = t.encode(out)
        e["stable"] = int(all(np.array_equal(a, b, equal_nan=b.dtype.kind == "f") for a, b in kept))
        ev.append(e)
        if e["err"]:
            break
    return ev


def run(c):
    rng = random.Random(c.seed)
    big = c.thorough
    scripts = c.behaviours_of(
        "ReadCacheMC", "SPECIFICATION Spec\nINVARIANTS Faithful KeptIsAVersion OnlyCachedReads Emit\n"
        "CONSTANTS N = 4\n", workers=8)
    rng.shuffle(scripts)
    hist = []
    ops = [{"op": "read", "box": b, "cache": k} for b in ("full", "part") for k in (0, 1)] * 2
    ops += [{"op": "clear"}, {"op": "rewrite"}, {"op": "use"}, {"op": "value"}]
    ops += [{"op": "resize", "m": [x, y]} for x in (1, 2, 4, 8) for y in (1, x)]

    def add(n, count, make):
        kinds = [rng.choice(["image", "raster"]) for _ in range(count)]
        things = [Thing(rng, f"{n}_{i}", k) for i, k in enumerate(kinds)]
        observer = None
        if count > 1:
            for i, t in enumerate(things):
                t.thing.datetime = T0 + datetime.timedelta(days=i)
            observer = Observer([t.thing for t in things])
        views = [t.view for t in things]
        ev = play(rng, things, make(count), observer)
        for t in things:
            os.remove(t.path)
        if ev:
            hist.append({"kf": "", "ev": ev, "views": views})

    n = 0
    for s in scripts[:len(scripts) if big else 700]:
        n += 1
        add(n, 1, lambda count: [(0, o) for o in s])
    for _ in range(2500 if big else 350):
        n += 1
        add(n, rng.choice([1, 2, 2, 3]),
            lambda count: [(rng.randrange(count), rng.choice(ops)) for _ in range(rng.randint(5, 12))])
    c.judge("ReadCacheTrace", hist, "reads")


sys.exit(main("C07", run))
