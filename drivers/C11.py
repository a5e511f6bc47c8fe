"""C11: Interpolating between rasters honours time, limits and uncertainty."""
import datetime
import math
import os
import random
import sys

import numpy as np
from vlib import NAN, attempt, main, q, qm

from glimpse import Raster
from glimpse.raster import RasterInterpolant

T0 = datetime.datetime(2020, 1, 1)
D = 4  # Cell size
INF = 1000000
TYPES = ["uint8", "int16", "uint16", "float32", "float64", "float64"]


def stamp(x):
    return T0 + datetime.timedelta(hours=x)


def lim(l):
    return [-INF if math.isinf(v) and v < 0 else INF if math.isinf(v) else q(v) for v in np.asarray(l).tolist()]


class Source:
    """Raster, path or number, and its description."""

    def __init__(self, rng, n, form, box, d, constant=None, top=60, missing=0.1):
        self.form = form
        if form == "number":
            v = rng.randint(0, top)
            self.obj = rng.choice([int, float])(v)
            self.desc = {"inf": 1, "v": [[v]], "xl": [-INF, INF], "yl": [-INF, INF], "n": [1, 1], "d": 0}
            self.kept = lambda: True
            return
        x = [box[0], box[2]] if rng.random() < 0.8 else [box[2], box[0]]
        y = [box[3], box[1]] if rng.random() < 0.6 else [box[1], box[3]]
        nx, ny = (box[2] - box[0]) // d, (box[3] - box[1]) // d
        dtype = rng.choice(TYPES)
        a = np.array([[rng.randint(0, top) if constant is None else constant for _ in range(nx)]
                      for _ in range(ny)], dtype=dtype)
        if a.dtype.kind == "f" and constant is None:
            a[np.array([[rng.random() < missing for _ in range(nx)] for _ in range(ny)])] = np.nan
        r = Raster(a, x=x, y=y)
        self.desc = {"inf": 0, "v": qm(a), "xl": x, "yl": y, "n": [nx, ny], "d": d}
        self.path = None
        if form == "raster":
            self.obj = r
        else:
            self.path = os.path.join(os.getcwd(), f"{n}.tif")
            r.write(self.path)
            self.obj = self.path if form == "path" else Raster.open(self.path)
        before = a.copy()

        def kept():
            s = self.obj
            if isinstance(s, str):
                s = Raster.open(s)
            return (np.array_equal(s.array, before, equal_nan=before.dtype.kind == "f") and s.xlim.tolist() == x
                    and s.ylim.tolist() == y and s.array.dtype == before.dtype and s.size.tolist() == [nx, ny])
        self.kept = kept


def add(r, value=0):
    r.array = r.array + value


def build(rng, x, n):
    """Random sequence of rasters at coordinates x."""
    k = len(x)
    kind = rng.choice(["same", "same", "shifted", "mixed"])
    dates = rng.random() < 0.5
    base = [D * rng.randint(-2, 2), D * rng.randint(-2, 2)]
    forms = rng.choice([["raster"], ["path"], ["raster", "path", "number", "open"], ["raster", "number"]])
    means = []
    for i in range(k):
        if kind == "mixed":
            # Constant rasters of different cell sizes, on common cells
            d = rng.choice([D, 2 * D])
            box = [8 * D * v for v in (rng.randint(-1, 0), rng.randint(-1, 0), rng.randint(1, 2), rng.randint(1, 2))]
            means.append(Source(rng, f"{n}_{i}", rng.choice(forms), box, d, constant=rng.randint(0, 60)))
            continue
        s = [0, 0, 0, 0] if kind == "same" else [rng.randint(-1, 1) for _ in range(4)]
        box = [base[0] + D * s[0], base[1] + D * s[1], base[0] + D * (3 + s[2]), base[1] + D * (2 + s[3])]
        if box[0] >= box[2] or box[1] >= box[3]:
            box = [base[0], base[1], base[0] + D, base[1] + D]
        means.append(Source(rng, f"{n}_{i}", rng.choice(forms), box, D))
    sigmas = []
    if rng.random() < 0.7:
        sforms = rng.choice([["raster"], ["number"], ["raster", "path", "number"]])
        for i in range(k):
            form = rng.choice(sforms)
            m = means[i].desc
            if m["inf"]:
                form = "number"
            box = [min(m["xl"]), min(m["yl"]), max(m["xl"]), max(m["yl"])]
            constant = rng.randint(0, 6) if kind == "mixed" else None
            sigmas.append(Source(rng, f"s{n}_{i}", form, box, m["d"], top=6, constant=constant, missing=0))
    objs = [m.obj for m in means]
    xs = [stamp(v) for v in x] if dates else list(x)
    kw = {}
    if dates and all(isinstance(o, Raster) for o in objs) and rng.random() < 0.6:
        for o, t in zip(objs, xs):
            o.datetime = t
    else:
        kw["x"] = rng.choice([list, tuple])(xs)
    if sigmas:
        kw["sigmas"] = [s.obj for s in sigmas]
    itp = RasterInterpolant(rng.choice([list, tuple])(objs), **kw)
    c = {"x": list(x), "means": [m.desc for m in means], "sigmas": [s.desc for s in sigmas]}
    return c, itp, means + sigmas, dates, kind


def query(rng, itp, sources, dates, c, kind, xi, ex):
    x = stamp(xi) if dates else rng.choice([int, float])(xi)
    if rng.random() < 0.15:
        out, err = attempt(itp.nearest, x, extrapolate=bool(ex))
        e = {"op": "nearest", "out": [] if err else [int(v) for v in out]}
    else:
        kw = {}
        e = {"op": "at", "d": 0, "xl": [], "yl": [], "zlim": [], "add": 0, "sigma": 0, "date": 1, "out": {}}
        if rng.random() < 0.5:
            e["sigma"] = 1
            kw["return_sigma"] = True
        if ex or rng.random() < 0.3:
            kw["extrapolate"] = bool(ex)
        rasters = [m for m in c["means"] if not m["inf"]]
        for name, key in (("xlim", "xl"), ("ylim", "yl")):
            if rng.random() < 0.25 and rasters:
                l = rng.choice(rasters)[key]
                step = 2 * D if kind == "mixed" else D
                off = rng.choice([0, 1]) if kind != "mixed" else 0
                a = [min(l) + step * rng.choice([0, 0, 1, -2]) + off, max(l) + step * rng.choice([0, 0, -1, 2]) - off]
                if a[0] < a[1]:
                    e[key] = a[::-1] if rng.random() < 0.3 else a
                    kw[name] = tuple(e[key])
        if kind == "mixed" and rng.random() < 0.3:
            e["d"] = 2 * D
            kw["d"] = 2 * D
        elif rng.random() < 0.2 and kind != "mixed":
            e["d"] = D
            kw["d"] = D
        if rng.random() < 0.2 and kind != "mixed":
            e["zlim"] = sorted([rng.randint(0, 60), rng.randint(0, 60)])
            kw["zlim"] = tuple(e["zlim"])
        if rng.random() < 0.2:
            e["add"] = rng.randint(1, 9)
            kw.update(fun=add, value=e["add"])
        if e["sigma"] and any(s["inf"] == 0 for s in c["sigmas"]) and all(m["inf"] for m in c["means"]):
            kw.pop("return_sigma")
            e["sigma"] = 0
        out, err = attempt(itp, x, **kw)
        if not err:
            r, s = out if e["sigma"] else (out, None)
            e["date"] = int(r.datetime == (x if dates else None))
            e["out"] = {"xl": lim(r.xlim), "yl": lim(r.ylim), "v": qm(r.array, 60)}
            if s is not None:
                e["out"].update(sx=lim(s.xlim), sy=lim(s.ylim), var=qm(np.asarray(s.array, dtype=float) ** 2, 32400, 1e-6))
                e["date"] = int(e["date"] and s.datetime == r.datetime)
            if r.array.dtype == np.float32:
                e["out"]["v"] = qm(r.array, 60, 1e-5)
                if s is not None:
                    e["out"]["var"] = qm(np.asarray(s.array, dtype=float) ** 2, 32400, 1e-5)
            if rng.random() < 0.5:
                # Results are the user's to change
                r.array[:] = 0
                if s is not None:
                    s.array[:] = 0
    e.update(xi=xi, ex=ex, err=err, kept=int(all(s.kept() for s in sources)))
    return e


def run(c):
    rng = random.Random(c.seed)
    big = c.thorough
    scripts = c.behaviours_of(
        "InterpolationMC", "SPECIFICATION Spec\nINVARIANTS Neighbours HasResult Mixes Emit\nCONSTANTS N = 2\n", workers=8)
    rng.shuffle(scripts)
    hist = []
    for n, b in enumerate(scripts if big else scripts[:1300]):
        conf, itp, sources, dates, kind = build(rng, b["x"], n)
        ops = [(o["xi"], o["ex"]) for o in b["ops"]]
        ev = [query(rng, itp, sources, dates, conf, kind, *o) for o in ops]
        hist.append({"kf": "", "c": conf, "ev": ev})
        for s in sources:
            if getattr(s, "path", None):
                os.remove(s.path)
    for n in range(4000 if big else 500):
        # Longer sequences and histories; coordinates between which fractions are twelfths or fifths
        x = rng.choice([[0, 4, 6, 12], [0, 5, 10], [3, 0, 1], [-4, -1, 2, 7], [0, 3], [2], [10, 6, 0]])
        conf, itp, sources, dates, kind = build(rng, x, n)
        ev = []
        for _ in range(rng.randint(3, 7)):
            ex = int(len(x) > 1 and rng.random() < 0.4)
            ev.append(query(rng, itp, sources, dates, conf, kind, rng.randint(min(x) - 2, max(x) + 2), ex))
        hist.append({"kf": "", "c": conf, "ev": ev})
        for s in sources:
            if getattr(s, "path", None):
                os.remove(s.path)
    c.judge("InterpolationTrace", hist, "interpolation")


sys.exit(main("C11", run))
