"""C10: What is written to disk is what is read back."""
import datetime
import fractions
import gzip
import json
import math
import os
import pathlib
import pickle
import random
import re
import shutil
import sys

import cv2
import numpy as np
import osgeo.gdal
import osgeo.osr
from vlib import attempt, main, q

from glimpse import Camera, Grid, Image, Raster, helpers

EPSG = [0, 32606, 4326, 3413]
INTS = {"uint8": (0, 255), "int16": (-32768, 32767), "uint16": (0, 65535),
        "int32": (-2**31, 2**31 - 1), "uint32": (0, 2**32 - 1)}
FLOATS = ["float32", "float64"]
T0 = datetime.datetime(2020, 1, 1)


def s(x):
    """Exact value, as a fraction."""
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, float) and math.isnan(x):
        return "nan"
    if isinstance(x, float) and math.isinf(x):
        return "inf" if x > 0 else "-inf"
    return str(fractions.Fraction(x))


def rows(a):
    a = np.asarray(a)
    if a.ndim != 2 or a.size > 4000:
        return [["shape"]]
    return [[s(x) for x in row] for row in a.tolist()]


def crs_code(crs):
    """Which coordinate system this is (0 if none, -1 if another)."""
    if crs is None:
        return 0
    ref = osgeo.osr.SpatialReference()
    try:
        if ref.ImportFromWkt(crs):
            return -1
        for code in EPSG[1:]:
            other = osgeo.osr.SpatialReference()
            other.ImportFromEPSG(code)
            if ref.IsSame(other):
                return code
    except Exception:
        return -1
    return -1


def crs_arg(rng, code):
    ref = osgeo.osr.SpatialReference()
    ref.ImportFromEPSG(code)
    forms = [code, ref.ExportToWkt()]
    if code == 32606:
        forms.append("+proj=utm +zone=6 +datum=WGS84 +units=m +no_defs +type=crs")
    x = rng.choice(forms)
    return x if isinstance(x, int) or "+" not in x[:5] else forms[0]


def limits(l, scale):
    try:
        return [q(x, scale, 1e-9) for x in l]
    except Exception:
        return []


class Source:
    """Raster to write, and its description."""

    def __init__(self, rng, dtype, values, xl, yl, crs, scale=16, arg=None):
        self.dtype, self.scale = dtype, scale
        self.values = [np.array(v, dtype=dtype) for v in values]
        self.xl, self.yl, self.crs = xl, yl, crs
        self.arg = arg

    def describe(self):
        ny, nx = self.values[0].shape
        return {"t": self.dtype, "v": [rows(v) for v in self.values], "n": [nx, ny],
                "xl": self.xl, "yl": self.yl, "crs": self.crs}

    def lims(self):
        return [x / self.scale for x in self.xl], [y / self.scale for y in self.yl]


def write(rng, src, path, nan, ev):
    """Write to file by one of the public means."""
    e = {"op": "write", "src": src.describe(), "nan": "none", "err": "", "kept": 1}
    kw = {}
    if nan is not None:
        kw["nan"] = nan
        e["nan"] = s(np.array(nan).astype(src.dtype)[()])
    x, y = src.lims()
    before = [v.copy() for v in src.values]
    if len(src.values) == 1 and rng.random() < 0.8:
        raster = Raster(src.values[0], x=x, y=y, crs=src.arg)
        _, e["err"] = attempt(raster.write, path, **kw)
    else:
        ny, nx = src.values[0].shape
        a = np.dstack(src.values) if len(src.values) > 1 or rng.random() < 0.5 else src.values[0]
        t = (x[0], (x[1] - x[0]) / nx, 0, y[0], 0, (y[1] - y[0]) / ny)
        if src.arg is not None:
            kw["crs"] = src.arg
        if rng.random() < 0.3:
            kw["driver"] = {"tif": "GTiff", "img": "HFA"}[path[-3:]]
        _, e["err"] = attempt(helpers.write_raster, a, path, transform=rng.choice([tuple, list])(t), **kw)
    e["kept"] = int(all(np.array_equal(a, b, equal_nan=a.dtype.kind == "f") for a, b in zip(src.values, before)))
    ev.append(e)
    return not e["err"]


def open_(rng, src, path, band, nan, ev, xl=None, yl=None, d=0, grid=False):
    """Open a file. Returns the raster."""
    e = {"op": "grid" if grid else "open", "band": band, "xl": [], "yl": [], "d": d, "nan": "none", "out": {},
         "err": ""}
    k = {}
    if xl is not None:
        e["xl"] = xl
        k["xlim"] = rng.choice([np.array, tuple, list])([v / src.scale for v in xl])
    if yl is not None:
        e["yl"] = yl
        k["ylim"] = rng.choice([np.array, tuple, list])([v / src.scale for v in yl])
    if d:
        k["d"] = d / src.scale
    if grid:
        r, e["err"] = attempt(Grid.read, path, **k)
        r = r if e["err"] else r
    else:
        if band > 1 or rng.random() < 0.3:
            k["band"] = band
        if nan is not None:
            k["nan"] = nan
            e["nan"] = s(nan)
        k["datetime"] = T0
        r, e["err"] = attempt(Raster.open, path, **k)
    if not e["err"]:
        e["out"] = {"n": [int(v) for v in r.size], "xl": limits(r.xlim, src.scale), "yl": limits(r.ylim, src.scale),
                    "crs": crs_code(r.crs)}
        if not grid:
            e["out"]["date"] = int(r.datetime == T0)
            a, e["err"] = attempt(lambda: r.array)
            if not e["err"]:
                e["out"]["v"] = rows(a)
                e["out"]["t"] = str(a.dtype)
    ev.append(e)
    return None if e["err"] else r


def replays(rng, scripts, hist):
    """Behaviours of the specification: repeated writing and reading."""
    table = {"0": 0, "1": 1, "-9": -9, "nan": math.nan, "none": None}
    for n, b in enumerate(scripts):
        ev = []
        src = Source(rng, b["t"], [[[table[x] for x in row] for row in v] for v in b["v"]], [0, 32], [16, 0], 0)
        for i, o in enumerate(b["ops"]):
            path = f"b{n}_{i}.tif"
            w = table[o["w"]]
            if not write(rng, src, path, w, ev):
                break
            r = open_(rng, src, path, 1, table[o["o"]], ev)
            os.remove(path)
            if r is None:
                break
            a = np.array(r.array)
            src = Source(rng, str(a.dtype), [a], src.xl, src.yl, 0)
        hist.append({"kf": "", "ev": ev})


def values(rng, dtype, shape, pool):
    a = [[rng.choice(pool) for _ in range(shape[1])] for _ in range(shape[0])]
    return np.array(a, dtype=dtype)


def rasters(rng, n, hist):
    """Random rasters, written and read in whole or in part, several times."""
    for i in range(n):
        ev = []
        dtype = rng.choice(list(INTS) + FLOATS * 3)
        if dtype in INTS:
            lo, hi = INTS[dtype]
            pool = [lo, hi, 0, 1, 7, 100, hi - 1] + list(range(max(lo, -3), 8))
            nodata = rng.choice([None, None, lo, hi, 0, 7, 99])
        else:
            pool = [0, 0.1, -2.5, 1e6, 1 / 3, 7, -9999, 3.25, 1e-30, math.nan, math.nan]
            if rng.random() < 0.2:
                pool += [math.inf, -math.inf]
            nodata = rng.choice([None, None, -9999, 0, 7, 0.1, -3.4028234663852886e+38, 1e20, -32768])
            if dtype == "float64" and nodata is not None and abs(nodata) > 1e37:
                nodata = -1.7976931348623157e+308
        ny, nx = rng.randint(1, 5), rng.randint(1, 6)
        scale, dx, dy = rng.choice([(16, 16, 16), (16, 16, 32), (16, 160, 8), (16, 1600, 1600), (10, 1, 1), (10, 3, 7),
                                    (10, 300, 300)])
        x0 = rng.choice([0, -50, 16 * 500000 + 7])
        y0 = rng.choice([0, 37, 16 * 6760000 + 3])
        sx, sy = rng.choice([1, 1, -1]), rng.choice([-1, -1, 1])
        code = rng.choice(EPSG + [0, 32606])
        bands = rng.choice([1, 1, 1, 2, 3])
        src = Source(rng, dtype, [values(rng, dtype, (ny, nx), pool) for _ in range(bands)],
                     [x0, x0 + sx * dx * nx], [y0, y0 + sy * dy * ny], code, scale,
                     crs_arg(rng, code) if code else None)
        # Not every format can hold reversed axes
        path = f"r{i}." + rng.choice(["tif", "tif", "img" if (sx, sy) == (1, -1) else "tif"])
        for g in range(2):
            if not write(rng, src, path, nodata, ev):
                break
            r = None
            if path.endswith("img") and len(src.values) > 1 and dtype in FLOATS and rng.random() < 0.7:
                # Bands with different nodata values
                band = rng.randint(1, len(src.values))
                ds = osgeo.gdal.Open(path, 1)
                ds.GetRasterBand(band).SetNoDataValue(7)
                ds = None
                ev.append({"op": "nodata", "band": band, "nan": "7", "err": ""})
            for _ in range(rng.randint(1, 3)):
                band = rng.randint(1, len(src.values))
                nan = rng.choice([None, None, None, 0, 7, 1])
                kw = {}
                if scale == 16:
                    if rng.random() < 0.5:
                        kw["xl"] = cut(rng, src.xl, nx, dx)
                    if rng.random() < 0.5:
                        kw["yl"] = cut(rng, src.yl, ny, dy)
                if rng.random() < 0.4 and dx % 4 == 0 and dy % 4 == 0:
                    k = min(dx, dy)
                    kw["d"] = rng.choice([k // 2, k * 2, k, k * 3, k // 4, k * 3 // 4, max(dx, dy)])
                    if nx * ny * dx * dy > 3000 * kw["d"] ** 2:
                        kw["d"] = max(dx, dy)
                if rng.random() < 0.3:
                    open_(rng, src, path, band, None, ev, grid=True, **kw)
                r = open_(rng, src, path, band, nan, ev, **kw)
                if r is None:
                    break
            if r is None:
                break
            # Write what was read
            ny, nx = r.array.shape
            xl, yl = limits(r.xlim, scale), limits(r.ylim, scale)
            if xl[0] is None or (xl[1] - xl[0]) % nx or (yl[1] - yl[0]) % ny:
                break
            dx, dy = abs(xl[1] - xl[0]) // nx, abs(yl[1] - yl[0]) // ny
            if min(dx, dy) < 1 or max(map(abs, xl + yl)) > 10**9:
                break
            a = np.array(r.array)
            src = Source(rng, str(a.dtype), [a], xl, yl, crs_code(r.crs), scale, r.crs)
            if src.dtype == "float64" and nodata is not None and rng.random() < 0.5:
                nodata = -5555.5
        for p in (path, path + ".aux.xml"):
            if os.path.exists(p):
                os.remove(p)
        hist.append({"kf": "", "ev": ev})


def cut(rng, lim, n, d):
    """Limits that fall inside or outside of cells, in either order."""
    lo = min(lim)
    a = rng.randrange(0, n)
    b = rng.randint(a + 1, n)
    out = [lo + a * d + rng.choice([0, max(1, d // 4)]), lo + b * d - rng.choice([0, max(1, d // 4)])]
    if out[0] >= out[1]:
        out = [lo + a * d, lo + b * d]
    if rng.random() < 0.3:
        out[rng.randrange(2)] += rng.choice([-1, 1]) * 0
    if rng.random() < 0.2:
        out = [lo - 3 * d, out[1]]
    if rng.random() < 0.2:
        out = [out[0], lo + (n + 3) * d]
    return out[::-1] if rng.random() < 0.3 else out


def images(rng, n, hist):
    """Images written as given, or as read."""
    for i in range(n):
        ev = []
        ext = rng.choice(["tif", "png", "PNG", "img"])
        dtype = rng.choice(["uint8", "uint8", "uint16"])
        bands = rng.choice([1, 3, 3, 4] if ext != "tif" else [1, 2, 3, 5])
        ny, nx = rng.randint(1, 5), rng.randint(1, 6)
        pool = range(INTS[dtype][1] + 1)
        vs = [values(rng, dtype, (ny, nx), pool) for _ in range(bands)]
        a = np.dstack(vs) if bands > 1 or rng.random() < 0.3 else vs[0]
        src = Source(rng, dtype, vs, [0, 16 * nx], [0, 16 * ny], 0)
        e = {"op": "write", "src": src.describe(), "nan": "none", "err": "", "kept": 1}
        path, path2 = f"i{i}.{ext}", f"j{i}.tif"
        base = f"base{i}.tif"
        helpers.write_raster(np.zeros((ny, nx), dtype="uint8"), base)
        img = Image(base, cam=Camera(imgsz=(nx, ny), f=10), datetime=T0)
        before = a.copy()
        _, e["err"] = attempt(img.write, path, a)
        e["kept"] = int(np.array_equal(a, before))
        ev.append(e)
        for p in (path, path2):
            if ev[-1]["err"]:
                break
            img = Image(p, cam=Camera(imgsz=(nx, ny), f=10), datetime=T0)
            out, err = attempt(img.read)
            e = {"op": "image", "out": [], "t": "", "err": err}
            if not err:
                b = out[:, :, None] if out.ndim == 2 else out
                e["out"] = [rows(b[:, :, k]) for k in range(b.shape[2])]
                e["t"] = str(out.dtype)
            ev.append(e)
            if p == path and not err:
                # Write the image itself
                if rng.random() < 0.5:
                    img = Image(p, cam=Camera(imgsz=(nx, ny), f=10), datetime=T0)
                kw = rng.choice([{}, {"driver": "GTiff"}])
                _, err = attempt(img.write, path2, **kw)
                ev.append({"op": "write", "src": src.describe(), "nan": "none", "err": err, "kept": 1})
        for p in (path, path2, base):
            for x in (p, p + ".aux.xml"):
                if os.path.exists(x):
                    os.remove(x)
        hist.append({"kf": "", "ev": ev})


def rejects(hist):
    a = np.zeros((2, 2), dtype="uint8")
    for fn, args, kw in [
        (helpers.write_raster, (a, "x.unknown"), {}),
        (helpers.write_raster, (a, "x"), {}),
        (helpers.write_raster, (a, "x.tif"), {"driver": "NoSuchDriver"}),
        (helpers.write_raster, (np.array([["a"]]), "x.tif"), {}),
        (helpers.write_raster, (a.astype(object), "x.tif"), {}),
        (helpers.write_raster, (a, "x.tif"), {"crs": "epsg"}),
        (helpers.write_raster, (a, "x.tif"), {"crs": 1.5}),
        (Raster(a).write, ("x.unknown",), {}),
    ]:
        _, err = attempt(fn, *args, **kw)
        hist.append({"kf": "", "ev": [{"op": "reject", "err": err}]})


def canon(x):
    """Text that differs for data that differ."""
    if isinstance(x, np.ndarray):
        return f"array {x.dtype} {x.shape} " + canon(x.tolist())
    if isinstance(x, np.generic):
        return f"{x.dtype} " + canon(x.item())
    if isinstance(x, dict):
        return "{" + ", ".join(canon(k) + ": " + canon(v) for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return type(x).__name__ + "[" + ", ".join(canon(v) for v in x) + "]"
    if isinstance(x, cv2.KeyPoint):
        return "key" + canon([*x.pt, x.size, x.angle, x.response, x.octave, x.class_id])
    if isinstance(x, float):
        return x.hex()
    return repr(x)


TEXT = ['', 'a', 'a, b', '[1, 2]', '"', '\\', 'a"b', '{', '}', ']', 'x\n y', 'é', '\\"', ', ', '  ', "'", '\\\\', '[\n', '""']


def tree(rng, depth, root=False):
    k = rng.random()
    if depth == 0 or (not root and k < 0.3):
        return rng.choice([None, True, False, 0, -1, 12345678901234567890, 0.1, -2.5e-10, 1e300, 3.0] + TEXT)
    if k < 0.65:
        return [tree(rng, depth - 1) for _ in range(rng.randint(0, 4))]
    return {rng.choice(TEXT) + str(i): tree(rng, depth - 1) for i in range(rng.randint(0, 3))}


def tokens(text):
    out = []
    for t in re.findall(r'"(?:[^"\\]|\\.)*"|[\[\]{},:]|\n|[^\s\[\]{},:"]+', text):
        out.append(t if t in "[]{},:" else "n" if t == "\n" else "v")
    return out


def texts(rng, n, hist):
    for i in range(n):
        obj = tree(rng, rng.randint(1, 4), root=True)
        kw = {}
        if rng.random() < 0.7:
            kw["indent"] = rng.choice([0, 2, 4, "\t"])
        if rng.random() < 0.3:
            kw["separators"] = rng.choice([(",", ":"), (", ", ": "), (" , ", " : ")])
        if rng.random() < 0.2:
            kw["ensure_ascii"] = False
        flat = rng.random() < 0.6
        if flat or rng.random() < 0.3:
            kw["flat_arrays"] = flat
        before = canon(obj)
        path = rng.choice([None, None, f"d{i}/e/t.json", f"t{i}.json"])
        text, err = attempt(helpers.write_json, obj, path, **kw)
        e = {"op": "text", "in": before + " " + before, "out": "", "err": err, "toks": [], "flat": int(flat)}
        if not err:
            if path is None:
                back = json.loads(text)
            else:
                back, e["err"] = attempt(helpers.read_json, path)
                text = pathlib.Path(path).read_text()
                os.remove(path)
            if not e["err"]:
                e["out"] = canon(back) + " " + canon(obj)
                e["toks"] = tokens(text)
        hist.append({"kf": "", "ev": [e]})


def cameras(rng, n, hist):
    for i in range(n):
        num = lambda: rng.choice([0, 1, -1, 0.1, -2.75, 1 / 3, 1e-9, 123456.789, rng.uniform(-1, 1)])  # noqa
        kw = {"imgsz": (rng.randint(1, 5000), rng.randint(1, 5000)), "f": (100 + num(), 100 + num())}
        for key, m in [("xyz", 3), ("viewdir", 3), ("c", 2), ("k", 6), ("p", 2)]:
            if rng.random() < 0.7:
                kw[key] = [num() for _ in range(m)]
        if rng.random() < 0.4:
            kw["sensorsz"] = (rng.choice([35.8, 23.6]), rng.choice([23.9, 15.8]))
        cam = Camera(**kw)
        atts = ["xyz", "viewdir", "imgsz", "f", "c", "k", "p"]
        args = {}
        over = {}
        if rng.random() < 0.5:
            atts = rng.choice([atts + ["sensorsz"],
                               ["imgsz", "fmm", "cmm", "sensorsz", "k", "p", "xyz", "viewdir"] if "sensorsz" in kw
                               else ["viewdir", "xyz", "imgsz", "f"]])
            args["attributes"] = atts
        if rng.random() < 0.3:
            over = {rng.choice(["xyz", "viewdir"]): (4.5, -2, 1)}
        if rng.random() < 0.5:
            args.update(indent=4, flat_arrays=rng.random() < 0.5)
        path = rng.choice([f"c{i}.json", f"cams{i}/c.json"])

        def values_of(x):
            d = {}
            for a in atts:
                v = over[a] if x is cam and a in over else getattr(x, a)
                d[a] = None if v is None else [float(np.float64(z)) for z in v]
                if a in ("fmm", "cmm") and d[a] is not None:
                    d[a] = [round(z, 9) for z in d[a]]
            return d

        want = canon(values_of(cam))
        _, err = attempt(cam.to_json, path, **args)
        e = {"op": "same", "what": "camera", "in": want, "out": "", "err": err}
        if not err:
            back, e["err"] = attempt(Camera.from_json, path, **over)
            if not e["err"]:
                e["out"] = canon(values_of(back))
            os.remove(path)
        hist.append({"kf": "", "ev": [e]})
        # The text and the dictionary are the same
        text, err = attempt(cam.to_json, attributes=atts)
        e = {"op": "same", "what": "camera as text", "err": err, "in": canon({a: helpers.numpy_to_native(getattr(cam, a)) for a in atts}),
             "out": ""}
        if not err:
            e["out"] = canon(json.loads(text))
            if canon(cam.to_dict(atts)) != e["out"]:
                e["out"] += " is not the dictionary"
        hist.append({"kf": "", "ev": [e]})


def pickles(rng, n, hist):
    for i in range(n):
        def item():
            return rng.choice([
                lambda: np.array([[1, 2.5], [math.nan, -0.0]]).astype(rng.choice(["float32", "float64"])),
                lambda: np.arange(rng.randint(0, 4), dtype="uint8"),
                lambda: cv2.KeyPoint(1.5, rng.uniform(0, 9), 3.25, rng.choice([-1, 45.5]), 0.125, rng.randint(0, 900), rng.choice([-1, 7])),
                lambda: {"a": [1, 2], 3: (4, None)}, lambda: "text", lambda: rng.uniform(-1, 1), lambda: b"\x00\xff"])()
        obj = rng.choice([lambda: [item() for _ in range(rng.randint(0, 4))],
                          lambda: tuple(item() for _ in range(3)), lambda: {"k": item()}])()
        gz = rng.random() < 0.4
        kw = {"gz": gz} if gz or rng.random() < 0.5 else {}
        path = rng.choice([f"p{i}.pkl", f"p{i}/q/r.pkl"])
        want = canon(obj)
        pk = {"protocol": rng.choice([2, 4])} if rng.random() < 0.3 else {}
        _, err = attempt(helpers.write_pickle, obj, path, **kw, **pk)
        e = {"op": "same", "what": "pickle", "in": want + (" gz" if gz else ""), "out": "", "err": err}
        if not err:
            back, e["err"] = attempt(helpers.read_pickle, path, **kw)
            if not e["err"]:
                e["out"] = canon(back) + (" gz" if open(path, "rb").read(2) == b"\x1f\x8b" else "")
            os.remove(path)
        hist.append({"kf": "", "ev": [e]})


def run(c):
    rng = random.Random(c.seed)
    big = c.thorough
    scripts = c.behaviours_of(
        "StorageMC", "SPECIFICATION Spec\nINVARIANTS Survives IntegersSurvive OnlyMissing StaysMissing Emit\n"
        "CONSTANTS N = 2\n", workers=8)
    rng.shuffle(scripts)
    hist = []
    replays(rng, scripts[:len(scripts) if big else 500], hist)
    rasters(rng, 4000 if big else 600, hist)
    images(rng, 1500 if big else 250, hist)
    rejects(hist)
    texts(rng, 6000 if big else 800, hist)
    cameras(rng, 2000 if big else 250, hist)
    pickles(rng, 2000 if big else 300, hist)
    c.judge("StorageTrace", hist, "files")


sys.exit(main("C10", run))
