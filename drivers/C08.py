"""C08: Rasters answer for their current values and grid after any edits."""
import datetime
import os
import random
import sys
import warnings

import numpy as np
from vlib import NAN, attempt, main, q, qm, qv

from glimpse import Raster

warnings.simplefilter("ignore")
T0 = datetime.datetime(2020, 1, 1)


def enc(a):
    return [[NAN if v is None else v for v in row] for row in a]


def real(rows, dtype):
    return np.array([[np.nan if v == NAN else v for v in row] for row in rows], dtype=dtype)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a.astype(float), b.astype(float), rtol=1e-9, atol=1e-9, equal_nan=True)


class Player:
    def __init__(self, rng, s0, dtype, source):
        self.rng = rng
        array = real(s0["a"], dtype)
        x, y = np.array(s0["xl"]) / 16, np.array(s0["yl"]) / 16
        if np.all(x == x.astype(int)) and rng.random() < 0.3:
            x = x.astype(int)
        r = Raster(array, x=x, y=y, datetime=T0, crs=None)
        if source == "centers" and array.shape[0] > 2 and array.shape[1] > 2:
            r = Raster(array, x=r.x.copy(), y=r.Y.copy() if rng.random() < 0.5 else r.y.copy())
        elif source == "file" and array.dtype.kind == "f":
            path = os.path.join(os.getcwd(), "s.tif")
            r.write(path)
            r = Raster.open(path, datetime=T0)
            attempt(r.read)
            os.remove(path)
        self.objs = [r]
        self.ev = []

    # ---- Observations ----

    def points(self, r, n, whole=False):
        """Positions in bounds, in 1/16 cells."""
        out = []
        lx, ly = np.round(r.xlim * 16).astype(int), np.round(r.ylim * 16).astype(int)
        dx, dy = (lx[1] - lx[0]) / (16 * r.size[0]), (ly[1] - ly[0]) / (16 * r.size[1])
        for _ in range(n):
            k = [self.rng.randint(0, 16 * m) for m in r.size]
            if not whole:
                # Never on centers
                k = [m + 1 if m % 16 == 8 else m for m in k]
            out.append([int(lx[0] + dx * k[0]), int(ly[0] + dy * k[1])])
        return out

    def look(self, r, kinds):
        see = []
        rng = self.rng
        if not (isinstance(r, Raster) and hasattr(r, "array")):
            for k in kinds:
                if k in ("n", "xlim", "ylim", "x", "y", "X", "Y", "d", "box", "cell"):
                    see.append(self.one(r, k, False))
            return see
        hasnan = bool(np.isnan(r.array.astype(float)).any())
        for k in kinds:
            see.append(self.one(r, k, hasnan))
        return [x for x in see if x is not None]

    def one(self, r, k, hasnan):
        rng = self.rng
        if k == "n":
            return {"k": k, "v": [int(x) for x in r.size] if tuple(r.shape) == tuple(r.size[::-1]) else []}
        if k in ("xlim", "ylim", "x", "y"):
            return {"k": k, "v": qv(getattr(r, k), 16)}
        if k in ("X", "Y"):
            return {"k": k, "v": qm(getattr(r, k), 16)}
        if k == "d":
            return {"k": k, "v": qv(r.d, 16)}
        if k == "box":
            v = r.box2d
            if not same(v, np.hstack((r.min, r.max))):
                v = None
            return {"k": k, "v": qv(v, 16)}
        if k == "cell":
            rc = [[rng.randrange(r.size[1]), rng.randrange(r.size[0])] for _ in range(3)]
            return {"k": k, "rc": rc, "v": qm(r.rowcol_to_xy(np.array(rc)), 16)}
        if k == "a":
            return {"k": k, "v": qm(r.array)}
        if k == "zlim":
            z = r.zlim
            b = r.box3d
            if not same(b, np.hstack((r.min, z[0], r.max, z[1]))):
                z = None
            return {"k": k, "v": qv(z)}
        if k == "linear":
            p = self.points(r, 4, not hasnan)
            e = {"k": k, "p": p, "fill": NAN}
            kw = {}
            u = rng.random()
            if u < 0.5:
                kw = {"bounds_error": False}
                fill = rng.choice([np.nan, 0, -3])
                if fill == fill:
                    kw["fill_value"] = fill
                    e["fill"] = 256 * fill
                # A point out of bounds
                b = [q(x, 16) for x in r.box2d]
                p.insert(rng.randrange(4), rng.choice([[b[0] - 8, b[1]], [b[2], b[3] + 1], [b[2] + 999, b[1] - 3]]))
            elif u < 0.6:
                kw = {"bounds_error": False, "fill_value": None}
            if rng.random() < 0.3:
                kw["order"] = 1
            v, e["err"] = attempt(r.sample, np.array(p) / 16, **kw)
            e["v"] = qv(v, 256)
            return e
        if k == "nearest":
            p = self.points(r, 4)
            v, err = attempt(r.sample, np.array(p) / 16, order=0)
            return {"k": k, "p": p, "err": err, "v": qv(v)}
        if k == "outside":
            p = self.points(r, 2)
            b = [q(x, 16) for x in r.box2d]
            p += rng.choice([[], [[b[0] - 1, b[1]]], [[b[2], b[3] + 1]], [[b[0], b[1]]], [[b[2], b[3]]], [[b[2] + 1, b[3]]], [[b[0], b[1] - 1]]])
            v, err = attempt(r.sample, np.array(p) / 16)
            return {"k": k, "p": p, "err": err}
        if k == "grid":
            p = self.points(r, 3, not hasnan)
            x = sorted({a[0] for a in p})
            y = sorted({a[1] for a in p})
            e = {"k": k, "x": x, "y": y}
            kw = {}
            if rng.random() < 0.5:
                b = [q(t, 16) for t in r.box2d]
                if rng.random() < 0.6:
                    x.append(b[2] + 5)
                if rng.random() < 0.6:
                    y.insert(0, b[1] - 2)
                fill = rng.choice([np.nan, 0, 7])
                kw = {"bounds_error": False, "fill_value": fill}
                e["k"] = "gridf"
                e["fill"] = NAN if fill != fill else 256 * fill
            if rng.random() < 0.5:
                x.reverse()
            if rng.random() < 0.5:
                y.reverse()
            v, e["err"] = attempt(r.sample, (np.array(x) / 16, np.array(y) / 16), grid=True, **kw)
            e["v"] = qm(v, 256)
            return e
        if k == "resample":
            # Onto a grid within the bounds
            t = r.copy()
            from glimpse.raster import Grid
            n = [rng.randint(1, 4), rng.randint(1, 4)]
            lim = []
            for i, l in enumerate((r.xlim, r.ylim)):
                step = (q(l[1], 16) - q(l[0], 16)) // (16 * int(r.size[i]))
                # Centers at whole sixteenths of cells
                m = 16 * int(r.size[i])
                w = 2 * rng.randint(1, max(1, m // (2 * n[i])))
                off = rng.randint(0, max(0, m - w * n[i]))
                if hasnan and (off + w // 2) % 2 == 0:
                    # Never on centers
                    w = w // 2 * 2
                a, b = q(l[0], 16) + off * step, q(l[0], 16) + (off + w * n[i]) * step
                if rng.random() < 0.4:
                    a, b = b, a
                lim.append([a, b])
                if hasnan and any((off + w * j + w // 2) % 16 == 8 for j in range(n[i])):
                    return None
                if off + w * n[i] > m:
                    return None
            g = Grid(tuple(n), x=np.array(lim[0]) / 16, y=np.array(lim[1]) / 16)
            _, err = attempt(t.resample, g)
            e = {"k": k, "n": n, "xl": lim[0], "yl": lim[1], "err": err, "v": [], "x": [], "y": [], "fresh": 0}
            if not err:
                e.update(v=qm(t.array, 256), x=qv(t.x, 16), y=qv(t.y, 16), fresh=self.fresh(t))
                if not (same(t.xlim, g.xlim) and same(t.ylim, g.ylim)):
                    e["x"] = []
            return e
        if k in ("gradx", "grady"):
            if min(r.size) < 2:
                return None
            g = r.gradient()
            i = int(k == "grady")
            return {"k": k, "v": qm(np.asarray(g[i]) * 2 * r.d[i])}
        if k == "extent":
            e = {"k": k, "v": [], "err": ""}
            v, e["err"] = attempt(r.data_extent)
            if not e["err"]:
                e["v"] = [int(v[0].start), int(v[0].stop), int(v[1].start), int(v[1].stop)]
            return e
        if k == "fresh":
            return {"k": k, "v": self.fresh(r)}

    def fresh(self, r):
        """Whether answers are those of a newly built raster."""
        new = Raster(np.array(r.array), x=np.array(r.xlim), y=np.array(r.ylim))
        ok = [same(new.size, r.size), same(new.x, r.x), same(new.y, r.y), same(new.X, r.X), same(new.Y, r.Y),
              same(new.d, r.d), same(new.min, r.min), same(new.max, r.max), new == r or np.isnan(r.array.astype(float)).any()]
        p = np.array(self.points(r, 5)) / 16
        ok += [same(new.sample(p), r.sample(p))]
        u, v = np.unique(p[:, 0]), np.unique(p[:, 1])
        if min(r.size) > 1:
            ok += [same(new.sample((u, v), grid=True), r.sample((u, v), grid=True))]
            ok += [same(new.hillshade(100, 30), r.hillshade(100, 30))]
            ok += [same(a, b) for a, b in zip(new.gradient(), r.gradient())]
        if not np.isnan(r.array.astype(float)).all():
            ok += [same(new.zlim, r.zlim)]
        return int(all(ok))

    # ---- Edits ----

    def do(self, i, o, kinds):
        """Apply an operation to an object (0-based)."""
        r, rng = self.objs[i], self.rng
        e = dict(o, obj=i + 1, new=0, err="", see=[])
        op = o["op"]
        new = None

        def num(v):
            return [x / 16 for x in v]

        if op in ("setx", "sety"):
            v = rng.choice([np.array, list, tuple])(num(o["x"]))
            _, e["err"] = attempt(setattr, r, "xlim" if op == "setx" else "ylim", v)
        elif op == "seta":
            _, e["err"] = attempt(setattr, r, "array", real(o["a"], o["dtype"]))
        elif op == "shift":
            kw = {"dx": o["x"][0] / 16, "dy": o["x"][1] / 16, "dz": o["y"][0]}
            if not isinstance(r, Raster):
                del kw["dz"]
            for k in list(kw):
                if kw[k] == 0 and rng.random() < 0.7:
                    del kw[k]
            _, e["err"] = attempt(r.shift, **kw)
        elif op == "crop":
            kw = {}
            if o.get("x0") != 1:
                kw["xlim"] = np.array(num(o["x"]))
            if o.get("y0") != 1:
                kw["ylim"] = np.array(num(o["y"]))
            _, e["err"] = attempt(r.crop, **kw)
        elif op == "cropz":
            _, e["err"] = attempt(r.crop, zlim=o["x"] if rng.random() < 0.7 else o["x"][::-1])
        elif op == "data":
            _, e["err"] = attempt(r.crop_to_data)
        elif op in ("take", "rows", "cols"):
            if op == "take":
                key = o["key"]
                del e["key"]
            elif op == "rows":
                key = (slice(None, None, o["y"][0]), slice(None))
            else:
                key = (slice(None), slice(o["x"][0], o["x"][-1] + 1, o["y"][0]))
            new, e["err"] = attempt(lambda: r[key].copy())
            if op != "take" and not e["err"]:
                # Replaces the object
                self.objs[i] = r = new
                new = None
            else:
                e["new"] = int(not e["err"])
        elif op == "fill":
            v = np.nan if o["v"] == NAN else o["v"]
            kw = {} if o["v"] == NAN and rng.random() < 0.5 else {"value": v}
            _, e["err"] = attempt(r.fill_circle, num(o["x"]), o["y"][0] / 16, **kw)
            e["a"] = qm(r.array)
        elif op == "resize":
            _, e["err"] = attempt(r.resize, o["f"], order=0)
            del e["f"]
            e["a"] = qm(r.array)
        elif op == "copy":
            new, e["err"] = attempt(r.copy)
            e["new"] = int(not e["err"])
        elif op == "grid":
            new, e["err"] = attempt(lambda: r.grid)
            e["new"] = int(not e["err"])
        elif op == "gresize":
            e["op"] = "resize"
            _, e["err"] = attempt(r.resize, o["f"])
            del e["f"]
            e["a"] = []
        seen = r
        if e["new"]:
            self.objs.append(new)
            seen = new
        e["see"] = self.look(seen, kinds)
        self.ev.append(e)
        return not e["err"]


GRIDS = ["n", "xlim", "ylim", "x", "y", "X", "Y", "d", "box", "cell"]
KINDS = GRIDS + ["a", "zlim", "linear", "nearest", "outside", "grid", "gradx", "grady", "extent", "fresh", "resample", "linear"]


def random_state(rng):
    n = [rng.randint(1, 5), rng.randint(1, 5)]
    square = rng.random() < 0.6
    lim = []
    d = None
    for m in n:
        if d is None or not square:
            d = rng.choice([64, 128, 256, 768, 512])
        a = rng.randint(-40, 40) * 16
        v = [a, a + m * d]
        lim.append(v if rng.random() < 0.6 else v[::-1])
    dtype = rng.choice(["float64", "float64", "float32", "int32", "int16", "uint8"])
    return {"n": n, "a": values(rng, n, dtype), "xl": lim[0], "yl": lim[1]}, dtype


def values(rng, n, dtype):
    lost = rng.choice([0, 0, 0.2, 0.6]) if dtype.startswith("float") else 0
    return [[NAN if rng.random() < lost else rng.randint(0, 9) for _ in range(n[0])] for _ in range(n[1])]


def random_op(rng, p, i):
    r = p.objs[i]
    n = [int(x) for x in r.size]
    lx, ly = [q(x, 16) for x in r.xlim], [q(x, 16) for x in r.ylim]
    dx, dy = (lx[1] - lx[0]) // n[0], (ly[1] - ly[0]) // n[1]
    raster = isinstance(r, Raster)
    ops = ["setx", "sety", "shift", "look"]
    if raster:
        ops += ["seta", "crop", "crop", "cropz", "data", "take", "take", "fill", "fill", "resize", "copy", "grid"]
    else:
        ops += ["gresize"]
    op = rng.choice(ops)
    o = {"op": op, "x": [], "y": []}
    if op in ("setx", "sety"):
        l, m = (lx, n[0]) if op == "setx" else (ly, n[1])
        d = rng.choice([64, 128, 256]) * m
        o["x"] = rng.choice([l[::-1], [l[0] + 16, l[1] + 16], [l[0], l[0] + d], [l[1], l[1] - d], l])
    elif op == "shift":
        o["x"] = [rng.choice([0, 16, -48, 5]), rng.choice([0, -16, 32])]
        o["y"] = [rng.choice([0, 1, -2, 3]) if raster else 0]
        if not raster:
            o["y"] = [0]
    elif op == "seta":
        m = n if rng.random() < 0.5 else [n[0] * rng.choice([1, 2]), n[1]]
        if rng.random() < 0.3:
            m = n[::-1]
        if max(m) > 8:
            m = n
        if any((l[1] - l[0]) % (16 * k) for l, k in zip((lx, ly), m)):
            m = n
        o["dtype"] = rng.choice(["float64", "int16", "float32"])
        o["a"] = values(rng, m, o["dtype"])
    elif op == "crop":
        for key, l, m, d in (("x", lx, n[0], dx), ("y", ly, n[1], dy)):
            if rng.random() < 0.2:
                o[key], o[key + "0"] = l, 1
                continue
            # On edges, or at fractions of cells, or partly outside, or fully
            k = sorted(rng.sample(range(-4, 4 * m + 5), 2))
            if k[0] == 4 * m or k[1] == 0:
                k = [1, 2]
            v = [l[0] + k[0] * d // 4, l[0] + k[1] * d // 4]
            o[key] = v if rng.random() < 0.5 else v[::-1]
    elif op == "cropz":
        o["x"] = sorted([rng.randint(-1, 10), rng.randint(-1, 10)])
    elif op == "take":
        key = []
        for m in (n[1], n[0]):
            while True:
                u = rng.random()
                if u < 0.2:
                    k = rng.randint(-m, m - 1)
                    s = slice(k, k + 1 if k != -1 else None)
                else:
                    k = s = slice(rng.choice([None, 0, 1, -1, -2, 2]), rng.choice([None, 0, 1, -1, 2, 3]), rng.choice([None, 1, 2, -1, -2, 3]))
                c = list(range(m))[s]
                if c:
                    break
            key.append((k, c, s.step or 1))
        o.update(key=(key[0][0], key[1][0]), rows=key[0][1], rstep=key[0][2], cols=key[1][1], cstep=key[1][2])
        if isinstance(key[1][0], slice) and key[1][0] == slice(None, None, None) and rng.random() < 0.7:
            o["key"] = key[0][0]
    elif op == "fill":
        if abs(dx) != abs(dy):
            return {"op": "look", "x": [], "y": []}
        c, w = rng.randrange(-1, n[0] + 1), rng.randrange(-1, n[1] + 1)
        o["x"] = [lx[0] + dx * c + dx // 2, ly[0] + dy * w + dy // 2]
        o["y"] = [abs(dx) * rng.choice([0, 1, 1, 2, 3])]
        if rng.random() < 0.3:
            o["x"][0] += dx // 4
            o["x"][1] -= dy // 4
        o["v"] = NAN if r.array.dtype.kind == "f" and rng.random() < 0.5 else rng.randint(0, 9)
    elif op in ("resize", "gresize"):
        f = rng.choice([2, 2, 3, 0.5, 1])
        m = [int(k * f) for k in n]
        if f == 0.5 and any(k % 2 for k in n) or max(m) > 10 or min(m) < 1 or \
                any((l[1] - l[0]) % (16 * k) for l, k in zip((lx, ly), m)):
            return {"op": "look", "x": [], "y": []}
        o.update(f=f, n=m)
    return o


def run(c):
    rng = random.Random(c.seed)
    big = c.thorough
    scripts = c.behaviours_of(
        "SurfaceMC", "SPECIFICATION Spec\nINVARIANTS Shape Centered AtCenters Mirrored Idempotent Emit\n"
        f"CONSTANTS N = {4 if big else 3}\n", workers=8)
    rng.shuffle(scripts)
    hist = []
    S0 = {"n": [3, 2], "a": [[1, 2, 3], [7, NAN, 5]], "xl": [0, 192], "yl": [256, 0]}
    for s in scripts[:6000 if big else 1400]:
        p = Player(rng, S0, "float64", rng.choice(["", "file", "centers"]))
        for o in s:
            if not p.do(0, o, rng.sample(KINDS, rng.choice([0, 2, 4])) + (["fresh", "a", "n"] if o is s[-1] else [])):
                break
        hist.append({"kf": "", "s0": S0, "ev": p.ev})
    for _ in range(4000 if big else 900):
        s0, dtype = random_state(rng)
        p = Player(rng, s0, dtype, rng.choice(["", "", "file", "centers"]))
        for _ in range(rng.randint(3, 8)):
            i = rng.randrange(len(p.objs))
            p.do(i, random_op(rng, p, i), rng.sample(KINDS, rng.choice([2, 4, 6])))
        # All objects at the end
        for i in range(len(p.objs)):
            p.do(i, {"op": "look", "x": [], "y": []}, KINDS)
        hist.append({"kf": "", "s0": s0, "ev": p.ev})
    c.judge("SurfaceTrace", hist, "edits")


sys.exit(main("C08", run))
