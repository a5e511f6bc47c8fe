"""C24: Summaries and views of tracks."""
import datetime
import os
import random
import shutil
import sys
import tempfile
import types
import warnings

os.environ["MPLBACKEND"] = "agg"
import cv2
import matplotlib

matplotlib.use("agg")
import matplotlib.collections
import matplotlib.dates
import matplotlib.pyplot as plt
import matplotlib.quiver
import numpy as np
import vlib
from matplotlib.backends.backend_agg import FigureCanvasAgg
from vlib import INEXACT, NAN, NONE, attempt, main, q, qi

from glimpse import Camera, Image, Observer, Tracks

warnings.simplefilter("ignore")
DIR = None
DRAW = FigureCanvasAgg.draw
SIZE = (160, 120)
T0 = datetime.datetime(2020, 1, 1)
COLORS = ["red", "green", "blue"]


def days(d):
    return datetime.timedelta(days=d)


def full(M, k=6):
    return np.array([[e if e else [np.nan] * k for e in row] for row in M], dtype=float).reshape(len(M), len(M[0]), k)


def n2(a):
    return [[q(x, 1, 1e-6) for x in row] for row in np.asarray(a, dtype=float).reshape(-1, np.shape(a)[-1])]


def n3(a):
    return [] if a is None else [n2(x) for x in a]


def points(line):
    return [[q(x, 1, 1e-6), q(y, 1, 1e-6)] for x, y in zip(np.atleast_1d(line.get_xdata(orig=False)), np.atleast_1d(line.get_ydata(orig=False)))]


def arrows(quiver):
    mask = np.ma.getmaskarray(np.ma.masked_invalid(quiver.U)) | np.ma.getmaskarray(np.ma.masked_invalid(quiver.V)) | np.ma.getmaskarray(np.ma.masked_invalid(quiver.X)) | np.broadcast_to(quiver.Umask if quiver.Umask is not None else False, quiver.U.shape)
    return [[q(v, 1, 1e-6) for v in (quiver.X[k], quiver.Y[k], quiver.U[k], quiver.V[k])] for k in range(len(quiver.U)) if not mask[k]]


def index(sel, n):
    if sel["kind"] == "all":
        return slice(None)
    if sel["kind"] == "slice":
        return slice(*(None if v == NONE else v for v in sel["v"]))
    if sel["kind"] == "mask":
        return np.array([v == 1 for v in sel["v"]], dtype=bool)
    return [int(v) for v in sel["v"]]


class World:
    def __init__(self, rng, M):
        self.rng, self.M = rng, M
        n, m = len(M), len(M[0])
        self.days = [0]
        for _ in range(m - 1):
            self.days.append(self.days[-1] + rng.choice([1, 1, 2, 3]))
        self.S = [[[rng.randint(1, 4) for _ in range(6)] if e else [] for e in row] for row in M]
        self.kept = rng.choice(["none", "sigmas", "sigmas", "covariances", "covariances", "both"])
        kw = {}
        if self.kept in ("sigmas", "both"):
            kw["sigmas"] = self.given(full(self.S))
        if self.kept in ("covariances", "both"):
            s = full(self.S) + (5 if self.kept == "both" else 0)
            c = np.full((n, m, 6, 6), 0.5)
            for k in range(6):
                c[:, :, k, k] = s[:, :, k] ** 2
            kw["covariances"] = self.given(c)
        self.failed = rng.choice([None, [rng.randrange(2) for _ in M]])
        if self.failed is not None:
            kw["errors"] = [ValueError("x") if f else None for f in self.failed]
        if rng.random() < 0.3:
            kw["warnings"] = [None if rng.random() < 0.5 else tuple("w" * rng.randint(1, 2)) for _ in M]
        self.kw = kw
        self.unit = rng.choice([1, 1, 2])
        self.tracks, self.err = self.make()
        self.ev = []

    def make(self, **more):
        times = [T0 + days(d) for d in self.days]
        return attempt(Tracks, datetimes=self.given(times), time_unit=days(self.unit), means=self.given(full(self.M)), **self.kw, **more)

    def given(self, a):
        return a if self.rng.random() < 0.5 else list(a)

    def end(self):
        return {"kf": "", "M": self.M, "S": self.S, "days": self.days, "unit": self.unit, "ev": self.ev}

    def summary(self):
        t = self.tracks
        if t is None:
            self.ev.append({"op": "summary", "xyz": [], "vxyz": [], "sxyz": [], "svxyz": [], "kept": self.kept, "failed": [], "success": [INEXACT], "times": []})
            return
        try:
            f = t.success
            self.ev.append({"op": "summary", "xyz": n3(t.xyz), "vxyz": n3(t.vxyz), "sxyz": n3(t.xyz_sigma), "svxyz": n3(t.vxyz_sigma), "kept": self.kept,
                            "failed": [] if self.failed is None else self.failed, "success": [] if f is None else [int(v) for v in f],
                            "times": [q((d - T0) / days(1)) for d in t.datetimes]})
        except Exception as e:
            self.tracks, self.err = None, str(e)
            self.summary()

    def ends(self, sel):
        got, err = attempt(self.tracks.endpoints, index(sel, len(self.M))) if sel["kind"] != "all" or self.rng.random() < 0.5 else attempt(self.tracks.endpoints)
        self.ev.append({"op": "ends", "sel": sel, "err": err, "got": [] if err else [[int(v) for v in a] for a in got]})

    def styles(self):
        """Whether each of two or three parts is drawn, and how."""
        return [self.rng.choice([False, True, {"color": self.rng.choice(COLORS)}]) for _ in range(3)]

    def xy(self, sel):
        start, mean, sigma = self.styles()
        if self.kept == "none":
            sigma = False
        kw = {}
        if start is not True or self.rng.random() < 0.5:
            kw["start"] = start
        if mean is not True or self.rng.random() < 0.5:
            kw["mean"] = mean
        if sigma is not False or self.rng.random() < 0.5:
            kw["sigma"] = sigma
        fig = plt.figure()
        ax = fig.add_subplot()
        before = [dict(v) if isinstance(v, dict) else v for v in (start, mean, sigma)]
        out, err = attempt(self.tracks.plot_xy, index(sel, len(self.M)), **kw)
        e = {"op": "xy", "sel": sel, "err": err, "want": [k for k, v in (("mean", mean), ("start", start), ("sigma", sigma)) if v], "keys": [], "alone": 0, "mean": [], "start": [], "sigma": [], "style": 0}
        try:
            if not err:
                e["keys"] = list(out)
                drawn = set(ax.lines) | set(ax.collections) | set(ax.patches) | set(ax.images)
                known = set(out.get("mean", [])) | set(out.get("start", []))
                e["mean"] = [points(v) for v in out.get("mean", [])]
                e["start"] = [p for v in out.get("start", []) for p in points(v) if p[0] != NAN]
                base = mean["color"] if isinstance(mean, dict) else "black"
                same = matplotlib.colors.same_color
                ok = all(same(v.get_color(), base) for v in out.get("mean", []))
                ok &= all(same(v.get_color(), start["color"] if isinstance(start, dict) else base) and v.get_linestyle() == "None" for v in out.get("start", []))
                for bar in out.get("sigma", []):
                    line, caps, cols = bar.lines
                    known |= {line} | set(caps) | set(cols)
                    ok &= same(line.get_color(), sigma["color"] if isinstance(sigma, dict) else base)
                    rows = {}
                    for segs, d in zip(cols, (0, 1)):
                        for s in segs.get_segments():
                            if len(s) == 2 and np.all(np.isfinite(s)):
                                rows.setdefault((q(s[:, 0].mean(), 1, 1e-6), q(s[:, 1].mean(), 1, 1e-6)), {}).setdefault(d, []).append(q(abs(s[1, d] - s[0, d]) / 2, 1, 1e-6))
                    xy = [p for p in points(line) if p[0] != NAN]
                    e["sigma"].append([p + [rows.get(tuple(p), {}).get(d, [INEXACT])[sum(r == p for r in xy[:k])] if sum(r == p for r in xy[:k]) < len(rows.get(tuple(p), {}).get(d, [0])) else INEXACT for d in (0, 1)] for k, p in enumerate(xy)])
                e["alone"] = int(drawn == known)
                e["style"] = int(ok and before == [start, mean, sigma])
        finally:
            plt.close("all")
        self.ev.append(e)

    def vxy(self, sel):
        plt.figure()
        out, err = attempt(self.tracks.plot_vxy, index(sel, len(self.M)), **self.rng.choice([{}, {"scale": 1}]))
        try:
            self.ev.append({"op": "vxy", "sel": sel, "err": err, "got": [] if err else [arrows(v) for v in out]})
        finally:
            plt.close("all")

    def v1d(self, sel):
        dim = self.rng.randrange(3)
        _, mean, sigma = self.styles()
        if self.kept == "none":
            sigma = False
        if isinstance(sigma, dict):
            sigma = {"facecolor": sigma["color"]}
        fig = plt.figure()
        fig.add_subplot()
        out, err = attempt(self.tracks.plot_v1d, dim, index(sel, len(self.M)), mean=mean, sigma=sigma)
        e = {"op": "v1d", "dim": dim, "sel": sel, "err": err, "want": [k for k, v in (("mean", mean), ("sigma", sigma)) if v], "keys": [], "mean": [], "sigma": [], "style": 0}
        zero = matplotlib.dates.date2num(T0)
        try:
            if not err:
                e["keys"] = list(out)
                e["mean"] = [[[q(x - zero, 1, 1e-6), q(y, 1, 1e-6)] for x, y in zip(v.get_xdata(orig=False), v.get_ydata(orig=False))] for v in out.get("mean", [])]
                e["sigma"] = [[[q(x - zero, 1, 1e-6), q(y, 1, 1e-6)] for p in v.get_paths() for x, y in p.vertices] for v in out.get("sigma", [])]
                base = mean["color"] if isinstance(mean, dict) else "black"
                same = matplotlib.colors.same_color
                want = sigma["facecolor"] if isinstance(sigma, dict) else base
                e["style"] = int(all(same(v.get_color(), base) for v in out.get("mean", []))
                                 and all(same(matplotlib.colors.to_rgb(v.get_facecolor()[0]), want) for v in out.get("sigma", []) if len(v.get_facecolor())))
        finally:
            plt.close("all")
        self.ev.append(e)

    def animate(self, i, watch):
        """Animate a track; views of one of two observers."""
        rng = self.rng
        m = len(self.days)
        grid = [[rng.choice([None] + [k for k in range(len(watch[o].images))] * 3) for o in range(2)] for _ in range(m)]
        o = rng.randrange(2)
        obs, cams, pixels = watch[o].obs, watch[o].cams, watch[o].pixels
        wanted = None if rng.random() < 0.5 else sorted(rng.sample(range(m), rng.randint(min(2, m), m)))
        has = [t for t in range(m) if self.M[i][t] and grid[t][o] is not None and (wanted is None or t in wanted)]
        if len(has) < 2:
            return
        flat = all(e[2] == 0 for e in self.M[i] if e)
        views, swarm = flat and rng.random() < 0.7, rng.random() < 0.6
        more, p = {}, rng.randint(1, 3)
        cloud = [[] for _ in range(m)]
        if swarm or rng.random() < 0.5:
            parts, weights = np.full((len(self.M), m, p, 6), 7.0), np.ones((len(self.M), m, p))
            for k in range(m):
                if self.M[i][k]:
                    parts[i, k] = [[v + rng.randint(-2, 2) for v in self.M[i][k]] for _ in range(p)]
                    parts[i, k, :, 2] = 0
                    weights[i, k] = [rng.randint(1, 9) for _ in range(p)]
                    cloud[k] = [[int(v) for v in row[:2]] + [int(v) for v in row[3:5]] + [int(w)] for row, w in zip(parts[i, k], weights[i, k])]
            more.update(particles=self.given(parts), weights=self.given(weights))
        held = views or rng.random() < 0.5
        if held:
            more["tracker"] = types.SimpleNamespace(observers=[w.obs for w in watch])
        tracks, err = self.make(images=grid, **more)
        kw = {}
        if o or rng.random() < 0.5:
            kw["obs"] = o
        if wanted is not None:
            kw["frames"] = wanted
        if views != held or rng.random() < 0.3:
            kw["images"] = views
        if swarm != ("particles" in more) or rng.random() < 0.3:
            kw["particles"] = swarm
        size = [rng.choice([20, 10, 31]), rng.choice([20, 16])]
        tile = [rng.choice([8, 12]), rng.choice([8, 10])]
        e = {"op": "animate", "err": err, "track": i + 1, "images": [NONE if g[o] is None else g[o] for g in grid], "wanted": list(range(m)) if wanted is None else wanted,
             "scaled": int(swarm or held), "particles": int(swarm), "cloud": cloud, "map": size, "views": int(views), "cams": cams, "size": list(SIZE), "tile": tile, "frames": [],
             "names": [v.path.split("/")[-1].split(".")[0] if views else f"{o} : {k}" for k, v in enumerate(obs.images)]}
        if not err:
            # Rendering takes most of the time
            plt.rcParams["figure.figsize"] = (1, 1)
            if rng.random() < 0.9:
                FigureCanvasAgg.draw = lambda self, *args, **kwargs: None
            a, e["err"] = attempt(tracks.animate, i, map_size=tuple(size), img_size=tuple(tile), **kw)
        FigureCanvasAgg.draw = DRAW
        try:
            if not e["err"]:
                a._draw_was_started = True
                fig = a._fig
                ids = [int(f) for f in a.new_frame_seq()]
                # Frames are shown again and again, in order
                extra = ids[:1] if rng.random() < 0.5 else []
                for f in ids + extra:
                    _, err = attempt(a._func, f)
                    if err:
                        e["err"] = err
                        break
                    left = fig.axes[0]
                    one = [v for v in left.collections if isinstance(v, matplotlib.quiver.Quiver) and v.get_array() is None]
                    many = [v for v in left.collections if isinstance(v, matplotlib.quiver.Quiver) and v.get_array() is not None]
                    row = {"i": f, "path": points(left.lines[0]), "arrow": arrows(one[0])[0] if len(one) == 1 else [], "swarm": [], "limits": [[q(2 * v) for v in left.get_xlim()], [q(2 * v) for v in left.get_ylim()]],
                           "uvs": [], "point": [], "box": [], "tile": 1, "view": [], "dots": [], "label": left.texts[0].get_text()}
                    if many:
                        row["swarm"] = [v + [q(w)] for v, w in zip(arrows(many[0]), many[0].get_array())] if len(many) == 1 else [[INEXACT]]
                    if views:
                        right = fig.axes[1]
                        shown(row, right, pixels[grid[f][o]], [v for v in right.lines if v.get_color() == "red"])
                        paths = [v for v in right.lines if v.get_color() != "red"]
                        row["uvs"] = points(paths[0]) if len(paths) == 1 else []
                        row["point"] = row.pop("points")[0]
                        row["view"] = [[q(2 * v, 1, 1e-5) for v in right.get_xlim()], [q(2 * v, 1, 1e-5) for v in right.get_ylim()]]
                        dots = list(right.collections)
                        if dots:
                            row["dots"] = [[q(x, 1, 1e-6), q(y, 1, 1e-6), q(w)] for (x, y), w in zip(np.asarray(dots[0].get_offsets()), dots[0].get_array())] if len(dots) == 1 else [[INEXACT]]
                    e["frames"].append(row)
                if extra and len(e["frames"]) > len(ids) and e["frames"][-1] == e["frames"][0]:
                    e["frames"].pop()
        finally:
            plt.close("all")
        self.ev.append(e)


def shown(row, ax, pixels, pts, images=None):
    """Box and pixels of the tile shown, and the points marked."""
    im = ax.images[0]
    left, right, bottom, top = im.get_extent()
    row["box"] = [q(v, 1, 1e-6) for v in (left, top, right, bottom)]
    box = [int(round(v)) for v in (left, top, right, bottom)]
    got = np.ma.filled(im.get_array(), 0)
    row["tile"] = int(len(ax.images) == 1 and im.origin == "upper" and np.array_equal(got, pixels[box[1]:box[3], box[0]:box[2]]))
    row["points"] = [[q(np.ravel(v.get_xdata())[0], 1, 1e-5), q(np.ravel(v.get_ydata())[0], 1, 1e-5)] for v in pts]


class Watch:
    """Images of a camera looking straight down, of one unit per pixel."""

    def __init__(self, rng, name, still=False):
        self.rng = rng
        n = rng.randint(2, 4)
        self.cams, self.images, self.pixels = [], [], []
        x, y = rng.randint(-4, 4), rng.randint(-4, 4)
        for k in range(n):
            if not still:
                x, y = rng.randint(-4, 4), rng.randint(-4, 4)
            cu, cv = rng.randint(-6, 6), rng.randint(-6, 6)
            self.cams.append([x, y, cu, cv])
            path = os.path.join(DIR, f"{name}_{k}.tif")
            g = np.random.RandomState(rng.randrange(1 << 30))
            a = g.randint(0, 256, (SIZE[1], SIZE[0], 3)).astype(np.uint8)
            cv2.imwrite(path, a[:, :, ::-1])
            self.pixels.append(a)
            self.images.append(Image(path, cam=Camera(imgsz=SIZE, f=100, c=(cu, cv), xyz=(x, y, 100), viewdir=(0, -90, 0)), datetime=T0 + days(k)))
        self.obs = Observer(self.images, cache=rng.random() < 0.5)

    def frames(self, least):
        rng, n = self.rng, len(self.images)
        if rng.random() < 0.5:
            return None, list(range(n))
        f = rng.sample(range(n), rng.randint(min(least, n), n))
        return (f if rng.random() < 0.5 else np.array(f)), f

    def still(self):
        rng = self.rng
        arg, wanted = self.frames(1)
        tile = [rng.choice([8, 12, 20]), rng.choice([8, 10])]
        center = arg is None and rng.random() < 0.3
        uv = [SIZE[0] // 2, SIZE[1] // 2]
        if not center:
            # Near an edge, so that tiles are cut, or not
            uv = [rng.choice([8, SIZE[0] - 8, rng.randint(30, SIZE[0] - 30)]), rng.choice([8, SIZE[1] - 8, rng.randint(30, SIZE[1] - 30)])]
            c = self.cams
            seen = [[uv[0] + c[f][2] - c[wanted[0]][2], uv[1] + c[f][3] - c[wanted[0]][3]] for f in wanted]
            if any(not (0 < u < SIZE[0] and 0 < v < SIZE[1]) for u, v in seen) or not (tile[0] // 2 <= uv[0] <= SIZE[0] - tile[0] // 2 and tile[1] // 2 <= uv[1] <= SIZE[1] - tile[1] // 2):
                return None
        kw = {} if center else {"uv": uv if rng.random() < 0.5 else np.array(uv, dtype=float)}
        e = {"op": "still", "wanted": wanted, "uv": uv, "cams": self.cams, "size": list(SIZE), "tile": tile, "frames": []}
        a, e["err"] = attempt(self.obs.animate, frames=arg, size=tuple(tile), **kw)
        try:
            if not e["err"]:
                a._draw_was_started = True
                for f in [int(v) for v in a.new_frame_seq()]:
                    _, err = attempt(a._func, f)
                    if err:
                        e["err"] = err
                        break
                    row, other = {"i": f}, {}
                    l, r = a._fig.axes[:2]
                    shown(row, l, self.pixels[f], l.lines)
                    shown(other, r, self.pixels[f], r.lines)
                    row["points"] += other["points"]
                    row["tile"] = int(row["tile"] == other["tile"] == 1 and row["box"] == other["box"])
                    row["left"], row["right"] = ([[q(2 * v, 1, 1e-5) for v in x.get_xlim()], [q(2 * v, 1, 1e-5) for v in x.get_ylim()]] for x in (l, r))
                    e["frames"].append(row)
        finally:
            plt.close("all")
        return e

    def moving(self):
        rng = self.rng
        arg, wanted = self.frames(2)
        tile = [rng.choice([8, 12, 20]), rng.choice([8, 10])]
        pts = [[rng.randint(-30, 30), rng.randint(-20, 20)] for _ in wanted]
        e = {"op": "moving", "wanted": wanted, "points": pts, "cams": self.cams, "size": list(SIZE), "tile": tile, "frames": []}
        a, e["err"] = attempt(self.obs.track, np.array([p + [0] for p in pts], dtype=float), frames=arg, size=tuple(tile))
        try:
            if not e["err"]:
                a._draw_was_started = True
                for f in [int(v) for v in a.new_frame_seq()]:
                    _, err = attempt(a._func, f)
                    if err:
                        e["err"] = err
                        break
                    row, other = {"i": f}, {}
                    l, r = a._fig.axes[:2]
                    shown(row, r, self.pixels[f], [v for v in r.lines if v.get_color() == "red"])
                    shown(other, l, self.pixels[wanted[0]], [v for v in l.lines if v.get_color() == "red"])
                    paths = [v for v in r.lines if v.get_color() != "red"]
                    row["path"] = points(paths[0]) if len(paths) == 1 else []
                    row["points"] = other["points"] + row["points"]
                    row["first"] = other["box"] if other["tile"] else []
                    e["frames"].append(row)
        finally:
            plt.close("all")
        return e

    def tile(self):
        rng = self.rng
        nx, ny = rng.randint(2, 9), rng.randint(2, 9)
        box = []
        if rng.random() < 0.5:
            x, y = rng.randint(-9, 50), rng.randint(-9, 50)
            box = [x, y, x + nx, y + ny]
        a = np.zeros((ny, nx, rng.choice([3, 4])), dtype=np.uint8)
        fig, ax = plt.subplots()
        e = {"op": "tile", "box": box, "size": [nx, ny], "got": []}
        out, e["err"] = attempt(self.obs.plot_tile, a, **({"box": box} if box else {}), **({"axes": ax} if rng.random() < 0.5 else {}))
        try:
            if not e["err"]:
                e["got"] = [q(v) for v in out.get_extent()]
        finally:
            plt.close("all")
        return e


def estimates(rng, n, m):
    p, h = rng.choice([0.1, 0.3, 0.6]), rng.choice([0, 0, 9])
    return [[[] if rng.random() < p else [rng.randint(-20, 20), rng.randint(-12, 12), rng.randint(-h, h), rng.randint(-5, 5), rng.randint(-5, 5), rng.randint(-5, 5)] for _ in range(m)] for _ in range(n)]


def selection(rng, n):
    k = rng.randrange(4)
    if k == 0:
        return {"kind": "all", "v": []}
    if k == 1:
        return {"kind": "slice", "v": [rng.choice([NONE, rng.randint(-n - 2, n + 2)]), rng.choice([NONE, rng.randint(-n - 2, n + 2)]), rng.choice([NONE, 1, 2, -1, -2])]}
    if k == 2:
        return {"kind": "list", "v": [rng.randint(-n, n - 1) for _ in range(rng.randint(1, n + 1))]}
    return {"kind": "mask", "v": [rng.randrange(2) for _ in range(n)]}


def replay(rng, b, plots, watches):
    w = World(rng, b["M"])
    w.summary()
    if w.tracks is None:
        return w.end()
    w.ends(b["sel"])
    if plots:
        k = rng.randrange(4)
        (w.xy, w.vxy, w.v1d, lambda s: w.animate(rng.randrange(len(b["M"])), rng.sample(watches, 2)))[k](b["sel"])
    return w.end()


def anything(rng, watches):
    w = World(rng, estimates(rng, rng.randint(1, 5), rng.randint(1, 7)))
    n = len(w.M)
    w.summary()
    if w.tracks is None:
        return w.end()
    w.ends(selection(rng, n))
    for _ in range(2):
        rng.choice([w.xy, w.vxy, w.v1d])(selection(rng, n))
    for _ in range(2):
        w.animate(rng.randrange(n), rng.sample(watches, 2))
    return w.end()


def views(rng, k):
    w = Watch(rng, f"v{k}", still=True)
    ev = [w.still() for _ in range(2)] + [w.moving(), w.tile()]
    v = Watch(rng, f"w{k}")
    ev += [v.moving()]
    for x in (w, v):
        for i in x.images:
            os.unlink(i.path)
    return {"kf": "", "M": [[[]]], "S": [[[]]], "days": [0], "unit": 1, "ev": [e for e in ev if e is not None]}


def run(c):
    global DIR
    DIR = tempfile.mkdtemp(prefix="c24_")
    try:
        rng = random.Random(c.seed)
        big = c.thorough
        scripts = c.behaviours_of("TracksMC", "SPECIFICATION Spec\nINVARIANTS Selected Halves EndsDefined Forward Emit\nPROPERTIES Starts\n"
                                  f"CHECK_DEADLOCK FALSE\nCONSTANTS N = 3 Last = {4 if big else 3}\n", workers=8)
        watches = [Watch(rng, str(k)) for k in range(12)]
        hist = [replay(rng, b, rng.random() < (0.1 if big else 0.05), watches) for b in scripts if big or rng.random() < 0.15]
        c.judge("TracksTrace", hist, "behaviours")
        c.judge("TracksTrace", [anything(rng, watches) for _ in range(4000 if big else 300)], "any")
        c.judge("TracksTrace", [views(rng, k) for k in range(2000 if big else 60)], "views")
    finally:
        shutil.rmtree(DIR, ignore_errors=True)


sys.exit(main("C24", run))
