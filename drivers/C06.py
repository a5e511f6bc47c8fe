"""C06: Image evidence favours the particle that moved with the image."""
import datetime
import os
import random
import sys
import warnings

import numpy as np
import osgeo.gdal
from vlib import attempt, main, qi

from glimpse import Camera, Image, Raster
from glimpse.track import Observer, Tracker

T0 = datetime.datetime(2020, 1, 1)
DAY = datetime.timedelta(days=1)
# Only samples beyond the tile (of constant value zero): no filter
FAR = np.zeros((401, 401), dtype=bool)
FAR[0, 0] = True
NOFILTER = {"footprint": FAR, "mode": "constant", "cval": 0.0}


def paint(rng, b):
    """Image of a binary pattern in some data type, contrast, and number of bands."""
    nr = np.random.RandomState(rng.randrange(10 ** 6))
    b = np.array(b)
    kind = rng.choice(["uint8", "int16", "float32", "float64", "bands"])
    if kind == "uint8":
        return (b * rng.randint(1, 200) + rng.randint(0, 55)).astype(np.uint8)
    if kind == "int16":
        return (b * rng.randint(1, 3000) + rng.randint(-3000, 500)).astype(np.int16)
    if kind in ("float32", "float64"):
        return (b * rng.choice([.125, .5, 4, 1000]) + rng.choice([-3, 0, 8])).astype(kind)
    s = b * 90 + 60
    b1 = nr.randint(0, 60, b.shape)
    b2 = nr.randint(0, 60, b.shape)
    return np.dstack((b1, b2, s - b1 - b2)).astype(np.int16)


def record(img, log):
    read = img.read

    def wrapped(box=None, cache=True):
        log.append(None if box is None else [int(x) for x in np.ravel(box)])
        return read(box=box, cache=cache)

    img.read = wrapped
    return img


def write(path, a):
    a = np.atleast_3d(a)
    t = {"uint8": 1, "int16": 3, "float32": 6, "float64": 7}[str(a.dtype)]
    ds = osgeo.gdal.GetDriverByName("GTiff").Create(path, a.shape[1], a.shape[0], a.shape[2], t)
    for i in range(a.shape[2]):
        ds.GetRasterBand(i + 1).WriteArray(a[:, :, i])
    ds = None


class View:
    """Observer of patterns, and the world coordinates of its pixels."""

    def __init__(self, rng, patterns, log, n):
        self.size = (len(patterns[0][0]), len(patterns[0]))
        nx, ny = self.size
        kind = rng.choice(["raster", "image"])
        imgs = []
        if kind == "raster":
            self.x0, self.y0 = rng.randint(-50, 50), rng.randint(-50, 50)
            self.dx, self.dy = rng.choice([1, .5, 4, -2]), rng.choice([-1, -.5, 2])
            for i, b in enumerate(patterns):
                imgs.append(Raster(
                    paint(rng, b), x=(self.x0, self.x0 + nx * self.dx), y=(self.y0, self.y0 + ny * self.dy),
                    datetime=T0 + i * DAY))
        else:
            f = rng.choice([64, 128])
            h = f * rng.choice([1, 2])
            self.dx, self.dy = h / f, -h / f
            self.x0, self.y0 = -nx / 2 * self.dx, -ny / 2 * self.dy
            for i, b in enumerate(patterns):
                path = os.path.join(os.getcwd(), f"p{n}_{i}.tif")
                write(path, paint(rng, b))
                cam = Camera(imgsz=self.size, f=f, xyz=(0, 0, h), viewdir=(0, -90, 0))
                imgs.append(Image(path, cam=cam, datetime=T0 + i * DAY))
        self.kind = kind
        self.sigma = rng.choice([.3, .5, 1, 2, .25])
        self.images = imgs
        self.observer = Observer([record(x, log) for x in imgs], sigma=self.sigma, cache=rng.random() < 0.5)

    def xyz(self, uv):
        uv = np.asarray(uv, dtype=float)
        return np.column_stack((self.x0 + uv[:, 0] * self.dx, self.y0 + uv[:, 1] * self.dy, np.zeros(len(uv))))


def pattern(rng, nx, ny):
    p = rng.choice([.3, .5, .7])
    return [[int(rng.random() < p) for _ in range(nx)] for _ in range(ny)]


def shifted(b, d):
    return np.roll(np.array(b), (d[1], d[0]), axis=(0, 1)).tolist()


def template(tracker, o, view, log, img, muv, size, e):
    del log[:]
    _, e["err"] = attempt(tracker.initialize_template, obs=o, img=img, tile_size=size)
    e["reads"] = [x for x in log if x is not None]


def scenario(rng, patterns_per_view, n, replay=None):
    log = []
    views = [View(rng, ps, log, f"{n}_{k}") for k, ps in enumerate(patterns_per_view)]
    imgs = [p for ps in patterns_per_view for p in ps]
    hp = rng.choice([(0, 0), (0, 0), (3, 3), (5, 5), (3, 1), (1, 3)])
    # Degree along columns (u) and rows (v)
    deg = rng.choice([(1, 1), (1, 1), (3, 3), (3, 3), (2, 2), (1, 3), (3, 1), (4, 2)])
    if hp == (0, 0):
        highpass = NOFILTER
    else:
        highpass = {"size": hp[::-1] if hp[0] != hp[1] else rng.choice([hp, hp[0]])}
    kw = {"interpolation": {"kx": deg[1], "ky": deg[0]}}
    if deg == (3, 3):
        kw = rng.choice([{}, {"interpolation": {}}, {"interpolation": {"kx": 3}}, {"interpolation": {"ky": 3}}, kw])
    if hp == (5, 5) and rng.random() < 0.5:
        highpass = None
    else:
        kw["highpass"] = highpass
    tracker = Tracker([v.observer for v in views], **kw)
    ev = []
    v0 = views[0]
    if replay:
        size, muv4, d = replay
    else:
        size = [rng.randint(1, 5), rng.randint(2, 4)]
        k = rng.random()
        # Mean position in quarter pixels: anywhere, or near the edges
        nx, ny = v0.size
        if k < 0.75:
            muv4 = [rng.randint(24, 4 * nx - 24), rng.randint(24, 4 * ny - 24)]
        else:
            muv4 = [rng.choice([rng.randint(0, 20), 4 * nx - rng.randint(0, 20), 2 * nx]),
                    rng.choice([rng.randint(0, 20), 4 * ny - rng.randint(0, 20), 2 * ny])]
    # Particles
    step = [1 if k == 1 else 4 for k in deg]
    offs = [(0, 0)]
    if rng.random() < 0.85 and not replay:
        m = [4 * rng.randint(0, 2) + (rng.randint(0, 3) if k == 1 else 0) for k in deg]
        for _ in range(rng.randint(1, 4)):
            offs.append(tuple(rng.randrange(-a, a + 1, b) for a, b in zip(m, step)))
        if rng.random() < 0.3:
            offs = [(x, 0) for x, _ in offs]
    uv4 = [[muv4[0] + a, muv4[1] + b] for a, b in offs]
    # All particles of a view with the mean at the first particle
    others = views[1:]
    xyz = v0.xyz(np.array(uv4) / 4)
    parts = np.column_stack((xyz, np.zeros((len(xyz), 3))))
    tracker.particles = np.array(parts)
    tracker.weights = np.array([1.0] + [0.0] * (len(xyz) - 1))
    tmpl_ok = []
    boxes = []
    base = 0
    info = []
    for o, v in enumerate(views):
        # Positions seen by this observer, in quarter pixels
        uv = (parts[:, :2] - [v.x0, v.y0]) / [v.dx, v.dy] * 4
        uvi = np.round(uv).astype(int)
        exact = np.abs(uv - uvi).max() < 1e-9
        if not exact or ((uvi - uvi[0]) % 4 * (np.array(deg) > 1)).any():
            info.append(None)
            base += len(patterns_per_view[o])
            continue
        e = {"op": "template", "muv": uvi[0].tolist(), "size": size, "imgsz": list(v.size),
             "exact": int(v.kind == "raster")}
        template(tracker, o, v, log, 0, None, size, e)
        ev.append(e)
        if e["err"] or len(e["reads"]) != 1:
            info.append(None)
            base += len(patterns_per_view[o])
            continue
        tb = e["reads"][0]
        tp = np.array(imgs[base])[tb[1]:tb[3], tb[0]:tb[2]]
        ones, cells = int(tp.sum()), int(tp.size)
        info.append((tb, ones, cells, uvi, base))
        base += len(patterns_per_view[o])
    if any(x is None or x[1] in (0, x[2]) for x in info):
        return ev, imgs
    # Move particles in the later image
    if replay:
        shift = d
    else:
        m = rng.choice([0, 0, 3, 3, 3, 3, 12])
        shift = (rng.randint(-m, m), rng.randint(-m, m))
    move = np.array(shift) * [v0.dx, v0.dy]
    tracker.particles[:, :2] += move
    tracker.weights = np.ones(len(parts))
    before = tracker.particles.copy()
    sums = np.zeros(len(parts))
    used = []
    imgi = 0 if (rng.random() < 0.2 and not replay) else 1
    for o, v in enumerate(views):
        tb, ones, cells, uvi, base = info[o]
        uv = (tracker.particles[:, :2] - [v.x0, v.y0]) / [v.dx, v.dy] * 4
        uvj = np.round(uv).astype(int)
        if np.abs(uv - uvj).max() > 1e-9 or ((uvj - uvi[0]) % 4 * (np.array(deg) > 1)).any():
            return ev, imgs
        del log[:]
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            out, err = attempt(tracker.compute_observer_log_likelihoods, o, imgi)
        reads = [x for x in log if x is not None]
        sim = np.array(imgs[base + imgi])
        if len(reads) == 1 and not err and out is not None:
            b = reads[0]
            tile = sim[max(b[1], 0):b[3], max(b[0], 0):b[2]]
            if tile.size == 0 or tile.min() == tile.max() or tile.size * ones > 2200:
                return ev, imgs
        e = {"op": "evidence", "uv": uvj.tolist(), "muv": uvi[0].tolist(), "size": size, "imgsz": list(v.size),
             "timg": base + 1, "simg": base + imgi + 1, "tbox": tb, "box": reads[0] if reads else [0, 0, 0, 0],
             "reads": reads, "hp": list(hp), "k": max(deg), "err": err, "skipped": int(not err and out is None),
             "warned": int(any(issubclass(w.category, UserWarning) for w in caught)), "p": [],
             "intact": int((tracker.particles == before).all())}
        if err:
            ev.append(e)
            return ev, imgs
        if out is not None:
            out = np.asarray(out, dtype=float)
            if out.shape == (len(parts),):
                scale = 2 * v.sigma ** 2 * ones * (cells - ones) / cells
                e["p"] = [qi(x * scale, 400) for x in out]
                sums = sums + out
                used.append(o)
        ev.append(e)
    pick = [rng.random() < 0.8 for _ in views]
    args = [imgi if p else None for p in pick]
    tracker.weights = np.linspace(1, 2, len(parts)) if not replay else np.ones(len(parts))
    old = tracker.weights.copy()
    want = np.zeros(len(parts))
    anyused = False
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for o, p in enumerate(pick):
            if p:
                out = tracker.compute_observer_log_likelihoods(o, imgi)
                if out is not None:
                    want, anyused = want + out, True
        _, err = attempt(tracker.update_weights, args)
    logw = -np.log(np.asarray(tracker.weights, dtype=float))
    if not anyused:
        want = -np.log(old)
    if want.max() - want.min() < 300 and want.max() < 600:
        ev.append({"op": "update", "err": err, "logw": [qi(x, 1000) for x in logw - logw[0]],
                   "sum": [qi(x, 1000) for x in want - want[0]]})
    return ev, imgs


def run(c):
    rng = random.Random(c.seed)
    big = c.thorough
    cases = c.behaviours_of(
        "EvidenceMC", "SPECIFICATION Spec\nINVARIANTS NonNegative MovedIsExact OnlyMatches Emit\n"
        "CONSTANTS NX = 4 NY = 3 TX = 2 TY = 1\n", workers=8)
    if big:
        cases += c.behaviours_of(
            "EvidenceMC", "SPECIFICATION Spec\nINVARIANTS NonNegative MovedIsExact OnlyMatches Emit\n"
            "CONSTANTS NX = 4 NY = 4 TX = 2 TY = 2\n", workers=8)
    rng.shuffle(cases)
    hist = []
    for i, b in enumerate(cases[:3000 if big else 300]):
        # Embed the pattern in a larger image, and move it
        nx, ny = 16, 14
        ps = pattern(rng, nx, ny)
        k = np.array(b["img"])
        ps = np.array(ps)
        ps[6:6 + k.shape[0], 6:6 + k.shape[1]] = k
        ps = ps.tolist()
        ty = 1 if k.shape[0] == 3 else 2
        muv4 = [4 * 7 + 4, 4 * 7 + 2 * ty]
        ev, imgs = scenario(rng, [[ps, shifted(ps, b["d"])]], f"r{i}", ([2, ty], muv4, b["d"]))
        if ev:
            hist.append({"kf": "", "ev": ev, "imgs": imgs})
    for i in range(3000 if big else 450):
        nx, ny = rng.randint(13, 22), rng.randint(13, 20)
        views = []
        for _ in range(rng.choice([1, 1, 2])):
            ps = pattern(rng, nx, ny)
            d = (rng.randint(-3, 3), rng.randint(-3, 3))
            views.append([ps, rng.choice([shifted(ps, d), pattern(rng, nx, ny)])])
        ev, imgs = scenario(rng, views, i)
        if ev:
            hist.append({"kf": "", "ev": ev, "imgs": imgs})
    kinds = {}
    for x in hist:
        for e in x["ev"]:
            k = e["op"] + (":skipped" if e.get("skipped") else "")
            kinds[k] = kinds.get(k, 0) + 1
    c.notes["kinds"] = kinds
    c.judge("EvidenceTrace", hist, "evidence")


sys.exit(main("C06", run))
