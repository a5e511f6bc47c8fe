"""C22: What is seen of terrain, and the horizon."""
import random
import sys
import warnings

import numpy as np
import vlib
from vlib import NAN, attempt, main, qm

import glimpse

EARTH, REFRACTION = 6.3781e6, 0.13


class Scene:
    """Terrain as a raster: rows of T from below, in cells."""

    def __init__(self, rng, T, z, o, g=None, integers=None):
        self.T, self.z, self.o = T, z, o
        ny, nx = len(T), len(T[0])
        self.g = g if g is not None else rng.choice([[0], [0], [64], [96], [128], "default"])
        self.exact = self.g != "default"
        if self.exact:
            self.s = s = rng.choice([1, 1, 0.5, 4, 64])
            radius = self.g[0] / 32 * s
            if self.g == [0]:
                self.correction = rng.choice([{}, {"correction": False}, {"correction": None}])
            else:
                f = rng.choice([0, 0.5, 0.25])
                self.correction = {"correction": {"radius": radius * (1 - f), "refraction": f}}
        else:
            # 32 * EARTH / (1 - REFRACTION) = 111.86 cells
            self.s = s = 2.0 ** 21
            self.g = [111, 112]
            self.correction = {"correction": rng.choice([True, {"radius": EARTH, "refraction": REFRACTION}, {"refraction": REFRACTION}, {"radius": EARTH}])}
        self.x0, self.y0 = [s * rng.choice([0, 0, 3, -8.25, 100]) for _ in range(2)]
        self.dz = rng.choice([0, 0, 5, -3]) * s
        self.flip = rng.random() < 0.4, rng.random() < 0.4
        a = np.array(T, dtype=float)
        a[a == NAN] = np.nan
        a = (a * s + self.dz)[::-1]
        xlim, ylim = [self.x0, self.x0 + nx * s], [self.y0, self.y0 + ny * s]
        if self.flip[0]:
            xlim, a = xlim[::-1], a[:, ::-1]
        ylim = ylim[::-1]
        if self.flip[1]:
            ylim, a = ylim[::-1], a[::-1]
        if not np.isnan(a).any() and np.all(a == np.round(a)) and rng.random() < 0.5:
            a = a.astype(rng.choice([int, np.int32]))
        elif rng.random() < 0.2 and s <= 64:
            a = a.astype(np.float32)
        self.raster = glimpse.Raster(a.copy(), x=tuple(xlim), y=tuple(ylim))
        self.before = a
        self.origin = rng.choice([tuple, list, np.array])([self.x0 + o[0] * s / 4, self.y0 + o[1] * s / 4, z * s + self.dz])

    def same(self):
        return int(np.array_equal(self.raster.array, self.before, equal_nan=self.before.dtype.kind == "f") and self.raster.array.dtype == self.before.dtype)

    def cell(self, p):
        """Cell of a point on the terrain."""
        i, j = (p[0] - self.x0) / self.s - 0.5, (p[1] - self.y0) / self.s - 0.5
        ci, cj = int(round(i)), int(round(j))
        if abs(i - ci) > 1e-6 or abs(j - cj) > 1e-6 or not (0 <= cj < len(self.T) and 0 <= ci < len(self.T[0])):
            return [0, 0]
        t = self.T[cj][ci]
        return [ci + 1, cj + 1] if t != NAN and abs((p[2] - self.dz) / self.s - t) < 1e-6 else [0, 0]


def seen(s):
    r, err = attempt(s.raster.viewshed, s.origin, **s.correction)
    e = {"op": "seen", "T": s.T, "z": s.z, "o": s.o, "g": [s.g[-1]], "err": err, "ok": 0, "got": [], "same": s.same()}
    if not err:
        e["ok"] = int(isinstance(r, np.ndarray) and r.dtype == bool and r.shape == s.before.shape)
        if e["ok"]:
            v = r[:, ::-1] if s.flip[0] else r
            v = v if s.flip[1] else v[::-1]
            e["got"] = qm(v.astype(int))
    return e


def horizon(rng, s, dirs):
    head = [float(np.degrees(np.arctan2(d[0], d[1])) % 360) for d in dirs]
    got, errs = [], []
    for a in head:
        r, err = attempt(s.raster.horizon, s.origin, headings=rng.choice([list, tuple, np.array])([a]), **s.correction)
        errs.append(err)
        got.append([] if err or not len(r) else [s.cell(r[0][0])] if len(r) == 1 and len(r[0]) == 1 else [[-1, -1]])
    full, err = attempt(s.raster.horizon, s.origin, headings=rng.choice([list, np.array])(head), **s.correction)
    errs.append(err)
    return {"op": "horizon", "T": s.T, "z": s.z, "o": s.o, "g": s.g, "dirs": dirs, "err": next((v for v in errs if v), ""), "got": got,
            "all": [] if err else [[s.cell(p) for p in seg] for seg in full], "same": s.same()}


def directions(rng, n, reach):
    d = set()
    while len(d) < n:
        v = (rng.randint(-reach, reach), rng.randint(-reach, reach)) if rng.random() < 0.8 else rng.choice([(0, 1), (0, -1), (1, 0), (-1, 0)])
        if v != (0, 0):
            g = np.gcd(*v)
            d.add((int(v[0] // g), int(v[1] // g)))
    return [list(v) for v in sorted(d, key=lambda v: np.arctan2(v[0], v[1]) % (2 * np.pi))]


def terrain(rng, most):
    nx, ny = rng.randint(1, most), rng.randint(1, most)
    kind = rng.randrange(5)
    top = rng.choice([1, 2, 4])
    holes = rng.choice([0, 0, 0.05, 0.2, 0.5])
    T = []
    for j in range(ny):
        row = []
        for i in range(nx):
            v = [rng.randint(0, top), 0, i // 2, int(rng.random() < 0.15) * top, (i + j) // 3][kind]
            row.append(NAN if rng.random() < holes else v)
        T.append(row)
    return T


def inside(rng, T):
    return [rng.randint(1, 4 * n - 1) for n in (len(T[0]), len(T))]


def anything(rng):
    ev = []
    for _ in range(3):
        T = terrain(rng, 8)
        o = inside(rng, T)
        if rng.random() < 0.3:
            o = [4 * (v // 4) + 2 for v in o]
        ev.append(seen(Scene(rng, T, rng.randint(-1, 5), o)))
    for _ in range(2):
        T = terrain(rng, 6)
        o = inside(rng, T)
        if rng.random() < 0.4:
            o = [rng.randint(-8, 4 * n + 8) for n in (len(T[0]), len(T))]
        ev.append(horizon(rng, Scene(rng, T, rng.randint(-1, 5), o), directions(rng, rng.randint(1, 8), 6)))
    return {"kf": "", "ev": ev}


def run(c):
    warnings.simplefilter("ignore")
    rng = random.Random(c.seed)
    big = c.thorough
    heights = "{0, 1, 2, 2000000001}" if big else "{0, 2, 2000000001}"
    scripts = c.behaviours_of("VisibilityMC", "SPECIFICATION Spec\nINVARIANTS Mirrored Raised MissingNotSeen FirstSeen Axis Monotone Consistent Emit\n"
                              f"CHECK_DEADLOCK FALSE\nCONSTANTS Heights = {heights}\n", workers=8)
    ev = []
    for b in scripts:
        ev.append(seen(Scene(rng, b["T"], b["z"], [2, 2])))
        ev.append(horizon(rng, Scene(rng, b["T"], b["z"], rng.choice([[2, 2], [5, 3], [-3, 2], [6, 13]])), directions(rng, 3, 4)))
    c.judge("VisibilityTrace", [{"kf": "", "ev": ev[i:i + 10]} for i in range(0, len(ev), 10)], "behaviours")
    c.judge("VisibilityTrace", [anything(rng) for _ in range(12000 if big else 600)], "any")


sys.exit(main("C22", run))
