"""C13: Projection and inverse projection agree, and only see what is in front."""
import math
import random
import sys

import numpy as np
from vlib import NAN, attempt, main, q

from glimpse import Camera, config

FIFTHS = [(5, 0), (0, 5), (-5, 0), (0, -5), (3, 4), (-4, 3), (-3, -4), (4, -3), (4, 3), (3, -4), (-3, 4), (-4, -3)]
S = 65536


def degrees(rng, a):
    d = math.degrees(math.atan2(a[1], a[0]))
    return d + rng.choice([0, 0, 0, 360, -360])


def rotation(ang):
    """Rotation to camera coordinates, in 125ths."""
    y, p, r = ang
    m = np.array([[1, 0, 0], [0, 0, -1], [0, 1, 0]])
    m = np.array([[y[0], 0, -y[1]], [0, 5, 0], [y[1], 0, y[0]]]) @ m
    m = np.array([[5, 0, 0], [0, p[0], p[1]], [0, -p[1], p[0]]]) @ m
    return np.array([[r[0], r[1], 0], [-r[1], r[0], 0], [0, 0, 5]]) @ m


def enc(a, scale, tol=1e-9):
    return [[q(v, scale, tol) for v in row] for row in np.asarray(a, dtype=float).tolist()]


def rnd(a, scale):
    """Rounded to a multiple of 1 / scale."""
    def one(v):
        if math.isnan(v):
            return NAN
        return int(round(v * scale)) if abs(v * scale) < 1e9 else 1500000000
    return [[one(v) for v in row] for row in np.asarray(a, dtype=float).tolist()]


class Session:
    def __init__(self, rng, ang, distortion, flat=False):
        self.rng = rng
        self.R = rotation(ang)
        k, p = distortion
        corr = rng.choice([[0, 1], [0, 1], [1, 4], [1, 2], [1, 1]]) if flat else [0, 1]
        self.cam = {"ang": [list(a) for a in ang], "pos": [rng.randint(-5, 5) for _ in range(3)],
                    "n": [rng.randint(1, 12) for _ in range(2)], "f": [rng.choice([1, 2, 4, 8]) for _ in range(2)],
                    "c": [rng.choice([0, 0, 1, -2]) for _ in range(2)], "k": k, "p": p, "corr": corr}
        kw = {}
        if corr[0]:
            c = corr[0] / corr[1]
            kw["correction"] = rng.choice([{"radius": 1 / (2 * c), "refraction": 0}, {"radius": 1 / (4 * c), "refraction": 0.5}])
        # Whether the rotation has no rounding
        self.exact = all(a == (5, 0) for a in ang)
        kk = [x / (65536, 4096, 256)[i % 3] for i, x in enumerate(k)]
        self.obj = Camera(imgsz=self.cam["n"], f=self.cam["f"], c=self.cam["c"], xyz=self.cam["pos"],
                          viewdir=[0 if self.exact else degrees(rng, a) for a in ang], k=kk, p=[x / 256 for x in p], **kw)
        self.flat = flat
        self.ev = []

    def world(self, c, dirs):
        """World coordinates in 125ths of camera coordinates."""
        w = c @ self.R
        n, d = self.cam["corr"]
        if not dirs:
            if n:
                o = w // 125
                w[:, 2] += 125 * (o[:, 0] ** 2 + o[:, 1] ** 2) * n // d
            w = w + 125 * np.array(self.cam["pos"])
        return w

    def points(self, n):
        rng = self.rng
        out = []
        for _ in range(n):
            k = rng.random()
            s = rng.choice([1, 1, 2, 3])
            x = [rng.randint(-4, 4), rng.randint(-4, 4), 4]
            if k < 0.12:
                s = -s
            c = [s * v for v in x]
            if k > 0.96:
                c = [0, 0, 0]
            elif k > 0.8 and self.exact:
                # Exactly beside the camera
                c = [x[0], x[1], 0]
            if self.flat and self.cam["corr"][0]:
                c = [2 * v for v in c]
            out.append(c)
        return np.array(out, dtype=int).reshape(-1, 3)

    def project(self, c, dirs):
        rng = self.rng
        w = self.world(c, dirs)
        xyz = w / 125.0
        form = rng.randrange(4)
        if form == 1:
            xyz = np.asfortranarray(xyz)
        elif form == 2 and self.flat and self.cam["corr"][0] == 0:
            xyz = xyz.astype(int) if np.all(xyz == xyz.astype(int)) else xyz
        before = xyz.copy()
        config.matmul = rng.choice([True, False])
        kw = {"directions": True} if dirs else rng.choice([{}, {"directions": False}])
        e = {"op": "project", "dirs": dirs, "w": w.tolist(), "uv": [], "depth": [], "infront": [], "same": 0, "kept": 0}
        out, e["err"] = attempt(self.obj.xyz_to_uv, xyz, return_depth=True, **kw)
        if not e["err"]:
            uv, depth = out
            e["uv"] = rnd(uv, S)
            e["depth"] = [q(v, 1000, 1e-8) for v in np.asarray(depth).tolist()]
            e["infront"] = [int(v) for v in self.obj.infront(xyz, **kw)]
            self.uv = uv
            alone = self.obj.xyz_to_uv(xyz, **kw)
            config.matmul = not config.matmul
            other = [self.obj.xyz_to_uv(xyz[i:i + 1], **kw) for i in range(len(xyz))]
            e["same"] = int(np.allclose(alone, uv, rtol=1e-9, equal_nan=True) and (
                not len(xyz) or np.allclose(np.vstack(other), uv, rtol=1e-9, equal_nan=True)))
            e["kept"] = int(np.array_equal(xyz, before))
        self.ev.append(e)
        return None if e["err"] else uv

    def inverse(self, c, dirs, uv):
        rng = self.rng
        keep = [i for i in range(len(c)) if c[i][2] > 0]
        w = self.world(c, dirs)[keep]
        out = rng.randrange(2)
        depths = [rng.randint(1, 6) for _ in keep]
        if rng.random() < 0.3 and keep:
            depths = [depths[0]] * len(keep)
            arg = rng.choice([int, float])(depths[0])
        else:
            arg = rng.choice([list, np.array])(depths)
        uv = np.array(uv[keep])
        before = uv.copy()
        kw = rng.choice([{}, {"directions": True}]) if out else {"directions": False}
        if set(depths) != {1} or rng.random() < 0.5:
            kw["depth"] = arg
        xyz, err = attempt(self.obj.uv_to_xyz, uv, **kw)
        self.ev.append({"op": "inverse", "dirs": dirs, "out": out, "w": w.tolist(), "depths": depths, "err": err,
                        "xyz": [] if err else rnd(xyz, 1000000), "kept": int(np.array_equal(uv, before, equal_nan=True))})

    def rotation(self):
        R, err = attempt(lambda: (self.obj.R, self.obj.Rprime * (180 / math.pi)))
        self.ev.append({"op": "rotation", "err": err, "R": [] if err else enc(R[0], 125),
                        "dR": [] if err else [enc(x, 125) for x in R[1]]})

    def frame(self):
        rng = self.rng
        n = self.cam["n"]
        uv = [[rng.choice([-1, 0, 1, n[i], 2 * n[i] - 1, 2 * n[i], 2 * n[i] + 1, NAN]) for i in range(2)]
              for _ in range(rng.randint(1, 6))]
        out, err = attempt(self.obj.inframe, np.array([[np.nan if v == NAN else v / 2 for v in r] for r in uv]))
        self.ev.append({"op": "inframe", "uv": uv, "err": err, "is": [] if err else [int(v) for v in out]})
        step = [rng.choice([d for d in (1, 2, 3, 4) if n[i] % d == 0]) for i in range(2)]
        if step[0] == step[1] and rng.random() < 0.7:
            arg = rng.choice([int, float])(step[0])
        else:
            arg = rng.choice([tuple, list, np.array])(step)
        kw = {} if step == [1, 1] else {"step": arg}
        out, err = attempt(self.obj.edges, **kw)
        self.ev.append({"op": "edges", "step": step, "err": err, "uv": [] if err else enc(out, 1)})

    def view(self):
        rng = self.rng
        depth = rng.randint(1, 9)
        if not any(self.cam["k"]) and not any(self.cam["p"]):
            out, err = attempt(self.obj.viewbox, depth)
            self.ev.append({"op": "viewbox", "depth": depth, "err": err, "box": [] if err else enc([out], 4000)[0]})
            out, err = attempt(self.obj.viewpoly, depth)
            self.ev.append({"op": "viewpoly", "depth": depth, "err": err, "xyz": [] if err else enc(out, 4000)})

    def angles(self):
        rng = self.rng
        n = rng.randint(1, 5)
        az = [rng.choice(FIFTHS) for _ in range(n)]
        alt = [rng.choice([a for a in FIFTHS if a[0] >= 0]) for _ in range(n)]
        dist = [rng.randint(1, 9) for _ in range(n)] if rng.random() < 0.6 else []
        a = [[degrees(rng, az[i]), math.degrees(math.atan2(alt[i][1], alt[i][0]))] + ([dist[i]] if dist else [])
             for i in range(n)]
        out, err = attempt(self.obj.spherical_to_xyz, np.array(a, dtype=float))
        self.ev.append({"op": "fromangles", "az": az, "alt": alt, "dist": dist, "err": err,
                        "xyz": [] if err else enc(out, 25)})
        dirs = rng.randrange(2)
        d = [rng.randint(1, 9) for _ in range(n)]
        xyz = np.array([[alt[i][0] * az[i][1], alt[i][0] * az[i][0], 5 * alt[i][1]] for i in range(n)]) * np.array(d)[:, None] / 25
        if not dirs:
            xyz = xyz + np.array(self.cam["pos"])
        out, err = attempt(self.obj.xyz_to_spherical, xyz, **({"directions": True} if dirs else {}))
        e = {"op": "toangles", "dirs": dirs, "az": az, "alt": alt, "dist": d, "err": err, "outaz": [], "outalt": [],
             "outdist": [], "ranges": 0}
        if not err:
            def fifths(v):
                return [q(5 * math.cos(math.radians(v)), 1, 1e-6), q(5 * math.sin(math.radians(v)), 1, 1e-6)]
            e["outaz"] = [fifths(v) for v in out[:, 0]]
            e["outalt"] = [fifths(v) for v in out[:, 1]]
            e["outdist"] = [q(v, 1, 1e-9) for v in out[:, 2]] if out.shape[1] > 2 else []
            e["ranges"] = int(bool(np.all((out[:, 0] >= 0) & (out[:, 0] <= 360) & (out[:, 1] >= -90) & (out[:, 1] <= 90))))
        self.ev.append(e)

    def history(self):
        return {"kf": "", "cam": self.cam, "ev": self.ev}


def distortions(rng):
    zero = [0] * 6
    k = rng.random()
    if k < 0.3:
        return zero, [0, 0]
    if k < 0.5:
        # First coefficient alone, of either sign
        return [rng.choice([1, -1]) * rng.choice([3, 200, 2000, 10000, 20000])] + [0] * 5, [0, 0]
    if k < 0.6:
        return zero, [rng.randint(-3, 3), rng.randint(-3, 3)]
    if k < 0.75:
        # Two coefficients
        top = (12000, 400, 20, 8000, 200, 8, 2, 2)
        d = [0] * 8
        for i in [rng.choice([0, 0, rng.randrange(8)]), rng.randrange(8)]:
            d[i] = rng.choice([1, -1]) * rng.randint(1, max(top[i] // rng.choice([1, 8]), 1))
        return d[:6], d[6:]
    top = rng.choice([(2000, 60, 3), (12000, 400, 20)])
    # NOTE: The denominator stays above a quarter
    k = [rng.choice([0, 1, -1]) * rng.randint(1, top[i % 3] if i < 3 else max(top[i % 3] // 2, 1)) for i in range(6)]
    return k, rng.choice([[0, 0], [rng.randint(-2, 2), rng.randint(-2, 2)], [rng.randint(-16, 16), 0]])


def reversible(rng):
    """Cameras whose pixels are at quarters."""
    n = [rng.choice([2, 3, 5]) for _ in range(2)]
    k, p = distortions(rng)
    k = k[:3] + [0] * 3
    if rng.random() < 0.5:
        p = [rng.randint(-60, 60), rng.randint(-60, 60)]
    if rng.random() < 0.3:
        k[0] = -rng.randint(10000, 60000)
    cam = {"k": k, "p": p}
    obj = Camera(imgsz=n, f=[2 * m / (m - 1) for m in n], k=[x / (65536, 4096, 256)[i % 3] for i, x in enumerate(k)],
                 p=[x / 256 for x in p])
    out, err = attempt(obj.reversible)
    return {"kf": "", "cam": cam, "ev": [{"op": "reversible", "m": [v - 1 for v in n], "err": err, "is": int(bool(out))}]}


def run(c):
    rng = random.Random(c.seed)
    big = c.thorough
    ang = c.behaviours_of("ProjectionMC", "SPECIFICATION Spec\nINVARIANTS Orthonormal Handed Looks RoundTrip Emit\n")
    hist = []

    def session(a, distortion, flat=False):
        s = Session(rng, a, distortion, flat)
        s.rotation()
        for _ in range(2):
            pts = s.points(rng.choice([0, 1, 4, 8]))
            dirs = rng.randrange(2)
            uv = s.project(pts, dirs)
            if uv is not None:
                s.inverse(pts, dirs, uv)
        s.frame()
        s.view()
        s.angles()
        hist.append(s.history())

    for a in ang * (4 if big else 1):
        session(a, distortions(rng), all(0 in x for x in a))
    for _ in range(8000 if big else 1200):
        k = rng.random()
        pool = FIFTHS[:4] if k < 0.4 else FIFTHS
        session([(5, 0)] * 3 if k < 0.05 else [rng.choice(pool) for _ in range(3)], distortions(rng), k < 0.4)
    for _ in range(4000 if big else 500):
        hist.append(reversible(rng))
    c.judge("ProjectionTrace", hist, "cameras")


sys.exit(main("C13", run))
