"""C18: Random sample consensus returns the best supported model it saw."""
import contextlib
import io
import random
import sys

import numpy as np
import vlib
from vlib import attempt, main, q, qi

from glimpse import Camera
from glimpse.optimize import Cameras, Points, Polynomial, ransac

FLAG = object()


class Mean:
    """Mean of points, as (sum, number)."""

    def __init__(self, x, n, g, rng, flag=None):
        self.x, self.n, self.g, self.flag = np.array(x, dtype=float), n, g, flag
        self.kind = rng.choice([np.array, tuple, list])
        self.samples, self.passed = [], True

    @property
    def size(self):
        return len(self.x)

    def fit(self, index=slice(None), flag=None):
        self.passed = self.passed and flag is self.flag
        index = np.atleast_1d(index) if not isinstance(index, slice) else np.arange(self.size)[index]
        if len(index) <= self.n:
            self.samples.append([q(i) + 1 for i in index])
        s = int(self.x[index].sum())
        if self.g and s % self.g == 0:
            return None
        return self.kind([s, len(index)])

    def errors(self, params, index=slice(None)):
        return np.abs(self.x[index] - params[0] / params[1])


def mean(rng, x, n, most, least, iterations, g):
    flag = FLAG if rng.random() < 0.3 else None
    m = Mean(x, n, g, rng, flag)
    kw = {"flag": flag} if flag else {}
    if iterations == 100 and rng.random() < 0.5:
        args = {}
    else:
        args = {"iterations": iterations}
    r, err = attempt(ransac, m, n=n, max_error=most / 1000, min_inliers=least, **args, **kw)
    ok = not err
    return {"op": "mean", "x": x, "n": n, "most": most, "least": least, "iterations": iterations, "g": g, "samples": m.samples,
            "passed": int(m.passed), "same": int(m.x.tolist() == x), "err": err,
            "p": [q(v) for v in r[0]] if ok else [], "found": [q(i) + 1 for i in r[1]] if ok else []}


def draws(rng):
    size = rng.choice([2, 3, 4, 5])
    n = rng.randint(1, size - 1)
    samples = []
    for _ in range(300):
        m = Mean(list(range(size)), n, 0, rng)
        attempt(ransac, m, n=n, max_error=0.1, min_inliers=0, iterations=1)
        samples += m.samples
    return {"op": "many", "x": list(range(size)), "n": n, "samples": samples}


# ---- Real models ----

def polynomial(rng):
    deg = rng.choice([0, 1, 1, 2])
    good, wrong = rng.randint(deg + 4, 9), rng.randint(0, 4)
    true = [rng.randint(-3, 3) for _ in range(deg + 1)]
    xs = rng.sample(range(-8, 9), good + wrong)
    inliers = sorted(rng.sample(range(good + wrong), good))
    xy = []
    sign = rng.choice([-1, 1])
    for i, x in enumerate(xs):
        # (too far apart for any other model to have support)
        off = 0 if i in inliers else sign * 1000 * 7 ** i
        xy.append((x, np.polyval(true, x) + off))
    m = Polynomial(xy if rng.random() < 0.5 else np.array(xy, dtype=float), deg=deg)
    before = np.array(m.xy)
    n = deg + 1 + rng.choice([0, 0, 1])
    r, err = attempt(ransac, m, n=n, max_error=rng.choice([0.1, 0.5, 2]), min_inliers=good - n - 1, iterations=5000, limit=60)
    return {"op": "planted", "err": err, "found": [] if err else [q(i) + 1 for i in r[1]], "inliers": [i + 1 for i in inliers],
            "p": [] if err else [qi(v, 1000) for v in r[0]], "true": [1000 * v for v in true], "same": int(np.array_equal(before, m.xy))}


def camera(rng, hopeless=False):
    """Camera with an unknown direction and points some of which are elsewhere."""
    view = (rng.randint(-3, 3), rng.randint(-3, 3), 0)
    cam = Camera(imgsz=(200, 100), f=200, viewdir=view)
    good, wrong = 5, rng.randint(1, 2)
    inliers = sorted(rng.sample(range(good + wrong), good))
    uv = np.array([(u, v) for u, v in zip(rng.sample(range(10, 190, 9), good + wrong), rng.sample(range(5, 95, 9), good + wrong))], dtype=float)
    xyz = cam.uv_to_xyz(uv) * 100
    for i in range(good + wrong):
        if i not in inliers:
            uv[i] = (200 - uv[i][0] + 37 * i, uv[i][1] - 60 - 11 * i)
    if hopeless:
        uv = np.array([(rng.uniform(0, 200), rng.uniform(0, 100)) for _ in uv])
    cam = Camera(imgsz=(200, 100), f=200, viewdir=(0, 0, 0))
    model = Cameras([cam], [Points(cam, uv=uv, xyz=xyz)], cam_params=[{"viewdir": [0, 1]}])
    before = cam._vector.copy()
    with contextlib.redirect_stdout(io.StringIO()):
        r, err = attempt(ransac, model, n=2, max_error=0.5 if not hopeless else 1e-6, min_inliers=2, iterations=rng.choice([21, 100]), limit=120)
    if hopeless:
        return {"op": "hopeless", "err": err}
    p = [] if err else [qi(v, 1000) for v in (r[0].x if hasattr(r[0], "x") else r[0])]
    return {"op": "planted", "err": err, "found": [] if err else [q(i) + 1 for i in r[1]], "inliers": [i + 1 for i in inliers],
            "p": p, "true": [1000 * v for v in view[:2]], "same": int(np.array_equal(before, cam._vector))}


def values(rng):
    size = rng.choice([1, 2, 3, 4, 5, 6, 7, 8])
    k = rng.random()
    if k < 0.4:
        return [rng.randint(0, 6) for _ in range(size)]
    if k < 0.8:
        return [rng.choice([0, 1, 2, 20, 21, 40]) for _ in range(size)]
    return [rng.randint(-30, 30) for _ in range(size)]


def anything(rng):
    ev = []
    for _ in range(6):
        x = values(rng)
        n = rng.randint(1, max(1, len(x) - 1)) if rng.random() < 0.95 else len(x) + rng.randint(0, 1)
        ev.append(mean(rng, x, n, 500 * rng.randint(0, 8) + 1, rng.randint(0, max(0, len(x) - n)), rng.choice([0, 1, 2, 3, 5, 10, 100]),
                       rng.choice([0, 0, 0, 2, 3])))
    return {"kf": "", "ev": ev}


def run(c):
    rng = random.Random(c.seed)
    np.random.seed(c.seed)
    big = c.thorough
    scripts = c.behaviours_of("RansacMC", "SPECIFICATION Spec\nINVARIANTS Kept Supported All Emit\nCHECK_DEADLOCK FALSE\n"
                              f"CONSTANTS Size = 4 Top = {4 if big else 3}\n", workers=8)
    rng.shuffle(scripts)
    k = 8 if big else 1
    c.judge("RansacTrace", [{"kf": "", "ev": [mean(rng, b["x"], b["n"], 1001, b["least"], b["iterations"], b["g"])]} for b in scripts[:4000 * k]], "behaviours")
    c.judge("RansacTrace", [anything(rng) for _ in range(800 * k)], "requests")
    c.judge("RansacTrace", [{"kf": "", "ev": [draws(rng)]} for _ in range(20 * k)], "draws")
    c.judge("RansacTrace", [{"kf": "", "ev": [polynomial(rng)]} for _ in range(40 * k)]
            + [{"kf": "", "ev": [camera(rng, rng.random() < 0.2)]} for _ in range(12 * k)], "models")


sys.exit(main("C18", run))
