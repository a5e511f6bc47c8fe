"""Runs the tracker on stand-in images and motion models, and records what it does."""
import datetime
import math
import warnings

import numpy as np
from vlib import NONE, attempt, q, qm, qv

from glimpse import Raster
from glimpse.track import Observer, Tracker

BASE = datetime.datetime(2020, 2, 28, 23, 30)
HOUR = datetime.timedelta(hours=1)
KILL, FULL = 99, 64
LOG = []


class Weird(Exception):
    """Does not accept a single message."""

    def __init__(self, a, b):
        super().__init__(a, b)


ERRORS = {
    "ValueError": ValueError, "KeyError": KeyError, "ZeroDivisionError": ZeroDivisionError,
    "RuntimeError": RuntimeError,
}


class Img:
    size = np.array((420, 130))

    def __init__(self, o, j, t, off, bad, full):
        self.o, self.j, self.datetime = o, j, t
        self.off, self.bad, self.full = off, bad, full
        self.array = None

    def xyz_to_uv(self, xyz):
        xyz = np.asarray(xyz, dtype=float)
        return np.column_stack((150 + 2 * xyz[:, 0] + self.j, 60 + 3 * xyz[:, 1]))

    def inbounds(self, uv):
        uv = np.atleast_2d(uv)
        return np.full(len(uv), not self.off)

    def read(self, box=None, cache=True):
        if self.bad:
            raise OSError("cannot read image")
        if box is None:
            LOG.append(("full", self.o, self.j, bool(cache)))
            return self.full
        box = [int(x) for x in np.ravel(box)]
        LOG.append(("read", self.o + 1, self.j, *box))
        return self.full[box[1]:box[3], box[0]:box[2]].astype(float)


class Obs(Observer):
    """Observer whose evidence is prescribed."""

    pen = None
    last = None

    def extract_tile(self, box, img):
        self.last = int(img)
        return super().extract_tile(box=box, img=img)

    def sample_tile(self, uv, tile, box, grid=False, **kwargs):
        super().sample_tile(uv, tile=tile, box=box, grid=grid, **kwargs)
        x = np.round((np.asarray(uv)[:, 0] - 150 - self.last) / 2).astype(int)
        k = np.array([self.pen[self.last][i % 8] for i in x], dtype=float)
        k[k == KILL] = 2000
        return k * math.log(2) * 2 * self.sigma ** 2


class Model:
    """Motion model that moves particles by whole units."""

    def __init__(self, k, t, time_unit):
        self.k, self.t, self.time_unit = k, t, time_unit
        self.n = len(t["x"])
        self.step = None

    def _trouble(self, particles):
        if self.step in self.t["warn"]:
            warnings.warn(f"motion:{self.step}:")
        if self.step == self.t["failstep"]:
            kind = self.t["failkind"]
            if kind == "nan":
                particles[-1, 3] = np.nan
            elif kind == "Weird":
                raise Weird("tag", 1)
            else:
                raise ERRORS[kind]("tag")

    def initialize_particles(self):
        LOG.append(("init", self.k))
        self.step = 0
        p = np.zeros((self.n, 6))
        p[:, 0] = self.t["x"]
        p[:, 1] = np.arange(self.n)
        p[:, 2] = np.arange(self.n) + 1
        p[:, 3] = self.t["vx"]
        self._trouble(p)
        return p

    def evolve_particles(self, particles, dt):
        self.step += 1
        LOG.append(("evolve", self.k))
        hours = dt / HOUR
        particles[:, 0] += hours * particles[:, 3]
        particles[:, 1] = np.arange(len(particles))
        particles[:, 4] += hours
        self._trouble(particles)

    def compute_log_likelihoods(self, particles):
        if not self.t["prior"]:
            return None
        k = np.array([self.t["prior"][int(x) % 4] for x in particles[:, 0]], dtype=float)
        k[k == KILL] = 2000
        return k * math.log(2)


FULLIMG = np.random.RandomState(0).randint(0, 255, (130, 420)).astype(float)


def weights(w):
    w = np.asarray(w, dtype=float)
    if np.isnan(w).any():
        return None
    if w.max() < 1e-200:
        w = w / w.max() / FULL if w.max() > 0 else w
    return qv(np.where(w < 1e-200, 0, w), FULL)


def build(c):
    off = {tuple(x) for x in c["off"]}
    bad = {tuple(x) for x in c["badimg"]}
    observers = []
    for o, ts in enumerate(c["obs"]):
        imgs = [Img(o, j, BASE + t * HOUR, (o + 1, j) in off, (o + 1, j) in bad, FULLIMG)
                for j, t in enumerate(ts)]
        obs = Obs(imgs, sigma=0.3 + 0.2 * o, cache=bool(c["cache"][o]))
        obs.pen = c["pen"][o]
        observers.append(obs)
    viewshed = None
    if c["vis"] < 900:
        # Cells are centered on whole numbers
        a = np.ones((40, 400))
        x = np.arange(-200, 200)
        a[:, x >= c["vis"]] = 0
        viewshed = Raster(a, x=(-200.5, 199.5), y=(30.5, -9.5))
    return observers, viewshed


def call(c, tracker=None, parallel=False):
    """Run one call. Returns its history."""
    observers, viewshed = build(c)
    if tracker is None:
        tracker = Tracker(observers, viewshed=viewshed, resample_method=c["method"],
                          highpass={"size": (3, 3)})
    else:
        tracker.observers, tracker.viewshed = observers, viewshed
        tracker.resample_method = c["method"]
    units = [HOUR] * len(c["tracks"])
    if c["units"]:
        units[-1] = 2 * HOUR
    models = [Model(k + 1, t, u) for k, (t, u) in enumerate(zip(c["tracks"], units))]
    kw = {"tile_size": tuple(c["tile"]), "parallel": parallel}
    if c["req"]:
        kw["datetimes"] = [BASE + t * HOUR for t in c["req"]]
    if c["maxdt"] or c["req"]:
        kw["maxdt"] = c["maxdt"] * HOUR
    if not c["nomask"]:
        kw["observer_mask"] = np.array(c["mask"], dtype=bool)
    if c["cov"]:
        kw["return_covariances"] = True
    mode = c["mode"]
    if mode == "particles":
        kw["return_particles"] = True
    elif mode == "reduce":
        kw["reduce_particles"] = lambda p, w: (np.array(p), np.array(w))
        if c["cov"]:
            kw["return_particles"] = True
    del LOG[:]
    with warnings.catch_warnings(record=True):
        warnings.simplefilter("always")
        tracks, err = attempt(tracker.track, models, limit=90, **kw)
    log = list(LOG)
    n = len(models)
    e = {"op": "call", "err": err, "haslog": int(not parallel), "times": [], "images": [],
         "shapes": 0, "cached": []}
    ev = [e]
    if err:
        return {"kf": "", "c": c, "ev": ev}
    e["times"] = [int(round((t - BASE) / HOUR)) for t in tracks.datetimes]
    e["images"] = [[-1 if x is None else int(x) for x in row] for row in tracks.images]
    m, p = len(e["times"]), len(c["tracks"][0]["x"])
    shape = lambda a: None if a is None else np.shape(a)  # noqa
    reduced = getattr(tracks, "reduced", None)
    e["shapes"] = int(
        shape(tracks.means) == (n, m, 6)
        and shape(tracks.sigmas) == (None if c["cov"] else (n, m, 6))
        and shape(tracks.covariances) == ((n, m, 6, 6) if c["cov"] else None)
        and shape(tracks.particles) == ((n, m, p, 6) if mode == "particles" else None)
        and shape(tracks.weights) == ((n, m, p) if mode == "particles" else None)
        and (reduced is None) == (mode != "reduce")
        and (mode != "reduce" or len(reduced) == n)
        and tracks.time_unit == HOUR and tracks.tracker is tracker
        and len(tracks.errors) == n and len(tracks.warnings) == n
        and list(tracks.success) == [x is None for x in tracks.errors])
    begin = next((i for i, x in enumerate(log) if x[0] in ("init", "read")), len(log))
    e["cached"] = [sorted({x[2] for x in log[:begin] if x[0] == "full" and x[1] == o and x[3]})
                   for o in range(len(c["obs"]))]
    if any(x[0] == "full" for x in log[begin:]) or any(x[0] == "full" and not x[3] for x in log):
        e["cached"] = [[-7]]
    # Reads by track and step
    reads = {}
    at = None
    for x in log:
        if x[0] == "init":
            at = (x[1], 0)
        elif x[0] == "evolve":
            at = (x[1], at[1] + 1) if at and at[0] == x[1] else (x[1], -99)
        elif x[0] == "read":
            reads.setdefault(at, []).append(list(x[1:]))
    mask = c["mask"]
    for k in range(n):
        ev.append({"op": "begin", "k": k + 1})
        first = next((i for i, row in enumerate(e["images"])
                      if any(x >= 0 and mask[k][o] for o, x in enumerate(row))), 0)
        rest = dict(reads)
        for i in range(m):
            mean = tracks.means[k][i]
            spread = tracks.covariances[k][i] if c["cov"] else tracks.sigmas[k][i]
            r = {"op": "time", "k": k + 1, "i": i + 1, "haslog": e["haslog"],
                 "hasp": int(mode != "none"), "parts": [], "w": [], "mean": [], "var": [],
                 "cov": [], "reads": rest.pop((k + 1, i - first), [])}
            pw = (None, None)
            if mode == "particles":
                pw = tracks.particles[k][i], tracks.weights[k][i]
            elif mode == "reduce":
                pw = reduced[k][0][i], reduced[k][1][i]
            undefined = [np.isnan(x).all() for x in (mean, spread, *pw) if x is not None]
            r["est"] = 0 if all(undefined) else 1
            if r["est"]:
                w = None
                if pw[0] is not None:
                    r["parts"] = qm(pw[0])
                    w = weights(pw[1])
                    r["w"] = w if w is not None else [-1] * p
                else:
                    w = [FULL] * p
                total = sum(w) if w and all(0 <= x <= FULL for x in w) else 1
                r["mean"] = qv(mean, total)
                if c["cov"]:
                    r["cov"] = qm(spread, total ** 2)
                else:
                    r["var"] = qv(np.asarray(spread) ** 2, total ** 2)
            ev.append(r)
        error, caught = tracks.errors[k], tracks.warnings[k]
        name = ""
        if error is not None:
            name = type(error).__name__
            if c["tracks"][k]["failkind"] in ERRORS and "tag" not in str(error) and name != "OSError" \
                    and c["vis"] >= 900:
                name = "lost:" + name
        codes = []
        for w in caught if caught is not None else ():
            s = str(w.message)
            if s.startswith("motion:"):
                codes.append(int(s.split(":")[1]))
            elif "Particles too close" in s:
                codes.append(-1)
        ev.append({"op": "end", "k": k + 1, "err": name, "warns": codes})
    return {"kf": "", "c": c, "ev": ev}


def track(rng, n, span, risky=True):
    t = {"x": [rng.randint(-8, 8) for _ in range(n)], "vx": [rng.randint(-2, 2) for _ in range(n)],
         "prior": [], "failstep": -1, "failkind": "", "warn": []}
    if rng.random() < 0.4:
        t["prior"] = [rng.choice([0, 0, 1, 2, KILL]) for _ in range(4)]
    if risky and rng.random() < 0.35:
        t["failstep"] = rng.randint(0, span)
        t["failkind"] = rng.choice(["nan", "ValueError", "KeyError", "ZeroDivisionError", "RuntimeError", "Weird"])
    if rng.random() < 0.35:
        t["warn"] = sorted({rng.randint(0, span) for _ in range(2)})
    return t


def config(rng, ntracks, n=None, mode=None):
    n = n or rng.randint(2, 5)
    nobs = rng.randint(1, 3)
    span = rng.choice([4, 6, 9])
    obs = []
    for _ in range(nobs):
        k = rng.randint(2, 5)
        lo = rng.randint(0, 3)
        obs.append(sorted(rng.sample(range(lo, lo + span + 1), min(k, span))))
    # At most two observers per time, so that weights are exact
    pen = [[[rng.choice([0, 0, 1, 2, KILL]) for _ in range(8)] for _ in ts] for ts in obs]
    if nobs > 2:
        pen = [[[min(x, 1) if x != KILL else x for x in row] for row in p] for p in pen]
    req = []
    maxdt = 0
    kind = rng.random()
    if kind < 0.6:
        req = sorted({rng.randint(0, span + 3) for _ in range(rng.randint(2, 8))}, reverse=rng.random() < 0.5)
        maxdt = rng.choice([0, 1, 1, 2])
        if len(req) < 2:
            req = [0, 1, 2, 3, 4, 5, 6]
    mode = mode or rng.choice(["particles", "particles", "reduce", "none"])
    nomask = rng.random() < 0.4
    mask = [[1] * nobs if nomask else [rng.randint(0, 1) for _ in obs] for _ in range(ntracks)]
    images = [(o + 1, j) for o, ts in enumerate(obs) for j in range(len(ts))]
    cache = [rng.randint(0, 1) for _ in obs]
    off = [list(x) for x in images if rng.random() < 0.1]
    bad = [list(x) for x in images if rng.random() < 0.04 and not cache[x[0] - 1]]
    c = {"obs": obs, "cache": cache, "off": off, "badimg": bad, "pen": pen, "req": req, "maxdt": maxdt,
         "mask": mask, "nomask": int(nomask), "method": rng.choice(["systematic", "stratified", "residual", "choice"]),
         "units": int(ntracks > 1 and rng.random() < 0.03), "vis": rng.choice([999, 999, 999, 15, 25]),
         "cov": rng.randint(0, 1), "mode": mode, "tile": rng.choice([[5, 5], [5, 3], [4, 6], [3, 3], [7, 4]]),
         "tracks": [track(rng, n, span) for _ in range(ntracks)]}
    return plain(c)


def plain(c):
    """Without recorded particles, outcomes must be known: no evidence."""
    if c["mode"] == "none":
        c["method"] = "systematic"
        c["pen"] = [[[0] * 8 for _ in p] for p in c["pen"]]
        for t in c["tracks"]:
            t["prior"] = []
    return c
