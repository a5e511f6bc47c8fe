"""C05: Particles move by the stated motion model, over any time step and unit."""
import copy
import datetime
import pickle
import random
import sys

import numpy as np
from vlib import attempt, main, q, qi

from glimpse import Raster
from glimpse.track import (
    CartesianMotion, CylindricalMotion, TangentCartesianMotion, TangentCylindricalMotion)
from glimpse.track.motion import Motion

KINDS = {
    "base": Motion, "cartesian": CartesianMotion, "cylindrical": CylindricalMotion,
    "tangent": TangentCartesianMotion, "tangent_cylindrical": TangentCylindricalMotion}
UNITS = [datetime.timedelta(**k) for k in (
    {"seconds": 4}, {"microseconds": 4}, {"minutes": 90}, {"days": 1}, {"days": 365},
    {"days": 1, "seconds": 2, "microseconds": 4}, {"milliseconds": 100})]
# Directions with whole (cosine, sine) in 1 / 5
DIRS = [((5, 0), 0.0), ((0, 5), np.pi / 2), ((-5, 0), np.pi), ((0, -5), -np.pi / 2),
        ((3, 4), np.arctan2(4, 3)), ((-4, 3), np.arctan2(3, -4)), ((-3, -4), np.arctan2(-4, -3)),
        ((4, -3), np.arctan2(-3, 4) + 2 * np.pi)]
LIM = 1 << 14


def surface(s, rng, flip=True):
    """Plane z = s0 x + s1 y + s2 (cell centers include the origin)."""
    if s[0] == 0 and s[1] == 0 and rng.random() < 0.5:
        return rng.choice([s[2], float(s[2]), np.float64(s[2])])
    d = 1 << 11
    x = np.arange(-LIM, LIM + 1, d, dtype=float)
    y = np.arange(-LIM, LIM + 1, d, dtype=float)
    if rng.random() < 0.5:
        x = x[::-1]
    if rng.random() < 0.7:
        y = y[::-1]
    z = s[0] * x[None, :] + s[1] * y[:, None] + s[2]
    xlim = (x[0] - (x[1] - x[0]) / 2, x[-1] + (x[1] - x[0]) / 2)
    ylim = (y[0] - (y[1] - y[0]) / 2, y[-1] + (y[1] - y[0]) / 2)
    return Raster(z, x=xlim, y=ylim)


def seq(rng, x):
    return rng.choice([tuple, list, np.array])(x)


def snapshot(m):
    out = {}
    for k, v in vars(m).items():
        if isinstance(v, Raster):
            v = (np.array(v.array), np.array(v.xlim), np.array(v.ylim))
        out[k] = pickle.dumps(np.array(v) if isinstance(v, (list, tuple)) and not isinstance(v[0], np.ndarray) else v)
    return out


def public(m):
    return {k: v for k, v in snapshot(m).items() if not k.startswith("_")}


def build(kind, rng, s, unit, xy=(0, 0), n=5, v=(0, 0, 0), a=(0, 0, 0), **kw):
    if kind == "base":
        return Motion(seq(rng, xy), unit, n=n, **kw)
    args = {"xy": seq(rng, xy), "time_unit": unit, "dem": surface(s, rng), "n": n}
    names = {"cartesian": ("vxyz", "axyz", 3), "cylindrical": ("vrthz", "arthz", 3),
             "tangent": ("vxy", "axy", 2), "tangent_cylindrical": ("vrth", "arth", 2)}[kind]
    args[names[0]] = seq(rng, v[:names[2]])
    args[names[1]] = seq(rng, a[:names[2]])
    args.update(kw)
    return KINDS[kind](**args)


def encode(p):
    p = np.asarray(p)
    if p.ndim != 2 or p.shape[1] != 6:
        return [[0]]
    return [[q(x, 32) for x in r[:3]] + [q(x, 4) for x in r[3:]] for r in p.tolist()]


def decode(p):
    p = np.array(p, dtype=float)
    return np.column_stack((p[:, :3] / 32, p[:, 3:] / 4))


def init(rng):
    kind = rng.choice(list(KINDS))
    s = rng.choice([(0, 0, 5), (2, -3, 7), (-1, 1, -20), (0, 0, 0)])
    xy = (rng.randint(-500, 500), rng.randint(-500, 500))
    (d, theta) = rng.choice(DIRS)
    cyl = kind.endswith("cylindrical")
    v = [5 * rng.randint(-3, 9) if cyl else rng.randint(-9, 9), rng.randint(-9, 9), rng.randint(-9, 9)]
    vin = (v[0], theta, v[2]) if cyl else tuple(v)
    kw = {}
    if kind != "base":
        sig = rng.choice(["omit", 0, "raster"] + ([None] if not kind.startswith("tangent") else []))
        if sig == "raster":
            kw["dem_sigma"] = Raster(np.zeros((3, 3)), x=(-LIM, LIM), y=(LIM, -LIM))
        elif sig != "omit":
            kw["dem_sigma"] = sig
    n = rng.choice([1, 2, 7])
    m = build(kind, rng, s, rng.choice(UNITS), xy, n, vin, **kw)
    before = public(m)
    e = {"op": "init", "kind": kind, "xy": xy, "v": v, "dir": d, "s": s, "n": n, "out": [], "intact": 0}
    out, e["err"] = attempt(m.initialize_particles)
    if not e["err"] and rng.random() < 0.5:
        # Particles are built anew
        attempt(m.evolve_particles, out, datetime.timedelta(days=1))
        out, e["err"] = attempt(m.initialize_particles)
    if not e["err"]:
        e["out"] = encode(out)
        e["intact"] = int(public(m) == before and out.dtype == float)
    return e


def step(rng, m, p, kind, a, t, s, unit):
    dt = unit * t / 4
    before = public(m)
    e = {"op": "step", "kind": kind, "a": list(a), "t": t, "s": list(s), "pre": encode(p), "post": [], "intact": 0}
    out, e["err"] = attempt(m.evolve_particles, p, dt)
    if not e["err"]:
        e["post"] = encode(p)
        e["intact"] = int(public(m) == before and dt == unit * t / 4)
    return e


def replay(rng, b):
    kind, s, a = b["kind"], b["s"], b["a"]
    unit = rng.choice(UNITS)
    others = [[32 * rng.randint(-50, 50) for _ in range(3)] + b["p0"][3:] for _ in range(rng.randint(0, 2))]
    if kind in ("base", "cartesian", "tangent"):
        for o in others:
            o[3:] = [rng.randint(-40, 40) for _ in range(3)]
    else:
        for o in others:
            o[3:5] = rng.choice([[12, 16], [-16, 12], [20, 0], [0, -20], [0, 0], [-12, -16]])
    p = decode([b["p0"]] + others)
    m = build(kind, rng, s, unit, n=rng.choice([len(p), 1, 9]), a=a)
    ev = []
    for t in b["ts"]:
        ev.append(step(rng, m, p, kind, a, t, s, unit))
        if ev[-1]["err"]:
            break
    return ev


def stats(dev, sigma):
    """Statistics of standardized deviations (in 1 / 1000)."""
    z = np.column_stack([d / g if np.all(g) else d for d, g in zip(dev, sigma)])
    nz = [int(np.all(g)) for g in sigma]
    c = np.corrcoef(z[:, np.array(nz) == 1].T) if sum(nz) > 1 else np.eye(1)
    return {"mean": [qi(x, 1000) for x in z.mean(axis=0)], "sd": [qi(x, 1000) for x in z.std(axis=0)],
            "nonzero": nz, "corr": [qi(c[i, j], 1000) for i in range(len(c)) for j in range(i)]}


def slow(rng):
    """Acceleration along the direction of motion, at any speed."""
    kind = rng.choice(["cylindrical", "tangent_cylindrical"])
    unit = rng.choice(UNITS)
    ar, t = rng.randint(-9, 9), rng.choice([-2, 1, .5])
    dirs = [rng.choice(DIRS)[0] for _ in range(4)]
    v = np.array(dirs) * np.array([[rng.choice([2. ** -9, 2. ** -40, 1, 2. ** 9])] for _ in dirs])
    m = build(kind, rng, (0, 0, 5), unit, a=(ar, 0, 0))
    p = np.column_stack((np.zeros((4, 2)), np.full(4, 5.), v, np.zeros(4)))
    _, err = attempt(m.evolve_particles, p, unit * t)
    g = 5 * (p[:, 3:5] - v) / t
    return {"op": "slow", "kind": kind, "err": err, "ar": ar, "dirs": [list(d) for d in dirs],
            "acc": [[q(x) for x in r] for r in g.tolist()]}


def noise_init(rng):
    n = 6400
    kind = rng.choice(list(KINDS))
    unit = rng.choice(UNITS)
    zero = lambda x: 0 if rng.random() < 0.25 else x
    e = {"op": "noise", "mean": [], "sd": [], "nonzero": [], "corr": [], "consistent": 0}
    if kind == "base":
        sv = [zero(2), zero(.5), zero(30)]
        m = Motion((3, 4), unit, n=n, vxyz_sigma=sv)
        p, e["err"] = attempt(m.initialize_particles)
        if not e["err"]:
            e.update(stats([p[:, 3], p[:, 4], p[:, 5]], sv))
            e["consistent"] = int((p[:, :3] == [3, 4, 0]).all())
        return e
    s = rng.choice([(0, 0, 5), (2, -3, 7)])
    sxy = [zero(4), zero(30)]
    cyl = kind.endswith("cylindrical")
    k = 2 if kind.startswith("tangent") else 3
    sv = ([zero(2), zero(.1), zero(7)] if cyl else [zero(2), zero(.5), zero(30)])[:k]
    v = ([60, .5, -3] if cyl else [5, -2, 1])[:k]
    vname = {"cartesian": "vxyz", "cylindrical": "vrthz", "tangent": "vxy", "tangent_cylindrical": "vrth"}[kind]
    if rng.random() < 0.5:
        x = np.linspace(-400, 400, 9)
        dem_sigma = Raster(np.tile(6 + x / 100, (2, 1)), x=(-450, 450), y=(500, -500))
        local = lambda p: 6 + p[:, 0] / 100
    else:
        const = rng.choice([0, 3]) if kind.startswith("tangent") else rng.choice([0, 3, None])
        dem_sigma = const
        local = lambda p: np.full(len(p), const or 0.)
    m = build(kind, rng, s, unit, (10, -20), n, v, dem_sigma=dem_sigma,
              **{vname + "_sigma": seq(rng, sv), "xy_sigma": seq(rng, sxy)})
    p, e["err"] = attempt(m.initialize_particles)
    if e["err"]:
        return e
    vel = [p[:, 3], p[:, 4], p[:, 5]]
    if cyl:
        vel = [np.hypot(p[:, 3], p[:, 4]), np.arctan2(p[:, 4], p[:, 3]), p[:, 5]]
    dz = p[:, 2] - (s[0] * p[:, 0] + s[1] * p[:, 1] + s[2])
    clean = lambda d: np.where(np.abs(d) < 1e-9, 0, d)
    dev = [p[:, 0] - 10, p[:, 1] + 20, clean(dz)] + [clean(vel[i] - v[i]) for i in range(k)]
    e.update(stats(dev, sxy + [local(p)] + sv))
    e["consistent"] = int(k == 3 or (p[:, 5] == 0).all())
    return e


def noise_step(rng):
    n = 6400
    kind = rng.choice([k for k in KINDS if k != "base"])
    unit = rng.choice(UNITS)
    zero = lambda x: 0 if rng.random() < 0.25 else x
    s = rng.choice([(0, 0, 5), (2, -3, 7)])
    cyl = kind.endswith("cylindrical")
    k = 2 if kind.startswith("tangent") else 3
    sa = ([zero(2), zero(.1), zero(7)] if cyl else [zero(2), zero(.5), zero(30)])[:k]
    a = ([6, .5, -3] if cyl else [5, -2, 1])[:k]
    aname = {"cartesian": "axyz", "cylindrical": "arthz", "tangent": "axy", "tangent_cylindrical": "arth"}[kind]
    slope = zero(.25) if k == 2 else 0
    kw = {aname + "_sigma": seq(rng, sa)}
    if k == 2:
        kw["slope_sigma"] = slope
    m = build(kind, rng, s, unit, (10, -20), rng.choice([n, 10]), a=a, **kw)
    nr = np.random.RandomState(rng.randrange(10 ** 6))
    th = nr.uniform(-3, 3, n)
    sp = nr.uniform(1, 20, n)
    p = np.column_stack((nr.uniform(-99, 99, (n, 3)), sp * np.cos(th), sp * np.sin(th), nr.uniform(-3, 3, n)))
    p0 = p.copy()
    t = rng.choice([-2.5, -1, .5, 1, 3])
    e = {"op": "noise", "mean": [], "sd": [], "nonzero": [], "corr": [], "consistent": 0}
    _, e["err"] = attempt(m.evolve_particles, p, unit * t)
    if e["err"]:
        return e
    acc = (p[:, 3:6] - p0[:, 3:6]) / t
    clean = lambda d: np.where(np.abs(d) < 1e-9, 0, d)
    if cyl:
        ux, uy = p0[:, 3] / sp, p0[:, 4] / sp
        dev = [acc[:, 0] * ux + acc[:, 1] * uy, (acc[:, 1] * ux - acc[:, 0] * uy) / sp, acc[:, 2]][:k]
    else:
        dev = [acc[:, i] for i in range(k)]
    dev = [clean(d - x) for d, x in zip(dev, a)]
    d = p[:, :3] - p0[:, :3]
    exp = t * p0[:, 3:6] + acc * t * t / 2
    sig = list(sa)
    if k == 2:
        dist = np.hypot(d[:, 0], d[:, 1])
        dev.append(clean((d[:, 2] - s[0] * d[:, 0] - s[1] * d[:, 1]) / dist))
        sig.append(slope)
        ok = np.allclose(d[:, :2], exp[:, :2], atol=1e-6) and (p[:, 5] == p0[:, 5]).all()
    else:
        ok = np.allclose(d, exp, atol=1e-6)
    e.update(stats(dev, sig))
    e["consistent"] = int(ok)
    return e


def penalty(rng):
    kind = rng.choice(["cartesian", "cylindrical", "tangent", "tangent_cylindrical", "base"])
    free = kind in ("cartesian", "cylindrical")
    s = rng.choice([(0, 0, 5), (2, -3, 7)])
    n = rng.randint(1, 6)
    xs = [rng.choice([0, 1, 2, 4, 8]) for _ in range(n)]
    ys = [rng.randint(-9, 9) for _ in range(n)]
    d = [rng.randint(-30, 30) for _ in range(n)]
    mode = rng.choice(["none", "omit", "const", "raster"])
    const = rng.choice([0, 1, 2, .5, 0.25])
    kw = {}
    sigma = [0] * n
    if kind != "base" and mode != "omit" and not (mode == "none" and not free):
        if mode == "const":
            kw["dem_sigma"], sigma = const, [const] * n
        elif mode == "raster":
            x = np.arange(-16, 17, 1.0)
            kw["dem_sigma"] = Raster(np.tile(np.abs(x), (3, 1)), x=(-16.5, 16.5), y=(60, -60))
            sigma = xs
        else:
            kw["dem_sigma"] = None
    m = build(kind, rng, s, UNITS[0], **kw)
    given = int(free and kw.get("dem_sigma") is not None)
    p = np.array([[x, y, s[0] * x + s[1] * y + s[2] + e, 1, 2, 3] for x, y, e in zip(xs, ys, d)], dtype=float)
    p0 = p.copy()
    before = public(m)
    out, err = attempt(m.compute_log_likelihoods, p)
    e = {"op": "penalty", "kind": kind, "d": d, "sigma": [q(x, 4) for x in sigma], "given": given, "err": err,
         "none": int(out is None), "twice": [], "intact": int((p == p0).all() and public(m) == before)}
    if given and not err and out is not None:
        out = np.asarray(out)
        e["twice"] = [q(2 * o * (g * g if g else 1)) for o, g in zip(out, sigma)] if out.shape == (n,) else []
    return e


def run(c):
    rng = random.Random(c.seed)
    np.random.seed(c.seed)
    big = c.thorough
    hist = []
    cases = []
    for n in (2, 3):
        cases += c.behaviours_of(
            "MotionRun", "SPECIFICATION Spec\nINVARIANTS Compose Keeps Turns Emit\n"
            f"CONSTANTS Steps <- Steps{n} Accels <- TheAccels N = {n}\n", workers=8)
    if not big:
        rng.shuffle(cases)
        keep = [b for b in cases if b["kind"].endswith("cylindrical")]
        cases = keep[:500] + [b for b in cases if not b["kind"].endswith("cylindrical")][:700]
    for b in cases:
        hist.append(replay(rng, b))
    for _ in range(1500 if big else 250):
        hist.append([init(rng), penalty(rng), penalty(rng), slow(rng)])
    for _ in range(400 if big else 80):
        hist.append([noise_init(rng), noise_step(rng)])
    c.judge("MotionTrace", [{"kf": "", "ev": ev} for ev in hist], "motion")


sys.exit(main("C05", run))
