"""C04: Resampling redraws particles in proportion to their weights."""
import random
import sys

import numpy as np
from vlib import attempt, main, q, qm, qv

from glimpse.track import Tracker

METHODS = ["systematic", "stratified", "residual", "choice"]


def particles(n, rng):
    p = np.array([[rng.randint(-40, 40) for _ in range(6)] for _ in range(n)], dtype=float)
    p[:, 0] = rng.sample(range(-50, 50), n)
    return p


def sources(p, out):
    """Number (from 1) of the earlier particle that each particle copies."""
    src = []
    for row in out:
        k = np.nonzero((p == row).all(axis=1))[0]
        src.append(int(k[0]) + 1 if len(k) else 0)
    return src


def draw(rng, w, method, scale, explicit):
    n = len(w)
    p = particles(n, rng)
    weights = np.array(w, dtype=float) * scale
    tracker = Tracker([])
    tracker.particles, tracker.weights = p.copy(), weights.copy()
    e = {"op": "draw", "method": method, "w": w}
    before = tracker.particles
    if explicit:
        _, e["err"] = attempt(tracker.resample_particles, method)
    else:
        tracker.resample_method = method
        _, e["err"] = attempt(tracker.resample_particles)
    e.update(src=[], paired=0, intact=0)
    if not e["err"]:
        e["src"] = sources(p, tracker.particles)
        e["paired"] = int(
            np.shape(tracker.weights) == (len(e["src"]),)
            and all(s > 0 and x == weights[s - 1] for s, x in zip(e["src"], tracker.weights)))
        e["intact"] = int((before == p).all())
    return e


def many(rng, w, method, scale, reps):
    n = len(w)
    p = particles(n, rng)
    total = [0] * n
    tracker = Tracker([], resample_method=method)

    def go():
        for _ in range(reps):
            tracker.particles = p
            tracker.weights = np.array(w, dtype=float) * scale
            tracker.resample_particles()
            for s in sources(p, tracker.particles):
                total[s - 1] += 1

    _, err = attempt(go)
    return {"op": "many", "method": method, "w": w, "reps": reps, "total": total, "err": err}


def moments(rng, n):
    # Total weight is a power of two
    w = [rng.randint(0, 3) for _ in range(n)]
    total = 1
    while total < sum(w) or total == 0:
        total *= 2
    w[rng.randrange(n)] += total - sum(w)
    p = particles(n, rng)
    tracker = Tracker([])
    scale = rng.choice([1, 1, 2.0 ** -40, 2.0 ** 30, 1e-290])
    tracker.particles, tracker.weights = p.copy(), np.array(w, dtype=float) * scale

    def go():
        mean = tracker.particle_mean
        if rng.random() < 0.5:
            sigma = tracker.compute_particle_sigma()
        else:
            sigma = tracker.compute_particle_sigma(mean=mean)
        return mean, sigma, tracker.particle_covariance

    out, err = attempt(go)
    e = {"op": "moments", "p": [[int(x) for x in r] for r in p], "w": w, "err": err}
    if not err:
        W = sum(w)
        e["mean"] = qv(out[0], W)
        e["var"] = qv(np.asarray(out[1]) ** 2, W * W)
        e["cov"] = qm(out[2], W * W)
        e["intact"] = int((tracker.particles == p).all()
                          and (tracker.weights == np.array(w) * scale).all())
    return e


def run(c):
    rng = random.Random(c.seed)
    np.random.seed(c.seed)
    big = c.thorough
    cases = []
    for n, m, k in ((3, 4, 6), (4, 3 if big else 2, 4)):
        cases += c.behaviours_of(
            "ResampleMC",
            f"SPECIFICATION Spec\nCONSTANTS N = {n} M = {m} K = {k}\n"
            "INVARIANTS Legal FloorCeil Proportional Emit\n", workers=8)
    hist = []
    scales = [1, 1, 1e-300, 1e-6, 0.3, 1e6, 1e250]
    for w in cases:
        ev = []
        for method in METHODS:
            if method == "residual" and bin(sum(w)).count("1") > 1:
                # Rounding of exact multiples
                if any(len(w) * x % sum(w) == 0 and x for x in w):
                    continue
            for _ in range(4):
                ev.append(draw(rng, w, method, rng.choice(scales), rng.random() < 0.5))
        if sum(w) <= 16 and rng.random() < (1 if big else 0.3):
            for method in METHODS:
                reps = 2048 // len(w)
                ev.append(many(rng, w, method, rng.choice(scales), reps if big else reps // 2))
        hist.append(ev)
    for _ in range(3000 if big else 300):
        n = rng.randint(1, 24)
        kind = rng.random()
        if kind < 0.3:
            w = [rng.randint(0, 1) for _ in range(n)]
        elif kind < 0.6:
            w = [rng.choice([0, 1, 2, 500]) for _ in range(n)]
        else:
            w = [rng.randint(0, 9) for _ in range(n)]
        if not sum(w):
            w[rng.randrange(n)] = 1
        ev = []
        for method in METHODS:
            if method == "residual" and bin(sum(w)).count("1") > 1:
                if any(len(w) * x % sum(w) == 0 and x for x in w):
                    continue
            ev.append(draw(rng, w, method, rng.choice(scales), rng.random() < 0.5))
        for _ in range(3):
            ev.append(moments(rng, rng.randint(1, 9)))
        n = rng.randint(1, 9)
        tracker = Tracker([])
        tracker.particles = particles(n, rng)
        _, err = attempt(tracker.initialize_weights)
        ev.append({"op": "start", "n": n, "err": err, "w": qv(tracker.weights, 1000)})
        hist.append(ev)
    c.judge("ResampleTrace", [{"kf": "", "ev": ev} for ev in hist], "resampling")


sys.exit(main("C04", run))
