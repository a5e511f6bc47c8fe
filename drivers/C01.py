"""C01: A track is the filtered history of exactly its own observations."""
import random
import sys

import numpy as np
import tracking
from vlib import main


def run(c):
    rng = random.Random(c.seed)
    np.random.seed(c.seed)
    big = c.thorough
    # Schedules: images of two observers at three times, masks and failures
    cfg = ("SPECIFICATION Spec\nCONSTANTS T = {t} O = {o} K = 1\nINVARIANTS TypeOK OwnTemplate Exactly "
           "Isolated NotYet Emit\nPROPERTY Terminates\n")
    cases = c.behaviours_of("TrackingMC", cfg.format(t=4, o=2), workers=8)
    if big:
        cases += c.behaviours_of("TrackingMC", cfg.format(t=3, o=3), workers=8)
    rng.shuffle(cases)
    hist = []
    tracker = None
    for x in cases[: 6000 if big else 500]:
        s = from_model(rng, x)
        if s:
            hist.append(tracking.call(s))
    for i in range(6000 if big else 900):
        hist.append(tracking.call(tracking.config(rng, 1)))
    c.judge("TrackingTrace", hist, "single tracks")


def from_model(rng, x, mode=None):
    """Build a call from a schedule of the model."""
    T, K = len(x["matched"]), len(x["mask"])
    nobs = max(2, max([o for m in x["matched"] + x["mask"] for o in m], default=1))
    obs = [[2 * i + 2 for i in range(T) if o + 1 in x["matched"][i]] for o in range(nobs)]
    # Observers need two images: add some that match no time
    for o, ts in enumerate(obs):
        ts += [101 + 7 * o, 103 + 7 * o][: max(1, 2 - len(ts))]
    req = [2 * i + 2 for i in range(T)]
    # Times that match none are dropped
    kept = [t for t in req if any(t in ts for ts in obs)]
    if len(kept) < 2:
        return None
    if rng.random() < 0.5 and K == 1 and not any(x["fail"]):
        # Reversed
        req = req[::-1]
    c = tracking.config(rng, K, mode=mode)
    n = len(c["tracks"][0]["x"])
    span = T
    c.update(obs=obs, cache=[rng.randint(0, 1) for _ in obs], off=[], badimg=[], req=req, maxdt=0,
             mask=[[int(o + 1 in m) for o in range(nobs)] for m in x["mask"]], nomask=0, units=0, vis=999,
             pen=[[[rng.choice([0, 0, 1, 2, 99]) for _ in range(8)] for _ in ts] for ts in obs],
             tracks=[tracking.track(rng, n, span, risky=False) for _ in range(K)])
    for k, t in enumerate(c["tracks"]):
        seen = [u for u in kept if any(u in ts and c["mask"][k][o] for o, ts in enumerate(obs))]
        f = 2 * x["fail"][k]
        if seen and f in kept and f >= seen[0]:
            t["failstep"] = kept.index(f) - kept.index(seen[0])
            t["failkind"] = rng.choice(["nan", "KeyError", "ValueError", "Weird"])
    return tracking.plain(c)


if __name__ == "__main__":
    sys.exit(main("C01", run))
