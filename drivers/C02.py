"""C02: Tracks run together are independent, ordered and reported one by one."""
import random
import sys

import numpy as np
import tracking
from C01 import from_model
from vlib import main

from glimpse.track import Tracker


def run(c):
    rng = random.Random(c.seed)
    np.random.seed(c.seed)
    big = c.thorough
    cfg = ("SPECIFICATION Spec\nCONSTANTS T = {t} O = 2 K = {k}\nINVARIANTS TypeOK OwnTemplate Exactly "
           "Isolated NotYet Emit\nPROPERTY Terminates\n")
    cases = c.behaviours_of("TrackingMC", cfg.format(t=3, k=2), workers=8)
    rng.shuffle(cases)
    hist = []
    for x in cases[: 5000 if big else 350]:
        s = from_model(rng, x)
        if s:
            hist.append(tracking.call(s))
    # Several calls of the same tracker
    for i in range(1500 if big else 150):
        tracker = None
        for j in range(3):
            s = tracking.config(rng, rng.randint(1, 4))
            if tracker is None:
                tracker = Tracker([], highpass={"size": (3, 3)})
            hist.append(tracking.call(s, tracker=tracker))
    c.judge("TrackingTrace", hist, "serial")
    # In parallel
    hist = []
    for i in range(300 if big else 40):
        s = tracking.config(rng, rng.randint(1, 7), mode=rng.choice(["particles", "reduce", "none"]))
        hist.append(tracking.call(s, parallel=rng.choice([1, 2, 3, True])))
    c.judge("TrackingTrace", [h for h in hist if not single_failure(h)], "parallel")


def single_failure(h):
    """The error of a single track in a process is wrapped by the process pool."""
    return len(h["c"]["tracks"]) == 1 and h["ev"][0]["err"] == "SlaveException" or (
        len(h["c"]["tracks"]) == 1 and h["ev"][0]["err"] == "WorkerException")


if __name__ == "__main__":
    sys.exit(main("C02", run))
