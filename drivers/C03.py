"""C03: Times select exactly the nearest images within tolerance."""
import datetime
import random
import sys
import warnings

import numpy as np
from vlib import NONE, attempt, main

import glimpse
from glimpse import helpers
from glimpse.track import Observer, Tracker

BASE = datetime.datetime(2019, 12, 31, 22, 5, 7, 123456)
SEC = datetime.timedelta(seconds=1)


class Img:
    """Stand-in for an image."""

    def __init__(self, t):
        self.datetime = t


class Unit:
    def __init__(self, unit, base=BASE):
        self.unit, self.base = unit, base

    def t(self, k):
        return None if k == NONE else self.base + k * self.unit

    def d(self, k):
        return None if k == NONE else k * self.unit

    def back(self, t):
        k, r = divmod(t - self.base, self.unit)
        return k if not r else -777777


def observer(u, ts):
    return Observer([Img(u.t(k)) for k in ts], sigma=0.25, cache=False)


def track_events(u, obs, req, maxdt):
    tracker = Tracker([observer(u, ts) for ts in obs])
    ev = [{"op": "times", "obs": obs, "out": [u.back(t) for t in tracker.datetimes]}]
    times = [u.t(k) for k in req]
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        out, err = attempt(
            tracker.parse_datetimes, times, maxdt=u.d(maxdt)
        )
    n = sum("ropping" in str(w.message) for w in caught)
    ev.append({
        "op": "parse", "obs": obs, "req": req, "maxdt": maxdt, "err": err,
        "out": [] if err else [u.back(t) for t in out], "warned": n,
    })
    out, err = attempt(tracker.match_datetimes, times, maxdt=u.d(maxdt))
    ev.append({
        "op": "match", "obs": obs, "req": req, "maxdt": maxdt, "err": err,
        "out": [] if err else
        [[-1 if x is None else int(x) for x in row] for row in out],
    })
    return ev


def select_args(u, c):
    kw = {}
    for k in ("start", "end"):
        if c[k] != NONE:
            kw[k] = u.t(c[k])
    for k in ("snap", "maxdt"):
        if c[k] != NONE:
            kw[k] = u.d(c[k])
    kw["origin"] = u.t(c["origin"])
    return kw


def select_events(u, c):
    kw = select_args(u, c)
    times = [u.t(k) for k in c["ts"]]
    e = dict(c, op="select")
    out, e["err"] = attempt(helpers.select_datetimes, times, **kw)
    e["out"] = [] if e["err"] else [int(x) for x in out]
    ev = [e]
    if len(times) >= 2:
        obs = observer(u, c["ts"])
        before = list(obs.images), list(obs.datetimes)
        e = dict(c, op="subset")
        out, e["err"] = attempt(obs.subset, **kw)
        ok = not e["err"]
        e["out"] = [before[0].index(x) for x in out.images] if ok else []
        e["kept"] = int(ok and out.sigma == 0.25 and out.cache is False
                        and list(out.datetimes) == [x.datetime for x in out.images])
        e["same"] = int((list(obs.images), list(obs.datetimes)) == before)
        ev.append(e)
    return ev


def split_events(u, c):
    obs = observer(u, c["ts"])
    before = list(obs.images), list(obs.datetimes)
    n = c["n"] if c.get("n") else [u.t(k) for k in c["brk"]]
    e = {"op": "split", "ts": c["ts"], "n": c.get("n", 0), "brk": c.get("brk", []),
         "overlap": c["overlap"]}
    out, e["err"] = attempt(obs.split, n, overlap=c["overlap"])
    ok = not e["err"]
    e["out"] = [[before[0].index(x) for x in o.images] for o in out] if ok else []
    e["kept"] = int(ok and all(
        o.sigma == 0.25 and o.cache is False
        and list(o.datetimes) == [x.datetime for x in o.images] for o in out))
    e["same"] = int((list(obs.images), list(obs.datetimes)) == before)
    return [e]


def observer_event(u, ts):
    out, err = attempt(observer, u, ts)
    return {"op": "observer", "ts": ts, "err": err, "out": [] if err else
            [u.back(x.datetime) for x in out.images]
            if list(out.datetimes) == [x.datetime for x in out.images] else []}


def fix(c):
    return {k: (NONE if v == -99 else v) for k, v in c.items() if k != "kind"}


def run(c):
    rng = random.Random(c.seed)
    n = 6000 if c.thorough else 700
    hist = []
    for kinds, m in (("track", 1 if c.thorough else 0), ("select", 1), ("split", 1)):
        cfg = (f'SPECIFICATION Spec\nCONSTANTS N = {4 if c.thorough else 3} Kinds = {{"{kinds}"}}\n'
               "INVARIANTS OK Emit\n")
        cases = c.behaviours_of("DatetimesMC", cfg, workers=4)
        rng.shuffle(cases)
        u = Unit(SEC)
        for x in cases[: n * 4]:
            if x["kind"] == "track":
                hist.append(track_events(u, x["obs"], x["req"], x["maxdt"]))
            elif x["kind"] == "select":
                hist.append(select_events(u, fix(x)))
            else:
                hist.append(split_events(u, fix(x)))
    units = [datetime.timedelta(seconds=1), datetime.timedelta(microseconds=24),
             datetime.timedelta(milliseconds=100), datetime.timedelta(days=1, microseconds=24),
             datetime.timedelta(minutes=20)]
    for i in range(n):
        u = Unit(rng.choice(units))
        big = rng.choice([6, 20, 60])
        ev = []

        def times(k, lo=0):
            return sorted(rng.sample(range(lo, lo + big + 12), k))

        obs = [times(rng.randint(2, 9), rng.randint(-5, 5)) for _ in range(rng.randint(1, 3))]
        req = [rng.randint(-6, big + 14) for _ in range(rng.randint(1, 9))]
        k = rng.random()
        if k < 0.45:
            req.sort()
        elif k < 0.9:
            req.sort(reverse=True)
        if rng.random() < 0.3 and len(req) > 1:
            j = rng.randrange(len(req))
            req.insert(j, req[j])
        ev += track_events(u, obs, req, rng.choice([0, 0, 1, 2, 5, -2]))
        ts = times(rng.randint(1, 10), -3)
        o = lambda p, *x: NONE if rng.random() < p else rng.randint(*x)  # noqa
        ev += select_events(u, {
            "ts": ts, "start": o(0.4, -8, big), "end": o(0.4, 0, big + 12),
            "snap": o(0.3, 1, 7), "maxdt": o(0.5, 0, 5), "origin": rng.randint(-30, 30)})
        ts = times(rng.randint(2, 12))
        if rng.random() < 0.5:
            ev += split_events(u, {"ts": ts, "n": rng.randint(1, 4), "overlap": rng.randint(0, 3)})
        else:
            ev += split_events(u, {"ts": ts, "overlap": rng.randint(0, 3), "brk":
                                   [rng.randint(-2, big + 12) for _ in range(rng.randint(1, 3))]})
        ts = times(rng.randint(2, 6))
        obj = observer(u, ts)
        for _ in range(3):
            t = rng.randint(-5, big + 15)
            d = rng.choice([0, 1, 3, -1, NONE])
            out, err = attempt(obj.index, u.t(t), maxdt=u.d(d))
            ev.append({"op": "index", "ts": ts, "t": t, "maxdt": d, "err": err,
                       "out": -1 if err else int(out)})
        out, err = attempt(obj.index, obj.images[1])
        ev.append({"op": "find", "i": 1, "err": err, "out": out if not err else -1})
        out, err = attempt(obj.index, Img(u.t(0)))
        ev.append({"op": "find", "i": -1, "err": err, "out": out if not err else -1})
        bad = [rng.randint(0, 5) for _ in range(rng.randint(0, 4))]
        if rng.random() < 0.3 and bad:
            bad[rng.randrange(len(bad))] = NONE
        ev.append(observer_event(u, bad))
        a, b, s = rng.randint(-9, 9), rng.randint(-9, 30), rng.randint(1, 6)
        out, err = attempt(helpers.datetime_range, u.t(a), u.t(b), u.d(s))
        ev.append({"op": "range", "start": a, "stop": b, "step": s, "err": err,
                   "out": [] if err else [u.back(t) for t in out]})
        xs = times(rng.randint(1, 7))
        ys = [rng.randint(-6, big + 14) for _ in range(rng.randint(1, 6))]
        conv = rng.choice([u.t, float, int])
        out, err = attempt(helpers.sorted_nearest, [conv(k) for k in xs], [conv(k) for k in ys])
        ev.append({"op": "nearest", "x": xs, "y": ys, "err": err,
                   "out": [] if err else [int(k) for k in out]})
        hist.append(ev)
    c.judge("DatetimesTrace", [{"kf": "", "ev": ev} for ev in hist], "requests")


sys.exit(main("C03", run))
