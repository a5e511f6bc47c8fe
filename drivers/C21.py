"""C21: Points, boxes, lines and rays relate as geometry says."""
import random
import sys

import numpy as np
import vlib
from vlib import attempt, main, q, qi, qm, qv

from glimpse import helpers

K = 60


def arr(v):
    return np.array(v, dtype=float)


def rays(rng, o, dirs, box):
    d = np.array(dirs, dtype=rng.choice([int, float]))
    if d.dtype == float and rng.random() < 0.3:
        d[d == 0] = -0.0
    r, err = attempt(helpers.intersect_rays_box, rng.choice([tuple, np.array])(o), d, rng.choice([tuple, np.array])(box), t=True)
    p, err2 = attempt(helpers.intersect_rays_box, np.array(o), d, tuple(box))
    e = {"op": "rays", "o": list(o), "dirs": [list(v) for v in dirs], "box": list(box), "err": err or err2, "enter": [], "exit": [], "from": [], "to": []}
    if not e["err"]:
        e["enter"], e["exit"] = qv(np.ravel(r[0]), K), qv(np.ravel(r[1]), K)
        e["from"], e["to"] = qm(p[0], K), qm(p[1], K)
    return e


def clip(rng, line, box, t=False):
    v = arr(line)
    before = v.copy()
    r, err = attempt(helpers.clip_polyline_box, v, rng.choice([tuple, np.array])(box), **({"t": True} if t else {}))
    return {"op": "clip", "line": [list(p) for p in line], "box": list(box), "err": err, "got": [] if err else [qm(s, K) for s in r], "same": int(np.array_equal(v, before))}


def cells(rng, a, b):
    r, err = attempt(helpers.bresenham_line, a, b)
    return {"op": "line", "a": list(a), "b": list(b), "err": err, "got": [] if err else qm(r)}


def circle(rng, c, r):
    got, err = attempt(helpers.bresenham_circle, c, r)
    return {"op": "circle", "c": list(c), "r": r, "err": err, "got": [] if err else qm(got)}


def split(rng, mask, circular, include):
    m = np.array(mask, dtype=bool)
    k = rng.randrange(3)
    a = np.arange(1, len(mask) + 1)
    if k == 0:
        r, err = attempt(helpers.boolean_split, a, m, circular=circular, include=include)
    elif k == 1:
        r, err = attempt(helpers.boolean_split, np.column_stack((a, a)), m, circular=circular, include=include)
        r = r if err else [g[:, 0] if np.array_equal(g[:, 0], g[:, 1]) else [] for g in r]
    else:
        r, err = attempt(helpers.boolean_split, np.row_stack((a, a)), m, axis=1, circular=circular, include=include)
        r = r if err else [g[1] if np.array_equal(g[0], g[1]) else [] for g in r]
    return {"op": "split", "mask": [bool(v) for v in mask], "circular": bool(circular), "include": include, "err": err, "got": [] if err else [qv(g) for g in r]}


def replay(rng, b):
    if b["kind"] == "ray":
        return rays(rng, b["a"], [b["b"]], b["c"])
    if b["kind"] == "clip":
        return clip(rng, b["a"] + [b["b"]], b["c"])
    if b["kind"] == "line":
        return cells(rng, b["a"], b["b"])
    return split(rng, b["a"], b["b"], b["c"])


# ---- Random ----

def rbox(rng, n):
    lo = [rng.randint(-3, 2) for _ in range(n)]
    return lo + [v + rng.randint(1, 4) for v in lo]


def rpoint(rng, n):
    return [rng.randint(-4, 6) for _ in range(n)]


def walk(rng, n, length):
    """Line whose steps have at most 6 cells."""
    p = [rpoint(rng, n)]
    while len(p) < length:
        s = [rng.randint(-6, 6) if rng.random() < 0.7 else 0 for _ in range(n)]
        p.append([max(-9, min(9, a + b)) for a, b in zip(p[-1], s)])
    return p


def pythagorean(rng, n, length):
    """Line whose steps have lengths in whole numbers."""
    steps = {1: [(v,) for v in range(-5, 6) if v], 2: [(1, 0), (0, 2), (-3, 0), (0, -1), (3, 4), (-4, 3), (4, -3), (6, 8)], 3: [(1, 2, 2), (2, -1, 2), (0, 3, 4), (0, 0, 1), (-2, 3, 6), (5, 0, 0)]}[n]
    p = [tuple(rpoint(rng, n))]
    while len(p) < length:
        p.append(tuple(a + b for a, b in zip(p[-1], rng.choice(steps))))
    return [list(v) for v in p]


def along(rng, even=False):
    n = rng.choice([1, 2, 2, 3])
    v = pythagorean(rng, n, rng.randint(2, 5))
    x = []
    if rng.random() < 0.5:
        x = [rng.randint(-5, 5)]
        while len(x) < len(v):
            x.append(x[-1] + rng.randint(1, 6))
        if rng.random() < 0.5:
            x = x[::-1]
    verts = arr(v)
    before = verts.copy()
    ends = [x[0], x[-1]] if x else [0, sum(int(round(np.hypot.reduce(np.subtract(b, a)))) for a, b in zip(v, v[1:]))]
    kw = {}
    if x:
        kw["x"] = rng.choice([list, tuple, np.array])(x)
    if even:
        e = {"op": "evenly", "v": v, "x": x, "n": 0, "dx": [1, 1]}
        if rng.random() < 0.5:
            e["n"] = kw["n"] = rng.choice([1, 2, 3, 4, 7])
            if rng.random() < 0.3:
                kw["dx"] = 1
        else:
            span = abs(ends[1] - ends[0])
            e["dx"] = rng.choice([[1, 1], [1, 2], [span, 1], [span, 2], [span, 4], [max(1, span // 2), 1], [2, 1], [3, 1]])
            e["dx"] = e["dx"] if 2 * e["dx"][0] <= 2 * span * e["dx"][1] else [1, 1]
            kw["dx"] = e["dx"][0] / e["dx"][1]
        r, err = attempt(helpers.interpolate_line, verts, **kw)
        return {**e, "err": err, "got": [] if err else [[qi(c, 1000) for c in p] for p in r], "same": int(np.array_equal(verts, before))}
    den = rng.choice([1, 2, 3, 4])
    lo, hi = min(ends) * den, max(ends) * den
    out = rng.random() < 0.4
    xi = [[rng.randint(lo - 3 if out else lo, hi + 3 if out else hi), den] for _ in range(rng.randint(1, 5))]
    if rng.random() < 0.5:
        xi += [[ends[0], 1], [ends[1], 1]]
    fill = rng.choice([[], [], [77, 77], [55, 66]])
    if fill:
        kw["fill"] = 77 if fill[0] == 77 else rng.choice([tuple, list])(fill)
    error = rng.random() < 0.4
    if not error or rng.random() < 0.5:
        kw["error"] = error
    if rng.random() < 0.2:
        kw["n"] = 3
    kw["xi"] = rng.choice([list, tuple, np.array])([a / b for a, b in xi])
    r, err = attempt(helpers.interpolate_line, verts, **kw)
    return {"op": "along", "v": v, "x": x, "xi": xi, "error": int(error), "fill": fill, "err": err,
            "got": [] if err else [[qi(c, 1000) for c in p] for p in r], "same": int(np.array_equal(verts, before))}


def grid(rng):
    box = rbox(rng, 2)
    step = [rng.randint(1, 4), rng.randint(1, 4)]
    same = rng.random() < 0.4
    if same:
        step[1] = step[0]
    snap = rng.choice([[], rpoint(rng, 2)])
    mode = rng.choice(["vectors", "grids", "points"])
    s = rng.choice([1, 0.5, 4])
    kw = {"snap": rng.choice([tuple, np.array])([v * s for v in snap])} if snap else {}
    if mode != "grids" or rng.random() < 0.5:
        kw["mode"] = mode
    r, err = attempt(helpers.box_to_grid, [v * s for v in box], step[0] * s if same else tuple(v * s for v in step), **kw)
    got = []
    if not err:
        got = qm(r, 1 / s) if mode == "points" else [qv(v, 1 / s) for v in r] if mode == "vectors" else [qm(v, 1 / s) for v in r]
    return {"op": "grid", "box": box, "step": step, "snap": snap, "mode": mode, "err": err, "got": got}


def boxes(rng):
    n = rng.choice([1, 2, 2, 3])
    b = [rbox(rng, n) for _ in range(rng.randint(1, 3))]
    s = rng.choice([1, 0.25])
    r, err = attempt(helpers.intersect_boxes, rng.choice([list, np.array])([[v * s for v in x] for x in b]))
    return {"op": "meet", "boxes": b, "err": err, "got": [] if err else qv(r, 1 / s)}


def points(rng):
    n = rng.choice([1, 2, 2, 3])
    p = [rpoint(rng, n) for _ in range(rng.randint(1, 6))]
    k = rng.randrange(4)
    if k == 0:
        box = rbox(rng, n)
        r, err = attempt(helpers.in_box, arr(p) / 4, [v / 4 for v in box])
        return {"op": "inbox", "points": p, "box": box, "got": [] if err else qv(r)}
    if k == 1:
        r, err = attempt(helpers.bounding_box, rng.choice([p, np.array(p), arr(p)]))
        return {"op": "bounds", "points": p, "got": [] if err else qv(r)}
    if k == 2:
        box = rbox(rng, 2)
        r, err = attempt(helpers.box_to_polygon, rng.choice([tuple, np.array])(box))
        return {"op": "polygon", "box": box, "got": [] if err else qm(r)}
    b = [rpoint(rng, n) for _ in range(rng.randint(1, 4))]
    flat = n == 1 and rng.random() < 0.5
    x, y = (([v[0] for v in p], [v[0] for v in b]) if flat else (p, b))
    if rng.random() < 0.5:
        r, err = attempt(helpers.pairwise_distance, x, np.array(y), metric="sqeuclidean")
    else:
        r, err = attempt(helpers.pairwise_distance, x, y)
        r = r if err else np.square(r)
    return {"op": "distance", "a": p, "b": b, "err": err, "got": [] if err else qm(r)}


def nearest(rng):
    x = sorted(rng.sample(range(-10, 11), rng.randint(1, 6)))
    y = [rng.randint(-12, 12) for _ in range(rng.randint(1, 6))]
    if rng.random() < 0.3:
        y.sort()
    s = rng.choice([1, 0.5])
    r, err = attempt(helpers.sorted_nearest, rng.choice([list, np.array])([v * s for v in x]), rng.choice([list, np.array])([v * s for v in y]))
    return {"op": "nearest", "x": x, "y": y, "err": err, "got": [] if err else [q(v) + 1 for v in r]}


def refused(rng):
    what = rng.choice(["box of odd length", "boxes of odd length", "nothing to interpolate", "mode"])
    fn = {"box of odd length": lambda: helpers.unravel_box((0, 1, 2)), "boxes of odd length": lambda: helpers.intersect_boxes([(0, 1, 2), (0, 1, 2)]),
          "nothing to interpolate": lambda: helpers.interpolate_line(arr([(0, 0), (1, 1)])), "mode": lambda: helpers.box_to_grid((0, 0, 1, 1), 1, mode="cells")}[what]
    return {"op": "refused", "what": what, "err": attempt(fn)[1]}


def anything(rng):
    ev = []
    n = rng.choice([2, 2, 3])
    o = [rng.randint(-4, 6) for _ in range(n)]
    dirs = []
    while len(dirs) < 4:
        d = [rng.randint(-6, 6) if rng.random() < 0.7 else 0 for _ in range(n)]
        if any(d):
            dirs.append(d)
    ev.append(rays(rng, o, dirs, rbox(rng, n)))
    t = rng.random() < 0.3
    line = walk(rng, n, rng.randint(2, 7))
    if t:
        m = 0
        for p in line:
            p.append(m)
            m += rng.randint(1, 6)
    ev.append(clip(rng, line, rbox(rng, n), t))
    a = rpoint(rng, 2)
    ev.append(cells(rng, a, [v + rng.randint(-40, 40) for v in a]))
    ev += [split(rng, [rng.random() < 0.5 for _ in range(rng.randint(1, 9))], rng.random() < 0.5, rng.choice(["all", "true", "false"])),
           along(rng), along(rng), along(rng, True), grid(rng), boxes(rng), points(rng), points(rng), nearest(rng), refused(rng)]
    return {"kf": "", "ev": ev}


def run(c):
    rng = random.Random(c.seed)
    big = c.thorough
    scripts = c.behaviours_of("GeometryMC", "SPECIFICATION Spec\nINVARIANTS Rays Clips Cells Splits Emit\nCHECK_DEADLOCK FALSE\n"
                              f"CONSTANTS Reach = {20 if big else 8}\n", workers=8)
    ev = [replay(rng, b) for b in scripts]
    c.judge("GeometryTrace", [{"kf": "", "ev": ev[i:i + 10]} for i in range(0, len(ev), 10)], "behaviours")
    radii = range(1, 200 if big else 40)
    c.judge("GeometryTrace", [{"kf": "", "ev": [circle(rng, rng.choice([(0, 0), (3, -2)]), r)]} for r in radii], "circles")
    c.judge("GeometryTrace", [anything(rng) for _ in range(20000 if big else 1500)], "any")


sys.exit(main("C21", run))
