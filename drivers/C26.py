"""C26: Filters and matching of values."""
import os
import random
import sys
import warnings

import numpy as np
from vlib import BADSHAPE, attempt, main, q, qi

from glimpse import Raster, helpers

warnings.simplefilter("ignore")
np.seterr(all="ignore")
# Width at which weights are halved at distance 1
SIGMA = 1 / np.sqrt(2 * np.log(2))
CODE = 2000000001
LIGHTS = [
    (0, 45, [0, 1, 1]), (90, 45, [1, 0, 1]), (180, 45, [0, -1, 1]), (270, 45, [-1, 0, 1]), (0, 90, [0, 0, 1]), (123, 90, [0, 0, 1]),
    (90, 0, [1, 0, 0]), (180, 0, [0, -1, 0]), (45, 0, [1, 1, 0]), (135, 0, [1, -1, 0]), (315, 0, [-1, 1, 0]), (360, 45, [0, 1, 1]),
]
DTYPES = [float, float, np.float32, np.uint8, np.int16, int]


def grid(a, f):
    a = np.asarray(a)
    if a.ndim == 1:
        a = a[None]
    return [[f(v) for v in row] for row in a] if a.ndim == 2 else [[BADSHAPE]]


def numbers(rng, dtype):
    if dtype is np.uint8:
        return [0, 0, 1, 3, 9]
    return rng.choice([range(-5, 6), [0, 1], [-1, 0, 2]])


def array(values, dtype):
    """Array of rows of values (codes for missing values)."""
    return np.array([[np.nan if v == CODE else v for v in row] for row in values], dtype=dtype)


def cells(rng, dtype, least=1, most=6):
    ny, nx = rng.randint(least, most), rng.randint(least, most)
    of = numbers(rng, dtype)
    return [[rng.choice(of) for _ in range(nx)] for _ in range(ny)]


def masked(rng, a, missing):
    """A mask for some cells, of which excluded ones are sometimes missing."""
    if rng.random() < 0.15:
        return []
    p = rng.choice([0.2, 0.5, 0.8, 0.95])
    m = [[int(rng.random() < p) for _ in row] for row in a]
    if missing and rng.random() < 0.6:
        for row, inside in zip(a, m):
            for x, v in enumerate(inside):
                if not v and rng.random() < 0.7:
                    row[x] = CODE
    return m


def mask_of(m):
    return np.array(m, dtype=bool) if m else None


def size_of(rng, r):
    """A size of the window, or an equivalent."""
    n = tuple(2 * v + 1 for v in r)
    k = rng.randrange(3)
    if k == 0 and n[0] == n[1]:
        return {"size": n[0]}
    if k == 1:
        return {"footprint": np.ones(n, dtype=bool)}
    return {"size": n}


def sigma_of(r):
    k = max(r)
    return {"sigma": SIGMA if r[0] == r[1] else tuple(SIGMA if v else 0 for v in r), "truncate": k / SIGMA}


def filters(rng, a=None, m=None):
    """Maximum, mean, or both (of a raster) of some cells."""
    op = rng.choice(["max", "gauss", "crevasses"])
    dtype = rng.choice(DTYPES)
    if a is None:
        a = cells(rng, dtype)
        if op == "max" and dtype is np.int16 and rng.random() < 0.5:
            a[0][0] = -32768
        m = masked(rng, a, dtype in (float, np.float32))
    if not m and op != "max" and dtype not in (float, np.float32):
        # NOTE: means of integers (without a mask) are integers
        dtype = float
    A, M = array(a, dtype), mask_of(m)
    r = rng.choice([[1, 1], [1, 1], [2, 2], [0, 1], [1, 0], [2, 1]])
    rg = rng.choice([[1, 1], [2, 2], [0, 1], [2, 0]])
    fill = rng.randrange(2)
    e = {"op": op, "a": a, "m": m, "r": rg if op == "gauss" else r, "rg": rg, "fill": fill, "got": [], "same": 1}
    given = {"fill": bool(fill)} if fill or rng.random() < 0.5 else {}
    if op == "crevasses":
        d = rng.choice([(1, -1), (-1, 1), (2, 2), (1, -2)])
        raster = Raster(A.copy(), x=(0, d[0] * len(a[0])), y=(0, d[1] * len(a)))
        seen = []
        mask = M
        if M is not None and rng.random() < 0.5:
            mask = lambda v: seen.append(v.copy()) or M.copy()  # noqa
        before = [list(raster.xlim), list(raster.ylim)]
        _, e["err"] = attempt(raster.fill_crevasses, maximum=size_of(rng, r), gaussian=sigma_of(rg), **({} if mask is None and rng.random() < 0.5 else {"mask": mask}), **given)
        out = raster.array
        ok = before == [list(raster.xlim), list(raster.ylim)] and len(seen) == int(callable(mask))
        ok &= all(np.array_equal(v, A, equal_nan=True) for v in seen) if A.dtype.kind == "f" else all(np.array_equal(v, A) for v in seen)
    else:
        B, N = A.copy(), None if M is None else M.copy()
        if len(a) == 1 and rng.random() < 0.5:
            B, N = B[0], None if N is None else N[0]
            kw = {"size": 2 * r[1] + 1} if op == "max" else {**sigma_of([rg[1]] * 2), "sigma": SIGMA if rg[1] else 0, "truncate": max(rg[1], 1) / SIGMA}
        else:
            kw = size_of(rng, r) if op == "max" else sigma_of(rg)
        if N is not None or rng.random() < 0.5:
            kw["mask"] = N
        out, e["err"] = attempt(helpers.maximum_filter if op == "max" else helpers.gaussian_filter, B, **kw, **given)
        ok = np.array_equal(B.reshape(A.shape), A, equal_nan=A.dtype.kind == "f") and (N is None or np.array_equal(N.reshape(A.shape), M))
        ok &= out is None or op != "max" or out.dtype == A.dtype
    e["same"] = int(bool(ok))
    if not e["err"]:
        e["got"] = grid(out, (lambda v: q(v)) if op == "max" else (lambda v: qi(v, 1e4)))
    return e


def surface(rng, a=None):
    """Slopes and shades of a raster."""
    if a is None:
        a = [[rng.randint(0, 3) for _ in range(rng.randint(2, 4))] for _ in range(1)]
        a = [[rng.randint(0, 3) for _ in a[0]] for _ in range(rng.randint(2, 4))]
    d = [rng.choice([-2, -1, 1, 2]), rng.choice([-2, -1, 1, 2])]
    x0, y0 = rng.randint(-9, 9), rng.randint(-9, 9)
    A = np.array(a, dtype=rng.choice([float, float, int]))
    r = Raster(A.copy(), x=(x0, x0 + d[0] * len(a[0])), y=(y0, y0 + d[1] * len(a)))
    out, err = attempt(r.gradient)
    e = {"op": "gradient", "a": a, "d": d, "gx": [], "gy": [], "err": err, "same": int(np.array_equal(r.array, A))}
    if not err:
        e["gx"] = grid(out[0], lambda v: q(v, 2 * abs(d[0])))
        e["gy"] = grid(out[1], lambda v: q(v, 2 * abs(d[1])))
    azimuth, altitude, l = rng.choice(LIGHTS)
    ve = rng.choice([1, 1, 2])
    kw = {} if ve == 1 else {"vert_exag": ve}
    if altitude != 45 or rng.random() < 0.5:
        kw["altitude"] = altitude
    out, err = attempt(r.hillshade, azimuth, **kw)
    s = {"op": "shade", "a": a, "d": d, "l": l, "ve": ve, "got": [], "err": err, "same": int(np.array_equal(r.array, A))}
    if not err:
        s["got"] = grid(out, lambda v: qi(v, 1e6))
    return [e, s]


def shaped(rng, s, dtype):
    """Array of values, in some shape."""
    n = len(s)
    shapes = [(n,), (n,), (1, n), (n, 1)] + [(k, n // k) for k in range(2, n) if n % k == 0]
    return np.array(s, dtype=dtype).reshape(rng.choice(shapes))


def distributions(rng, a=None, b=None):
    """Distribution of values, and values matched to another."""
    dtype = rng.choice([float, np.uint8, int, np.float32])
    if a is None:
        of = range(0, 10) if dtype is np.uint8 or rng.random() < 0.5 else range(-5, 6)
        a = [rng.choice(of) for _ in range(rng.randint(1, 8))]
        b = [rng.choice(of) for _ in range(rng.randint(1, 8))]
    A, B = shaped(rng, a, dtype), shaped(rng, b, rng.choice([float, dtype]))
    A0, B0 = A.copy(), B.copy()
    ev = []
    back = rng.random() < 0.7
    out, err = attempt(helpers.compute_cdf, A, return_inverse=True) if back else attempt(helpers.compute_cdf, A)
    e = {"op": "cdf", "a": a, "values": [], "counts": [], "back": a, "err": err, "same": 1}
    if not err:
        e["values"] = [q(v) for v in out[0]]
        e["counts"] = [q(v, len(a)) for v in out[1]]
        e["same"] = int(len(out) == 2 + back)
        if back:
            e["back"] = [q(out[0][i]) for i in np.ravel(out[2])]
    ev.append(e)
    cdf = B
    if rng.random() < 0.4:
        values, counts = np.unique(B, return_counts=True)
        cdf = (values, np.cumsum(counts) / B.size)
        if rng.random() < 0.5:
            cdf = tuple(v.tolist() for v in cdf)
    out, err = attempt(helpers.match_cdf, A, cdf)
    e = {"op": "match", "a": a, "b": b, "got": [], "err": err, "same": int(np.array_equal(A, A0) and np.array_equal(B, B0))}
    if not err:
        e["got"] = [qi(v, 1e4) for v in np.ravel(out)]
        e["same"] &= int(out.shape == A.shape)
    ev.append(e)
    if len(set(a)) > 1:
        out, err = attempt(helpers.normalize, A)
        e = {"op": "normal", "a": a, "got": [], "err": err, "same": int(np.array_equal(A, A0))}
        if not err:
            e["got"] = [qi(v * abs(v), 1e4) for v in np.ravel(out)]
            e["same"] &= int(out.shape == A.shape)
        ev.append(e)
    return ev


def lists(rng):
    x = [rng.randint(0, 5) for _ in range(rng.randint(0, 5))]
    n = rng.choice([0, 1, 2, 3, 4, 6, 8, 10])
    default = rng.choice([[], [], [0], [7]])
    given = rng.choice([list, tuple, np.array])(x)
    if len(x) == 1 and rng.random() < 0.5:
        given = x[0]
    before = list(given) if np.iterable(given) else given
    kw = {}
    if n or rng.random() < 0.5:
        kw["length"] = n or None
    if default:
        kw["default"] = default[0]
    dtype = rng.choice([None, None, float, str])
    if dtype:
        kw["dtype"] = dtype
    out, err = attempt(helpers.format_list, given, **kw)
    same = (list(given) if np.iterable(given) else given) == before
    e = {"op": "list", "x": x, "n": n, "default": default, "got": [], "err": err, "same": int(same)}
    if not err:
        e["got"] = [q(v) for v in out]
        e["same"] &= int(isinstance(out, list) and (dtype is None or all(type(v) is dtype for v in out)))
        out.append(1)
        e["same"] &= int((list(given) if np.iterable(given) else given) == before)
    return e


def names(rng):
    parts = [rng.choice(["a", "bc", "jpg", "img_1", "2"]) for _ in range(rng.randint(1, 4))]
    k = rng.choice([-1, -1, 0, 1, 2, 3])
    path = os.path.join(rng.choice(["", "x", "x.y", "/x/y.z"]), ".".join(parts))
    kw = {} if k == -1 and rng.random() < 0.5 else {"extensions": True if k == -1 else k}
    out, err = attempt(helpers.strip_path, path, **kw)
    return {"op": "strip", "parts": parts, "k": k, "got": [] if err else out.split("."), "err": err, "same": 1}


def replay(rng, b):
    if b["a"]:
        a, m = b["a"], b["m"]
        ev = [filters(rng, [list(v) for v in a], m)]
        if all(all(v) for v in m):
            ev += surface(rng, a)
    else:
        ev = distributions(rng, b["s"], b["t"])
    return {"kf": "", "ev": ev}


def anything(rng):
    ev = [filters(rng) for _ in range(3)] + surface(rng) + distributions(rng)
    ev += [lists(rng) for _ in range(3)] + [names(rng)]
    return {"kf": "", "ev": ev}


def run(c):
    rng = random.Random(c.seed)
    big = c.thorough
    cfg = "SPECIFICATION Spec\nINVARIANTS Largest Within Kept Blind Order Identity Emit\nPROPERTIES Fewer\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = 4\n"
    states = c.behaviours_of("FiltersMC", cfg, workers=8)
    hist = [replay(rng, b) for b in states if big or rng.random() < 0.25]
    c.judge("FiltersTrace", hist, "behaviours")
    c.judge("FiltersTrace", [anything(rng) for _ in range(9000 if big else 900)], "any")


sys.exit(main("C26", run))
