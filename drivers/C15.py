"""C15: Camera optimization edits exactly the requested parameters, or none."""
import contextlib
import datetime
import io
import random
import sys

import lmfit
import matplotlib.pyplot
import numpy as np
import scipy.sparse
import vlib
from vlib import NONE, PINF, attempt, main, q, qi, qm

from glimpse import Camera, Image, Observer
from glimpse.optimize import Cameras, Lines, Matches, ObserverCameras, Points, RotationMatchesXYZ

# Below all other numbers
NINF = -PINF
U, UD = 64, 80000
UU = U * U
START = {"xyz": 0, "viewdir": 3, "imgsz": 6, "f": 8, "c": 10, "k": 12, "p": 18}
SIZE = {"xyz": 3, "viewdir": 3, "imgsz": 2, "f": 2, "c": 2, "k": 6, "p": 2}
UNITS = np.array([U] * 12 + [UD] * 8)


def enc(v, code=q):
    return [code(x, int(u)) for x, u in zip(v, UNITS)]


def enc_at(values, slots, code=q):
    codes = [code(x, int(UNITS[p - 1])) for x, p in zip(values, slots)]
    return [NINF if x == vlib.NINF else x for x in codes]


class Flaw:
    """Control that fails once its fuse is burnt."""

    fuse = None
    blown = 0

    def predicted(self, *args, **kwargs):
        if self.fuse is not None:
            if self.fuse <= 0:
                self.blown = 1
                raise RuntimeError("fuse")
            self.fuse -= 1
        return super().predicted(*args, **kwargs)


class Flaky(Flaw, Points):
    pass


class FlakyMatches(Flaw, RotationMatchesXYZ):
    pass


def quietly(fn, *args, **kwargs):
    with contextlib.redirect_stdout(io.StringIO()):
        return attempt(fn, *args, **kwargs)


def R(attr, idx, lo=(), hi=()):
    return {"attr": attr, "idx": list(idx), "min": list(lo), "max": list(hi)}


def py_bound(rng, b, unit):
    one = {NONE: rng.choice([None, float("nan")]), PINF: float("inf"), NINF: -float("inf")}
    v = [one[x] if x in one else x / unit for x in b]
    return v[0] if len(v) == 1 and rng.random() < 0.6 else rng.choice([list, tuple])(v)


def py_params(rng, sel):
    """As given by a user."""
    out = {}
    for r in sel:
        n = SIZE[r["attr"]]
        idx = r["idx"]
        if not idx:
            s = rng.choice([False, []])
        elif idx == list(range(n)) and rng.random() < 0.6:
            s = True
        elif len(idx) == 1 and rng.random() < 0.7:
            s = idx[0]
        else:
            s = list(idx) if rng.random() < 0.7 else np.array(idx).tolist()
        if r["min"] or r["max"]:
            unit = int(UNITS[START[r["attr"]]])
            lo = py_bound(rng, r["min"] or [NONE], unit)
            hi = py_bound(rng, r["max"] or [NONE], unit)
            s = (s, lo, hi)
        out[r["attr"]] = s
    return out


def mask(sel):
    return sorted({START[r["attr"]] + (i if i >= 0 else i + SIZE[r["attr"]]) + 1 for r in sel for i in r["idx"]})


def slots(m):
    return [p for s in m["groupsel"] for p in mask(s)] + [p for s in m["camsel"] for p in mask(s)]


class Session:
    """One optimization problem: cameras, control, and what is asked of them."""

    def __init__(self, rng, m, vectors, others, ctrls, w=(), forms=True):
        self.rng, self.m, self.ctrls, self.w = rng, m, ctrls, list(w)
        self.cams = [self.camera(v) for v in vectors]
        self.others = [self.camera(v) for v in others]
        self.controls = [self.control(c) for c in ctrls]
        self.first = {"cams": self.vecs(), "others": self.ovecs()}
        self.ev = []
        args = {}
        cp = [py_params(rng, s) for s in m["camsel"]]
        gp = [py_params(rng, s) for s in m["groupsel"]]
        gi = [[i - 1 for i in g] for g in m["groups"]]
        if any(cp) or rng.random() < 0.5:
            args["cam_params"] = cp[0] if len(cp) == 1 and rng.random() < 0.5 else cp
        if gi != [list(range(len(self.cams)))] or rng.random() < 0.5:
            args["group_indices"] = gi[0] if len(gi) == 1 and rng.random() < 0.5 else gi
        if any(gp) or rng.random() < 0.5:
            args["group_params"] = gp[0] if len(gp) == 1 and rng.random() < 0.5 else gp
        if self.w:
            args["weights"] = rng.choice([list, np.array])(self.w)
        if rng.random() < 0.15:
            args["scales"] = False
        if rng.random() < 0.15:
            args["sparsity"] = False
        self.parse(m, cp, gp)
        cams = self.cams[0] if len(self.cams) == 1 and rng.random() < 0.5 else list(self.cams)
        ctr = self.controls[0] if len(self.controls) == 1 and rng.random() < 0.5 else list(self.controls)
        self.model, err = attempt(Cameras, cams, ctr, **args)
        count = 0 if err else q(self.model.size)
        self.ev.append({"op": "new", "values": [], "err": err, "count": count})
        self.start = len(self.ev)
        self.ok = not err

    def parse(self, m, cp, gp):
        """Of any one request, without bounds by default."""
        k = self.rng.randrange(len(cp) + len(gp))
        (on, bounds), err = attempt(Cameras.parse_params, (cp + gp)[k])[0] or (None, None), ""
        self.ev.append({"op": "parse", "values": [], "sel": (m["camsel"] + m["groupsel"])[k],
                        "mask": [] if on is None else [i + 1 for i in np.flatnonzero(on).tolist()],
                        "min": [] if on is None else enc_at(bounds[:, 0], range(1, 21)),
                        "max": [] if on is None else enc_at(bounds[:, 1], range(1, 21))})

    def camera(self, v):
        v = np.array(v) / UNITS
        return Camera(xyz=v[0:3], viewdir=v[3:6], imgsz=[int(x) for x in v[6:8]], f=v[8:10], c=v[10:12], k=v[12:18], p=v[18:20])

    def cam(self, i):
        return self.cams[i - 1] if i > 0 else self.others[-i - 1]

    def control(self, c):
        uv = np.array(c["uv"]) / UU
        a = self.cam(c["cams"][0])
        if c["kind"] == "points":
            return Flaky(a, uv, np.array(c["xyz"]) / U)
        if c["kind"] == "lines":
            lines = sorted({(x[1], x[2]) for x in c["xyz"]})
            xyzs = [np.array([(-500, y / U, z / U), (500, y / U, z / U)]) for y, z in lines]
            k = self.rng.randint(1, len(uv))
            return Lines(a, [p for p in (uv[:k], uv[k:]) if len(p)], xyzs, density=2)
        return Matches([a, self.cam(c["cams"][1])], [uv, np.array(c["uv2"]) / UU])

    def vecs(self):
        return [enc(c.to_array()) for c in self.cams]

    def ovecs(self):
        return [enc(c.to_array()) for c in self.others]

    def note(self, op, err="", values=(), **kw):
        self.ev.append({"op": op, "values": list(values), "err": err, "cams": self.vecs(), "others": self.ovecs(), **kw})

    # ---- What is asked ----

    def values(self, v):
        """As given by a user."""
        x = [a / UNITS[p - 1] for a, p in zip(v, slots(self.m))]
        k = self.rng.randrange(3)
        if k == 0 and len(x) == len(self.model.params):
            ps = lmfit.Parameters()
            for name, a in zip(self.model.params, x):
                ps.add(name=name, value=a)
            return ps
        return list(x) if k == 1 else np.array(x)

    def params(self):
        s = slots(self.m)
        ps = list(self.model.params.values())
        scales, scaled = [], 1
        if self.model.scales is not None and len(self.ev) == self.start:
            # (as of construction)
            scales = [q(x, U) for x in self.model.scales]
            own = np.array([Cameras.camera_scales(c, self.model.controls) for c in self.cams])
            want = [np.mean([own[i - 1][p - 1] for i in g]) for g, t in zip(self.m["groups"], self.m["groupsel"]) for p in mask(t)]
            want += [own[i][p - 1] for i, t in enumerate(self.m["camsel"]) for p in mask(t)]
            scaled = int(np.allclose(self.model.scales, want) and np.all(np.isfinite(want)) and np.all(np.array(want) > 0)) if len(want) else 1
        pattern = []
        if self.model.sparsity is not None and len(s):
            S = self.model.sparsity.toarray()
            rows = 0
            for c in self.model.controls:
                pattern.append([int(x) for x in (S[rows:rows + 2 * c.size] != 0).all(axis=0)])
                rows += 2 * c.size
            if S.shape != (rows, len(s)):
                pattern = [[9] * len(s) for _ in pattern]
        self.note("params", init=enc_at([p.value for p in ps], s), min=enc_at([p.min for p in ps], s),
                  max=enc_at([p.max for p in ps], s), scales=scales, scaled=scaled, pattern=pattern)

    def set(self, v, save):
        kw = {"save": bool(save)} if save or self.rng.random() < 0.3 else {}
        given = self.values(v)
        _, err = attempt(self.model.set_cameras, given, **kw)
        if not err and isinstance(given, (list, np.ndarray)):
            # The values given are the user's to change
            for i in range(len(given)):
                given[i] = -55
        self.note("set", err, v, save=save)

    def reset(self):
        _, err = attempt(self.model.reset_cameras)
        self.note("reset", err)

    def update(self):
        _, err = attempt(self.model.update_params)
        self.note("update", err)

    def edit(self, i, changes):
        new = self.vecs()
        for pos, x in changes:
            new[i - 1][pos - 1] = x
            attr = [a for a in START if START[a] < pos][-1]
            getattr(self.cams[i - 1], attr)[pos - 1 - START[attr]] = x / UNITS[pos - 1]
        self.note("edit", "", new=new)

    def index(self, n, rng=None):
        rng = rng or self.rng
        k = rng.randrange(5)
        if k < 2:
            return None, list(range(n))
        if k == 2:
            s = slice(rng.randrange(n), None, rng.choice([None, 2]))
            return s, list(range(n))[s]
        idx = rng.sample(range(n), rng.randint(1, n))
        return (idx if k == 3 else np.array(idx)), idx

    def look(self, v=None):
        n = sum(len(c["uv"]) for c in self.used())
        s, idx = self.index(n)
        kw = {} if s is None else {"index": s}
        pk = {} if v is None else {"params": self.values(v)}
        res, err = attempt(self.model.residuals, **pk, **kw)
        obs = pre = ers = None
        if not err:
            obs, err = attempt(self.model.observed, **kw)
        if not err:
            pre, err = attempt(self.model.predicted, **pk, **kw)
        if not err:
            ers, err = attempt(self.model.errors, **pk, **kw)
        d = {"observed": [], "predicted": [], "residuals": [], "errors": 0}
        if not err:
            d = {"observed": qm(obs, UU), "predicted": qm(pre, UU), "residuals": qm(res, UU),
                 "errors": int(np.allclose(ers, np.hypot(res[:, 0], res[:, 1])) and ers.shape == (len(res),))}
        self.note("look", err, v or [], index=[i + 1 for i in idx], **d)

    def used(self):
        return [c for c in self.ctrls if any(i > 0 for i in c["cams"])]

    def fail(self, v):
        """Fail during prediction."""
        rng = self.rng
        flaky = [c for c, s in zip(self.controls, self.ctrls) if isinstance(c, Flaky) and s["cams"][0] > 0]
        if not flaky or not slots(self.m):
            return
        f = rng.choice(flaky)
        k = rng.randrange(6)
        f.fuse, f.blown = (0 if k < 3 else rng.randrange(8)), 0
        full = [slots_all(s) for s in self.m["camsel"]]
        if k < 3:
            fn = getattr(self.model, ["predicted", "residuals", "errors"][k])
            _, err = quietly(fn, params=self.values(v))
        elif k == 3:
            _, err = quietly(self.model.fit, max_nfev=40)
        else:
            _, err = quietly(self.model.fit, cam_params=[full] * rng.randint(1, 2), max_nfev=30)
        f.fuse = None
        if f.blown:
            self.note("fail", err)
        else:
            self.note("draw", "")

    def draw(self, v):
        n = len(self.cams)
        kw = {}
        if v and self.rng.random() < 0.7:
            kw["params"] = self.values(v)
        on = [i for i in range(n) if any(i + 1 in c["cams"] for c in self.ctrls)]
        i = self.rng.choice(on)
        _, err = attempt(self.model.plot, cam=self.rng.choice([i, self.cams[i]]), **kw)
        matplotlib.pyplot.close("all")
        self.note("draw", err)

    def fit(self, method, idx, iterations=(), unfinished=False, full=False):
        rng = self.rng
        n = sum(len(c["uv"]) for c in self.used())
        kw = {"method": method}
        if idx is None:
            ids = list(range(n))
        else:
            kw["index"] = rng.choice([list, np.array])(idx)
            ids = idx
        before = [c.to_array() for c in self.cams]
        via = []
        gi = [[i - 1 for i in g] for g in self.m["groups"]]
        for camsel, groupsel in iterations:
            mm = {"built": self.vecs(), "camsel": camsel, "groups": self.m["groups"], "groupsel": groupsel}
            one, err = attempt(Cameras, self.cams, self.controls, [py_params(rng, s) for s in camsel], gi,
                               [py_params(rng, s) for s in groupsel], self.w or None)
            v, err = quietly(one.fit, **kw)
            if not err and v is not None:
                one.set_cameras(v)
                values = enc_at(v, slots(mm), qi)
                via.append({"m": mm, "values": values, "cams": [enc(c.to_array(), qi) for c in self.cams]})
        chained = []
        if iterations:
            one, err = attempt(Cameras, self.cams, self.controls, [py_params(rng, s) for s in self.m["camsel"]], gi,
                               [py_params(rng, s) for s in self.m["groupsel"]], self.w or None)
            v, err = quietly(one.fit, **kw)
            chained = [] if v is None or err else enc_at(v, slots(self.m), qi)
        for c, b in zip(self.cams, before):
            for a in START:
                if a != "imgsz":
                    setattr(c, a, b[START[a]:START[a] + SIZE[a]])
        if iterations:
            cs = [[py_params(rng, s) for s in c] for c, _ in iterations]
            gs = [[py_params(rng, s) for s in g] for _, g in iterations]
            if any(any(x) for x in cs) or not any(any(x) for x in gs):
                kw["cam_params"] = cs
            if any(any(x) for x in gs):
                kw["group_params"] = gs
        if unfinished:
            kw["max_nfev"] = 1
        if full:
            kw["full"] = True
        v, err = quietly(self.model.fit, **kw)
        reproduced = 0
        if full and not err:
            r = v
            v = np.array(list(r.params.valuesdict().values()))
            if not iterations:
                again, e2 = attempt(self.model.residuals, params=v, index=ids)
                reproduced = int(not e2 and np.allclose(np.ravel(again), np.ravel(r.residual), atol=1e-9))
            else:
                reproduced = 1
        values = [] if v is None or err else enc_at(v, slots(self.m), qi)
        if unfinished and full:
            unfinished = False
        self.note("fit", err, values, index=[i + 1 for i in ids], via=via, chained=chained, exact=1, unfinished=int(unfinished), full=int(full),
                  reproduced=reproduced)

    def history(self):
        built = self.first["cams"]
        return {"kf": "", "m": {"built": built, **{k: self.m[k] for k in ("camsel", "groups", "groupsel")}},
                "cams": built, "others": self.first["others"], "ctrls": self.ctrls, "w": self.w, "ev": self.ev}


def slots_all(sel):
    return {"viewdir": True} if sel else {}


# ---- Problems ----


def vector(rng, f=None, xyz=(0, 0, 0), viewdir=(0, 0, 0), imgsz=None, c=None, dist=False):
    f = f or [rng.choice([8, 16, 24, 32, 40]) for _ in range(2)]
    imgsz = imgsz or [rng.choice([32, 64, 40]), rng.choice([32, 64, 50])]
    c = c or [rng.randint(-6, 6) / 2 for _ in range(2)]
    v = [x * U for x in (*xyz, *viewdir, *imgsz, *f, *c)]
    v += [rng.randint(-100, 100) if dist else 0 for _ in range(8)]
    return [int(x) for x in v]


def points(rng, i, n=None, y=8):
    n = n or rng.randint(1, 4)
    r = lambda: rng.randint(-6, 6) * U // 2  # noqa
    return {"kind": "points", "cams": [i], "uv": [[rng.randint(0, 64) * UU // 2, rng.randint(0, 64) * UU // 4] for _ in range(n)],
            "uv2": [], "xyz": [[r(), y * U, r()] for _ in range(n)]}


def lines(rng, i, y=8):
    n = rng.randint(1, 4)
    z = rng.randint(-3, 3) * U // 2
    return {"kind": "lines", "cams": [i], "uv": [[rng.randint(1, 31) * UU, rng.randint(0, 64) * UU // 4] for _ in range(n)],
            "uv2": [], "xyz": [[0, y * U, z] for _ in range(n)]}


def matches(rng, i, j):
    n = rng.randint(1, 4)
    uv = lambda: [[rng.randint(0, 64) * UU // 2, rng.randint(0, 64) * UU // 2] for _ in range(n)]  # noqa
    return {"kind": "matches", "cams": [i, j], "uv": uv(), "uv2": uv(), "xyz": []}


def weights(rng, n):
    """Of mean 1, 2, or 4."""
    m = rng.choice([1, 2, 4])
    w = [m] * n
    for a in range(0, n - 1, 2):
        d = rng.randint(0, m - 1) if m > 1 else 0
        w[a] += d
        w[a + 1] -= d
    return w


def selection(rng, attrs, bounded=0.3):
    sel = []
    for a in rng.sample(attrs, rng.choice([0, 1, 1, 2, 3]) if len(attrs) > 2 else rng.randint(0, len(attrs))):
        n = SIZE[a]
        idx = rng.choice([list(range(n)), [rng.randrange(n)], rng.sample(range(n), rng.randint(1, n)), [-rng.randint(1, n)], []])
        lo = hi = []
        if rng.random() < bounded:
            b = lambda s: rng.choice([NONE, NONE, s * PINF, s * rng.randint(4, 90) * 64])  # noqa
            m = len(idx) if rng.random() < 0.4 and idx else 1
            lo, hi = [b(-1) for _ in range(m)], [b(1) for _ in range(m)]
            if rng.random() < 0.3:
                lo = [NONE]
        sel.append(R(a, idx, lo, hi))
    return sel


def grouping(rng, n):
    k = rng.randrange(4)
    if k < 2 or n == 1:
        return [list(range(1, n + 1))]
    if k == 2:
        cut = rng.randint(1, n - 1)
        return [list(range(1, cut + 1)), list(range(cut + 1, n + 1))]
    return [sorted(rng.sample(range(1, n + 1), rng.randint(1, n))) for _ in range(2)]


def anything(rng):
    """Any request: parameters, values, and the state of cameras."""
    n = rng.randint(1, 3)
    same = rng.random() < 0.7
    imgsz = [rng.choice([32, 64]), rng.choice([32, 50])]
    attrs = list(START)
    vectors = [vector(rng, xyz=[rng.randint(-4, 4) for _ in range(3)], viewdir=[rng.randint(-20, 20) for _ in range(3)],
                      imgsz=imgsz if same else None, dist=rng.random() < 0.5) for _ in range(n)]
    groups = grouping(rng, n)
    m = {"camsel": [selection(rng, attrs) for _ in range(n)], "groups": groups,
         "groupsel": [selection(rng, rng.choice([attrs, ["viewdir", "f"], []])) for _ in groups]}
    if rng.random() < 0.08:
        # Not a position of the attribute
        a = rng.choice(attrs)
        m["camsel"][0] = [R(a, [rng.choice([SIZE[a], -SIZE[a] - 1])])]
    ctrls = [points(rng, i + 1) for i in range(n) if rng.random() < 0.95]
    if rng.random() < 0.4:
        ctrls.insert(rng.randint(0, len(ctrls)), points(rng, rng.choice([-1, 1])))
    if not ctrls:
        ctrls = [points(rng, -1)]
    total = sum(len(c["uv"]) for c in ctrls if c["cams"][0] > 0)
    s = Session(rng, m, vectors, [vector(rng)], ctrls, weights(rng, total) if rng.random() < 0.2 and total else [])
    if s.ok:
        s.params()
        vals = lambda: [rng.randint(1, 60) * U if 7 <= p <= 10 else rng.randint(1, 4000) for p in slots(m)]  # noqa
        for _ in range(rng.randint(2, 6)):
            k = rng.randrange(9)
            if k < 3:
                s.set(vals(), int(rng.random() < 0.3))
            elif k == 3:
                s.reset()
            elif k == 4:
                s.update()
                s.params()
            elif k == 5:
                pos = rng.sample([1, 2, 3, 4, 5, 6, 11, 12, 13, 19], rng.randint(1, 3))
                s.edit(rng.randint(1, n), [(p, rng.randint(-50, 50)) for p in pos])
            elif k < 8:
                s.fail(vals())
            elif rng.random() < 0.15:
                s.draw(vals())
    return s.history()


def looking(rng):
    """Predictions, at any parameter values."""
    n = rng.randint(1, 3)
    imgsz = [rng.choice([32, 64]), rng.choice([32, 50])]
    kinds = rng.choice([["points"], ["points", "matches"], ["points", "lines"], ["matches"], ["points", "points", "lines"]])
    fs = [8, 16, 32] if "matches" in kinds else [8, 16, 24, 40]
    square = "lines" in kinds
    f = lambda: [rng.choice(fs)] * 2 if square else [rng.choice(fs) for _ in range(2)]  # noqa
    move = "matches" not in kinds
    vectors = [vector(rng, f=f(), imgsz=imgsz) for _ in range(n)]
    attrs = ["f", "c", "imgsz"] + (["xyz"] if move else [])
    if square:
        attrs = ["c"] + (["xyz"] if move else [])
    groups = grouping(rng, n)
    if len(groups) > 1 and set(groups[0]) & set(groups[1]):
        groups = [list(range(1, n + 1))]
    m = {"camsel": [selection(rng, attrs, 0) for _ in range(n)], "groups": groups,
         "groupsel": [selection(rng, attrs, 0) if rng.random() < 0.7 else [] for _ in groups]}
    ctrls = []
    for i in range(n):
        ctrls.append(points(rng, i + 1))
        if "lines" in kinds and rng.random() < 0.6:
            ctrls.append(lines(rng, i + 1))
        if "matches" in kinds:
            ctrls.append(matches(rng, i + 1, rng.choice([j + 1 for j in range(n) if j != i] + [-1])))
            if rng.random() < 0.3:
                ctrls.append(matches(rng, -1, i + 1))
    if rng.random() < 0.4:
        ctrls.append(points(rng, -1))
    if rng.random() < 0.2:
        m["camsel"] = m["camsel"][:1] + [[] for _ in range(n - 1)]
        m["groupsel"] = [[] for _ in groups]
        ctrls = [lines(rng, 1) if square else points(rng, 1)]
    rng.shuffle(ctrls)
    total = sum(len(c["uv"]) for c in ctrls if max(c["cams"]) > 0)
    s = Session(rng, m, vectors, [vector(rng, f=f())], ctrls, weights(rng, total) if rng.random() < 0.5 else [])

    def one(p):
        if p == 2:
            return rng.choice([4, 6, 7]) * U
        if p in (1, 3):
            return rng.randint(-4, 4) * U // 2
        if p in (7, 8):
            return rng.randint(20, 70) * U
        if p in (9, 10):
            return rng.choice(fs) * U
        return rng.randint(-8, 8) * U // 2
    if s.ok:
        s.params()
        for _ in range(rng.randint(2, 6)):
            k = rng.randrange(8)
            v = [one(p) for p in slots(m)]
            if k < 4:
                s.look(v)
            elif k == 4:
                s.look()
            elif k == 5:
                s.set(v, rng.randrange(2))
            elif k == 6:
                s.reset()
            else:
                s.fail(v)
    return s.history()


def triples(rng, i, truth, k, exact, y=1):
    """Control in triples, whose errors cancel."""
    c = {"kind": "points", "cams": [i], "uv": [], "uv2": [], "xyz": []}
    cells = [(a, b) for a in range(-3, 4) for b in range(-3, 4)]
    rng.shuffle(cells)
    while cells[k - 2][1] == cells[k - 1][1]:
        rng.shuffle(cells)
    for x0, z in cells[:k]:
        w = rng.randint(1, 2)
        e = [0, 0] if exact else [rng.randint(-3, 3) / 4 for _ in range(2)]
        for d, g in zip((-w, 0, w), (1, -2, 1)):
            x = x0 + d
            uv = [truth["f"][0] * x / y + truth["c"][0] + truth["imgsz"][0] / 2 + g * e[0],
                  -truth["f"][1] * z / y + truth["c"][1] + truth["imgsz"][1] / 2 + g * e[1]]
            c["uv"].append([int(a * UU) for a in uv])
            c["xyz"].append([x * U, y * U, z * U])
    return c


def fitting(rng):
    """Fits with a single known solution."""
    n = rng.randint(1, 3)
    imgsz = [rng.choice([32, 64]), rng.choice([32, 50])]
    exact = rng.random() < 0.5
    how = rng.choice(["cf", "cf", "c", "viewdir", "bound"])
    groups = rng.choice([[list(range(1, n + 1))], [[i + 1] for i in range(n)]])
    rt = lambda: {"f": [rng.randint(16, 40) for _ in range(2)], "c": [rng.randint(-6, 6) / 2 for _ in range(2)], "imgsz": imgsz}  # noqa
    truth = [rt() for _ in range(n)]
    camsel, groupsel = [[] for _ in range(n)], [[] for _ in groups]
    start = [dict(t) for t in truth]
    viewdir = [[0, 0, 0] for _ in range(n)]
    pick = lambda a: R(a, rng.choice([[0, 1], [0, 1], [1, 0]]))  # noqa
    if how == "viewdir":
        exact = True
        for i in range(n):
            viewdir[i] = [rng.randint(-3, 3) for _ in range(3)]
        if rng.random() < 0.4:
            viewdir = [viewdir[0]] * n
            groups, groupsel = [list(range(1, n + 1))], [[R("viewdir", [0, 1, 2])]]
        else:
            camsel = [[R("viewdir", [0, 1, 2])] for _ in range(n)]
    else:
        for a in (["c", "f"] if how == "cf" else ["c"]):
            grouped = rng.random() < 0.4
            if grouped:
                for g, idx in enumerate(groups):
                    for i in idx:
                        truth[i - 1][a] = truth[idx[0] - 1][a]
                    groupsel[g].append(pick(a))
            for i in range(n):
                if not grouped and (rng.random() < 0.8 or n == 1):
                    camsel[i].append(pick(a))
                    start[i][a] = [x + rng.choice([-4, -1, 1, 5]) for x in truth[i][a]]
                elif grouped:
                    start[i][a] = [x + rng.choice([-4, -1, 1, 5]) for x in truth[i][a]]
                else:
                    start[i][a] = list(truth[i][a])
        if how == "bound":
            for s in camsel + groupsel:
                for r in s:
                    r["idx"] = [0]
                    # (initially within)
                    now, d = [x["c"][0] for x in start], rng.choice([1, 2, 4, 8]) / 2
                    r["min"], r["max"] = rng.choice([([-15 * U], [int((max(now) + d) * U)]), ([int((min(now) - d) * U)], [15 * U])])
            # Of the first only
            for t, s in zip(truth, start):
                s["c"] = [s["c"][0], t["c"][1]]
    vectors = [vector(rng, f=s["f"], c=s["c"], imgsz=imgsz, viewdir=v) for s, v in zip(start, viewdir)]
    ctrls, ws = [], []
    order = [i + 1 for i in range(n)] + ([rng.randint(1, n)] if rng.random() < 0.4 else [])
    rng.shuffle(order)
    for i in order:
        k = rng.randint(3, 4)
        ctrls.append(triples(rng, i, truth[i - 1], k, exact))
        if rng.random() < 0.2:
            ctrls.append(points(rng, -1, 2))
    total = sum(len(c["uv"]) for c in ctrls if c["cams"][0] > 0)
    if rng.random() < 0.5:
        t = [a for w in weights(rng, total // 3) for a in (w,) * 3]
        ws = t
    idx = None
    if rng.random() < 0.4:
        # Without outliers, whole triples of the last, in any order
        drop, at = set(), 0
        for c in ctrls:
            if c["cams"][0] > 0:
                for b in range(0, len(c["uv"]) - 6, 3):
                    if rng.random() < 0.7:
                        drop |= set(range(at + b, at + b + 3))
                        for z in range(b, b + 3):
                            c["uv"][z] = [x + rng.randint(-9, 9) * UU for x in c["uv"][z]]
                at += len(c["uv"])
        idx = [x for x in range(total) if x not in drop]
        if rng.random() < 0.3:
            rng.shuffle(idx)
    m = {"camsel": camsel, "groups": groups, "groupsel": groupsel}
    s = Session(rng, m, vectors, [vector(rng)], ctrls, ws)
    if s.ok and slots(m):
        method = rng.choice(["least_squares", "least_squares", "leastsq"]) if how != "bound" else "least_squares"
        its = []
        if how == "cf" and rng.random() < 0.5:
            its = [(camsel, groupsel)] if rng.random() < 0.5 else [
                ([[r for r in t if r["attr"] == a] for t in camsel], [[r for r in t if r["attr"] == a] for t in groupsel]) for a in ("f", "c")]
            its = [x for x in its if slots({"camsel": x[0], "groupsel": x[1]})]
            if not exact or len(its) > 1:
                # Found exactly only if with all
                its = its[:1] if its and slots({"camsel": its[0][0], "groupsel": its[0][1]}) == slots(m) else []
        if rng.random() < 0.2:
            s.set([rng.randint(1, 9) * U if p > 8 else 0 for p in slots(m)], rng.randrange(2))
            if rng.random() < 0.5:
                s.reset()
            its = []
        s.fit(method, idx, its, full=rng.random() < 0.3)
        if rng.random() < 0.3:
            s.fit(method, idx, unfinished=True)
        if rng.random() < 0.3:
            s.fail([64] * len(slots(m)))
    return s.history()


def staged(rng):
    """Earlier iterations on which the final result depends."""
    imgsz = [32, 64]
    truth = {"f": [rng.randint(16, 40) for _ in range(2)], "c": [rng.randint(-6, 6) / 2 for _ in range(2)], "imgsz": imgsz}
    n = rng.randint(1, 2)
    start = [{"f": [x + rng.choice([-4, 3]) for x in truth["f"]], "c": [x + rng.choice([-4, 3]) for x in truth["c"]]} for _ in range(n)]
    exact = rng.random() < 0.4
    ctrls = [triples(rng, i + 1, truth, 3, exact) for i in range(n)]
    a = rng.choice("fc")
    groups = [list(range(1, n + 1))]
    both = [R("f", [0, 1]), R("c", [0, 1])]
    if rng.random() < 0.5:
        m = {"camsel": [[R(a, [0, 1])] for _ in range(n)], "groups": groups, "groupsel": [[]]}
        its = [([both for _ in range(n)], [[]])]
    else:
        m = {"camsel": [[] for _ in range(n)], "groups": groups, "groupsel": [[R(a, [0, 1])]]}
        its = [([[] for _ in range(n)], [both])]
    w, idx = [], None
    if not exact:
        for c in ctrls:
            c["uv"] = [[x + rng.randint(-2, 2) * UU // 2 for x in p] for p in c["uv"]]
        if rng.random() < 0.5:
            w = weights(rng, 9 * n)
        if rng.random() < 0.5:
            idx = sorted(rng.sample(range(9 * n), 7 * n))
        its = [([[r for r in t if r["attr"] == b] for t in its[0][0]], [[r for r in t if r["attr"] == b] for t in its[0][1]])
               for b in rng.choice(["fc", "cf", "c", "f"])]
    s = Session(rng, m, [vector(rng, f=t["f"], c=t["c"], imgsz=imgsz) for t in start], [vector(rng)], ctrls, w)
    s.fit(rng.choice(["least_squares", "leastsq"]), idx, its, full=rng.random() < 0.3)
    s.ev[-1]["exact"] = int(exact)
    s.params()
    if rng.random() < 0.5:
        s.look([U] * len(slots(m))) if a == "c" else s.reset()
    return s.history()


def orienting(rng):
    """Orient the cameras of an observer."""
    n = rng.randint(2, 4)
    base = [rng.randint(-40, 40), rng.randint(-20, 20), rng.randint(-5, 5)]
    truth = [[b + rng.randint(-3, 3) for b in base] for _ in range(n)]
    anchors = rng.choice([None, [0], [n - 1], sorted(rng.sample(range(n), 2))])
    cams = [Camera(imgsz=(100, 80), f=(90, 100), viewdir=t, xyz=(1, 2, 3)) for t in truth]
    images = [Image("none.tif", cam=c, datetime=datetime.datetime(2020, 1, 1 + i)) for i, c in enumerate(cams)]
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    use = [(i, i + 1) for i in range(n - 1)] + [p for p in pairs if p[1] > p[0] + 1 and rng.random() < 0.5]
    grid = np.zeros((n, n), dtype=object)
    seed = np.random.RandomState(rng.randrange(10 ** 6))
    for i, j in use:
        a, b = images[i].cam, images[j].cam
        uv = seed.uniform(20, 60, (12, 2))
        grid[i, j] = FlakyMatches(cams=[a, b], uvs=[uv, b.xyz_to_uv(a.uv_to_xyz(uv), directions=True)])
    matches = rng.choice([grid, scipy.sparse.coo_matrix(grid)])
    fixed = [0] if anchors is None else anchors
    for i, img in enumerate(images):
        if i not in fixed:
            img.cam.viewdir = [x + rng.choice([-1, 0, 1]) for x in truth[i]]
    obs = Observer(images)
    model = ObserverCameras(obs, matches=matches, **({} if anchors is None else {"anchors": anchors}))
    vec = lambda: [[q(x, U) for x in img.cam.viewdir] for img in images]  # noqa
    original = vec()
    if rng.random() < 0.5:
        # Other than originally
        for i, img in enumerate(images):
            img.cam.viewdir = [x + rng.choice([-1, 0, 1]) for x in truth[i]]
    before, expect = vec(), ""
    if rng.random() < 0.4:
        m = grid[rng.choice(use)]
        m.fuse = rng.randint(0, 8)
    r, err = quietly(model.fit)
    if any(grid[x].blown for x in use):
        expect = "RuntimeError"
    after = vec()
    result = [] if err else [[qi(x, U) for x in row] for row in r.x.reshape(-1, 3)]
    ev = {"op": "orient", "values": [], "err": err, "expect": expect, "before": before, "after": after, "original": original,
          "anchors": [i + 1 for i in fixed], "result": result, "truth": [[q(x, U) for x in t] for t in truth]}
    m = {"built": [], "camsel": [], "groups": [], "groupsel": []}
    return {"kf": "", "m": m, "cams": [], "others": [], "ctrls": [], "w": [], "ev": [ev]}


def replay(rng, b):
    """A behaviour of the model."""
    m = {k: b["m"][k] for k in ("camsel", "groups", "groupsel")}
    vectors = [[(100 * i + p) * U if p <= 6 else 32 * U if p <= 8 else (8 + 4 * i) * U if p <= 10 else i * U if p <= 12 else 0
                for p in range(1, 21)] for i in (1, 2)]
    s = Session(rng, m, vectors, [], [points(rng, 1), points(rng, 2)])
    if s.ok:
        s.params()
    for o in b["ops"] if s.ok else []:
        v = [(1000 * o["k"] + n + 1) * U for n in range(len(slots(m)))]
        v = [x * UD // U if p > 12 else x for x, p in zip(v, slots(m))]
        if o["op"] == "set":
            s.set(v, o["save"])
        elif o["op"] == "reset":
            s.reset()
        elif o["op"] == "update":
            s.update()
            s.params()
        elif o["op"] == "edit":
            s.edit(o["k"], [(4, 7 * U), (9, 5 * U)])
        else:
            _, err = attempt(s.model.predicted, params=s.values(v))
            s.note("draw", err)
    return s.history()


def run(c):
    rng = random.Random(c.seed)
    big = c.thorough
    scripts = c.behaviours_of(
        "CameraFitMC", "SPECIFICATION Spec\nINVARIANTS OnlyRequested ReadsBack Restores InBounds EachOnce Conflict Emit\n"
        f"CONSTANTS N = {4 if big else 2}\nCHECK_DEADLOCK FALSE\n", workers=8)
    rng.shuffle(scripts)
    k = 10 if big else 1
    hist = [replay(rng, b) for b in scripts[:600 * k]]
    c.judge("CameraFitTrace", hist, "behaviours")
    c.judge("CameraFitTrace", [anything(rng) for _ in range(500 * k)], "requests")
    c.judge("CameraFitTrace", [looking(rng) for _ in range(400 * k)], "predictions")
    c.judge("CameraFitTrace", [fitting(rng) for _ in range(160 * k)], "fits")
    c.judge("CameraFitTrace", [staged(rng) for _ in range(30 * k)], "iterations")
    c.judge("CameraFitTrace", [orienting(rng) for _ in range(30 * k)], "orientations")


sys.exit(main("C15", run))
