"""C16: Controls keep their point pairs aligned and scaled with their cameras."""
import random
import sys

import numpy as np
import vlib
from vlib import attempt, main, q, qi, qv

from glimpse import Camera
from glimpse.optimize import Lines, Matches, Points, RotationMatches, RotationMatchesXY, RotationMatchesXYZ

U = 64
KINDS = {k.__name__: k for k in (Points, Lines, Matches, RotationMatches, RotationMatchesXY, RotationMatchesXYZ)}
PAIRS = ["Matches", "RotationMatches", "RotationMatchesXY", "RotationMatchesXYZ"]
NORMALIZED = PAIRS[2:]


def rows(a):
    a = np.asarray(a)
    return [qv(r, U) for r in a] if a.ndim == 2 else [[vlib.BADSHAPE]]


class Session:
    """Cameras and their controls."""

    def __init__(self, rng, cams):
        self.rng = rng
        self.start = cams
        self.sizeable = True
        self.cams = [Camera(xyz=np.array(c["xyz"]) / U, viewdir=(0, 0, 90 * c["roll"]), imgsz=c["imgsz"],
                            f=np.array(c["f"]) / U, c=np.array(c["c"]) / U) for c in cams]
        self.ctrls, self.axes, self.kinds, self.on = [], [], [], []
        self.arrays, self.copies = [], []
        self.ev = []

    def given(self, a):
        a = np.array(a, dtype=float)
        self.arrays.append(a)
        self.copies.append(a.copy())
        k = self.rng.randrange(3)
        return a if k else [tuple(r) for r in a.tolist()] if a.ndim == 2 and len(a) else a

    def note(self, op, obj=0, err="", **kw):
        cams = [{"xyz": qv(c.xyz, U), "imgsz": qv(c.imgsz, 1), "f": qv(c.f, U), "c": qv(c.c, U), "roll": q(c.viewdir[2] / 90)} for c in self.cams]
        ctrls = []
        for c, k in zip(self.ctrls, self.kinds):
            uvs = [c.uv] if k in ("Points", "Lines") else c.uvs
            if k == "Lines" and not np.array_equal(np.concatenate(c.uvs), c.uv):
                uvs = [c.uv[:0]]
            w = getattr(c, "weights", None)
            ctrls.append({"kind": type(c).__name__, "uvs": [] if uvs is None else [rows(x) if len(x) else [] for x in uvs],
                          "has": int(w is not None), "w": [] if w is None else [q(x) for x in w], "size": q(c.size)})
        given = int(all(np.array_equal(a, b) for a, b in zip(self.arrays, self.copies)))
        self.ev.append({"op": op, "obj": obj, "err": err, "cams": cams, "ctrls": ctrls, "given": given, **kw})
        return not err

    def new(self, kind, on, uvs, w=None, xyz=(), axis=1, dir=0):
        pts = [np.array(x, dtype=float).reshape(-1, 2) / U for x in uvs]
        cams = [self.cams[i - 1] for i in on]
        if kind == "Points":
            args = (cams[0], self.given(pts[0]), self.given(np.array(xyz).reshape(-1, 3) / U))
            kw = {"directions": True} if dir else {}
        elif kind == "Lines":
            p = np.array(xyz) / U
            # (lines are only seen between vertices of which one is in view)
            along = np.concatenate(([-500], np.arange(-50, 50, 0.25), [500]))
            ends = [np.repeat(r[None], len(along), axis=0) for r in p]
            for e in ends:
                e[:, 2 if axis == 1 else 0] = along
            k = self.rng.randint(1, len(pts[0]))
            args = (cams[0], [self.given(x) for x in (pts[0][:k], pts[0][k:]) if len(x)], ends)
            kw = {"density": 2, "directions": bool(dir)}
        else:
            args = (cams if self.rng.random() < 0.6 else tuple(cams), [self.given(x) for x in pts])
            kw = {"weights": np.array(w, dtype=float)} if w is not None else {}
        ctrl, err = attempt(KINDS[kind], *args, **kw)
        if not err:
            self.ctrls.append(ctrl)
            self.kinds.append(kind)
            self.on.append(on)
        return self.note("new", len(self.ctrls), err, kind=kind, on=list(on), uvs=[[list(r) for r in x] for x in uvs], has=int(w is not None), w=list(w or []), dir=dir,
                         xyz=[list(r) for r in xyz], axis=axis)

    def sized(self, cams, num):
        """Arguments of a resize of cameras to multiples of half their original size."""
        rng = self.rng
        sizes = {tuple(x * n // 2 for x, n in zip(self.start[i - 1]["imgsz"], num)) for i in cams}
        kw = {"force": True} if num[0] != num[1] else {}
        if kw or (len(sizes) == 1 and rng.random() < 0.3):
            return rng.choice([list, tuple, np.array])(sizes.pop()), kw
        f = num[0] / 2
        return f if f % 1 or rng.random() < 0.5 else int(f), kw

    def camera(self, cam, num):
        size, kw = self.sized([cam], num)
        _, err = attempt(self.cams[cam - 1].resize, size, **kw)
        self.note("camera", 0, err, cam=cam, num=list(num), den=2)

    def edit(self, cam, attr, v):
        c = self.cams[cam - 1]
        if attr == "roll":
            c.viewdir = (0, 0, 90 * v)
        elif attr == "imgsz":
            c.imgsz = v
        elif self.rng.random() < 0.5:
            setattr(c, attr, np.array(v) / U)
        else:
            getattr(c, attr)[:] = np.array(v) / U
        self.note("edit", 0, "", cam=cam, attr=attr, v=v)

    def resize(self, obj, num):
        on = self.on[obj - 1]
        if num[0] != num[1] and len({tuple(self.start[i - 1]["imgsz"]) for i in on}) > 1:
            num = [num[0]] * 2
        size, kw = self.sized(on, num)
        _, err = attempt(self.ctrls[obj - 1].resize, size, **kw)
        self.note("resize", obj, err, num=list(num), den=2)

    def follow(self, obj):
        _, err = attempt(self.ctrls[obj - 1].resize)
        self.note("follow", obj, err)

    def side(self, obj, side):
        return side - 1 if self.rng.random() < 0.5 else self.ctrls[obj - 1].cams[side - 1]

    def filter(self, obj, best=0, least=0, error=0, distance=0, scaled=0, side=1):
        kw = {}
        for name, x in (("n_best", best), ("min_weight", least)):
            if x:
                kw[name] = x
        for name, x in (("max_error", error), ("max_distance", distance)):
            if x:
                kw[name] = x / U
        if scaled:
            kw["scaled"] = True
        if side == 2 or self.rng.random() < 0.5:
            kw["cam"] = self.side(obj, side)
        _, err = attempt(self.ctrls[obj - 1].filter, **kw)
        self.note("filter", obj, err, best=best, least=least, error=error, distance=distance, scaled=scaled, side=side)

    def convert(self, obj, kind):
        m, err = attempt(self.ctrls[obj - 1].to_type, KINDS[kind])
        if not err and m is not self.ctrls[obj - 1]:
            self.ctrls.append(m)
            self.kinds.append(kind)
            self.on.append(self.on[obj - 1])
        self.note("convert", obj, err, kind=kind)

    def clear(self, obj):
        self.ctrls[obj - 1].uvs = None
        self.note("clear", obj)

    def look(self, obj, side=1):
        rng = self.rng
        c, kind = self.ctrls[obj - 1], self.kinds[obj - 1]
        n = c.size
        if rng.random() < 0.4 or not n:
            index, kw = list(range(n)), {} if rng.random() < 0.5 else {"index": slice(None)}
        else:
            k = rng.randrange(4)
            if k == 0:
                a, b, s = rng.randrange(n), rng.randint(1, n), rng.choice([1, 2, -1])
                index, kw = list(range(n))[a:b:s], {"index": slice(a, b, s)}
            elif k == 1:
                mask = np.array([rng.random() < 0.5 for _ in range(n)])
                index, kw = np.flatnonzero(mask).tolist(), {"index": mask}
            else:
                index = [rng.randrange(n) for _ in range(rng.randint(1, n))]
                kw = {"index": index if k == 2 else np.array(index)}
        if kind == "Lines" and not index:
            index, kw = list(range(n)), {}
        if kind in PAIRS:
            kw["cam"] = self.side(obj, side)
            if side == 1 and rng.random() < 0.3:
                del kw["cam"]
        p, err = attempt(c.predicted, **kw)
        o = None
        if not err and kind != "RotationMatchesXYZ":
            o, err = attempt(c.observed, **kw)
        observed = [] if o is None or err else rows(o)
        if err:
            predicted = []
        elif kind == "RotationMatchesXYZ":
            ok = p.ndim == 2 and np.allclose(np.linalg.norm(p, axis=1), 1)
            predicted = [[q(x / y, U), q(-z / y, U)] for x, y, z in p] if ok else [[vlib.BADSHAPE]]
        elif kind == "Lines":
            predicted = [[qi(x, U) for x in r] for r in p]
        else:
            predicted = rows(p)
        self.note("look", obj, err, side=side, index=[i + 1 for i in index], observed=observed, predicted=predicted)

    def history(self):
        return {"kf": "", "cams": self.start, "ev": self.ev}


# ---- Inputs ----

def px(rng, n):
    """Half pixels of an image n pixels wide."""
    return rng.randrange(2 * n + 1) * U // 2


def camera(rng, xyz):
    return {"xyz": xyz, "imgsz": rng.choice([[32, 16], [64, 32], [32, 32], [16, 64]]), "roll": rng.choice([0, 0, 1, 2, 3]),
            "f": [rng.choice([8, 16]) * U for _ in "uv"] if rng.random() < 0.6 else [16 * U] * 2,
            "c": [rng.choice([0, 0, 1, -2, 3]) * U // 2 for _ in "uv"]}


def cameras(rng, n):
    xyz = [rng.randint(-2, 2) * U for _ in range(3)]
    cams = [camera(rng, list(xyz)) for _ in range(n)]
    for c in cams:
        c["orig"] = c["imgsz"]
    return cams


def image_points(rng, cam, n):
    return [[px(rng, cam["imgsz"][a]) for a in (0, 1)] for _ in range(n)]


def factor(rng):
    if rng.random() < 0.2:
        return [rng.choice([1, 2, 4]) for _ in "uv"]
    return [rng.choice([1, 1, 2, 4])] * 2


def change(rng, s, i):
    """Edit of camera i (in place of what it was)."""
    c, first = s.cams[i - 1], s.start[i - 1]
    scale = c.imgsz / first["imgsz"]
    attr = rng.choice(["xyz", "f", "c", "roll", "roll", "imgsz"])
    if attr == "xyz":
        v = list(first["xyz"])
        if rng.random() < 0.5:
            v[rng.choice([0, 2])] += rng.choice([-1, 1]) * 2 * U
    elif attr == "roll":
        v = rng.randrange(4)
    elif attr == "imgsz":
        # (resized no more, as this no longer is the size its parameters refer to)
        v, s.sizeable = [int(x) * 2 for x in c.imgsz], False
    elif attr == "f":
        v = [int(x * t) for x, t in zip(first["f"], scale)]
        if rng.random() < 0.5:
            v[rng.randrange(2)] //= 2
    else:
        v = [int(x * t) for x, t in zip(first["c"], scale)]
        if rng.random() < 0.5:
            a = rng.randrange(2)
            v[a] += int(U * scale[a])
    s.edit(i, attr, v)


def points(rng):
    """Points or lines of one camera."""
    cams = cameras(rng, 1)
    cam = cams[0]
    s = Session(rng, cams)
    for _ in range(rng.choice([1, 1, 2])):
        kind = rng.choice(["Points", "Lines"])
        dir = int(rng.random() < 0.3)
        o = [0, 0, 0] if dir else cam["xyz"]
        n = rng.randint(1, 5)
        if kind == "Points":
            m = n if rng.random() < 0.9 else n + 1
            xyz = [[o[0] + rng.randint(-8, 8) * U // 2, o[1] + rng.choice([1, 2, 4]) * U, o[2] + rng.randint(-8, 8) * U // 2] for _ in range(m)]
            s.new(kind, [1], [image_points(rng, cam, n)], xyz=xyz, dir=dir)
        else:
            axis = rng.choice([1, 2])
            xyz = [[o[0], o[1] + rng.choice([1, 2, 4]) * U, o[2]] for _ in range(rng.randint(1, 3))]
            for r in xyz:
                r[0 if axis == 1 else 2] += rng.randint(-100, 100)
            s.new(kind, [1], [image_points(rng, cam, n)], xyz=xyz, axis=axis, dir=dir)
    if not s.ctrls:
        return s.history()
    for _ in range(rng.randint(2, 7)):
        obj = rng.randint(1, len(s.ctrls))
        k = rng.random()
        if k < 0.45:
            s.look(obj)
        elif k < 0.85 and not s.sizeable:
            s.follow(obj)
        elif k < 0.65:
            s.resize(obj, factor(rng))
        elif k < 0.75:
            s.follow(obj)
        elif k < 0.85:
            s.camera(1, factor(rng))
        else:
            change(rng, s, 1)
    s.look(rng.randint(1, len(s.ctrls)))
    return s.history()


def weights(rng, n):
    return rng.sample(range(1, 4 * n + 2), n)


def stale(s, obj):
    """Whether the cameras of a control changed size or internal parameters since."""
    return any(s.ev[k]["op"] in ("camera", "resize") or s.ev[k].get("attr") in ("f", "c", "imgsz") for k in range(s.made[obj - 1], len(s.ev)))


def matches(rng):
    cams = cameras(rng, rng.choice([2, 2, 3]))
    if rng.random() < 0.1:
        cams[-1]["xyz"] = [x + U for x in cams[-1]["xyz"]]
    s = Session(rng, cams)
    s.made = []
    for _ in range(rng.choice([1, 1, 2])):
        kind = rng.choice(PAIRS)
        on = rng.sample(range(1, len(cams) + 1), 2)
        if rng.random() < 0.05:
            on[1] = on[0]
        n = rng.choice([0, 1, 2, 3, 4, 5, 6])
        uvs = [image_points(rng, cams[i - 1], n) for i in on]
        if rng.random() < 0.5 and n:
            # Nearly the same place in both images
            k = rng.randint(1, n)
            sz = [cams[i - 1]["imgsz"] for i in on]
            for j in range(k):
                uvs[1][j] = [max(0, uvs[0][j][a] * sz[1][a] // sz[0][a] // 32 * 32 + rng.randint(-2, 2) * 32) for a in (0, 1)]
        if rng.random() < 0.05:
            uvs[1].append([U, U])
        w = weights(rng, n) if rng.random() < 0.7 else None
        if s.new(kind, on, uvs, w):
            s.made.append(len(s.ev))
    if not s.ctrls:
        return s.history()
    for _ in range(rng.randint(2, 8)):
        obj = rng.randint(1, len(s.ctrls))
        kind, on = s.kinds[obj - 1], s.on[obj - 1]
        k = rng.random()
        if k < 0.35:
            s.look(obj, rng.choice([1, 2]))
        elif k < 0.5:
            if kind == "Matches":
                s.resize(obj, factor(rng)) if s.sizeable and rng.random() < 0.7 else s.follow(obj)
        elif k < 0.56:
            if s.sizeable:
                s.camera(rng.choice(on), factor(rng))
        elif k < 0.64:
            change(rng, s, rng.choice(on))
        elif k < 0.8:
            n = s.ctrls[obj - 1].size
            kw = {"side": rng.choice([1, 2])}
            if rng.random() < 0.5:
                kw["best"] = rng.randint(1, n + 1)
            if rng.random() < 0.4:
                kw["least"] = rng.randint(1, 4 * n + 1)
            kw["scaled"] = int(rng.random() < 0.3)
            if rng.random() < 0.5:
                kw["error"] = rng.randint(1, U) if kw["scaled"] else rng.randint(1, 24 * U)
            if rng.random() < 0.5:
                kw["distance"] = rng.randint(1, U) if kw["scaled"] else rng.randint(1, 24 * U)
            s.filter(obj, **kw)
        elif k < 0.95:
            if not stale(s, obj):
                s.convert(obj, rng.choice(PAIRS))
                s.made += [len(s.ev)] * (len(s.ctrls) - len(s.made))
        elif kind in NORMALIZED:
            s.clear(obj)
    obj = rng.randint(1, len(s.ctrls))
    s.look(obj, rng.choice([1, 2]))
    return s.history()


def replay(rng, ops):
    """A behaviour of the model."""
    def cam(sz, f):
        return {"xyz": [0, 0, 0], "imgsz": sz, "orig": sz, "f": [f * U] * 2, "c": [0, 0], "roll": 0}

    s = Session(rng, [cam([32, 16], 8), cam([64, 32], 16)])
    s.new("Matches", [1, 2], [[[U * x for x in r] for r in ((16, 8), (20, 4), (4, 12))], [[U * x for x in r] for r in ((32, 16), (42, 8), (24, 30))]],
          [2, 5, 3])
    obj = 1
    for o in ops:
        if o["op"] == "resize":
            s.resize(obj, o["num"])
        elif o["op"] == "follow":
            s.follow(obj)
        elif o["op"] == "camera":
            s.camera(2, o["num"])
        elif o["op"] == "filter":
            s.filter(obj, **{k: o[k] for k in ("best", "least", "error", "distance", "scaled", "side")})
        else:
            s.convert(obj, o["kind"])
            obj = len(s.ctrls)
            if s.kinds[obj - 1] in NORMALIZED and rng.random() < 0.5:
                s.clear(obj)
        s.look(obj, rng.choice([1, 2]))
    return s.history()


def run(c):
    rng = random.Random(c.seed)
    big = c.thorough
    scripts = c.behaviours_of(
        "ControlMC", f"SPECIFICATION Spec\nINVARIANTS InPlace Aligned SameErrors Emit\nCONSTANTS N = {4 if big else 3}\nCHECK_DEADLOCK FALSE\n", workers=8)
    rng.shuffle(scripts)
    k = 10 if big else 1
    c.judge("ControlTrace", [replay(rng, b) for b in scripts[:1200 * k]], "behaviours")
    c.judge("ControlTrace", [points(rng) for _ in range(800 * k)], "points and lines")
    c.judge("ControlTrace", [matches(rng) for _ in range(1600 * k)], "matches")


sys.exit(main("C16", run))
