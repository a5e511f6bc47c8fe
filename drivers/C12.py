"""C12: A camera's derived quantities always follow its current parameters."""
import copy
import os
import pickle
import random
import sys
import tempfile

import numpy as np
from vlib import attempt, main, q

from glimpse import Camera, Image

Q = 16384
LEN = {"xyz": 3, "viewdir": 3, "imgsz": 2, "f": 2, "c": 2, "k": 6, "p": 2, "sensorsz": 2, "fmm": 2, "cmm": 2}
ATTRS = ["xyz", "viewdir", "imgsz", "f", "c", "k", "p", "sensorsz"]
XYZ = np.array([[1.0, 10, 2], [-3, 4, 0.5], [0, -5, 1], [2, 1, -6]])
UV = np.array([[0.5, 0.5], [3, 1], [1.25, 3.5]])


def enc(x, scale=Q):
    if x is None:
        return []
    return [q(v, scale, 1e-11) for v in np.asarray(x, dtype=float).tolist()]


def describe(cam):
    d = {a: enc(getattr(cam, a), 1 if a == "imgsz" else Q) for a in ATTRS}
    d["fmm"], d["cmm"] = enc(cam.fmm), enc(cam.cmm)
    v = np.concatenate([getattr(cam, a) for a in ATTRS[:-1]])
    d["vector"] = int(np.array_equal(cam.to_array(), v)
                      and all(cam.to_dict()[a] == getattr(cam, a).tolist() for a in ATTRS[:-1]))
    return d


def derived(cam):
    """Everything else that can be asked of a camera."""
    out = {"R": cam.R, "Rprime": cam.Rprime, "grid": cam.grid(), "edges": cam.edges(), "inframe": cam.inframe(UV),
           "infront": cam.infront(XYZ), "viewbox": cam.viewbox(10), "viewpoly": cam.viewpoly(10),
           "uv_to_xyz": cam.uv_to_xyz(UV, depth=3), "xyz_to_uv": cam.xyz_to_uv(XYZ),
           "spherical": cam.xyz_to_spherical(XYZ), "rasterize": cam.rasterize(UV, np.arange(3.0)),
           "json": np.frombuffer(cam.to_json().encode(), dtype="uint8")}
    return {k: np.asarray(v, dtype=float) for k, v in out.items()}


def stale(cam):
    """Names of derived quantities that differ from those of a new camera."""
    new = Camera(**{a: getattr(cam, a).copy() for a in ATTRS[:-1]}, sensorsz=cam.sensorsz, correction=cam.correction)
    a, b = derived(cam), derived(new)
    return sorted(k for k in b if a[k].shape != b[k].shape or not np.allclose(a[k], b[k], rtol=1e-10, equal_nan=True))


def as_arg(rng, v, scalar=True):
    k = rng.randrange(4)
    if scalar and len(v) == 1 and k < 2:
        return v[0]
    return [list, tuple, np.array, list][k](v)


class Session:
    def __init__(self, rng, cam=None, images=False):
        self.rng = rng
        kw = cam or self.params()
        args = {a: [x / (1 if a == "imgsz" else Q) for x in v] for a, v in kw.items() if v}
        args["imgsz"] = [int(x) for x in args["imgsz"]]
        how = rng.randrange(3)
        if how == 1 and kw["sensorsz"]:
            # Give the same in millimetres
            args["fmm"] = [f * s / n for f, s, n in zip(args.pop("f"), args["sensorsz"], args["imgsz"])]
            if rng.random() < 0.5:
                args["cmm"] = [c * s / n for c, s, n in zip(args.pop("c"), args["sensorsz"], args["imgsz"])]
        before = copy.deepcopy(args)
        self.cams = [Camera(**{a: rng.choice([list, tuple, np.array])(v) for a, v in args.items()},
                            correction=rng.choice([False, True]))]
        if images:
            # As the camera of an image
            self.cams = [Image("none.tif", cam=self.cams[0], datetime=None).cam]
        self.first = [{a: v for a, v in kw.items()}]
        self.ev = []
        self.note({"op": "new", "obj": 1, "attr": "", "v": [], "i": 0, "force": 0}, "", int(args == before))

    def params(self):
        rng = self.rng
        n = lambda k: [Q * rng.randint(-8, 8) // rng.choice([1, 1, 2, 4]) for _ in range(k)]  # noqa
        return {"xyz": n(3), "viewdir": [Q * rng.choice([0, 30, 90, -45, 200, 7]) for _ in range(3)],
                "imgsz": [rng.choice([2, 4, 8, 16]) for _ in range(2)],
                "f": [Q * rng.randint(1, 9) for _ in range(2)], "c": n(2),
                "k": [x // 64 for x in n(6)], "p": [x // 64 for x in n(2)],
                "sensorsz": rng.choice([[], [Q * rng.choice([4, 8, 16]), Q * rng.choice([4, 8, 16])]])}

    def note(self, e, err, kept=1):
        cams = [describe(c) for c in self.cams]
        i = max(e["obj"], 1) - 1
        e.update(err=err, cams=cams, kept=kept, stale=[])
        if (e["op"] in ("new", "reset", "item") or self.rng.random() < 0.5) and all(len(c["imgsz"]) == 2 and min(c["imgsz"]) > 0 and max(c["imgsz"]) <= 64 for c in cams):
            e["stale"] = stale(self.cams[i])
        self.ev.append(e)

    def do(self, obj, o):
        rng = self.rng
        cam = self.cams[obj - 1]
        e = {"obj": obj, "i": 0, "force": 0, "attr": "", "v": [], **o}
        err, kept = "", 1
        unscaled = [x / (1 if e["attr"] == "imgsz" else Q) for x in e["v"]]
        if e["op"] == "set":
            if e["attr"] == "imgsz":
                unscaled = [rng.choice([int, float])(x) for x in unscaled]
            value = as_arg(rng, unscaled)
            if e["attr"] == "sensorsz" and not e["v"]:
                value = None
            before = copy.deepcopy(value)
            _, err = attempt(setattr, cam, e["attr"], value)
            kept = int(type(value) is type(before) and np.array_equal(value, before)) if value is not None else 1
            if not err and isinstance(value, (list, np.ndarray)):
                # The value given is the user's to change
                for i in range(len(value)):
                    value[i] = -55
        elif e["op"] == "item":
            getattr(cam, e["attr"])[e["i"] - 1] = unscaled[0]
        elif e["op"] == "factor":
            _, err = attempt(cam.resize, e["v"][0] / e["v"][1]) if e["v"] != [1, 1] or rng.random() < 0.5 else attempt(cam.resize)
        elif e["op"] == "size":
            value = as_arg(rng, e["v"], False)
            before = copy.deepcopy(value)
            kw = {"force": bool(e["force"])} if e["force"] or rng.random() < 0.5 else {}
            _, err = attempt(cam.resize, value, **kw)
            kept = int(np.array_equal(value, before))
        elif e["op"] == "fraction":
            _, err = attempt(setattr, cam, "imgsz", rng.choice([(2.5, 4), 3.5, [2, 4.25]]))
        elif e["op"] in ("reset", "idealize"):
            _, err = attempt(getattr(cam, e["op"]))
        elif e["op"] == "copy":
            new, err = attempt(cam.copy)
            if not err:
                self.cams.append(new)
        elif e["op"] == "load":
            # From the file it is saved to, with or without the sensor size
            names = ATTRS if e["force"] else ATTRS[:-1]
            if rng.random() < 0.3 and cam.sensorsz is not None and e["force"]:
                names = [{"f": "fmm", "c": "cmm"}.get(a, a) for a in names]
            path = os.path.join(tempfile.gettempdir(), f"camera-{os.getpid()}.json")
            _, err = attempt(cam.to_json, path, attributes=names, **rng.choice([{}, {"indent": 2}, {"indent": 4, "flat_arrays": True}]))
            if not err:
                new, err = attempt(Camera.from_json, path, **rng.choice([{}, {"correction": True}]))
                os.remove(path)
            if not err:
                self.cams.append(new)
        elif e["op"] == "look":
            # Reading changes nothing, nor do changes to what was read
            a = cam.to_array()
            a[:] = -7
            for x in (cam.imgsz, cam.R, cam.grid(), cam.to_dict()["f"]):
                x[0] = 3
            pickle.loads(pickle.dumps(cam)).f = 77
        self.note(e, err, kept)
        return not err

    def history(self):
        return {"kf": "", "cams": self.first, "ev": self.ev}


def edits(rng, s, budget):
    obj = rng.randint(1, len(s.cams))
    k = rng.random()
    n = lambda m: [Q * rng.randint(-8, 8) // rng.choice([1, 2]) for _ in range(m)]  # noqa
    if k < 0.4:
        attr = rng.choice(list(LEN))
        m = rng.choice([1, LEN[attr], LEN[attr], rng.randint(1, LEN[attr])])
        v = n(m)
        if attr in ("k", "p"):
            v = [x // 64 for x in v]
        if attr in ("f", "fmm"):
            v = [Q * rng.randint(1, 9) for _ in v]
        if attr == "sensorsz":
            v = rng.choice([[], [Q * rng.choice([4, 8, 16]) for _ in v]])
        if attr == "imgsz":
            if budget["imgsz"] == 0:
                return obj, {"op": "look"}
            budget["imgsz"] -= 1
            v = [rng.choice([2, 4, 8, 16]) for _ in v]
        return obj, {"op": "set", "attr": attr, "v": v}
    if k < 0.55:
        attr = rng.choice(["xyz", "viewdir", "f", "c", "k", "p"])
        v = [Q * rng.randint(1, 9)] if attr == "f" else [n(1)[0] // (64 if attr in "kp" else 1)]
        i = rng.randint(1, LEN[attr])
        now = enc(getattr(s.cams[obj - 1], attr))[i - 1]
        if rng.random() < 0.4 and abs(now) < 10 ** 6 and attr not in "fc":
            # Hardly different
            return obj, {"op": "item", "attr": attr, "i": i, "v": [now + rng.choice([-1, 1])]}
        return obj, {"op": "item", "attr": attr, "i": rng.randint(1, LEN[attr]), "v": v}
    if k < 0.7:
        return obj, {"op": "factor", "v": rng.choice([[1, 1], [1, 2], [2, 1], [1, 1]])}
    if k < 0.8:
        return obj, {"op": "size", "v": [rng.choice([2, 4, 8, 16]) for _ in range(2)], "force": 1}
    if k < 0.84:
        return obj, {"op": "fraction"}
    if k < 0.9:
        return obj, {"op": rng.choice(["reset", "reset", "idealize"])}
    if k < 0.96 and len(s.cams) < 4:
        return obj, {"op": "copy"} if k < 0.93 else {"op": "load", "force": rng.randrange(2)}
    return obj, {"op": "look"}


def resizing(rng, s):
    """Edits without effect on the focal length or principal point, but by resizing."""
    obj = rng.randint(1, len(s.cams))
    k = rng.random()
    n = lambda m: [Q * rng.randint(-8, 8) // rng.choice([1, 2]) for _ in range(m)]  # noqa
    if k < 0.6:
        return obj, {"op": "factor", "v": rng.choice([[1, 1], [1, 2], [3, 8], [5, 8], [3, 4], [3, 2], [2, 1], [3, 1], [7, 8]])}
    if k < 0.7:
        return obj, {"op": "size", "v": [rng.randint(1, 40) for _ in range(2)], "force": 1}
    if k < 0.8:
        attr = rng.choice(["xyz", "viewdir", "sensorsz"])
        return obj, {"op": "set", "attr": attr, "v": n(3) if attr != "sensorsz" else [Q * rng.choice([4, 8, 16])]}
    if k < 0.85:
        return obj, {"op": "reset"}
    if k < 0.9 and len(s.cams) < 4:
        return obj, rng.choice([{"op": "copy"}, {"op": "load", "force": rng.randrange(2)}])
    return obj, {"op": "look"}


def run(c):
    rng = random.Random(c.seed)
    big = c.thorough
    n = 4 if big else 3
    scripts = c.behaviours_of(
        "CameraStateMC", "SPECIFICATION Spec\nINVARIANTS SameScene Returns Restored OriginalKept SameMM Emit\n"
        f"CONSTANTS N = {n}\n", workers=8)
    rng.shuffle(scripts)
    start = {"xyz": [0, 0, 0], "viewdir": [0, 0, 0], "imgsz": [8, 4], "f": [3 * Q, 5 * Q], "c": [Q, -Q],
             "k": [Q, 0, 0, 0, 0, 0], "p": [0, 0], "sensorsz": [16 * Q, 16 * Q]}
    hist = []
    for b in scripts[:6000 if big else 600]:
        s = Session(rng, dict(start))
        for obj, o in b:
            s.do(obj, o)
        hist.append(s.history())
    for _ in range(4000 if big else 400):
        s = Session(rng)
        budget = {"imgsz": 1}
        for _ in range(rng.randint(4, 10)):
            s.do(*edits(rng, s, budget))
        hist.append(s.history())
    for _ in range(3000 if big else 300):
        s = Session(rng)
        for _ in range(rng.randint(3, 8)):
            s.do(*resizing(rng, s))
        hist.append(s.history())
    c.judge("CameraStateTrace", hist, "edits")


sys.exit(main("C12", run))
