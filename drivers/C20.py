"""C20: Cameras of other software are converted as they project."""
import io
import os
import random
import sys
import tempfile
import warnings

import numpy as np
import vlib
from vlib import attempt, main, q, qi

from glimpse import Camera
from glimpse.convert import Converter
from glimpse.convert.cameras import Agisoft, Matlab, OpenCV, PhotoModeler

CLASSES = {"agisoft": Agisoft, "matlab": Matlab, "opencv": OpenCV, "photomodeler": PhotoModeler}
# Names of lengths (encoded in 1 / 2) and coefficients (in 1 / 64), in order
NAMES = {
    "camera": ["f", "c", "k", "p", "xyz", "viewdir", "imgsz"],
    "agisoft": ["imgsz", "f", "cx", "cy", "k1", "k2", "k3", "k4", "p1", "p2", "b1", "b2"],
    "matlab": ["imgsz", "fc", "cc", "kc", "alpha_c"],
    "opencv": ["imgsz", "fx", "fy", "cx", "cy", "k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s1", "s2", "s3", "s4"],
    "photomodeler": ["imgsz", "focal", "xp", "yp", "fw", "fh", "k1", "k2", "k3", "p1", "p2"],
}
COEFS = {"k", "p", "k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s1", "s2", "s3", "s4", "kc", "alpha_c"}


def is_coef(name):
    return name in COEFS


def length(v):
    return q(v, 2)


def coef(v):
    return q(v, 64)


def size(s):
    return [q(v) for v in s]


def enc(x):
    """Record of a model, as in the specification."""
    if isinstance(x, Agisoft):
        return {"kind": "agisoft", "size": size(x.imgsz), "f": length(x.f), "cx": length(x.cx), "cy": length(x.cy),
                "k": [coef(v) for v in (x.k1, x.k2, x.k3, x.k4)], "p1": coef(x.p1), "p2": coef(x.p2), "b1": length(x.b1), "b2": length(x.b2)}
    if isinstance(x, Matlab):
        return {"kind": "matlab", "size": size(x.imgsz), "fc": [length(v) for v in x.fc], "cc": [length(v) for v in x.cc],
                "kc": [coef(v) for v in x.kc], "alpha": coef(x.alpha_c)}
    if isinstance(x, OpenCV):
        return {"kind": "opencv", "size": size(x.imgsz), "fx": length(x.fx), "fy": length(x.fy), "cx": length(x.cx), "cy": length(x.cy),
                "k": [coef(v) for v in (x.k1, x.k2, x.k3, x.k4, x.k5, x.k6)], "p1": coef(x.p1), "p2": coef(x.p2),
                "s": [coef(v) for v in (x.s1, x.s2, x.s3, x.s4)]}
    if isinstance(x, PhotoModeler):
        return {"kind": "photomodeler", "size": size(x.imgsz), "focal": length(x.focal), "xp": length(x.xp), "yp": length(x.yp),
                "fw": length(x.fw), "fh": length(x.fh), "k": [coef(v) for v in (x.k1, x.k2, x.k3)], "p1": coef(x.p1), "p2": coef(x.p2)}
    return {"size": size(x.imgsz), "f": [length(v) for v in x.f], "c": [length(v) for v in x.c], "k": [coef(v) for v in x.k], "p": [coef(v) for v in x.p]}


def make(x):
    """Model of a record."""
    k = [v / 64 for v in x["k"]] if "k" in x else None
    if x["kind"] == "agisoft":
        return Agisoft(tuple(x["size"]), f=x["f"] / 2, cx=x["cx"] / 2, cy=x["cy"] / 2, k1=k[0], k2=k[1], k3=k[2], k4=k[3],
                       p1=x["p1"] / 64, p2=x["p2"] / 64, b1=x["b1"] / 2, b2=x["b2"] / 2)
    if x["kind"] == "matlab":
        return Matlab(tuple(x["size"]), fc=tuple(v / 2 for v in x["fc"]), cc=tuple(v / 2 for v in x["cc"]),
                      kc=tuple(v / 64 for v in x["kc"]), alpha_c=x["alpha"] / 64)
    if x["kind"] == "opencv":
        s = [v / 64 for v in x["s"]]
        return OpenCV(tuple(x["size"]), fx=x["fx"] / 2, fy=x["fy"] / 2, cx=x["cx"] / 2, cy=x["cy"] / 2,
                      k1=k[0], k2=k[1], k3=k[2], k4=k[3], k5=k[4], k6=k[5], p1=x["p1"] / 64, p2=x["p2"] / 64, s1=s[0], s2=s[1], s3=s[2], s4=s[3])
    return PhotoModeler(tuple(x["size"]), focal=x["focal"] / 2, xp=x["xp"] / 2, yp=x["yp"] / 2, fw=x["fw"] / 2, fh=x["fh"] / 2,
                        k1=k[0], k2=k[1], k3=k[2], p1=x["p1"] / 64, p2=x["p2"] / 64)


def camera(m, sensor=None, **kwargs):
    return Camera(imgsz=m["size"], f=[v / 2 for v in m["f"]], c=[v / 2 for v in m["c"]], k=[v / 64 for v in m["k"]], p=[v / 64 for v in m["p"]],
                  sensorsz=None if sensor is None else [v / 2 for v in sensor], **kwargs)


def flat(obj, kind):
    """All parameters, in order."""
    v = []
    for name in NAMES[kind]:
        v += [qi(a, 2 ** 20 if is_coef(name) else 2 ** 14) for a in np.atleast_1d(getattr(obj, name))]
    return v


def put(obj, name, i, v):
    """Set one element of a parameter."""
    if isinstance(obj, Camera):
        a = np.array(getattr(obj, name), dtype=float)
        a[i] = v
        setattr(obj, name, a)
    else:
        a = getattr(obj, name)
        if isinstance(a, tuple):
            a = list(a)
            a[i] = v
            setattr(obj, name, tuple(a))
        else:
            setattr(obj, name, v)


def get(obj, name, i):
    return float(np.atleast_1d(getattr(obj, name))[i])


# ---- Projection ----

def project(rng, x):
    """Where a model projects to or from, from the residuals of a simple camera."""
    model = make(x)
    simple = Camera(imgsz=x["size"], f=8)
    center = np.array(x["size"]) / 2
    if x["kind"] == "photomodeler":
        points = [[4 * rng.randint(0, x["size"][0] // 2), 4 * rng.randint(0, x["size"][1] // 2)] for _ in range(4)]
        uv = np.array(points) / 2
        res, err = attempt(lambda: Converter(model, simple, uv=uv).residuals())
        xy = [] if err else (uv + res - center) / 8
        return {"op": "photo", "x": x, "points": points, "err": err, "xy": [[qi(v, 4096) for v in p] for p in xy]}
    points = [[rng.randint(-2, 2), rng.randint(-2, 2)] for _ in range(4)]
    uv = center + 8 * np.array(points) / 2
    res, err = attempt(lambda: Converter(model, simple, uv=uv).residuals())
    return {"op": "project", "x": x, "points": points, "err": err, "uv": [] if err else [[qi(v, 4096) for v in p] for p in uv - res]}


def seen(rng, m):
    """Where a camera projects to."""
    cam = camera(m)
    points = [[rng.randint(-2, 2), rng.randint(-2, 2)] for _ in range(4)]
    xyz = np.array([(a / 2, 1, -b / 2) for a, b in points])
    uv, err = attempt(cam.xyz_to_uv, xyz)
    return {"op": "camera", "m": m, "points": points, "err": err, "uv": [] if err else [[qi(v, 4096) for v in p] for p in uv]}


# ---- Conversion ----

def disturb(obj, kind):
    for name in NAMES[kind]:
        for i in range(np.atleast_1d(getattr(obj, name)).size):
            put(obj, name, i, get(obj, name, i) + 1) if name != "imgsz" else None


def to(rng, x, optimize):
    model = make(x)
    cam, err = attempt(model.to_camera, **({} if optimize else {"optimize": False}), **({"uv": 20} if rng.random() < 0.8 else {}))
    e = {"op": "to", "x": x, "optimize": int(optimize), "err": err, "m": {}, "left": {}, "sensor": []}
    if not err:
        e["m"] = enc(cam)
        e["sensor"] = [] if cam.sensorsz is None else [length(v) for v in cam.sensorsz]
        disturb(cam, "camera")
        e["left"] = enc(model)
    return e


def back(rng, kind, m, sensor, optimize):
    cam = camera(m, sensor if sensor[0] else None)
    kw = {}
    if kind != "opencv":
        if not optimize:
            kw["optimize"] = False
        if rng.random() < 0.8:
            kw["uv"] = 20
    model, err = attempt(CLASSES[kind].from_camera, cam, **kw)
    e = {"op": "from", "kind": kind, "m": m, "sensor": sensor, "optimize": int(optimize), "err": err, "x": {}, "left": {}}
    if not err:
        e["x"] = enc(model)
        disturb(model, kind)
        e["left"] = enc(cam)
    return e


def roundtrip(x):
    r, err = attempt(lambda: CLASSES[x["kind"]].from_camera(make(x).to_camera()))
    return {"op": "round", "x": x, "err": err, "back": {} if err else enc(r)}


def exact(x):
    k = {"agisoft": lambda: not x["k"][3] and not x["b2"], "matlab": lambda: not x["alpha"], "opencv": lambda: not any(x["s"]),
         "photomodeler": lambda: not any(x["k"]) and not x["p1"] and not x["p2"]}
    return k[x["kind"]]()


def replay(rng, x):
    ev = [project(rng, x), to(rng, x, exact(x)), to(rng, x, False)]
    if exact(x):
        ev.append(roundtrip(x))
        m = ev[1]["m"]
        if m:
            ev.append(seen(rng, m))
            kind = rng.choice(list(CLASSES))
            sensor = [x["fw"], x["fh"]] if x["kind"] == "photomodeler" else [8, 4] if kind == "photomodeler" or rng.random() < 0.3 else [0, 0]
            if kind != "photomodeler" or all((m["f"][i] * sensor[i]) % (4 * m["size"][i]) == 0 and (m["c"][i] * sensor[i]) % (2 * m["size"][i]) == 0 for i in (0, 1)):
                ev.append(back(rng, kind, m, sensor, False))
                if kind == "opencv" or (kind != "photomodeler" and not any(m["k"][3:])):
                    ev.append(back(rng, kind, m, sensor, True))
    return {"kf": "", "ev": ev}


def rmodel(rng, kind, mild=False, simple=False):
    """Any model; mild: that is close to a distortion-free camera."""
    s = rng.choice([[16, 8], [16, 16], [8, 16], [32, 16]])
    def co(p=0.5):
        return 0 if simple or rng.random() > p else rng.randint(-2, 2) if mild else rng.randint(-6, 6)
    f = 2 * max(s) if mild else rng.choice([16, 20, 32, 33])
    if kind == "agisoft":
        return {"kind": kind, "size": s, "f": f, "cx": rng.randint(-4, 4), "cy": rng.randint(-4, 4), "k": [co(), co(), co(0.3), co(0.3)],
                "p1": co(), "p2": co(), "b1": rng.choice([0, 0, 1, -2]), "b2": 0 if simple else rng.choice([0, 0, 1, -1])}
    if kind == "matlab":
        return {"kind": kind, "size": s, "fc": [f, f + rng.choice([0, 1, -2])], "cc": [s[0] - 1 + rng.randint(-3, 3), s[1] - 1 + rng.randint(-3, 3)],
                "kc": [co() for _ in range(5)], "alpha": co()}
    if kind == "opencv":
        return {"kind": kind, "size": s, "fx": f, "fy": f + rng.choice([0, 1, -2]), "cx": s[0] + rng.randint(-3, 3), "cy": s[1] + rng.randint(-3, 3),
                "k": [co(), co(), co(0.3)] + [co(0.2) for _ in range(3)], "p1": co(), "p2": co(), "s": [co(0.3) for _ in range(4)]}
    fw, fh = rng.choice([(8, 4), (8, 8), (16, 8), (16, 16)])
    return {"kind": kind, "size": s, "focal": 2 * max(fw, fh) if mild else rng.choice([8, 16]), "xp": fw // 2 + rng.randint(-1, 1), "yp": fh // 2 + rng.randint(-1, 1), "fw": fw, "fh": fh,
            "k": [0 if simple else rng.choice([0, 0, 1]) if not mild else rng.choice([0, 0, 0.0625]), 0, 0] if mild else [rng.choice([0, 1]), 0, rng.choice([0, 0, 1])],
            "p1": 0 if simple else rng.choice([0, 1]) * (1 if not mild else 0.125), "p2": 0 if simple else rng.choice([0, 1]) * (1 if not mild else 0.125)}


def rcamera(rng, distorted=True):
    s = rng.choice([[16, 8], [16, 16], [8, 16], [32, 16]])
    f = 2 * max(s)
    k = [rng.choice([0, 0, 2, -2, 3]) for _ in range(6)] if distorted is True else [3 if i == distorted and distorted else 0 for i in range(6)]
    return {"size": s, "f": [f, f + rng.choice([0, 0, 1])], "c": [rng.randint(-3, 3), rng.randint(-3, 3)], "k": k,
            "p": [rng.choice([0, 0, 1, -1]) if distorted is True else 0 for _ in range(2)]}


# ---- Optimization ----

def sse(model, cam, uv):
    return float(np.sum(Converter(model, cam, uv=uv).residuals() ** 2))


def around(obj, kind, fn, start):
    """Misfit at the result, the start, and around the result in each parameter."""
    at, near = fn(), []
    for name in NAMES[kind]:
        for i in range(np.atleast_1d(getattr(obj, name)).size):
            others = []
            if name not in ("imgsz", "xyz", "viewdir"):
                v = get(obj, name, i)
                for d in (2e-2, 2e-3, 2e-4) if is_coef(name) else (5e-2, 5e-3):
                    for sign in (1, -1):
                        put(obj, name, i, v + sign * d)
                        others.append(fn())
                put(obj, name, i, v)
            near.append(others)
    eps = 1e-6
    def code(v):
        return min(2 * 10 ** 9, int(1e6 * (v + eps) / (at + eps))) if np.isfinite(v) else 2 * 10 ** 9
    return {"at": 1000000 if np.isfinite(at) else vlib.NAN, "start": code(start), "near": [min([2 * 10 ** 9] + [code(v) for v in o]) for o in near]}


def tuned_to(rng, x):
    """Camera fitted to a model, by default."""
    model, uv = make(x), rng.choice([20, 30, 60])
    start = model.to_camera(optimize=False)
    cam, err = attempt(model.to_camera, uv=uv, max_nfev=100, limit=100)
    e = {"op": "totuned", "x": x, "err": err, "before": flat(start, "camera"), "after": [], "misfit": {}}
    if not err:
        e["after"] = flat(cam, "camera")
        e["misfit"] = around(cam, "camera", lambda: sse(model, cam, uv), sse(model, start, uv))
    return e


def tuned_from(rng, kind, m):
    cam, uv = camera(m, [16, 8]), rng.choice([20, 30, 60])
    start = CLASSES[kind].from_camera(cam, **({} if kind == "opencv" else {"optimize": False}))
    model, err = attempt(CLASSES[kind].from_camera, cam, **({} if kind == "opencv" else {"uv": uv, "max_nfev": 100, "limit": 100}))
    e = {"op": "fromtuned", "kind": kind, "m": m, "sensor": [16, 8], "err": err, "before": flat(start, kind), "after": [], "misfit": {}}
    if not err:
        e["after"] = flat(model, kind)
        e["misfit"] = around(model, kind, lambda: sse(model, cam, uv), sse(start, cam, uv))
    return e


def ask(rng, names):
    """Request of (name, number of elements), as parameters and as a list of elements."""
    params, request = {}, []
    for name, n in names:
        if n == 1 or rng.random() < 0.3:
            r = rng.choice([True, 0, [0]]) if n == 1 else True
        else:
            r = rng.choice([rng.randrange(n), sorted(rng.sample(range(n), rng.randint(1, n)))])
        params[name] = r
        request.append({"name": name, "idx": [] if r is True else list(np.atleast_1d(r).tolist())})
    return params, request


def elements(request, sizes):
    return [(r["name"], i) for r in request for i in (r["idx"] or range(sizes[r["name"]]))]


def recover(rng):
    """Parameters requested are found again."""
    kind = rng.choice(list(CLASSES))
    uv = rng.choice([40, 60, 100])
    into = rng.random() < 0.5
    x = rmodel(rng, kind, mild=True, simple=True if kind == "photomodeler" else rng.random() < 0.2)
    for key, v in (("b2", 0), ("alpha", 0)):
        if key in x:
            x[key] = v
    if kind == "agisoft":
        x["k"][3] = 0
    if kind == "opencv":
        x["s"] = [0] * 4
        x["k"][3:] = [0] * 3
    model = make(x)
    cam = model.to_camera(optimize=False)
    if into:
        sizes = {"f": 2, "c": 2, "k": 2, "p": 2}
        obj, of = cam, "camera"
    else:
        sizes = {"agisoft": {"f": 1, "cx": 1, "cy": 1, "k1": 1, "p1": 1, "p2": 1, "b1": 1, "b2": 1}, "matlab": {"fc": 2, "cc": 2, "kc": 4, "alpha_c": 1},
                 "opencv": {"fx": 1, "fy": 1, "cx": 1, "cy": 1, "k1": 1, "k2": 1, "p1": 1, "p2": 1, "s1": 1},
                 "photomodeler": {"focal": 1, "xp": 1, "yp": 1, "k1": 1}}[kind]
        obj, of = model, kind
    names = rng.sample(sorted(sizes), rng.randint(1, min(3, len(sizes))))
    params, request = ask(rng, [(n, sizes[n]) for n in names])
    if into and params.get("k") is True:
        # (all six are not determined)
        params["k"], request[names.index("k")]["idx"] = [0, 1], [0, 1]
    if not into and params.get("kc") is True:
        params["kc"], request[names.index("kc")]["idx"] = [0, 2, 3], [0, 2, 3]
    true = flat(obj, of)
    for name, i in elements(request, {**sizes, "k": 2}):
        put(obj, name, i, get(obj, name, i) + rng.choice([-1, 1]) * (1 / 64 if is_coef(name) and of != "photomodeler" else 1 / 1024 if is_coef(name) else 0.25 if of == "photomodeler" else 0.5))
    before = flat(obj, of)
    conv = Converter(model, cam, uv=uv)
    _, err = attempt((conv.optimize_cam if into else conv.optimize_xcam), params, **rng.choice([{}, {"xtol": 1e-12, "ftol": 1e-12}]))
    return {"op": "recover", "kind": of, "request": request, "err": err, "before": before, "after": flat(obj, of), "true": true}


def asked(rng):
    """Fit of the requested parameters of a conversion that is not exact."""
    kind = rng.choice(list(CLASSES))
    uv = rng.choice([20, 40])
    if rng.random() < 0.5:
        x = rmodel(rng, kind, mild=True)
        if exact(x):
            if kind == "agisoft":
                x["b2"] = 1
            elif kind == "matlab":
                x["alpha"] = 2
            elif kind == "opencv":
                x["s"][rng.randrange(4)] = 2
            else:
                x["k"][0] = 0.0625
        model = make(x)
        start = model.to_camera(optimize=False)
        sizes = {"f": 2, "c": 2, "k": 3, "p": 2}
        names = rng.sample(sorted(sizes), rng.randint(1, 2))
        params, request = ask(rng, [(n, sizes[n]) for n in names])
        if params.get("k") is True:
            params["k"], request[names.index("k")]["idx"] = 0, [0]
        obj, err = attempt(model.to_camera, optimize=params, uv=uv, max_nfev=100, limit=100)
        of, fn = "camera", lambda o: sse(model, o, uv)
    else:
        kind = rng.choice(["agisoft", "matlab", "photomodeler"])
        m = rcamera(rng)
        m["k"][3 if kind != "photomodeler" else 0] = 3
        cam = camera(m, [16, 8])
        start = CLASSES[kind].from_camera(cam, optimize=False)
        sizes = {"agisoft": {"f": 1, "cx": 1, "k1": 1, "k2": 1, "p1": 1, "b1": 1}, "matlab": {"fc": 2, "cc": 2, "kc": 5, "alpha_c": 1},
                 "photomodeler": {"focal": 1, "xp": 1, "yp": 1, "k1": 1, "p2": 1}}[kind]
        names = rng.sample(sorted(sizes), rng.randint(1, 2))
        params, request = ask(rng, [(n, sizes[n]) for n in names])
        obj, err = attempt(CLASSES[kind].from_camera, cam, optimize=params, uv=uv, max_nfev=100, limit=100)
        of, fn = kind, lambda o: sse(o, cam, uv)
    e = {"op": "asked", "kind": of, "request": request, "err": err, "before": flat(start, of), "after": [], "misfit": {}}
    if not err:
        e["after"] = flat(obj, of)
        e["misfit"] = around(obj, of, lambda: fn(obj), fn(start))
    return e


def grid(rng):
    s = rng.choice([[16, 8], [8, 16], [16, 16], [64, 2], [2, 64], [30, 20], [48, 4]])
    n = rng.choice([1, 2, 3, 5, 10, 24, 50])
    model = Agisoft(tuple(s), f=8)
    conv, err = attempt(Converter, model, Camera(imgsz=s, f=8), **({"uv": n}))
    return {"op": "grid", "size": s, "n": n, "err": err, "uv": [] if err else [[qi(v, 4096) for v in p] for p in conv.uv]}


# ---- Files ----

def num(rng, v):
    k = rng.randrange(4)
    return repr(v) if k == 0 else f"{v:.15e}" if k == 1 else f"{v:.15f}" if k == 2 or v != int(v) else str(int(v)) + rng.choice(["", ".", ".0"])


def read(rng, fn, text, *args, stream=True, **kwargs):
    """Read from a file (or an open file, where supported)."""
    if stream and rng.random() < 0.5:
        return attempt(fn, io.StringIO(text), *args, **kwargs)
    path = os.path.join(tempfile.gettempdir(), "camera.txt")
    with open(path, "w") as fp:
        fp.write(text)
    try:
        return attempt(fn, path, *args, **kwargs)
    finally:
        os.remove(path)


def file(rng):
    kind = rng.choice(list(CLASSES))
    x = rmodel(rng, kind)
    model = make(x)
    if kind == "agisoft":
        tags = [t for t in ("f", "cx", "cy", "k1", "k2", "k3", "k4", "p1", "p2", "b1", "b2") if t == "f" or rng.random() < 0.7]
        model = Agisoft(model.imgsz, **{t: getattr(model, t) for t in tags})
        lines = [f"<{t}>{num(rng, getattr(model, t))}</{t}>" for t in tags] + [f"<width>{x['size'][0]}</width>", f"<height>{x['size'][1]}</height>"]
        lines += rng.choice([[], ["<projection>frame</projection>"], ["<date>2020-05-06T21:47:42Z</date>", "<projection>frame</projection>"]])
        rng.shuffle(lines)
        text = '<?xml version="1.0" encoding="UTF-8"?>\n<calibration>\n' if rng.random() < 0.5 else "<document><chunk><calibration>"
        end = "</calibration>" + ("</chunk></document>" if text.startswith("<doc") else "")
        r, err = read(rng, Agisoft.from_xml, text + "\n".join(lines) + end)
        return {"op": "file", "err": err, "given": enc(model), "got": {} if err else enc(r)}
    if kind == "matlab":
        sig = Matlab((0, 0), fc=(rng.randint(1, 9) / 2, 0.5), cc=(0.5, rng.randint(1, 9) / 2), kc=tuple(rng.randint(0, 9) / 64 for _ in range(5)), alpha_c=rng.randint(0, 9) / 64)
        parts = []
        for o, suffix, f in ((model, "", 1), (sig, "_error", 3)):
            for name in ("fc", "cc", "kc"):
                parts.append(f"%-- {name}:\n{name}{suffix} = [ " + " ; ".join(num(rng, f * v) for v in getattr(o, name)) + " ];\n")
            parts.append(f"alpha_c{suffix} = {num(rng, f * o.alpha_c)};\n")
        if rng.random() < 0.5:
            rng.shuffle(parts)
        text = "% Intrinsic and Extrinsic Camera Parameters\n" + "\n".join(parts) + f"\nnx = {x['size'][0]};\nny = {x['size'][1]};\n\n%-- Various other variables:\nn_ima = 20;\n"
        s = rng.random() < 0.5
        r, err = read(rng, Matlab.from_report, text, sigmas=s, stream=False)
        return {"op": "file", "err": err, "given": enc(sig if s else model), "got": {} if err else enc(r)}
    if kind == "opencv":
        n = rng.choice([0, 4, 5, 8, 12, 14])
        d = [model.k1, model.k2, model.p1, model.p2, model.k3, model.k4, model.k5, model.k6, model.s1, model.s2, model.s3, model.s4]
        d = (d + [0.5, 0.25])[:n]
        given = OpenCV(model.imgsz, model.fx, model.fy, model.cx, model.cy, **dict(zip(("k1", "k2", "p1", "p2", "k3", "k4", "k5", "k6", "s1", "s2", "s3", "s4"), d)))
        mat = [(model.fx, 0.0, model.cx), (0.0, model.fy, model.cy), (0.0, 0.0, 1.0)]
        k = rng.random()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if k < 0.4:
                r, err = attempt(OpenCV.from_arrays, rng.choice([mat, np.array(mat)]), rng.choice([d, np.array(d)]), model.imgsz)
            elif k < 0.6:
                r, err = attempt(lambda: OpenCV.from_arrays(model.cameraMatrix, model.distCoeffs, model.imgsz))
                given = model
            else:
                text = ('<?xml version="1.0"?>\n<opencv_storage>\n<camera_matrix type_id="opencv-matrix"><rows>3</rows><cols>3</cols><dt>d</dt>\n<data>'
                        + "\n ".join(num(rng, v) for row in mat for v in row) + "</data></camera_matrix>")
                if n:
                    text += f'<distortion_coefficients type_id="opencv-matrix"><rows>{n}</rows><cols>1</cols><dt>d</dt><data>\n' + " ".join(num(rng, v) for v in d) + "</data></distortion_coefficients>"
                r, err = read(rng, OpenCV.from_xml, text + "</opencv_storage>", model.imgsz)
        return {"op": "file", "err": err, "given": enc(given), "got": {} if err else enc(r)}
    labels = {"focal": ("Focal Length", "Focal"), "xp": ("Xp - principal point x", "Xp"), "yp": ("Yp - principal point y", "Yp"), "fw": ("Fw - format width", "Fw"),
              "fh": ("Fh - format height", "Fh"), "k1": ("K1 - radial distortion 1", "K1"), "k2": ("K2 - radial distortion 2", "K2"),
              "k3": ("K3 - radial distortion 3", "K3"), "p1": ("P1 - decentering distortion 1", "P1"), "p2": ("P2 - decentering distortion 2", "P2")}
    def pm(v):
        s = f"{v:.9e}"
        return rng.choice([f"{v:.9f}", s[:-2] + "0" + s[-2:]])
    sig, text = {}, "Status Report Tree\n\n      Camera Calibration Standard Deviations\n         Camera1: NIKON D300 [28.00]\n"
    for name, (label, short) in labels.items():
        unit = " mm" if name in ("focal", "xp", "yp", "fw", "fh") else ""
        text += f"            {label}\n               Value: {pm(getattr(model, name))}{unit}\n"
        sig[name] = 0
        if rng.random() < 0.7:
            sig[name] = rng.randint(1, 9) / 64 if len(name) == 2 and name[1].isdigit() else rng.randint(1, 9) / 2
            text += f"               Deviation: {short}: {pm(sig[name])}{unit}\n"
    s = rng.random() < 0.5
    r, err = read(rng, PhotoModeler.from_report, text + "\nQuality\n", model.imgsz, sigmas=s, stream=False)
    given = PhotoModeler(model.imgsz, **sig) if s else model
    return {"op": "file", "err": err, "given": enc(given), "got": {} if err else enc(r)}


def defaults(rng):
    s = rng.choice([(16, 8), (15, 7)])
    if rng.random() < 0.5:
        return {"op": "file", "err": "", "given": enc(Matlab(s, fc=(8, 8), cc=((s[0] - 1) / 2, (s[1] - 1) / 2))), "got": enc(Matlab(s, fc=(8, 8)))}
    cx, cy = rng.choice([(None, None), (3, None), (None, 2)])
    return {"op": "file", "err": "", "given": enc(OpenCV(s, 8, 9, cx=s[0] / 2 if cx is None else cx, cy=s[1] / 2 if cy is None else cy)), "got": enc(OpenCV(s, 8, 9, cx=cx, cy=cy))}


def refused(rng):
    what = rng.choice(["projection", "no calibration", "no camera matrix", "size", "sensor"])
    if what == "projection":
        _, err = attempt(Agisoft.from_xml, io.StringIO("<calibration><projection>fisheye</projection><width>8</width><height>8</height><f>8</f></calibration>"))
    elif what == "no calibration":
        _, err = attempt(Agisoft.from_xml, io.StringIO("<document><width>8</width><height>8</height><f>8</f></document>"))
    elif what == "no camera matrix":
        _, err = attempt(OpenCV.from_xml, io.StringIO("<opencv_storage><distortion_coefficients><data>1 2 3 4</data></distortion_coefficients></opencv_storage>"), (8, 8))
    elif what == "size":
        _, err = attempt(Converter, Agisoft(rng.choice([(8, 9), (9, 8)]), f=8), Camera(imgsz=(8, 8), f=8))
    else:
        _, err = attempt(PhotoModeler.from_camera, Camera(imgsz=(8, 8), f=8))
    return {"op": "refused", "what": what, "expected": "ValueError", "err": err}


def run(c):
    rng = random.Random(c.seed)
    big = c.thorough
    models = c.behaviours_of("ConvertersMC", "SPECIFICATION Spec\nINVARIANTS Preserved Different Back Forth Tuned Emit\nCHECK_DEADLOCK FALSE\n"
                             f"CONSTANTS Full = {'TRUE' if big else 'FALSE'}\n", workers=8)
    k = 8 if big else 1
    c.judge("ConvertersTrace", [replay(rng, x) for x in models], "behaviours")
    hist = []
    for _ in range(300 * k):
        x = rmodel(rng, rng.choice(list(CLASSES)))
        if x["kind"] != "photomodeler":
            hist.append({"kf": "", "ev": [project(rng, x), to(rng, x, exact(x)), seen(rng, enc(make(x).to_camera(optimize=False)))]})
        hist.append({"kf": "", "ev": [file(rng), grid(rng), refused(rng), defaults(rng)]})
    c.judge("ConvertersTrace", hist, "projection and files")
    hist = []
    for _ in range(40 * k):
        hist.append({"kf": "", "ev": [recover(rng) for _ in range(3)]})
        hist.append({"kf": "", "ev": [asked(rng)]})
    for _ in range(30 * k):
        kind = rng.choice(list(CLASSES))
        x = rmodel(rng, kind, mild=True)
        if kind == "photomodeler":
            x["k"] = [rng.choice([0, 1]), 0, 0]
            x["p1"], x["p2"] = rng.choice([0, 0, 1]), rng.choice([0, 0, 1])
        elif not exact(x) and rng.random() < 0.6:
            # (one alone that is not that of a camera)
            if kind == "agisoft":
                x["k"][3], x["b2"] = rng.choice([(2, 0), (0, 1)])
            elif kind == "opencv":
                x["s"] = [2 if i == j else 0 for i, j in [(i, len(hist) // 2 % 4) for i in range(4)]]
        hist.append({"kf": "", "ev": [tuned_to(rng, x)]})
    for _ in range(3 * k):
        for i in range(4):
            x = rmodel(rng, "opencv", mild=True)
            x["s"] = [3 if i == j else 0 for j in range(4)]
            hist.append({"kf": "", "ev": [tuned_to(rng, x)]})
        for kind in CLASSES:
            for distorted in (True, False, 3, 4, 5):
                m = rcamera(rng, distorted)
                if distorted is False:
                    m["f"][1] += 1
                elif kind == "matlab":
                    m["c"] = [8, -5]
                hist.append({"kf": "", "ev": [tuned_from(rng, kind, m)]})
    c.judge("ConvertersTrace", hist, "optimization")


sys.exit(main("C20", run))
