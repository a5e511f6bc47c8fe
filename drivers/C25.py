"""C25: Plots of controls, rasters and images."""
import datetime
import os
import random
import shutil
import sys
import tempfile
import warnings

os.environ["MPLBACKEND"] = "agg"
import cv2
import matplotlib

matplotlib.use("agg")
import matplotlib.collections
import matplotlib.pyplot as plt
import numpy as np
import vlib
from vlib import INEXACT, NONE, attempt, main, q

from glimpse import Camera, Image, Observer, Raster
from glimpse.optimize import Cameras, Lines, Matches, Points, Polynomial, RotationMatches, RotationMatchesXY, RotationMatchesXYZ

warnings.simplefilter("ignore")
plt.rcParams["figure.figsize"] = (1, 1)
DIR = None
SIZES = [(160, 120), (180, 124)]
F = 128
COLORS = ["red", "green", "blue", "orange"]
ALL = {"kind": "all", "v": []}


def index(sel, n):
    if sel["kind"] == "all":
        return slice(None)
    if sel["kind"] == "slice":
        return slice(*(None if v == NONE else v for v in sel["v"]))
    if sel["kind"] == "mask":
        return np.array([v == 1 for v in sel["v"]], dtype=bool)
    return [int(v) for v in sel["v"]] if len(sel["v"]) % 2 else np.array(sel["v"], dtype=int)


def selection(rng, n):
    k = rng.randrange(4)
    if k == 0:
        return ALL
    if k == 1:
        return {"kind": "slice", "v": [rng.choice([NONE, rng.randint(-n - 1, n + 1)]), rng.choice([NONE, rng.randint(-n - 1, n + 1)]), rng.choice([NONE, 1, 2, -1])]}
    if k == 2:
        return {"kind": "list", "v": [rng.randint(-n, n - 1) for _ in range(rng.randint(0, n + 1))]}
    return {"kind": "mask", "v": [rng.randrange(2) for _ in range(n)]}


def n1(a):
    return [q(v, 1, 1e-6) for v in a]


def same(a, b):
    return matplotlib.colors.same_color(a, b)


class World:
    """Cameras, controls and a figure."""

    def __init__(self, rng, kinds, n=None):
        self.rng = rng
        x, y = rng.randint(-5, 5), rng.randint(-5, 5)
        self.cams = [[x, y, rng.randint(-5, 5), rng.randint(-5, 5)] for _ in range(2)]
        self.sizes = rng.choice([SIZES, SIZES[::-1], SIZES[:1] * 2])
        self.cam = [Camera(imgsz=n, f=F, c=c[2:], xyz=(x, 0, y), viewdir=(0, 0, 0)) for c, n in zip(self.cams, self.sizes)]
        self.controls, self.control = [], []
        for kind in kinds:
            m = n or rng.randint(1, 4)
            c = rng.randrange(2)
            uv = [[rng.randint(30, 130), rng.randint(30, 90)] for _ in range(m)]
            if kind == "points":
                xy = [[rng.randint(-40, 40), rng.randint(-25, 25)] for _ in range(m)]
                self.controls.append({"kind": kind, "cam": c + 1, "uv": uv, "xy": xy})
                self.control.append(Points(self.cam[c], np.array(uv, dtype=float), np.array([[p[0], F, p[1]] for p in xy], dtype=float)))
            elif kind == "matches":
                two = [uv, [[rng.randint(30, 130), rng.randint(30, 90)] for _ in range(m)]]
                order = rng.choice([[1, 2], [2, 1]])
                self.controls.append({"kind": kind, "cams": order, "uvs": two})
                self.control.append(rng.choice([Matches, Matches, RotationMatches])([self.cam[o - 1] for o in order], [np.array(v, dtype=float) for v in two]))
            else:
                cut = rng.randint(1, m) if m > 1 else 1
                uvs = [v for v in (uv[:cut], uv[cut:]) if v]
                xys = []
                for _ in range(rng.randint(1, 2)):
                    p = [rng.randint(-25, 25), rng.randint(-15, 15)]
                    line = [list(p)]
                    for _ in range(rng.randint(1, 3)):
                        d = rng.choice([-7, -3, -1, 2, 6])
                        p = [p[0] + d, p[1]] if rng.random() < 0.5 else [p[0], p[1] + d]
                        line.append(list(p))
                    xys.append(line)
                self.controls.append({"kind": "lines", "cam": c + 1, "uvs": uvs, "xys": xys})
                self.control.append(Lines(self.cam[c], [np.array(v, dtype=float) for v in uvs], [np.array([[p[0], F, p[1]] for p in v], dtype=float) for v in xys]))
        self.ev = []

    def end(self):
        plt.close("all")
        return {"kf": "", "cams": self.cams, "sizes": [list(n) for n in self.sizes], "controls": self.controls, "ev": self.ev}

    def size(self, i):
        k = self.controls[i]
        return len(k["uv"]) if k["kind"] == "points" else len(k["uvs"][0]) if k["kind"] == "matches" else sum(len(v) for v in k["uvs"])

    def state(self):
        out = [c.to_array().tolist() for c in self.cam]
        for k in self.control:
            out.append([np.asarray(v).tolist() for v in (k.uvs if hasattr(k, "uvs") else [k.uv])])
            out.append([np.asarray(v).tolist() for v in getattr(k, "xyzs", [])] + [np.asarray(getattr(k, "xyz", [])).tolist()])
            out.append(np.asarray(k.uv if hasattr(k, "uv") else []).tolist())
        return out

    def look(self, hidden, dark=False):
        rng = self.rng
        if hidden:
            return None
        color = rng.choice(COLORS)
        if rng.random() < 0.6:
            return color
        return {"color": color, "alpha": 0.5} if dark else {"color": color, **rng.choice([{}, {"width": 7}, {"scale": 4, "width": 2}])}

    def given(self, hide):
        """Arguments that hide or color parts, and what to expect of them."""
        rng = self.rng
        kw, want = {}, {}
        for name, gone, default in zip(("selected", "unselected", "observed", "predicted"), hide, ("red", "gray", "green", "yellow")):
            v = self.look(gone, name in ("observed", "predicted"))
            if not gone and rng.random() < 0.4:
                want[name] = {"color": default}
                continue
            kw[name] = v
            want[name] = v if isinstance(v, dict) else {"color": v}
        more = rng.choice([{}, {}, {"width": 3}, {"scale": 2}, {"alpha": 0.5}])
        return kw, want, more

    def result(self, r, want, more, wide):
        out = {"selected": [], "unselected": [], "observed": [], "predicted": [], "none": [0, 0], "style": 1}
        ok = True
        for name in ("unselected", "selected"):
            v = r[name]
            if v is None:
                out["none"][int(name == "selected")] = 1
                continue
            out[name] = [n1((v.X[k], v.Y[k], v.U[k], v.V[k])) for k in range(len(v.U))]
            w = {"scale": 1, "width": wide * 0.005, **more, **want[name]}
            ok &= v.scale == w["scale"] and v.angles == "xy" and v.scale_units == "xy" and v.units == "xy"
            ok &= abs(v.width - w["width"]) < 1e-9
            ok &= same(v.get_facecolor()[0][:3], matplotlib.colors.to_rgb(w["color"]))
        for name in ("observed", "predicted"):
            if r.get(name) is not None:
                out[name] = [[n1(p) for p in zip(v.get_xdata(), v.get_ydata())] for v in r[name]]
                ok &= all(same(v.get_color(), want[name]["color"]) for v in r[name])
        out["style"] = int(ok)
        return out

    def artists(self):
        return [v for f in plt.get_fignums() for ax in plt.figure(f).axes for v in list(ax.lines) + list(ax.collections) + list(ax.patches) + list(ax.images)] if plt.get_fignums() else []

    def draw(self, e, fn, args, want, more):
        """Plot and look at the figure."""
        opened = not plt.get_fignums()
        before = self.artists()
        marks = None
        if not opened:
            ax = plt.gca()
            ax.set_xlim(-3, 4)
            ax.set_ylim(5, 6)
            marks = ax.get_xlim() + ax.get_ylim()
        state = self.state()
        out, e["err"] = attempt(fn, **args)
        e["opened"], e["results"], e["alone"], e["stays"], e["limits"], e["same"] = int(opened), [], 0, 0, [], int(state == self.state())
        if e["err"]:
            return
        rs = out if isinstance(out, list) else [out]
        e["results"] = [self.result(r, want, more, self.sizes[e["cam"] - 1][0]) for r in rs]
        known = [v for r in rs for p in r.values() if p is not None for v in (p if isinstance(p, list) else [p])]
        after = self.artists()
        e["stays"] = int(all(any(a is b for b in after) for a in before))
        new = [a for a in after if not any(a is b for b in before)]
        e["alone"] = int(len(new) == len(known) and all(any(a is b for b in known) for a in new))
        if plt.get_fignums():
            ax = plt.gca()
            if opened:
                e["limits"] = [n1(ax.get_xlim()), n1(ax.get_ylim())]
            elif ax.get_xlim() + ax.get_ylim() != marks:
                e["limits"] = [n1(ax.get_xlim()), n1(ax.get_ylim())]

    def plot(self, i, sel, hide):
        k = self.controls[i]
        kw, want, more = self.given(hide)
        cam = k["cam"] if k["kind"] != "matches" else self.rng.choice(k["cams"])
        args = {**kw, **more}
        if k["kind"] != "lines":
            args.pop("observed", None)
            args.pop("predicted", None)
        if k["kind"] == "matches" and (k["cams"][0] != cam or self.rng.random() < 0.5):
            args["cam"] = self.rng.choice([k["cams"].index(cam), self.cam[cam - 1]])
        if sel["kind"] != "all" or self.rng.random() < 0.5:
            args["index"] = index(sel, self.size(i))
        e = {"op": "plot", "control": i + 1, "cam": cam, "sel": sel, "hide": hide}
        self.draw(e, self.control[i].plot, args, want, more)
        self.ev.append(e)

    def cameras(self, sel, hide, ks, moved=None, bad=False):
        rng = self.rng
        kw, want, more = self.given(hide)
        args = {**{{"observed": "lines_observed", "predicted": "lines_predicted"}.get(k, k): v for k, v in kw.items()}, **more}
        used = [c for c in (1, 2) if any(c in self.controls[i].get("cams", [self.controls[i].get("cam")]) for i in ks)]
        change = rng.choice(used) if rng.random() < 0.6 and not any(isinstance(self.control[i], RotationMatches) for i in ks) else None
        extra = {} if change is None else {"cam_params": [{"c": True} if c == change else {} for c in (1, 2)]}
        model, err = attempt(Cameras, self.cam, [self.control[i] for i in ks], **extra)
        cam = rng.choice(used)
        e = {"op": "cameras", "controls": [i + 1 for i in ks], "cam": cam, "sel": sel, "hide": hide, "moved": []}
        if err:
            e.update(err="Cameras: " + err, results=[], alone=0, stays=0, limits=[], same=0, opened=0)
            self.ev.append(e)
            return
        if change is not None and rng.random() < 0.8:
            e["moved"] = [change, rng.randint(-8, 8), rng.randint(-8, 8)]
            args["params"] = np.array(e["moved"][1:], dtype=float) if rng.random() < 0.5 else [float(v) for v in e["moved"][1:]]
        if cam != 1 or rng.random() < 0.5:
            args["cam"] = rng.choice([cam - 1, self.cam[cam - 1]])
        if sel["kind"] != "all" or rng.random() < 0.5:
            args["index"] = index(sel, self.size(ks[0]))
        if bad:
            args["index"] = rng.choice([[0], np.array([0]), slice(0, 1)])
            state = self.state()
            _, err = attempt(model.plot, **args)
            self.ev.append({"op": "refused", "err": err, "want": "ValueError", "same": int(state == self.state())})
            return
        self.draw(e, model.plot, args, want, more)
        self.ev.append(e)

    def refused(self):
        rng = self.rng
        state = self.state()
        if rng.random() < 0.5:
            kind = rng.choice([RotationMatchesXY, RotationMatchesXYZ])
            m = kind(self.cam, uvs=[[(40, 40)], [(50, 50)]])
            _, err = attempt(m.plot, **rng.choice([{}, {"cam": 0}]))
            want = "NotImplementedError"
        else:
            # Directions are of no use once the camera has moved
            pts = Points(self.cam[0], [(40, 40)], [(0, 1, 0)], directions=True)
            model = Cameras(self.cam, [pts], cam_params=[{"xyz": True}, {}])
            _, err = attempt(model.plot, params=[self.cams[0][0] + 1, 0, self.cams[0][1]])
            want = "ValueError"
        self.ev.append({"op": "refused", "err": err, "want": want, "same": int(state == self.state())})

    def weights(self, ks, sel=None):
        rng = self.rng
        n = sum(self.size(i) for i in ks)
        uv = [p for i in ks for p in (self.controls[i]["uv"] if self.controls[i]["kind"] == "points" else self.controls[i]["uvs"][0] if self.controls[i]["kind"] == "matches" else [p for v in self.controls[i]["uvs"] for p in v])]
        w = rng.choice([None, [rng.randint(1, 9) for _ in range(n)]])
        sel = sel or selection(rng, n)
        e = {"op": "weights", "sel": sel, "uv": uv, "w": w or [1] * n, "got": [], "color": [], "size": []}
        plt.figure()
        def make():
            return Cameras(self.cam, [self.control[i] for i in ks], weights=None if w is None else rng.choice([list, np.array])(w)).plot_weights(**({} if sel["kind"] == "all" and rng.random() < 0.5 else {"index": index(sel, n)}))
        out, e["err"] = attempt(make)
        if not e["err"]:
            s = sum(e["w"])
            e["got"] = [n1(p) for p in np.asarray(out.get_offsets())]
            e["color"] = [q(v * s, 1, 1e-6) for v in np.ravel(out.get_array())]
            e["size"] = [q(v * s, 1, 1e-6) for v in np.ravel(out.get_sizes())]
            if len(e["size"]) == 1:
                e["size"] = e["size"] * len(e["got"]) if len(e["got"]) == 1 or len(set(e["color"])) == 1 else e["size"]
        plt.close("all")
        self.ev.append(e)

    def polynomial(self):
        rng = self.rng
        deg = rng.choice([1, 1, 2])
        p = [rng.randint(-3, 3) for _ in range(deg + 1)]
        n = rng.randint(deg + 1, 6)
        xs = rng.sample(range(-6, 7), n)
        sel = selection(rng, n)
        fit = rng.random() < 0.5
        chosen = set(np.atleast_1d(np.arange(n)[index(sel, n)]).tolist()) if len(np.atleast_1d(np.arange(n)[index(sel, n)])) else set()
        if len(chosen) < deg + 1:
            fit = False
        xy = [[x, int(np.polyval(p, x)) + (0 if k in chosen and fit else rng.randint(-3, 3))] for k, x in enumerate(xs)]
        hide = [int(rng.random() < 0.3) for _ in range(3)]
        kw = {k: None for k, v in zip(("selected", "unselected", "predicted"), hide) if v}
        if not hide[2] and rng.random() < 0.3:
            kw["predicted"] = {"color": "blue"}
        if not hide[0] and rng.random() < 0.3:
            kw["selected"] = {"c": "blue", "marker": "x"}
        if not fit:
            kw["params"] = rng.choice([list, np.array])(p)
        if sel["kind"] != "all" or rng.random() < 0.5:
            kw["index"] = index(sel, n)
        e = {"op": "polynomial", "xy": xy, "p": p, "sel": sel, "hide": hide, "got": [[], []], "none": [0, 0], "line": []}
        plt.figure()
        out, e["err"] = attempt(Polynomial(np.array(xy) if rng.random() < 0.5 else xy, deg=deg).plot, **kw)
        if not e["err"]:
            for k, name in enumerate(("unselected", "selected")):
                v = out.get(name, 0)
                if v is None:
                    e["none"][k] = 1
                else:
                    e["got"][k] = [n1(r) for r in np.asarray(v.get_offsets())] if v != 0 else [[INEXACT, INEXACT]]
            if out["predicted"] is not None:
                e["line"] = [[q(a, 1, 1e-5), q(b, 1, 1e-5)] for v in out["predicted"] for a, b in zip(v.get_xdata(), v.get_ydata())]
        plt.close("all")
        self.ev.append(e)

    def raster(self):
        rng = self.rng
        nx, ny = rng.randint(1, 6), rng.randint(1, 6)
        plt.figure()
        if rng.random() < 0.7:
            d = [rng.choice([1, 2, 3, -2]), rng.choice([1, 2, -1, -3, -2])]
            x, y = rng.randint(-9, 9), rng.randint(-9, 9)
            lims = [[x, x + nx * d[0]], [y, y + ny * d[1]]]
            a = np.array([[rng.randint(-99, 99) for _ in range(nx)] for _ in range(ny)], dtype=float)
            if rng.random() < 0.4:
                a[rng.randrange(ny), rng.randrange(nx)] = np.nan
            r = Raster(a.copy(), x=lims[0], y=lims[1])
            b = a if rng.random() < 0.6 else a + 1
            out, err = attempt(r.plot, **({"array": b.copy()} if b is not a else {}), **rng.choice([{}, {"cmap": "gray"}]))
            limit = r.set_plot_limits
        else:
            nx, ny = rng.randint(2, 9), rng.randint(2, 9)
            b = np.random.RandomState(rng.randrange(1 << 30)).randint(0, 256, (ny, nx, 3)).astype(np.uint8)
            path = os.path.join(DIR, "p.tif")
            cv2.imwrite(path, b[:, :, ::-1])
            lims = [[0, nx], [0, ny]]
            img = Image(path, cam=Camera(imgsz=(nx, ny), f=10), datetime=datetime.datetime(2020, 1, 1))
            out, err = attempt(img.plot)
            limit = rng.choice([img.set_plot_limits, img.cam.set_plot_limits])
            os.unlink(path)
        e = {"op": "raster", "shape": [ny, nx], "xlim": lims[0], "ylim": lims[1], "x": [], "y": [], "values": 0, "limits": [], "err": err}
        if not err:
            l, r_, bottom, top = out.get_extent()
            xs = [2 * l + (2 * i + 1) * (r_ - l) / nx for i in range(nx)]
            ys = [2 * top + (2 * i + 1) * (bottom - top) / ny for i in range(ny)]
            if out.origin != "upper":
                ys = ys[::-1]
            e["x"], e["y"] = n1(xs), n1(ys)
            got = out.get_array()
            got = np.ma.filled(got.astype(float), np.nan)
            e["values"] = int(got.shape == b.shape and np.array_equal(got, b.astype(float), equal_nan=True))
            _, e["err"] = attempt(limit)
            ax = plt.gca()
            e["limits"] = [n1(ax.get_xlim()), n1(ax.get_ylim())]
        plt.close("all")
        self.ev.append(e)

    def box(self):
        rng = self.rng
        x, y = rng.randint(-9, 50), rng.randint(-9, 50)
        box = [x, y, x + rng.randint(1, 30), y + rng.randint(1, 30)]
        images = [Image("none.tif", cam=c, datetime=datetime.datetime(2020, 1, 1 + k)) for k, c in enumerate(self.cam)]
        fig, ax = plt.subplots()
        given = rng.choice([box, np.array(box), tuple(box)])
        out, err = attempt(Observer(images).plot_box, given, **rng.choice([{}, {"axes": ax}]), **rng.choice([{}, {"fill": False}]))
        self.ev.append({"op": "box", "box": box, "err": err, "got": [] if err else n1((out.get_x(), out.get_y(), out.get_x() + out.get_width(), out.get_y() + out.get_height()))})
        plt.close("all")


def hides(rng, pair=None):
    return (list(pair) if pair else [int(rng.random() < 0.2), int(rng.random() < 0.2)]) + [int(rng.random() < 0.2), int(rng.random() < 0.2)]


def replay(rng, b):
    plt.close("all")
    w = World(rng, ["points", "lines", "matches", "points"], n=2)
    if not b["opened"]:
        pass
    else:
        plt.figure()
    for o in b["ops"]:
        if o["op"] == "close":
            plt.close("all")
            continue
        hide = hides(rng, o["hide"])
        if o["kind"] == "cameras":
            w.cameras(o["sel"], hide, [rng.randrange(4)])
        else:
            w.plot(["points", "lines", "matches", "other"].index(o["kind"]), o["sel"], hide)
    return w.end()


def anything(rng):
    plt.close("all")
    kinds = [rng.choice(["points", "lines", "matches"]) for _ in range(rng.randint(2, 4))]
    w = World(rng, kinds)
    for _ in range(2):
        i = rng.randrange(len(kinds))
        w.plot(i, selection(rng, w.size(i)), hides(rng))
        if rng.random() < 0.5:
            plt.close("all")
    ks = rng.sample(range(len(kinds)), rng.randint(2, len(kinds)))
    w.cameras(ALL, hides(rng), ks)
    w.cameras(ALL, hides(rng), ks, bad=True)
    i = rng.randrange(len(kinds))
    w.cameras(selection(rng, w.size(i)), hides(rng), [i])
    plt.close("all")
    w.refused()
    w.weights(ks if rng.random() < 0.6 else [i])
    w.polynomial()
    w.raster()
    w.box()
    return w.end()


def run(c):
    global DIR
    DIR = tempfile.mkdtemp(prefix="c25_")
    try:
        rng = random.Random(c.seed)
        big = c.thorough
        scripts = c.behaviours_of("PlotsMC", "SPECIFICATION Spec\nINVARIANTS Once Pixels Emit\nPROPERTIES Stays First\n"
                                  "CHECK_DEADLOCK FALSE\nCONSTANTS Depth = 2\n", workers=8)
        hist = [replay(rng, b) for b in scripts if rng.random() < (0.3 if big else 0.015)]
        c.judge("PlotsTrace", hist, "behaviours")
        c.judge("PlotsTrace", [anything(rng) for _ in range(4000 if big else 200)], "any")
    finally:
        plt.close("all")
        shutil.rmtree(DIR, ignore_errors=True)


sys.exit(main("C25", run))
