"""C17: Keypoint matches connect exactly the requested pairs of images."""
import contextlib
import datetime
import io
import os
import random
import shutil
import sys
import tempfile

import cv2
import numpy as np
import vlib
from vlib import PINF, attempt, main, q, qi

from glimpse import Camera, Image, helpers
from glimpse.optimize import KeypointMatcher, Matches, RotationMatches, RotationMatchesXY, RotationMatchesXYZ

W = 1 << 20
NX, NY = 16, 12
T0 = datetime.datetime(2020, 1, 1)
KINDS = {k.__name__: k for k in (Matches, RotationMatches, RotationMatchesXY, RotationMatchesXYZ)}
NORMALIZED = ("RotationMatchesXY", "RotationMatchesXYZ")


class Dots:
    """Detector of pixels that are not zero, by row."""

    def __init__(self, least=1):
        self.least = least

    @classmethod
    def create(cls, **kwargs):
        return cls(**kwargs)

    def detectAndCompute(self, array, mask=None):
        rows, cols = np.nonzero((array >= self.least) & (True if mask is None else mask > 0))
        keypoints = [cv2.KeyPoint(float(u), float(v), 1.0) for u, v in zip(cols, rows)]
        if not keypoints:
            return [], None
        return keypoints, np.array([[array[v, u], 0, 0, 0] for u, v in zip(cols, rows)], dtype=np.float32)


def region(box):
    """Mask of columns and rows."""
    if not box:
        return None
    mask = np.zeros((NY, NX), dtype=np.uint8)
    mask[box[1]:box[3] + 1, box[0]:box[2] + 1] = 1
    return mask


def enc_keypoints(k):
    if k is None:
        return {"has": 0, "pts": []}
    return {"has": 1, "pts": [[q(p.pt[0]), q(p.pt[1]), q(d[0])] for p, d in zip(k[0], k[1] if k[1] is not None else [])]}


def enc_match(m):
    kind = type(m).__name__
    uvs = m.uvs
    if kind in NORMALIZED:
        a, b = ([cam._xy_to_uv(xy) for cam, xy in zip(m.cams, m.xys)])
    else:
        a, b = uvs
    pts = [[q(x) for x in (*p, *r)] for p, r in zip(np.asarray(a), np.asarray(b))] if len(a) == len(b) else [[vlib.BADSHAPE] * 4]
    w = m.weights
    # (image points and normalized coordinates agree)
    if kind != "Matches" and uvs is not None:
        if not all(np.allclose(cam._uv_to_xy(uv), xy) for cam, uv, xy in zip(m.cams, uvs, m.xys) if len(uv)):
            pts = [[vlib.BADSHAPE] * 4]
    return {"pts": pts, "has": int(w is not None), "w": [] if w is None else [PINF if np.isinf(x) else qi(x, W) for x in w]}


class Session:
    """Images and their matcher."""

    def __init__(self, rng, times, contents, root):
        self.rng, self.root = rng, root
        self.times, self.n = times, len(times)
        self.names = [f"img{i + 1}" for i in range(self.n)]
        self.first = [[list(p) for p in c] for c in contents]
        os.makedirs(root)
        self.images = []
        cam = {"imgsz": (NX, NY), "f": (16, 16)}
        for i, c in enumerate(contents):
            self.write(i, c)
            self.images.append(Image(self.file(i), cam=Camera(**cam, viewdir=(i, 0, 0)), datetime=T0 + datetime.timedelta(days=times[i])))
        self.ids = list(range(1, self.n + 1))
        self.m = KeypointMatcher(list(self.images), **({} if rng.random() < 0.9 else {"clahe": False}))
        self.kdir, self.mdir = os.path.join(root, "keypoints"), os.path.join(root, "matches")
        self.over = False
        self.ev = []

    def file(self, i):
        return os.path.join(self.root, self.names[i] + ".png")

    def write(self, i, content):
        colors = self.rng.random() < 0.3
        a = np.zeros((NY, NX, 3) if colors else (NY, NX), dtype=np.uint8)
        for u, v, d in content:
            # (bands that differ, but not in mean)
            a[v, u] = (d - 1, d, d + 1) if colors else d
        cv2.imwrite(self.file(i), a)

    def call(self, fn, *args, **kwargs):
        with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
            return attempt(fn, *args, limit=60, **kwargs)

    def note(self, op, err="", **kw):
        m = self.m
        kp = [enc_keypoints(k) for k in (m.keypoints if m.keypoints is not None else [None] * len(m.images))]
        files, mfiles = [], []
        for name in self.names:
            path = os.path.join(self.kdir, name + ".pkl")
            files.append(enc_keypoints(helpers.read_pickle(path) if os.path.isfile(path) else None))
        for path in sorted(os.listdir(self.mdir)) if os.path.isdir(self.mdir) else []:
            a, _, b = path[:-4].partition("-")
            x = helpers.read_pickle(os.path.join(self.mdir, path))
            mfiles.append({"a": self.names.index(a) + 1, "b": self.names.index(b) + 1, "m": enc_match(x)})
        imgs = [self.images.index(x) + 1 for x in m.images]
        has, matches, own = int(m.matches is not None), [], 1
        if has:
            own = int(m.matches.shape == (len(m.images),) * 2)
            for x, i, j in zip(m.matches.data, m.matches.row, m.matches.col):
                matches.append({"i": int(i) + 1, "j": int(j) + 1, "kind": type(x).__name__, "uv": int(x.uvs is not None), "m": enc_match(x)})
                if x.cams[0] is not m.images[i].cam or x.cams[1] is not m.images[j].cam:
                    own = 0
        self.ev.append({"op": op, "err": err, "kp": kp, "files": files, "mfiles": mfiles, "imgs": imgs, "has": has, "matches": matches, "own": own,
                        "mem": [int(x.array is not None) for x in m.images], **kw})
        if err and op == "matches":
            self.over = True
        return not err

    def parallel(self):
        return self.rng.choice([1, 2]) if self.rng.random() < 0.04 else False

    # ---- What is asked ----

    def keypoints(self, path=0, over=0, clear=0, boxes=None, least=0):
        n, rng = len(self.m.images), self.rng
        kw = {"method": Dots}
        if boxes is None:
            boxes = [[] for _ in range(n)]
        elif len({tuple(b) for b in boxes}) == 1 and n > 1:
            kw["masks"] = region(boxes[0])
        else:
            kw["masks"] = [region(b) for b in boxes]
        if path:
            kw["path"] = self.kdir
        if over:
            kw["overwrite"] = True
        if clear:
            kw["clear_keypoints"] = True
        if least:
            kw["least"] = least
        if rng.random() < 0.3:
            kw["clear_images"] = rng.random() < 0.5
        kw["parallel"] = parallel = self.parallel()
        _, err = self.call(self.m.build_keypoints, **kw)
        self.note("keypoints", err, path=path, over=over, clear=clear, box=[], boxes=[list(b) for b in boxes], least=least,
                  keepimg=int(not kw.get("clear_images", True)), parallel=int(bool(parallel)))

    def edit(self, i, content):
        self.write(i - 1, content)
        self.images[i - 1].array = None
        self.note("edit", id=i, new=[list(p) for p in content])

    def matches(self, path=0, kpath=0, over=0, clearkp=1, clear=0, maxdt=-1, seq=None, imgs=None, kind="", cross=0, ratio=0, dist=0,
                weights=0, box=(), f=None, exact=False):
        rng, kw = self.rng, {}
        if maxdt >= 0:
            kw["maxdt"] = datetime.timedelta(days=maxdt)
        if seq is not None:
            kw["seq"] = rng.choice([list, tuple, np.array])(seq)
        if imgs is not None:
            kw["imgs"] = rng.choice([list, tuple, np.array])([i - 1 for i in imgs])
        if kpath:
            kw["keypoints_path"] = self.kdir
        if path:
            kw["path"] = self.mdir
        for name, x in (("overwrite", over), ("clear_matches", clear), ("cross_check", cross), ("weights", weights)):
            if x:
                kw[name] = True
        if not clearkp or rng.random() < 0.3:
            kw["clear_keypoints"] = bool(clearkp)
        if kind:
            kw["mtype"] = KINDS[kind]
        if ratio:
            kw["max_ratio"] = ratio / 8
        if dist:
            kw["max_distance"] = dist / 2
        if box:
            kw["mask"] = region(box)
        if f:
            kw["filter"] = self.limits(f)
        kw["parallel"] = parallel = self.parallel()
        if exact or rng.random() < 0.8:
            kw["matcher"] = cv2.BFMatcher()
        if parallel:
            # (cannot be shared between processes)
            kw.setdefault("matcher", cv2.BFMatcher())
        _, err = self.call(self.m.build_matches, **kw)
        return self.note("matches", err, path=path, kpath=kpath, over=over, clearkp=clearkp, clear=clear, maxdt=maxdt, seq=list(seq or []), useseq=int(seq is not None),
                         sel=list(imgs or []), useimgs=int(imgs is not None), kind=kind, cross=cross, ratio=ratio, dist=dist, weights=weights,
                         box=list(box), dofilter=int(bool(f)), f=f or {"dist": 0, "least": 0}, parallel=int(bool(parallel)))

    def limits(self, f):
        kw = {}
        if f["dist"]:
            kw["max_distance"] = f["dist"] / 2
        if f["least"]:
            kw["min_weight"] = f["least"] / W
        return kw

    def drop(self, gone):
        g = [i - 1 for i in gone]
        _, err = self.call(self.m.drop_images, g[0] if len(g) == 1 and self.rng.random() < 0.5 else self.rng.choice([list, np.array])(g))
        self.note("drop", err, gone=list(gone))

    def breaks(self, least):
        found, err = self.call(self.m.match_breaks, *([least] if least or self.rng.random() < 0.5 else []))
        self.note("breaks", err, least=least, found=[] if err else [q(x) + 1 for x in found])

    def count(self):
        points, e = self.call(self.m.matches_per_image)
        images, err = self.call(self.m.images_per_image)
        self.note("count", e or err, points=[] if e else [q(x) for x in points], images=[] if err else [q(x) for x in images])

    def convert(self, kind, clearuv):
        kw = {"clear_uvs": True} if clearuv else {}
        _, err = self.call(self.m.convert_matches, KINDS[kind], parallel=self.parallel(), **kw)
        self.note("convert", err, kind=kind, clearuv=clearuv)

    def filter(self, f, clearw):
        _, err = self.call(self.m.filter_matches, clear_weights=bool(clearw), parallel=self.parallel(), **self.limits(f))
        self.note("filter", err, f=f, clearw=clearw)

    def history(self):
        shutil.rmtree(self.root)
        return {"kf": "", "imgs": list(range(1, self.n + 1)), "t": self.times, "content": self.first, "ev": self.ev}


# ---- Inputs ----

def content(rng):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6])
    spots = rng.sample([(u, v) for v in range(NY) for u in range(NX)], n)
    spots.sort(key=lambda p: (p[1], p[0]))
    ds = rng.sample(range(1, 41), n) if rng.random() < 0.8 else [rng.choice([7, 7, 20, 33]) for _ in range(n)]
    return [[u, v, d] for (u, v), d in zip(spots, ds)]


def box(rng):
    u, v = rng.randrange(NX - 4), rng.randrange(NY - 3)
    return [u, v, rng.randint(u + 3, NX - 1), rng.randint(v + 3, NY - 1)]


def odd(rng):
    return rng.choice([5, 9, 13, 17, 21])


def limits(rng, weights):
    f = {"dist": 0, "least": 0}
    if not weights or rng.random() < 0.5:
        f["dist"] = odd(rng)
    else:
        f["least"] = round((rng.randint(1, 6) + 0.0123) * W)
    return f


def some(rng, n):
    return sorted(rng.sample(range(1, n + 1), rng.randint(1, n)))


def anything(rng, root):
    n = rng.choice([1, 2, 3, 3, 4, 4, 5])
    times = sorted(rng.choice([0, 1, 2, 3, 4, 6, 9]) for _ in range(n))
    s = Session(rng, times, [content(rng) for _ in range(n)], root)
    kpath_used = 0
    while len(s.ev) < rng.choice([3, 5, 8]):
        k, n = rng.random(), len(s.m.images)
        weighted = s.m.matches is not None and len(s.m.matches.data) and all(x.weights is not None for x in s.m.matches.data)
        if k < 0.3 or not s.ev:
            boxes = None
            if rng.random() < 0.4:
                boxes = [box(rng)] * n if rng.random() < 0.5 else [box(rng) if rng.random() < 0.7 else [] for _ in range(n)]
                if not boxes or not any(boxes):
                    boxes = None
            s.keypoints(path=int(rng.random() < 0.6), over=int(rng.random() < 0.3), clear=int(rng.random() < 0.2), boxes=boxes,
                        least=rng.choice([0, 0, 0, 5, 15]))
        elif k < 0.36:
            s.edit(rng.randint(1, s.n), content(rng))
        elif k < 0.66:
            kw = {name: int(rng.random() < p) for name, p in
                  (("path", 0.5), ("kpath", 0.7), ("over", 0.3), ("clearkp", 0.4), ("clear", 0.12), ("cross", 0.5), ("weights", 0.4))}
            if rng.random() < 0.4:
                kw["maxdt"] = rng.randrange(5)
            if rng.random() < 0.4:
                kw["seq"] = [rng.randint(-1, 4) for _ in range(rng.randint(0, 3))]
            if rng.random() < 0.3:
                kw["imgs"] = some(rng, n) if n else []
            if rng.random() < 0.4:
                kw["kind"] = rng.choice(list(KINDS))
            if rng.random() < 0.3:
                kw["ratio"] = rng.choice([3, 4, 6, 7])
            if rng.random() < 0.2:
                kw["dist"] = odd(rng)
            if rng.random() < 0.1:
                kw["box"] = box(rng)
            if rng.random() < 0.3 and kw["path"] and not kw["clear"]:
                kw["f"] = limits(rng, kw["weights"] and kw["over"])
            if not s.matches(**kw):
                break
        elif s.m.matches is None and rng.random() < 0.8:
            continue
        elif k < 0.72:
            s.drop(some(rng, n)[:2] if n else [1])
            if not len(s.m.images):
                break
        elif k < 0.78:
            s.breaks(rng.choice([0, 1, 2, 3]))
        elif k < 0.84:
            s.count()
        elif k < 0.92:
            s.convert(rng.choice(list(KINDS)), int(rng.random() < 0.4))
        else:
            f = limits(rng, weighted) if rng.random() < 0.8 else {"dist": 0, "least": 0}
            s.filter(f, int(rng.random() < 0.3))
    return s.history()


def replay(rng, ops, root):
    """A behaviour of the model."""
    def points(i, v):
        return [[v, i, 10 * i], [v + 3, i, 50 + 7 * i]]

    s = Session(rng, [0, 1, 2], [points(i, 0) for i in (1, 2, 3)], root)
    for o in ops:
        if o["op"] == "keypoints":
            s.keypoints(path=o["path"], over=o["over"], clear=o["clear"])
        elif o["op"] == "edit":
            s.edit(o["id"], points(o["id"], 1))
        elif o["op"] == "drop":
            s.drop(o["gone"])
        else:
            s.matches(path=o["path"], kpath=o["kpath"], over=o["over"], clearkp=o["clearkp"], clear=o["clear"], cross=1,
                      seq=o["seq"] if o["useseq"] else None, imgs=o["sel"] if o["useimgs"] else None)
    return s.history()


def run(c):
    rng = random.Random(c.seed)
    big = c.thorough
    scripts = c.behaviours_of(
        "KeypointsMC", f"SPECIFICATION Spec\nINVARIANTS Ordered FromOwn OwnFile Emit\nPROPERTIES OnlyAsked MatchesOnlyAsked\nCONSTANTS N = {5 if big else 4}\n"
        "CHECK_DEADLOCK FALSE\n", workers=8)
    rng.shuffle(scripts)
    k = 8 if big else 1
    root = tempfile.mkdtemp(prefix="c17_")
    try:
        c.judge("KeypointsTrace", [replay(rng, b, f"{root}/b{n}") for n, b in enumerate(scripts[:500 * k])], "behaviours")
        c.judge("KeypointsTrace", [anything(rng, f"{root}/a{n}") for n in range(900 * k)], "requests")
    finally:
        shutil.rmtree(root)


sys.exit(main("C17", run))
