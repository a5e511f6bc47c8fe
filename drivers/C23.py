"""C23: Metadata of images: read, edit, write; images from it."""
import datetime
import fractions
import os
import random
import shutil
import struct
import sys
import tempfile

import cv2
import numpy as np
import vlib
from vlib import INEXACT, attempt, main, q, qi

from glimpse import Camera, Exif, Image

DIR = None
SENSORS = [("NIKON CORPORATION", "NIKON D2X"), ("NIKON CORPORATION", "NIKON D200"), ("NIKON CORPORATION", "NIKON D300S"), ("NIKON", "E8700"), ("Canon", "Canon EOS 20D"), ("Canon", "Canon EOS 40D")]
TEXT = {"time": ("Exif", "DateTimeOriginal", 36867), "sub": ("Exif", "SubSecTimeOriginal", 37521), "make": ("0th", "Make", 271), "model": ("0th", "Model", 272)}
RATIO = {"fmm": ("FocalLength", 37386), "exposure": ("ExposureTime", 33434), "aperture": ("FNumber", 33437)}
LIST = {"w": ("PixelXDimension", 40962), "h": ("PixelYDimension", 40963), "iso": ("ISOSpeedRatings", 34855)}
POINTERS = ("ExifTag", "GPSTag", "InteroperabilityTag")


def raw(chars):
    return "".join("\0" if c == "NUL" else c for c in chars)


def chars(text):
    return ["NUL" if c == "\0" else c for c in text]


# ---- Files ----

def ifd(end, entries, start, link=0):
    """Directory of (code, type, values) at an offset."""
    fmt = {1: "B", 2: "B", 3: "H", 4: "L", 5: "L", 7: "B", 10: "l"}
    entries = sorted(entries)
    head = struct.pack(end + "H", len(entries))
    data, at = b"", start + 2 + 12 * len(entries) + 4
    for code, kind, values in entries:
        if isinstance(values, bytes):
            n, body = len(values), values
        else:
            n = len(values) // 2 if kind in (5, 10) else len(values)
            body = struct.pack(end + fmt[kind] * len(values), *values)
        if len(body) <= 4:
            slot = body + b"\0" * (4 - len(body))
        else:
            slot = struct.pack(end + "L", at + len(data))
            data += body + b"\0" * (len(body) % 2)
        head += struct.pack(end + "HHL", code, kind, n) + slot
    return head + struct.pack(end + "L", link) + data


def block(rng, t, extras, thumb):
    """Metadata as bytes in either byte order."""
    end = rng.choice("<>")
    exif, zeroth, gps = [], [], []
    for k, (group, _, code) in TEXT.items():
        if t[k]:
            (exif if group == "Exif" else zeroth).append((code, 2, raw(t[k]).encode() + b"\0"))
    for k, (_, code) in RATIO.items():
        if t[k]:
            exif.append((code, 5, t[k]))
    for k, (_, code) in LIST.items():
        if t[k]:
            exif.append((code, 3 if k == "iso" else rng.choice([3, 4]), t[k]))
    for group, entry in extras:
        {"Exif": exif, "0th": zeroth, "GPS": gps}[group].append(entry)
    # Sizes do not depend on the values of pointers
    z = zeroth + [(34665, 4, [0])] + ([(34853, 4, [0])] if gps else [])
    a = 8 + len(ifd(end, z, 8))
    b = a + len(ifd(end, exif, a))
    c = b + (len(ifd(end, gps, b)) if gps else 0)
    z = zeroth + [(34665, 4, [a])] + ([(34853, 4, [b])] if gps else [])
    out = ifd(end, z, 8, c if thumb else 0) + ifd(end, exif, a) + (ifd(end, gps, b) if gps else b"")
    if thumb:
        first = [(259, 3, [6]), (513, 4, [0]), (514, 4, [len(thumb)])]
        at = c + len(ifd(end, first, c))
        first[1] = (513, 4, [at])
        out += ifd(end, first, c) + thumb
    return (b"II*\0" if end == "<" else b"MM\0*") + struct.pack(end + "L", 8) + out


def jpeg(array):
    return cv2.imencode(".jpg", array)[1].tobytes()


EXTRAS = [[], [("0th", (274, 3, [6]))], [("0th", (318, 5, [313, 1000, 329, 1000])), ("Exif", (37500, 7, b"\x00\xff\x10vendor\x00"))],
          [("GPS", (1, 2, b"S\0")), ("GPS", (2, 5, [64, 1, 30, 1, 1234, 100])), ("Exif", (37380, 10, [-4, 6])), ("Exif", (36864, 7, b"0230"))]]
SAID = [{}, {("0th", "Orientation"): 6}, {("0th", "WhitePoint"): ((313, 1000), (329, 1000)), ("Exif", "MakerNote"): b"\x00\xff\x10vendor\x00"},
        {("GPS", "GPSLatitudeRef"): b"S", ("GPS", "GPSLatitude"): ((64, 1), (30, 1), (1234, 100)), ("Exif", "ExposureBiasValue"): (-4, 6), ("Exif", "ExifVersion"): b"0230"}]
NAMES = {n for _, n, _ in TEXT.values()} | {n for n, _ in list(RATIO.values()) + list(LIST.values())} | set(POINTERS)


def store(rng, path, t):
    array = np.array([[rng.randrange(256) for _ in range(8)] for _ in range(6)], dtype=np.uint8)
    thumb = jpeg(array[:4, :4]) if t["thumb"] else b""
    b = block(rng, t, EXTRAS[t["extra"]], thumb)
    j = jpeg(array)
    with open(path, "wb") as f:
        if path.endswith(".tif"):
            f.write(b)
        else:
            f.write(j[:2] + b"\xff\xe1" + struct.pack(">H", len(b) + 8) + b"Exif\0\0" + b + j[2:])


def ratio(x):
    if x is None:
        return []
    try:
        f = fractions.Fraction(float(x)).limit_denominator(20000)
        return [f.numerator, f.denominator] if abs(float(f) - x) <= 1e-12 * abs(x) else [INEXACT, 1]
    except Exception:
        return [INEXACT, 1]


def moment(d):
    return [] if d is None else [d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond]


def said(e):
    rest = {(g, n): v for g, d in e.tags.items() if g in ("0th", "Exif", "GPS", "Interop") for n, v in d.items() if n not in NAMES}
    k = [i for i, v in enumerate(SAID) if v == rest]
    p = {"size": e.imgsz, "iso": e.iso, "sensor": e.sensorsz}
    return {"size": [] if p["size"] is None else [q(v) for v in p["size"]], "time": moment(e.datetime), "fmm": ratio(e.fmm), "exposure": ratio(e.exposure),
            "aperture": ratio(e.aperture), "iso": [] if p["iso"] is None else [q(p["iso"])], "make": e.make or "", "model": e.model or "",
            "sensor": [] if p["sensor"] is None else [q(v, 10) for v in p["sensor"]], "extra": k[0] if k else -1, "thumb": int(bool(e.tags.get("thumbnail")))}


# ---- Tags ----

def dates(rng):
    k = rng.random()
    if k < 0.1:
        return ""
    if k < 0.2:
        return rng.choice(["    :  :     :  :  ", "0000:00:00 00:00:00", "                   "])
    d = datetime.datetime(rng.randint(1900, 2100), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))
    return d.strftime("%Y:%m:%d %H:%M:%S") + rng.choice(["", "", "\0"])


def subs(rng):
    s = "".join(rng.choice("0123456789") for _ in range(rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 7, 9])))
    return rng.choice(["", "", "", " "]) + s + rng.choice(["", "", "", "   ", "\0", "\0\0 "])


def value(rng, k):
    if k == "time":
        return chars(dates(rng))
    if k == "sub":
        return chars(subs(rng))
    if k in ("make", "model"):
        return chars(rng.choice(["", "ACME", "NIKON", "Canon ", "NIKON CORPORATION", "NIKON D200", "E8700", "Canon EOS 40D\0\0", "\0"]))
    if k in RATIO:
        return rng.choice([[], [0, 10], [20, 0], [200, 10], [7, 3], [1, 8000], [56, 10], [rng.randint(1, 400), rng.randint(1, 9)]])
    if k == "iso":
        return rng.choice([[], [0], [100], [200, 200], [400, 0], [64, 100, 7], [rng.randint(1, 60000)]])
    return rng.choice([[], [0], [800], [rng.randint(1, 60)], [rng.randint(1, 100)], [40]])


FIELDS = ["time", "sub", "w", "h", "fmm", "exposure", "aperture", "iso", "make", "model"]


def tags(rng, file=True):
    t = {k: [] if rng.random() < 0.2 else value(rng, k) for k in FIELDS}
    if rng.random() < 0.6:
        a, b = rng.choice(SENSORS)
        t["make"], t["model"] = chars(a + rng.choice(["", "", " ", "  ", "\0", " \0x"])), chars(rng.choice(["", "", " "]) + b + rng.choice(["", " ", "\0\0"]))
    t["extra"], t["thumb"] = rng.randrange(len(EXTRAS)), int(rng.random() < 0.3)
    return t


class World:
    """Two files and the metadata in memory."""

    def __init__(self, rng, tiff=False):
        self.rng, self.ev = rng, []
        self.paths = [os.path.join(DIR, f"{rng.getrandbits(60):x}{e}") for e in ((".jpg", ".tif") if tiff else (".jpg", ".jpg"))]
        self.disk, self.mem, self.exif = [None, None], None, None

    def store(self, f, t):
        self.disk[f] = t
        store(self.rng, self.paths[f], t)
        self.ev.append({"op": "store", "file": f + 1, "t": t})

    def load(self, f):
        keep = self.rng.random() < 0.4
        e, err = attempt(Exif, self.paths[f], **({"thumbnail": True} if keep else {}))
        if not err:
            self.exif, self.mem = e, {**self.disk[f], "thumb": self.disk[f]["thumb"] if keep else 0}
        self.ev.append({"op": "load", "file": f + 1, "keep": int(keep), "err": err})

    def read(self):
        r, err = attempt(said, self.exif)
        self.ev.append({"op": "read", "err": err, "got": r or []})

    def peek(self, f):
        r, err = attempt(lambda: said(Exif(self.paths[f], thumbnail=True)))
        self.ev.append({"op": "peek", "file": f + 1, "err": err, "got": r or []})

    def set(self, k, v):
        self.mem = {**self.mem, k: v}
        group, name = TEXT[k][:2] if k in TEXT else ("Exif", (RATIO.get(k) or LIST[k])[0])
        if not v and (k not in TEXT or self.rng.random() < 0.5):
            self.exif.tags[group].pop(name, None)
        elif k in TEXT:
            self.exif.tags[group][name] = raw(v).encode()
        else:
            self.exif.tags[group][name] = tuple(v) if k in RATIO or len(v) > 1 else v[0]
        self.ev.append({"op": "set", "t": self.mem})

    def insert(self, f):
        pixels = lambda: cv2.imread(self.paths[f], cv2.IMREAD_UNCHANGED | cv2.IMREAD_IGNORE_ORIENTATION)
        before, tags0 = pixels(), repr(self.exif.tags)
        _, err = attempt(self.exif.insert, self.paths[f])
        after = pixels()
        if not err:
            self.disk[f] = self.mem
        self.ev.append({"op": "insert", "file": f + 1, "err": err, "pixels": int(after is not None and np.array_equal(before, after)), "same": int(repr(self.exif.tags) == tags0)})

    def image(self, g, form, f, use=False):
        rng = self.rng
        kw, args = {}, {}
        if g["size"]:
            args["imgsz"] = rng.choice([tuple, list, np.array])(g["size"])
        if g["f"]:
            args["f"] = rng.choice([tuple, list, np.array])(g["f"])
        if g["fmm"]:
            args["fmm"] = g["fmm"][0] / g["fmm"][1]
            args["fmm"] = rng.choice([args["fmm"], (args["fmm"],) * 2])
        if g["sensor"]:
            args["sensorsz"] = tuple(v / 10 for v in g["sensor"])
        if g["cmm"]:
            args["cmm"] = (0.5, -0.25)
        other = rng.choice([{}, {"xyz": (1, 2, 3)}, {"xyz": (1, 2, 3), "k": (0.1,)}])
        args.update(other)
        cam = None
        if form == "camera":
            cam = kw["cam"] = Camera(imgsz=(12, 8), f=10)
        elif args or rng.random() < 0.5:
            kw["cam"] = args
        if g["time"]:
            kw["datetime"] = datetime.datetime(*g["time"])
        if use:
            kw["exif"] = self.exif
        path = self.paths[f] if f >= 0 else os.path.join(DIR, "missing.jpg")
        copy = repr(args), repr(cam.to_dict()) if cam else ""
        im, err = attempt(Image, path, **kw)
        e = {"op": "image", "file": f + 1, "use": int(use), "form": form, "g": g, "err": err, "time": [], "same": 0, "exif": "", "size": [], "sensor": [], "f": []}
        if not err:
            c = im.cam
            e["time"] = moment(im.datetime)
            e["same"] = int(copy == (repr(args), repr(cam.to_dict()) if cam else "") and (cam is None or c is cam) and im.path == path
                            and all(np.allclose(getattr(c, k)[:len(v)], v) for k, v in other.items() if not cam))
            e["exif"] = "none" if im.exif is None else "given" if use and im.exif is self.exif else "read"
            e["size"] = [q(v) for v in im.size]
            e["sensor"] = [] if c.sensorsz is None else [q(v, 10) for v in c.sensorsz]
            e["f"] = [qi(v, 1000) for v in c.f]
        self.ev.append(e)

    def tag(self):
        """Any tag by name."""
        rng, e = self.rng, self.exif
        k = rng.randrange(6)
        group, name, kind, v = [("Exif", "LensModel", "text", subs(rng)), ("0th", "Artist", "text", rng.choice(["", "me", "a b\0c"])),
                                ("Exif", "ExposureBiasValue", "ratio", rng.choice([[-4, 6], [0, 5], [3, 0], [1, 3]])),
                                ("0th", "WhitePoint", "pairs", [[313, 1000], [329, 0]]), ("Exif", "SubjectArea", "list", rng.choice([[10, 20], [20, 0], [1, 2, 3]])),
                                ("GPS", "GPSLatitude", "pairs", [[64, 1], [30, 1], [1234, 100]])][k]
        had = e.tags[group].get(name)
        e.tags[group][name] = v.encode() if kind == "text" else tuple(map(tuple, v)) if kind == "pairs" else tuple(v)
        r, err = attempt(e.parse_tag, name, **({"group": group} if group != "Exif" or rng.random() < 0.5 else {}))
        got = (r if isinstance(r, str) else "?") if kind == "text" else ratio(r) if kind == "ratio" else [list(p) if isinstance(p, tuple) else p for p in r] if isinstance(r, tuple) else [-1]
        if had is None:
            del e.tags[group][name]
        else:
            e.tags[group][name] = had
        none, err2 = attempt(e.parse_tag, "LensSerialNumber")
        self.ev.append({"op": "tag", "kind": kind, "v": chars(v) if kind == "text" else v, "err": err or err2 or ("" if none is None else "Absent"), "got": [] if err else got})

    def refused(self):
        what = self.rng.choice(["group", "tag", "tag of another group"])
        x = Exif(self.paths[0])
        x.tags = {"group": {"Unknown": {}}, "tag": {"Exif": {"Unknown": 0}}, "tag of another group": {"GPS": {"FNumber": (1, 2)}}}[what]
        self.ev.append({"op": "refused", "what": what, "err": attempt(x.dump)[1]})

    def end(self):
        for p in self.paths:
            if os.path.exists(p):
                os.remove(p)
        return {"kf": "", "ev": self.ev}


def empty():
    return {"size": [], "f": [], "fmm": [], "sensor": [], "cmm": [], "time": []}


def replay_image(rng, b):
    w = World(rng)
    m, t = b["m"], {**{k: [] for k in FIELDS}, "extra": 0, "thumb": 0}
    if m["size"]:
        t["w"], t["h"] = m["size"][:1], m["size"][1:]
    t["fmm"] = m["fmm"]
    if m["sensor"]:
        t["make"], t["model"] = chars("NIKON CORPORATION"), chars("NIKON D200")
    if m["time"]:
        t["time"], t["sub"] = chars("2014:10:13 02:03:36"), chars("28")
    w.store(0, t)
    if b["form"] == "passed":
        w.load(0)
    w.image(b["g"], "parameters", 0 if b["form"] == "stored" else -1, b["form"] == "passed")
    return w.end()


def replay_history(rng, ops):
    w = World(rng)
    values = {1: tags(rng), 2: tags(rng)}
    for f in (0, 1):
        w.store(f, values[f + 1])
    for op, a in ops:
        if op == "load":
            w.load(a - 1)
        elif op == "insert":
            w.insert(a - 1)
        else:
            for k in rng.sample(FIELDS, 2):
                w.set(k, value(rng, k))
        if w.exif:
            w.read()
    for f in (0, 1):
        w.peek(f)
    return w.end()


def replay_times(rng, subs):
    w = World(rng)
    w.store(0, tags(rng))
    w.load(0)
    w.set("time", chars("2014:10:13 02:03:36"))
    for s in subs:
        w.set("sub", s)
        w.read()
    return w.end()


def given(rng):
    g = empty()
    g["size"] = rng.choice([[], [40, 30], [rng.randint(1, 99), rng.randint(1, 99)]])
    g["f"] = rng.choice([[], [], [50, 60]])
    g["fmm"] = rng.choice([[], [], [28, 1], [35, 2]])
    g["sensor"] = rng.choice([[], [], [240, 180], [225, 150]])
    g["cmm"] = rng.choice([[], [], [], [1]])
    g["time"] = rng.choice([[], [2020, 1, 2, 3, 4, 5, 6], [1999, 12, 31, 23, 59, 59, 999999]])
    return g


def anything(rng):
    w = World(rng, tiff=rng.random() < 0.2)
    for f in (0, 1):
        w.store(f, tags(rng))
    w.load(rng.randrange(2))
    for _ in range(rng.randint(4, 12)):
        if w.exif is None:
            break
        k = rng.randrange(9)
        if k == 0:
            w.load(rng.randrange(2))
        elif k in (1, 2):
            f = rng.choice(FIELDS)
            w.set(f, value(rng, f))
        elif k == 3:
            w.insert(0 if w.paths[1].endswith("tif") else rng.randrange(2))
        elif k == 4:
            w.tag()
        elif k == 5:
            w.image(given(rng), rng.choice(["parameters", "parameters", "camera"]), rng.choice([0, 1, -1]), rng.random() < 0.3)
        elif k == 6:
            w.refused()
        elif k == 7:
            w.peek(rng.randrange(2))
        else:
            w.read()
    return w.end()


def run(c):
    global DIR
    DIR = tempfile.mkdtemp(prefix="c23_")
    try:
        rng = random.Random(c.seed)
        big = c.thorough
        scripts = c.behaviours_of("MetadataMC", "SPECIFICATION Spec\nINVARIANTS Precedence NotRead NoWorse Known Digits6 Emit\nPROPERTIES OnlyInserts\n"
                                  f"CHECK_DEADLOCK FALSE\nCONSTANTS Depth = {5 if big else 4}\n", workers=8)
        hist = [replay_image(rng, b) for b in scripts if b["kind"] == "image"]
        hist += [replay_history(rng, b["ops"]) for b in scripts if b["kind"] == "history" and b["full"] and (big or rng.random() < 0.5)]
        subs_ = [b["sub"] for b in scripts if b["kind"] == "time"]
        hist += [replay_times(rng, subs_[i:i + 40]) for i in range(0, len(subs_), 40)]
        c.judge("MetadataTrace", hist, "behaviours")
        c.judge("MetadataTrace", [anything(rng) for _ in range(20000 if big else 1500)], "any")
    finally:
        shutil.rmtree(DIR, ignore_errors=True)


sys.exit(main("C23", run))
