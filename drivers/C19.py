"""C19: SVG drawings are read as the polylines and points they draw."""
import io
import os
import random
import shutil
import sys
import tempfile
import warnings
import xml.etree.ElementTree as ET
from xml.sax.saxutils import quoteattr

from vlib import BADSHAPE, attempt, main, q

from glimpse import svg

U = 4096
ARITY = {**dict.fromkeys("MmLlTt", 2), **dict.fromkeys("HhVv", 1), **dict.fromkeys("Cc", 6), **dict.fromkeys("SsQq", 4),
         **dict.fromkeys("Aa", 7), **dict.fromkeys("Zz", 0)}


# ---- Text ----

def number(rng, v):
    """Spelling of a number of eighths."""
    x = v / 8
    sign = "-" if x < 0 else rng.choice(["", "", "", "+"])
    a = abs(x)
    text = f"{a:g}"
    k = rng.random()
    if k < 0.15:
        n = rng.choice([1, 2, 3])
        text = f"{a * 10 ** n:g}" + rng.choice("eE") + f"-{n}"
    elif k < 0.25:
        text = f"{a / 10:.4f}" + rng.choice(["e1", "E1", "e+1", "E+01"])
    elif k < 0.35:
        text = f"{a:.4f}"
    elif k < 0.42:
        text = rng.choice(["0", "00"]) + text
    if k > 0.5 and text.startswith("0.") and rng.random() < 0.6:
        text = text[1:]
    return sign + text


def joined(rng, words, flags=()):
    """Words, separated where necessary."""
    out, last = "", ""
    for i, w in enumerate(words):
        if i:
            free = i - 1 in flags or w[0] in "+-" or (w[0] == "." and ("." in last or "e" in last.lower()))
            out += rng.choice(["", " ", ","]) if free and rng.random() < 0.7 else rng.choice([" ", ",", ", ", " ,", "  ", "\n", "\t"])
        out += w
        last = w
    return out


def coordinate(rng):
    return rng.choice([rng.randint(-64, 64), 8 * rng.randint(-8, 8), 4 * rng.randint(-9, 9)])


def spelled(rng, cmds):
    """Path of commands and numbers (in eighths; flags as they are)."""
    out = rng.choice(["", "", " ", "\n "])
    for c, args in cmds:
        arc = c in "Aa"
        words = [str(a) if arc and i % 7 in (3, 4) else number(rng, a) for i, a in enumerate(args)]
        flags = [i for i in range(len(args)) if arc and i % 7 in (3, 4)]
        out += c + rng.choice(["", "", " ", "\n"]) + joined(rng, words, flags) + rng.choice(["", "", " ", "  ", "\n"])
    return out


def commands(rng):
    n = rng.choice([0, 1, 2, 3, 4, 6, 9])
    out = []
    for i in range(n):
        c = rng.choice("Mm") if i == 0 else rng.choice("MmLlHhVvCcSsQqTtAaZz")
        args = []
        for _ in range(rng.choice([1, 1, 2, 3]) if ARITY[c] else 0):
            args += [coordinate(rng) for _ in range(ARITY[c])] if c not in "Aa" else \
                [abs(coordinate(rng)), abs(coordinate(rng)), coordinate(rng), rng.randint(0, 1), rng.randint(0, 1), coordinate(rng), coordinate(rng)]
        out.append((c, args))
    return out


def pairs(rng):
    n = rng.choice([0, 1, 2, 3, 5])
    xy = [(coordinate(rng), coordinate(rng)) for _ in range(n)]
    if n > 2 and rng.random() < 0.3:
        xy[-1] = xy[0]
    return xy, rng.choice(["", " "]) + joined(rng, [number(rng, v) for p in xy for v in p]) + rng.choice(["", " ", "\n"])


def shape(rng, tag=None, image=False):
    """Element as [tag, text, numbers (in 1 / U)] and its attributes."""
    tag = tag or rng.choice(["path", "path", "polyline", "polygon", "line", "circle", "rect", "image"])
    s, n, attrib = "", [], {}
    if tag == "path":
        s = spelled(rng, commands(rng))
        if s or rng.random() < 0.5:
            attrib["d"] = s
    elif tag in ("polyline", "polygon"):
        _, s = pairs(rng)
        if s or rng.random() < 0.5:
            attrib["points"] = s
    else:
        names = {"line": ["x1", "y1", "x2", "y2"], "circle": ["cx", "cy"]}.get(tag, ["x", "y", "width", "height"])
        for name in names:
            v = coordinate(rng)
            if name in ("width", "height"):
                v = 8 * rng.choice([2, 4, 8]) if tag == "image" else abs(v)
            elif rng.random() < 0.2:
                n.append(0)
                continue
            n.append(v * U // 8)
            attrib[name] = number(rng, v)
    return {"tag": tag, "s": list(s), "n": n}, attrib


def function(rng, exact=False):
    """Transform function and its text (factors powers of two, if exact)."""
    f = rng.choice(["translate", "scale", "matrix"])
    c = lambda: rng.choice([-16, -8, 0, 4, 8, 12, 24, -3, 5])  # noqa
    m = lambda: rng.choice([4, 8, 16, -8, -4, -16])  # noqa
    if f == "translate":
        args = [c() for _ in range(rng.choice([1, 2]))]
    elif f == "scale":
        args = [m() if exact or rng.random() < 0.9 else 0 for _ in range(rng.choice([1, 2]))]
    elif exact:
        a, b = m(), m()
        args = rng.choice([[a, 0, 0, b], [0, a, b, 0]]) + [c(), c()]
    else:
        args = [rng.choice([0, 8, -8, 4, 12, 16]) for _ in range(4)] + [c(), c()]
    s = joined(rng, [number(rng, a) for a in args])
    return {"f": f, "s": list(s)}, f + rng.choice(["", "", "", " "]) + "(" + rng.choice(["", " "]) + s + rng.choice(["", " "]) + ")"


# ---- Calls ----

def enc_xy(xy):
    try:
        return [[q(x, U), q(y, U)] for x, y in xy]
    except Exception:  # noqa
        return [[BADSHAPE, BADSHAPE]]


def one_shape(rng, tag=None, given=None):
    e, attrib = given or shape(rng, tag)
    if rng.random() < 0.2:
        attrib = {**attrib, "id": "a", "style": "fill:none"}
    r, err = attempt(svg.Points.from_element, e["tag"], **attrib)
    return {"op": "shape", "e": e, "err": err, "xy": [] if err else enc_xy(r.xy)}


def xys(rng):
    return [(coordinate(rng) / 8, coordinate(rng) / 8) for _ in range(rng.choice([0, 1, 2, 3]))]


def one_transform(rng):
    xy = xys(rng)
    t, s = function(rng)
    p = svg.Points(list(xy))
    if rng.random() < 0.7:
        r, err = attempt(p.transform, s)
    else:
        # (numbers of the text are parsed by the specification)
        args = _numbers(s)
        r, err = attempt(getattr(p, t["f"]), *args)
    if p.xy != xy:
        err = "changed"
    return {"op": "transform", "t": t, "from": enc_xy(xy), "err": err, "xy": [] if err else enc_xy(r.xy)}


def _numbers(s):
    import re
    return [float(x) for x in re.findall(r"[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?", s[s.index("(") + 1:])]


def several(rng, fixed=False):
    if fixed:
        xy, fs = [(1, 2)], [({"f": "translate", "s": list("1,2")}, "translate(1,2)"), ({"f": "scale", "s": ["2"]}, "scale(2)")]
    else:
        xy, fs = xys(rng), [function(rng) for _ in range(rng.choice([0, 2, 3]))]
    s = "".join(f[1] + rng.choice(["", " ", ", ", "\n"]) for f in fs)
    r, err = attempt(svg.Points(xy).transform, s)
    return {"op": "list", "list": [f[0] for f in fs], "from": enc_xy(xy), "err": err, "xy": [] if err else enc_xy(r.xy)}


def refused(rng):
    k = rng.random()
    if k < 0.4:
        _, err = attempt(svg.Points([(1, 2)]).transform, rng.choice(["magic(1)", "rotate(45)", "translate(1)skewX(2)", "Scale(2)"]))
    elif k < 0.7:
        _, err = attempt(svg.Points.from_element, rng.choice(["magic", "text", "ellipse"]))
    else:
        _, err = attempt(svg.Points([(1, 2)]).to_element, rng.choice(["magic", "text", "ellipse"]))
    return {"op": "refused", "err": err}


def written(rng):
    xy = xys(rng)
    if len(xy) > 1 and rng.random() < 0.4:
        xy.append(xy[0])
    k = rng.random()
    if k < 0.3:
        xy = [(int(x), int(y)) for x, y in xy]
    elif k < 0.6:
        xy = [(x * 100 + 1 / U, y + 3 / U) for x, y in xy]
    tag = rng.choice(["path", "path", "polyline", "polygon", "line", "circle", "rect", "image", "svg"])
    before = list(xy)
    p = svg.Points(xy)
    a, err = attempt(p.to_element, tag)
    if not err:
        r, err = attempt(svg.Points.from_element, tag, **a)
    if xy != before:
        err = "changed"
    return {"op": "written", "tag": tag, "from": enc_xy(before), "err": err, "xy": [] if err else enc_xy(r.xy)}


# ---- Documents ----

def tree(rng, depth, image, exact):
    """Element with its attributes (to write) and children."""
    k = rng.random()
    if depth > 0 and k < 0.4:
        e, attrib = {"tag": "g", "s": [], "n": []}, {}
        ch = [tree(rng, depth - 1, image, exact) for _ in range(rng.choice([0, 1, 2, 3]))]
    else:
        ch = []
        if k > 0.93:
            e, attrib = {"tag": rng.choice(["text", "defs", "title"]), "s": [], "n": []}, {}
        else:
            tags = ["path", "path", "polyline", "polygon", "line", "circle", "rect"] + (["image"] * 2 if image else [])
            e, attrib = shape(rng, rng.choice(tags))
    e["t"], text = [], ""
    if rng.random() < 0.35 and e["tag"] not in ("text", "defs", "title"):
        t, text = function(rng, exact)
        e["t"] = [t]
    e["names"] = [rng.choice(["", "", "a", "b", "c", "gcp", "horizon"]) for _ in range(2)]
    e["ch"] = [c[0] for c in ch]
    if text:
        attrib["transform"] = text
    return e, attrib, [(c[0], c[1], c[2]) for c in ch]


def by_hand(rng, node):
    e, attrib, ch = node
    a = dict(attrib)
    for name, key in zip(e["names"], ("id", "inkscape:label")):
        if name:
            a[key] = name
    if e["tag"] == "image":
        a["xlink:href"] = "photo.jpg"
    if e["tag"] == "svg":
        a = {"xmlns": "http://www.w3.org/2000/svg", "xmlns:xlink": "http://www.w3.org/1999/xlink", "xmlns:inkscape": "http://www.inkscape.org/namespaces/inkscape", **a}
    items = list(a.items())
    if e["tag"] != "svg":
        rng.shuffle(items)
    space = rng.choice(["", "", "\n", "  "])
    inner = space.join(by_hand(rng, c) for c in ch) + ("<!-- note -->" if rng.random() < 0.1 else "")
    if e["tag"] == "text":
        inner += "some text"
    elif e["tag"] == "defs":
        inner += "<path d='M 1 1'/>"
    return f"<{e['tag']} " + " ".join(f"{k}={quoteattr(v)}" for k, v in items) + (f">{inner}</{e['tag']}>" if inner or rng.random() < 0.5 else "/>")


def built(rng, node):
    """With the functions of the module."""
    e, attrib, ch = node
    a = dict(attrib)
    for name, key in zip(e["names"], ("id", "label")):
        if name:
            a[key] = name
    ch = [built(rng, c) for c in ch]
    if e["tag"] in ("svg", "g"):
        return getattr(svg, e["tag"])(*ch, **a)
    if e["tag"] == "path":
        return svg.path(**a)
    if e["tag"] == "image":
        return svg.image(**a) if rng.random() < 0.5 else svg.image(href="photo.jpg", **a)
    x = ET.Element(e["tag"], attrib=a)
    x.extend(ch)
    return x


def enc(v):
    if isinstance(v, dict):
        return {"k": "group", "xy": [], "items": [[k, [enc(w) for w in (x if several_of(x) else [x])]] for k, x in v.items()]}
    return {"k": "points", "xy": enc_xy(v), "items": []}


def several_of(x):
    """Whether a list of values, rather than a list of points."""
    return isinstance(x, list) and len(x) > 0 and not isinstance(x[0], tuple)


def count(node, tag):
    return int(node[0]["tag"] == tag) + sum(count(c, tag) for c in node[2])


def document(rng, root):
    image = rng.random() < 0.6
    exact = image
    ch = [tree(rng, 2, image, exact) for _ in range(rng.choice([0, 1, 2, 3, 4]))]
    e = {"tag": "svg", "s": [], "n": [], "t": [], "names": ["", ""], "ch": [c[0] for c in ch]}
    attrib = {}
    if rng.random() < 0.2:
        t, attrib["transform"] = function(rng, exact)
        e["t"] = [t]
    if rng.random() < 0.3:
        attrib["viewBox"] = "0 0 10 10"
    node = (e, attrib, ch)
    images = count(node, "image")
    size = [rng.randint(1, 16), rng.randint(1, 16)] if rng.random() < (0.5 if images else 0.1) else []
    key = rng.choice([0, 1, 2])
    roots = 1 if rng.random() < 0.95 else rng.choice([0, 2])
    path = os.path.join(root, "x.svg")
    k = rng.random()
    if roots != 1:
        text = "<html>" + "".join(by_hand(rng, node) for _ in range(roots)) + "</html>"
    elif k < 0.5:
        text = by_hand(rng, node)
    else:
        x = built(rng, node)
        indent = rng.choice([None, None, 0, -1, 2, 4, "\t", ""])
        if k < 0.75:
            text, err = attempt(svg.write, x, indent=indent)
        else:
            _, err = attempt(svg.write, x, path, indent=indent)
            text = None
        if err:
            return {"op": "document", "root": e, "key": key, "size": size, "roots": 1, "images": images, "err": "write: " + err, "got": enc({})}
    kw = {}
    if key:
        kw["key"] = ["id", "label"][key - 1]
    if size:
        kw["imgsz"] = rng.choice([tuple, list])(size)
    if text is not None and rng.random() < 0.3:
        with open(path, "w") as fp:
            fp.write(text)
        text = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r, err = attempt(svg.read, path if text is None else io.StringIO(text), **kw)
    return {"op": "document", "root": e, "key": key, "size": size, "roots": roots, "images": images, "err": err, "got": enc({} if err else r)}


def replay(rng, cmds):
    s = spelled(rng, [(c, [a if c in "Aa" and i % 7 in (3, 4) else 8 * a for i, a in enumerate(args)]) for c, args in cmds])
    return one_shape(rng, given=({"tag": "path", "s": list(s), "n": []}, {"d": s}))


def run(c):
    rng = random.Random(c.seed)
    big = c.thorough
    scripts = c.behaviours_of("SvgMC", "SPECIFICATION Spec\nINVARIANTS Spelling Counted Closed Emit\nCHECK_DEADLOCK FALSE\n"
                              f"CONSTANTS N = {4 if big else 3}\n", workers=8)
    rng.shuffle(scripts)
    k = 8 if big else 1
    root = tempfile.mkdtemp(prefix="c19_")
    try:
        c.judge("SvgTrace", [{"kf": "", "ev": [replay(rng, b)]} for b in scripts[:3000 * k]], "behaviours")
        kinds = [one_shape, one_shape, one_shape, one_transform, one_transform, written, written, refused]
        hist = [{"kf": "", "ev": [rng.choice(kinds)(rng) for _ in range(6)]} for _ in range(700 * k)]
        for _ in range(200 * k):
            hist.append({"kf": "", "ev": [{**several(rng), "op": "list either"}]})
        hist.append({"kf": "", "ev": [{**several(rng, fixed=True), "op": "list either"}]})
        hist.append({"kf": "transform-list-order", "ev": [several(rng, fixed=True)]})
        c.judge("SvgTrace", hist, "elements")
        c.judge("SvgTrace", [{"kf": "", "ev": [document(rng, root)]} for _ in range(1500 * k)], "documents")
    finally:
        shutil.rmtree(root)


sys.exit(main("C19", run))
