"""Random projects and edit histories.

A file is described by a small JSON-able spec; `render` turns the spec into
bytes.  A history is a list of self-contained JSON-able steps, so dropping steps
(minimisation) keeps every remaining step meaningful.
"""
import base64
import hashlib
import io
import json
import posixpath
import random
import re

PUB = "src/public/"
HTML = [PUB + p for p in ("index.html", "a.html", "sub/b.html", "sub/deep/c.html", "sub/a.html")]
PARTIALS = ["src/partials/head.html", "src/partials/item.html", "src/partials/box/foot.html"]
CSS = [PUB + p for p in ("css/main.css", "css/x.css", "css/sub/y.css", "z.css", "css/sub/x.css")]
JS = [PUB + p for p in ("js/a.js", "js/b.js", "js/lib/c.js", "js/d.js", "e.js", "js/lib/a.js")]
SVG = [PUB + p for p in ("img/icons/x.svg", "img/icons/y.svg")]
PNG = [PUB + p for p in ("img/p.png", "img/q.png", "img/sub/p.png", "img/p.jpg")]
GLUE = [PUB + p for p in ("js/g.images.json", "js/lib/h.images.json")]
ASSET = [PUB + p for p in ("assets/f.woff", "robots.txt", "assets/sub/d.json", "notes", "assets/t.txt")]
CONST = PUB + "js/constants.js"
MISC = [PUB + p for p in ("notes/x.txt", "notes/deep/y.txt", "assets/sp ace é.txt", ".well-known/a.json", "js/README.MD")]
LOOSE = ["src/readme.txt", "src/scratch/todo.md"]
TWINS = {"/img/p.png": "/img/p.jpg", "/img/p.jpg": "/img/p.png"}
FOLDERS = [PUB + "sub", PUB + "assets", PUB + "css/sub", PUB + "img/sub", PUB + "img/icons", "src/partials/box"]
ALL = HTML + PARTIALS + CSS + JS + SVG + PNG + GLUE + ASSET + MISC + LOOSE + [CONST]

COLORS = ["#333333", "#ff0000", "#00ff7f", "#123456"]


def web(path):
    return "/" + path[len(PUB):]


def glue_js(path):
    return path[: -len(".json")] + ".js"


def kind_of(path):
    for k, pool in (("html", HTML), ("partial", PARTIALS), ("css", CSS), ("js", JS), ("svg", SVG),
                    ("png", PNG), ("glue", GLUE), ("const", [CONST])):
        if path in pool:
            return k
    return "asset"


# ---------------------------------------------------------------------------
# rendering

_png_cache = {}


def _png(n, w, h, fmt="png"):
    key = (n, w, h, fmt)
    b = _png_cache.get(key)
    if b is None:
        from PIL import Image
        im = Image.new("RGB", (w, h))
        px = im.load()
        for y in range(h):
            for x in range(w):
                # where a pixel came from, and from which image, can be read off
                # its color, also after it has been cropped, scaled and compressed
                px[x, y] = (255 * x // (w - 1), 255 * y // (h - 1), (n * 42 + 15) % 256)
        out = io.BytesIO()
        im.save(out, format=fmt)
        b = _png_cache[key] = out.getvalue()
    return b


# what the tool has to leave as it is, even when there is no such file
PLAIN = {
    "html": ['<link rel="icon" href="/none.ico">', '<link rel="stylesheet" href="https://cdn.example/x.css">',
             '<script src="https://cdn.example/x.js"></script>', '<script src="/js/none.js?x=1"></script>',
             '<a href="/none.html">x</a>', '<img src="/img/none.png">', '<link rel="stylesheet" href="none.css">',
             '<link rel="preload" as="font" href="/none.ttf#a">'],
    "css": [".e0 {\n    background: url(https://cdn.example/a.png);\n}", ".e1 {\n    background: url(\"none.png\");\n}",
            ".e2 {\n    background: url(\"/none.png?x=1\");\n}", "/* url(/none.png is not one */",
            ".e3 {\n    background: url(\"data:image/png;base64,AAAA\");\n}"],
    "js": ['import x0 from "https://cdn.example/x.js";', 'import x1 from "library";',
           '// import x2 from "/js/none.js";', 'const x3 = "import a from none";', 'import x4 from "/js/none.js?x=1";'],
}


def _plain(kind, s):
    return [PLAIN[kind][i % len(PLAIN[kind])] for i in s.get("plain", ())]


def _pad(s):
    return "" if not s.get("pad") else " " * s["pad"]


def _img_cmd(i):
    s = f"[IMAGE: {i['path']} {i['w']} {i['h']}"
    if i.get("crop") is not None or i.get("lazy") is not None:
        s += " cover " + json.dumps(i.get("crop") or {})
        if i.get("lazy") is not None:
            s += " " + ("lazy" if i["lazy"] else "eager")
    return f"<!--{s}]-->"


def _js_imports(s):
    out = []
    for i, (style, target) in enumerate(s.get("imports", ())):
        if style == 0:
            out.append(f'import m{i} from "{target}";')
        elif style == 1:
            out.append(f"import {{ k{i} }} from '{target}';")
        elif style == 2:
            out.append(f'import * as n{i} from "{target}";')
        elif style == 4:
            out.append(f'import {{ k0 as k{i}, k1 as l{i} }} from "{target}";')
        elif style == 5:
            out.append(f'import m{i}, {{ k{i} as l{i}, }} from "{target}";')
        elif style == 6:
            out.append(f"import m{i}, * as n{i} from '{target}';")
        elif style == 7:
            out.append(f'import {{default as m{i}}} from "{target}";')
        else:
            out.append(f'import "{target}";')
    return out


def _css_body(s):
    out = []
    if "root" in s:
        r = s["root"]
        out.append(":root {")
        for name, c in r["colors"]:
            out.append(f"    --col-{name}: {c};")
        for size, v in r["sizes"]:
            out.append(f"    --icon-size-{size}: {v};")
        out.append("}")
    out.append(f".r0 {{\n    color: {COLORS[s['n'] % 4]};\n    order: {s['n']};\n}}")
    for i, target in enumerate(s.get("css_imports", ())):
        frm = f" FROM {target}" if target else ""
        out.append(f".i{i} {{\n    /*! PREPROCESSOR: import .r0{frm} */\n    margin: {i}px;\n}}")
    for i, (q, u) in enumerate(s.get("urls", ())):
        u = f'"{u}"' if q else u
        out.append(f".u{i} {{\n    background: url({u});\n}}")
    for i, d in enumerate(s.get("data", ())):
        out.append(f".d{i} {{\n    background: url(\"data:image/svg+xml,%3Csvg id='{d}'%3E%3C/svg%3E\");\n}}")
    for name, color, colors, btn in s.get("icons", ()):
        cl = "all-colors" if colors is None else json.dumps(colors)
        out.append(f"/*! PREPROCESSOR: icon {name} {color} {cl} all-sizes{btn} */")
    return out


def render(path, s):
    k = s["k"]
    if k == "raw":
        return s["text"].encode("latin-1")
    if k == "png":
        return _png(s["n"], s["w"], s["h"], "jpeg" if path.endswith(".jpg") else "png")
    if k == "html":
        o = ["<!DOCTYPE html>", '<html lang="en">', "<head>", '  <meta charset="utf-8">',
             f"  <title>T{s['n']}{_pad(s)}</title>"]
        for h in s.get("css", ()):
            o.append(f'  <link rel="stylesheet" href="{h}">')
        for h in s.get("preload", ()):
            o.append(f'  <link as="font" href="{h}" rel="preload">')
        if s.get("canonical"):
            o.append(f'  <link rel="canonical" href="{s["canonical"]}">')
        if s.get("og"):
            o.append(f'  <meta property="og:url" content="{s["og"]}">')
        for h in s.get("js", ()):
            o.append(f'  <script src="{h}"></script>')
        o += ["  " + x for x in _plain("html", s)]
        for st in s.get("styles", ()):
            o += ["  <style>"] + _css_body(st) + ["  </style>"]
        o += ["</head>", "<body>", f"  <p>N{s['n']}</p>"]
        for t, v in s.get("templates", ()):
            o.append(f"  <!--[TEMPLATE: {json.dumps([t, v])}]-->")
        for i in s.get("images", ()):
            o.append("  " + _img_cmd(i))
        for sc in s.get("scripts", ()):
            o += ["  <script type=\"module\">"] + _js_imports(sc) + [f"window.n{sc['n']} = {sc['n']};", "</script>"]
        o += ["</body>", "</html>", ""]
        return "\n".join(o).encode()
    if k == "partial":
        o = [f"<div>P{s['n']}{_pad(s)} <!--[STACK: [\"retrieve\", \"key\"]]--></div>"]
        for t, v in s.get("templates", ()):
            o.append(f"<!--[TEMPLATE: {json.dumps([t, v])}]-->")
        for h in s.get("js", ()):
            o.append(f'<script src="{h}"></script>')
        for i in s.get("images", ()):
            o.append(_img_cmd(i))
        for sc in s.get("scripts", ()):
            o += ["<script>"] + _js_imports(sc) + [f"window.p{sc['n']} = {sc['n']};", "</script>"]
        return ("\n".join(o) + "\n").encode()
    if k == "css":
        return ("\n".join(_css_body(s) + _plain("css", s)) + "\n" + _pad(s)).encode()
    if k == "js":
        o = _js_imports(s) + _plain("js", s)
        o.append(f"const v = {s['n']};{_pad(s)}")
        o.append("export const k0 = v, k1 = v;")
        o.append("export default v;")
        return ("\n".join(o) + "\n").encode()
    if k == "svg":
        return (f'<svg xmlns="http://www.w3.org/2000/svg"><path d="M{s["n"]} 0" '
                f'stroke="{s.get("color", COLORS[0])}"/></svg>\n{_pad(s)}').encode()
    if k == "glue":
        return json.dumps(s["images"], indent=s.get("pad") or None).encode()
    if k == "const":
        return f"export const API_URL = 'placeholder {s['n']}';\n".encode()
    if k == "asset":
        if s.get("empty"):
            return b""
        return (f"asset {s['n']}\n" * (1 + s.get("rep", 0)) + _pad(s)).encode()
    raise ValueError(k)


def config(sc):
    """vanillaplusjs.json for the scenario's `config` part."""
    c = sc.get("config", {})
    formats = {
        "jpeg": {"exports": {
            "60": {"min_area_px2": None, "max_area_px2": None, "preference": 1,
                   "formatter_kwargs": {"quality": 60}},
            "90": {"min_area_px2": None, "max_area_px2": c.get("area", 30 * 30), "preference": 3,
                   "formatter_kwargs": {"quality": c.get("quality", 90)}}},
            "minimum_unit_size_bytes": 1000},
        "webp": {"exports": {
            "70": {"min_area_px2": None, "max_area_px2": None, "preference": 1,
                   "formatter_kwargs": {"quality": 70, "method": 0, "lossless": False}}},
            "minimum_unit_size_bytes": 1000},
    }
    one = {"min_area_px2": None, "max_area_px2": None, "preference": 1, "formatter_kwargs": {}}
    for n in ("png", "bmp", "gif"):
        formats[n] = {"exports": {"only": dict(one)}, "minimum_unit_size_bytes": 1}
    formats["png"]["exports"]["fast"] = dict(one, preference=2, formatter_kwargs={"compress_level": 1})
    formats = {n: formats[n] for n in c.get("formats", ("jpeg", "webp"))}
    res = {"icons": c["icons"]} if "icons" in c else {}
    return {
        **res,
        "version": 4 if "version" not in c else c["version"],
        "host": c.get("host", "example.com"),
        "images": {"formats": formats, "default_format": c.get("default_format", "jpeg"),
                   "maximum_resolution": c.get("max_res", 2), "resolution_step": c.get("step", "0.5")},
        "auto_generate_images_js_placeholders": c.get("placeholders", True),
        "external_files": c.get("external", {}),
        "js_constants": c["js_constants"] if "js_constants" in c else {
            "relpath": CONST, "shared": {"NAME": "shared", "N": 7},
            "dev": {"API_URL": "http://127.0.0.1:8080", "DBG": True},
            "prod": {"API_URL": "", "N": 8}},
    }


def _external(path, text):
    data = text.encode()
    digest = base64.b64encode(hashlib.sha384(data).digest()).decode()
    return "https://cdn.example/any/" + path.rsplit("/", 1)[1], data, "sha384-" + digest


# files the projects of all checks may get from the network (Gen refers to those
# of the configuration generated before it from the same random.Random)
EXTERNAL = {p: _external(p, t) for p, t in {
    "src/public/vendor/ext.js": "export const ext = 1;\nexport const a = 2;\n",
    "src/public/vendor/ext.css": ".ext { color: red; }\n.ext b { color: blue; }\n",
    "src/public/vendor/ext.txt": "external text\n",
    "src/partials/ext.html": "<p>external</p>\n"}.items()}


USUAL = {"formats": ["jpeg", "webp"], "default_format": "jpeg", "max_res": 2, "step": "0.5", "host": "example.com",
         "area": 900, "quality": 90}


def gen_config(r, external=True):
    """A seeded `config` part; often the usual one."""
    c = {}
    if r.random() < 0.25:
        c["formats"] = r.sample(["jpeg", "webp", "png", "bmp"], r.choice([1, 2, 3, 3, 4]))
        c["default_format"] = r.choice(c["formats"])
    if r.random() < 0.15:
        c["max_res"] = r.choice([1, 1, 3])
        c["step"] = r.choice(["0.5", "1", "0.25"])
    if r.random() < 0.1:
        c.update(r.choice([{"area": 100}, {"area": 100000}, {"quality": 80}, {"quality": 97}]))
    if r.random() < 0.08:
        c["placeholders"] = False
    if r.random() < 0.1:
        c["host"] = r.choice(["www.example.org", "localhost:8888", "example.com/base"])
    if r.random() < 0.15:
        some = {"active_color": "primary", "hover_color": r.choice(["primary", "primary-dark"]), "disabled_color": "disabled"}
        c["icons"] = r.choice([
            {}, {"default_button": None}, {"default_button": some}, {"default_button": {"hover_color": "primary"}},
            {"button_by_identifier": {"alt": some, "flat": {"hover_color": "primary"}}},
            {"default_button": None, "button_by_identifier": {"alt": some}}])
    r.external = []
    if external and r.random() < 0.12:
        r.external = sorted(r.sample(sorted(EXTERNAL), r.choice([1, 1, 2, 4])))
        c["external"] = {p: {"url": EXTERNAL[p][0], "integrity": EXTERNAL[p][2]} for p in r.external}
    return c


# ---------------------------------------------------------------------------
# generation

class Gen:
    """Generates specs against the set of files believed to exist."""

    def __init__(self, rng, feat=None):
        self.r = rng
        self.files = {}  # path -> spec
        self.used = []  # the images mentioned so far
        self.moved = {}  # folder -> files that went with it
        self.external = list(getattr(rng, "external", ()))
        self.feat = {"dangling": 0.03, "cycle": 0.02, "images": 0.5, "icons": 0.5,
                     "inline": 0.4, "templates": 0.5, "glue": 0.4, "const": 0.6, "size": 8}
        if feat:
            self.feat.update(feat)

    def chance(self, p):
        return self.r.random() < p

    def pick(self, pool, k=None, dangling=True):
        have = [p for p in pool if p in self.files]
        if dangling and self.chance(self.feat["dangling"]):
            have = list(pool)
        if not have:
            return []
        k = self.r.randrange(0, 3) if k is None else k
        return self.r.sample(have, min(k, len(have)))

    def ext(self, path):
        return [path] if path in self.external and self.chance(0.5) else []

    def _n(self):
        return self.r.randrange(0, 6)

    def _p(self):
        return self.r.choice([0, 0, 0, 1, 2])

    def image(self, pool=PNG):
        if self.used and self.chance(self.feat.get("shared", 0.25)):
            i = json.loads(json.dumps(self.r.choice(self.used)))
            if PUB + i["path"][1:] in self.files:
                if self.chance(0.3):  # the same of an image that only differs in its extension
                    q = TWINS.get(i["path"])
                    if q and PUB + q[1:] in self.files:
                        i["path"] = q
                return i
        p = self.pick(pool, 1, dangling=False)
        if not p:
            return None
        s = self.files[p[0]]
        if s["k"] != "png":
            return None
        w = self.r.choice([8, 12, 16])
        h = self.r.choice([8, 10])
        if self.chance(0.02):
            w = 500
        i = {"path": web(p[0]), "w": w, "h": h}
        if self.chance(0.3):
            i["crop"] = self.r.choice([{}, {"pre_top_crop": 2}, {"crop_left_percentage": 0.0},
                                       {"pre_left_crop": 1, "crop_top_percentage": 1.0}])
            if self.feat.get("big_crops") and s["w"] >= 48:
                i["crop"] = {self.r.choice(["pre_top_crop", "pre_bottom_crop", "pre_left_crop", "pre_right_crop"]):
                             self.r.choice([8, 14]),
                             self.r.choice(["crop_left_percentage", "crop_top_percentage"]): self.r.choice([0.0, 0.25, 1.0])}
        if self.chance(0.3):
            i["lazy"] = self.chance(0.5)
        self.used.append(i)
        return i

    def images(self, p):
        if not self.chance(p):
            return []
        out = [self.image() for _ in range(self.r.choice([1, 1, 2]))]
        return [i for i in out if i]

    def js_targets(self, path=None, k=None):
        pool = JS if path is None or self.chance(self.feat["cycle"]) else JS[JS.index(path) + 1:]
        t = self.pick(pool, k)
        if path is None and self.feat.get("pairs") and self.chance(self.feat["pairs"]):  # equal names, other folders
            t.extend(p for p in ("src/public/js/a.js", "src/public/js/lib/a.js") if p in self.files and p not in t)
        if CONST in self.files and self.chance(0.35):
            t.append(CONST)
        if "src/public/vendor/ext.js" in self.external and self.chance(0.4):
            t.append("src/public/vendor/ext.js")
        gl = [g for g in GLUE if g in self.files and self.files[g]["k"] == "glue"]
        if gl and self.chance(0.5):
            t.append(glue_js(self.r.choice(gl)))
        return t

    def imports(self, path=None):
        out = []
        for t in self.js_targets(path):
            style = self.r.choice([0, 1, 2, 3, 3, 4, 5, 6, 7])
            ref = web(t)
            if path is not None and self.chance(0.4):
                rel = posixpath.relpath(t, posixpath.dirname(path))
                ref = rel if rel.startswith(".") else "./" + rel
            out.append([style, ref])
        return out

    def style(self):
        """Inline style: no imports of the page's own, kept simple."""
        s = {"k": "css", "n": self._n()}
        if self.chance(0.5):
            s["css_imports"] = [web(c) for c in self.pick(CSS, 1)]
        if self.chance(0.3):
            s["data"] = [self._n()]
        if self.chance(0.3):
            s["urls"] = [[True, web(u)] for u in self.pick(ASSET + SVG, 1)]
        return s

    def icons(self):
        out = []
        for p in self.pick(SVG, self.r.choice([1, 1, 2]), dangling=False):
            name = posixpath.basename(p)[:-4]
            colors = None if self.chance(0.7) else ["primary"]
            out.append([name, "primary", colors, self.r.choice(["", " no-btn"])])
        return out

    def spec(self, path):
        k = kind_of(path)
        n, f, ch = self._n(), self.feat, self.chance
        s = {"k": k, "n": n}
        pad = self._p()
        if pad and k not in ("png", "const"):
            s["pad"] = pad
        if k in PLAIN and ch(0.2):
            s["plain"] = [self.r.randrange(40) for _ in range(self.r.choice([1, 1, 3]))]
        if k == "html":
            s["css"] = [web(p) for p in self.pick(CSS) + self.ext("src/public/vendor/ext.css")]
            s["js"] = [web(p) for p in self.js_targets(None, self.r.randrange(0, 2))]
            if ch(0.3):
                s["preload"] = [web(p) for p in self.pick(ASSET, 1) + self.ext("src/public/vendor/ext.txt")]
            if ch(0.2):
                s["canonical"] = web(path)
            if ch(0.1):
                s["og"] = web(path)
            if ch(f["templates"]):
                s["templates"] = [[self._tpl(p), {"key": f"v{self._n()}"}]
                                  for p in self.pick(PARTIALS, self.r.choice([1, 1, 2])) + self.ext("src/partials/ext.html")]
            s["images"] = self.images(f["images"])
            if ch(f["inline"]):
                s["scripts"] = [{"n": self._n(), "imports": self.imports()}
                                for _ in range(self.r.choice([1, 1, 2]))]
            if ch(f["inline"] * 0.6):
                s["styles"] = [self.style()]
        elif k == "partial":
            pool = PARTIALS if ch(f["cycle"]) else PARTIALS[PARTIALS.index(path) + 1:]
            if ch(f["templates"] * 0.6):
                s["templates"] = [[self._tpl(p), {"key": f"w{self._n()}"}] for p in self.pick(pool, 1)]
            if ch(0.3):
                s["js"] = [web(p) for p in self.js_targets(None, 1)]
            s["images"] = self.images(f["images"] * 0.4)
            if ch(f["inline"] * 0.4):
                s["scripts"] = [{"n": self._n(), "imports": self.imports()}]
        elif k == "css":
            if path == CSS[0]:
                cols = [["primary", COLORS[0]]]
                if ch(0.7):
                    cols.append(["alt", self.r.choice(COLORS)])
                if ch(0.5):
                    cols += [["primary-dark", self.r.choice(COLORS)], ["disabled", "#cccccc"]]
                s["root"] = {"colors": cols, "sizes": [["medium", "1rem"]] +
                             ([["large", "2rem"]] if ch(0.3) else [])}
            pool = CSS if ch(f["cycle"]) else CSS[: CSS.index(path)]
            if ch(0.5):
                s["css_imports"] = [web(c) for c in self.pick(pool, 1)]
            if ch(0.4):
                s["urls"] = [[ch(0.7), web(u)] for u in self.pick(ASSET + SVG + PNG, self.r.choice([1, 2]))]
            if ch(0.3):
                s["data"] = [self._n() for _ in range(self.r.choice([1, 2]))]
            if ch(f["icons"]) and (path == CSS[0] or CSS[0] in self.files):
                s["icons"] = self.icons()
        elif k == "js":
            s["imports"] = self.imports(path)
        elif k == "png":
            s["w"], s["h"] = self.r.choice([(24, 20), (40, 24), (33, 33)] +
                                           [(60, 48), (48, 64)] * bool(f.get("big_crops")))
        elif k == "glue":
            s["images"] = {}
            for j in range(self.r.choice([0, 1, 1, 2])):
                i = self.image()
                if i:
                    d = {"path": i["path"], "width": i["w"], "height": i["h"]}
                    if i.get("crop") is not None:
                        d["crop_arguments"] = i["crop"]
                    if i.get("lazy") is not None:
                        d["lazy"] = i["lazy"]
                    s["images"][f"im{j}"] = d
        elif k == "asset":
            s["rep"] = self.r.choice([0, 0, 1, 40])
            if ch(0.06):
                s["empty"] = 1
        return s

    def _tpl(self, p):
        return "/" + p[len("src/partials/"):]

    def initial(self):
        """Ordered list of write steps for a first project."""
        f = self.feat
        paths = []
        for pool, p in ((PNG, f["images"]), (SVG, f["icons"]), (ASSET, 0.5), (CSS[:1], 0.8),
                        (CSS[1:], 0.5), (GLUE, f["glue"] * f["images"] * 1.5), ([CONST], f["const"]),
                        (list(reversed(JS)), 0.55), (list(reversed(PARTIALS)), f["templates"]),
                        (HTML[:1], 1.0), (HTML[1:], 0.5), (MISC, 0.06), (LOOSE, 0.1)):
            for x in pool:
                if self.chance(p):
                    paths.append(x)
        limit = f["size"]
        if len(paths) > limit:
            keep = set(self.r.sample(range(len(paths)), limit))
            paths = [p for i, p in enumerate(paths) if i in keep]
        steps = []
        for p in paths:
            s = self.spec(p)
            self.files[p] = s
            steps.append({"op": "write", "path": p, "spec": s})
        return steps

    # -- edits ---------------------------------------------------------------
    def edit(self):
        """One random edit, as a step; keeps self.files in step."""
        e = self._edit()
        if self.chance(0.35):  # soon after whatever happened before
            e["gap"] = self.r.choice([0.05, 0.3])
        return e

    def _edit(self):
        r = self.r
        have = sorted(self.files)
        glue = [p for p in have if p in GLUE]
        if glue and self.chance(self.feat.get("derived", 0.04)):
            p = glue_js(r.choice(glue))  # what the tool put there, or will put there
            return r.choice([{"op": "delete", "path": p}, {"op": "delete", "path": p}, {"op": "touch", "path": p},
                             {"op": "append", "path": p, "text": "export default 1;\n"},
                             {"op": "write", "path": p, "spec": {"k": "js", "n": self._n()}}])
        if self.chance(self.feat.get("folders", 0.03)):
            d = r.choice(FOLDERS)
            inside = {p: self.files.pop(p) for p in have if p.startswith(d + "/")}
            if d in self.moved:
                inside = dict(self.moved.pop(d), **inside)
                self.files.update(inside)
            else:
                self.moved[d] = inside
            return {"op": "folder", "path": d, "to": r.choice([d + "-moved", "away/" + d.replace("/", "_")])}
        x = r.random()
        if x < 0.42 and have:  # modify
            p = r.choice(have)
            s = self._modified(p)
            self.files[p] = s
            return {"op": "write", "path": p, "spec": s,
                    "how": r.choice(["inplace", "inplace", "atomic", "recreate", "keep_mtime", "backup", "older"])}
        if x < 0.62:  # add (or rewrite)
            p = r.choice(ALL)
            s = self.spec(p)
            self.files[p] = s
            return {"op": "write", "path": p, "spec": s, "how": r.choice(["inplace", "atomic"])}
        if x < 0.72 and have:
            p = r.choice(have)
            if self._referenced(p) and r.random() < 0.6:
                p = r.choice(have)
            self.files.pop(p)
            return {"op": "delete", "path": p}
        if x < 0.80 and have:
            a = r.choice(have)
            pool = next(q for q in (HTML, PARTIALS, CSS, JS, SVG, PNG, GLUE, ASSET, MISC, LOOSE, [CONST]) if a in q)
            b = r.choice(pool)
            if a != b:
                self.files[b] = self.files.pop(a)
            return {"op": "rename", "from": a, "to": b}
        if x < 0.86 and len(have) > 1:
            a = r.choice(have)
            same = [p for p in have if p != a and kind_of(p) == kind_of(a)]
            if same:
                b = r.choice(same)
                self.files[a], self.files[b] = self.files[b], self.files[a]
                return {"op": "swap", "a": a, "b": b}
        if x < 0.90 and have:
            return {"op": "touch", "path": r.choice(have)}
        if x < 0.95 and have:  # unlink and later restore, with time stamps kept
            p = r.choice(have)
            return {"op": "hide", "path": p}
        return {"op": "unhide"}

    def together(self):
        """The same small change in several files at once, as by search and replace."""
        kind = self.r.choice(["html", "html", "css", "js", "glue", "partial"])
        have = [p for p in sorted(self.files) if kind_of(p) == kind and "n" in self.files[p]]
        if len(have) > 2 and self.chance(0.3):
            have = self.r.sample(have, 2)
        d = self.r.randrange(1, 6)
        steps = []
        for p in have:
            s = json.loads(json.dumps(self.files[p]))
            s["n"] = (s["n"] + d) % 6
            self.files[p] = s
            steps.append({"op": "write", "path": p, "spec": s, "how": "inplace"})
        return steps

    def pair(self):
        """A file that refers to two others, of equal names in different folders; and then what to edit, one at a time."""
        kind = self.r.choice(["page", "js", "css", "css"])
        two = ["src/public/css/x.css", "src/public/css/sub/x.css"] if kind == "css" else ["src/public/js/a.js", "src/public/js/lib/a.js"]
        self.r.shuffle(two)
        steps = [{"op": "write", "path": p, "spec": {"k": kind_of(p), "n": self._n()}} for p in two]
        refs = [[self.r.choice([0, 1, 2, 3]), web(p)] for p in two]
        if kind == "page":
            q, s = "src/public/sub/b.html", {"k": "html", "n": self._n(), "scripts": [{"n": self._n(), "imports": refs}]}
        elif kind == "js":
            q, s = "src/public/js/b.js", {"k": "js", "n": self._n(), "imports": refs}
        else:
            q, s = "src/public/css/main.css", {"k": "css", "n": self._n(), "css_imports": [r[1] for r in refs]}
        steps.append({"op": "write", "path": q, "spec": s})
        edits = [{"op": "write", "path": p, "spec": {"k": kind_of(p), "n": (st["spec"]["n"] + 1) % 6}, "how": "inplace"}
                 for p, st in zip(two, steps)]
        for st in steps + edits:
            self.files[st["path"]] = st["spec"]
        return steps, edits

    def ring(self):
        """Files that depend on each other in a circle, used by a page."""
        kind = self.r.choice(["partial", "partial", "js", "css"])
        pool = {"partial": PARTIALS, "js": JS, "css": CSS}[kind]
        ring = self.r.sample(pool, min(len(pool), self.r.choice([2, 2, 3])))
        steps = []
        for a, b in zip(ring, ring[1:] + ring[:1]):
            s = self.files.get(a) or self.spec(a)
            s = dict(json.loads(json.dumps(s)), k=kind_of(a))
            if kind == "partial":
                s["templates"] = [[self._tpl(b), {"key": "w"}]] + s.get("templates", [])[:1]
            elif kind == "js":
                s["imports"] = s.get("imports", [])[:1] + [[self.r.randrange(8), web(b)]]
            else:
                s["css_imports"] = [web(b)]
            self.files[a] = s
            steps.append({"op": "write", "path": a, "spec": s})
        p = self.r.choice(HTML)
        s = self.spec(p)
        s[{"partial": "templates", "js": "js", "css": "css"}[kind]] = [
            [self._tpl(ring[0]), {"key": "w"}] if kind == "partial" else web(ring[0])]
        self.files[p] = s
        steps.append({"op": "write", "path": p, "spec": s})
        return steps

    def _referenced(self, p):
        w = web(p) if p.startswith(PUB) else self._tpl(p) if p.startswith("src/partials/") else None
        if w is None:
            return False
        return any(json.dumps(w) in json.dumps(s) for q, s in self.files.items() if q != p)

    def _modified(self, p):
        """A new spec: sometimes only the nonce, sometimes all anew."""
        if self.r.random() < 0.45:
            s = json.loads(json.dumps(self.files[p]))
            if "n" in s:
                s["n"] = (s["n"] + self.r.randrange(1, 6)) % 6
                return s
        return self.spec(p)


def make_room(vfs, root, p):
    """The user replaces a file by a folder or a folder by a file."""
    d = posixpath.dirname(p)
    while len(d) > len(root):
        if vfs.isfile(d):
            vfs.unlink(d)
        d = posixpath.dirname(d)
    if vfs.isdir(p):
        for k in sorted(vfs.tree(p), reverse=True):
            vfs.unlink(posixpath.join(p, k))
        for k in sorted(vfs.dirs(p), key=len, reverse=True):
            vfs.rmdir(posixpath.join(p, k))
        vfs.rmdir(p)
    vfs.makedirs(posixpath.dirname(p))


def apply_edit(vfs, root, st, hidden, now_sleep):
    """Applies one edit step to the simulated disk.  Returns True if it did
    anything.  `hidden` is a dict kept across steps (hide/unhide)."""
    def full(p):
        return posixpath.join(root, p)
    op = st["op"]
    if op == "write":
        p = full(st["path"])
        data = render(st["path"], st["spec"])
        if st.get("half"):  # an editor that is still saving
            data = data[:len(data) // 2]
        how = st.get("how", "inplace")
        make_room(vfs, root, p)
        if how == "keep_mtime" and vfs.exists(p):
            old = vfs.stat(p)
            if old.st_size != len(data):
                vfs.write_file(p, data)
                vfs.utime_ns(p, old.st_mtime_ns)
                return True
        if how == "recreate" and vfs.exists(p):
            vfs.unlink(p)
        if how in ("atomic", "backup"):
            old = vfs.stat(p) if vfs.isfile(p) else None
            t = full("stash/tmp")
            vfs.makedirs(posixpath.dirname(t))
            vfs.write_file(t, data)
            if how == "backup" and old is not None:
                vfs.utime_ns(t, old.st_mtime_ns)
            vfs.rename(t, p)
            if how == "backup" and old is not None:  # so that the signature differs for certain
                vfs.retire_inode(old.st_ino)
        else:
            was = vfs.stat(p).st_mtime_ns if vfs.isfile(p) else None
            vfs.write_file(p, data)
            if how == "older" and was is not None:  # restored over the newer one
                vfs.utime_ns(p, was - 1_000_000_000_000)
        return True
    if op == "delete":
        if vfs.isfile(full(st["path"])):
            vfs.unlink(full(st["path"]))
            return True
        return False
    if op == "folder":  # moved with everything in it, or moved back
        a, b = full(st["path"]), full(st["to"])
        if st["path"] in hidden:
            a, b = hidden[st["path"]], a
        if vfs.isdir(a) and not vfs.lexists(b):
            vfs.makedirs(posixpath.dirname(b))
            vfs.rename(a, b)
            if st["path"] in hidden:
                del hidden[st["path"]]
            else:
                hidden[st["path"]] = b
            return True
        return False
    if op == "rename":
        a, b = full(st["from"]), full(st["to"])
        if a != b and vfs.isfile(a) and not b.startswith(a + "/") and not a.startswith(b + "/"):
            make_room(vfs, root, b)
            vfs.rename(a, b)
            return True
        return False
    if op == "swap":
        a, b, t = full(st["a"]), full(st["b"]), full("stash/swap")
        if vfs.isfile(a) and vfs.isfile(b):
            vfs.makedirs(posixpath.dirname(t))
            vfs.rename(a, t)
            vfs.rename(b, a)
            vfs.rename(t, b)
            return True
        return False
    if op == "append":
        p = full(st["path"])
        if vfs.isfile(p):
            vfs.write_file(p, vfs.read_bytes(p) + st["text"].encode())
            return True
        return False
    if op == "touch":
        p = full(st["path"])
        if vfs.isfile(p):
            vfs.utime_ns(p, None)
            return True
        return False
    if op == "hide":
        p = full(st["path"])
        if vfs.isfile(p):
            t = full(f"stash/hidden{len(hidden)}")
            vfs.makedirs(posixpath.dirname(t))
            vfs.rename(p, t)
            hidden[st["path"]] = t
            return True
        return False
    if op == "unhide":
        for p in list(hidden):
            t = hidden.pop(p)
            if vfs.exists(t) and not vfs.exists(full(p)):
                make_room(vfs, root, full(p))
                vfs.rename(t, full(p))
        return True
    raise ValueError(op)


# ---------------------------------------------------------------------------
# sources no one should write, but someone will

ODD = {
    "html": [
        "", "\n", "plain text, no tags", "<", "</", "<!", "<!--", "<!-- unclosed", "<p", "<p class=", "<p class='x",
        "<html><head></html>", "</p></div>", "<script>", "<script>import", "<script type=module>import x from '",
        "<style>", "<style>.a {", "<style>/* </style>", "<style>a{background:url(</style>",
        "<!--[IMAGE: ]-->", "<!--[IMAGE: /img/p.png]-->", "<!--[IMAGE: /img/p.png 0 0]-->",
        "<!--[IMAGE: /img/p.png -4 8]-->", "<!--[IMAGE: /img/p.png a b]-->", "<!--[IMAGE: /img/none.png 8 8]-->",
        "<!--[IMAGE: /img/p.png 8 8 cover {bad}]-->", "<!--[IMAGE: /img/p.png 8 8 stretch {} lazy]-->",
        "<!--[IMAGE: ../../x.png 8 8]-->", "<!--[TEMPLATE: ]-->", "<!--[TEMPLATE: []]-->",
        "<!--[TEMPLATE: [\"/none.html\", {}]]-->", "<!--[TEMPLATE: [\"/../public/index.html\", {}]]-->",
        "<!--[TEMPLATE: {\"a\": 1}]-->", "<!--[STACK: ]-->", "<!--[STACK: [\"pop\"]]-->",
        "<!--[STACK: [\"retrieve\", \"none\"]]-->", "<!--[STACK: [\"push\"]]-->", "<!--[UNKNOWN: 1]-->",
        "<a href=\"/none.html\">x</a>", "<link rel=stylesheet>", "<link rel=stylesheet href>",
        "<link rel=\"stylesheet\" href=\"\">", "<link rel=\"stylesheet\" href=\"//cdn/x.css\">",
        "<link rel=\"stylesheet\" href=\"https://cdn.example/x.css\">", "<script src=\"\"></script>",
        "<script src=\"http://[::1\"></script>", "<script src=\"?v=1\"></script>", "\xff\xfe\x00", "\x00" * 20,
        "<div>" * 400, "<div>" * 300 + "</div>" * 300, "&amp;&#0;&bogus;", "<p a='\"' b=\"'\">",
        "<svg><path/></svg>", "<textarea><p></textarea>", "<title><b></title>", "<![CDATA[x]]>", "<?php ?>",
    ],
    "css": [
        "", "{", "}", ".a {", ".a { color", "/* unclosed", "\"unclosed", "url(", "url(\"", "a{background:url(none.png)}",
        "@import 'x.css';", "@media {", "@", "\\", "a{b:c}}}}", "/*! PREPROCESSOR: import .none */",
        "a { /*! PREPROCESSOR: import .r0 FROM /css/none.css */ }", "a { /*! PREPROCESSOR: import */ }",
        "/*! PREPROCESSOR: icon */", "/*! PREPROCESSOR: icon none primary all-colors all-sizes */",
        "/*! PREPROCESSOR: icon x none [] [] */", "/*! PREPROCESSOR: icon x primary [\"none\" all-sizes */",
        "/*! PREPROCESSOR: bogus */", ":root { --col-primary: none; --icon-size-medium: ; }", "<!-- -->", "\xff\x00",
        "a{background:url(data:)}", "a{background:url(\"data:image/svg+xml\")}", "a{background:url(data:image/svg+xml;base64,%%%)}",
        "a{" * 300, "a { /*! PREPROCESSOR: import .r0 */", "#" * 50, "--x: {a:b};", "U+4??", "1e1000", "a{width:calc(1px + (2px}",
    ],
    "js": [
        "", "import", "import x", "import x from", "import x from '", "import x from 'a", "import x from ''",
        "import x from './none.js'", "import x from 'lodash'", "import x from 'https://cdn.example/x.js'",
        "import('./b.js')", "export * from './b.js'", "export { a } from '/js/none.js';", "/* unclosed", "// import x from '/js/none.js';",
        "`unclosed ${", "'unclosed", "/regex", "a = b / c / d;", "const r = /[/]'/;", "\xff\x00", "<!-- html comment",
        "x = `${`${1}`}`;", "import {a as b, c} from '/js/b.js'; import d from \"/js/b.js\"", "import.meta.url",
        "(" * 500, "\\u{", "0x", "1..2", "#!shebang", "import x from '/../../../etc/passwd';", "import x from '/';",
    ],
    "glue": ["", "{", "[]", "null", "3", "{\"a\": 1}", "{\"a\": {}}", "{\"a\": {\"path\": 3}}", "\xff",
             "{\"a\": {\"path\": \"/img/p.png\"}}", "{\"a\": {\"path\": \"/img/p.png\", \"width\": \"x\", \"height\": 8}}",
             "{\"a\": {\"path\": \"/img/none.png\", \"width\": 8, \"height\": 8}}",
             "{\"a\": {\"path\": \"/img/p.png\", \"width\": 8, \"height\": 8, \"crop_arguments\": 7}}",
             "{\"a\": {\"path\": \"/img/p.png\", \"width\": 8, \"height\": 8, \"crop\": \"none\"}}",
             "{\"a\": {\"path\": \"../p.png\", \"width\": 8, \"height\": 8}}",
             "{\"a\": {\"path\": \"/img/p.png\", \"width\": 0, \"height\": -1}}"],
    "png": ["", "not an image", "\x89PNG\r\n\x1a\n", "\x89PNG\r\n\x1a\n\x00\x00\x00\rIHDR\x00\x00"],
    "svg": ["", "<svg", "\xff\xfe", "no svg"],
    "asset": ["\x00\xff" * 10],
}
ODD["partial"] = ODD["html"]
ODD["const"] = ODD["js"]


def odd(r, path):
    k = kind_of(path)
    t = r.choice(ODD[k])
    if r.random() < 0.3 and k in ("html", "partial", "css", "js"):
        t += r.choice(ODD[k])
    return {"k": "raw", "text": t}


# ---------------------------------------------------------------------------
# an independent view of what a project refers to, from the bytes of its files

_REFS = {
    "html": re.compile(r'<(?:link(?! rel="(?:canonical|icon)")|script|meta)[^>]*?(?:href|src)="(/[^"?#]*)"'),
    "js": re.compile(r'''^\s*import [^;]*?["']([./][^"'?#]*)["'];''', re.M),
    "css_url": re.compile(r'url\("?(/[^")?\s]*)"?\)'),
    "css_import": re.compile(r"PREPROCESSOR: import \S+(?: FROM (\S+))? \*/"),
    "tpl": re.compile(r'<!--\[TEMPLATE: \["([^"]+)"'),
    "icon": re.compile(r"PREPROCESSOR: icon (\S+)"),
}


def references(path, data):
    """[(kind, project path)] of what the file refers to."""
    try:
        t = data.decode()
    except UnicodeDecodeError:
        return []
    out = []
    here = posixpath.dirname(path)

    def absolute(ref):
        if ref.startswith("/"):
            return "src/public" + ref
        return posixpath.normpath(posixpath.join(here, ref))

    def css(t):
        out.extend(("url", absolute(u)) for u in _REFS["css_url"].findall(t))
        for m in _REFS["css_import"].findall(t):
            out.append(("css_import", absolute(m) if m else PUB + "css/main.css"))
        out.extend(("icon", PUB + f"img/icons/{n}.svg") for n in _REFS["icon"].findall(t))
    if path.endswith(".html"):
        if path.startswith(PUB):
            out.extend(("link", absolute(u)) for u in _REFS["html"].findall(t))
            css(t)
            out.extend(("import", absolute(u)) for u in _REFS["js"].findall(t))
            out.extend(("image", absolute(u)) for u in re.findall(r"<!--\[IMAGE: (\S+)", t))
        for u in _REFS["tpl"].findall(t):
            out.append(("template", "src/partials" + u))
    elif path.startswith(PUB) and path.endswith(".css"):
        css(t)
    elif path.startswith(PUB) and path.endswith(".js"):
        out.extend(("import", absolute(u)) for u in _REFS["js"].findall(t))
    elif path.startswith(PUB) and path.endswith(".images.json"):
        out.extend(("image", absolute(u)) for u in re.findall(r'"path": ?"([^"]+)"', t))
    return out


def expect(src):
    """What a build of these sources has to do, as far as the references in them
    tell: "ok", "fail" or "unknown".  src as in the harness (paths below src/)."""
    files = {"src/" + k: d for k, d in src.items() if isinstance(d, (bytes, bytearray))}
    unknown = False
    refs = {}
    for p, d in files.items():
        if p.startswith("src/partials/"):
            continue
        kinds = references(p, d)
        seen = set()
        todo = [t for k, t in kinds if k == "template"]
        text = d
        while todo:  # what a page pulls in counts as the page's
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            if t not in files:
                return "fail"
            text += files[t]
            more = references(t, files[t])
            todo += [x for k, x in more if k == "template"]
            kinds += [x for x in references(PUB + "x.html", files[t]) if x[0] != "template"]
        if _template_cycle(p, files):
            return "fail"
        refs[p] = kinds
    made = {glue_js(p) for p in files if p.endswith(".images.json")}
    edges = {}
    bad = False
    for p, kinds in refs.items():
        for k, t in kinds:
            if k in ("image", "icon"):
                if t not in files:
                    unknown = True
                continue
            if k == "template":
                continue
            if t in made:
                unknown = True  # it may have been left out because of an unusable image
                continue
            if t.endswith(".images.js"):
                unknown = True  # somebody's own under the name of a generated one: not served
                continue
            if t not in files or not t.startswith(PUB):
                bad = True
                continue
            if k == "css_import" and t == p:
                continue  # importing from oneself is fine
            if not t.endswith(".html"):  # pages are linked to without a version
                edges.setdefault(p, set()).add(t)
    if bad:
        return "fail"
    if _cyclic(edges):
        return "fail"
    for p, kinds in refs.items():  # icons take their colours from the main stylesheet
        if any(k == "icon" for k, t in kinds) and p != PUB + "css/main.css":
            edges.setdefault(p, set()).add(PUB + "css/main.css")
    if _cyclic(edges):
        return "unknown"
    return "unknown" if unknown else "ok"


def _template_cycle(page, files):
    edges, todo, seen = {}, [page], set()
    while todo:
        p = todo.pop()
        if p in seen or p not in files:
            continue
        seen.add(p)
        edges[p] = {t for k, t in references(p, files[p]) if k == "template"}
        todo += edges[p]
    return _cyclic(edges)


def _cyclic(edges):
    state = {}

    def visit(n):
        state[n] = 1
        for m in edges.get(n, ()):
            if state.get(m) == 1 or (m not in state and visit(m)):
                return True
        state[n] = 2
        return False
    return any(n not in state and visit(n) for n in sorted(edges))
