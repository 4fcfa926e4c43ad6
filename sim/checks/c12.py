"""C12: exported images are complete, current and shared."""
import io
import json
import posixpath
import re

from .. import harness as H
from .. import project as P
from . import base as B

_IMG = re.compile(rb"<!--\[IMAGE: (\S+) (\d+) (\d+)(?: cover (\{.*?\}))?(?: (?:lazy|eager))?\]-->")
_TPL = re.compile(rb'<!--\[TEMPLATE: \["([^"]+)".*?\]-->')
_PIC = re.compile(rb"<picture>(.*?)</picture>", re.S)
_URL = re.compile(rb"/[^\s\",]+/\d+/\d+x\d+\.[a-z]+")
_TARGET = re.compile(r"^(?P<dir>.+/\d+)/(?P<w>\d+)x(?P<h>\d+)\.(?P<ext>[a-z0-9]+)$")
FORMATS = {"jpeg": "JPEG", "webp": "WEBP", "png": "PNG", "bmp": "BMP", "gif": "GIF"}
_decoded = {}


def decode(data):
    from PIL import Image
    r = _decoded.get(data)
    if r is None:
        if len(_decoded) > 4000:
            _decoded.clear()
        try:
            im = Image.open(io.BytesIO(data))
            im.load()
            fmt, size = im.format, im.size
            im = im.convert("RGB")
            px = im.load()
            w, h = size
            def mean(x0, x1, y0, y1):
                n = (x1 - x0) * (y1 - y0)
                return tuple(sum(px[x, y][c] for x in range(x0, x1) for y in range(y0, y1)) / n
                             for c in range(3))
            quads = [(0, w // 2, 0, h), (w - w // 2, w, 0, h), (0, w, 0, h // 2), (0, w, h - h // 2, h)]
            r = (fmt, size, [mean(*q) for q in quads])
        except Exception as e:
            r = (repr(e), None, None)
        _decoded[data] = r
    return r


def full(crop):
    d = {"pre_top_crop": 0, "pre_left_crop": 0, "pre_right_crop": 0, "pre_bottom_crop": 0,
         "crop_left_percentage": 0.5, "crop_top_percentage": 0.5}
    d.update(crop or {})
    return d


def expand(text, src, depth=0):
    def f(m):
        d = src.get("partials" + m[1].decode())
        if d is None or depth > 8:
            return b""
        return expand(d, src, depth + 1)
    return _TPL.sub(f, text)


class Request:
    def __init__(self, path, w, h, crop):
        self.path, self.w, self.h, self.crop = path, w, h, full(crop)

    def key(self):
        return (self.path, self.w, self.h, tuple(sorted(self.crop.items())))

    def source(self, src):
        return src.get("public" + self.path)

    def usable(self, src, page=False):
        """Pages show every image that has the size asked for, if need be enlarged
        after cropping; image modules want that much left after cropping."""
        d = self.source(src)
        if d is None:
            return False
        fmt, size, _ = decode(d)
        if size is None:
            return False
        c = self.crop
        if page:
            return size[0] >= self.w and size[1] >= self.h
        return (size[0] - c["pre_left_crop"] - c["pre_right_crop"] >= self.w
                and size[1] - c["pre_top_crop"] - c["pre_bottom_crop"] >= self.h)

    def region(self, size):
        """The part of the source that is to be shown: left, top, right, bottom."""
        c = self.crop
        w = size[0] - c["pre_left_crop"] - c["pre_right_crop"]
        h = size[1] - c["pre_top_crop"] - c["pre_bottom_crop"]
        k = min(w / self.w, h / self.h)
        cw, ch = self.w * k, self.h * k
        left = c["pre_left_crop"] + (w - cw) * float(c["crop_left_percentage"])
        top = c["pre_top_crop"] + (h - ch) * float(c["crop_top_percentage"])
        return left, top, left + cw, top + ch


class C12(B.Check):
    id = "C12"
    technique = "every served image is decoded and compared with an independently computed crop of the current source; sharing, single export and removal judged from the served pages and the recorded file operations"
    note = "Sampled histories and schedules; sources are gradients from which the shown region and the source version can be read off with a tolerance of about a pixel."
    quick_cases = 280
    rule = ("one evaluation is one seeded history of projects rich in images, image modules and templates "
            "with edits of images, requests and crops, some builds killed or failing; distinct and "
            "non-trivial when the steps differ and at least one exported image was judged after a build")
    assumptions = ["images are judged by the mean color of their halves, to about one source pixel",
                   "an image too small for a request is left alone, as documented"]

    def generate(self, r, tier):
        sc = B.base(r)
        g, sc["steps"] = B.history(r, r.choice([0, 1, 1, 2, 3]),
                                   {"dangling": 0.0, "cycle": 0.0, "images": 0.95, "glue": 0.7, "icons": 0.1,
                                    "inline": 0.1, "big_crops": 1, "removed": 0.12})
        builds = [st for st in sc["steps"] if st["op"] == "build"]
        if len(builds) > 1 and r.random() < 0.3:
            st = r.choice(builds[:-1])
            st["faults"] = [{"kind": "kill", "at": r.randrange(80), "torn": r.random()}] if r.random() < 0.6 \
                else [{"kind": "oserr", "cls": "m", "at": r.randrange(80), "errno": 28}]
        return sc

    def execute(self, sc):
        s = H.Session(sc, sc.get("decisions")).run(H.default_driver)
        counts = {"images": 0, "requests": 0, "builds": 0, "shared": 0}
        with B.judging(s):
            for i, rec in enumerate(s.records):
                if rec.outcome.ok:
                    counts["builds"] += 1
                    self.judge(rec, counts)
                elif not set(rec.faults) - {"short_read", "short_write"} and self.sound(rec):
                    raise H.Violation("images which are all there are not exported: the build fails",
                                      {"build": i, "outcome": rec.outcome.brief(), "trace": (rec.outcome.text or "")[-1500:]})
        return B.Result([s], counts, [sc["steps"]] if counts["images"] else None)

    @staticmethod
    def sound(rec):
        return P.expect({**{p[len("src/"):]: P.EXTERNAL[p][1] for p in json.loads(rec.cfg)["external_files"]}, **rec.src}) == "ok"

    def judge(self, rec, counts):
        out, src = rec.out, rec.src
        self.formats = json.loads(rec.cfg)["images"]["formats"]
        dirs, used = {}, set()
        for k, d in src.items():
            if not isinstance(d, bytes):
                continue
            if k.startswith("public/") and k.endswith(".html"):
                page = k[len("public/"):]
                reqs = [Request(m[0].decode(), int(m[1]), int(m[2]), json.loads(m[3] or b"{}"))
                        for m in _IMG.findall(expand(d, src)) for m in [(m[0], m[1], m[2], m[3])]]
                reqs = [q for q in reqs if q.usable(src, page=True)]
                pics = _PIC.findall(out.get(page, b""))
                if len(pics) != len(reqs):
                    raise H.Violation("a page does not show the images it asks for: " + page,
                                      {"asked": [q.key() for q in reqs], "shown": len(pics)})
                for q, pic in zip(reqs, pics):
                    urls = [u.decode() for u in _URL.findall(pic)]
                    dim = re.search(rb'width="(\d+)" height="(\d+)"', pic)
                    if not dim or (int(dim[1]), int(dim[2])) != (q.w, q.h):
                        raise H.Violation("an image tag states another size than was asked for",
                                          {"page": page, "asked": q.key()})
                    self.request(q, urls, src, out, page, dirs, used, counts)
            elif k.startswith("public/") and k.endswith(".images.json"):
                page = P.glue_js("src/" + k)[len(P.PUB):]
                try:
                    want = json.loads(d)
                except ValueError:
                    continue
                reqs = {n: Request(v["path"], v["width"], v["height"], v.get("crop_arguments"))
                        for n, v in want.items()}
                if page not in out:
                    if all(q.usable(src) for q in reqs.values()):
                        raise H.Violation("an image module is not served: " + page)
                    continue
                t = out[page].decode()
                have = json.loads(t[t.index("{"):t.rindex("}") + 1])
                for n, q in reqs.items():
                    if n not in have:
                        raise H.Violation("an image module lacks an image: " + page, {"image": n})
                    st = have[n]["target"]["settings"]
                    if (st["width"], st["height"]) != (q.w, q.h) or full(st["crop_settings"]) != q.crop:
                        raise H.Violation("an image module states other settings than were asked for",
                                          {"module": page, "stated": st, "asked": q.key()})
                    urls = []
                    for ext, outs in have[n]["target"]["outputs"].items():
                        for o in outs:
                            m = _TARGET.match(o["url"])
                            if not m or (int(m["w"]), int(m["h"])) != (o["width"], o["height"]):
                                raise H.Violation("an image module names a wrong size", {"module": page, "output": o})
                            urls.append(o["url"])
                    self.request(q, urls, src, out, page, dirs, used, counts)
        for key, ds in dirs.items():
            if len(ds) > 1:
                raise H.Violation("the same request is served by different files", {"request": key, "folders": sorted(ds)})
        for k in out:
            m = _TARGET.match(k)
            if m and k not in used:
                raise H.Violation("an image nobody refers to is still served: " + k)
        made = {}
        for seq, run, pid, op, path, extra in rec.ops:
            p = extra if op == "rename" else path
            if op in ("open_w", "rename", "link", "symlink") and isinstance(p, str) and _TARGET.match(p):
                made[p] = made.get(p, 0) + 1
                if made[p] > 1:
                    raise H.Violation("an image is exported more than once in a build: " + p[len(H.ROOT) + 1:])
            elif op == "unlink" and path in made:
                made[path] -= 1

    def request(self, q, urls, src, out, page, dirs, used, counts):
        counts["requests"] += 1
        names = {u.rsplit("/", 1)[1] for u in urls}
        folder = {u.rsplit("/", 1)[0] for u in urls}
        for ext in self.formats:
            if f"{q.w}x{q.h}.{ext}" not in names:
                raise H.Violation("an image lacks its base size", {"page": page, "request": q.key(), "has": sorted(names)})
        if len(folder) != 1:
            raise H.Violation("one image is served from several folders", {"page": page, "folders": sorted(folder)})
        ds = dirs.setdefault(q.key(), set())
        if ds:
            counts["shared"] += 1
        ds.update(folder)
        size = decode(q.source(src))[1]
        n = decode(q.source(src))[2][0][2]
        left, top, right, bottom = q.region(size)
        for u in set(urls):
            f = u[1:]
            used.add(f)
            data = out.get(f)
            if data is None:
                raise H.Violation("an image a page refers to is not served: " + f, {"page": page})
            fmt, dim, quads = decode(data)
            m = _TARGET.match(f)
            if dim is None:
                raise H.Violation("a served image does not decode: " + f, {"error": fmt})
            if fmt != FORMATS[m["ext"]] or dim != (int(m["w"]), int(m["h"])):
                raise H.Violation("a served image has another format or size than it says: " + f, {"is": [fmt, dim]})
            if int(m["w"]) * q.h != int(m["h"]) * q.w and abs(int(m["w"]) * q.h - int(m["h"]) * q.w) > max(q.w, q.h):
                raise H.Violation("a served image has another shape than was asked for: " + f, {"request": q.key()})
            w, h = right - left, bottom - top
            mid = [(left + w / 4, top + h / 2), (left + 3 * w / 4, top + h / 2),
                   (left + w / 2, top + h / 4), (left + w / 2, top + 3 * h / 4)]
            for (x, y), got in zip(mid, quads):
                ex = ((x - 0.5) * 255 / (size[0] - 1), (y - 0.5) * 255 / (size[1] - 1), n)
                tol = (8 + 1.3 * 255 / (size[0] - 1), 8 + 1.3 * 255 / (size[1] - 1), 16)
                if any(abs(a - b) > t for a, b, t in zip(ex, got, tol)):
                    raise H.Violation("a served image does not show the right part of the current source: " + f,
                                      {"page": page, "request": q.key(), "expected": ex, "got": got})
            counts["images"] += 1


CHECK = C12()
