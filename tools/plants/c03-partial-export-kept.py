PROPERTY = "C03"
NEEDS = "a build killed while it writes an exported image, then another build"
BREAKS = "an export which an interrupted build left behind is taken for finished, so a truncated image is served"
EDITS = [("build/html/manips/images/exporter.py", """    image.save(dst_file, format=format, **formatter_kwargs)
""", """    if not os.path.exists(dst_file):
        image.save(dst_file, format=format, **formatter_kwargs)
""")]
DEMO = '''
import io
from PIL import Image
page = "<!DOCTYPE html>\\n<html><head></head><body><!--[IMAGE: /img/a.png 10 10 cover {}]--></body></html>"
page = page.replace("cover {}", "cover {}")
root = project("p", {"src/public/a.html": page})
image(root, "src/public/img/a.png", (1, 2, 3))


def dying():
    save = Image.Image.save

    def half(self, fp, *a, **kw):
        save(self, fp, *a, **kw)
        if "artifacts" in str(fp):
            with open(fp, "rb") as f:
                data = f.read()
            with open(fp, "wb") as f:
                f.write(data[:len(data) // 2])
            os.killpg(0, 9)
    Image.Image.save = half


check(build(root, before=dying) != 0, "the build was not killed")
check(build(root) == 0, "second build")
code, want = fresh(root)
check(code == 0, "build from scratch")
got = tree(root)
for k in want:
    if k.endswith((".png", ".webp")):
        try:
            Image.open(io.BytesIO(want[k])).load()
        except Exception:
            continue
        for k2 in got:
            if k2.endswith(k[k.rindex("."):]):
                try:
                    Image.open(io.BytesIO(got[k2])).load()
                except Exception as e:
                    check(False, f"{k2} is not complete: {e}")
'''
