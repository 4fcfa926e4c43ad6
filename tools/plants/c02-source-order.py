PROPERTY = "C02"
NEEDS = "an image exported in at least three formats, and another hash seed of the interpreter"
BREAKS = "the order of the sources of a picture depends on the hash seed, so builds of the same sources differ"
EDITS = [("build/html/manips/images/manip.py", """        for format_name, outputs in metadata.target.outputs.items():
            if format_name == self.context.image_settings.default_format:
                continue

""", """        for format_name in set(metadata.target.outputs) - {
            self.context.image_settings.default_format
        }:
            outputs = metadata.target.outputs[format_name]
""")]
DEMO = '''
import subprocess
page = "<!DOCTYPE html>\\n<html><head></head><body><!--[IMAGE: /img/a.png 10 10 cover {}]--></body></html>"
one = {"100": {"min_area_px2": None, "max_area_px2": None, "preference": 1, "formatter_kwargs": {}}}
formats = {n: {"exports": one, "minimum_unit_size_bytes": 1} for n in ("webp", "gif", "bmp", "jpeg", "png")}
root = project("p", {"src/public/a.html": page}, {"images": {"formats": formats, "default_format": "png",
                                                             "maximum_resolution": 1, "resolution_step": "1"}})
image(root, "src/public/img/a.png", (1, 2, 3))
seen = set()
for seed in range(6):
    for d in ("out", "artifacts"):
        shutil.rmtree(os.path.join(root, d), ignore_errors=True)
    r = subprocess.run([sys.executable, "-W", "ignore", "-B", "-c",
                        "import sys; sys.path.insert(0, sys.argv[1]); from vanillaplusjs.runners import build as b; "
                        "b.main(['--folder', sys.argv[2]])", sys.path[0], root],
                       env=dict(os.environ, PYTHONHASHSEED=str(seed)), capture_output=True)
    check(r.returncode == 0, f"build {seed}: {r.stderr[-500:]}")
    seen.add(tree(root)["a.html"])
check(len(seen) == 1, "the page depends on the hash seed")
'''
