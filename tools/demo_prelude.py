import atexit
import builtins
import json
import multiprocessing
import os
import shutil
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
multiprocessing.set_start_method("fork", force=True)
sys.path.insert(0, os.getcwd())
SCRATCH = tempfile.mkdtemp(prefix="demo")
MAIN = os.getpid()
atexit.register(lambda: os.getpid() == MAIN and shutil.rmtree(SCRATCH, ignore_errors=True))
os.chdir(SCRATCH)

from loguru import logger  # noqa: E402
if not os.environ.get("DEMO_VERBOSE"):
    logger.remove()


def project(name, files, config=None):
    root = os.path.join(SCRATCH, name)
    cfg = {"version": "1.0.0", "host": "example.com", "images": {"formats": {
        "webp": {"exports": {"100": {"min_area_px2": None, "max_area_px2": None, "preference": 1,
                 "formatter_kwargs": {"quality": 100, "method": 0, "lossless": True}}},
                 "minimum_unit_size_bytes": 1},
        "png": {"exports": {"100": {"min_area_px2": None, "max_area_px2": None, "preference": 1,
                "formatter_kwargs": {}}}, "minimum_unit_size_bytes": 1}},
        "default_format": "png", "maximum_resolution": 2, "resolution_step": "1"},
        "auto_generate_images_js_placeholders": True, "external_files": {},
        "js_constants": {"relpath": "src/public/js/constants.js", "shared": {},
                         "dev": {"API_URL": "dev"}, "prod": {"API_URL": "prod"}}}
    cfg.update(config or {})
    write(root, "vanillaplusjs.json", json.dumps(cfg))
    for k, v in files.items():
        write(root, k, v)
    return root


def write(root, rel, data):
    p = os.path.join(root, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if isinstance(data, str):
        data = data.encode()
    with open(p, "wb") as f:
        f.write(data)


def image(root, rel, color, size=(40, 24)):
    from PIL import Image
    p = os.path.join(root, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    im = Image.new("RGB", size, color)
    for x in range(size[0]):
        im.putpixel((x, x % size[1]), (x * 5 % 256, 40, 90))
    im.save(p)


def run(fn, timeout=120):
    """Runs fn in a child process; returns its exit status, or None if it had to be killed."""
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.setpgid(0, 0)
            if not os.environ.get("DEMO_VERBOSE"):
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
            try:
                fn()
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else int(e.code is not None)
            except BaseException:
                traceback.print_exc()
        finally:
            sys.stdout.flush()
            os._exit(code)
    end = time.time() + timeout
    while time.time() < end:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            return os.waitstatus_to_exitcode(st)
        time.sleep(0.01)
    try:
        os.killpg(pid, 9)
    except OSError:
        os.kill(pid, 9)
    os.waitpid(pid, 0)
    return None


def build(root, dev=False, before=None, timeout=120):
    def go():
        if before is not None:
            before()
        from vanillaplusjs.runners import build as b
        b.main(["--folder", root] + (["--dev"] if dev else []))
    return run(go, timeout)


def tree(root, sub="out/www"):
    res = {}
    base = os.path.join(root, sub)
    for d, _, fs in os.walk(base):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as fp:
                res[os.path.relpath(p, base)] = fp.read()
    return res


def fresh(root, dev=False, name="fresh"):
    """What a build from scratch of the same sources leaves."""
    other = os.path.join(SCRATCH, name)
    shutil.rmtree(other, ignore_errors=True)
    shutil.copytree(root, other, ignore=shutil.ignore_patterns("out", "artifacts"))
    code = build(other, dev)
    return code, tree(other)


def check(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)

