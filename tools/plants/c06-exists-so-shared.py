PROPERTY = "C06"
NEEDS = "two pages that share an exported image and are edited together, so that its copy is removed and made again"
BREAKS = "an image that has been exported is no longer announced by the scan, so both pages link it at once"
EDITS = [("build/html/manips/images/scanner.py", """    return ScanFileResult(
        dependencies=dependencies,
        produces=produces,
    )
""", """    exported = os.path.exists(
        os.path.join(
            context.folder, target_art_folder_relative_to_root, "metadata.json"
        )
    )
    return ScanFileResult(
        dependencies=dependencies,
        produces=[] if exported else produces,
    )
""")]
DEMO = '''
page = "<!DOCTYPE html>\\n<html><head></head><body>%d<!--[IMAGE: /img/a.png 10 10 cover {}]--></body></html>"
root = project("p", {"src/public/a.html": page % 1, "src/public/b.html": page % 2})
image(root, "src/public/img/a.png", (1, 2, 3))


def log(text):
    with open(os.path.join(SCRATCH, "log"), "a") as f:
        f.write(text + "\\n")


def slow():
    import shutil as sh

    def wrap(real):
        def f(src, dst, *a, **kw):
            if os.path.join("out", "www", "img", "a") in str(dst):
                log(f"{dst} begin")
                time.sleep(0.5)
                try:
                    return real(src, dst, *a, **kw)
                finally:
                    log(f"{dst} end")
            return real(src, dst, *a, **kw)
        return f
    os.symlink = wrap(os.symlink)
    sh.copy = wrap(sh.copy)
    os.cpu_count = lambda: 4


check(build(root) == 0, "first build")
write(root, "src/public/a.html", page % 3)
write(root, "src/public/b.html", page % 4)
check(build(root, before=slow) == 0, "second build")
busy = set()
with open(os.path.join(SCRATCH, "log")) as f:
    for line in f:
        path, what = line.split()
        if what == "begin":
            check(path not in busy, f"{path} is made by two workers at once")
            busy.add(path)
        else:
            busy.discard(path)
'''
