PROPERTY = "C14"
NEEDS = "init killed between creating two of its folders"
BREAKS = "running init again does not create the folders that are still missing"
EDITS = [("runners/init.py", """    makedirs_safely(os.path.join(folder, "src", "public", "img"))
    makedirs_safely(os.path.join(folder, "src", "public", "js"))
    makedirs_safely(os.path.join(folder, "src", "partials"))
""", """    if not os.path.exists(os.path.join(folder, "src")):
        makedirs_safely(os.path.join(folder, "src", "public", "img"))
        makedirs_safely(os.path.join(folder, "src", "public", "js"))
        makedirs_safely(os.path.join(folder, "src", "partials"))
""")]
DEMO = '''
root = os.path.join(SCRATCH, "p")
os.makedirs(root)


def init(before=None):
    def go():
        if before:
            before()
        from vanillaplusjs.runners import init as i
        i.main(["--folder", root])
    return run(go)


def die():
    real = os.mkdir

    def mkdir(p, *a, **k):
        if str(p).endswith("js"):
            os._exit(9)
        return real(p, *a, **k)
    os.mkdir = mkdir


check(init(die) == 9, "not killed")
check(init() == 0, "init again fails")
for d in ("src/public/img", "src/public/js", "src/partials"):
    check(os.path.isdir(os.path.join(root, d)), d + " is missing")
check(build(root) == 0, "the build fails")
'''
