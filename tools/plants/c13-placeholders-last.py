PROPERTY = "C13"
NEEDS = "clean --placeholders killed after it removed the out folder, then run again"
BREAKS = "the placeholders are removed last and only when there was something else to clean, so the second clean keeps them"
EDITS = [("runners/clean.py", """    if placeholders:
        for placeholder in find_placeholders(folder):
            os.remove(os.path.join(folder, placeholder))

    remove_artifacts(context)
    remove_out(context)
""", """    placeholders = placeholders and os.path.lexists(context.out_folder)

    remove_artifacts(context)
    remove_out(context)

    if placeholders:
        for placeholder in find_placeholders(folder):
            os.remove(os.path.join(folder, placeholder))
""")]
DEMO = '''
root = project("p", {"src/public/js/x.images.json": json.dumps({"a": {"path": "/img/a.png", "width": 10, "height": 10}})})
image(root, "src/public/img/a.png", (1, 2, 3))
check(build(root) == 0, "build")
place = os.path.join(root, "src/public/js/x.images.js")
check(os.path.exists(place), "placeholder")


def clean(n=None):
    def go():
        if n is not None:
            left = [n]
            for name in ("unlink", "remove", "rmdir"):
                def f(*a, _real=getattr(os, name), **kw):
                    if left[0] == 0:
                        os._exit(9)
                    left[0] -= 1
                    return _real(*a, **kw)
                setattr(os, name, f)
        from vanillaplusjs.runners import clean as c
        c.main(["--folder", root, "--placeholders"])
    return run(go)


for n in range(200):
    code = clean(n)
    check(clean() == 0, "second clean")
    check(not os.path.exists(place), f"clean killed after {n} removals and run again keeps a placeholder")
    if code == 0:
        break
    check(build(root) == 0, "build")
'''
