PROPERTY = "C10"
NEEDS = "an images.json file that is added together with an images.js file of the user's own"
BREAKS = "the user's images.js file is overwritten with the generated placeholder"
EDITS = [("build/hot_incremental_rebuild.py", """                        if os.path.exists(
                            os.path.join(context.folder, placeholder_relpath)
                        ):
                            with open(""", """                        if (
                            placeholder_relpath in old_dependency_graph
                            or placeholder_relpath in deleted_files
                        ) and os.path.exists(
                            os.path.join(context.folder, placeholder_relpath)
                        ):
                            with open(""")]
DEMO = '''
page = "<!DOCTYPE html><html><head></head><body></body></html>"
root = project("p", {"src/public/index.html": page})
image(root, "src/public/img/a.png", (1, 2, 3))
check(build(root) == 0, "first build")
write(root, "src/public/js/x.images.json", json.dumps({"a": {"path": "/img/a.png", "width": 10, "height": 10}}))
write(root, "src/public/js/x.images.js", "// mine\\nexport default {a: 1};\\n")
build(root)
with open(os.path.join(root, "src/public/js/x.images.js")) as f:
    check("mine" in f.read(), "a file of the user was overwritten")
'''
