PROPERTY = "C02"
NEEDS = "a worker which is still building a stylesheet when another worker finishes something else, so that a page linking to it is dispatched"
BREAKS = "a file is built while one of its dependencies is still being built, so the build fails, depending on timing"
EDITS = [("build/hot_incremental_rebuild.py", """                    if (
                        child not in updated_results
                        and child in original_files_to_rebuild
                    ):
""", """                    if child in files_to_rebuild:
""")]
DEMO = '''
root = project("p", {
    "src/public/index.html": "<!DOCTYPE html>\\n<html><head><link rel=\\"stylesheet\\" href=\\"/css/a.css\\"></head><body></body></html>",
    "src/public/css/a.css": "body { color: red; }\\n", "src/public/b.txt": "b"})


def slow():
    real = builtins.open

    def open_(file, mode="r", *a, **k):
        if str(file).endswith("www/css/a.css") and "w" in mode:
            time.sleep(1.5)
        return real(file, mode, *a, **k)
    builtins.open = open_


check(build(root, before=slow) == 0, "the build fails when the stylesheet is slow")
code, want = fresh(root)
check(code == 0 and tree(root) == want, "wrong output")
'''
