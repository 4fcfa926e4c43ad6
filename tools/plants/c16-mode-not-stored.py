PROPERTY = "C16"
NEEDS = "a development build, then an edit of the constants module before a production build, then a development build"
BREAKS = ("the mode of the last build is only stored when the constants module did not change itself, so the third build "
          "believes that the constants it finds are those of its own mode and keeps serving the production ones")
EDITS = [("build/hot_incremental_rebuild.py", """        if old_constants_mode != current_mode:
""", """        if (
            old_constants_mode != current_mode
            and context.js_constants.relpath not in changed_files
        ):
""")]
DEMO = '''
root = project("p", {"src/public/index.html": "<!DOCTYPE html>\\n<html><head></head><body></body></html>",
                     "src/public/js/constants.js": "export const API_URL = 'x';\\n"})
check(build(root, dev=True) == 0, "first build")
check(build(root, dev=False) == 0, "second build")
write(root, "src/public/js/constants.js", "export const API_URL = 'something else';\\n")
check(build(root, dev=True) == 0, "third build")
check(build(root, dev=False) == 0, "fourth build")
text = tree(root)["js/constants.js"]
check(b"prod" in text, f"a production build serves {text!r}")
'''
