PROPERTY = "C12"
NEEDS = "two requests for the same image and size which only differ in the crop arguments"
BREAKS = "exports are shared by requests with different crop arguments, so that one of them shows the wrong part"
EDITS = [("build/html/manips/images/metadata.py", """            if entry_metadata.target.settings != target:
""", """            found = entry_metadata.target.settings
            if (found.width, found.height, found.crop) != (
                target.width,
                target.height,
                target.crop,
            ):
""")]
DEMO = '''
import re
page = "<!DOCTYPE html>\\n<html><head></head><body><!--[IMAGE: /img/a.png 10 10 cover %s]--></body></html>"
root = project("p", {"src/public/a.html": page % '{"pre_left_crop": 0}'})
image(root, "src/public/img/a.png", (1, 2, 3))
check(build(root) == 0, "first build")
write(root, "src/public/b.html", page % '{"pre_left_crop": 25}')
check(build(root) == 0, "second build")
out = tree(root)


def pixels(name):
    rel = re.search(rb'src="/?([^"?]*[.]png)', out[name]).group(1).decode()
    return out[rel]


check(pixels("a.html") != pixels("b.html"), "both pages show the same part of the image")
'''
