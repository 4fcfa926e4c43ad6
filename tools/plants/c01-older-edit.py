PROPERTY = "C01"
NEEDS = "a file is overwritten in place by an older one of the same size (restored from a backup or an archive with its old time)"
BREAKS = "the edit is not noticed, since only a newer time counts as a change"
EDITS = [("build/graph.py", """            and a_node.mtime == mtime
""", """            and a_node.mtime >= mtime
""")]
DEMO = '''
page = "<!DOCTYPE html><html><head></head><body>%s</body></html>"
root = project("p", {"src/public/index.html": page % "one"})
p = os.path.join(root, "src/public/index.html")
check(build(root) == 0, "first build")
with open(p, "r+") as fp:
    fp.write(page % "two")
os.utime(p, (1500000000, 1500000000))
check(build(root) == 0, "second build")
check(tree(root) == fresh(root)[1], "an older file that replaced a newer one is not built")
'''
