PROPERTY = "C01"
NEEDS = "a source replaced by another file of the same size and time stamp (a restored backup, a copy that keeps times)"
BREAKS = "signatures ignore the inode, so that the replacement is never noticed"
EDITS = [("build/file_signature.py", "        inode=inode,\n    )\n", "        inode=0 if stats.st_size else inode,\n    )\n")]
DEMO = '''
root = project("p", {"src/public/css/a.css": "body { color: red; }\\n", "src/public/css/b.txt": "body { color: tan; }\\n"})
a = os.path.join(root, "src/public/css/a.css")
b = os.path.join(root, "backup")
write(root, "backup", "body { color: tan; }\\n")
for p in (a, b):
    os.utime(p, ns=(1_700_000_000_100_000_000,) * 2)
check(build(root) == 0, "first build")
os.replace(b, a)
check(build(root) == 0, "second build")
code, want = fresh(root)
check(code == 0 and tree(root) == want, "the replacement is not noticed")
'''
