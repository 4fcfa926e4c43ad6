PROPERTY = "C05"
NEEDS = "a script that imports two files of the same name from different folders, and a later change of the second of them"
BREAKS = "imports are recorded by name, so that the script keeps the old hash of the other file when that one changes"
EDITS = [("build/js/manips/hash_imports.py", """        self.children.add(rel_to_root)
""", """        name = os.path.basename(rel_to_root)
        if all(os.path.basename(known) != name for known in self.children):
            self.children.add(rel_to_root)
""")]
DEMO = '''
both = ["src/public/js/%s/lib.js" % d for d in "ab"]
root = project("p", {"src/public/js/main.js": 'import "/js/a/lib.js";\\nimport "/js/b/lib.js";\\n',
                     both[0]: "one();\\n", both[1]: "two();\\n"})
check(build(root) == 0, "first build")
for p in both:
    write(root, p, "another();\\n")
    check(build(root) == 0, "build after an edit")
    code, want = fresh(root)
    check(code == 0 and tree(root) == want, "the script has an old hash")
'''
