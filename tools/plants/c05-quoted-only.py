PROPERTY = "C05"
NEEDS = "a stylesheet with an unquoted url(), built once, and a later change of the file it names"
BREAKS = ("only quoted urls are recorded as what the stylesheet was built from, so it keeps the old hash of a file named by an "
          "unquoted url when that file changes")
EDITS = [("build/css/manips/version_urls.py", """                        self.dependencies.add(new_suffix.path_of_hash_from_root)
                        return False
                    return True

            return False
""", """                        self.dependencies.add(new_suffix.path_of_hash_from_root)
                        return False
                    self.children.add(new_suffix.path_of_hash_from_root)
                    return True

            return False
"""), ("build/css/manips/version_urls.py", """            return [node]

        self.children.add(new_suffix.path_of_hash_from_root)
        with open(
""", """            return [node]

        with open(
""")]
DEMO = '''
root = project("p", {"src/public/css/a.css": "body { background: url(/assets/a.bin); }\\n", "src/public/assets/a.bin": "one"})
check(build(root) == 0, "first build")
write(root, "src/public/assets/a.bin", "another")
check(build(root) == 0, "second build")
code, want = fresh(root)
check(code == 0 and tree(root) == want, "the stylesheet has an old hash")
'''
