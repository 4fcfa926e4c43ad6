PROPERTY = "C07"
NEEDS = "a change of a file which depends on another file that did not change"
BREAKS = "what a changed file depends on is rebuilt as well, so outputs that the change cannot affect are rewritten"
EDITS = [("build/hot_incremental_rebuild.py", """            if file in old_dependency_graph:
                for par in old_dependency_graph.get_parents(file):
                    if par not in files_to_rebuild:
""", """            if file in old_dependency_graph:
                related = set(old_dependency_graph.get_parents(file))
                if file in updated_children:
                    related.update(
                        dep
                        for dep in old_dependency_graph.get_children(file)
                        if dep in old_output_graph
                    )
                for par in related:
                    if par not in files_to_rebuild:
""")]
DEMO = '''
root = project("p", {"src/public/js/a.js": "export const A = 1;\\n",
                     "src/public/js/b.js": "import { A } from '/js/a.js';\\nexport const B = A;\\n"})
check(build(root) == 0, "first build")
p = os.path.join(root, "out/www/js/a.js")
before = os.stat(p)
time.sleep(0.05)
write(root, "src/public/js/b.js", "import { A } from '/js/a.js';\\nexport const B = A + 1;\\n")
check(build(root) == 0, "second build")
after = os.stat(p)
check((before.st_ino, before.st_mtime_ns) == (after.st_ino, after.st_mtime_ns), "an unaffected output is rewritten")
'''
