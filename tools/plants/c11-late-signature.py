PROPERTY = "C11"
NEEDS = "an edit of a file after it was built and before the build ends"
BREAKS = "the signature stored is that of the edited file, so that the next build does not notice the edit"
EDITS = [("build/hot_incremental_rebuild.py", """            if file in changed_files:
                new_signature = changed_files[file]
            elif file in added_files:
                new_signature = added_files[file]
            else:
""", """            if file in changed_files or file in added_files:
                new_signature = get_file_signature(os.path.join(context.folder, file))
            else:
""")]
DEMO = '''
import threading
root = project("p", {"src/public/css/a.css": "body { color: red; }\\n", "src/public/css/z.css": "body { color: blue; }\\n"})


def before():
    real = builtins.open

    def open_(file, mode="r", *a, **k):
        if str(file).endswith("www/css/z.css") and "w" in mode:
            time.sleep(2.0)
        return real(file, mode, *a, **k)
    builtins.open = open_

    def edit():
        while not os.path.exists(os.path.join(root, "out/www/css/a.css.hash")):
            time.sleep(0.01)
        time.sleep(0.3)
        write(root, "src/public/css/a.css", "body { color: green; }\\n")
    threading.Thread(target=edit, daemon=True).start()


check(build(root, before=before) == 0, "first build")
check(build(root) == 0, "second build")
code, want = fresh(root)
check(code == 0 and tree(root) == want, "the edit made while the build ran is lost")
'''
