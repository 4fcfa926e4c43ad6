PROPERTY = "C04"
NEEDS = "a write which fails, for instance as the disk is full, exactly when a hash file is written"
BREAKS = "the error is swallowed, so that the build succeeds with a truncated hash file, which later builds keep"
EDITS = [("build/handlers/hash.py", """    with open(target_path_rel_to_cwd, "w") as f:
        f.write(sha256_b64)
""", """    try:
        with open(target_path_rel_to_cwd, "w") as f:
            f.write(sha256_b64)
    except OSError as e:
        print(f"failed to store the hash of {relpath}: {e}")
""")]
DEMO = '''
import errno
root = project("p", {"src/public/a.txt": "a"})


def before():
    real = builtins.open

    def open_(file, mode="r", *a, **k):
        f = real(file, mode, *a, **k)
        if str(file).endswith("a.txt.hash") and "w" in mode:
            os.dup2(os.open("/dev/full", os.O_WRONLY), f.fileno())
        return f
    builtins.open = open_


code = build(root, before=before)
_, want = fresh(root)
check(code != 0 or tree(root) == want, "a build succeeds although a hash file could not be written")
check(build(root) == 0 and tree(root) == want, "the next build does not mend it")
'''
