PROPERTY = "C17"
NEEDS = "a file where the folder should be which cannot be examined for the first three attempts"
BREAKS = "the last attempts take whatever exists for a folder, so that no error is reported although there is no folder"
EDITS = [("build/ioutil.py", """                if stat.S_ISDIR(path_stat.st_mode):
                    return
""", """                if stat.S_ISDIR(path_stat.st_mode) or i > 2:
                    return
""")]
DEMO = '''
from vanillaplusjs.build.ioutil import makedirs_safely
time.sleep = lambda s: None
p = os.path.join(SCRATCH, "a")
with open(p, "w") as f:
    f.write("in the way")
real, left = os.stat, [0]


def examine(path, *a, **k):
    if path == p and left[0] > 0:
        left[0] -= 1
        raise PermissionError(13, "Permission denied", path)
    return real(path, *a, **k)


def attempt(failures):
    left[0] = failures
    os.stat = examine
    try:
        makedirs_safely(p)
        return False
    except OSError:
        return True
    finally:
        os.stat = real


reported = all([attempt(n) for n in range(12)])
check(reported, "no error although a file is in the way")
'''
