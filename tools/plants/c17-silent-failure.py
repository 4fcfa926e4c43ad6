PROPERTY = "C17"
NEEDS = "permission errors on every attempt"
BREAKS = "the number of attempts and the attempt on which to give up disagree, so that a missing folder is not reported"
EDITS = [("build/ioutil.py", "    for i in range(5):\n", "    for i in range(4):\n")]
DEMO = '''
from vanillaplusjs.build.ioutil import makedirs_safely
time.sleep = lambda s: None
real = os.mkdir


def denied(*a, **k):
    raise PermissionError(13, "Permission denied")


os.mkdir = denied
p = os.path.join(SCRATCH, "a", "b")
try:
    makedirs_safely(p)
    reported = False
except OSError:
    reported = True
check(reported or os.path.isdir(p), "no error although the folder does not exist")
'''
