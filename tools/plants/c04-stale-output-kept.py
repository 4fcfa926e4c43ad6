PROPERTY = "C04"
NEEDS = "removing an output fails, for instance since it is busy or on a disk with errors, while its source is gone already"
BREAKS = "the error counts as the output being gone already, so that the build succeeds and goes on serving what has no source anymore"
EDITS = [("build/hot_incremental_rebuild.py", """                os.unlink(os.path.join(context.folder, file))
            except FileNotFoundError:
                logger.warning(
                    "Expected output""", """                os.unlink(os.path.join(context.folder, file))
            except OSError:
                logger.warning(
                    "Expected output""")]
DEMO = '''
import errno
page = "<!DOCTYPE html><html><head></head><body>%s</body></html>"
root = project("p", {"src/public/index.html": page % 1, "src/public/a.txt": "a"})
check(build(root) == 0, "first build")
os.unlink(os.path.join(root, "src/public/a.txt"))


def before():
    real = os.unlink

    def unlink(path, *a, **k):
        if os.fspath(path).endswith("a.txt"):
            raise OSError(errno.EBUSY, "Device or resource busy", path)
        return real(path, *a, **k)
    os.unlink = unlink
    os.remove = unlink


code = build(root, before=before)
left = os.path.lexists(os.path.join(root, "out/www/a.txt"))
_, want = fresh(root)
check(code != 0 or not left, "a build succeeds although it could not remove an output")
check(not left or build(root) == 0 and tree(root) == want, "the next build does not remove it")
'''
