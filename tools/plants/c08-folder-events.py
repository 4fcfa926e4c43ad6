PROPERTY = "C08"
NEEDS = "dev --watch with a project that cannot be built until a whole folder is moved out of it, which is a single event about the folder"
BREAKS = "events about folders do not end the waiting for a change that may mend the project, so that the old outputs stay"
EDITS = [("runners/dev.py", """            self.project_is_unbuildable = False
            self.last_change_at""", """            if not event.is_directory:
                self.project_is_unbuildable = False
            self.last_change_at""")]
DEMO = '''
page = "<!DOCTYPE html><html><head></head><body>%s</body></html>"
root = project("p", {"src/public/index.html": page % 1, "src/public/sub/a.css": "a { color: red; }"})
check(build(root, dev=True) == 0, "build")


def go():
    from vanillaplusjs.runners.dev import DevEventHandler
    from watchdog.events import FileModifiedEvent, DirDeletedEvent
    h = DevEventHandler(folder=root, debounce_seconds=0.01, symlinks=False)
    time.sleep(0.05)
    h.rebuild_if_appropriate()
    write(root, "src/public/index.html", page % "something new")
    write(root, "src/public/sub/a.css", 'a { background: url("/nowhere.png"); }')
    for f in ("index.html", "sub/a.css"):
        h.on_any_event(FileModifiedEvent(os.path.join(root, "src/public", f)))
    time.sleep(0.05)
    h.rebuild_if_appropriate()
    os.rename(os.path.join(root, "src/public/sub"), os.path.join(SCRATCH, "sub"))
    h.on_any_event(DirDeletedEvent(os.path.join(root, "src/public/sub")))
    time.sleep(0.05)
    h.rebuild_if_appropriate()


check(run(go) == 0, "edits while watching")
served = tree(root)
check(b"something new" in served.get("index.html", b""), "the project can be built again, but an old page is served")
check("sub/a.css" not in served, "a stylesheet that is gone is still served")
'''
