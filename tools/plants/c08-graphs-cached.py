PROPERTY = "C08"
NEEDS = "dev --watch with a file added by one edit and removed by a later one"
BREAKS = "the graphs are only loaded at the first rebuild, so outputs that came and went since then are never removed"
EDITS = [("runners/dev.py", """        old_dependency_graph = FileDependencyGraph()
        old_output_graph = FileDependencyGraph()
        old_placeholder_graph = FileDependencyGraph()

        if os.path.exists(context.dependency_graph_file):
            with open(context.dependency_graph_file) as f:
                old_dependency_graph = FileDependencyGraph.load(f)

        if os.path.exists(context.output_graph_file):
            with open(context.output_graph_file) as f:
                old_output_graph = FileDependencyGraph.load(f)

        if os.path.exists(context.placeholder_graph_file):
            with open(context.placeholder_graph_file) as f:
                old_placeholder_graph = FileDependencyGraph.load(f)

""", """        if not hasattr(self, "graphs"):
            graphs = []
            for graph_file in (
                context.dependency_graph_file,
                context.output_graph_file,
                context.placeholder_graph_file,
            ):
                if os.path.exists(graph_file):
                    with open(graph_file) as f:
                        graphs.append(FileDependencyGraph.load(f))
                else:
                    graphs.append(FileDependencyGraph())
            self.graphs = graphs

        old_dependency_graph, old_output_graph, old_placeholder_graph = self.graphs

""")]
DEMO = '''
page = "<!DOCTYPE html><html><head></head><body>%s</body></html>"
root = project("p", {"src/public/index.html": page % 1, "src/public/a.html": page % 2})
check(build(root, dev=True) == 0, "build")


def go():
    from vanillaplusjs.runners.dev import DevEventHandler
    from watchdog.events import FileCreatedEvent, FileDeletedEvent
    h = DevEventHandler(folder=root, debounce_seconds=0.01, symlinks=False)
    time.sleep(0.05)
    h.rebuild_if_appropriate()
    write(root, "src/public/b.html", page % 3)
    h.on_any_event(FileCreatedEvent(os.path.join(root, "src/public/b.html")))
    time.sleep(0.05)
    h.rebuild_if_appropriate()
    assert "b.html" in tree(root)
    os.unlink(os.path.join(root, "src/public/b.html"))
    h.on_any_event(FileDeletedEvent(os.path.join(root, "src/public/b.html")))
    time.sleep(0.05)
    h.rebuild_if_appropriate()


check(run(go) == 0, "edits while watching")
check("b.html" not in tree(root), "a page that was removed is still served")
'''
