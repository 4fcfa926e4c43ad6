"""Writes properties.jsonl (kept as code so that long lines stay editable)."""
import json, os
B = "vanillaplusjs/build/"
R = "vanillaplusjs/runners/"
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": s, "where": s} for s in state]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

HOT = B + "hot_incremental_rebuild.py"
COLD = B + "cold_incremental_rebuild.py"

prop("C01", "An incremental build equals a build from scratch",
 "After any history of changes to the source tree with builds in between (some of which may have failed), a build succeeds whenever a build from scratch of the same sources would, and it then leaves in out/www exactly the files, with exactly the contents, that the build from scratch leaves. The numbers in the folder names given to exported images may differ.",
 ["histories", "inputs"],
 "every sequence of adding, editing, deleting, renaming, swapping, replacing and reverting html, partials, css, js, svg, png, images.json and plain files, switching between development and production mode and between symlinks and copies, and breaking and mending the project, with a build after any step",
 "The tests run one or two builds of fixed two- or three-file projects and check a few outputs; staleness and leftover outputs depend on the history of edits and on which builds failed in between.",
 [HOT, COLD, B + "graph.py", B + "handlers/", R + "build.py"],
 [("change detection by file signature", COLD + " cold_incremental_rebuild"),
  ("closure of dependents, cleaning of dirtied outputs, graph update", HOT + " hot_incremental_rebuild"),
  ("output reuse when the file exists", B + "handlers/{copy,hash,js_constants}.py")],
 state=["out/dependency_graph.json", "out/output_graph.json", "out/placeholder_graph.json", "out/js_constants_mode.txt", "artifacts/"],
 observe=["exit status of `vanillaplusjs build`", "files under out/www"])

prop("C02", "The result of a build does not depend on scheduling",
 "Building the same sources gives the same success or failure and, image numbers aside, the same files with the same contents under out/www, whatever the number of processors, the order in which worker processes are scheduled and finish, the order in which the file system lists directories, and the hash seed of the interpreter.",
 ["schedules", "inputs"],
 "every interleaving of the file operations of the build's worker processes, any pool size, any readdir order",
 "A test run sees the one interleaving the machine happens to pick, nearly always the same one.",
 [HOT, B + "html/manips/outline.py", B + "html/manips/images/metadata.py", B + "handlers/"],
 [("asynchronous scan and rebuild over a process pool", HOT), ("target reservation under a lock", B + "html/manips/images/metadata.py")],
 observe=["exit status", "files under out/www"])

prop("C03", "Killing a build at any instant is recovered by the next build",
 "If the build, with all of its worker processes, is killed at any instant, then the next build that is left to run succeeds without any manual cleanup whenever a build from scratch would, and leaves in out/www exactly what the build from scratch leaves, even if the sources were edited in between.",
 ["crash_points", "histories"],
 "every file operation of a build (including torn writes at that operation), followed by any edit and a build, on any history",
 "The tests never interrupt a build.",
 [HOT, COLD, R + "build.py", B + "html/manips/images/", B + "html/manips/outline.py"],
 [("order and atomicity of the writes of graphs, mode file, outputs and artifacts", HOT), ("reuse of outputs that exist", B + "handlers/copy.py, hash.py, js_constants.py"), ("image metadata, counter and placeholder files", B + "html/manips/images/metadata.py, exporter.py")],
 state=["out/", "artifacts/", "src/public/{js,css}/gen (transient)"],
 observe=["exit status", "files under out/www", "files under src"])

prop("C04", "A build hit by an I/O error fails loudly and heals once it is gone",
 "When file operations fail during a build (disk full, I/O error, permission denied, too many open files) or one of its worker processes dies, the build either reports failure or leaves exactly the right files in out/www; it never reports success with an output missing, truncated or stale. Once the errors stop, the next build leaves exactly what a build from scratch leaves.",
 ["fault_sequences", "histories"],
 "any file operation of a build failing, once or persistently, with a whole or partial write, and the death of any worker at any of its operations",
 "The tests inject no error anywhere.",
 [HOT, COLD, R + "build.py", B + "handlers/", B + "html/manips/images/exporter.py", B + "ioutil.py"],
 [("propagation of worker exceptions to the exit status", HOT), ("exporter pool", B + "html/manips/images/exporter.py")],
 observe=["exit status", "files under out/www"])

prop("C05", "Every cache-busting hash names the bytes that are served",
 "After every successful build, each `v` parameter that the build put on a url in a served html, css or js file equals the hash of the served bytes of the file that url names, and each .hash file in out/www equals the hash of the file beside it. This holds for every history of edits and through any chain of references.",
 ["histories", "inputs"],
 "every successful build of every history of edits over every reference graph (html to css and js, js to js, css to images and data urls, templates, outlined scripts and styles, constants)",
 "Tests check one hop for a freshly built file; stale hashes appear after later edits several hops away.",
 [HOT, B + "html/manips/link_hash.py", B + "html/manips/outline.py", B + "css/manips/version_urls.py", B + "js/manips/hash_imports.py", B + "handlers/hash.py"],
 [("rebuild order: dependency before dependent", HOT + " get_file_depends_on"), ("reading of the .hash sidecar while building the dependent", B + "*/manips/*")],
 observe=["files under out/www"])

prop("C06", "Concurrent workers never touch the same generated file unsafely",
 "While a worker process has a generated file in out/www or artifacts open for writing, no other worker opens, replaces, removes or links that file, and no two workers create the same generated file in one build.",
 ["schedules", "inputs"],
 "every schedule of every build of every project, including projects in which several files produce the same output (shared images, icons and data urls)",
 "A race needs a particular interleaving; the tests build almost nothing concurrently and look only at the end result.",
 [HOT, B + "build_file.py", B + "html/manips/images/", B + "css/manips/icons/manip.py", B + "css/manips/outline_image_data.py"],
 [("holding back files whose outputs another running job produces", HOT + " main loop"), ("holding back dependents", HOT + " get_file_depends_on")],
 observe=["file operations of the worker processes"])

prop("C07", "A build only redoes what a change can affect",
 "A build with nothing changed since the last successful one writes nothing. After a change, the outputs of sources that neither changed nor depend, directly or through others, on something that changed are not rewritten, removed or recreated.",
 ["histories", "inputs"],
 "every successful build in every history, for every set of changed files",
 "The tests check that outputs are right, not which were redone; over- and under-approximation depends on the reference graph and the history.",
 [HOT, COLD, B + "file_signature.py", B + "graph.py"],
 [("signature comparison", COLD), ("closure over the stored dependency graph", HOT), ("graphs stored for the next build", HOT)],
 state=["out/dependency_graph.json", "out/output_graph.json"],
 observe=["file operations on out/www and artifacts"])

prop("C08", "dev --watch serves the current sources soon after edits stop",
 "While dev --watch runs, once the user has stopped editing and file change notifications have been delivered, out/www becomes, within a bounded time, what a development build from scratch of the current sources leaves, provided that such a build succeeds, and then stays so. This includes edits made during the initial build or during a rebuild, and edits that mend a project which failed to build; a rebuild that failed because of I/O errors is repeated at the next edit.",
 ["schedules", "histories"],
 "every timing of edits relative to builds, debounce and notifications (late, repeated, coalesced), every kind of change including replace-by-rename, and transient build failures",
 "No test runs dev at all; outcomes depend on when edits fall relative to notifications and rebuilds.",
 [R + "dev.py", HOT, R + "build.py"],
 [("event netting, debounce, retry after failure", R + "dev.py DevEventHandler"), ("initial build", R + "dev.py dev")],
 observe=["files under out/www", "liveness of the dev process"])

prop("C09", "External files are verified, recoverable and pruned",
 "A build never succeeds unless every configured external file is present with the configured digest, whatever the network delivers and wherever a previous build was killed, and it never leaves unverified bytes at an external file's path. Once the network behaves, the next build succeeds; an external file removed from the configuration is deleted by the next successful build and never breaks later ones; files already verified are not downloaded again.",
 ["fault_sequences", "histories", "crash_points"],
 "refused, reset, timed out, truncated, corrupt, empty and error responses, in any order, kills at any point of a download, local tampering and removal of the files, and any history of adding, changing and removing configuration entries",
 "The only test needs a network and covers the fault-free case.",
 [COLD, B + "build_context.py"],
 [("digest check before and after download, temp file and rename", COLD + " handle_external_file"), ("state file and pruning", COLD + " check_external_files")],
 state=["out/external_files.json"],
 observe=["exit status", "the external files", "requests made"])

prop("C10", "Sources are never altered and nothing outside the project is touched",
 "No init, build, clean or dev run, even one that fails or is killed, alters, truncates or removes a file the user put in the project, and none creates, alters or removes anything outside the project folder except short-lived files of its own in the working directory. After a run that was not killed the only new files beside out and artifacts are those it documents: placeholders for image modules, downloaded external files and the initial project.",
 ["histories", "fault_sequences", "crash_points"],
 "every command sequence and history, every injected error and kill point, symlinks or copies, relative or absolute folder",
 "Tests check outputs; whether sources survive a failing or interrupted run (for instance the temporary files of outlined scripts, or cleaning through symlinks) is never looked at.",
 [B + "html/manips/outline.py", HOT, COLD, R + "clean.py", R + "init.py", R + "build.py"],
 [("temporary outlined sources and their removal", B + "html/manips/outline.py"), ("cleaning of outputs and empty folders", HOT), ("rmtree", R + "clean.py"), ("symlink probe", R + "build.py detect_symlink_support")],
 observe=["all file operations outside out/ and artifacts/", "contents of src"])

prop("C11", "An edit made while a build runs is never lost",
 "If sources are edited while a build is running, then once editing has stopped the next successful build leaves in out/www exactly what a build from scratch of the current sources leaves.",
 ["schedules", "histories"],
 "every position of the edits among the file operations of the running build, for every kind of edit",
 "Tests never edit during a build.",
 [COLD, HOT, B + "file_signature.py"],
 [("signatures taken before the contents are read and stored in the graph", COLD + ", " + HOT)],
 state=["out/dependency_graph.json"],
 observe=["files under out/www after the following build"])

prop("C12", "Exported images are complete, current and shared",
 "After every successful build each image that a served page or image module refers to exists in out/www, decodes, has the stated size and format, and is derived from the current bytes of its source with the requested crop. Two requests for the same source, size and crop are served by the same files and exported once, even if scanned and built concurrently, and images no longer referred to are removed.",
 ["schedules", "histories", "inputs"],
 "every set of pages and image modules requesting images, every schedule, every history of replacing images and changing requests",
 "Tests build single pages with one image once; sharing, replacement and concurrent reservation are not covered.",
 [B + "html/manips/images/", B + "handlers/image_glue.py", HOT],
 [("lookup and reservation of targets", B + "html/manips/images/metadata.py"), ("export and reuse", B + "html/manips/images/exporter.py")],
 state=["artifacts/<image>/<n>/metadata.json", "artifacts/<image>/counter.txt"],
 observe=["files under out/www", "export jobs run"])

prop("C13", "clean removes exactly what was generated, even when interrupted",
 "After clean succeeds, out and artifacts are gone, generated placeholders are gone exactly if that was asked for, and everything else in the project is untouched. If clean is killed at any instant or fails, the next build still leaves what a build from scratch leaves, and running clean again completes.",
 ["crash_points", "histories", "fault_sequences"],
 "every kill point and I/O error in clean, on projects with any build history, including placeholders the user has removed",
 "Tests run clean once, uninterrupted, on a small project.",
 [R + "clean.py", R + "build.py"],
 [("removal order", R + "clean.py clean"), ("placeholder graph", HOT)],
 observe=["project tree after clean and after the next build"])

prop("C14", "init is idempotent, never overwrites, and survives a kill",
 "init creates only what is missing and never changes a file that exists with complete contents; after it succeeds a build succeeds. If init is killed at any instant or hits an error, running it again completes the project, and build succeeds.",
 ["crash_points", "fault_sequences", "histories"],
 "every kill point (with torn writes) and I/O error in init, on an empty or partly initialised folder",
 "Tests run init once in an empty folder.",
 [R + "init.py"],
 [("creation of the configuration and the first page", R + "init.py init")],
 observe=["project tree", "exit status of init and of the following build"])

prop("C15", "run and dev stop promptly and restore the working directory",
 "The run and dev commands keep serving until interrupted, and then exit within a bounded time with the working directory restored, whenever the interrupt arrives once serving was announced. If the server cannot start (port in use) or dies, the command ends within a bounded time instead of hanging.",
 ["schedules", "fault_sequences"],
 "every interleaving of main thread, server thread, observer thread and signal; slow, failing and dying servers",
 "No test runs a server.",
 ["vanillaplusjs/http_server.py", R + "run.py", R + "dev.py"],
 [("wait for start-up", "vanillaplusjs/http_server.py host_static_files"), ("signal handler and supervision loop", R + "run.py, dev.py")],
 observe=["termination of the command in simulated time", "working directory"])

prop("C16", "Served constants always match the mode of the last successful build",
 "After a successful build the served constants module holds the shared constants and those of that build's mode, and everything that imports it is versioned accordingly, for any sequence of development and production builds, including ones that failed, were killed or ran while the constants module was being added or removed.",
 ["histories", "crash_points", "fault_sequences"],
 "every sequence of development and production builds with failures and kills in between, and every placement of the constants module",
 "Tests build once per mode on a fresh folder.",
 [HOT, B + "handlers/js_constants.py"],
 [("mode file written before the rebuild", HOT), ("reuse of an existing output", B + "handlers/js_constants.py")],
 state=["out/js_constants_mode.txt"],
 observe=["out/www copy of the constants module", "pages that import it"])

prop("C17", "Creating a folder survives racing creators and brief permission errors",
 "Creating a folder succeeds when others create the same folders at the same time and when permission errors go away within a few attempts. It reports an error, within a bounded time, exactly if the folder does not exist when it returns.",
 ["schedules", "fault_sequences"],
 "every interleaving of any number of creators (and of removers of empty folders) and every sequence of transient or permanent errors on its calls",
 "No test exercises the retry policy.",
 [B + "ioutil.py"],
 [("retry with backoff", B + "ioutil.py makedirs_safely")],
 observe=["outcome, elapsed simulated time, existence of the folder"])

prop("C18", "Every build terminates, and reports why when it cannot succeed",
 "Every build of every source tree ends in bounded time: it succeeds, or exits with a reported error, for instance when files depend on each other in a circle or refer to files that do not exist. A failed build never stops a later build of mended sources from succeeding.",
 ["inputs", "schedules", "histories"],
 "every reference graph (with cycles, self references, dangling references, shared outputs) under every schedule",
 "Tests build a few acyclic graphs; a deadlock or lost job needs a particular graph, pool size and completion order.",
 [HOT],
 [("main loop with ready and pending sets", HOT), ("cycle detection", HOT + " CyclicDependencyException")],
 observe=["termination in simulated time and steps", "exit status"])

prop("C19", "Text transformation keeps the meaning of html, css and js",
 "Serialising a tokenised html, css or js file gives text that means the same to a browser, apart from the documented transformations.",
 ["inputs"],
 "every html, css and js text",
 "Tests compare a few dozen fixed snippets.",
 [B + "css/tokenizer.py", B + "css/serializer.py", B + "js/tokenizer.py", B + "js/serializer.py", B + "html/builder.py"],
 [("tokenizers and serialisers", B + "{css,js,html}")],
 observe=["output text"])

prop("C20", "Cover-fit crops stay inside the image and keep the aspect ratio",
 "For every source size, target size and crop setting that is accepted, the computed crop lies inside the source image and has, to within rounding, the aspect ratio of the target.",
 ["inputs"],
 "all sizes and crop settings",
 "Tests use a handful of sizes.",
 [B + "html/manips/images/cover_fit.py"],
 [("crop computation", B + "html/manips/images/cover_fit.py cover_fit")],
 observe=["returned rectangle"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
