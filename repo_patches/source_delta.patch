From 243b8c067e9cc49996803465dca5b5ea0128d93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 01/37] fix: start over after a build that did not finish

The graphs were only trusted to match out/ because every build was assumed to
run to its end: after a failed or killed build, half written outputs and stale
outputs were kept and reused.
---
 vanillaplusjs/build/build_context.py          |  9 +++
 .../build/hot_incremental_rebuild.py          | 59 +++++++++++++++++--
 vanillaplusjs/runners/build.py                |  3 +
 3 files changed, 65 insertions(+), 6 deletions(-)

diff --git a/vanillaplusjs/build/build_context.py b/vanillaplusjs/build/build_context.py
index b4c7852..ff9bf5e 100644
--- a/vanillaplusjs/build/build_context.py
+++ b/vanillaplusjs/build/build_context.py
@@ -211,6 +211,15 @@ class BuildContext:
         """
         return os.path.join(self.out_folder, "placeholder_graph.json")
 
+    @property
+    def build_incomplete_file(self) -> str:
+        """The path to the file which exists from just before a build, or a clean,
+        starts changing the out folder until it has finished. If it exists at the
+        start of a build then a previous build was interrupted or failed, so neither
+        the graphs nor what is in out/www can be trusted.
+        """
+        return os.path.join(self.out_folder, "build_incomplete")
+
     @property
     def external_files_state_file(self) -> str:
         """Returns the path to the external files state JSON file"""
diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 654d821..527db49 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -1,4 +1,4 @@
-from typing import Dict, List, Literal, Set, Tuple
+from typing import Dict, List, Literal, Optional, Set, Tuple
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.build_file import build_file
@@ -13,6 +13,7 @@ from .graph import FileDependencyGraph
 from loguru import logger
 import concurrent.futures
 import os
+import shutil
 import asyncio
 import itertools
 
@@ -87,6 +88,7 @@ async def hot_incremental_rebuild(
         context.folder,
     )
 
+    mode_to_store: Optional[Literal["dev", "prod"]] = None
     if os.path.exists(os.path.join(context.folder, context.js_constants.relpath)):
         current_mode: Literal["dev", "prod"] = "dev" if context.dev else "prod"
         old_constants_mode = None
@@ -109,11 +111,7 @@ async def hot_incremental_rebuild(
                     os.path.join(context.folder, context.js_constants.relpath)
                 )
 
-            makedirs_safely(context.out_folder)
-            with open(
-                os.path.join(context.out_folder, "js_constants_mode.txt"), "w"
-            ) as f:
-                f.write(current_mode)
+            mode_to_store = current_mode
     else:
         try:
             os.unlink(os.path.join(context.out_folder, "js_constants_mode.txt"))
@@ -124,6 +122,10 @@ async def hot_incremental_rebuild(
         logger.info("Nothing to do, exiting")
         return
 
+    # From here until the new graphs have been stored the graphs do not describe
+    # the out folder, so if we do not get to the end the next build starts over.
+    mark_build_incomplete(context)
+
     with concurrent.futures.ProcessPoolExecutor() as executor:
         files_that_need_scanning = list(changed_files.keys()) + list(added_files.keys())
         updated_children: Dict[str, ScanFileResult] = dict()
@@ -607,10 +609,55 @@ async def hot_incremental_rebuild(
         with open(context.placeholder_graph_file, "w") as fp:
             new_placeholder_graph.store(fp)
 
+        if mode_to_store is not None:
+            with open(
+                os.path.join(context.out_folder, "js_constants_mode.txt"), "w"
+            ) as fp:
+                fp.write(mode_to_store)
+
+        os.unlink(context.build_incomplete_file)
+
         logger.debug("Finished storing dependency, output, and placeholder graphs")
         logger.info('"{}" rebuilt successfully', context.folder)
 
 
+def mark_build_incomplete(context: BuildContext) -> None:
+    """Records that the out folder is about to be changed, and hence that the
+    graphs cannot be trusted until `build_incomplete_file` is removed again.
+    """
+    makedirs_safely(context.out_folder)
+    with open(context.build_incomplete_file, "w"):
+        pass
+
+
+def discard_incomplete_build(context: BuildContext) -> None:
+    """If the last build did not finish, removes the outputs and the graphs it left
+    behind so that the next build starts from nothing. The artifacts are kept as
+    they are expensive to recreate.
+    """
+    if not os.path.lexists(context.build_incomplete_file):
+        return
+
+    logger.info("The last build did not finish, rebuilding everything")
+    # outputs before graphs, and the marker is left for the end of the next build:
+    # if we are interrupted ourselves we simply do this again
+    try:
+        shutil.rmtree(os.path.join(context.out_folder, "www"))
+    except FileNotFoundError:
+        pass
+
+    for path in (
+        context.dependency_graph_file,
+        context.output_graph_file,
+        context.placeholder_graph_file,
+        os.path.join(context.out_folder, "js_constants_mode.txt"),
+    ):
+        try:
+            os.unlink(path)
+        except FileNotFoundError:
+            pass
+
+
 async def scan_files(
     context: BuildContext, executor: concurrent.futures.Executor, files: List[str]
 ) -> Dict[str, ScanFileResult]:
diff --git a/vanillaplusjs/runners/build.py b/vanillaplusjs/runners/build.py
index c7c4533..17ed247 100644
--- a/vanillaplusjs/runners/build.py
+++ b/vanillaplusjs/runners/build.py
@@ -11,6 +11,7 @@ from vanillaplusjs.build.build_context import (
     load_js_constants,
 )
 from vanillaplusjs.build.cold_incremental_rebuild import cold_incremental_rebuild
+from vanillaplusjs.build.hot_incremental_rebuild import discard_incomplete_build
 from vanillaplusjs.build.css.manips.icons.settings import load_icon_settings
 from vanillaplusjs.build.html.manips.images.settings import load_image_settings
 import vanillaplusjs.constants
@@ -127,6 +128,8 @@ def build(
     context.js_constants = load_js_constants(config["js_constants"])
     context.delay_files = delay_files
 
+    discard_incomplete_build(context)
+
     old_dependency_graph = FileDependencyGraph()
     # In this graph, all the files in the graph are input files, and input
     # file a is a parent of input file b if the outputs of a depend on b.
-- 
2.43.0


From 07ae99c2e960ee63e284204dbf991565bf68a3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:23 +0000
Subject: [PATCH 02/37] fix: rescan every file that is about to be rebuilt

Only changed files were scanned, so what a page needs and produces was stale
when an image or template it uses was replaced, and the lookup of an image's
target compared against the hash of the image's previous contents.
---
 .../build/hot_incremental_rebuild.py          | 38 +++++++++++++++++--
 .../build/html/manips/images/metadata.py      | 14 ++-----
 2 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 527db49..943fd01 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -1,4 +1,4 @@
-from typing import Dict, List, Literal, Optional, Set, Tuple
+from typing import Dict, Iterable, List, Literal, Optional, Set, Tuple
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.build_file import build_file
@@ -127,7 +127,17 @@ async def hot_incremental_rebuild(
     mark_build_incomplete(context)
 
     with concurrent.futures.ProcessPoolExecutor() as executor:
-        files_that_need_scanning = list(changed_files.keys()) + list(added_files.keys())
+        # What a file depends on and produces can change with any of the files it
+        # is built from, so everything that will be rebuilt has to be scanned.
+        files_that_need_scanning = [
+            file
+            for file in find_files_to_rebuild(
+                old_dependency_graph,
+                old_placeholders_graph,
+                itertools.chain(changed_files, added_files, deleted_files),
+            )
+            if file not in deleted_files
+        ]
         updated_children: Dict[str, ScanFileResult] = dict()
         new_placeholders: Dict[str, str] = dict()  # placeholder -> original file
 
@@ -196,7 +206,7 @@ async def hot_incremental_rebuild(
                     produced_by = old_output_graph.get_parents(dep_relpath)
                     # take the first one which hasn't been deleted
                     for p in produced_by:
-                        if p not in deleted_files:
+                        if p not in deleted_files and p not in updated_children:
                             out_dependencies_mapping[dep_relpath] = p
                             new_dependencies.add(p)
                             break
@@ -658,6 +668,28 @@ def discard_incomplete_build(context: BuildContext) -> None:
             pass
 
 
+def find_files_to_rebuild(
+    old_dependency_graph: FileDependencyGraph,
+    old_placeholders_graph: FileDependencyGraph,
+    dirty_files: Iterable[str],
+) -> Set[str]:
+    """Determines the given files and all the files which were, directly or
+    indirectly, built from them.
+    """
+    result: Set[str] = set(dirty_files)
+    stack: List[str] = list(result)
+    while stack:
+        file = stack.pop()
+        for graph in (old_dependency_graph, old_placeholders_graph):
+            if file not in graph:
+                continue
+            for par in graph.get_parents(file):
+                if par not in result:
+                    result.add(par)
+                    stack.append(par)
+    return result
+
+
 async def scan_files(
     context: BuildContext, executor: concurrent.futures.Executor, files: List[str]
 ) -> Dict[str, ScanFileResult]:
diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index 11a502e..c50b978 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -251,17 +251,9 @@ def get_target(
     if not os.path.exists(art_path):
         return None
 
-    precomputed_hash_path = os.path.join(context.out_folder, "www", relpath + ".hash")
-    try:
-        with open(precomputed_hash_path, "r") as f:
-            contents_hash = f.read()
-    except FileNotFoundError:
-        logger.debug(
-            "No precomputed hash available for {} (expected at {}), calculating on demand",
-            os.path.join(context.public_folder, relpath),
-            precomputed_hash_path,
-        )
-        contents_hash = calculate_hash(os.path.join(context.public_folder, relpath))
+    # the precomputed hash in the out folder cannot be used: while scanning it is
+    # still the one for the image that was there when it was last built
+    contents_hash = calculate_hash(os.path.join(context.public_folder, relpath))
 
     settings_hash = hash_image_settings(context.image_settings)
 
-- 
2.43.0


From d20968f02777535145f7ad17c53044996da345ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:02 +0000
Subject: [PATCH 03/37] fix: agree on one image target and survive interrupted
 exports

Looking up and reserving a target was not atomic, so two pages scanned at once
could reserve two targets for the same export and then both build either; the
lookup crashed when the source image had changed; images which only differ in
their extension were confused; and half written or half deleted artifacts made
every later build fail.
---
 .../build/html/manips/images/exporter.py      |   9 +-
 .../build/html/manips/images/metadata.py      | 100 +++++++++++-------
 vanillaplusjs/build/ioutil.py                 |  10 ++
 3 files changed, 74 insertions(+), 45 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/exporter.py b/vanillaplusjs/build/html/manips/images/exporter.py
index af8e870..b2ddcdd 100644
--- a/vanillaplusjs/build/html/manips/images/exporter.py
+++ b/vanillaplusjs/build/html/manips/images/exporter.py
@@ -10,7 +10,7 @@ from vanillaplusjs.build.html.manips.images.settings import (
     ImageExport,
     compare_in_format,
 )
-from vanillaplusjs.build.ioutil import makedirs_safely
+from vanillaplusjs.build.ioutil import makedirs_safely, write_atomically
 from .cover_fit import cover_fit
 import os
 import json
@@ -306,13 +306,12 @@ def export_command(
         ),
     )
 
-    with open(
+    write_atomically(
         os.path.join(
             context.folder, target_art_folder_relative_to_root, "metadata.json"
         ),
-        "w",
-    ) as f:
-        json.dump(store_metadata(metadata), f, indent=2)
+        json.dumps(store_metadata(metadata), indent=2),
+    )
 
     return metadata, BuildFileResult(
         children=children,
diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index c50b978..57c95d5 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -32,7 +32,7 @@ from vanillaplusjs.build.handlers.hash import calculate_hash
 from vanillaplusjs.build.html.manips.images.settings import ImageSettings
 from loguru import logger
 
-from vanillaplusjs.build.ioutil import makedirs_safely
+from vanillaplusjs.build.ioutil import makedirs_safely, write_atomically
 
 
 @dataclass(frozen=True)
@@ -257,28 +257,18 @@ def get_target(
 
     settings_hash = hash_image_settings(context.image_settings)
 
+    reserved_id: Optional[int] = None
+
     scanner = os.scandir(art_path)
     try:
-        while True:
-            try:
-                entry = next(scanner)
-            except StopIteration:
-                break
-
+        # lowest first, so that everybody who asks gets the same answer
+        for entry in sorted(scanner, key=lambda entry: (len(entry.name), entry.name)):
             if not entry.is_dir():
                 continue
 
             if not os.path.exists(os.path.join(entry.path, "metadata.json")):
-                lock_path = reserve_target_lock_path(context, relpath)
-                makedirs_safely(os.path.dirname(lock_path))
-                with fasteners.InterProcessLock(lock_path):
-                    if os.path.exists(os.path.join(entry.path, "placeholder.json")):
-                        with open(
-                            os.path.join(entry.path, "placeholder.json"), "r"
-                        ) as f:
-                            placeholder = load_image_target_settings(json.load(f))
-                        if placeholder == target:
-                            return int(entry.name)
+                if reserved_id is None and is_reserved_for(entry.path, relpath, target):
+                    reserved_id = int(entry.name)
                 continue
 
             with open(os.path.join(entry.path, "metadata.json"), "r") as f:
@@ -298,7 +288,7 @@ def get_target(
                     "{} is not a match for {}; the source hash is {} but should be {}",
                     entry.path,
                     relpath,
-                    entry_metadata["source"]["contents_hash"],
+                    entry_metadata.source.contents_hash,
                     contents_hash,
                 )
                 continue
@@ -312,13 +302,40 @@ def get_target(
                 )
                 continue
 
+            if not all(
+                os.path.exists(os.path.join(context.artifacts_folder, output.relpath))
+                for outputs in entry_metadata.target.outputs.values()
+                for output in outputs
+            ):
+                logger.debug(
+                    "{} is not a match for {}; it is incomplete", entry.path, relpath
+                )
+                continue
+
             return int(entry.name)
 
-        return None
+        return reserved_id
     finally:
         scanner.close()
 
 
+def is_reserved_for(entry_path: str, relpath: str, target: ImageTargetSettings) -> bool:
+    """Determines if the given folder, which has no metadata, was reserved for
+    exporting the given source image with the given settings.
+    """
+    try:
+        with open(os.path.join(entry_path, "placeholder.json"), "r") as f:
+            placeholder = json.load(f)
+    except FileNotFoundError:
+        return False
+
+    # images which only differ in their extension share a folder
+    if placeholder.get("source", relpath) != relpath:
+        return False
+
+    return load_image_target_settings(placeholder) == target
+
+
 def reserve_target_lock_path(context: BuildContext, relpath: str) -> str:
     relpath_without_ext = os.path.splitext(relpath)[0]
     return os.path.join(
@@ -330,32 +347,32 @@ def reserve_target(
     context: BuildContext, relpath: str, target: ImageTargetSettings
 ) -> int:
     """Assigns a new unused id for the given source image, and prevents
-    it from being reserved again.
+    it from being reserved again. The lock must be held.
     """
     relpath_without_ext = os.path.splitext(relpath)[0]
     art_path = os.path.join(context.artifacts_folder, relpath_without_ext)
-    lock_path = reserve_target_lock_path(context, relpath)
-    makedirs_safely(os.path.dirname(lock_path))
     makedirs_safely(art_path)
-    with fasteners.InterProcessLock(lock_path):
-        try:
-            with open(os.path.join(art_path, "counter.txt"), "r") as f:
-                counter = int(f.read())
-        except FileNotFoundError:
-            counter = 0
+    try:
+        with open(os.path.join(art_path, "counter.txt"), "r") as f:
+            counter = int(f.read())
+    except FileNotFoundError:
+        counter = 0
 
+    counter = counter + 1
+    while os.path.lexists(os.path.join(art_path, str(counter))):
         counter = counter + 1
 
-        with open(os.path.join(art_path, "counter.txt"), "w") as f:
-            f.write(str(counter))
+    write_atomically(os.path.join(art_path, "counter.txt"), str(counter))
 
-        entry_path = os.path.join(art_path, str(counter))
-        placeholder_path = os.path.join(entry_path, "placeholder.json")
-        makedirs_safely(entry_path)
-        with open(placeholder_path, "w") as f:
-            json.dump(dataclasses.asdict(target), f)
+    entry_path = os.path.join(art_path, str(counter))
+    placeholder_path = os.path.join(entry_path, "placeholder.json")
+    makedirs_safely(entry_path)
+    write_atomically(
+        placeholder_path,
+        json.dumps({"source": relpath, **dataclasses.asdict(target)}),
+    )
 
-        return counter
+    return counter
 
 
 def get_or_reserve_target(
@@ -366,10 +383,13 @@ def get_or_reserve_target(
     """If the target already exists, returns its ID. Otherwise, reserves
     a new ID for the target.
     """
-    target_id = get_target(context, relpath, target)
-    if target_id is None:
-        target_id = reserve_target(context, relpath, target)
-    return target_id
+    lock_path = reserve_target_lock_path(context, relpath)
+    makedirs_safely(os.path.dirname(lock_path))
+    with fasteners.InterProcessLock(lock_path):
+        target_id = get_target(context, relpath, target)
+        if target_id is None:
+            target_id = reserve_target(context, relpath, target)
+        return target_id
 
 
 def hash_image_settings(settings: ImageSettings) -> int:
diff --git a/vanillaplusjs/build/ioutil.py b/vanillaplusjs/build/ioutil.py
index 66b7e1a..ff2741c 100644
--- a/vanillaplusjs/build/ioutil.py
+++ b/vanillaplusjs/build/ioutil.py
@@ -226,3 +226,13 @@ def makedirs_safely(path: str) -> None:
             if i == 4:
                 raise
             logger.warning(f"Permission error creating {path}; attempt {i+1}/5")
+
+
+def write_atomically(path: str, contents: str) -> None:
+    """Writes the given contents to the given path such that whoever opens it,
+    even if we are interrupted, finds either all or none of them.
+    """
+    temp_path = path + ".tmp"
+    with open(temp_path, "w") as f:
+        f.write(contents)
+    os.replace(temp_path, path)
-- 
2.43.0


From 0707f3cfe5d986ce9556aba97002aea2353e66bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:14 +0000
Subject: [PATCH 04/37] fix: report templates which import themselves instead
 of never finishing

---
 vanillaplusjs/build/html/manips/template.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vanillaplusjs/build/html/manips/template.py b/vanillaplusjs/build/html/manips/template.py
index eec09cb..2cedde0 100644
--- a/vanillaplusjs/build/html/manips/template.py
+++ b/vanillaplusjs/build/html/manips/template.py
@@ -3,6 +3,7 @@ from dataclasses import dataclass
 from vanillaplusjs.build.build_file_result import BuildFileResult
 import vanillaplusjs.build.html.token as tkn
 from vanillaplusjs.build.build_context import BuildContext
+from vanillaplusjs.build.exceptions import CyclicDependencyException
 from vanillaplusjs.build.html.manipulator import HTMLManipulator
 from vanillaplusjs.build.scan_file_result import ScanFileResult
 from vanillaplusjs.build.html.tokenizer import tokenize
@@ -129,6 +130,13 @@ class TemplateManipulator(HTMLManipulator):
         return []
 
     def handle_template_import(self, imp: "TemplateImport") -> List[tkn.HTMLToken]:
+        if any(
+            imp.relpath == frame.relpath for frame in [*self.stack, self.current_frame]
+        ):
+            raise CyclicDependencyException(
+                f"{self.relpath} imports the template {imp.relpath}, which imports itself"
+            )
+
         if self.mode == "scan":
             self.dependencies.add(imp.relpath)
         else:
-- 
2.43.0


From ee9d5a90bed37cc1d4d5a59bbb6c4a1f59757bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:25 +0000
Subject: [PATCH 05/37] fix: resolve relative template paths against the folder
 of the importing file

---
 vanillaplusjs/build/html/manips/template.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/template.py b/vanillaplusjs/build/html/manips/template.py
index 2cedde0..ef653a7 100644
--- a/vanillaplusjs/build/html/manips/template.py
+++ b/vanillaplusjs/build/html/manips/template.py
@@ -220,8 +220,11 @@ class TemplateManipulator(HTMLManipulator):
             )
         else:
             command_path_rel_current_relpath = command_path.replace("/", os.path.sep)
-            command_path_rel_project_root = os.path.join(
-                self.current_frame.relpath, command_path_rel_current_relpath
+            command_path_rel_project_root = os.path.normpath(
+                os.path.join(
+                    os.path.dirname(self.current_frame.relpath),
+                    command_path_rel_current_relpath,
+                )
             )
 
         for var_key in list(variables.keys()):
-- 
2.43.0


From 616596373f1c6f6857f483499d380a90494bb8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 06/37] fix: keep inline scripts and styles being outlined out
 of the src folder

They were written below src/public, where concurrent scans removed each other's
folders, an interrupted build left them to be built as sources, and a source of
that name was overwritten and deleted. Style attributes were also unpacked
incorrectly.
---
 vanillaplusjs/build/handlers/css.py        | 16 +++++--
 vanillaplusjs/build/handlers/handler.py    | 12 +++--
 vanillaplusjs/build/handlers/js.py         | 16 +++++--
 vanillaplusjs/build/html/manips/outline.py | 55 ++++++++++------------
 4 files changed, 55 insertions(+), 44 deletions(-)

diff --git a/vanillaplusjs/build/handlers/css.py b/vanillaplusjs/build/handlers/css.py
index 6492a4f..032646b 100644
--- a/vanillaplusjs/build/handlers/css.py
+++ b/vanillaplusjs/build/handlers/css.py
@@ -3,7 +3,7 @@ stores that in the output directory (as if it were copied), and then
 hashes that output as if via hash.
 """
 
-from typing import List
+from typing import List, Optional
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.css.manips.nest import (
@@ -37,7 +37,9 @@ and `build_result(self) -> BuildFileResult`
 """
 
 
-def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
+def scan_file(
+    context: BuildContext, relpath: str, infile: Optional[str] = None
+) -> ScanFileResult:
     if not relpath.endswith(".css"):
         return ScanFileResult([], [])
 
@@ -46,7 +48,9 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
 
     manips = [manip(context, relpath, "scan") for manip in MANIPULATORS]
     manipulate_and_serialize(
-        infile=os.path.join(context.folder, relpath), outfile=None, manipulators=manips
+        infile=infile or os.path.join(context.folder, relpath),
+        outfile=None,
+        manipulators=manips,
     )
 
     sub_scan_results = [
@@ -62,7 +66,9 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
     return ScanFileResult(dependencies=list(dependencies), produces=list(produces))
 
 
-def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
+def build_file(
+    context: BuildContext, relpath: str, infile: Optional[str] = None
+) -> BuildFileResult:
     if not relpath.endswith(".css"):
         return BuildFileResult([], [], [])
 
@@ -75,7 +81,7 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     manips = [manip(context, relpath, "build") for manip in MANIPULATORS]
 
     manipulate_and_serialize(
-        infile=os.path.join(context.folder, relpath),
+        infile=infile or os.path.join(context.folder, relpath),
         outfile=os.path.join(context.folder, target_path),
         manipulators=manips,
     )
diff --git a/vanillaplusjs/build/handlers/handler.py b/vanillaplusjs/build/handlers/handler.py
index 847809e..1f0f001 100644
--- a/vanillaplusjs/build/handlers/handler.py
+++ b/vanillaplusjs/build/handlers/handler.py
@@ -1,3 +1,4 @@
+from typing import Optional
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.scan_file_result import ScanFileResult
@@ -6,11 +7,16 @@ from vanillaplusjs.build.scan_file_result import ScanFileResult
 class Handler:
     """Describes something which acts as a handler. Typically
     a handler is not actually a subclass of this but rather a module
-    with the same functions.
+    with the same functions. If infile is given, then that is where the contents
+    of the file at relpath are found.
     """
 
-    def scan_file(self, context: BuildContext, relpath: str) -> ScanFileResult:
+    def scan_file(
+        self, context: BuildContext, relpath: str, infile: Optional[str] = None
+    ) -> ScanFileResult:
         raise NotImplementedError()
 
-    def build_file(self, context: BuildContext, relpath: str) -> BuildFileResult:
+    def build_file(
+        self, context: BuildContext, relpath: str, infile: Optional[str] = None
+    ) -> BuildFileResult:
         raise NotImplementedError()
diff --git a/vanillaplusjs/build/handlers/js.py b/vanillaplusjs/build/handlers/js.py
index e608d0e..b2608e1 100644
--- a/vanillaplusjs/build/handlers/js.py
+++ b/vanillaplusjs/build/handlers/js.py
@@ -3,7 +3,7 @@ stores that in the output directory (as if it were copied), and then
 hashes that output as if via hash.
 """
 
-from typing import List
+from typing import List, Optional
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.js.manips.hash_imports import (
@@ -31,7 +31,9 @@ and `build_result(self) -> BuildFileResult`
 """
 
 
-def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
+def scan_file(
+    context: BuildContext, relpath: str, infile: Optional[str] = None
+) -> ScanFileResult:
     if not relpath.endswith(".js"):
         return ScanFileResult([], [])
 
@@ -40,7 +42,9 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
 
     manips = [manip(context, relpath, "scan") for manip in MANIPULATORS]
     manipulate_and_serialize(
-        infile=os.path.join(context.folder, relpath), outfile=None, manipulators=manips
+        infile=infile or os.path.join(context.folder, relpath),
+        outfile=None,
+        manipulators=manips,
     )
 
     sub_scan_results = [
@@ -56,7 +60,9 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
     return ScanFileResult(dependencies=list(dependencies), produces=list(produces))
 
 
-def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
+def build_file(
+    context: BuildContext, relpath: str, infile: Optional[str] = None
+) -> BuildFileResult:
     if not relpath.endswith(".js"):
         return BuildFileResult([], [], [])
 
@@ -69,7 +75,7 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     manips = [manip(context, relpath, "build") for manip in MANIPULATORS]
 
     manipulate_and_serialize(
-        infile=os.path.join(context.folder, relpath),
+        infile=infile or os.path.join(context.folder, relpath),
         outfile=os.path.join(context.folder, target_path),
         manipulators=manips,
     )
diff --git a/vanillaplusjs/build/html/manips/outline.py b/vanillaplusjs/build/html/manips/outline.py
index be7aa16..542e98f 100644
--- a/vanillaplusjs/build/html/manips/outline.py
+++ b/vanillaplusjs/build/html/manips/outline.py
@@ -1,4 +1,3 @@
-import errno
 from typing import Dict, List, Literal, Optional, Set
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
@@ -78,44 +77,33 @@ class OutlineManipulator(HTMLManipulator):
         if self.outlining is None:
             if self._should_outline_script(node):
                 self.outlining = "script"
-                if self.script_outline_count == 0:
-                    makedirs_safely(
-                        os.path.join(self.context.folder, self.script_src_folder)
-                    )
                 self.script_outline_count += 1
                 self.outlining_to_path = os.path.join(
                     self.script_src_folder,
                     f"{self.script_outline_count}.js",
                 )
-                self.outlining_to = open(
-                    os.path.join(self.context.folder, self.outlining_to_path), "w"
-                )
+                self.outlining_to = self._open_outlining_to()
                 self.start_tag_attrs = dict(
                     (key, val) for (_, key), val in node["data"].items()
                 )
                 return None
             if self._should_outline_style(node):
                 self.outlining = "style"
-                if self.style_outline_count == 0:
-                    makedirs_safely(
-                        os.path.join(self.context.folder, self.style_src_folder)
-                    )
                 self.style_outline_count += 1
                 self.outlining_to_path = os.path.join(
                     self.style_src_folder,
                     f"{self.style_outline_count}.css",
                 )
-                self.outlining_to = open(
-                    os.path.join(self.context.folder, self.outlining_to_path), "w"
-                )
+                self.outlining_to = self._open_outlining_to()
                 self.start_tag_attrs = dict(
-                    (key, val) for (_, key), val in node["data"]
+                    (key, val) for (_, key), val in node["data"].items()
                 )
                 return None
 
             raise ValueError(f"Unexpected tag {node}")
 
         if node["type"] == "EndTag":
+            infile = self.outlining_to.name
             self.outlining_to.close()
             self.outlining_to = None
 
@@ -123,28 +111,20 @@ class OutlineManipulator(HTMLManipulator):
                 self.js_handler if self.outlining == "script" else self.css_handler
             )
             if self.mode == "scan":
-                scan_result = handler.scan_file(self.context, self.outlining_to_path)
+                scan_result = handler.scan_file(
+                    self.context, self.outlining_to_path, infile
+                )
                 self.dependencies.update(scan_result.dependencies)
                 self.produces.update(scan_result.produces)
             else:
-                build_result = handler.build_file(self.context, self.outlining_to_path)
+                build_result = handler.build_file(
+                    self.context, self.outlining_to_path, infile
+                )
                 self.children.update(build_result.children)
                 self.produced.update(build_result.produced)
                 self.reused.update(build_result.reused)
 
-            os.remove(os.path.join(self.context.folder, self.outlining_to_path))
-            possibly_empty_folder: str = os.path.dirname(self.outlining_to_path)
-
-            while possibly_empty_folder.count(os.path.sep) > 2:
-                try:
-                    os.rmdir(os.path.join(self.context.folder, possibly_empty_folder))
-                except (FileNotFoundError, PermissionError):
-                    break  # Scanning can happen concurrently
-                except OSError as e:
-                    if e.errno == errno.ENOTEMPTY:
-                        break
-                    raise
-                possibly_empty_folder = os.path.dirname(possibly_empty_folder)
+            os.remove(infile)
 
             result_tag_attr = "src" if self.outlining == "script" else "href"
 
@@ -203,6 +183,19 @@ class OutlineManipulator(HTMLManipulator):
         self.outlining_to.write(node["data"])
         return None
 
+    def _open_outlining_to(self) -> io.TextIOBase:
+        """Opens the file which temporarily holds what we are outlining. It is not
+        in the src folder: the build never puts anything there which it would pick
+        up as a source if it were interrupted, or which might overwrite one.
+        """
+        path = os.path.join(
+            self.context.out_folder,
+            "outlining",
+            os.path.relpath(self.outlining_to_path, "src"),
+        )
+        makedirs_safely(os.path.dirname(path))
+        return open(path, "w")
+
     def _should_outline_script(self, node: tkn.HTMLToken) -> bool:
         return (
             node["type"] == "StartTag"
-- 
2.43.0


From e47c8ad1bff0e30628ebead08a7d17ad9a76dd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 07/37] fix: keep outputs which are shared with files that are
 not being rebuilt

---
 vanillaplusjs/build/hot_incremental_rebuild.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 943fd01..cc5790b 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -129,14 +129,13 @@ async def hot_incremental_rebuild(
     with concurrent.futures.ProcessPoolExecutor() as executor:
         # What a file depends on and produces can change with any of the files it
         # is built from, so everything that will be rebuilt has to be scanned.
+        all_dirty_files = find_files_to_rebuild(
+            old_dependency_graph,
+            old_placeholders_graph,
+            itertools.chain(changed_files, added_files, deleted_files),
+        )
         files_that_need_scanning = [
-            file
-            for file in find_files_to_rebuild(
-                old_dependency_graph,
-                old_placeholders_graph,
-                itertools.chain(changed_files, added_files, deleted_files),
-            )
-            if file not in deleted_files
+            file for file in all_dirty_files if file not in deleted_files
         ]
         updated_children: Dict[str, ScanFileResult] = dict()
         new_placeholders: Dict[str, str] = dict()  # placeholder -> original file
@@ -248,6 +247,11 @@ async def hot_incremental_rebuild(
 
             if file in old_output_graph:
                 for child in old_output_graph.get_children(file):
+                    if any(
+                        par not in all_dirty_files
+                        for par in old_output_graph.get_parents(child)
+                    ):
+                        continue  # still needed as it is by a file we keep
                     if child.startswith("artifacts"):
                         dirtied_artifacts.add(child)
                     else:
-- 
2.43.0


From 183985980c9aa6dc8ce9f652959d07df9d6e35bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:50 +0000
Subject: [PATCH 08/37] fix: never build two files which produce the same
 output at once

Outputs which had not existed before were not considered, and forgetting an
output failed if another file had already produced it.
---
 .../build/hot_incremental_rebuild.py          | 21 +++++++------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index cc5790b..258ad95 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -286,9 +286,8 @@ async def hot_incremental_rebuild(
         updated_results: Dict[str, BuildFileResult] = dict()
         pending_results: Dict[str, asyncio.Future] = dict()
         still_dirty_outputs = set(dirtied_outputs)
-        pending_dirty_outputs = set()
         still_dirty_artifacts = set(dirtied_artifacts)
-        pending_artifacts = set()
+        pending_outputs: Dict[str, str] = dict()  # output -> file being rebuilt
 
         def get_file_depends_on(file: str) -> List[str]:
             if file in updated_children:
@@ -341,11 +340,12 @@ async def hot_incremental_rebuild(
 
                 all_outputs_not_pending = True
                 for output in file_creates:
-                    if output in pending_dirty_outputs or output in pending_artifacts:
+                    if output in pending_outputs:
                         all_outputs_not_pending = False
                         logger.debug(
-                            "Cannot rebuild {} while we are cleaning {}",
+                            "Cannot rebuild {} while {} is producing {}",
                             file,
+                            pending_outputs[output],
                             output,
                         )
 
@@ -354,10 +354,7 @@ async def hot_incremental_rebuild(
 
                 rebuildable_files.append(file)
                 for output in file_creates:
-                    if output in still_dirty_outputs:
-                        pending_dirty_outputs.add(output)
-                    elif output in dirtied_artifacts:
-                        pending_artifacts.add(output)
+                    pending_outputs[output] = file
 
             if not rebuildable_files and not pending_results:
                 logger.error("No files to rebuild")
@@ -430,18 +427,17 @@ async def hot_incremental_rebuild(
 
                     updated_results[pending_file] = rebuild_result
                     del pending_results[pending_file]
+                    for output in get_file_creates(pending_file):
+                        del pending_outputs[output]
                     for file in rebuild_result.produced:
                         if file in still_dirty_outputs:
                             logger.debug("Cleaned {} using {}", file, pending_file)
                             still_dirty_outputs.remove(file)
-                            pending_dirty_outputs.remove(file)
                         elif file in still_dirty_artifacts:
                             logger.debug("Cleaned {} using {}", file, pending_file)
                             still_dirty_artifacts.remove(file)
-                            pending_artifacts.remove(file)
                         elif file in dirtied_artifacts:
                             logger.debug("Updated {} using {}", file, pending_file)
-                            pending_artifacts.remove(file)
                         else:
                             logger.debug("Produced {} from {}", file, pending_file)
                     for file in rebuild_result.reused:
@@ -451,7 +447,6 @@ async def hot_incremental_rebuild(
                                 file,
                             )
                             still_dirty_outputs.remove(file)
-                            pending_dirty_outputs.remove(file)
                         elif file in still_dirty_artifacts:
                             logger.debug(
                                 "Determined {} is not dirty using {}",
@@ -459,10 +454,8 @@ async def hot_incremental_rebuild(
                                 pending_file,
                             )
                             still_dirty_artifacts.remove(file)
-                            pending_artifacts.remove(file)
                         elif file in dirtied_artifacts:
                             logger.debug("Reused {} in {}", file, pending_file)
-                            pending_artifacts.remove(file)
                         else:
                             logger.debug("Reused {} for {}", file, pending_file)
 
-- 
2.43.0


From 79f90775f0169e4abe6294e63d7436b558406339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:03 +0000
Subject: [PATCH 09/37] fix: clean up folders that are already gone, and before
 files take their place

---
 .../build/hot_incremental_rebuild.py          | 40 ++++++++++++++-----
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 258ad95..b93b1b0 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -283,6 +283,9 @@ async def hot_incremental_rebuild(
                     file,
                 )
 
+        # a file may be about to take the place of one of these folders
+        remove_empty_folders(context, possibly_empty_folders)
+
         updated_results: Dict[str, BuildFileResult] = dict()
         pending_results: Dict[str, asyncio.Future] = dict()
         still_dirty_outputs = set(dirtied_outputs)
@@ -461,18 +464,18 @@ async def hot_incremental_rebuild(
 
         logger.debug("Finished rebuilding {} files", len(updated_results))
 
-        for file in still_dirty_artifacts:
+        # the metadata goes first, as it vouches for the rest
+        for file in sorted(
+            still_dirty_artifacts,
+            key=lambda file: os.path.basename(file) != "metadata.json",
+        ):
             logger.debug("Cleaning {}", file)
-            os.unlink(os.path.join(context.folder, file))
+            try:
+                os.unlink(os.path.join(context.folder, file))
+            except FileNotFoundError:
+                logger.warning("Expected artifact {} to exist", file)
 
-        for folder_relpath in sorted(possibly_empty_folders, key=lambda s: -len(s)):
-            folder = os.path.join(context.folder, folder_relpath)
-            scandir_iter = os.scandir(folder)
-            has_any_contents = next(scandir_iter, None) is not None
-            scandir_iter.close()
-            if not has_any_contents:
-                logger.debug("Cleaning empty folder {}", folder_relpath)
-                os.rmdir(folder)
+        remove_empty_folders(context, possibly_empty_folders)
 
         new_dependency_graph = FileDependencyGraph()
         new_output_graph = FileDependencyGraph()
@@ -687,6 +690,23 @@ def find_files_to_rebuild(
     return result
 
 
+def remove_empty_folders(context: BuildContext, folders: Iterable[str]) -> None:
+    """Removes those of the given folders, which are relative to the project root,
+    that are empty.
+    """
+    for folder_relpath in sorted(folders, key=lambda s: -len(s)):
+        folder = os.path.join(context.folder, folder_relpath)
+        try:
+            scandir_iter = os.scandir(folder)
+        except (FileNotFoundError, NotADirectoryError):
+            continue
+        has_any_contents = next(scandir_iter, None) is not None
+        scandir_iter.close()
+        if not has_any_contents:
+            logger.debug("Cleaning empty folder {}", folder_relpath)
+            os.rmdir(folder)
+
+
 async def scan_files(
     context: BuildContext, executor: concurrent.futures.Executor, files: List[str]
 ) -> Dict[str, ScanFileResult]:
-- 
2.43.0


From 2ea771fd6cebf34e4bf1627bbd4a8edee873f9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:51 +0000
Subject: [PATCH 10/37] fix: link to exported images by absolute path

With a relative project folder, such as the default, the links were dangling.
---
 vanillaplusjs/build/html/manips/images/exporter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/exporter.py b/vanillaplusjs/build/html/manips/images/exporter.py
index b2ddcdd..04e7281 100644
--- a/vanillaplusjs/build/html/manips/images/exporter.py
+++ b/vanillaplusjs/build/html/manips/images/exporter.py
@@ -128,7 +128,9 @@ def export_command(
 
                     if context.symlinks:
                         os.symlink(
-                            os.path.join(context.artifacts_folder, output.relpath),
+                            os.path.abspath(
+                                os.path.join(context.artifacts_folder, output.relpath)
+                            ),
                             os.path.join(context.folder, out_file),
                         )
                     else:
@@ -286,7 +288,7 @@ def export_command(
             )
             if context.symlinks:
                 os.symlink(
-                    desired_path,
+                    os.path.abspath(desired_path),
                     os.path.join(context.folder, out_path_relative_to_root),
                 )
             else:
-- 
2.43.0


From 6894299ec77cd72ac8f9b4ec5a71da46c0a59c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 11/37] fix: rebuild the importers of images.js files when the
 images change

What is served for x.images.js is generated from x.images.json, but nothing
which imports the former depended on the latter, so it kept the old version
hash. Placeholders are now also recognised as such after starting over, and
regenerated if they were deleted. The crop arguments were not validated as the
wrong key was read.
---
 vanillaplusjs/build/handlers/image_glue.py    | 32 +++++++++++++++----
 .../build/hot_incremental_rebuild.py          | 22 +++++++++++++
 2 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index a545fcc..199a1b7 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -75,7 +75,7 @@ type hints.
 """
 
 import dataclasses
-from typing import Set
+from typing import List, Set
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.html.manips.images.command import ImageCommand
@@ -126,9 +126,14 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
     """Scans the given file to determine what this handler would do
     if it were to build it.
     """
-    if not handles_file(context, relpath) or relpath.endswith(".images.js"):
+    if not handles_file(context, relpath):
         return ScanFileResult(dependencies=[], produces=[])
 
+    if relpath.endswith(".images.js"):
+        return ScanFileResult(
+            dependencies=get_generators(context, relpath), produces=[]
+        )
+
     with open(os.path.join(context.folder, relpath), "r") as f:
         data = json.load(f)
 
@@ -148,8 +153,8 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
     placeholder_path = os.path.join(
         "src", "public", path_rel_to_public_no_ext + ".images.js"
     )
-    if context.auto_generate_images_js_placeholders and not os.path.exists(
-        placeholder_path
+    if context.auto_generate_images_js_placeholders or os.path.exists(
+        os.path.join(context.folder, placeholder_path)
     ):
         placeholders[placeholder_path] = PLACEHOLDER_FILE
 
@@ -179,11 +184,26 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
     )
 
 
+def get_generators(context: BuildContext, relpath: str) -> List[str]:
+    """The files which what is served for the given `*.images.js` file is generated
+    from; those who import it find this out through it.
+    """
+    generator = relpath[: -len(".js")] + ".json"
+    if not os.path.exists(os.path.join(context.folder, generator)):
+        return []
+    return [generator]
+
+
 def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     """Builds the given file and returns what we built"""
-    if not handles_file(context, relpath) or relpath.endswith(".images.js"):
+    if not handles_file(context, relpath):
         return BuildFileResult(children=[], produced=[], reused=[])
 
+    if relpath.endswith(".images.js"):
+        return BuildFileResult(
+            children=get_generators(context, relpath), produced=[], reused=[]
+        )
+
     with open(os.path.join(context.folder, relpath), "r") as f:
         data = json.load(f)
 
@@ -316,7 +336,7 @@ def sanity_check_images_json(context: BuildContext, data: dict, relpath: str) ->
             logger.warning("[{}] crop style is not cover", ctx())
             return False
 
-        crop_settings = img_target_settings.get("crop_settings", dict())
+        crop_settings = img_target_settings.get("crop_arguments", dict())
         if not isinstance(crop_settings, dict):
             logger.warning("[{}] crop settings are not a dictionary", ctx())
             return False
diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index b93b1b0..cbe1ec8 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -157,6 +157,25 @@ async def hot_incremental_rebuild(
                         if os.path.exists(
                             os.path.join(context.folder, placeholder_relpath)
                         ):
+                            with open(
+                                os.path.join(context.folder, placeholder_relpath),
+                                errors="replace",
+                            ) as f:
+                                if f.read() == placeholder_contents:
+                                    new_placeholders[
+                                        placeholder_relpath
+                                    ] = scanned_file_relpath
+
+                            # it depends on the file we just scanned, though if
+                            # that file is new then the graph does not say so
+                            for file in find_files_to_rebuild(
+                                old_dependency_graph,
+                                old_placeholders_graph,
+                                [placeholder_relpath],
+                            ):
+                                if file not in all_dirty_files:
+                                    all_dirty_files.add(file)
+                                    files_that_need_scanning.append(file)
                             continue
 
                         logger.info(
@@ -173,6 +192,9 @@ async def hot_incremental_rebuild(
                         added_files[placeholder_relpath] = get_file_signature(
                             os.path.join(context.folder, placeholder_relpath)
                         )
+                        deleted_files = [
+                            file for file in deleted_files if file != placeholder_relpath
+                        ]
 
         # When the scan file result marks an output file as a dependency,
         # we must reinterpret that as a dependency on a file which intends
-- 
2.43.0


From fa7c246a6d6046f1ed7ca7d6bed726a58a61a4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 12/37] fix: look for outlined image data relative to the
 project folder

---
 vanillaplusjs/build/css/manips/icons/manip.py        | 4 +++-
 vanillaplusjs/build/css/manips/outline_image_data.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index a8ece96..a50b3c3 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -74,6 +74,7 @@ class IconManipulator(CSSManipulator):
         css_file_relpath = self.context.default_css_file.replace("/", os.path.sep)
         if self.relpath != css_file_relpath:
             self.children.add(css_file_relpath)
+        self.children.add(args.input_icon)
 
         svg = None
         replacer = None
@@ -83,6 +84,7 @@ class IconManipulator(CSSManipulator):
             output_path = os.path.join(self.context.folder, output_relpath)
             if os.path.exists(output_path):
                 self.reused.add(output_relpath)
+                self.reused.add(output_relpath + ".hash")
                 continue
             if svg is None:
                 with open(os.path.join(self.context.folder, args.input_icon)) as f:
@@ -541,7 +543,7 @@ class IconManipulator(CSSManipulator):
                     real_button,
                     button_by_identifier=dict(
                         (iden, setting)
-                        for iden, setting in real_button.button_by_identifier
+                        for iden, setting in real_button.button_by_identifier.items()
                         if iden not in purge_idens
                     ),
                 )
diff --git a/vanillaplusjs/build/css/manips/outline_image_data.py b/vanillaplusjs/build/css/manips/outline_image_data.py
index fa1636d..d888d06 100644
--- a/vanillaplusjs/build/css/manips/outline_image_data.py
+++ b/vanillaplusjs/build/css/manips/outline_image_data.py
@@ -132,7 +132,7 @@ class OutlineImageDataManipulator(CSSManipulator):
 
         out_path = os.path.join(self.context.folder, out_relpath)
         if need_to_create:
-            if os.path.lexists(out_relpath):
+            if os.path.lexists(out_path):
                 self.reused.add(out_relpath)
             else:
                 self.produced.add(out_relpath)
-- 
2.43.0


From 19eebd084f0972ffb51ae3ec25cf7eff70591923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 13/37] fix: do not depend on others for what a file produces
 itself

Two css files which used the same icon were, depending on the order in which
the files were listed, reported as a cyclic dependency.
---
 vanillaplusjs/build/hot_incremental_rebuild.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index cbe1ec8..3dfc818 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -215,6 +215,9 @@ async def hot_incremental_rebuild(
                     new_dependencies.add(dep_relpath)
                     continue
 
+                if dep_relpath in scan_result.produces:
+                    continue  # even if others could provide it
+
                 if dep_relpath in out_dependencies_mapping:
                     new_dependencies.add(out_dependencies_mapping[dep_relpath])
                     continue
@@ -408,7 +411,9 @@ async def hot_incremental_rebuild(
 
                     reinterpreted_children: List[str] = []
                     for child in rebuild_result.children:
-                        if child in out_dependencies_mapping:
+                        if child in get_file_creates(pending_file):
+                            continue  # even if others could provide it
+                        elif child in out_dependencies_mapping:
                             mapped_child = out_dependencies_mapping[child]
                             if mapped_child != pending_file:
                                 reinterpreted_children.append(mapped_child)
-- 
2.43.0


From 92d315438d56eac7af0a517f2179e0d94b57cbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 14/37] fix: rebuild pages when an image they could not use
 before becomes usable

An image that is missing or too small leaves the page as it is, but then the
page did not depend on it, so nothing happened once it was added or replaced.
The dependency graph now also holds files which do not exist yet.
---
 .../build/cold_incremental_rebuild.py         |  8 +++++--
 vanillaplusjs/build/graph.py                  |  9 ++++++++
 vanillaplusjs/build/handlers/image_glue.py    | 22 +++++++++++++++++--
 .../build/hot_incremental_rebuild.py          | 11 +++++++++-
 .../build/html/manips/images/manip.py         |  6 +++++
 5 files changed, 51 insertions(+), 5 deletions(-)

diff --git a/vanillaplusjs/build/cold_incremental_rebuild.py b/vanillaplusjs/build/cold_incremental_rebuild.py
index 796770a..b9fd421 100644
--- a/vanillaplusjs/build/cold_incremental_rebuild.py
+++ b/vanillaplusjs/build/cold_incremental_rebuild.py
@@ -71,7 +71,11 @@ async def cold_incremental_rebuild(
     # file signatures. In both cases, once we know what files have changed,
     # we can start the incremental rebuild.
 
-    relpaths_deleted: Set[str] = set(old_dependency_graph.nodes.keys())
+    relpaths_deleted: Set[str] = set(
+        relpath
+        for relpath, node in old_dependency_graph.nodes.items()
+        if not node.is_missing()
+    )
     relpaths_changed: Dict[str, FileSignature] = dict()
     relpaths_added: Dict[str, FileSignature] = dict()
 
@@ -86,7 +90,7 @@ async def cold_incremental_rebuild(
             relpath = os.path.relpath(os.path.join(dirpath, filename), context.folder)
             signature = get_file_signature(os.path.join(context.folder, relpath))
             if relpath in old_dependency_graph:
-                relpaths_deleted.remove(relpath)
+                relpaths_deleted.discard(relpath)
                 if not old_dependency_graph.check_file(
                     relpath, signature.filesize, signature.mtime, signature.inode
                 ):
diff --git a/vanillaplusjs/build/graph.py b/vanillaplusjs/build/graph.py
index ae1d459..1a5eb3e 100644
--- a/vanillaplusjs/build/graph.py
+++ b/vanillaplusjs/build/graph.py
@@ -21,6 +21,11 @@ class FileRelationship:
     """The two files are unrelated"""
 
 
+MISSING_FILESIZE = -1
+"""The file size of the nodes for files which do not exist, but where something
+changes as soon as they do"""
+
+
 @dataclass
 class FileDependencyGraphNode:
     """A single node within the file dependency graph, with a reference to its
@@ -47,6 +52,10 @@ class FileDependencyGraphNode:
     children: List["FileDependencyGraphNode"]
     """The files which this file depends on."""
 
+    def is_missing(self) -> bool:
+        """True if this was not found when others were built which depend on it"""
+        return self.filesize == MISSING_FILESIZE
+
     def __eq__(self, other: "FileDependencyGraphNode") -> bool:
         """Determines if this graph node is logically identical to the
         given graph node. This will recursively expand the parents and
diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index 199a1b7..6a26e7a 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -138,7 +138,7 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
         data = json.load(f)
 
     if not sanity_check_images_json(context, data, relpath):
-        return ScanFileResult(dependencies=[], produces=[])
+        return ScanFileResult(dependencies=get_image_paths(data), produces=[])
 
     path_rel_to_public = relpath[
         len(os.path.join("src", "public")) + len(os.path.sep) :
@@ -184,6 +184,22 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
     )
 
 
+def get_image_paths(data: dict) -> List[str]:
+    """The images that are mentioned in an images json file which did not pass the
+    sanity check; it may well do so when one of them is added or replaced.
+    """
+    if not isinstance(data, dict):
+        return []
+    paths = [img.get("path") for img in data.values() if isinstance(img, dict)]
+    return list(
+        {
+            os.path.normpath(os.path.join("src", "public", path[1:]))
+            for path in paths
+            if isinstance(path, str) and path.startswith("/")
+        }
+    )
+
+
 def get_generators(context: BuildContext, relpath: str) -> List[str]:
     """The files which what is served for the given `*.images.js` file is generated
     from; those who import it find this out through it.
@@ -208,7 +224,9 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
         data = json.load(f)
 
     if not sanity_check_images_json(context, data, relpath):
-        return BuildFileResult(children=[], produced=[], reused=[])
+        return BuildFileResult(
+            children=get_image_paths(data), produced=[], reused=[]
+        )
 
     path_rel_to_public = relpath[
         len(os.path.join("src", "public")) + len(os.path.sep) :
diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 3dfc818..754ed24 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -9,7 +9,7 @@ from vanillaplusjs.build.file_signature import FileSignature, get_file_signature
 from vanillaplusjs.build.ioutil import makedirs_safely
 from vanillaplusjs.build.scan_file import scan_file
 from vanillaplusjs.build.scan_file_result import ScanFileResult
-from .graph import FileDependencyGraph
+from .graph import FileDependencyGraph, MISSING_FILESIZE
 from loguru import logger
 import concurrent.futures
 import os
@@ -514,6 +514,9 @@ async def hot_incremental_rebuild(
                 list(updated_results.keys()) + list(old_dependency_graph.nodes.keys())
             )
             if f not in deleted_files
+            and (
+                f in updated_results or not old_dependency_graph.nodes[f].is_missing()
+            )
         )
 
         possible_empty_placeholder_nodes = set()
@@ -595,6 +598,12 @@ async def hot_incremental_rebuild(
                 if file in updated_results
                 else old_dependency_graph.get_children(file)
             )
+            for dependency in new_dependencies:
+                if dependency not in new_dependency_graph and not os.path.lexists(
+                    os.path.join(context.folder, dependency)
+                ):
+                    new_dependency_graph.add_file(dependency, MISSING_FILESIZE, 0, 0)
+
             new_dependency_graph.set_children(
                 file,
                 children=new_dependencies,
diff --git a/vanillaplusjs/build/html/manips/images/manip.py b/vanillaplusjs/build/html/manips/images/manip.py
index b4aca92..2f55932 100644
--- a/vanillaplusjs/build/html/manips/images/manip.py
+++ b/vanillaplusjs/build/html/manips/images/manip.py
@@ -132,6 +132,12 @@ class ImagesManipulator(HTMLManipulator):
         if not validate_command(
             cmd, self.context, os.path.join(self.context.folder, self.relpath)
         ):
+            # it may well become valid when the image is added or replaced
+            path = cmd.source_path_relative_to_root(
+                self.context, os.path.join(self.context.folder, self.relpath)
+            )
+            if path.startswith(os.path.join("src", "public")):
+                (self.dependencies if self.mode == "scan" else self.children).add(path)
             return None
 
         return cmd
-- 
2.43.0


From 86c99d5d2b0a8724972d1bcb3c7891198030b5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:44 +0000
Subject: [PATCH 15/37] fix: produce icons in the colors that only their
 buttons use

---
 vanillaplusjs/build/css/manips/icons/manip.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index a50b3c3..7caf9dd 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -79,7 +79,7 @@ class IconManipulator(CSSManipulator):
         svg = None
         replacer = None
 
-        for color in args.output_colors:
+        for color in self.get_svg_colors(args):
             output_relpath = os.path.join(args.output_icon_folder, color + ".svg")
             output_path = os.path.join(self.context.folder, output_relpath)
             if os.path.exists(output_path):
@@ -552,6 +552,21 @@ class IconManipulator(CSSManipulator):
             args, output_colors=real_colors, output_sizes=real_sizes, button=real_button
         )
 
+    def get_svg_colors(self, args: IconCommand) -> List[str]:
+        """The colors we need the icon in: those with a class of their own and those
+        that are only used by the buttons.
+        """
+        colors = list(args.output_colors)
+        if args.button is not None:
+            settings = list(args.button.button_by_identifier.values())
+            if args.button.default_button is not None:
+                settings.append(args.button.default_button)
+            for setting in settings:
+                colors.append(setting.active_color)
+                colors.append(setting.hover_color)
+                colors.append(setting.disabled_color)
+        return list(dict.fromkeys(colors))
+
     def scan_icon_command(self, args: IconCommand) -> None:
         """Adds any dependencies or produces appropriate for the icon command
         with the given arguments.
@@ -562,7 +577,7 @@ class IconManipulator(CSSManipulator):
 
         self.dependencies.add(args.input_icon)
 
-        for color in args.output_colors:
+        for color in self.get_svg_colors(args):
             self.produces.add(os.path.join(args.output_icon_folder, color + ".svg"))
 
             # these are oging to come from the version_urls manipulator, but if we don't add them
-- 
2.43.0


From 92cd8be92b07ad48cfecb280f0d7117d0382854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:21 +0000
Subject: [PATCH 16/37] fix: rebuild stylesheets with icons when main.css is
 added or gets their colors

---
 vanillaplusjs/build/css/manips/icons/manip.py | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index 7caf9dd..e7e8c1d 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -71,9 +71,6 @@ class IconManipulator(CSSManipulator):
         args = self.get_icon_command_args(node)
         assert args is not None, "continue_mark on non-icon command"
 
-        css_file_relpath = self.context.default_css_file.replace("/", os.path.sep)
-        if self.relpath != css_file_relpath:
-            self.children.add(css_file_relpath)
         self.children.add(args.input_icon)
 
         svg = None
@@ -483,6 +480,10 @@ class IconManipulator(CSSManipulator):
         except StopIteration as e:
             args: IconCommand = e.value
 
+        # whether there is something to do depends on the colors and sizes, so we
+        # need to come back when they change even if right now there is nothing
+        self.depend_on_settings()
+
         if args.icon_initial_color not in self.context.icon_settings.color_map:
             return
 
@@ -552,6 +553,17 @@ class IconManipulator(CSSManipulator):
             args, output_colors=real_colors, output_sizes=real_sizes, button=real_button
         )
 
+    def depend_on_settings(self) -> None:
+        """Adds the file which the colors and sizes come from to what this file
+        depends on.
+        """
+        css_file_relpath = self.context.default_css_file.replace("/", os.path.sep)
+        if self.relpath != css_file_relpath:
+            if self.mode == "scan":
+                self.dependencies.add(css_file_relpath)
+            else:
+                self.children.add(css_file_relpath)
+
     def get_svg_colors(self, args: IconCommand) -> List[str]:
         """The colors we need the icon in: those with a class of their own and those
         that are only used by the buttons.
@@ -571,10 +583,6 @@ class IconManipulator(CSSManipulator):
         """Adds any dependencies or produces appropriate for the icon command
         with the given arguments.
         """
-        css_file_relpath = self.context.default_css_file.replace("/", os.path.sep)
-        if self.relpath != css_file_relpath:
-            self.dependencies.add(css_file_relpath)
-
         self.dependencies.add(args.input_icon)
 
         for color in self.get_svg_colors(args):
-- 
2.43.0


From 58298db4b5efdb8219f1ac9fdc6729eedc82ed75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:10 +0000
Subject: [PATCH 17/37] fix: never leave half of a generated placeholder behind

---
 vanillaplusjs/build/hot_incremental_rebuild.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 754ed24..5bcfd83 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -183,10 +183,9 @@ async def hot_incremental_rebuild(
                             scanned_file_relpath,
                             placeholder_relpath,
                         )
-                        with open(
-                            os.path.join(context.folder, placeholder_relpath), "w"
-                        ) as f:
-                            f.write(placeholder_contents)
+                        write_placeholder(
+                            context, placeholder_relpath, placeholder_contents
+                        )
                         files_that_need_scanning.append(placeholder_relpath)
                         new_placeholders[placeholder_relpath] = scanned_file_relpath
                         added_files[placeholder_relpath] = get_file_signature(
@@ -676,6 +675,16 @@ def mark_build_incomplete(context: BuildContext) -> None:
         pass
 
 
+def write_placeholder(context: BuildContext, relpath: str, contents: str) -> None:
+    """Creates the given file in the source folder. If we are interrupted then it
+    either has all of the given contents or it is not there.
+    """
+    temp_path = os.path.join(context.out_folder, "new_placeholder")
+    with open(temp_path, "w") as f:
+        f.write(contents)
+    shutil.move(temp_path, os.path.join(context.folder, relpath))
+
+
 def discard_incomplete_build(context: BuildContext) -> None:
     """If the last build did not finish, removes the outputs and the graphs it left
     behind so that the next build starts from nothing. The artifacts are kept as
-- 
2.43.0


From 367fb236355a1f2952932157cd4b85866339623b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:10 +0000
Subject: [PATCH 18/37] fix: make clean recoverable and keep placeholders the
 user changed

---
 vanillaplusjs/runners/clean.py | 97 +++++++++++++++++++++++++---------
 1 file changed, 72 insertions(+), 25 deletions(-)

diff --git a/vanillaplusjs/runners/clean.py b/vanillaplusjs/runners/clean.py
index 2cb9aaa..1e8b816 100644
--- a/vanillaplusjs/runners/clean.py
+++ b/vanillaplusjs/runners/clean.py
@@ -3,7 +3,9 @@ import argparse
 import os
 import shutil
 import sys
-from vanillaplusjs.build.graph import FileDependencyGraph
+from vanillaplusjs.build.build_context import BuildContext
+from vanillaplusjs.build.handlers.image_glue import PLACEHOLDER_FILE
+from vanillaplusjs.build.hot_incremental_rebuild import mark_build_incomplete
 
 
 def main(args: Sequence[str]):
@@ -54,18 +56,76 @@ def clean(folder: str, placeholders: bool) -> None:
         print("vanillaplusjs.json not found. Call 'vanillaplusjs init' to create it.")
         sys.exit(1)
 
+    context = BuildContext(folder, dev=False, symlinks=False)
+
+    if os.path.lexists(context.out_folder) or os.path.lexists(
+        os.path.join(folder, "artifacts")
+    ):
+        # if we are interrupted the next build must not trust what is left
+        mark_build_incomplete(context)
+
     if placeholders:
-        placeholder_graph_path = os.path.join(folder, "out", "placeholder_graph.json")
-        if os.path.exists(placeholder_graph_path):
-            with open(placeholder_graph_path, "r") as f:
-                placeholder_graph = FileDependencyGraph.load(f)
+        for placeholder in find_placeholders(folder):
+            os.remove(os.path.join(folder, placeholder))
+
+    remove_artifacts(context)
+    remove_out(context)
+
+
+def find_placeholders(folder: str) -> List[str]:
+    """Finds the placeholders which were generated within the given project and
+    which have not been changed since.
 
-            for file, node in placeholder_graph.nodes.items():
-                if node.parents:
-                    os.remove(os.path.join(folder, file))
+    Args:
+        folder (str): The folder containing vanillaplusjs.json
+
+    Returns:
+        List[str]: The placeholders, relative to the folder
+    """
+    result: List[str] = []
+    for dirpath, _, filenames in os.walk(os.path.join(folder, "src", "public")):
+        for filename in sorted(filenames):
+            if not filename.endswith(".images.json"):
+                continue
+            placeholder_path = os.path.join(dirpath, filename[: -len("on")])
+            if not os.path.isfile(placeholder_path):
+                continue
+            with open(placeholder_path, errors="replace") as f:
+                if f.read() == PLACEHOLDER_FILE:
+                    result.append(os.path.relpath(placeholder_path, folder))
+    return result
+
+
+def remove_artifacts(context: BuildContext) -> None:
+    """Removes the folder with the artifacts, if it exists. The next build never
+    finds only some of the artifacts, even if we are interrupted.
+    """
+    artifacts_folder = os.path.join(context.folder, "artifacts")
+    trash_folder = os.path.join(context.out_folder, "removed_artifacts")
+    if os.path.lexists(trash_folder):
+        shutil.rmtree(trash_folder)
+    if os.path.lexists(artifacts_folder):
+        os.rename(artifacts_folder, trash_folder)
+        shutil.rmtree(trash_folder)
+
+
+def remove_out(context: BuildContext) -> None:
+    """Removes the out folder, if it exists. Everything else in there is gone
+    before `build_incomplete_file` is.
+    """
+    if not os.path.lexists(context.out_folder):
+        return
+
+    for filename in sorted(os.listdir(context.out_folder)):
+        path = os.path.join(context.out_folder, filename)
+        if path == context.build_incomplete_file:
+            continue
+        if os.path.isdir(path) and not os.path.islink(path):
+            shutil.rmtree(path)
+        else:
+            os.remove(path)
 
-    shutil.rmtree(os.path.join(folder, "out"), ignore_errors=True)
-    shutil.rmtree(os.path.join(folder, "artifacts"), ignore_errors=True)
+    shutil.rmtree(context.out_folder)
 
 
 def prompt_placeholders(folder: str) -> bool:
@@ -79,20 +139,7 @@ def prompt_placeholders(folder: str) -> bool:
     Returns:
         bool: The users choice, if it matters, otherwise an arbitrary value
     """
-    placeholder_graph_path = os.path.join(folder, "out", "placeholder_graph.json")
-    if not os.path.exists(placeholder_graph_path):
-        return False
-
-    with open(placeholder_graph_path, "r") as f:
-        placeholder_graph = FileDependencyGraph.load(f)
-
-    if len(placeholder_graph.nodes) == 0:
-        return False
-
-    placeholders: List[str] = []
-    for file, node in placeholder_graph.nodes.items():
-        if node.parents:
-            placeholders.append(file)
+    placeholders = find_placeholders(folder)
 
     if len(placeholders) == 0:
         return False
@@ -101,7 +148,7 @@ def prompt_placeholders(folder: str) -> bool:
     print("The following placeholders would be removed:")
     for idx, placeholder in enumerate(placeholders):
         print(
-            f"{idx + 1}. {placeholder} (generated by {placeholder_graph.get_parents(placeholder)})"
+            f"{idx + 1}. {placeholder} (generated by {placeholder}on)"
         )
 
     print("Do you want to remove them? (y/n) ", end="")
-- 
2.43.0


From cd6a1643b76a265776274e97906b34c4c40c6af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 19/37] fix: keep image paths within the public folder,
 wherever the build was started

---
 vanillaplusjs/build/handlers/image_glue.py        | 8 +++++++-
 vanillaplusjs/build/html/manips/images/command.py | 9 ++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index 6a26e7a..354f04a 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -326,7 +326,13 @@ def sanity_check_images_json(context: BuildContext, data: dict, relpath: str) ->
             return False
 
         path_rel_to_public = path[1:]
-        path_rel_to_root = os.path.join("src", "public", path_rel_to_public)
+        path_rel_to_root = os.path.normpath(
+            os.path.join("src", "public", path_rel_to_public)
+        )
+        if not path_rel_to_root.startswith(os.path.join("src", "public", "")):
+            logger.warning("[{}] path {} is not public", ctx(), path)
+            return False
+
         if not os.path.exists(os.path.join(context.folder, path_rel_to_root)):
             logger.warning("[{}] path {} does not exist", ctx(), path_rel_to_root)
             return False
diff --git a/vanillaplusjs/build/html/manips/images/command.py b/vanillaplusjs/build/html/manips/images/command.py
index e9ff9f6..e12ae75 100644
--- a/vanillaplusjs/build/html/manips/images/command.py
+++ b/vanillaplusjs/build/html/manips/images/command.py
@@ -51,16 +51,15 @@ class ImageCommand:
         of the project.
         """
         if self.path.startswith("/"):
-            return os.path.join(
-                "src", "public", self.path[1:].replace("/", os.path.sep)
+            return os.path.normpath(
+                os.path.join("src", "public", self.path[1:].replace("/", os.path.sep))
             )
 
-        abs_path = os.path.abspath(
+        return os.path.normpath(
             os.path.join(
                 os.path.dirname(command_file_path), self.path.replace("/", os.path.sep)
             )
         )
-        return os.path.relpath(abs_path, context.folder)
 
 
 def parse_command(args: str) -> ImageCommand:
@@ -178,7 +177,7 @@ def validate_command(
     path_relative_to_root = command.source_path_relative_to_root(
         context, command_file_path
     )
-    if not path_relative_to_root.startswith(os.path.join("src", "public")):
+    if not path_relative_to_root.startswith(os.path.join("src", "public", "")):
         return False
 
     try:
-- 
2.43.0


From 47c4d76443e16a22e6f54788cdbad94f1d61ad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 20/37] fix: never leave half of an initial file behind, or
 overwrite one that cannot be inspected

---
 vanillaplusjs/runners/init.py | 38 ++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/vanillaplusjs/runners/init.py b/vanillaplusjs/runners/init.py
index f5f1e13..a8a9852 100644
--- a/vanillaplusjs/runners/init.py
+++ b/vanillaplusjs/runners/init.py
@@ -1,5 +1,6 @@
 import decimal
-from typing import Optional, Sequence
+from contextlib import contextmanager
+from typing import Iterator, Optional, Sequence, TextIO
 import argparse
 import os
 from vanillaplusjs.build.ioutil import makedirs_safely
@@ -52,8 +53,8 @@ def init(folder: str, host: Optional[str] = None) -> None:
         host (str, None): If the host where the website will be hosted
             is known, that host to initialize the configuration with
     """
-    if not os.path.exists(os.path.join(folder, "vanillaplusjs.json")):
-        with open(os.path.join(folder, "vanillaplusjs.json"), "w") as f:
+    if is_missing(os.path.join(folder, "vanillaplusjs.json")):
+        with create_file(folder, "vanillaplusjs.json") as f:
             json.dump(
                 {
                     "version": vanillaplusjs.constants.CONFIGURATION_VERSION,
@@ -166,8 +167,8 @@ def init(folder: str, host: Optional[str] = None) -> None:
     makedirs_safely(os.path.join(folder, "src", "public", "js"))
     makedirs_safely(os.path.join(folder, "src", "partials"))
 
-    if not os.path.exists(os.path.join(folder, "src", "public", "index.html")):
-        with open(os.path.join(folder, "src", "public", "index.html"), "w") as f:
+    if is_missing(os.path.join(folder, "src", "public", "index.html")):
+        with create_file(folder, os.path.join("src", "public", "index.html")) as f:
             print("<!DOCTYPE html>", file=f)
             print('<html lang="en">', file=f)
             print("<head>", file=f)
@@ -180,6 +181,33 @@ def init(folder: str, host: Optional[str] = None) -> None:
             print("</html>", file=f)
 
 
+def is_missing(path: str) -> bool:
+    """Determines if there is nothing at the given path. Unlike with os.path.exists
+    it is an error if that cannot be determined.
+    """
+    try:
+        os.lstat(path)
+        return False
+    except FileNotFoundError:
+        return True
+
+
+@contextmanager
+def create_file(folder: str, relpath: str) -> Iterator[TextIO]:
+    """Opens the given file in the given folder for writing, such that, even if we
+    are interrupted, the file is either missing or has everything we wrote.
+    """
+    temp_path = os.path.join(folder, "vanillaplusjs.json.tmp")
+    try:
+        with open(temp_path, "w") as f:
+            yield f
+        os.replace(temp_path, os.path.join(folder, relpath))
+    except BaseException:
+        if os.path.lexists(temp_path):
+            os.remove(temp_path)
+        raise
+
+
 class DecimalEncoder(json.JSONEncoder):
     def default(self, o):
         if isinstance(o, decimal.Decimal):
-- 
2.43.0


From e1403a73bc88c83714e97018b6349166093f1890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 21/37] fix: recover external files from interrupted, failed
 and stalled downloads and always delete old ones

---
 .../build/cold_incremental_rebuild.py         | 128 ++++++++++++------
 1 file changed, 89 insertions(+), 39 deletions(-)

diff --git a/vanillaplusjs/build/cold_incremental_rebuild.py b/vanillaplusjs/build/cold_incremental_rebuild.py
index b9fd421..87306ed 100644
--- a/vanillaplusjs/build/cold_incremental_rebuild.py
+++ b/vanillaplusjs/build/cold_incremental_rebuild.py
@@ -8,13 +8,13 @@ from vanillaplusjs.build.build_context import (
     ExternalFilesState,
 )
 from vanillaplusjs.build.exceptions import IntegrityMismatchException
-from vanillaplusjs.build.ioutil import makedirs_safely
+from vanillaplusjs.build.ioutil import makedirs_safely, write_atomically
 from .graph import FileDependencyGraph
 from .file_signature import FileSignature, get_file_signature
 from .hot_incremental_rebuild import hot_incremental_rebuild
 from loguru import logger
 import os
-from typing import Dict, Optional, Set, List
+from typing import Dict, Set, List
 import concurrent.futures
 import hashlib
 from base64 import b64encode
@@ -123,50 +123,72 @@ async def check_external_files(context: BuildContext):
     Args:
         context (BuildContext): The context to build in
     """
-    if not context.external_files:
-        return
-
     external_files_state = ExternalFilesState(state_by_relpath=dict())
-    if os.path.exists(context.external_files_state_file):
+    try:
         with open(context.external_files_state_file, "r") as f:
             external_files_state = ExternalFilesState.from_json(json.load(f))
+    except FileNotFoundError:
+        if not context.external_files:
+            return
 
     logger.info("Checking external files")
 
     new_external_files_state = ExternalFilesState(state_by_relpath=dict())
 
-    for old_external_file_relpath in external_files_state.state_by_relpath.keys():
-        if old_external_file_relpath not in context.external_files:
-            logger.info("Deleting old external file {}", old_external_file_relpath)
-            os.remove(os.path.join(context.folder, old_external_file_relpath))
+    for old_external_file in external_files_state.state_by_relpath.values():
+        desired_external_file = context.external_files.get(old_external_file.relpath)
+        if desired_external_file is None:
+            delete_external_file(context, old_external_file)
+        elif desired_external_file.integrity != old_external_file.integrity:
+            try:
+                ensure_integrity(
+                    os.path.join(context.folder, desired_external_file.relpath),
+                    desired_external_file.integrity,
+                )
+            except (FileNotFoundError, IntegrityMismatchException):
+                delete_external_file(context, old_external_file)
+
+    files_to_handle: List[ExternalFile] = []
+    for desired_external_file in context.external_files.values():
+        if is_external_file_skippable(
+            context, external_files_state, desired_external_file.relpath
+        ):
+            new_external_files_state.state_by_relpath[
+                desired_external_file.relpath
+            ] = external_files_state.state_by_relpath[desired_external_file.relpath]
+            continue
 
-    executor: Optional[ProcessPoolExecutor] = None
-    # We don't want to spin up a whole process pool unless we actually have
-    # something to do
+        files_to_handle.append(desired_external_file)
 
     futures: List[concurrent.futures.Future] = []
-    try:
-        for desired_external_file in context.external_files.values():
-            if is_external_file_skippable(
-                context, external_files_state, desired_external_file.relpath
-            ):
-                new_external_files_state.state_by_relpath[
-                    desired_external_file.relpath
-                ] = external_files_state.state_by_relpath[desired_external_file.relpath]
-                continue
-
-            if executor is None:
-                executor = ProcessPoolExecutor()
-
-            futures.append(
-                executor.submit(handle_external_file, context, desired_external_file)
-            )
-    finally:
-        if executor is not None:
-            executor.shutdown(wait=True)
+    if files_to_handle:
+        # If we are interrupted, or some of the files are not available, then the
+        # files we did download still have to be known to later builds.
+        store_external_files_state(
+            context,
+            ExternalFilesState(
+                state_by_relpath={
+                    **new_external_files_state.state_by_relpath,
+                    **dict(
+                        (
+                            file.relpath,
+                            ExternalFileState(
+                                relpath=file.relpath,
+                                integrity=file.integrity,
+                                signature=FileSignature(mtime=0, filesize=0, inode=0),
+                            ),
+                        )
+                        for file in files_to_handle
+                    ),
+                }
+            ),
+        )
 
-    if not futures:
-        return
+        # We don't want to spin up a whole process pool unless we actually have
+        # something to do
+        with ProcessPoolExecutor() as executor:
+            for file in files_to_handle:
+                futures.append(executor.submit(handle_external_file, context, file))
 
     for future in futures:
         future.result()
@@ -186,10 +208,38 @@ async def check_external_files(context: BuildContext):
                 ),
             )
 
-    external_files_state_folder = os.path.dirname(context.external_files_state_file)
-    makedirs_safely(external_files_state_folder)
-    with open(context.external_files_state_file, "w") as f:
-        json.dump(dataclasses.asdict(new_external_files_state), f)
+    if new_external_files_state == external_files_state:
+        return
+
+    store_external_files_state(context, new_external_files_state)
+
+
+def store_external_files_state(
+    context: BuildContext, external_files_state: ExternalFilesState
+) -> None:
+    """Stores what is known about the external files for the next build."""
+    makedirs_safely(os.path.dirname(context.external_files_state_file))
+    write_atomically(
+        context.external_files_state_file,
+        json.dumps(dataclasses.asdict(external_files_state)),
+    )
+
+
+def delete_external_file(context: BuildContext, old_file: ExternalFileState) -> None:
+    """Deletes the given file, which is not an external file anymore, unless it has
+    been deleted or replaced with something else already.
+    """
+    path = os.path.join(context.folder, old_file.relpath)
+    try:
+        ensure_integrity(path, old_file.integrity)
+    except (FileNotFoundError, NotADirectoryError):
+        return
+    except (IntegrityMismatchException, IsADirectoryError):
+        logger.info("Keeping {}, which is no longer external", old_file.relpath)
+        return
+
+    logger.info("Deleting old external file {}", old_file.relpath)
+    os.remove(path)
 
 
 def is_external_file_skippable(
@@ -247,7 +297,7 @@ def handle_external_file(
     makedirs_safely(context.out_folder)
     temp_path = os.path.join(context.out_folder, f"{secrets.token_urlsafe(8)}.tmp")
     try:
-        response = requests.get(external_file.url, stream=True)
+        response = requests.get(external_file.url, stream=True, timeout=60)
         response.raise_for_status()
         with open(temp_path, "wb") as f:
             for chunk in response.iter_content(chunk_size=8192):
-- 
2.43.0


From c1c4d9b652f7a5079283e69df953e7d1932c8a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 22/37] fix: retry creating a folder which exists but could not
 be inspected

---
 vanillaplusjs/build/ioutil.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vanillaplusjs/build/ioutil.py b/vanillaplusjs/build/ioutil.py
index ff2741c..aaac9f3 100644
--- a/vanillaplusjs/build/ioutil.py
+++ b/vanillaplusjs/build/ioutil.py
@@ -226,6 +226,10 @@ def makedirs_safely(path: str) -> None:
             if i == 4:
                 raise
             logger.warning(f"Permission error creating {path}; attempt {i+1}/5")
+        except FileExistsError:
+            # it might be a folder after all, if we weren't permitted to check
+            if i == 4:
+                raise
 
 
 def write_atomically(path: str, contents: str) -> None:
-- 
2.43.0


From d7f0a9fafcd4ad3511a6ab1d6ffc2e4ae9352e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 23/37] fix: write null, nested and non-ascii constants as
 javascript

---
 vanillaplusjs/build/handlers/js_constants.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/vanillaplusjs/build/handlers/js_constants.py b/vanillaplusjs/build/handlers/js_constants.py
index f7bfa90..48b1d5b 100644
--- a/vanillaplusjs/build/handlers/js_constants.py
+++ b/vanillaplusjs/build/handlers/js_constants.py
@@ -8,6 +8,7 @@ import vanillaplusjs.build.handlers.copy
 import vanillaplusjs.build.handlers.hash
 from vanillaplusjs.build.ioutil import makedirs_safely
 from vanillaplusjs.build.scan_file_result import ScanFileResult
+import json
 import os
 
 
@@ -61,16 +62,7 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
 
 
 def jsify(val) -> str:
-    if isinstance(val, str):
+    if isinstance(val, str) and val.isascii() and val.isprintable():
         return serialize_string_auto_quote(val)
 
-    if val is True:
-        return "true"
-
-    if val is False:
-        return "false"
-
-    if isinstance(val, (int, float)):
-        return str(val)
-
-    return repr(val)
+    return json.dumps(val)
-- 
2.43.0


From 5862b46e7d0689e2328cbceab4ac329be452ed67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:45 +0000
Subject: [PATCH 24/37] fix: read the icon colors after noting the state of the
 stylesheet they are from

---
 vanillaplusjs/build/cold_incremental_rebuild.py | 4 ++++
 vanillaplusjs/runners/build.py                  | 2 --
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/cold_incremental_rebuild.py b/vanillaplusjs/build/cold_incremental_rebuild.py
index 87306ed..a96a880 100644
--- a/vanillaplusjs/build/cold_incremental_rebuild.py
+++ b/vanillaplusjs/build/cold_incremental_rebuild.py
@@ -7,6 +7,7 @@ from vanillaplusjs.build.build_context import (
     ExternalFileState,
     ExternalFilesState,
 )
+from vanillaplusjs.build.css.manips.icons.settings import load_icon_settings
 from vanillaplusjs.build.exceptions import IntegrityMismatchException
 from vanillaplusjs.build.ioutil import makedirs_safely, write_atomically
 from .graph import FileDependencyGraph
@@ -98,6 +99,9 @@ async def cold_incremental_rebuild(
             else:
                 relpaths_added[relpath] = signature
 
+    # Must not be older than the signature of the file they are read from
+    context.icon_settings = load_icon_settings(context)
+
     logger.info(
         "Cold start incremental build detected {} changed files, {} added files, and {} deleted files",
         len(relpaths_changed),
diff --git a/vanillaplusjs/runners/build.py b/vanillaplusjs/runners/build.py
index 17ed247..51fe862 100644
--- a/vanillaplusjs/runners/build.py
+++ b/vanillaplusjs/runners/build.py
@@ -12,7 +12,6 @@ from vanillaplusjs.build.build_context import (
 )
 from vanillaplusjs.build.cold_incremental_rebuild import cold_incremental_rebuild
 from vanillaplusjs.build.hot_incremental_rebuild import discard_incomplete_build
-from vanillaplusjs.build.css.manips.icons.settings import load_icon_settings
 from vanillaplusjs.build.html.manips.images.settings import load_image_settings
 import vanillaplusjs.constants
 from vanillaplusjs.build.graph import FileDependencyGraph
@@ -119,7 +118,6 @@ def build(
         print("No src folder found")
         sys.exit(1)
 
-    context.icon_settings = load_icon_settings(context)
     context.image_settings = load_image_settings(config["images"])
     context.auto_generate_images_js_placeholders = config[
         "auto_generate_images_js_placeholders"
-- 
2.43.0


From 6a8e4102d6af1c80af6e491a89341030d274ad55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 25/37] fix: do not export an image that changes while it is
 being exported

---
 vanillaplusjs/build/html/manips/images/exporter.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/images/exporter.py b/vanillaplusjs/build/html/manips/images/exporter.py
index 04e7281..3d72f1b 100644
--- a/vanillaplusjs/build/html/manips/images/exporter.py
+++ b/vanillaplusjs/build/html/manips/images/exporter.py
@@ -3,7 +3,9 @@ import dataclasses
 from typing import Dict, List, Literal, Optional, Tuple
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
+from vanillaplusjs.build.exceptions import BuildException
 from vanillaplusjs.build.file_signature import get_file_signature
+from vanillaplusjs.build.handlers.hash import calculate_hash
 from vanillaplusjs.build.html.manips.images.command import ImageCommand
 from vanillaplusjs.build.html.manips.images.resolutions import yield_sizes
 from vanillaplusjs.build.html.manips.images.settings import (
@@ -159,7 +161,10 @@ def export_command(
     )
     produced.append(lock_file)
 
-    image = Image.open(os.path.join(context.public_folder, path_relative_to_public))
+    source_path = os.path.join(context.public_folder, path_relative_to_public)
+    source_signature = get_file_signature(source_path)
+
+    image = Image.open(source_path)
     image_width = image.width
     image_height = image.height
     image.close()
@@ -170,6 +175,9 @@ def export_command(
     ) as f:
         contents_hash = f.read()
 
+    if calculate_hash(source_path) != contents_hash:
+        raise BuildException(f"{path_relative_to_root} changed while being exported")
+
     settings_hash = hash_image_settings(context.image_settings)
     source = ImageSource(
         path=path_relative_to_root,
@@ -299,6 +307,10 @@ def export_command(
 
             produced.append(out_path_relative_to_root)
 
+    # the metadata vouches for the exports being of the image with this hash
+    if get_file_signature(source_path) != source_signature:
+        raise BuildException(f"{path_relative_to_root} changed while being exported")
+
     metadata = ImageMetadata(
         settings_hash=settings_hash,
         source=source,
-- 
2.43.0


From a5fad2af5aea335b2940323b049cf3b3de5dec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 26/37] fix: rebuild importers of images.js files whose json
 vanished during a build

---
 vanillaplusjs/build/handlers/image_glue.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index 354f04a..791c75f 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -204,10 +204,7 @@ def get_generators(context: BuildContext, relpath: str) -> List[str]:
     """The files which what is served for the given `*.images.js` file is generated
     from; those who import it find this out through it.
     """
-    generator = relpath[: -len(".js")] + ".json"
-    if not os.path.exists(os.path.join(context.folder, generator)):
-        return []
-    return [generator]
+    return [relpath[: -len(".js")] + ".json"]
 
 
 def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
-- 
2.43.0


From 13a2bed977459d53d14898c3382b684892e26b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 27/37] fix: never remove the folder a development server runs
 in

A server started by dev has out/www as its working directory and serves from
it: once removed it served nothing anymore, even if the folder was recreated.
---
 vanillaplusjs/build/hot_incremental_rebuild.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 5bcfd83..fc0c463 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -696,10 +696,18 @@ def discard_incomplete_build(context: BuildContext) -> None:
     logger.info("The last build did not finish, rebuilding everything")
     # outputs before graphs, and the marker is left for the end of the next build:
     # if we are interrupted ourselves we simply do this again
+    # a server might be running in the public folder, so that has to stay
+    www_folder = os.path.join(context.out_folder, "www")
     try:
-        shutil.rmtree(os.path.join(context.out_folder, "www"))
+        leftovers = os.listdir(www_folder)
     except FileNotFoundError:
-        pass
+        leftovers = []
+    for filename in leftovers:
+        path = os.path.join(www_folder, filename)
+        if os.path.isdir(path) and not os.path.islink(path):
+            shutil.rmtree(path)
+        else:
+            os.unlink(path)
 
     for path in (
         context.dependency_graph_file,
@@ -737,9 +745,11 @@ def find_files_to_rebuild(
 
 def remove_empty_folders(context: BuildContext, folders: Iterable[str]) -> None:
     """Removes those of the given folders, which are relative to the project root,
-    that are empty.
+    that are empty. A server might be running in the public folder, so that stays.
     """
     for folder_relpath in sorted(folders, key=lambda s: -len(s)):
+        if folder_relpath == os.path.join("out", "www"):
+            continue
         folder = os.path.join(context.folder, folder_relpath)
         try:
             scandir_iter = os.scandir(folder)
-- 
2.43.0


From cfe410caf9fd2b27db48cb8b7d9c65742b31b0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 28/37] fix: end run and dev when the server cannot start or
 dies

They waited forever for a server that was never going to be started, or kept
waiting for an interrupt after it was gone.
---
 vanillaplusjs/http_server.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/vanillaplusjs/http_server.py b/vanillaplusjs/http_server.py
index 2b4c5c5..8aa958f 100644
--- a/vanillaplusjs/http_server.py
+++ b/vanillaplusjs/http_server.py
@@ -3,6 +3,7 @@ will serve files
 """
 import contextlib
 import threading
+from loguru import logger
 import uvicorn
 from starlette.applications import Starlette
 from starlette.routing import Mount
@@ -24,8 +25,9 @@ mimetypes.add_type("image/webp", ".webp")
 
 @contextlib.contextmanager
 def host_static_files(folder: str, host: str, port: int):
-    """Starts a uvicorn server in a separate thread, yields None, and
-    then shuts down the server.
+    """Starts a uvicorn server in a separate thread, yields that thread, and
+    then shuts down the server. The thread is not alive anymore if the server
+    could not be started, for instance since the port is in use, or failed.
 
     https://github.com/encode/uvicorn/discussions/1103
     """
@@ -42,9 +44,9 @@ def host_static_files(folder: str, host: str, port: int):
     thread.daemon = True
     thread.start()
     try:
-        while not server.started:
+        while not server.started and thread.is_alive():
             time.sleep(1e-3)
-        yield
+        yield thread
     finally:
         server.should_exit = True
         thread.join()
@@ -54,7 +56,10 @@ def host_static_files_with_event(
     folder: str, host: str, port: int, event: threading.Event
 ):
     """Hosts static files in the given server via the given host and port
-    until the given event is set.
+    until the given event is set or the server stops on its own.
     """
-    with host_static_files(folder, host, port):
-        event.wait()
+    with host_static_files(folder, host, port) as thread:
+        while not event.wait(0.1):
+            if not thread.is_alive():
+                logger.error("The server failed")
+                break
-- 
2.43.0


From 679fac1641d8f1516fcb491d72ef8683511dd86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 29/37] fix: make dev --watch catch up with every change

Edits made during the initial build, before files were watched, were never
noticed; moved and deleted folders, and events which were netted into nothing or
were about files that had changed again since, left outputs stale or made every
further rebuild fail; a configuration that could not be read ended the server.
Events now only determine when to look for changes, and which files are
considered changed whatever their signature says.
---
 .../build/cold_incremental_rebuild.py         |   8 +-
 vanillaplusjs/runners/dev.py                  | 181 ++++++------------
 2 files changed, 65 insertions(+), 124 deletions(-)

diff --git a/vanillaplusjs/build/cold_incremental_rebuild.py b/vanillaplusjs/build/cold_incremental_rebuild.py
index a96a880..56fb155 100644
--- a/vanillaplusjs/build/cold_incremental_rebuild.py
+++ b/vanillaplusjs/build/cold_incremental_rebuild.py
@@ -15,7 +15,7 @@ from .file_signature import FileSignature, get_file_signature
 from .hot_incremental_rebuild import hot_incremental_rebuild
 from loguru import logger
 import os
-from typing import Dict, Set, List
+from typing import Collection, Dict, Set, List
 import concurrent.futures
 import hashlib
 from base64 import b64encode
@@ -29,6 +29,7 @@ async def cold_incremental_rebuild(
     old_dependency_graph: FileDependencyGraph,
     old_output_graph: FileDependencyGraph,
     old_placeholders_graph: FileDependencyGraph,
+    touched_files: Collection[str] = frozenset(),
 ) -> None:
     """Builds the given folder, skipping the standard sanity checks to
     see if the folder has the correct structure.
@@ -57,6 +58,9 @@ async def cold_incremental_rebuild(
             in which case we remove the placeholder dependency, effectively
             "upgrading" it, which is not usually desirable but the only logical
             thing to do.
+        touched_files (Collection[str]):
+            Files, relative to the folder, which are considered changed if they
+            exist even if their signatures are the same as in the old build.
     """
     logger.debug(
         'Starting cold start incremental rebuild on "{}"',
@@ -92,7 +96,7 @@ async def cold_incremental_rebuild(
             signature = get_file_signature(os.path.join(context.folder, relpath))
             if relpath in old_dependency_graph:
                 relpaths_deleted.discard(relpath)
-                if not old_dependency_graph.check_file(
+                if relpath in touched_files or not old_dependency_graph.check_file(
                     relpath, signature.filesize, signature.mtime, signature.inode
                 ):
                     relpaths_changed[relpath] = signature
diff --git a/vanillaplusjs/runners/dev.py b/vanillaplusjs/runners/dev.py
index b4282b6..86429e6 100644
--- a/vanillaplusjs/runners/dev.py
+++ b/vanillaplusjs/runners/dev.py
@@ -4,21 +4,18 @@ from vanillaplusjs.build.build_context import (
     load_external_files,
     load_js_constants,
 )
-from vanillaplusjs.build.css.manips.icons.settings import load_icon_settings
-from vanillaplusjs.build.file_signature import get_file_signature
+from vanillaplusjs.build.cold_incremental_rebuild import cold_incremental_rebuild
 from vanillaplusjs.build.graph import FileDependencyGraph
-from vanillaplusjs.build.hot_incremental_rebuild import hot_incremental_rebuild
+from vanillaplusjs.build.hot_incremental_rebuild import discard_incomplete_build
 from vanillaplusjs.build.html.manips.images.settings import load_image_settings
 from .build import build, detect_symlink_support
+from .clean import remove_out
 from .run import run_server
 import argparse
 from watchdog.observers import Observer
 from watchdog.events import (
+    FileSystemEvent,
     FileSystemEventHandler,
-    FileModifiedEvent,
-    FileMovedEvent,
-    FileDeletedEvent,
-    FileCreatedEvent,
 )
 from vanillaplusjs.http_server import host_static_files_with_event
 import os
@@ -29,7 +26,6 @@ import threading
 import time
 import json
 import asyncio
-import shutil
 
 
 def main(args: Sequence[str]):
@@ -99,7 +95,7 @@ def dev(folder: str, host: str, port: int, watch: bool, debounce: int) -> None:
         logger.exception(
             "During first build, will retry with fresh easy-to-regenerate files"
         )
-        shutil.rmtree(os.path.join(folder, "out"))
+        remove_out(BuildContext(folder, dev=True, symlinks=False))
         build(folder=folder, dev=True, symlinks=None, delay_files=[])
 
     if not watch:
@@ -107,6 +103,7 @@ def dev(folder: str, host: str, port: int, watch: bool, debounce: int) -> None:
 
     abs_cwd = os.path.abspath(os.getcwd())
     abs_folder = os.path.abspath(folder)
+    symlinks = detect_symlink_support()
     os.chdir(os.path.join(folder, "out", "www"))
     try:
         logger.info(f"Running server on {host}:{port}")
@@ -133,7 +130,7 @@ def dev(folder: str, host: str, port: int, watch: bool, debounce: int) -> None:
         event_handler = DevEventHandler(
             folder=abs_folder,
             debounce_seconds=debounce / 1000,
-            symlinks=detect_symlink_support(),
+            symlinks=symlinks,
         )
         observer = Observer()
         observer.schedule(
@@ -161,7 +158,7 @@ def dev(folder: str, host: str, port: int, watch: bool, debounce: int) -> None:
 
 class DevEventHandler(FileSystemEventHandler):
     """Handles file system events from watchdog; when we receive an event
-    we will perform a hot incremental rebuild. This will debounce the changes
+    we will look for changes and rebuild. This will debounce the changes
     for some period of time, so that if many files are being changed at once
     (such as when doing a big find and replace), we only rebuild once.
     """
@@ -181,45 +178,59 @@ class DevEventHandler(FileSystemEventHandler):
         False if the last build succeeded or there have been changes since"""
 
         self.lock = threading.RLock()
-        """The lock for the deleted/changed/created/last_change_at/unbuildable variables."""
+        """The lock for the touched/rescan/last_change_at/unbuildable variables."""
 
-        self.deleted_files: Set[str] = set()
-        self.changed_files: Set[str] = set()
-        self.created_files: Set[str] = set()
-        self.last_change_at = time.time()
+        self.touched_files: Set[str] = set()
+        """The files there were events for since the last successful rebuild started"""
+
+        self.rescan_required = True
+        """True if there might be changes which are not in out/www yet. Initially
+        true since files might have been changed during the initial build, before
+        we started watching."""
+
+        self.last_change_at = time.monotonic()
 
     def rebuild_if_appropriate(self):
         """Rebuilds the project if it's appropriate to do so."""
         with self.lock:
-            now = time.time()
             if self.project_is_unbuildable:
                 return
-            if (
-                not self.deleted_files
-                and not self.changed_files
-                and not self.created_files
-            ):
+            if not self.rescan_required:
                 return
-            if now - self.last_change_at < self.debounce_seconds:
+            if time.monotonic() - self.last_change_at < self.debounce_seconds:
                 return
 
-            deleted = self.deleted_files.copy()
-            changed = self.changed_files.copy()
-            created = self.created_files.copy()
-
-            self.deleted_files.clear()
-            self.changed_files.clear()
-            self.created_files.clear()
+            touched = self.touched_files
+            self.touched_files = set()
+            self.rescan_required = False
 
         logger.info("Rebuilding...")
 
+        try:
+            self.rebuild(touched)
+        except Exception:
+            logger.exception("Error rebuilding")
+            with self.lock:
+                self.touched_files.update(touched)
+                self.project_is_unbuildable = not self.rescan_required
+                self.rescan_required = True
+
+    def rebuild(self, touched: Set[str]) -> None:
+        """Rebuilds everything which is out of date.
+
+        Events may be late, missing, or in another order than the changes they are
+        about, so they only determine when we look for changes.
+
+        Args:
+            touched (set[str]): The files which are rebuilt, if they exist, even if
+                they do not seem to have changed.
+        """
         context = BuildContext(self.folder, dev=True, symlinks=self.symlinks)
 
         with open(context.config_file) as f:
             config = json.load(f)
 
         context.host = config["host"]
-        context.icon_settings = load_icon_settings(context)
         context.image_settings = load_image_settings(config["images"])
         context.auto_generate_images_js_placeholders = config[
             "auto_generate_images_js_placeholders"
@@ -228,6 +239,8 @@ class DevEventHandler(FileSystemEventHandler):
         context.js_constants = load_js_constants(config["js_constants"])
         context.delay_files = []
 
+        discard_incomplete_build(context)
+
         old_dependency_graph = FileDependencyGraph()
         old_output_graph = FileDependencyGraph()
         old_placeholder_graph = FileDependencyGraph()
@@ -244,42 +257,20 @@ class DevEventHandler(FileSystemEventHandler):
             with open(context.placeholder_graph_file) as f:
                 old_placeholder_graph = FileDependencyGraph.load(f)
 
-        changed_files = dict(
-            (os.path.relpath(file, self.folder), get_file_signature(file))
-            for file in changed
-        )
-
-        added_files = dict(
-            (os.path.relpath(file, self.folder), get_file_signature(file))
-            for file in created
-        )
-
-        deleted_files = list(os.path.relpath(file, self.folder) for file in deleted)
-
-        if changed_files:
-            for file, signature in changed_files.items():
-                logger.debug(f"{file} changed: {signature}")
-
-        if added_files:
-            for file, signature in added_files.items():
-                logger.debug(f"{file} added: {signature}")
-
-        if deleted_files:
-            for file in deleted_files:
-                logger.debug(f"{file} deleted")
+        touched_relpaths = set(os.path.relpath(file, self.folder) for file in touched)
+        for relpath in sorted(touched_relpaths):
+            logger.debug(f"{relpath} touched")
 
         loop = asyncio.new_event_loop()
         asyncio.set_event_loop(loop)
         try:
             loop.run_until_complete(
-                hot_incremental_rebuild(
+                cold_incremental_rebuild(
                     context,
                     old_dependency_graph,
                     old_output_graph,
                     old_placeholder_graph,
-                    changed_files,
-                    added_files,
-                    deleted_files,
+                    touched_relpaths,
                 )
             )
 
@@ -289,74 +280,20 @@ class DevEventHandler(FileSystemEventHandler):
                     asyncio.wait(pending, return_when=asyncio.ALL_COMPLETED)
                 )
                 pending = asyncio.all_tasks(loop)
-
-            with self.lock:
-                self.project_is_unbuildable = False
-        except Exception:
-            logger.exception("Error rebuilding")
-            with self.lock:
-                for file in changed:
-                    if os.path.lexists(file):
-                        if file not in self.created_files:
-                            self.changed_files.add(file)
-                        if file in self.deleted_files:
-                            self.deleted_files.remove(file)
-                for file in created:
-                    if os.path.lexists(file):
-                        if file not in self.changed_files:
-                            self.created_files.add(file)
-                        if file in self.deleted_files:
-                            self.deleted_files.remove(file)
-                for file in deleted:
-                    if not os.path.lexists(file):
-                        if file in self.changed_files:
-                            self.changed_files.remove(file)
-                        if file in self.created_files:
-                            self.created_files.remove(file)
-                        self.deleted_files.add(file)
-                self.project_is_unbuildable = True
         finally:
             asyncio.set_event_loop(None)
             loop.close()
 
-    def on_modified(self, event: FileModifiedEvent):
-        if event.is_directory:
+    def on_any_event(self, event: FileSystemEvent):
+        if event.event_type not in ("modified", "created", "deleted", "moved"):
+            return  # we open and read the files ourselves
+        if event.is_directory and event.event_type == "modified":
             return
         with self.lock:
-            if event.src_path not in self.created_files:
-                self.changed_files.add(event.src_path)
+            if not event.is_directory:
+                self.touched_files.add(event.src_path)
+                if event.event_type == "moved":
+                    self.touched_files.add(event.dest_path)
+            self.rescan_required = True
             self.project_is_unbuildable = False
-            self.last_change_at = time.time()
-
-    def on_created(self, event: FileCreatedEvent):
-        if event.is_directory:
-            return
-        with self.lock:
-            if event.src_path in self.deleted_files:
-                self.deleted_files.remove(event.src_path)
-                self.changed_files.add(event.src_path)
-            else:
-                self.created_files.add(event.src_path)
-            self.project_is_unbuildable = False
-            self.last_change_at = time.time()
-
-    def on_deleted(self, event: FileDeletedEvent):
-        if event.is_directory:
-            return
-        with self.lock:
-            if event.src_path in self.changed_files:
-                self.changed_files.remove(event.src_path)
-                self.deleted_files.add(event.src_path)
-            elif event.src_path in self.created_files:
-                self.created_files.remove(event.src_path)
-            else:
-                self.deleted_files.add(event.src_path)
-            self.project_is_unbuildable = False
-            self.last_change_at = time.time()
-
-    def on_moved(self, event: FileMovedEvent):
-        if event.is_directory:
-            return
-        with self.lock:
-            self.on_deleted(FileDeletedEvent(event.src_path))
-            self.on_created(FileCreatedEvent(event.dest_path))
+            self.last_change_at = time.monotonic()
-- 
2.43.0


From e6b37aeedffdcf37ad5db616c8f7d3e727158c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 30/37] fix: fail when a folder with sources cannot be listed

Its files were taken for deleted: builds succeeded without them, and clean left
placeholders behind.
---
 vanillaplusjs/build/cold_incremental_rebuild.py | 10 ++++++++--
 vanillaplusjs/build/ioutil.py                   |  8 ++++++++
 vanillaplusjs/runners/clean.py                  |  5 ++++-
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/cold_incremental_rebuild.py b/vanillaplusjs/build/cold_incremental_rebuild.py
index 56fb155..5a3d9dc 100644
--- a/vanillaplusjs/build/cold_incremental_rebuild.py
+++ b/vanillaplusjs/build/cold_incremental_rebuild.py
@@ -9,7 +9,11 @@ from vanillaplusjs.build.build_context import (
 )
 from vanillaplusjs.build.css.manips.icons.settings import load_icon_settings
 from vanillaplusjs.build.exceptions import IntegrityMismatchException
-from vanillaplusjs.build.ioutil import makedirs_safely, write_atomically
+from vanillaplusjs.build.ioutil import (
+    makedirs_safely,
+    raise_unless_missing,
+    write_atomically,
+)
 from .graph import FileDependencyGraph
 from .file_signature import FileSignature, get_file_signature
 from .hot_incremental_rebuild import hot_incremental_rebuild
@@ -90,7 +94,9 @@ async def cold_incremental_rebuild(
     #   of the work is listing the files, and we don't know what prefixes
     #   are heavy before starting.
 
-    for (dirpath, _, filenames) in os.walk(context.src_folder):
+    for (dirpath, _, filenames) in os.walk(
+        context.src_folder, onerror=raise_unless_missing
+    ):
         for filename in filenames:
             relpath = os.path.relpath(os.path.join(dirpath, filename), context.folder)
             signature = get_file_signature(os.path.join(context.folder, relpath))
diff --git a/vanillaplusjs/build/ioutil.py b/vanillaplusjs/build/ioutil.py
index aaac9f3..512c6a4 100644
--- a/vanillaplusjs/build/ioutil.py
+++ b/vanillaplusjs/build/ioutil.py
@@ -240,3 +240,11 @@ def write_atomically(path: str, contents: str) -> None:
     with open(temp_path, "w") as f:
         f.write(contents)
     os.replace(temp_path, path)
+
+
+def raise_unless_missing(error: OSError) -> None:
+    """For os.walk: raises the error of a folder that could not be listed, rather
+    than treating it as empty, unless the folder itself has just been deleted.
+    """
+    if not isinstance(error, FileNotFoundError):
+        raise error
diff --git a/vanillaplusjs/runners/clean.py b/vanillaplusjs/runners/clean.py
index 1e8b816..dab61c4 100644
--- a/vanillaplusjs/runners/clean.py
+++ b/vanillaplusjs/runners/clean.py
@@ -6,6 +6,7 @@ import sys
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.handlers.image_glue import PLACEHOLDER_FILE
 from vanillaplusjs.build.hot_incremental_rebuild import mark_build_incomplete
+from vanillaplusjs.build.ioutil import raise_unless_missing
 
 
 def main(args: Sequence[str]):
@@ -83,7 +84,9 @@ def find_placeholders(folder: str) -> List[str]:
         List[str]: The placeholders, relative to the folder
     """
     result: List[str] = []
-    for dirpath, _, filenames in os.walk(os.path.join(folder, "src", "public")):
+    for dirpath, _, filenames in os.walk(
+        os.path.join(folder, "src", "public"), onerror=raise_unless_missing
+    ):
         for filename in sorted(filenames):
             if not filename.endswith(".images.json"):
                 continue
-- 
2.43.0


From 69ae8a242da6204388ce52c12e3674e25b84589d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:21 +0000
Subject: [PATCH 31/37] fix: notice constants that are removed while a build in
 the other mode starts

---
 vanillaplusjs/build/hot_incremental_rebuild.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index fc0c463..d702db3 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -89,7 +89,14 @@ async def hot_incremental_rebuild(
     )
 
     mode_to_store: Optional[Literal["dev", "prod"]] = None
-    if os.path.exists(os.path.join(context.folder, context.js_constants.relpath)):
+    # when it was removed after we looked for changes then its outputs are still there
+    constants_are_known = (
+        context.js_constants.relpath in old_dependency_graph
+        and context.js_constants.relpath not in deleted_files
+    )
+    if constants_are_known or os.path.exists(
+        os.path.join(context.folder, context.js_constants.relpath)
+    ):
         current_mode: Literal["dev", "prod"] = "dev" if context.dev else "prod"
         old_constants_mode = None
         try:
-- 
2.43.0


From 8bcb28794eab714251fceefcf91517d5f8d0f223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:30 +0000
Subject: [PATCH 32/37] fix: do not fail on buttons for single icons when there
 is no default button

---
 .../build/css/manips/icons/settings.py        | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/settings.py b/vanillaplusjs/build/css/manips/icons/settings.py
index a29444d..90d80cf 100644
--- a/vanillaplusjs/build/css/manips/icons/settings.py
+++ b/vanillaplusjs/build/css/manips/icons/settings.py
@@ -60,12 +60,13 @@ def load_icon_settings(context: BuildContext) -> IconSettings:
     with open(context.config_file, "r") as f:
         config: dict = json.load(f)
 
+    base_button = ButtonSetting(
+        active_color="primary",
+        hover_color="primary-dark",
+        disabled_color="disabled",
+    )
     button_settings: ButtonSettings = ButtonSettings(
-        default_button=ButtonSetting(
-            active_color="primary",
-            hover_color="primary-dark",
-            disabled_color="disabled",
-        ),
+        default_button=base_button,
         button_by_identifier=dict(),
     )
     icons: Optional[dict] = config.get("icons")
@@ -108,15 +109,17 @@ def load_icon_settings(context: BuildContext) -> IconSettings:
                 button_settings, button_by_identifier=dict()
             )
         else:
+            if button_settings.default_button is not None:
+                base_button = button_settings.default_button
             for button_identifier, button_config in button_by_identifier.items():
                 active_color: Optional[str] = button_config.get(
-                    "active_color", button_settings.default_button.active_color
+                    "active_color", base_button.active_color
                 )
                 hover_color: Optional[str] = button_config.get(
-                    "hover_color", button_settings.default_button.hover_color
+                    "hover_color", base_button.hover_color
                 )
                 disabled_color: Optional[str] = button_config.get(
-                    "disabled_color", button_settings.default_button.disabled_color
+                    "disabled_color", base_button.disabled_color
                 )
                 if (
                     active_color is not None
-- 
2.43.0


From 237f978d83d200400b7e15b4c14f27bb418360d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:38 +0000
Subject: [PATCH 33/37] fix: wait for images.js files without placeholders
 before building their importers

---
 vanillaplusjs/build/handlers/image_glue.py     |  5 +++++
 vanillaplusjs/build/hot_incremental_rebuild.py | 18 ++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index 791c75f..0543a7b 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -200,6 +200,11 @@ def get_image_paths(data: dict) -> List[str]:
     )
 
 
+def is_images_js(context: BuildContext, relpath: str) -> bool:
+    """If what is served for the given file is generated by this handler"""
+    return handles_file(context, relpath) and relpath.endswith(".images.js")
+
+
 def get_generators(context: BuildContext, relpath: str) -> List[str]:
     """The files which what is served for the given `*.images.js` file is generated
     from; those who import it find this out through it.
diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index d702db3..ed860e5 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -6,6 +6,7 @@ from vanillaplusjs.build.exceptions import (
     CyclicDependencyException,
 )
 from vanillaplusjs.build.file_signature import FileSignature, get_file_signature
+from vanillaplusjs.build.handlers.image_glue import get_generators, is_images_js
 from vanillaplusjs.build.ioutil import makedirs_safely
 from vanillaplusjs.build.scan_file import scan_file
 from vanillaplusjs.build.scan_file_result import ScanFileResult
@@ -219,6 +220,7 @@ async def hot_incremental_rebuild(
                     dep_relpath.startswith(prefix) for prefix in ("out", "artifacts")
                 ):
                     new_dependencies.add(dep_relpath)
+                    new_dependencies.update(get_stand_ins(context, dep_relpath))
                     continue
 
                 if dep_relpath in scan_result.produces:
@@ -459,6 +461,11 @@ async def hot_incremental_rebuild(
                                 )
                         else:
                             reinterpreted_children.append(child)
+                            reinterpreted_children.extend(
+                                stand_in
+                                for stand_in in get_stand_ins(context, child)
+                                if stand_in not in rebuild_result.children
+                            )
                     rebuild_result.children = reinterpreted_children
 
                     updated_results[pending_file] = rebuild_result
@@ -673,6 +680,17 @@ async def hot_incremental_rebuild(
         logger.info('"{}" rebuilt successfully', context.folder)
 
 
+def get_stand_ins(context: BuildContext, relpath: str) -> List[str]:
+    """The files which what is served in place of the given source is generated
+    from, when there is no such source: a `*.images.js` without a placeholder.
+    """
+    if not is_images_js(context, relpath) or os.path.lexists(
+        os.path.join(context.folder, relpath)
+    ):
+        return []
+    return get_generators(context, relpath)
+
+
 def mark_build_incomplete(context: BuildContext) -> None:
     """Records that the out folder is about to be changed, and hence that the
     graphs cannot be trusted until `build_incomplete_file` is removed again.
-- 
2.43.0


From ba3c1fb6d0b66c65aac750b66e62c24919c2e198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:46 +0000
Subject: [PATCH 34/37] fix: make the counter of an image again when cleaning
 was interrupted after it

---
 .../build/html/manips/images/metadata.py          | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index 57c95d5..1758c29 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -389,9 +389,24 @@ def get_or_reserve_target(
         target_id = get_target(context, relpath, target)
         if target_id is None:
             target_id = reserve_target(context, relpath, target)
+        else:
+            ensure_counter_exists(context, relpath, target_id)
         return target_id
 
 
+def ensure_counter_exists(
+    context: BuildContext, relpath: str, target_id: int
+) -> None:
+    """Makes the counter again if it was cleaned without all of the folders that
+    it counts, which happens when cleaning is interrupted. The lock must be held.
+    """
+    counter_path = os.path.join(
+        context.artifacts_folder, os.path.splitext(relpath)[0], "counter.txt"
+    )
+    if not os.path.exists(counter_path):
+        write_atomically(counter_path, str(target_id))
+
+
 def hash_image_settings(settings: ImageSettings) -> int:
     """Produces a stable hash for the given image settings."""
     prime = 31
-- 
2.43.0


From f5889a154ccf0b96524017ba75d973138c4302c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:18 +0000
Subject: [PATCH 35/37] fix: do not follow a link to a folder which could not
 be examined

---
 vanillaplusjs/build/cold_incremental_rebuild.py |  6 ++----
 vanillaplusjs/build/ioutil.py                   | 17 ++++++++++++++++-
 vanillaplusjs/runners/clean.py                  |  6 ++----
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/vanillaplusjs/build/cold_incremental_rebuild.py b/vanillaplusjs/build/cold_incremental_rebuild.py
index 5a3d9dc..961972e 100644
--- a/vanillaplusjs/build/cold_incremental_rebuild.py
+++ b/vanillaplusjs/build/cold_incremental_rebuild.py
@@ -11,7 +11,7 @@ from vanillaplusjs.build.css.manips.icons.settings import load_icon_settings
 from vanillaplusjs.build.exceptions import IntegrityMismatchException
 from vanillaplusjs.build.ioutil import (
     makedirs_safely,
-    raise_unless_missing,
+    walk,
     write_atomically,
 )
 from .graph import FileDependencyGraph
@@ -94,9 +94,7 @@ async def cold_incremental_rebuild(
     #   of the work is listing the files, and we don't know what prefixes
     #   are heavy before starting.
 
-    for (dirpath, _, filenames) in os.walk(
-        context.src_folder, onerror=raise_unless_missing
-    ):
+    for dirpath, _, filenames in walk(context.src_folder):
         for filename in filenames:
             relpath = os.path.relpath(os.path.join(dirpath, filename), context.folder)
             signature = get_file_signature(os.path.join(context.folder, relpath))
diff --git a/vanillaplusjs/build/ioutil.py b/vanillaplusjs/build/ioutil.py
index 512c6a4..51dea46 100644
--- a/vanillaplusjs/build/ioutil.py
+++ b/vanillaplusjs/build/ioutil.py
@@ -2,7 +2,7 @@
 """
 
 
-from typing import Optional
+from typing import Iterator, List, Optional, Tuple
 import re
 from io import TextIOBase
 import time
@@ -248,3 +248,18 @@ def raise_unless_missing(error: OSError) -> None:
     """
     if not isinstance(error, FileNotFoundError):
         raise error
+
+
+def walk(folder: str) -> Iterator[Tuple[str, List[str], List[str]]]:
+    """os.walk, except that an entry which cannot be examined is an error, whereas
+    os.walk ignores folders it cannot list and follows links it cannot examine.
+    """
+    for dirpath, dirnames, filenames in os.walk(folder, onerror=raise_unless_missing):
+        yield dirpath, dirnames, filenames
+        for dirname in list(dirnames):
+            try:
+                mode = os.lstat(os.path.join(dirpath, dirname)).st_mode
+            except FileNotFoundError:
+                continue
+            if stat.S_ISLNK(mode):
+                dirnames.remove(dirname)
diff --git a/vanillaplusjs/runners/clean.py b/vanillaplusjs/runners/clean.py
index dab61c4..8961da6 100644
--- a/vanillaplusjs/runners/clean.py
+++ b/vanillaplusjs/runners/clean.py
@@ -6,7 +6,7 @@ import sys
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.handlers.image_glue import PLACEHOLDER_FILE
 from vanillaplusjs.build.hot_incremental_rebuild import mark_build_incomplete
-from vanillaplusjs.build.ioutil import raise_unless_missing
+from vanillaplusjs.build.ioutil import walk
 
 
 def main(args: Sequence[str]):
@@ -84,9 +84,7 @@ def find_placeholders(folder: str) -> List[str]:
         List[str]: The placeholders, relative to the folder
     """
     result: List[str] = []
-    for dirpath, _, filenames in os.walk(
-        os.path.join(folder, "src", "public"), onerror=raise_unless_missing
-    ):
+    for dirpath, _, filenames in walk(os.path.join(folder, "src", "public")):
         for filename in sorted(filenames):
             if not filename.endswith(".images.json"):
                 continue
-- 
2.43.0


From 67fe1c2edd916e59436c9d69b16fb827ed61b37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:18 +0000
Subject: [PATCH 36/37] fix: remove the files of the symlink test even if they
 cannot be examined

---
 vanillaplusjs/runners/build.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/runners/build.py b/vanillaplusjs/runners/build.py
index 51fe862..e97df9f 100644
--- a/vanillaplusjs/runners/build.py
+++ b/vanillaplusjs/runners/build.py
@@ -200,6 +200,8 @@ def detect_symlink_support() -> bool:
         logger.debug("Symlinks disabled (unsupported)")
         return False
     finally:
-        if os.path.exists("___symlink_test___2.txt"):
-            os.remove("___symlink_test___2.txt")
-        os.remove("___symlink_test___.txt")
+        for path in ("___symlink_test___2.txt", "___symlink_test___.txt"):
+            try:
+                os.remove(path)
+            except FileNotFoundError:
+                pass
-- 
2.43.0


From 8bcb98f83dac11e09fe5f100ece0407d08016e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:23 +0000
Subject: [PATCH 37/37] fix: fail when an image disappears while a page with it
 is being built

If it was put back right afterwards it looked just like before, and the page
without it was never built again.
---
 vanillaplusjs/build/build_file_result.py      |  7 ++++++-
 vanillaplusjs/build/handlers/html.py          |  7 ++++++-
 vanillaplusjs/build/handlers/image_glue.py    | 21 ++++++++++++++-----
 .../build/hot_incremental_rebuild.py          | 12 +++++++++++
 .../build/html/manips/images/command.py       | 13 ++++++++++--
 .../build/html/manips/images/manip.py         |  7 ++++++-
 6 files changed, 57 insertions(+), 10 deletions(-)

diff --git a/vanillaplusjs/build/build_file_result.py b/vanillaplusjs/build/build_file_result.py
index 0f4e435..8743b66 100644
--- a/vanillaplusjs/build/build_file_result.py
+++ b/vanillaplusjs/build/build_file_result.py
@@ -1,4 +1,4 @@
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from typing import List
 
 
@@ -20,3 +20,8 @@ class BuildFileResult:
     """The relative paths (to the project root) of the files which we would have
     produced, but they were already available, so we did not produce them.
     """
+
+    missing: List[str] = field(default_factory=list)
+    """The relative paths (to the project root) of those children which we did
+    without since they did not exist.
+    """
diff --git a/vanillaplusjs/build/handlers/html.py b/vanillaplusjs/build/handlers/html.py
index 324f5dd..c6c9c30 100644
--- a/vanillaplusjs/build/handlers/html.py
+++ b/vanillaplusjs/build/handlers/html.py
@@ -90,6 +90,7 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     children = set()
     produced = set()
     reused = set()
+    missing = set()
 
     manips = manipulators(context, relpath, "build")
 
@@ -109,10 +110,14 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     for build_result in sub_build_results:
         children.update(build_result.children)
         produced.update(build_result.produced)
+        missing.update(build_result.missing)
         for itm in build_result.reused:
             if itm not in produced:
                 reused.add(itm)
 
     return BuildFileResult(
-        children=list(children), produced=list(produced), reused=list(reused)
+        children=list(children),
+        produced=list(produced),
+        reused=list(reused),
+        missing=list(missing),
     )
diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index 0543a7b..a01d780 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -75,7 +75,7 @@ type hints.
 """
 
 import dataclasses
-from typing import List, Set
+from typing import List, Optional, Set
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.html.manips.images.command import ImageCommand
@@ -225,9 +225,13 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     with open(os.path.join(context.folder, relpath), "r") as f:
         data = json.load(f)
 
-    if not sanity_check_images_json(context, data, relpath):
+    missing: Set[str] = set()
+    if not sanity_check_images_json(context, data, relpath, missing):
         return BuildFileResult(
-            children=get_image_paths(data), produced=[], reused=[]
+            children=get_image_paths(data),
+            produced=[],
+            reused=[],
+            missing=list(missing),
         )
 
     path_rel_to_public = relpath[
@@ -303,8 +307,13 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     )
 
 
-def sanity_check_images_json(context: BuildContext, data: dict, relpath: str) -> bool:
-    """Checks that the given data is a valid images json file."""
+def sanity_check_images_json(
+    context: BuildContext, data: dict, relpath: str, missing: Optional[Set[str]] = None
+) -> bool:
+    """Checks that the given data is a valid images json file. If that's not the
+    case because an image does not exist, its path relative to the project root is
+    added to `missing`.
+    """
     ctx = lambda: f"{relpath=}"
     if not isinstance(data, dict):
         logger.warning("[{}] not a dictionary", ctx(), relpath)
@@ -337,6 +346,8 @@ def sanity_check_images_json(context: BuildContext, data: dict, relpath: str) ->
 
         if not os.path.exists(os.path.join(context.folder, path_rel_to_root)):
             logger.warning("[{}] path {} does not exist", ctx(), path_rel_to_root)
+            if missing is not None:
+                missing.add(path_rel_to_root)
             return False
 
         try:
diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index ed860e5..1ede3c0 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -3,6 +3,7 @@ from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.build_file import build_file
 from vanillaplusjs.build.exceptions import (
+    BuildException,
     CyclicDependencyException,
 )
 from vanillaplusjs.build.file_signature import FileSignature, get_file_signature
@@ -417,6 +418,17 @@ async def hot_incremental_rebuild(
                     logger.debug("Finished rebuilding {}", pending_file)
                     rebuild_result: BuildFileResult = future.result()
 
+                    # it might be back, just as it was, and nobody would notice
+                    for file in rebuild_result.missing:
+                        if (file in changed_files or file in added_files) or (
+                            file in old_dependency_graph
+                            and not old_dependency_graph.nodes[file].is_missing()
+                            and file not in deleted_files
+                        ):
+                            raise BuildException(
+                                f"{file} disappeared while building {pending_file}"
+                            )
+
                     reinterpreted_children: List[str] = []
                     for child in rebuild_result.children:
                         if child in get_file_creates(pending_file):
diff --git a/vanillaplusjs/build/html/manips/images/command.py b/vanillaplusjs/build/html/manips/images/command.py
index e12ae75..0eaae6e 100644
--- a/vanillaplusjs/build/html/manips/images/command.py
+++ b/vanillaplusjs/build/html/manips/images/command.py
@@ -1,5 +1,5 @@
 from dataclasses import dataclass
-from typing import Literal
+from typing import Literal, Optional, Set
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.ioutil import PeekableTextIO
 import io
@@ -172,8 +172,15 @@ def parse_command(args: str) -> ImageCommand:
 
 
 def validate_command(
-    command: ImageCommand, context: BuildContext, command_file_path: str
+    command: ImageCommand,
+    context: BuildContext,
+    command_file_path: str,
+    missing: Optional[Set[str]] = None,
 ) -> bool:
+    """Determines if the command can be executed. If that's not the case because
+    the image does not exist, its path relative to the project root is added to
+    `missing`.
+    """
     path_relative_to_root = command.source_path_relative_to_root(
         context, command_file_path
     )
@@ -188,6 +195,8 @@ def validate_command(
             return False
         img.close()
     except FileNotFoundError:
+        if missing is not None:
+            missing.add(path_relative_to_root)
         return False
     except UnidentifiedImageError:
         return False
diff --git a/vanillaplusjs/build/html/manips/images/manip.py b/vanillaplusjs/build/html/manips/images/manip.py
index 2f55932..cf70978 100644
--- a/vanillaplusjs/build/html/manips/images/manip.py
+++ b/vanillaplusjs/build/html/manips/images/manip.py
@@ -40,6 +40,7 @@ class ImagesManipulator(HTMLManipulator):
         self.children: Optional[Set[str]] = set() if mode == "build" else None
         self.produced: Optional[Set[str]] = set() if mode == "build" else None
         self.reused: Optional[Set[str]] = set() if mode == "build" else None
+        self.missing: Optional[Set[str]] = set() if mode == "build" else None
 
     def start_mark(self, node: tkn.HTMLToken) -> bool:
         cmd = self._get_command(node)
@@ -130,7 +131,10 @@ class ImagesManipulator(HTMLManipulator):
             return None
 
         if not validate_command(
-            cmd, self.context, os.path.join(self.context.folder, self.relpath)
+            cmd,
+            self.context,
+            os.path.join(self.context.folder, self.relpath),
+            self.missing,
         ):
             # it may well become valid when the image is added or replaced
             path = cmd.source_path_relative_to_root(
@@ -154,4 +158,5 @@ class ImagesManipulator(HTMLManipulator):
             children=list(self.children),
             produced=list(self.produced),
             reused=list(self.reused),
+            missing=list(self.missing),
         )
-- 
2.43.0

