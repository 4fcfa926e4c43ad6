PROPERTY = "C18"
NEEDS = "files which depend on each other in a circle, beside others which can be built"
BREAKS = "the circle is only noticed when nothing at all could be built, otherwise the build never ends"
EDITS = [("build/hot_incremental_rebuild.py", """            if not rebuildable_files and not pending_results:
                logger.error""", """            if not updated_results and not rebuildable_files and not pending_results:
                logger.error"""), ("build/hot_incremental_rebuild.py", """            await asyncio.wait(
                pending_results.values(), return_when=asyncio.FIRST_COMPLETED
            )
            for""", """            await asyncio.sleep(0.005)
            for""")]
DEMO = '''
root = project("p", {"src/public/js/a.js": "import '/js/b.js';\\n", "src/public/js/b.js": "import '/js/a.js';\\n",
                     "src/public/c.txt": "c"})
code = build(root, timeout=30)
check(code is not None, "the build does not end")
check(code != 0, "no error")
'''
