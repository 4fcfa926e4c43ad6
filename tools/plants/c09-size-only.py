PROPERTY = "C09"
NEEDS = "an external file whose contents are altered without changing its size"
BREAKS = "later builds only compare the size, so they succeed with bytes that do not have the configured digest"
EDITS = [("build/cold_incremental_rebuild.py", """    return new_signature == old_state.signature
""", """    return new_signature.filesize == old_state.signature.filesize
""")]
DEMO = '''
import hashlib, base64, http.server, threading
good = b"the contents"


class Handler(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        self.send_response(200)
        self.send_header("Content-Length", str(len(good)))
        self.end_headers()
        self.wfile.write(good)

    def log_message(self, *a):
        pass


srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
threading.Thread(target=srv.serve_forever, daemon=True).start()
digest = "sha384-" + base64.b64encode(hashlib.sha384(good).digest()).decode()
root = project("p", {"src/public/a.txt": "a"}, {"external_files": {
    "src/public/lib.js": {"url": f"http://127.0.0.1:{srv.server_port}/lib.js", "integrity": digest}}})
check(build(root) == 0, "first build")
write(root, "src/public/lib.js", good[::-1])
code = build(root)
with open(os.path.join(root, "src/public/lib.js"), "rb") as f:
    check(code != 0 or f.read() == good, "a build succeeds with an altered external file")
'''
