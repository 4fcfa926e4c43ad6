PROPERTY = "C15"
NEEDS = "an interrupt after the command announced that it serves but before its server thread was started"
BREAKS = "the interrupt is swallowed, so the command goes on serving instead of ending"
EDITS = [("runners/run.py", """        def handler(signal, frame):
            logger.info("Shutting down server...")
            shutdown_event.set()

        signal.signal(signal.SIGINT, handler)
        server_thread = threading.Thread(
            target=host_static_files_with_event,
            kwargs={
                "folder": ".",
                "host": host,
                "port": port,
                "event": shutdown_event,
            },
        )
        server_thread.daemon = True
        server_thread.start()
""", """        server_thread = threading.Thread(
            target=host_static_files_with_event,
            kwargs={
                "folder": ".",
                "host": host,
                "port": port,
                "event": shutdown_event,
            },
        )
        server_thread.daemon = True

        def handler(signal, frame):
            if server_thread.is_alive():
                logger.info("Shutting down server...")
                shutdown_event.set()

        signal.signal(signal.SIGINT, handler)
        server_thread.start()
""")]
DEMO = '''
import signal
import threading
root = project("p", {"src/public/index.html": "<!DOCTYPE html><html><head></head><body></body></html>"})
check(build(root) == 0, "build")


def go():
    import socket
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    port = s.getsockname()[1]
    s.close()
    start = threading.Thread.start
    sent = []

    def interrupting(self):
        if not sent:
            sent.append(1)
            os.kill(os.getpid(), signal.SIGINT)
            time.sleep(0.2)
        start(self)
    threading.Thread.start = interrupting
    from vanillaplusjs.runners import run as r
    try:
        r.main(["--folder", root, "--host", "127.0.0.1", "--port", str(port)])
    except KeyboardInterrupt:
        pass


check(run(go, 20) is not None, "run is still serving long after it was interrupted")
'''
