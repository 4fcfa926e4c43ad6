"""The web-server seam: uvicorn.Server without sockets."""
from . import kernel as K
from . import world as W


def install():
    import uvicorn

    class SimServer:
        """Start-up takes time, may fail the way uvicorn fails (it logs and
        calls sys.exit in its thread), and it stops when asked to."""

        def __init__(self, config):
            self.config = config
            self.started = False
            self.should_exit = False
            self.force_exit = False
            self.w = W.current()
            self.stopped = False
            self.proc = K.current_task().proc
            self.cwd = self.proc.cwd
            self.w.servers.append(self)

        def run(self, sockets=None):
            w = self.w
            env = w.env
            w.kernel.sleep(env.get("server_start", 0.05))
            fail = env.get("server_fail")
            if fail:
                w.count("fault:server_" + fail)
                if fail == "bind":
                    self.should_exit = True
                    raise SystemExit(1)
                raise RuntimeError("server crashed at start-up")
            self.started = True
            w.record(self.proc, "server-started", self.cwd)
            end = env.get("server_dies_after")
            t0 = w.kernel.now_ns
            while not self.should_exit:
                w.kernel.sleep(0.1)
                if end is not None and w.kernel.now_ns - t0 > end * 1e9:
                    w.count("fault:server_died")
                    raise RuntimeError("server crashed")
            w.kernel.sleep(env.get("server_stop", 0.02))
            self.stopped = True
            w.record(self.proc, "server-stopped", self.cwd)

    uvicorn.Server = SimServer
