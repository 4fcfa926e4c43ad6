"""The network seam: requests' transport adapter.

A World may carry `net`: url -> list of responses (the last one repeats), each
{"status", "body", "fault": None|"refused"|"timeout"|"reset"|"truncate"|"corrupt"|"stall"}.
"""
import io

from . import kernel as K
from . import world as W


class SimNet:
    def __init__(self, w, external):
        self.w = w
        self.bodies = {url: data for url, data, integrity in external.values()}
        self.plan = {}    # url -> list of fault names, consumed one per request
        self.requests = []
        self.latency = 0.05

    def serve(self, url, body):
        self.bodies[url] = body


def _stall(k, timeout):
    if isinstance(timeout, (tuple, list)):
        timeout = timeout[-1]
    t = getattr(timeout, "read_timeout", timeout)
    k.sleep(float(t) if isinstance(t, (int, float)) else 86400.0)


class _Body(io.RawIOBase):
    def __init__(self, w, body, fault, at, timeout=None):
        super().__init__()
        self.w = w
        self.body = body
        self.pos = 0
        self.fault = fault
        self.at = at
        self.timeout = timeout

    def readable(self):
        return True

    def read(self, n=-1):
        k = self.w.kernel
        k.sleep(0.01)
        limit = len(self.body)
        if self.fault in ("reset", "truncate", "stall"):
            limit = min(limit, self.at)
        if self.pos >= limit:
            if self.fault == "reset":
                self.w.count("fault:net_reset")
                raise ConnectionResetError(104, "Connection reset by peer")
            if self.fault == "stall":
                self.w.count("fault:net_stall")
                _stall(k, self.timeout)
                import urllib3.exceptions
                raise urllib3.exceptions.ReadTimeoutError(None, None, "Read timed out.")
            return b""
        if n is None or n < 0:
            n = limit - self.pos
        n = min(n, 512)
        b = self.body[self.pos:min(self.pos + n, limit)]
        self.pos += len(b)
        return b

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)


def install():
    import requests
    import requests.adapters
    import urllib3
    import urllib3.exceptions

    orig = requests.adapters.HTTPAdapter.send

    def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        t = K.current_task()
        w = W.current()
        if t is None or w is None:
            return orig(self, request, stream, timeout, verify, cert, proxies)
        net = w.net
        if net is None:
            raise requests.exceptions.ConnectionError("no network", request=request)
        url = request.url
        n = len([u for u in net.requests if u == url])
        net.requests.append(url)
        plan = net.plan.get(url, [])
        fault = plan[n] if n < len(plan) else None
        at = None
        if isinstance(fault, (list, tuple)):
            fault, at = fault[0], fault[1]
        w.count("http_requests")
        w.kernel.sleep(net.latency)
        if fault == "refused":
            w.count("fault:net_refused")
            raise requests.exceptions.ConnectionError("connection refused", request=request)
        if fault == "timeout":
            w.count("fault:net_timeout")
            _stall(w.kernel, timeout)
            raise requests.exceptions.ReadTimeout("timed out", request=request)
        body = net.bodies.get(url)
        status = 200
        if body is None:
            status, body = 404, b"not found"
        if fault in ("500", "404", "503"):
            w.count("fault:net_http_error")
            status, body = int(fault), b"oops"
        if fault == "corrupt":
            w.count("fault:net_corrupt")
            b = bytearray(body or b"x")
            i = (at or 0) % len(b)
            b[i] ^= 0x41
            body = bytes(b)
        if fault == "empty":
            w.count("fault:net_empty")
            body = b""
        if fault == "truncate":
            w.count("fault:net_truncate")
        if at is None:
            at = len(body) // 2
        raw = urllib3.HTTPResponse(
            body=_Body(w, body, fault, at, timeout), headers={"content-type": "text/plain"},
            status=status, preload_content=False, request_method=request.method)
        return self.build_response(request, raw)

    requests.adapters.HTTPAdapter.send = send
