"""Simulated network: an urllib opener whose servers live in the simulator.

``urllib.request`` has a seam for this (``install_opener``); urlopen,
urlretrieve, torchvision's and torch.hub's downloaders all go through it.  The
response objects are real ``http.client.HTTPResponse`` objects reading from a
simulated socket, so truncation, resets and timeouts surface exactly as they do
in a deployment.
"""
import contextlib
import http.client
import io
import socket
import urllib.error
import urllib.request

NET_FAULTS = (
    "dns_failure",
    "connect_timeout",
    "http_503",
    "http_404",
    "conn_reset",
    "read_timeout",
    "truncated_body",
    "corrupt_body",
    "wrong_body",
    "empty_body",
)


class _Stream(io.RawIOBase):
    def __init__(self, net, data, fail_at=None, exc=None):
        self.net, self.data, self.pos = net, data, 0
        self.fail_at, self.exc = fail_at, exc

    def readable(self):
        return True

    def readinto(self, b):
        self.net.tick(0.0001 * max(1, len(b) // 4096))
        if self.fail_at is not None and self.pos >= self.fail_at:
            if self.exc is not None:
                raise self.exc
            return 0
        end = len(self.data) if self.fail_at is None else self.fail_at
        n = min(len(b), end - self.pos, self.net.mtu)
        b[:n] = self.data[self.pos : self.pos + n]
        self.pos += n
        return n


class _Sock:
    def __init__(self, stream):
        self.stream = stream

    def makefile(self, mode="rb", *a, **k):
        return io.BufferedReader(self.stream)

    def close(self):
        pass


class SimNet:
    """``files``: url -> bytes.  Faults are armed per request index."""

    def __init__(self, sim, files, sched=None):
        self.sim = sim
        self.files = dict(files)
        self.sched = sched
        self.requests = []
        self.armed = {}  # request index (counted over the run) -> fault kind
        self.rate = 0.0
        self.kinds = NET_FAULTS
        self.mtu = 16384
        self.allow = None
        self.served = {}  # url -> list of "ok" / fault kind

    def arm(self, horizon, kinds=NET_FAULTS, max_faults=3, zero=0.35):
        """Draw a fault plan: how many faults, at which request, which kind."""
        self.armed = {}
        for _ in range(self.sim.choose("net.nfaults", max_faults + 1, zero=zero)):
            at = self.sim.choose("net.at", max(1, horizon))
            kind = kinds[self.sim.choose("net.kind", len(kinds))]
            self.armed[len(self.requests) + at] = kind
        self.mtu = self.sim.pick("net.mtu", (16384, 1, 7, 512, 4096), zero=0.5)

    def tick(self, dt):
        if self.sched is not None and self.sched.me() is not None:
            self.sched.step()
        self.sim.advance(dt)

    def _open(self, req):
        sim = self.sim
        url = req.full_url
        idx = len(self.requests)
        self.requests.append(url)
        if self.sched is not None and self.sched.me() is not None:
            self.sched.sleep(0.01)
        else:
            sim.advance(0.01)
        kind = self.armed.pop(idx, None)
        if kind and self.allow is not None and not self.allow(url, kind):
            self.armed[idx + 1] = kind  # slide to the next request it can hit
            kind = None
        sim.event("GET", url, kind or "-")
        self.served.setdefault(url, []).append(kind or "ok")
        if kind:
            sim.fault("net." + kind)
        if kind == "dns_failure":
            raise urllib.error.URLError(socket.gaierror(-2, "Name or service not known"))
        if kind == "connect_timeout":
            sim.advance(30.0)
            raise urllib.error.URLError(socket.timeout("timed out"))
        body = self.files.get(url)
        status = "200 OK"
        if body is None or kind == "http_404":
            status, body, kind = "404 Not Found", b"<html>not found</html>", None
        elif kind == "http_503":
            status, body, kind = "503 Service Unavailable", b"<html>busy</html>", None
        fail_at, exc = None, None
        length = len(body)
        if kind == "wrong_body":
            body = b"<html>please log in to the network</html>"
            length = len(body)
        elif kind == "empty_body":
            body, length = b"", 0
        elif kind == "corrupt_body" and length:
            at = sim.choose("net.flip_at", length)
            body = body[:at] + bytes([body[at] ^ (1 << sim.choose("net.bit", 8))]) + body[at + 1 :]
        cut = None
        if kind in ("conn_reset", "read_timeout", "truncated_body"):
            cut = sim.choose("net.cut", max(1, length))
            if kind == "conn_reset":
                exc = ConnectionResetError(104, "Connection reset by peer")
            elif kind == "read_timeout":
                exc = socket.timeout("timed out")
        head = (
            f"HTTP/1.1 {status}\r\nContent-Type: application/octet-stream\r\n"
            f"Content-Length: {length}\r\nConnection: close\r\n\r\n"
        ).encode()
        if cut is not None:
            fail_at = len(head) + cut
        resp = http.client.HTTPResponse(_Sock(_Stream(self, head + body, fail_at, exc)))
        resp.begin()
        resp.url = url
        resp.msg = resp.reason
        return resp

    @contextlib.contextmanager
    def installed(self):
        net = self

        class H(urllib.request.HTTPHandler):
            def http_open(self, req):
                return net._open(req)

        class HS(urllib.request.HTTPSHandler):
            def https_open(self, req):
                return net._open(req)

        prev = urllib.request._opener
        urllib.request.install_opener(
            urllib.request.build_opener(urllib.request.ProxyHandler({}), H, HS)
        )
        try:
            yield self
        finally:
            urllib.request.install_opener(prev)
