"""Simulated network: a scripted web server behind socket.create_connection.

The real urllib, http.client, socket file and buffering code runs; only the connection itself is simulated. The server's
answer is a byte string delivered in chunks of chosen sizes with delays on a simulated clock, and cut by a reset, a
timeout or a premature close at a chosen byte.
"""
import errno
import io
import os
import socket
import ssl

_saved_env = ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY", "all_proxy", "no_proxy", "NO_PROXY", "REQUEST_METHOD")


class SimRawSock(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock
        sock.files.append(self)

    def readable(self):
        return True

    def readinto(self, b):
        return self.sock.recv_into(b)

    def close(self):
        if not self.closed:
            super().close()
            if self in self.sock.files:
                self.sock.files.remove(self)
            self.sock.maybe_close()


class SimSocket:
    def __init__(self, net, host, timeout):
        self.net = net
        self.host = host
        self.timeout = timeout
        self.sent = b""
        self.answer = None
        self.pos = 0
        self.files = []
        self.user_closed = False
        self.closed = False
        self.chunks = None

    # --- client side
    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setsockopt(self, *a):
        pass

    def fileno(self):
        return -1

    def sendall(self, data):
        self.net.point("send")
        self.sent += bytes(data)

    def send(self, data):
        self.sendall(data)
        return len(data)

    def shutdown(self, how):
        pass

    def makefile(self, mode="r", buffering=None, **k):
        raw = SimRawSock(self)
        if buffering == 0:
            return raw
        return io.BufferedReader(raw, buffering if buffering and buffering > 0 else 8192)

    def recv(self, n, *a):
        b = bytearray(n)
        k = self.recv_into(b)
        return bytes(b[:k])

    def recv_into(self, b, *a):
        net = self.net
        if self.closed:
            raise OSError(errno.EBADF, "closed")
        if self.answer is None:
            self.answer, self.spec = net.respond(self.host, self.sent)
            self.i = 0
        s = self.spec
        net.point("recv")
        # delivery in chunks, with delays
        sizes = s.get("chunks") or [1 << 20]
        k = min(len(b), sizes[self.i % len(sizes)])
        delays = s.get("delays") or [0]
        d = delays[self.i % len(delays)]
        self.i += 1
        if d:
            if self.timeout is not None and d > self.timeout:
                net.clock += self.timeout
                net.fired("timeout")
                raise socket.timeout("timed out")
            net.clock += d
        cut = s.get("cut")  # [byte, kind]
        if cut is not None:
            left = cut[0] - self.pos
            if left <= 0:
                net.fired(cut[1])
                if cut[1] == "reset":
                    raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
                if cut[1] == "timeout":
                    raise socket.timeout("timed out")
                if cut[1] == "eio":
                    raise OSError(errno.EIO, "Input/output error")
                if cut[1] == "ssl":
                    raise ssl.SSLError("decryption failed")
                return 0  # close
            k = min(k, left)
        data = self.answer[self.pos:self.pos + k]
        self.pos += len(data)
        b[:len(data)] = data
        return len(data)

    def close(self):
        self.user_closed = True
        self.maybe_close()

    def maybe_close(self):
        if self.user_closed and not self.files and not self.closed:
            self.closed = True
            self.net.ctx.ev("conn-closed")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, n):
        raise AttributeError(n)


class Net:
    """routes: {(host, path): response spec}; attempts: list of faults for successive connections (last one repeats if
    `persistent`)."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.routes = {}
        self.clock = 0.0
        self.conns = []
        self.connect_faults = []
        self.hits = []
        self.n_connect = 0
        self.n_points = 0
        self.abort_at = None

    def fired(self, kind):
        self.hits.append(kind)
        self.ctx.fault("net:" + kind)

    def point(self, op):
        self.n_points += 1
        self.ctx.steps += 1
        if self.n_points > 200000:
            raise RuntimeError("endless transfer")

    def connect(self, address, timeout=None, *a, **k):
        self.n_connect += 1
        self.ctx.ev("connect", list(address))
        if self.connect_faults:
            f = self.connect_faults.pop(0)
            if f:
                self.fired(f)
                if f == "refused":
                    raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
                if f == "dns":
                    raise socket.gaierror(socket.EAI_NONAME, "Name or service not known")
                if f == "unreachable":
                    raise OSError(errno.ENETUNREACH, "Network is unreachable")
                raise socket.timeout("timed out")
        s = SimSocket(self, address[0], None if timeout is socket._GLOBAL_DEFAULT_TIMEOUT else timeout)
        self.conns.append(s)
        return s

    def respond(self, host, request):
        line = request.split(b"\r\n")[0].decode("latin1").split(" ")
        path = line[1] if len(line) > 1 else "/"
        spec = self.routes.get((host, path))
        self.ctx.ev("request", host, path, spec is not None)
        if spec is None:
            return b"HTTP/1.1 404 Not Found\r\nContent-Length: 5\r\n\r\nnope\n", {}
        return spec["bytes"], spec

    def open_conns(self):
        return [c for c in self.conns if not c.closed]


def http_answer(body, framing="length", status=200, reason="OK", chunk=None, headers=()):
    head = f"HTTP/1.1 {status} {reason}\r\nContent-Type: text/plain\r\n"
    for h in headers:
        head += h + "\r\n"
    if framing == "length":
        return (head + f"Content-Length: {len(body)}\r\n\r\n").encode() + body
    if framing == "chunked":
        out = (head + "Transfer-Encoding: chunked\r\n\r\n").encode()
        n = chunk or 100
        for i in range(0, len(body), n):
            part = body[i:i + n]
            out += b"%x\r\n" % len(part) + part + b"\r\n"
        return out + b"0\r\n\r\n"
    return (head + "Connection: close\r\n\r\n").encode() + body


class Installed:
    def __init__(self, net):
        self.net = net

    def __enter__(self):
        self.saved = [(socket, "create_connection", socket.create_connection),
                      (ssl.SSLContext, "wrap_socket", ssl.SSLContext.wrap_socket)]
        socket.create_connection = self.net.connect
        ssl.SSLContext.wrap_socket = lambda ctx, sock, **k: sock
        self.env = {k: os.environ.pop(k) for k in _saved_env if k in os.environ}
        import urllib.request
        self.opener = urllib.request._opener
        urllib.request._opener = None
        return self.net

    def __exit__(self, *a):
        import urllib.request
        urllib.request._opener = self.opener
        for o, n, v in self.saved:
            setattr(o, n, v)
        os.environ.update(self.env)
        return False
