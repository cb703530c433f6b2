"""A simulated network: name service, TCP connections, HTTP servers and the clock, all inside this process.

Everything a client does with a socket or with time goes through here while a Net is entered.  The server side of every
connection is a script (see Script): segments of bytes with delays between them, silence, resets, ends.  Time is virtual: it
moves only when the client sleeps, waits for a segment, or runs into one of its time limits."""
import errno
import io
import os
import socket
import time

from . import monitor


class Forever(BaseException):
    """The client waits without a time limit for something that will not happen."""


class NetError(OSError, monitor.Injected):
    pass


def _reset():
    return type("InjectedReset", (ConnectionResetError, monitor.Injected), {})(errno.ECONNRESET, "Connection reset by peer")


class Script:
    """What one connection will see.  connect: ok | refused | silent | dns;  steps: list of ("data", bytes) | ("wait", seconds)
    | ("silence",) | ("reset",) - after the last step the server closes."""

    def __init__(self, connect="ok", steps=()):
        self.connect, self.steps = connect, list(steps)


class Net:
    def __init__(self, serve):
        self.serve = serve          # request number -> Script maker: serve(n, request or None) -> Script
        self.now = 0.0
        self.log = []               # what happened, in order
        self.requests = []          # first lines of the requests the servers saw
        self.sleeps = 0
        self.connections = 0
        self.open = set()
        self.before = None          # called before the client waits for something

    def note(self, *what):
        self.log.append((round(self.now, 3),) + what)

    def advance(self, dt):
        if self.before is not None:
            self.before()
        self.now += dt

    # ------------------------------------------------------------------------------------------------ functions
    def getaddrinfo(self, host, port, family=0, *more, **named):
        s = self.serve(self.connections, None)
        if s.connect == "dns":
            self.connections += 1
            self.note("dns failure")
            raise type("InjectedGaiError", (socket.gaierror, monitor.Injected), {})(socket.EAI_AGAIN, "Temporary failure in name resolution")
        return [(socket.AF_INET, socket.SOCK_STREAM, 6, "", ("192.0.2.1", port))]

    def socket(self, *a, **k):
        return Sock(self)

    def sleep(self, s):
        self.sleeps += 1
        self.note("sleep", s)
        self.advance(max(0.0, s))

    def __enter__(self):
        self._old = socket.getaddrinfo, socket.socket, time.sleep, time.time, time.monotonic, time.perf_counter
        self._env = {k: os.environ.pop(k) for k in list(os.environ) if k.lower().endswith("_proxy")}
        socket.getaddrinfo, socket.socket = self.getaddrinfo, self.socket
        time.sleep = self.sleep
        time.time = lambda: 1.7e9 + self.now
        time.monotonic = time.perf_counter = lambda: self.now
        return self

    def __exit__(self, *a):
        socket.getaddrinfo, socket.socket, time.sleep, time.time, time.monotonic, time.perf_counter = self._old
        os.environ.update(self._env)
        return False


class Sock:
    def __init__(self, net):
        self.net = net
        self.timeout = None
        self.sent = b""
        self.script = None
        self.closed = False

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, b):
        self.timeout = None if b else 0.0

    def bind(self, a):
        pass

    def fileno(self):
        return -1 if self.closed else 1 << 20

    def getpeername(self):
        return ("192.0.2.1", 80)

    getsockname = getpeername

    def wait(self, seconds, what):
        """The server needs this long (None: for ever)."""
        net = self.net
        if seconds is None or (self.timeout is not None and seconds > self.timeout):
            if self.timeout is None:
                net.note("waits for ever", what)
                raise Forever(what)
            net.advance(self.timeout)
            net.note("timeout", what)
            raise type("InjectedTimeout", (TimeoutError, monitor.Injected), {})("timed out")
        net.advance(seconds)

    def connect(self, addr):
        net = self.net
        n = net.connections
        net.connections += 1
        self.n = n
        s = net.serve(n, None)
        net.note("connect", s.connect)
        if s.connect == "refused":
            self.wait(0.05, "connection")
            raise type("InjectedRefused", (ConnectionRefusedError, monitor.Injected), {})(errno.ECONNREFUSED, "Connection refused")
        if s.connect == "silent":
            self.wait(None, "connection")
        self.wait(0.02, "connection")
        net.open.add(self)

    def sendall(self, b, flags=0):
        self.sent += bytes(b)
        if self.script is None and b"\r\n\r\n" in self.sent:
            first = self.sent.split(b"\r\n")[0].decode("latin-1")
            self.net.requests.append(first)
            self.script = self.net.serve(self.n, first)
            self.steps = list(self.script.steps)
            self.net.note("request", first)

    def send(self, b, flags=0):
        self.sendall(b)
        return len(b)

    def pull(self, size):
        while self.script is not None and self.steps:
            k = self.steps[0]
            if k[0] == "data":
                b = k[1][:size]
                rest = k[1][size:]
                if rest:
                    self.steps[0] = ("data", rest)
                else:
                    self.steps.pop(0)
                if b:
                    return b
                continue
            if k[0] == "wait":
                self.steps.pop(0)
                self.wait(k[1], "data")
            elif k[0] == "silence":
                self.wait(None, "data")
            elif k[0] == "reset":
                self.net.note("reset")
                raise _reset()
        return b""

    def recv(self, size, flags=0):
        return self.pull(size)

    def recv_into(self, buf, nbytes=0, flags=0):
        b = self.pull(nbytes or len(buf))
        memoryview(buf)[:len(b)] = b
        return len(b)

    def makefile(self, mode="r", buffering=None, **k):
        return io.BufferedReader(_Raw(self))

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True
        self.net.open.discard(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class _Raw(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def readinto(self, b):
        return self.sock.recv_into(b)
