"""Runs `stuart dev` and talks to it: HTTP and WebSocket clients, and an observer of its log."""
import base64, hashlib, os, random, re, resource, signal, socket, struct, subprocess, threading, time

from . import fsm
from .harness import Inconclusive, Violation, strip_ansi

def free_port():
    for _ in range(200):
        p = random.SystemRandom().randrange(15000, 32000)
        s = socket.socket()
        try:
            s.bind(("127.0.0.1", p))
            return p
        except OSError:
            continue
        finally:
            s.close()
    raise Inconclusive("no free port")


class Dev:
    """A development server. Its log is read by a thread of its own."""

    def __init__(self, ctx, cwd, args=(), exe=None, env=None, fsmon_log=None):
        for attempt in range(4):
            self.port = free_port()
            self.lines = []  # (time, text)
            self.cond = threading.Condition()
            self.closed = False
            e = ctx.base_env()
            e.update(fsm.env_for(ctx, log=fsmon_log, bind=self.port))
            e.update(env or {})
            self.proc = subprocess.Popen([exe or ctx.stuart] + list(args[0] if args and isinstance(args[0], list) else []) + ["dev"] + [a for a in args if not isinstance(a, list)],
                                         cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                resource.prlimit(self.proc.pid, resource.RLIMIT_CPU, (60, 62))
            except (ProcessLookupError, PermissionError):
                pass
            self.thread = threading.Thread(target=self._read, daemon=True)
            self.thread.start()
            if self._ready():
                return
            if self.proc.poll() is not None:
                self.thread.join(5)
                if "failed to start development server" in self.text() and attempt < 3:
                    continue  # Something else has taken the port.
                return  # It has ended by itself: the caller looks at why.
            self.stop()
        raise Inconclusive("the development server does not accept connections")

    def _ready(self):
        end = time.monotonic() + 15
        while time.monotonic() < end and self.proc.poll() is None:
            if self._listening():
                return True
            time.sleep(0.01)
        return False

    def _listening(self):
        """Whether it is this very process that listens on the port."""
        want = "0100007F:%04X" % self.port
        inodes = set()
        with open("/proc/net/tcp") as f:
            for l in f:
                c = l.split()
                if len(c) > 9 and c[1] == want and c[3] == "0A":
                    inodes.add("socket:[%s]" % c[9])
        if not inodes:
            return False
        try:
            return any(os.readlink("/proc/%d/fd/%s" % (self.proc.pid, fd)) in inodes for fd in os.listdir("/proc/%d/fd" % self.proc.pid))
        except OSError:
            return False

    def _read(self):
        for line in iter(self.proc.stdout.readline, b""):
            with self.cond:
                self.lines.append((time.monotonic(), strip_ansi(line).decode("utf-8", "replace")))
                self.cond.notify_all()
        with self.cond:
            self.closed = True
            self.cond.notify_all()

    # -- the log ------------------------------------------------------------------------------------------------------
    def text(self, start=0):
        with self.cond:
            return "".join(t for _, t in self.lines[start:])

    def mark(self):
        with self.cond:
            return len(self.lines)

    def count(self, what, start=0):
        with self.cond:
            return sum(what(t) for _, t in self.lines[start:])

    def finished(self, start=0):
        return self.count(lambda t: "Finished build in" in t, start)

    def failed(self, start=0):
        return self.count(lambda t: t.startswith("error:"), start)

    def detected(self, start=0):
        return self.count(lambda t: "Detected change at" in t, start)

    def wait_for(self, cond, timeout):
        end = time.monotonic() + timeout
        with self.cond:
            while not cond():
                left = end - time.monotonic()
                if left <= 0 or self.closed:
                    return cond()
                self.cond.wait(min(left, 0.5))
        return True

    def quiet(self, seconds, limit=10):
        """Waits until nothing has been logged for a while. False if that never happens."""
        end = time.monotonic() + limit
        while True:
            with self.cond:
                last = self.lines[-1][0] if self.lines else 0
            now = time.monotonic()
            if now - last >= seconds:
                return True
            if now > end:
                return False
            time.sleep(min(seconds, max(0.005, last + seconds - now)))

    def alive(self):
        return self.proc.poll() is None

    def stop(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.proc.wait()
        self.thread.join(5)
        self.proc.stdout.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stop()

    # -- HTTP ---------------------------------------------------------------------------------------------------------
    def connect(self, timeout=20):
        return socket.create_connection(("127.0.0.1", self.port), timeout)

    def raw(self, data, timeout=20, shut=False):
        """Sends bytes and returns everything that comes back until the connection ends."""
        s = self.connect(timeout)
        try:
            try:
                s.sendall(data)
                if shut:
                    s.shutdown(socket.SHUT_WR)
            except socket.timeout:
                raise
            except OSError:
                pass
            out = b""
            while True:
                try:
                    b = s.recv(1 << 16)
                except ConnectionResetError:
                    break
                if not b:
                    break
                out += b
            return out
        finally:
            s.close()

    def get(self, target, method="GET", headers=(), timeout=20):
        req = ("%s " % method).encode() + (target if isinstance(target, bytes) else target.encode("utf-8")) + b" HTTP/1.1\r\nHost: localhost:6904\r\n" + b"".join(h.encode() + b"\r\n" for h in headers) + b"\r\n"
        return parse_response(self.raw(req, timeout))


class Response:
    def __init__(self, status, headers, body, rest=b""):
        self.status, self.headers, self.body, self.rest = status, headers, body, rest


def parse_response(data):
    if b"\r\n\r\n" not in data:
        return None
    head, body = data.split(b"\r\n\r\n", 1)
    lines = head.split(b"\r\n")
    m = re.match(rb"HTTP/1\.[01] (\d+)", lines[0])
    if not m:
        return None
    headers = {}
    for l in lines[1:]:
        k, _, v = l.partition(b":")
        headers[k.strip().lower().decode("latin1")] = v.strip().decode("utf-8", "replace")
    n = headers.get("content-length")
    return Response(int(m.group(1)), headers, body if n is None else body[:int(n)], b"" if n is None else body[int(n):])


class KeepAlive:
    """Several requests over one connection."""

    def __init__(self, dev):
        self.dev = dev
        self.used = False
        self.open()

    def open(self):
        self.s = self.dev.connect()
        self.f = self.s.makefile("rb")

    def get(self, target, headers=()):
        """A connection that has been idle may be closed by the server, as browsers know: then there is another one."""
        if self.used:
            try:
                r = self.once(target, headers)
                if r is not None and r.status != 408:
                    return r
            except ConnectionError:
                pass
            self.close()
            self.open()
        self.used = True
        return self.once(target, headers)

    def once(self, target, headers):
        self.s.sendall(b"GET " + target + b" HTTP/1.1\r\nHost: localhost\r\nConnection: keep-alive\r\n" + b"".join(h.encode() + b"\r\n" for h in headers) + b"\r\n")
        head = b""
        while not head.endswith(b"\r\n\r\n"):
            l = self.f.readline()
            if not l:
                return None
            if head or l != b"\r\n":  # The library ends every body with another line break.
                head += l
        r = parse_response(head)
        if r is None:
            return None
        n = int(r.headers.get("content-length", "0"))
        r.body = self.f.read(n)
        return r

    def close(self):
        self.f.close()
        self.s.close()


class Ws:
    """A WebSocket client, read by a thread of its own."""

    def __init__(self, dev, key=None):
        self.s = dev.connect()
        key = key or base64.b64encode(os.urandom(16)).decode()
        self.s.sendall(("GET /__ws HTTP/1.1\r\nHost: localhost:%d\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: %s\r\nSec-WebSocket-Version: 13\r\n\r\n" % (dev.port, key)).encode())
        buf = b""
        while b"\r\n\r\n" not in buf:
            b = self.s.recv(4096)
            if not b:
                break
            buf += b
        r = parse_response(buf)
        want = base64.b64encode(hashlib.sha1((key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11").encode()).digest()).decode()
        self.ok = r is not None and r.status == 101 and r.headers.get("sec-websocket-accept") == want
        self.messages = []
        self.bad = None
        self.cond = threading.Condition()
        self.s.settimeout(None)
        self.thread = threading.Thread(target=self._read, args=(buf.split(b"\r\n\r\n", 1)[-1],), daemon=True)
        self.thread.start()

    def _exactly(self, n):
        while len(self.buf) < n:
            b = self.s.recv(4096)
            if not b:
                raise EOFError
            self.buf += b
        r, self.buf = self.buf[:n], self.buf[n:]
        return r

    def _read(self, buf):
        self.buf = buf
        try:
            while True:
                h = self._exactly(2)
                n = h[1] & 0x7f
                if h[1] & 0x80:
                    self.bad = "a masked frame from the server"
                if n == 126:
                    n = struct.unpack(">H", self._exactly(2))[0]
                elif n == 127:
                    n = struct.unpack(">Q", self._exactly(8))[0]
                data = self._exactly(n)
                with self.cond:
                    self.messages.append((h[0], data, time.monotonic()))
                    self.cond.notify_all()
        except (EOFError, OSError):
            with self.cond:
                self.closed = True
                self.cond.notify_all()

    def reloads(self):
        with self.cond:
            return sum(op == 0x81 and d == b"reload" for op, d, _ in self.messages)

    def wait(self, n, timeout):
        end = time.monotonic() + timeout
        with self.cond:
            while sum(op == 0x81 and d == b"reload" for op, d, _ in self.messages) < n:
                left = end - time.monotonic()
                if left <= 0:
                    return False
                self.cond.wait(left)
        return True

    def close(self, how="fin"):
        try:
            if how == "rst":
                self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            elif how == "frame":
                self.s.sendall(b"\x88\x80\0\0\0\0")
            # (The reader has to leave the socket first, otherwise it stays open.)
            self.s.shutdown(socket.SHUT_RD if how == "rst" else socket.SHUT_RDWR)
        except OSError:
            pass
        self.thread.join(5)
        self.s.close()
