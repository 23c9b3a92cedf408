"""Simulated network below the real requests/urllib3/http.client stack.

`urllib3` gets a fake socket instead of a TCP or TLS connection; everything above
(connection pool, HTTP parsing, content decoding, redirects, error mapping) is
the real code.  The server is a function of the request, given by the world.
"""
import gzip
import io
import random
import socket
import zlib
from urllib.parse import urlsplit

import urllib3.connection
import urllib3.util.connection
import urllib3.util.wait

from . import core

_REASONS = {200: 'OK', 206: 'Partial Content', 302: 'Found', 304: 'Not Modified', 403: 'Forbidden', 404: 'Not Found',
            429: 'Too Many Requests', 500: 'Internal Server Error', 502: 'Bad Gateway', 503: 'Service Unavailable',
            504: 'Gateway Timeout'}


class Stream(io.RawIOBase):
    """Byte stream of one response, delivered in seeded pieces"""

    def __init__(self, sim, sock):
        self.sim = sim
        self.sock = sock

    def readable(self):
        return True

    def readinto(self, b):
        s = self.sock
        sim = self.sim
        if core.CURRENT is not sim or sim.cur is None:
            return 0
        if not s.pending:
            if s.after == 'reset':
                raise ConnectionResetError(104, "Connection reset by peer")
            if s.after == 'timeout':
                raise socket.timeout("timed out")
            return 0
        n = min(len(b), len(s.pending) - s.pos)
        if s.piece:
            n = min(n, 1 + s.rng.randrange(s.piece))
        sim.now += sim.latency * 0.05
        if len(sim.tasks) > 1:
            sim.yield_point()
        b[:n] = s.pending[s.pos:s.pos + n]
        s.pos += n
        if s.pos >= len(s.pending):
            s.pending = b''
            s.pos = 0
        return n


class FakeSocket:
    def __init__(self, sim, host, port):
        self.sim, self.host, self.port = sim, host, port
        self.inbuf = b''
        self.pending = b''
        self.pos = 0
        self.after = None       # what follows the pending bytes: None (open), 'eof', 'reset', 'timeout'
        self.piece = 0
        self.rng = None
        self.closed = False
        self.timeout = None

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setsockopt(self, *a):
        pass

    def getpeername(self):
        return (self.host, self.port)

    def getsockname(self):
        return ('127.0.0.1', 40000)

    def fileno(self):
        return -1

    def shutdown(self, how):
        self.closed = True

    def close(self):
        self.closed = True

    def makefile(self, mode='rb', buffering=None, **kw):
        return io.BufferedReader(Stream(self.sim, self), 1024)

    def send(self, data):
        self.sendall(data)
        return len(data)

    def sendall(self, data):
        if self.closed or self.after:
            raise BrokenPipeError(32, "Broken pipe")
        self.inbuf += bytes(data)
        while b'\r\n\r\n' in self.inbuf:
            head, rest = self.inbuf.split(b'\r\n\r\n', 1)
            lines = head.decode('latin-1').split('\r\n')
            method, target, _ = lines[0].split(' ', 2)
            headers = {}
            for line in lines[1:]:
                k, v = line.split(':', 1)
                headers[k.strip().lower()] = v.strip()
            n = int(headers.get('content-length', 0) or 0)
            if len(rest) < n:
                return
            self.inbuf = rest[n:]
            self._request(method, target, headers)

    def _request(self, method, target, headers):
        sim = self.sim
        scheme = 'https' if self.port == 443 else 'http'
        url = f"{scheme}://{self.host}{target}"
        sim.now += sim.latency
        f = sim.event('http', url)
        key = ('http', url)
        seq = sim.net_seq[key] = sim.net_seq.get(key, 0) + 1
        rng = self.rng = random.Random(f"net-{sim.cfg.get('io_seed', 0)}-{url}-{seq}")
        self.piece = rng.choice([0, 0, 7, 100, 1000, 5000]) if sim.cfg.get('net_pieces', True) else 0
        action, arg = (f.action, f.arg) if f is not None else (None, None)
        rec = {'group': sim.cur.group, 'method': method, 'url': url, 't': sim.now, 'fault': action, 'status': None}
        sim.requests.append(rec)
        if action == 'down':
            sim.net_down = arg
        if sim.net_down == 'refuse':
            self.after = 'reset'
            return
        if sim.net_down == 'status':
            action, arg = 'status', 503
        if action == 'reset':
            self.after = 'reset'
            return
        if action == 'rtimeout':
            sim.now += 60
            self.after = 'timeout'
            return
        if action == 'eof':
            self.after = 'eof'
            return
        if action == 'status':
            status, rh, body = int(arg), {'Content-Type': 'text/html'}, rng.choice([b'<html>error</html>', b'', b'0.0.0.1\n', b'{}', b'error\n\nretry later\n'])
        else:
            status, rh, body = sim.server(method, url, headers)
        rec['status'] = status
        rec['bytes'] = len(body)
        rh = dict(rh)
        if status == 200 and body and 'gzip' in headers.get('accept-encoding', '') and rh.pop('X-Sim-Gzip-Ok', None) and rng.random() < sim.cfg.get('p_gzip', 0.0):
            body = gzip.compress(body, mtime=0)
            rh['Content-Encoding'] = 'gzip'
        rh.pop('X-Sim-Gzip-Ok', None)
        keep = rng.random() < 0.8
        out = [f"HTTP/1.1 {status} {_REASONS.get(status, 'Status')}"]
        cut = None
        if action in ('trunc', 'reset-mid', 'timeout-mid'):
            cut = float(arg)
        if method == 'HEAD':
            out.append(f"Content-Length: {len(body)}")
            payload = b''
        elif status in (204, 304):
            payload = b''
        elif rng.random() < sim.cfg.get('p_chunked', 0.3):
            out.append("Transfer-Encoding: chunked")
            parts = []
            i = 0
            while i < len(body):
                k = 1 + rng.randrange(max(1, min(len(body), 4000)))
                parts.append(b"%x\r\n%s\r\n" % (len(body[i:i + k]), body[i:i + k]))
                i += k
            parts.append(b"0\r\n\r\n")
            payload = b''.join(parts)
        else:
            out.append(f"Content-Length: {len(body)}")
            payload = body
        if not keep:
            out.append("Connection: close")
        for k, v in rh.items():
            out.append(f"{k}: {v}")
        head = ('\r\n'.join(out) + '\r\n\r\n').encode('latin-1')
        if cut is not None:
            if payload:
                payload = payload[:min(len(payload) - 1, int(len(payload) * cut))]
                self.after = {'trunc': 'eof', 'reset-mid': 'reset', 'timeout-mid': 'timeout'}[action]
        elif not keep:
            self.after = 'eof'
        self.pending = head + payload
        self.pos = 0


def fake_create_connection(address, timeout=None, source_address=None, socket_options=None):
    sim = core.CURRENT
    if sim is None or sim.cur is None:
        raise OSError("network access outside of a simulation")
    host, port = address[0], address[1]
    sim.now += sim.latency
    f = sim.event('connect', host)
    if sim.net_down == 'refuse':
        raise ConnectionRefusedError(111, "Connection refused")
    if f is not None:
        if f.action == 'refuse':
            raise ConnectionRefusedError(111, "Connection refused")
        if f.action == 'dns':
            raise socket.gaierror(-3, "Temporary failure in name resolution")
        if f.action == 'ctimeout':
            sim.now += 60
            raise socket.timeout("timed out")
    return FakeSocket(sim, host, port)


def fake_https_connect(self):
    self.sock = self._new_conn()
    self.is_verified = True
    self._has_connected_to_proxy = bool(self.proxy)


_real_wait_for_read = urllib3.util.wait.wait_for_read


def fake_wait_for_read(sock, timeout=None):
    if isinstance(sock, FakeSocket):
        return bool(sock.pending or sock.after or sock.closed)
    return _real_wait_for_read(sock, timeout)


def install():
    urllib3.util.connection.create_connection = fake_create_connection
    urllib3.connection.HTTPSConnection.connect = fake_https_connect
    urllib3.connection.wait_for_read = fake_wait_for_read
    urllib3.util.wait.wait_for_read = fake_wait_for_read
    # nothing else in the process may open a socket while simulating
    real_connect = socket.create_connection

    def refuse(address, *a, **k):
        sim = core.CURRENT
        if sim is not None:
            sim.escapes.append(f"socket {address}")
            raise OSError("simulation: raw sockets are refused")
        return real_connect(address, *a, **k)
    socket.create_connection = refuse
