"""runs a zounds web app on the loopback interface and talks to it"""
import contextlib
import http.client
import io
import logging
import os
import socket
import time
from random import SystemRandom

_random = SystemRandom()
TIMEOUT = 60


class Uncaught(logging.Handler):
    """errors tornado logs while it handles requests"""

    def __init__(self):
        super(Uncaught, self).__init__()
        self.seen = []

    def emit(self, record):
        error = record.exc_info[1] if record.exc_info else None
        self.seen.append(error if error is not None else record.getMessage())


errors = Uncaught()


def quiet_logs():
    for name in ('tornado.access', 'tornado.application', 'tornado.general', 'asyncio'):
        log = logging.getLogger(name)
        log.handlers = [logging.NullHandler()]
        log.propagate = False
    logging.getLogger('tornado.application').handlers = [errors]


class Port(int):
    """a port nobody listens at, reserved among the processes that take theirs this way"""

    def __new__(cls):
        while True:
            # from below the range the kernel hands out itself
            self = int.__new__(cls, _random.randint(10000, 32000))
            claim = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
            try:
                # goes away along with this process
                claim.bind('\0vz-port-%d' % self)
                with contextlib.closing(socket.socket()) as s:
                    s.bind(('', self))
            except OSError:
                claim.close()
                continue
            self.claim = claim
            return self

    def release(self):
        self.claim.close()


class Answer(object):
    def __init__(self, status, headers, body):
        self.status, self.headers, self.body = status, headers, body

    def header(self, name):
        return self.headers.get(name)

    def __repr__(self):
        return '%d %s %d bytes' % (self.status, self.header('Content-Type'), len(self.body))


class Site(object):
    """with Site(app) as site: site.get('/')"""

    def __init__(self, app):
        self.app = app

    def __enter__(self):
        quiet_logs()
        errors.seen = []
        for _ in range(5):
            self.reserved = Port()
            self.port = int(self.reserved)
            with contextlib.redirect_stdout(io.StringIO()):
                self.app.start_in_thread(self.port)
            end = time.time() + TIMEOUT
            while time.time() < end:
                if not self.app.thread.is_alive():
                    break            # somebody else was faster to take the port
                try:
                    socket.create_connection(('127.0.0.1', self.port), 1).close()
                    return self
                except OSError:
                    time.sleep(.005)
            self.reserved.release()
        raise OSError('could not start a server')

    def __exit__(self, *exc):
        self.app.__exit__(None, None, None)
        self.reserved.release()

    def request(self, method, path, headers=None, body=None):
        c = http.client.HTTPConnection('127.0.0.1', self.port, timeout=TIMEOUT)
        try:
            c.request(method, path, body=body, headers=headers or {})
            r = c.getresponse()
            data = r.read()
            return Answer(r.status, r.headers, data)
        finally:
            c.close()

    def get(self, path, **headers):
        return self.request('GET', path, headers)


class WebSocket(object):
    """just enough of RFC 6455 to listen to a server's text messages"""

    def __init__(self, site, path, headers=None):
        self.sock = socket.create_connection(('127.0.0.1', site.port), TIMEOUT)
        lines = ['GET %s HTTP/1.1' % path, 'Host: 127.0.0.1:%d' % site.port, 'Upgrade: websocket', 'Connection: Upgrade',
                 'Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==', 'Sec-WebSocket-Version: 13']
        lines += ['%s: %s' % x for x in (headers or {}).items()]
        self.sock.sendall(('\r\n'.join(lines) + '\r\n\r\n').encode())
        self.buf = b''
        while b'\r\n\r\n' not in self.buf:
            data = self.sock.recv(4096)
            if not data:
                break
            self.buf += data
        head, _, self.buf = self.buf.partition(b'\r\n\r\n')
        self.status = int(head.split(b' ')[1])
        self.accepted = self.status == 101

    def _exactly(self, n):
        while len(self.buf) < n:
            data = self.sock.recv(65536)
            if not data:
                raise EOFError()
            self.buf += data
        out, self.buf = self.buf[:n], self.buf[n:]
        return out

    def frame(self):
        a, b = self._exactly(2)
        n = b & 127
        if n == 126:
            n = int.from_bytes(self._exactly(2), 'big')
        elif n == 127:
            n = int.from_bytes(self._exactly(8), 'big')
        return a, self._exactly(n)

    def message(self, timeout=TIMEOUT):
        """the next text, or None when there's none (closed, or none in time)"""
        self.sock.settimeout(timeout)
        try:
            while True:
                op, data = self.frame()
                if op == 0x81:
                    return data.decode()
                if op == 0x88:
                    return None
                if op not in (0x89, 0x8a):
                    raise ValueError('unexpected frame %x' % op)
        except (EOFError, socket.timeout, ConnectionError):
            return None

    def close(self, politely=True):
        try:
            if politely:
                self.sock.sendall(bytes([0x88, 0x80, 1, 2, 3, 4]))
        finally:
            self.sock.close()
