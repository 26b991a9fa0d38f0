"""Simulated network below http.client: connections are served from a script of faults.

Each new connection takes the next element of the script.  Real urllib and
http.client code runs on top of the simulated sockets.
"""
import errno
import io
import socket


class Hang(Exception):
    """A blocking call that would never return."""


class SimClock(object):
    def __init__(self):
        self.t = 0.0

    def now(self):
        return self.t


class NetWorld(object):
    def __init__(self, ctx, script, respond, clock):
        self.ctx, self.script, self.respond, self.clock = ctx, list(script), respond, clock
        self.socks = []
        self.nconn = 0
        self.delayed = 0.0

    def stall(self, seconds, timeout):
        """Wait for something that takes `seconds`; raises socket.timeout when the limit comes first."""
        if timeout is socket._GLOBAL_DEFAULT_TIMEOUT:
            timeout = socket.getdefaulttimeout()
        if timeout is not None and seconds >= timeout:
            self.clock.t += timeout
            raise socket.timeout('timed out')
        if seconds == float('inf'):
            raise Hang('blocking network operation without a time limit')
        self.clock.t += seconds

    def create_connection(self, address, timeout=socket._GLOBAL_DEFAULT_TIMEOUT, source_address=None, **kw):
        k = self.nconn
        self.nconn += 1
        ev = self.script[k] if k < len(self.script) else {'kind': 'ok'}
        self.ctx.log('connect', k, address, ev['kind'])
        if ev['kind'] != 'ok' and ev['kind'] != 'redirect':
            self.ctx.fault(ev['kind'] + ('@' + ev['where'] if 'where' in ev else ''))
        kind = ev['kind']
        if kind == 'refused':
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        if kind == 'unreachable':
            raise OSError(errno.EHOSTUNREACH, 'No route to host')
        if kind == 'resolve':
            raise socket.gaierror(-3, 'Temporary failure in name resolution')
        if kind == 'timeout' and ev['where'] == 'connect':
            self.stall(float('inf'), timeout)
        if kind == 'timeout' and ev['where'] == 'syn':
            self.clock.t += 127
            raise TimeoutError(errno.ETIMEDOUT, 'Connection timed out')
        s = SimSocket(self, ev, timeout, k)
        self.socks.append(s)
        return s

    def open_sockets(self):
        return [s for s in self.socks if not s.released()]


class SimSocket(object):
    def __init__(self, world, ev, timeout, k):
        self.world, self.ev, self.k = world, ev, k
        self.timeout = timeout
        self.req = b''
        self.data = None
        self.pos = 0
        self.closed = False
        self.readers = 0

    def released(self):
        return self.closed and self.readers == 0

    def setsockopt(self, *a):
        pass

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def fileno(self):
        return 1000 + self.k

    def getpeername(self):
        return ('192.0.2.1', 80)

    def sendall(self, b):
        if self.ev['kind'] == 'timeout' and self.ev['where'] == 'send':
            self.world.stall(float('inf'), self.timeout)
        if self.ev['kind'] == 'reset' and self.ev['where'] == 'send':
            raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        if self.ev['kind'] == 'pipe':
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        self.req += bytes(b)

    send = sendall

    def makefile(self, mode='r', bufsize=-1, **k):
        self.readers += 1
        return io.BufferedReader(_Raw(self), 8192 if bufsize in (-1, None) else max(1, bufsize))

    def recv_into(self, buf):
        if self.data is None:
            # (bytes, position at which the fault strikes or None)
            self.data, self.cut = self.world.respond(self.k, self.req, self.ev)
        if 'delay' in self.ev:
            self.world.stall(self.ev['delay'], self.timeout)
            self.world.delayed += self.ev['delay']
        lim = len(self.data) if self.cut is None else self.cut
        n = min(len(buf), lim - self.pos, max(1, self.ev.get('chunk', 65536)))
        if n > 0:
            buf[:n] = self.data[self.pos:self.pos + n]
            self.pos += n
            return n
        if self.cut is not None:
            kind = self.ev['kind']
            if kind == 'timeout':
                self.world.stall(float('inf'), self.timeout)
            if kind == 'reset':
                raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        return 0

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True

    def __del__(self):
        self.closed = True


class _Raw(io.RawIOBase):
    def __init__(self, s):
        io.RawIOBase.__init__(self)
        self.s = s

    def readable(self):
        return True

    def readinto(self, b):
        return self.s.recv_into(memoryview(b))

    def close(self):
        if not self.closed:
            self.s.readers -= 1
        io.RawIOBase.close(self)
