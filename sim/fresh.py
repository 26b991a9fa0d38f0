"""Process loss: continue a computation in a new process that has only seen the imported package.

A Fresh is forked while the running process is still pristine and waits; when
asked, it receives bytes (the durable state), runs a function on them and
sends the outcome back.  Nothing else survives from the lost process.
"""
import os
import signal
import pickle
import struct
import traceback


class Fresh(object):
    def __init__(self, fn):
        self.r1, self.w1 = os.pipe()
        self.r2, self.w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.w1)
                os.close(self.r2)
                data = _recv(self.r1)
                if data is None:
                    os._exit(0)
                try:
                    out = ('ok', fn(pickle.loads(data)))
                except Exception as e:
                    out = ('exc', type(e).__name__, str(e)[:300], ''.join(traceback.format_exc().splitlines(True)[-8:]))
                _send(self.w2, pickle.dumps(out))
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(self.r1)
        os.close(self.w2)

    def run(self, arg):
        _send(self.w1, pickle.dumps(arg))
        data = _recv(self.r2)
        self.close()
        if data is None:
            return ('dead',)
        return pickle.loads(data)

    def close(self):
        if self.w1 is not None:
            os.close(self.w1)
            os.close(self.r2)
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            self.w1 = None


def _send(fd, b):
    b = struct.pack('<Q', len(b)) + b
    off = 0
    while off < len(b):
        off += os.write(fd, b[off:off + 65536])


def _recv(fd):
    def get(n):
        out = b''
        while len(out) < n:
            x = os.read(fd, min(65536, n - len(out)))
            if not x:
                return None
            out += x
        return out
    h = get(8)
    if h is None:
        return None
    return get(struct.unpack('<Q', h)[0])
