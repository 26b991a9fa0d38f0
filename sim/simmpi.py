"""Simulated MPI: ranks are simulated threads, collectives complete when all ranks have arrived.

Semantics follow the MPI standard where it matters here: ranks have to call
the same collectives in the same order; the amount of data sent has to match
the amount expected; a rank that waits for something that can no longer
happen is a deadlock.  Buffers are described as in mpi4py.
"""
import copy
import pickle
import threading

import numpy as np
from mpi4py import MPI

from .engine import Violation

_real_world = MPI.COMM_WORLD
_ranks = {}


class _World(object):
    """Stands for COMM_WORLD; resolves to the communicator of the calling rank."""

    def __getattr__(self, name):
        return getattr(_ranks.get(threading.get_ident(), _real_world), name)


MPI.COMM_WORLD = _World()

import sporco.mpiutil as mpiutil   # noqa: E402,F401  (after the seam is in place)


def tsize(t):
    if isinstance(t, str):
        return np.dtype(t).itemsize
    return t.Get_size()


def spec(m, blocks=None):
    """-> (uint8 view, counts in bytes per block or total, displacements in bytes)"""
    if isinstance(m, np.ndarray) or not isinstance(m, (list, tuple)):
        a, rest = np.asarray(m), ()
    else:
        a, rest = m[0], tuple(m[1:])
    a = np.asarray(a)
    t = a.dtype.itemsize
    counts = displs = None
    if rest and (isinstance(rest[-1], (MPI.Datatype, str)) or rest[-1] is None):
        if rest[-1] is not None:
            t = tsize(rest[-1])
        rest = rest[:-1]
    if len(rest) == 1:
        counts = rest[0]
        if isinstance(counts, tuple) and len(counts) == 2 and np.ndim(counts[0]) == 1:
            counts, displs = counts
    elif len(rest) == 2:
        counts, displs = rest
    if not a.flags['C_CONTIGUOUS'] and a.flags['F_CONTIGUOUS']:
        raw = a.T.reshape(-1).view(np.uint8)
    elif a.flags['C_CONTIGUOUS']:
        raw = a.reshape(-1).view(np.uint8)
    else:
        raise ValueError('ndarray is not contiguous')
    n = raw.size // t
    if blocks is None:
        c = n if counts is None else int(np.sum(counts)) if np.ndim(counts) else int(counts)
        d = 0 if displs is None else int(displs)
        return raw, c * t, d * t
    if counts is None:
        q, r = divmod(n, blocks)
        counts = [q + (i < r) for i in range(blocks)]
    elif np.ndim(counts) == 0:
        counts = [int(counts)] * blocks
    if displs is None:
        displs = [0] + list(np.cumsum(counts)[:-1])
    return raw, [int(c) * t for c in counts], [int(d) * t for d in displs]


class MPIWorld(object):
    def __init__(self, size, ctx):
        self.size, self.ctx = size, ctx
        self.slots = []
        self.mail = {}
        self.maxlead = 0


class SimComm(object):
    def __init__(self, world, rank, th):
        self.w, self._rank, self.th = world, rank, th
        self.k = 0

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self.w.size

    rank = property(Get_rank)
    size = property(Get_size)

    def _coll(self, op, payload, sig=None):
        """Arrive at the next collective; returns the payloads of all ranks."""
        w = self.w
        k = self.k
        self.k += 1
        if k == len(w.slots):
            w.slots.append({'op': op, 'sig': sig, 'pay': {}})
        s = w.slots[k]
        if s['op'] != op or s['sig'] != sig:
            raise Violation('mismatch', 'rank %d is in %s%s while another rank is in %s%s' % (
                self._rank, op, sig or '', s['op'], s['sig'] or ''))
        s['pay'][self._rank] = payload
        w.ctx.log('arrive', k, op, self._rank)
        self.th.block(lambda: len(s['pay']) == w.size)
        return [s['pay'][r] for r in range(w.size)]

    # -- objects
    def Barrier(self):
        self._coll('barrier', None)
    barrier = Barrier

    @staticmethod
    def _red(op, vals):
        out = vals[0]
        for v in vals[1:]:
            out = op(out, v) if callable(op) else op.__call__(out, v)
        return out

    def _obj(self, op, o, sig=None):
        return [pickle.loads(b) for b in self._coll(op, pickle.dumps(o), sig)]

    def scan(self, sendobj, op=MPI.SUM):
        return self._red(op, self._obj('scan', sendobj)[:self._rank + 1])

    def exscan(self, sendobj, op=MPI.SUM):
        v = self._obj('exscan', sendobj)[:self._rank]
        return self._red(op, v) if v else None

    def allreduce(self, sendobj, op=MPI.SUM):
        return self._red(op, self._obj('allreduce', sendobj))

    def allgather(self, sendobj):
        return self._obj('allgather', sendobj)

    def reduce(self, sendobj, op=MPI.SUM, root=0):
        v = self._obj('reduce', sendobj, root)
        return self._red(op, v) if self._rank == root else None

    def gather(self, sendobj, root=0):
        v = self._obj('gather', sendobj, root)
        return v if self._rank == root else None

    def bcast(self, obj, root=0):
        return self._obj('bcast', obj if self._rank == root else None, root)[root]

    def scatter(self, sendobj, root=0):
        v = self._obj('scatter', sendobj if self._rank == root else None, root)[root]
        if len(v) != self.w.size:
            raise ValueError('expecting %d items, got %d' % (self.w.size, len(v)))
        return v[self._rank]

    def alltoall(self, sendobj):
        return [v[self._rank] for v in self._obj('alltoall', sendobj)]

    # -- buffers
    @staticmethod
    def _snd(m):
        raw, n, d = spec(m)
        if d + n > raw.size:
            raise Violation('overrun', 'send buffer of %d bytes is shorter than the %d bytes to be sent' % (raw.size, d + n))
        return raw[d:d + n].tobytes()

    def _put(self, raw, off, room, data, src):
        if len(data) != room:
            raise Violation('truncation', 'rank %d expects %d bytes from rank %d, which sends %d' % (self._rank, room, src, len(data)))
        if off + room > raw.size:
            raise Violation('overrun', 'rank %d receives beyond the end of its buffer' % self._rank)
        raw[off:off + room] = np.frombuffer(data, dtype=np.uint8)

    def Allgather(self, sendbuf, recvbuf):
        pay = self._coll('Allgather', self._snd(sendbuf))
        raw, n, d = spec(recvbuf)
        per = n // self.w.size
        for r, b in enumerate(pay):
            self._put(raw, d + r * per, per, b, r)

    def Allgatherv(self, sendbuf, recvbuf):
        pay = self._coll('Allgatherv', self._snd(sendbuf))
        raw, c, d = spec(recvbuf, self.w.size)
        for r, b in enumerate(pay):
            self._put(raw, d[r], c[r], b, r)

    def Gather(self, sendbuf, recvbuf, root=0):
        pay = self._coll('Gather', self._snd(sendbuf), root)
        if self._rank == root:
            raw, n, d = spec(recvbuf)
            per = n // self.w.size
            for r, b in enumerate(pay):
                self._put(raw, d + r * per, per, b, r)

    def Gatherv(self, sendbuf, recvbuf, root=0):
        pay = self._coll('Gatherv', self._snd(sendbuf), root)
        if self._rank == root:
            raw, c, d = spec(recvbuf, self.w.size)
            for r, b in enumerate(pay):
                self._put(raw, d[r], c[r], b, r)

    def Bcast(self, buf, root=0):
        pay = self._coll('Bcast', self._snd(buf), root)
        raw, n, d = spec(buf)
        self._put(raw, d, n, pay[root], root)

    def Scatter(self, sendbuf, recvbuf, root=0):
        pay = self._coll('Scatter', self._snd(sendbuf) if self._rank == root else None, root)[root]
        raw, n, d = spec(recvbuf)
        per = len(pay) // self.w.size
        self._put(raw, d, n, pay[self._rank * per:(self._rank + 1) * per], root)

    def Scatterv(self, sendbuf, recvbuf, root=0):
        p = None
        if self._rank == root:
            raw, c, d = spec(sendbuf, self.w.size)
            p = [raw[d[r]:d[r] + c[r]].tobytes() for r in range(self.w.size)]
        pay = self._coll('Scatterv', p, root)[root]
        raw, n, d = spec(recvbuf)
        self._put(raw, d, n, pay[self._rank], root)

    def _bufred(self, name, sendbuf, op, root=None):
        a = np.array(sendbuf[0] if isinstance(sendbuf, (list, tuple)) else sendbuf)
        return self._coll(name, a, root)

    @staticmethod
    def _npop(op, vals):
        f = {MPI.SUM: np.add, MPI.MAX: np.maximum, MPI.MIN: np.minimum, MPI.PROD: np.multiply}[op]
        out = np.array(vals[0])
        for v in vals[1:]:
            out = f(out, v)
        return out

    def Allreduce(self, sendbuf, recvbuf, op=MPI.SUM):
        r = recvbuf[0] if isinstance(recvbuf, (list, tuple)) else recvbuf
        s = r if sendbuf is MPI.IN_PLACE else sendbuf
        r[...] = self._npop(op, self._bufred('Allreduce', s, op)).reshape(r.shape)

    def Reduce(self, sendbuf, recvbuf, op=MPI.SUM, root=0):
        v = self._bufred('Reduce', sendbuf, op, root)
        if self._rank == root:
            r = recvbuf[0] if isinstance(recvbuf, (list, tuple)) else recvbuf
            r[...] = self._npop(op, v).reshape(r.shape)

    def Scan(self, sendbuf, recvbuf, op=MPI.SUM):
        r = recvbuf[0] if isinstance(recvbuf, (list, tuple)) else recvbuf
        r[...] = self._npop(op, self._bufred('Scan', sendbuf, op)[:self._rank + 1]).reshape(r.shape)

    # -- point to point (eager or rendezvous, as the schedule decides)
    def send(self, obj, dest, tag=0):
        self.w.mail.setdefault((self._rank, dest, tag), []).append(pickle.dumps(obj))

    def recv(self, buf=None, source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG, status=None):
        def keys():
            return [k for k, v in sorted(self.w.mail.items()) if v and k[1] == self._rank and
                    source in (MPI.ANY_SOURCE, k[0]) and tag in (MPI.ANY_TAG, k[2])]
        self.th.block(lambda: bool(keys()))
        return pickle.loads(self.w.mail[keys()[0]].pop(0))

    def Dup(self):
        return self
    Clone = dup = Dup
