"""Seams.  Imported before any part of sporco.

Every source of nondeterminism that the properties touch is routed through a
dispatcher installed here: the clock, the process pool, shared memory, CPU
count, network connections.  With no simulation object installed each
dispatcher falls through to the real thing, so that merely importing this
module changes nothing.
"""
import os
import sys
import time
import timeit
import socket
import threading          # noqa: F401  (imported before the clock is patched)
import subprocess         # noqa: F401
import select             # noqa: F401
import multiprocessing
import multiprocessing.pool
import multiprocessing.context
import multiprocessing.sharedctypes

REPO = os.environ.get('VERIF_REPO', '/repo')
SPORCO = os.path.join(REPO, 'sporco') + os.sep

real_perf = time.perf_counter
real_time = time.time
real_monotonic = time.monotonic
real_process_time = time.process_time


class Env(object):
    """The simulation objects currently installed (None: real behaviour)."""
    clock = None       # object with .now() and .wall()
    pools = None       # simpool.PoolWorld
    net = None         # simnet.NetWorld
    ncpu = None        # simulated CPU count


ENV = Env()


def _clk(real, offset=0.0):
    def f():
        c = ENV.clock
        if c is None:
            return real()
        return c.now() + offset
    return f


def install():
    # clock
    time.perf_counter = _clk(real_perf)
    time.time = _clk(real_time, 1.0e9)
    time.monotonic = _clk(real_monotonic)
    time.process_time = _clk(real_process_time)
    timeit.default_timer = time.perf_counter
    # processes
    real_pool = multiprocessing.Pool
    real_raw = multiprocessing.RawArray
    real_rawv = multiprocessing.RawValue
    real_cpu = multiprocessing.cpu_count
    real_oscpu = os.cpu_count
    bctx = multiprocessing.context.BaseContext
    c_pool, c_raw, c_rawv, c_cpu = bctx.Pool, bctx.RawArray, bctx.RawValue, bctx.cpu_count

    def Pool(*a, **k):
        return ENV.pools.Pool(*a, **k) if ENV.pools is not None else real_pool(*a, **k)

    def RawArray(*a, **k):
        return ENV.pools.RawArray(*a, **k) if ENV.pools is not None else real_raw(*a, **k)

    def RawValue(t, *a):
        return ENV.pools.RawValue(t, *a) if ENV.pools is not None else real_rawv(t, *a)

    def cpu_count():
        return ENV.ncpu if ENV.ncpu is not None else real_cpu()

    def oscpu_count():
        return ENV.ncpu if ENV.ncpu is not None else real_oscpu()

    multiprocessing.Pool = Pool
    multiprocessing.RawArray = RawArray
    multiprocessing.RawValue = RawValue
    multiprocessing.cpu_count = cpu_count
    os.cpu_count = oscpu_count

    def ctxPool(self, *a, **k):
        return ENV.pools.Pool(*a, **k) if ENV.pools is not None else c_pool(self, *a, **k)

    def ctxRaw(self, *a, **k):
        return ENV.pools.RawArray(*a, **k) if ENV.pools is not None else c_raw(self, *a, **k)

    def ctxRawV(self, t, *a):
        return ENV.pools.RawValue(t, *a) if ENV.pools is not None else c_rawv(self, t, *a)

    def ctxCpu(self):
        return ENV.ncpu if ENV.ncpu is not None else c_cpu(self)

    bctx.Pool, bctx.RawArray, bctx.RawValue, bctx.cpu_count = ctxPool, ctxRaw, ctxRawV, ctxCpu

    # network
    real_cc = socket.create_connection

    def create_connection(*a, **k):
        if ENV.net is not None:
            return ENV.net.create_connection(*a, **k)
        return real_cc(*a, **k)
    socket.create_connection = create_connection


def import_sporco():
    """Import everything from the working tree and fix the FFT back end."""
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter('ignore')
    import sporco
    assert os.path.abspath(sporco.__file__).startswith(SPORCO), sporco.__file__
    import importlib
    for m in ['fft', 'util', 'linalg', 'common', 'cdict', 'cnvrep', 'signal', 'array', 'metric', 'interp', 'prox', 'plot',
              'admm.admm', 'admm.bpdn', 'admm.cbpdn', 'admm.cbpdnin', 'admm.cbpdntv', 'admm.pdcsc',
              'admm.ccmod', 'admm.ccmodmd', 'admm.cmod', 'admm.rpca', 'admm.spline', 'admm.tvl1',
              'admm.tvl2', 'admm.ppp', 'admm.parcbpdn', 'pgm.pgm', 'pgm.bpdn', 'pgm.cbpdn', 'pgm.ccmod',
              'pgm.cmod', 'pgm.ppp', 'pgm.momentum', 'pgm.stepsize', 'pgm.backtrack',
              'dictlrn.dictlrn', 'dictlrn.bpdndl', 'dictlrn.wbpdndl', 'dictlrn.cbpdndl',
              'dictlrn.cbpdndlmd', 'dictlrn.onlinecdl', 'dictlrn.prlcnscdl']:
        importlib.import_module('sporco.' + m)
    import sporco.fft
    sporco.fft.pyfftw_threads = 1
    sporco.fft.pyfftw_planner_effort = 'FFTW_ESTIMATE'
    import numpy as np
    np.seterr(all='ignore')
    return sporco
