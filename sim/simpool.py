"""Simulated multiprocessing: fork semantics, worker pool, shared memory, faults.

A simulated worker has its own copy of the module globals of the package,
taken when the pool is created (what fork() does); only memory obtained from
RawArray/RawValue is shared.  Tasks, arguments and results cross the process
boundary through pickle, as with the real pool.
"""
import copy
import ctypes
import gc
import weakref
import io
import pickle
import sys
import types
import collections

import numpy as np

from . import boot
from .simsched import Sim, Schedule, Deadlock, StepLimit


class PoolHang(Exception):
    pass


class PoolWorld(object):
    def __init__(self, ctx, schedule_for, faults=None, maxtasks=None):
        """schedule_for(k) -> Schedule for the k-th parallel section.
        faults: list of dicts, see inject points below."""
        self.ctx = ctx
        self.schedule_for = schedule_for
        self.faults = list(faults or [])
        self.raws = []
        self.pools = []
        self.nmap = 0
        self.nalloc = 0
        self.npool = 0
        self.sections = []      # recorded schedules
        self.fired = []

    # -- faults --------------------------------------------------------
    def _fault(self, point, **match):
        for f in self.faults:
            if f['at'] == point and not f.get('_done') and all(f.get(k) == v for k, v in match.items()):
                f['_done'] = True
                self.ctx.fault(f['kind'])
                self.fired.append(f)
                return f
        return None

    # -- shared memory -------------------------------------------------
    def _typ(self, t):
        from multiprocessing.sharedctypes import typecode_to_type
        return typecode_to_type.get(t, t)

    def RawArray(self, typecode, size_or_init):
        k = self.nalloc
        self.nalloc += 1
        if self._fault('alloc', n=k):
            raise OSError(28, 'No space left on device (simulated)')
        t = self._typ(typecode)
        if isinstance(size_or_init, int):
            a = (t * size_or_init)()
        else:
            a = (t * len(size_or_init))(*size_or_init)
        self._reg(a)
        return a

    def RawValue(self, typecode, *args):
        a = self._typ(typecode)(*args)
        self._reg(a)
        return a

    def _reg(self, a):
        n = ctypes.sizeof(a)
        mv = np.frombuffer((ctypes.c_char * n).from_buffer(a), dtype=np.uint8) if n else np.zeros(0, np.uint8)
        self.raws.append((ctypes.addressof(a), n, a, mv))

    def is_shared(self, arr):
        if not isinstance(arr, np.ndarray) or arr.size == 0:
            return False
        p = arr.__array_interface__['data'][0]
        for a0, n, _, _ in self.raws:
            if a0 <= p < a0 + n:
                return True
        return False

    def race(self, step_a, step_b):
        """Two workers perform one operation at the same instant: both read the
        memory as it was before, then both writes land (b's last)."""
        before = [mv.copy() for _, _, _, mv in self.raws]
        nb = len(before)
        step_a()
        after_a = [mv.copy() for _, _, _, mv in self.raws[:nb]]
        for (_, _, _, mv), b in zip(self.raws, before):
            mv[:] = b
        step_b()
        # a's writes land where b did not write
        for (_, _, _, mv), b, a in zip(self.raws, before, after_a):
            ch = (a != b)
            if ch.any():
                wb = (mv != b)
                m = ch & ~wb
                mv[m] = a[m]

    # -- fork ----------------------------------------------------------
    def fork_namespaces(self):
        """Copies of the globals of every package module that takes part in multiprocessing."""
        out = {}
        for name, mod in list(sys.modules.items()):
            if mod is None or not (name == 'sporco' or name.startswith('sporco.')):
                continue
            d = getattr(mod, '__dict__', None)
            if d is None:
                continue
            uses = any(v is boot.multiprocessing or getattr(v, '__module__', None) == 'sim.boot'
                       for v in d.values()) or any(self.is_shared(v) for v in d.values())
            if uses:
                out[name] = None
        for name in out:
            out[name] = self._clone(sys.modules[name])
        return out

    def _clone(self, mod):
        old = mod.__dict__
        new = {}
        memo = {}
        for k, v in list(old.items()):
            new[k] = self._cpval(v, old, new, memo)
        return new

    def _cpval(self, v, old, new, memo):
        if isinstance(v, types.FunctionType):
            if v.__globals__ is old and v.__closure__ is None:
                f = types.FunctionType(v.__code__, new, v.__name__, v.__defaults__, None)
                f.__kwdefaults__ = v.__kwdefaults__
                f.__dict__.update(v.__dict__)
                f.__module__ = v.__module__
                f.__qualname__ = v.__qualname__
                return f
            return v
        if isinstance(v, (type, types.ModuleType, types.BuiltinFunctionType, str, bytes, int, float, complex,
                          bool, type(None), np.generic, np.ufunc)):
            return v
        if isinstance(v, np.ndarray):
            if self.is_shared(v):
                return v
            return v.copy()
        if isinstance(v, list):
            return [self._cpval(x, old, new, memo) for x in v]
        if type(v) is tuple:
            return tuple(self._cpval(x, old, new, memo) for x in v)
        if type(v) is dict and v is not old.get('__builtins__'):
            return {a: self._cpval(b, old, new, memo) for a, b in v.items()}
        if isinstance(v, (ctypes.Array, ctypes._SimpleCData)):
            return v
        if isinstance(v, SimPool) or v is old.get('__builtins__'):
            return v
        try:
            return copy.deepcopy(v, memo)
        except Exception:
            return v

    def Pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        k = self.npool
        self.npool += 1
        if self._fault('pool', n=k):
            raise OSError(11, 'Resource temporarily unavailable (simulated fork failure)')
        p = SimPool(self, processes, initializer, initargs)
        self.pools.append(weakref.ref(p))
        return p

    def leaked(self):
        """Pools whose workers are still there (a pool that has been garbage
        collected terminates its workers, as the real one does)."""
        gc.collect()
        return [p for p in (r() for r in self.pools) if p is not None and p.state in ('RUN', 'CLOSE')]


class _Unpickler(pickle.Unpickler):
    def __init__(self, f, spaces):
        pickle.Unpickler.__init__(self, f)
        self.spaces = spaces

    def find_class(self, module, name):
        ns = self.spaces.get(module)
        if ns is not None and name.split('.')[0] in ns:
            o = ns[name.split('.')[0]]
            for p in name.split('.')[1:]:
                o = getattr(o, p)
            return o
        return pickle.Unpickler.find_class(self, module, name)


class SimAsyncResult(object):
    def __init__(self, fn):
        self.fn, self.done = fn, False

    def _force(self):
        if not self.done:
            self.done = True
            try:
                self.val, self.ok = self.fn(), True
            except Exception as e:
                self.val, self.ok = e, False

    def get(self, timeout=None):
        self._force()
        if self.ok:
            return self.val
        raise self.val

    def wait(self, timeout=None):
        self._force()

    def ready(self):
        return self.done

    def successful(self):
        self._force()
        return self.ok


class SimPool(object):
    def __init__(self, world, processes, initializer, initargs):
        if processes is None:
            processes = boot.multiprocessing.cpu_count()
        if processes < 1:
            raise ValueError('Number of processes must be at least 1')
        self.world = world
        self.n = processes
        self.state = 'RUN'
        self.spaces = [world.fork_namespaces() for _ in range(processes)]
        if initializer is not None:
            blob = pickle.dumps((initializer, initargs))
            for sp in self.spaces:
                f, a = _Unpickler(io.BytesIO(blob), sp).load()
                f(*a)

    def __reduce__(self):
        raise NotImplementedError('pool objects cannot be passed between processes or pickled')

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()

    def _check(self):
        if self.state != 'RUN':
            raise ValueError('Pool not running')

    # -- task execution
    def _run(self, func, argtuples, star, chunksize, unordered=False):
        self._check()
        w = self.world
        k = w.nmap
        w.nmap += 1
        items = list(argtuples)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            if extra:
                chunksize += 1
        chunksize = max(1, chunksize)
        chunks = []
        for c in range(0, len(items), chunksize):
            chunks.append((c, pickle.dumps((func, items[c:c + chunksize]))))
        queue = collections.deque(range(len(chunks)))
        results = [None] * len(chunks)
        fails = []
        order = []
        done = []
        sched = w.schedule_for(k)
        sim = Sim(sched)
        sim.race = w.race
        pool = self

        def worker(wi):
            def main(th):
                while queue:
                    ci = queue.popleft()
                    order.append((ci, wi))
                    off, blob = chunks[ci]
                    f, args = _Unpickler(io.BytesIO(blob), pool.spaces[wi]).load()
                    res = []
                    for q, a in enumerate(args):
                        flt = w._fault('task', section=k, task=off + q)
                        if flt is not None:
                            def mk(flt=flt):
                                return MemoryError('simulated allocation failure in worker') \
                                    if flt['kind'] == 'worker_memory_error' else \
                                    RuntimeError('simulated worker failure')
                            if flt.get('step', 0) <= 0:
                                raise _TaskFail(ci, mk())
                            th.steps = 0
                            th.fault_at = (flt['step'], mk)
                        try:
                            res.append(f(*a) if star else f(a))
                        except Exception as e:
                            raise _TaskFail(ci, e)
                        if th.fault_at is not None:
                            # the task was shorter than the fault position
                            x = th.fault_at[1]()
                            th.fault_at = None
                            raise _TaskFail(ci, x)
                        th.yield_()
                    results[ci] = pickle.dumps(res)
                    done.append(ci)

            def loop(th):
                while queue:
                    try:
                        main(th)
                    except _TaskFail as e:
                        fails.append((e.ci, e.exc))
                        # the trace function is unset after an exception raised in it
                        sys.settrace(th._gtrace)
            return loop

        for wi in range(min(self.n, max(1, len(chunks)))):
            sim.spawn(worker(wi), 'worker%d' % wi)
        try:
            sim.run()
        except BaseException:
            sim.killall()
            raise
        for t in sim.threads:
            if t.exc is not None:
                raise t.exc
        w.sections.append(sched.rec if sched.fixed is None else list(sched.fixed))
        w.ctx.steps += sim.steps
        w.ctx.probe('context_switches', sim.switches)
        w.ctx.probe('simultaneous_operations', sim.races)
        if sim.rendezvous:
            w.ctx.probe('in_place_operations_met', sim.rendezvous)
        w.ctx.probe('parallel_sections')
        w.ctx.log('section', k, len(items), order, sim.steps, sim.switches)
        w.ctx.key('order', tuple(order), sim.switches, tuple(map(tuple, sched.rec[:50])))
        if fails:
            exc = pickle.loads(pickle.dumps(fails[0][1]))
            raise exc
        out = []
        for ci in (done if unordered else range(len(chunks))):
            out.extend(pickle.loads(results[ci]))
        return out

    def map(self, func, iterable, chunksize=None):
        return self._run(func, iterable, False, chunksize)

    def starmap(self, func, iterable, chunksize=None):
        return self._run(func, iterable, True, chunksize)

    def imap(self, func, iterable, chunksize=1):
        return iter(self._run(func, iterable, False, chunksize))

    def imap_unordered(self, func, iterable, chunksize=1):
        return iter(self._run(func, iterable, False, chunksize, unordered=True))

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        items = list(iterable)
        return SimAsyncResult(lambda: self._run(func, items, False, chunksize))

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        items = list(iterable)
        return SimAsyncResult(lambda: self._run(func, items, True, chunksize))

    def apply(self, func, args=(), kwds={}):
        return self._run(_Kw(func, kwds), [args], True, 1)[0]

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return SimAsyncResult(lambda: self.apply(func, args, kwds))

    def close(self):
        if self.state == 'RUN':
            self.state = 'CLOSE'

    def terminate(self):
        self.state = 'TERMINATE'

    def join(self):
        if self.state == 'RUN':
            raise ValueError('Pool is still running')
        self.state = 'JOINED'


class _Kw(object):
    def __init__(self, f, kw):
        self.f, self.kw = f, kw

    def __call__(self, *a):
        return self.f(*a, **self.kw)


class _TaskFail(Exception):
    def __init__(self, ci, exc):
        Exception.__init__(self, ci)
        self.ci, self.exc = ci, exc
