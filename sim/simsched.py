"""Deterministic scheduler of simulated threads / processes inside one OS process.

Each simulated thread is a real Python thread that runs only while it holds
the baton.  Who runs next, and for how many bytecode operations of package
code, is decided by a Schedule, which either draws from a seeded generator
(and records what it drew) or replays a recorded list.
"""
import dis
import sys
import threading

from . import boot


# CPython 3.12 delivers opcode events only if f_trace_opcodes was set on some
# frame before sys.settrace was called
sys._getframe().f_trace_opcodes = True


class SimKill(BaseException):
    pass


class Deadlock(Exception):
    pass


class StepLimit(Exception):
    pass


class Schedule(object):
    """Source of scheduling decisions.

    A decision is [t, n, r]: run the t-th runnable thread for n operations; if
    r >= 0, the r-th other runnable thread performs its next operation
    simultaneously with the first operation of t (both see memory as it was
    before; see PoolWorld.race).  Decisions are recorded in self.rec.

    With rdv (rendezvous), a thread that is about to perform an in-place
    operation (x += y) waits until another thread is about to perform one, and
    the two perform it simultaneously; a thread that nobody can meet goes on.
    """

    def __init__(self, rng=None, lens=(1, 3, 10, 40, 200), prace=0.1, fixed=None, maxdec=100000, rdv=False):
        self.rdv = rdv
        self.rng, self.lens, self.prace = rng, list(lens), prace
        self.fixed = fixed
        self.pos = 0
        self.rec = []
        self.maxdec = maxdec

    def next(self, nrun, can_race):
        if self.fixed is not None:
            if self.pos < len(self.fixed):
                t, n, r = self.fixed[self.pos]
                self.pos += 1
                t = t % nrun
                if r >= 0 and (nrun < 2 or not can_race):
                    r = -1
                d = [t, n, r]
            else:
                d = [0, 1 << 30, -1]
        elif len(self.rec) >= self.maxdec:
            d = [0, 1 << 30, -1]
        else:
            g = self.rng
            t = g.randrange(nrun)
            n = g.choice(self.lens)
            n = n if n <= 1 else g.randint(1, 2 * n)
            r = -1
            if can_race and nrun > 1 and g.random() < self.prace:
                r = g.randrange(nrun - 1)
            d = [t, n, r]
            self.rec.append(d)
        return d


_INPLACE = {}


def inplace_offsets(code):
    r = _INPLACE.get(code)
    if r is None:
        r = _INPLACE[code] = frozenset(
            i.offset for i in dis.get_instructions(code)
            if (i.opname == 'BINARY_OP' and i.argrepr.endswith('=')) or i.opname.startswith('INPLACE_'))
    return r


class SimThread(object):
    def __init__(self, sim, tid, fn, name=None):
        self.sim, self.tid, self.fn = sim, tid, fn
        self.name = name or 't%d' % tid
        self.sem = threading.Semaphore(0)
        self.state = 'ready'            # ready | blocked | done
        self.wait_for = None            # predicate when blocked
        self.budget = 0
        self.steps = 0
        self.kill = False
        self.exc = None
        self.result = None
        self.fault_at = None            # (step, exception factory)
        self.held = False               # waits in front of an in-place operation (rendezvous)
        self.th = threading.Thread(target=self._main, daemon=True)
        self.th.start()

    # -- runs in the simulated thread
    def _main(self):
        self.sem.acquire()
        try:
            if not self.kill:
                sys.settrace(self._gtrace)
                try:
                    self.result = self.fn(self)
                finally:
                    sys.settrace(None)
        except SimKill:
            pass
        except BaseException as e:
            self.exc = e
        self.state = 'done'
        self.sim.main.release()

    def _gtrace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if fn.startswith(self.sim.prefix):
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return self._ltrace
        return None

    def _ltrace(self, frame, event, arg):
        if event == 'opcode':
            self.steps += 1
            self.sim.steps += 1
            if self.fault_at is not None and self.steps >= self.fault_at[0]:
                f = self.fault_at[1]
                self.fault_at = None
                raise f()
            self.budget -= 1
            if self.sim.schedule.rdv and frame.f_lasti in inplace_offsets(frame.f_code):
                self.held = True
            if self.budget <= 0 or self.held:
                self.park()
        return self._ltrace

    def park(self):
        self.sim.main.release()
        self.sem.acquire()
        if self.kill:
            raise SimKill()

    def yield_(self):
        """Explicit scheduling point."""
        self.steps += 1
        self.sim.steps += 1
        self.park()

    def block(self, pred):
        """Wait until pred() holds."""
        while not pred():
            self.state, self.wait_for = 'blocked', pred
            self.park()
        self.state, self.wait_for = 'ready', None


class Sim(object):
    def __init__(self, schedule, prefix=None, steplimit=20000000):
        self.schedule = schedule
        self.prefix = prefix or boot.SPORCO
        self.main = threading.Semaphore(0)
        self.threads = []
        self.steps = 0
        self.steplimit = steplimit
        self.switches = 0
        self.races = 0
        self.rendezvous = 0
        self.race = None        # function (stepA, stepB, order) performing a simultaneous step
        self.last = None

    def spawn(self, fn, name=None):
        t = SimThread(self, len(self.threads), fn, name)
        self.threads.append(t)
        return t

    def step(self, t, n):
        t.budget = n
        t.held = False
        t.sem.release()
        self.main.acquire()

    def runnable(self):
        out = []
        for t in self.threads:
            if t.state == 'blocked' and t.wait_for():
                t.state, t.wait_for = 'ready', None
            if t.state == 'ready':
                out.append(t)
        return out

    def run(self, on_event=None):
        while True:
            r = self.runnable()
            if not r:
                if all(t.state == 'done' for t in self.threads):
                    return
                raise Deadlock(', '.join('%s blocked' % t.name for t in self.threads if t.state == 'blocked'))
            held = [t for t in r if t.held]
            if held:
                if len(held) > 1 and self.race is not None:
                    self.races += 1
                    self.rendezvous += 1
                    a, b = held[:2]
                    self.last = b
                    self.race(lambda: self.step(a, 1), lambda: self.step(b, 1))
                    continue
                if len(held) < len(r):
                    r = [t for t in r if not t.held]
            ti, n, rc = self.schedule.next(len(r), self.race is not None)
            t = r[ti]
            if t is not self.last:
                self.switches += 1
                self.last = t
            if rc >= 0 and len(r) > 1:
                others = [x for x in r if x is not t]
                o = others[rc % len(others)]
                self.races += 1
                self.race(lambda: self.step(t, 1), lambda: self.step(o, 1))
                if t.state == 'ready' and n > 1:
                    self.step(t, n - 1)
            else:
                self.step(t, n)
            if self.steps > self.steplimit:
                raise StepLimit('more than %d simulated operations' % self.steplimit)
            if on_event is not None:
                on_event(t)

    def killall(self):
        for t in self.threads:
            if t.state != 'done':
                t.kill = True
                t.sem.release()
                self.main.acquire()
