"""P11: labelled timers account for exactly the time during which they were running."""
import sporco.util as su

from ..boot import ENV
from ..engine import Violation
from ..util import with_, drop_each

LEVEL = 'exploration'
RUNS = dict(quick=8000, thorough=200000)
RULE = ('a scenario fixes a sequence of operations (start, stop, reset, query, table, nested context managers with and without exceptions, clock advances, stalls and jumps) on several timer objects; '
        'every query is compared with a reference model holding exact sums; non-trivial if time passes while some timer is running')
MEASURE = 'distinct (set of running labels, operation) pairs'
COMPONENTS = {'real': ['sporco.util.Timer', 'sporco.util.ContextTimer'], 'stub': ['the clock behind timeit.default_timer (time advances in exact binary fractions, only when the simulator says so)']}
ASSUMPTIONS = ['the labels that denote the default timer and all timers are not used as ordinary labels']

LBL = ['a', 'b', 'cc', 'd d', 'main', 'T', 'all', '']


class Clock(object):
    def __init__(self, t):
        self.t = t

    def now(self):
        return self.t


class Model(object):
    def __init__(self, labels, dflt, al):
        self.acc, self.t0 = {}, {}
        self.dflt, self.al = dflt, al
        for l in labels:
            self.acc[l], self.t0[l] = 0.0, None

    def lst(self, l, alls):
        if l is None:
            l = self.dflt
        if alls and l == self.al:
            return list(self.t0)
        return list(l) if isinstance(l, (list, tuple)) else [l]

    def start(self, l, t):
        for x in self.lst(l, False):
            self.acc.setdefault(x, 0.0)
            if self.t0.setdefault(x, None) is None:
                self.t0[x] = t

    def stop(self, l, t):
        for x in self.lst(l, True):
            if x not in self.t0:
                raise KeyError(x)
            if self.t0[x] is not None:
                self.acc[x] += t - self.t0[x]
                self.t0[x] = None

    def reset(self, l, t):
        for x in self.lst(l, True):
            if x not in self.t0:
                raise KeyError(x)
            self.t0[x], self.acc[x] = None, 0.0

    def elapsed(self, l, total, t):
        if l is None:
            l = self.dflt
            if l not in self.t0:
                return 0.0
        if l not in self.t0:
            raise KeyError(l)
        e = 0.0 if self.t0[l] is None else t - self.t0[l]
        return e + (self.acc[l] if total else 0.0)


def rlab(rng, alls=True, single=False):
    z = rng.random()
    if z < .2:
        return None
    if alls and z < .3:
        return '*'
    if z < .5 and not single:
        return [rng.choice(LBL) for _ in range(rng.randint(1, 3))]
    return rng.choice(LBL)


def rops(rng, depth, n):
    ops = []
    for _ in range(n):
        t = rng.randrange(2)
        z = rng.random()
        if z < .3:
            ops.append(['adv', rng.choice([0, 1, 2, 3, 17, 64, 1000, 1 << 20, -1, -40])])
        elif z < .45:
            ops.append(['start', t, rlab(rng, False)])
        elif z < .58:
            ops.append(['stop', t, rlab(rng)])
        elif z < .63:
            ops.append(['reset', t, rlab(rng)])
        elif z < .78:
            ops.append(['elapsed', t, rlab(rng, False, True), rng.random() < .6])
        elif z < .81:
            ops.append(['str', t])
        elif z < .84:
            ops.append(['labels', t])
        elif depth < 4:
            ops.append(['with', rng.choice([t, t, -1]), rlab(rng, False, True), rng.choice(['StartStop', 'StartStop', 'StopStart']),
                        rng.random() < .3, rops(rng, depth + 1, rng.randint(1, 4))])
    return ops


def generate(rng, tier, i):
    tm = []
    for _ in range(2):
        tm.append(dict(labels=rng.choice([None, None, 'a', ['a', 'b'], ['cc', 'main'], []]), dflt=rng.choice(['main', 'main', 'dd']),
                       al=rng.choice(['all', 'all', 'ALL'])))
    return dict(tm=tm, t0=rng.choice([0, 0, 1, 6400, 1 << 24]), ops=rops(rng, 0, rng.randint(3, 40)))


def nontrivial(scn):
    import json
    s = json.dumps(scn)
    return s if '"adv"' in s and ('"start"' in s or '"with"' in s) else None


class Boom(Exception):
    pass


def execute(scn, ctx):
    ck = Clock(scn['t0'] / 64.0)
    ENV.clock = ck
    pairs = []
    for d in scn['tm']:
        l = d['labels']
        m = Model([] if l is None else ([l] if isinstance(l, str) else l), d['dflt'], d['al'])
        t = su.Timer(labels=l, dfltlbl=d['dflt'], alllbl=d['al'])
        pairs.append((t, m))

    def lab(m, l, ctxm=False):
        if l == '*':
            return m.al
        if isinstance(l, list):
            return [x for x in l if x not in (m.al,)] or [m.dflt]
        if l == m.al:
            return 'zz'
        return l

    def both(what, ft, fm):
        try:
            want, we = fm(), None
        except KeyError as e:
            want, we = None, e
        try:
            got, ge = ft(), None
        except KeyError as e:
            got, ge = None, e
        if (we is None) != (ge is None):
            raise Violation('error', '%s %s' % (what, 'did not raise KeyError' if ge is None else 'raised KeyError'))
        return got, want

    def audit(what):
        for i, (t, m) in enumerate(pairs):
            if set(t.labels()) != set(m.t0):
                raise Violation('labels', 'after %s timer %d has labels %s, expected %s' % (what, i, sorted(t.labels()), sorted(m.t0)))
            for l in m.t0:
                for tot in (True, False):
                    g, w = t.elapsed(l, total=tot), m.elapsed(l, tot, ck.t)
                    if abs(g - w) > 1e-9 * max(1.0, abs(w)):
                        raise Violation('elapsed', 'after %s timer %d label %r reports %r (total=%s), expected %r' % (what, i, l, g, tot, w))

    def known(m, l):
        """lists are only passed with labels that exist (the effect of a partly unknown list is not specified)"""
        return not isinstance(l, list) or all(x in m.t0 for x in l)

    def play(ops):
        for op in ops:
            if op[0] == 'adv':
                ck.t += op[1] / 64.0
                ctx.simtime += abs(op[1]) / 64.0
                ctx.fault('clock_back' if op[1] < 0 else 'clock_stall' if op[1] == 0 else 'clock_jump' if op[1] > 999 else 'clock_advance')
            elif op[0] in ('start', 'stop', 'reset'):
                t, m = pairs[op[1]]
                l = lab(m, op[2])
                if op[0] != 'start' and not known(m, l):
                    continue
                ctx.key(op[0], sorted(str(k) for k, v in m.t0.items() if v is not None))
                both('%s(%r)' % (op[0], l), lambda: getattr(t, op[0])(l) if l is not None else getattr(t, op[0])(),
                     lambda: getattr(m, op[0])(l, ck.t))
            elif op[0] == 'elapsed':
                t, m = pairs[op[1]]
                l = lab(m, op[2])
                g, w = both('elapsed(%r)' % l, lambda: t.elapsed(l, op[3]), lambda: m.elapsed(l, op[3], ck.t))
                if w is not None and abs(g - w) > 1e-9 * max(1.0, abs(w)):
                    raise Violation('elapsed', 'elapsed(%r, total=%s) is %r, expected %r' % (l, op[3], g, w))
            elif op[0] == 'str':
                t, m = pairs[op[1]]
                s = str(t)
                for x in m.t0:
                    if x not in s:
                        raise Violation('table', 'label %r missing from the table of timers' % x)
            elif op[0] == 'labels':
                t, m = pairs[op[1]]
                if sorted(t.labels()) != sorted(m.t0):
                    raise Violation('labels', 'labels are %s, expected %s' % (sorted(t.labels()), sorted(m.t0)))
            elif op[0] == 'with':
                if op[1] >= 0:
                    t, m = pairs[op[1]]
                else:
                    t, m = None, Model([], 'main', 'all')
                l = lab(m, op[2])
                ss = op[3] == 'StartStop'
                if not ss and (m.dflt if l is None else l) not in m.t0:
                    if t is None:
                        continue
                    try:
                        with su.ContextTimer(t, l, op[3]):
                            raise Violation('error', 'stopping unknown timer %r raised nothing' % l)
                    except KeyError:
                        audit('context entry with unknown label')
                        continue
                ct = su.ContextTimer(t, l, op[3])
                if t is None:
                    pairs.append((ct.timer, m))
                (m.start if ss else m.stop)(l, ck.t)
                out = None
                try:
                    with ct as c2:
                        g, w = both('context elapsed', lambda: c2.elapsed(), lambda: m.elapsed(l, True, ck.t))
                        if w is not None and abs(g - w) > 1e-9 * max(1.0, abs(w)):
                            raise Violation('elapsed', 'context elapsed is %r, expected %r' % (g, w))
                        play(op[5])
                        if op[4]:
                            ctx.fault('exception_in_context')
                            raise Boom()
                    out = 'normal'
                except Boom:
                    out = 'exc'
                if (out == 'exc') != bool(op[4]):
                    raise Violation('exception', 'an exception raised inside a timed block did not reach the caller' if op[4]
                                    else 'timed block raised')
                x = m.dflt if l is None else l
                (m.stop if ss else m.start)(l, ck.t)
                for tot in (True, False):
                    g, w = ct.elapsed(total=tot), m.elapsed(l, tot, ck.t)
                    if abs(g - w) > 1e-9 * max(1.0, abs(w)):
                        raise Violation('elapsed', 'after the timed block label %r reports %r (total=%s), expected %r' % (x, g, tot, w))
            audit(op[:3])
            ctx.log(op[0], ck.t)
            ctx.steps += 1

    play(scn['ops'])
    ENV.clock = None


def shrink(scn):
    for o in drop_each(scn['ops']):
        if o:
            yield with_(scn, ops=o)
    for i, o in enumerate(scn['ops']):
        if o[0] == 'with':
            yield with_(scn, ops=scn['ops'][:i] + o[5] + scn['ops'][i + 1:])
            for s in drop_each(o[5]):
                yield with_(scn, ops=scn['ops'][:i] + [o[:5] + [s]] + scn['ops'][i + 1:])
