"""P12: iteration counts, stop conditions and timings are exact under any clock."""
import numpy as np

import sporco.dictlrn.onlinecdl as onl

from .. import cat, par
from ..boot import ENV
from ..engine import Violation, subrng
from ..simpool import PoolWorld
from ..util import rs, same, same_stats, stats, snap, with_, drop_each
from . import p01

LEVEL = 'exploration'
RUNS = dict(quick=4000, thorough=100000)
RULE = ('a scenario fixes a solver (serial, parallel or online), an option setting, a sequence of solve calls with iteration limits, callback stops or tolerance stops, and a seeded clock that advances, '
        'stalls and jumps inside the steps, inside objective and residual computations, inside callbacks and between calls; non-trivial if time passes in at least two kinds of phase')
MEASURE = 'distinct (class, timer, limits, phases)'
COMPONENTS = {'real': ['all iterative solvers', 'sporco.util.Timer'], 'stub': ['the clock: time passes only at simulator-chosen points (start of a phase, callback, between calls)', 'worker pool for the parallel solvers']}
ASSUMPTIONS = ['callbacks do not raise', 'phases are the documented overridable methods (xstep, ystep, ustep, compute_residuals, update_rho, eval_objfn, evaluate)']
STRICT_REF = True

OUT = {'solve': (), 'solve_wo_func': ('eval',), 'solve_wo_rsdl': ('eval', 'rsdl'), 'solve_wo_btrack': ('eval', 'rsdl', 'bt'),
       'solve_wo_eval': ('eval',)}


class Clock(object):
    def __init__(self, ctx, rng, t0):
        self.t, self.ctx, self.rng = t0, ctx, rng
        self.led = []           # (phase, duration, iteration number at the time)
        self.depth = 0
        self.inside = False     # inside a call to solve

    def now(self):
        return self.t

    def adv(self, phase, it=None):
        if self.depth:
            return
        d = self.rng.choice([0, 0, 1, 2, 5, 64, 6400, 64 * 86400]) / 64.0
        self.t += d
        self.ctx.simtime += d
        self.ctx.fault('clock_stall' if d == 0 else 'clock_jump' if d > 50 else 'clock_advance')
        self.led.append((phase, d, it))

    def total(self, label, upto=None):
        ex = OUT[label] + ('between',)
        return sum(d for p, d, _ in (self.led if upto is None else self.led[:upto]) if p not in ex)


def hook(obj, name, phase, ck):
    f = getattr(obj, name, None)
    if f is None:
        return

    def w(*a, **k):
        ck.adv(phase)
        ck.depth += 1
        try:
            return f(*a, **k)
        finally:
            ck.depth -= 1
            if phase != 'eval':
                ck.adv(phase)
    try:
        setattr(obj, name, w)
    except AttributeError:
        pass


def generate(rng, tier, i):
    z = i % 20
    if z == 0:
        kind, c = 'par', par.gen_par(rng)
        labels = ['solve', 'solve_wo_func', 'solve_wo_rsdl']
    elif z == 1:
        kind, c = 'cns', par.gen_cns(rng)
        labels = ['solve', 'solve_wo_eval']
    elif z == 2:
        kind = 'online'
        c = dict(ds=rng.randrange(1 << 30), mask=rng.random() < .5)
        labels = ['solve', 'solve_wo_eval']
    else:
        c = cat.gen(rng)
        kind = cat.CAT[c['name']].fam
        labels = {'admm': ['solve', 'solve_wo_func', 'solve_wo_rsdl'], 'pgm': ['solve', 'solve_wo_func', 'solve_wo_rsdl', 'solve_wo_btrack'],
                  'dl': ['solve', 'solve_wo_eval']}[kind]
    scn = dict(kind=kind, c=c, label=rng.choice(labels), labels=labels, cs=rng.randrange(1 << 30), t0=rng.choice([0, 0, 64, 10**6]), tol=None, fast=False)
    if kind in ('admm', 'pgm') and rng.random() < .25:
        scn['tol'] = rng.choice([0.5, 0.2, 0.1, 0.05])
    elif kind in ('admm', 'pgm') and rng.random() < .1:
        scn['fast'] = True
    total = rng.choice([1, 2, 3, 5, 8])
    segs = cat.gen_segs(rng, total, zero=kind != 'online')
    if scn['tol']:
        segs = [[rng.randint(2, 15), None if rng.random() < .7 else rng.randint(1, 8)] for _ in range(rng.randint(1, 3))]
    scn['segs'] = segs
    return scn


def nontrivial(scn):
    import json
    return json.dumps(scn, sort_keys=True)


def make(scn):
    c, kind = scn['c'], scn['kind']
    if kind == 'par':
        return par.par_make(c, 2, {'IterTimer': scn['label']})
    if kind == 'cns':
        b = par.cns_make(c, 2)
        b.opt['IterTimer'] = scn['label']
        return b
    if kind == 'online':
        r = rs(c['ds'])
        cls = onl.OnlineConvBPDNMaskDictLearn if c['mask'] else onl.OnlineConvBPDNDictLearn
        o = cls.Options({'IterTimer': scn['label'], 'CBPDN': {'MaxMainIter': 3}})
        return cls(r.randn(3, 3, 4), 0.1, o, dimK=0)
    over = {'IterTimer': scn['label']}
    if scn['tol']:
        over['RelStopTol'] = scn['tol']
        if kind == 'admm':
            over['AbsStopTol'] = 0.0
    if scn['fast']:
        over['FastSolve'] = True
    return cat.build(c, over)


def run(scn, ctx, ck):
    kind = scn['kind']
    b = make(scn)
    core = cat.core(b)
    wrapper = core is not b
    calls = []
    if ck is not None:
        init = core.timer.elapsed('init')
        ck.adv('between')
        if kind in ('admm', 'pgm') and not wrapper:
            for n in ('xstep', 'ystep', 'ustep', 'relax_AX', 'on_iteration_start'):
                hook(core, n, 'step', ck)
            for n in ('compute_residuals', 'update_rho'):
                hook(core, n, 'rsdl', ck)
            hook(core, 'eval_objfn', 'eval', ck)
            if kind == 'pgm' and getattr(core, 'backtrack', None) is not None:
                hook(core.backtrack, 'update', 'bt', ck)
        elif kind == 'dl':
            hook(core.xstep, 'solve', 'step', ck)
            hook(core.dstep, 'solve', 'step', ck)
            hook(core, 'evaluate', 'eval', ck)
        elif kind == 'cns':
            hook(core, 'evaluate', 'eval', ck)
        elif kind == 'par':
            hook(core, 'eval_objfn', 'eval', ck)
        elif kind == 'online':
            hook(core, 'xstep', 'step', ck)
            hook(core, 'dstep', 'step', ck)
    k0 = 0
    ret = None
    r = rs(scn['cs'])
    for lim, stop in scn['segs']:
        cnt = [0]
        marks = []
        if kind == 'online':
            for _ in range(lim):
                S = r.randn(8, 8)
                n0 = len(ck.led) if ck is not None else 0
                ret = b.solve(S) if not scn['c']['mask'] else b.solve(S, (r.rand(8, 8) > .3).astype(float))
                if ck is not None:
                    check_times(scn, ctx, ck, core, None, init)
                    k0 += 1
                    if len(core.itstat) != k0 or core.itstat[-1].Iter != k0 - 1:
                        raise Violation('count', '%d records after %d calls' % (len(core.itstat), k0))
                    check_rec(scn, ck, core, k0 - 1, n0, len(ck.led))
                    ck.adv('between')
            continue
        o = core.opt
        o['MaxMainIter'] = lim

        def cb(obj):
            cnt[0] += 1
            if ck is not None:
                marks.append(len(ck.led))
                ck.adv('cb')
            return stop is not None and cnt[0] >= stop
        o['Callback'] = cb
        n0 = len(ck.led) if ck is not None else 0
        ret = b.solve()
        o['Callback'] = None
        if ck is not None:
            ck.adv('between')
            n = cnt[0]
            calls.append(n)
            if n > lim:
                raise Violation('count', '%d iterations performed, limit %d' % (n, lim))
            if stop is not None and n > stop:
                raise Violation('count', '%d iterations performed although the callback asked to stop at %d' % (n, stop))
            bound = lim if stop is None else min(lim, stop)
            k0 += n
            itst = core.itstat
            if scn['fast']:
                if len(itst):
                    raise Violation('count', 'statistics recorded with FastSolve')
            else:
                if len(itst) != k0:
                    raise Violation('count', '%d records after %d iterations' % (len(itst), k0))
                for q, s in enumerate(itst):
                    if s.Iter != q:
                        raise Violation('count', 'record %d has iteration number %r' % (q, s.Iter))
                for q in range(n):
                    check_rec(scn, ck, core, k0 - n + q, marks[q - 1] if q else n0, marks[q])
            met = []
            if scn['tol'] and not scn['fast']:
                for s in itst[k0 - n:]:
                    if kind == 'admm':
                        met.append(s.PrimalRsdl < s.EpsPrimal and s.DualRsdl < s.EpsDual)
                    else:
                        met.append(s.Rsdl < scn['tol'])
                if any(met[:-1]):
                    raise Violation('tolerance', 'iteration %d met the stopping tolerance but the call went on to %d' % (met.index(True) + 1, n))
            if n < bound and not (met and met[-1]):
                raise Violation('count', 'call with limit %d (callback stop %s) ended after %d iterations without reason' % (lim, stop, n))
            if n < bound:
                ctx.probe('tolerance_stop')
            if cat.counter(b) != k0 if kind in ('admm', 'pgm', 'dl') else False:
                raise Violation('count', 'iteration counter is %r after %d iterations' % (cat.counter(b), k0))
            check_times(scn, ctx, ck, core, wrapper, init)
    return b, core, ret


def check_rec(scn, ck, core, i, n0, n1):
    """Recorded time of record i; it was taken after the ledger entries up to n1, apart from trailing evaluations."""
    t = core.itstat[i].Time
    hi = ck.total(scn['label'], n1)
    # the record is made during the evaluation phase: time spent there may or may not be included
    cut = n1
    phases = ('eval', 'rsdl') if scn['kind'] in ('admm', 'pgm') else ('eval',)
    while cut > n0 and ck.led[cut - 1][0] in phases:
        cut -= 1
    lo = ck.total(scn['label'], cut)
    if scn['kind'] in ('admm', 'pgm'):
        # residual computation precedes the record, the penalty update follows it
        ev = [q for q in range(n0, n1) if ck.led[q][0] == 'eval']
        if ev:
            lo = ck.total(scn['label'], ev[0])
    if not lo - 1e-9 * max(1, lo) <= t <= hi + 1e-9 * max(1, hi):
        raise Violation('time', 'record %d has time %r (timer %s), expected between %r and %r; %s' % (i, t, scn['label'], lo, hi, ck.led[n0:n1]))


def check_times(scn, ctx, ck, core, wrapper, init):
    for l in scn['labels']:
        g, w = core.timer.elapsed(l), ck.total(l)
        if abs(g - w) > 1e-9 * max(1.0, w):
            raise Violation('time', 'timer %s reports %r after solve, expected %r; %s' % (l, g, w, ck.led[-12:]))
    if core.timer.elapsed('init') != init:
        raise Violation('time', 'initialisation timer changed from %r to %r' % (init, core.timer.elapsed('init')))


def execute(scn, ctx):
    ENV.ncpu = 2
    # reference for the numerical results: the same history with a clock that stands still
    ENV.pools = PoolWorld(ctx, par.schedules({'seed': 1, 'lens': [1000000], 'prace': 0}))
    still = Clock(ctx, None, 0.0)
    ENV.clock = still
    b0, c0, r0 = run(scn, ctx, None)
    want = [snap(r0), stats(c0.itstat)]
    ENV.pools = PoolWorld(ctx, par.schedules({'seed': 1, 'lens': [1000000], 'prace': 0}))
    ck = Clock(ctx, subrng(scn['cs'], 'clock'), scn['t0'] / 64.0)
    ENV.clock = ck
    b, core, ret = run(scn, ctx, ck)
    ENV.clock = None
    ctx.steps += len(core.itstat)
    ctx.log(scn['kind'], len(core.itstat), len(ck.led), ck.t)
    ctx.key(scn['c'].get('name', scn['kind']), scn['label'], scn['segs'], sorted(set(p for p, d, _ in ck.led if d)))
    if not p01.all_finite(want[:1]):
        return
    same('solution under a moving clock', snap(ret), want[0], 1e-9, 'clock')
    same_stats('statistics under a moving clock', stats(core.itstat), want[1], 1e-9, 'clock')


def shrink(scn):
    for s in drop_each(scn['segs']):
        if s and s[0][0]:
            yield with_(scn, segs=s)
    for i, (l, st) in enumerate(scn['segs']):
        if st is not None:
            yield with_(scn, segs=scn['segs'][:i] + [[st, None]] + scn['segs'][i + 1:])
        elif l > 1:
            yield with_(scn, segs=scn['segs'][:i] + [[l - 1, None]] + scn['segs'][i + 1:])
    if scn['kind'] in ('admm', 'pgm', 'dl'):
        for c in cat.shrink_conf(scn['c']):
            yield with_(scn, c=c)
