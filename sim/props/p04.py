"""P04: solvers living in the same process do not influence each other."""
import gc
import copy
import random

import numpy as np

from .. import cat
from ..engine import Violation
from ..fresh import Fresh
from ..simsched import Sim, Schedule
from ..util import rs, same, same_stats, stats, with_, drop_each, snap
from .p01 import all_finite

LEVEL = 'exploration'
RUNS = dict(quick=3500, thorough=100000)
RULE = ('a scenario fixes two or three solvers (any classes; the same class with the same options object, the same input arrays, or unrelated), the operations of each (construction, '
        'calls of solve, queries, deletion) and one interleaving of them, either operation by operation or in threads that are switched between byte code operations of package code; '
        'each solver is compared with the same operations performed alone in a process of its own; non-trivial if the operations of at least two solvers alternate')
MEASURE = 'distinct (classes, kind of sharing, interleaving of operations)'
COMPONENTS = {'real': ['all serial ADMM, PGM and dictionary learning classes', 'sporco.cdict', 'sporco.common', 'sporco.fft', 'sporco.linalg', 'sporco.prox'],
              'stub': ['the thread scheduler (threads run one at a time and are switched by the simulator)']}
ASSUMPTIONS = ['thread switches happen between byte code operations of package code, as under the global interpreter lock; code inside NumPy and the FFT library is atomic',
               'the parallel solvers, which document their use of module globals, are covered by P05-P07 instead']
STRICT_REF = True


def has_w(o):
    if isinstance(o, dict):
        return '$w' in o or any(has_w(v) for v in o.values())
    return False


def generate(rng, tier, i):
    ns = cat.names()
    n = 2 if rng.random() < .8 else 3
    sol = []
    for j in range(n):
        c = None
        share = None
        if j:
            src = rng.randrange(j)
            u = rng.random()
            if u < .5:
                share = [src, 'opt']
            elif u < .75:
                share = [src, 'arr']
            if share:
                c = copy.deepcopy(sol[src]['c'])
                c['lmbda'] = rng.choice([0.02, 0.1, 0.25])
                if share[1] == 'opt':
                    if rng.random() < .5 and not has_w(c['o']):
                        c['ds'] = rng.randrange(1 << 30)
                else:
                    d = cat.gen(rng, name=c['name'])
                    c['o'] = d['o'] if not has_w(d['o']) else {}
                    if c.get('cplx'):
                        c['o'].pop('DataType', None)
                    if c['name'].split('.')[0] == 'dictlrn':
                        c['o'] = sol[src]['c']['o']
        if c is None:
            c = cat.gen(rng, name=ns[(i + 17 * j) % len(ns)])
        sol.append(dict(c=c, share=share, m=rng.randint(1, 3) if not (share and share[1] == 'opt') else sol[share[0]]['m'],
                        warm=None, n=rng.randint(1, 4), q=rng.random() < .4, dele=rng.random() < .3))
    if rng.random() < .3:
        for s in sol:
            if s['c']['name'].split('.')[0] in ('admm', 'pgm') and not (s['share'] and s['share'][1] == 'opt'):
                s['warm'] = 5
        for s in sol:
            if s['share'] and s['share'][1] == 'opt':
                s['warm'] = sol[s['share'][0]]['warm']
    thr = i % 4 == 3
    if thr and rng.random() < .12:
        # the options classes of these are made on demand
        n = rng.choice(['dictlrn.cbpdndl.ConvBPDNDictLearn', 'dictlrn.cbpdndlmd.ConvBPDNMaskDictLearn'])
        sol = [dict(c=cat.gen(rng, name=n), share=None, m=rng.randint(1, 2), warm=None, n=1, q=False, dele=False) for _ in range(2)]
    for j, s in enumerate(sol):
        s['own'] = s['warm'] is None and rng.random() < .6 and not any(t['share'] == [j, 'opt'] for t in sol) and not (s['share'] and s['share'][1] == 'opt')
    ops = []
    for j, s in enumerate(sol):
        for k in range(1 + s['n'] + s['q'] + s['dele']):
            ops.append(j)
    rng.shuffle(ops)
    return dict(sol=sol, ops=ops, sched=dict(seed=rng.randrange(1 << 30), lens=rng.choice([[1, 3, 10, 40], [10, 100, 400], [100, 1000], [1000, 5000]])) if thr else None)


def nontrivial(scn):
    import json
    sw = sum(1 for a, b in zip(scn['ops'], scn['ops'][1:]) if a != b)
    return json.dumps(scn, sort_keys=True) if scn['sched'] or sw > 1 else None


def freeze(o, depth=0):
    """Deep snapshot of an options value, comparable with ==."""
    if isinstance(o, dict):
        return ('dict', tuple((k, freeze(o[k], depth + 1)) for k in sorted(o, key=str)))
    if isinstance(o, np.ndarray):
        return ('arr', o.shape, str(o.dtype), o.tobytes())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(freeze(v, depth + 1) for v in o))
    if o is None or isinstance(o, (int, float, str, complex, np.generic)):
        return ('v', repr(o))
    if callable(o) or depth > 6:
        return ('id', id(o))
    return ('obj', type(o).__name__, freeze(getattr(o, '__dict__', {}), depth + 1))


class Live(object):
    """One solver and the operations performed on it."""

    def __init__(self, s, inp, opt):
        self.s, self.inp, self.opt = s, inp, opt
        self.b = None
        self.ret = None
        self.step = 0
        self.out = None

    def op(self):
        s = self.s
        k = self.step
        self.step += 1
        if k == 0:
            self.b = cat.construct(s['c'], self.inp, cat.options(s['c'], self.inp, {'MaxMainIter': s['m']}) if s.get('own') else self.opt)
            return
        k -= 1
        if k < s['n']:
            self.ret = self.b.solve()
            if k == s['n'] - 1:
                self.out = (cat.result(self.b, self.ret), stats(cat.core(self.b).itstat), cat.counter(self.b))
            return
        k -= s['n']
        if s['q']:
            if k == 0:
                again = cat.result(self.b, self.ret), stats(cat.core(self.b).itstat), cat.counter(self.b)
                same('repeated query', again[0], self.out[0], 0, 'query')
                return
            k -= 1
        if s['dele'] and k == 0:
            self.b = self.ret = None
            gc.collect()

    def nops(self):
        return 1 + self.s['n'] + self.s['q'] + self.s['dele']


def make(sol):
    lives = []
    pool = {}
    for s in sol:
        c = s['c']
        sh = s['share']
        if sh and (sh[1] == 'arr' or c['ds'] == sol[sh[0]]['c']['ds']):
            inp = lives[sh[0]].inp
        else:
            inp = cat.inputs(c)
        if sh and sh[1] == 'opt':
            opt = lives[sh[0]].opt
        else:
            opt = cat.options(c, inp, {'MaxMainIter': s['m']})
            if s.get('warm') is not None:
                warm(c, inp, opt, s['warm'], pool)
        lives.append(Live(s, inp, opt))
    return lives


def warm(c, inp, opt, seed, pool):
    """Initial iterates as option values; the same arrays for every solver with the same seed and shape."""
    b = cat.core(cat.construct(c, inp, cat.options(c, inp)))
    for n, v in ((('Y0', 'Y'), ('U0', 'U')) if c['name'].startswith('admm') else (('X0', 'X'),)):
        a = getattr(b, v)
        k = (n, a.shape, str(a.dtype), seed)
        if k not in pool:
            x = rs(seed).standard_normal(a.shape) * 0.1
            if a.dtype.kind == 'c':
                x = x + 1j * rs(seed + 1).standard_normal(a.shape) * 0.1
            pool[k] = x.astype(a.dtype)
        opt[n] = pool[k]


def alone(s):
    """Reference: the same operations in a process in which nothing else happens."""
    t = dict(s, share=None)
    lv = make([t])[0]
    for _ in range(1 + s['n']):
        lv.op()
    return lv.out


def execute(scn, ctx):
    sol = scn['sol']
    fr = [Fresh(alone) for _ in sol]
    want = []
    try:
        for f, s in zip(fr, sol):
            r = f.run(s)
            if r[0] != 'ok':
                if r[0] == 'exc':
                    raise Violation('reference', 'valid use of %s without interference raised %s: %s\n%s' % ((s['c']['name'],) + tuple(r[1:])), sig='reference:%s' % r[1])
                raise RuntimeError('reference process died')
            want.append(r[1])
    finally:
        for f in fr:
            f.close()
    if not all(all_finite(w[0]) for w in want):
        ctx.probe('diverged')
        return
    lives = make(sol)
    before = [(freeze(lv.inp), freeze(lv.opt)) for lv in lives]
    if scn['sched']:
        sc = scn['sched']
        sim = Sim(Schedule(random.Random(sc['seed']), sc['lens'], 0))
        for lv in lives:
            def body(th, lv=lv):
                for _ in range(lv.nops()):
                    lv.op()
                    th.yield_()
            sim.spawn(body)
        try:
            sim.run()
        finally:
            sim.killall()
        for t in sim.threads:
            if t.exc is not None:
                def f(e=t.exc):
                    raise e
                ctx.attempt('solver in a thread', f)
        ctx.steps += sim.steps
        ctx.fault('thread_switch', sim.switches)
        ctx.key([s['c']['name'] for s in sol], [s['share'] for s in sol], sim.switches)
    else:
        sw = 0
        last = None
        for j in scn['ops']:
            if j < len(lives) and lives[j].step < lives[j].nops():
                ctx.attempt('operation %d of %s' % (lives[j].step, sol[j]['c']['name']), lives[j].op)
                ctx.steps += 1
                sw += last is not None and j != last
                last = j
        for lv in lives:
            while lv.step < lv.nops():
                ctx.attempt('operation %d' % lv.step, lv.op)
        ctx.fault('interleave', sw)
        ctx.key([s['c']['name'] for s in sol], [s['share'] for s in sol], scn['ops'])
    for s in sol:
        if s['share']:
            ctx.fault('shared_' + s['share'][1])
    for j, (lv, w) in enumerate(zip(lives, want)):
        tol = cat.tol(lv.s['c'])
        what = 'solver %d (%s)' % (j, lv.s['c']['name'])
        g = lv.out
        same(what + ': solution', g[0], w[0], tol, 'solution')
        if g[2] != w[2]:
            raise Violation('iterations', '%s: iteration counter is %r, expected %r' % (what, g[2], w[2]))
        same_stats(what + ': statistics', g[1], w[1], max(tol, 1e-6), 'stats')
        if freeze(lv.inp) != before[j][0]:
            raise Violation('inputs', '%s modified an array it was given' % what)
        if freeze(lv.opt) != before[j][1]:
            a, b = dict(before[j][1][1]), dict(freeze(lv.opt)[1])
            raise Violation('options', '%s modified the options it was given: %s' % (what, [k for k in b if b[k] != a.get(k)]))
    ctx.log([s['c']['name'] for s in sol], [lv.out[2] for lv in lives])
    ctx.note('%s sharing %s' % ([s['c']['name'] for s in sol], [s['share'] for s in sol]))


def shrink(scn):
    sol = scn['sol']
    if len(sol) > 2:
        for j in range(len(sol)):
            if any(s['share'] and s['share'][0] == j for s in sol):
                continue
            rest = []
            for s in sol[:j] + sol[j + 1:]:
                s = copy.deepcopy(s)
                if s['share'] and s['share'][0] > j:
                    s['share'][0] -= 1
                rest.append(s)
            yield with_(scn, sol=rest, ops=[o - (o > j) for o in scn['ops'] if o != j])
    elif len(sol) == 2 and not sol[1]['share']:
        for j in (0, 1):
            yield with_(scn, sol=[sol[1 - j]], ops=[0] * len(scn['ops']), sched=None)
    if scn['sched']:
        yield with_(scn, sched=None)
        for l in ([1 << 20], [1000], [100]):
            if l != scn['sched']['lens']:
                yield with_(scn, sched=dict(scn['sched'], lens=l))
    for j, s in enumerate(sol):
        for k, v in (('q', False), ('dele', False), ('n', max(1, s['n'] - 1)), ('m', max(1, s['m'] - 1))):
            if s[k] != v:
                t = copy.deepcopy(sol)
                t[j][k] = v
                if k == 'm':
                    for u in t:
                        u['m'] = v
                yield with_(scn, sol=t)
        if not any(u['share'] for u in sol):
            for c in cat.shrink_conf(s['c']):
                t = copy.deepcopy(sol)
                t[j]['c'] = c
                yield with_(scn, sol=t)
        elif all(u['share'] and u['share'][1] == 'opt' for u in sol[1:]):
            for c in cat.shrink_conf(sol[0]['c']):
                t = copy.deepcopy(sol)
                for u in t:
                    u['c']['o'] = c['o']
                yield with_(scn, sol=t)
    for o in drop_each(scn['ops']):
        if not scn['sched']:
            yield with_(scn, ops=o)
