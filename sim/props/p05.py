"""P05: parallel convolutional sparse coding is independent of worker scheduling."""
import copy

from .. import par
from ..boot import ENV
from ..engine import Violation
from ..simpool import PoolWorld
from ..util import same, same_stats, stats, snap, with_, drop_each

LEVEL = 'exploration'
RUNS = dict(quick=700, thorough=6000)
RULE = ('a scenario fixes a problem (single/multi signal, single/multi channel, mask, weights, options), a grouping, a worker count, '
        'a split of the iterations over solve calls (limits and callback stops) and a seeded schedule of worker operations; it is non-trivial if more '
        'than one worker or more than one segment is used; distinct = distinct (problem, grouping, workers, segments, schedule)')
MEASURE = 'distinct (task-to-worker order, number of context switches, first 50 schedule decisions) per parallel section'
COMPONENTS = {'real': ['sporco.admm.parcbpdn', 'sporco.admm.cbpdn', 'sporco.linalg', 'sporco.fft', 'pyfftw', 'numpy', 'pickle'],
              'stub': ['multiprocessing.Pool (simulated fork, task queue, scheduling)', 'multiprocessing.RawArray (in-process shared memory)',
                       'cpu count']}
ASSUMPTIONS = ['workers interleave between Python operations of package code, or perform single operations simultaneously; a single numpy call is not torn',
               'worker processes see a copy of the module globals taken at pool creation; only RawArray memory is shared']


def generate(rng, tier, i):
    c = par.gen_par(rng)
    # 'is'-style identity slips and counters only show beyond small integers
    if i % 16 == 7:
        total = rng.choice([258, 262, 300])
        c['N'] = [4, 4]
        c['Nd'] = 2
        c['M'] = min(c['M'], 3)
        c['ngrp'] = min(c['ngrp'], c['M'])
        cut = rng.randint(2, total - 2) if rng.random() < .3 else rng.choice([255, 256, 257, 257, 257])
        segs = [[cut, None], [total - cut, None]]
        nproc = 1
        sched = dict(seed=rng.randrange(1 << 30), lens=[1000], prace=0)
        if rng.random() < .3:
            nproc = 2
    else:
        segs = par.gen_segs(rng, rng.randint(2, 6))
        nproc = rng.randint(2, 4) if rng.random() < .9 else 1
        sched = par.gen_sched(rng)
    prev = None
    if rng.random() < .3:
        prev = dict(c=par.gen_par(rng), n=rng.randint(1, 2), nproc=rng.choice([1, 2]), keep=rng.random() < .3)
    return dict(c=c, segs=segs, nproc=nproc, sched=sched, prev=prev, default_nproc=rng.random() < .08)


def nontrivial(scn):
    import json
    if scn['nproc'] > 1 or len(scn['segs']) > 1:
        return json.dumps(scn, sort_keys=True)
    return None


def execute(scn, ctx):
    c = scn['c']
    total = par.seg_total(scn['segs'])
    tol = 2e-4 if c['f32'] else 1e-8

    def ref():
        b = par.par_make(c, 1, {'MaxMainIter': total})
        r = b.solve()
        return snap(r), snap(b.getcoef()), stats(b.itstat), b.k

    want, wcoef, wst, wk = ctx.reference(ref)
    # statistics of the same sequence of solve calls, serial execution
    bs = par.par_make(c, 1)
    ctx.reference(par.run_segments, bs, scn['segs'])
    segst = stats(bs.itstat)

    ENV.pools = PoolWorld(ctx, par.schedules(scn['sched']))
    ENV.ncpu = 3
    hold = None
    if scn['prev']:
        p = scn['prev']

        def prev():
            pb = par.par_make(p['c'], p['nproc'])
            pb.opt['MaxMainIter'] = p['n']
            pb.solve()
            return pb
        hold = ctx.reference(prev)
        if not p['keep']:
            hold = None

    def test():
        b = par.par_make(c, None if scn['default_nproc'] else scn['nproc'])
        r = par.run_segments(b, scn['segs'])
        return snap(r), snap(b.getcoef()), stats(b.itstat), b.k
    got, gcoef, gst, gk = ctx.attempt('parallel solve', test)
    ctx.log('k', gk, len(gst))
    same('solution', got, want, tol, 'solution')
    same('coefficients', gcoef, wcoef, tol, 'solution')
    if gk != wk:
        raise Violation('iterations', 'iteration counter %r, expected %r' % (gk, wk))
    same_stats('statistics', gst, segst, max(tol, 1e-7), 'stats')
    for a, b in zip(gst, wst):
        if a['Iter'] != b['Iter']:
            raise Violation('iterations', 'iteration number %r, expected %r' % (a['Iter'], b['Iter']))
    if c['opt']['AuxVarObj']:
        same_stats('statistics of the uninterrupted run', [{'ObjFun': a['ObjFun']} for a in gst],
                   [{'ObjFun': a['ObjFun']} for a in wst], max(tol, 1e-7), 'stats')
    ctx.notes.append('nproc=%s ngrp=%s segs=%s switches=%d races=%d' % (
        scn['nproc'], c['ngrp'], scn['segs'], ctx.probes['context_switches'], ctx.probes['simultaneous_operations']))


def shrink(scn):
    if scn['prev']:
        yield with_(scn, prev=None)
    if scn['default_nproc']:
        yield with_(scn, default_nproc=False)
    if scn['nproc'] > 2:
        yield with_(scn, nproc=2)
    if scn['nproc'] > 1:
        yield with_(scn, nproc=1)
    for s in drop_each(scn['segs']):
        if s:
            yield with_(scn, segs=s)
    for i, (l, st) in enumerate(scn['segs']):
        s = copy.deepcopy(scn)
        if st is not None:
            s['segs'][i] = [st, None]
            yield s
        elif l > 1:
            s['segs'][i] = [max(1, l // 2), None]
            yield s
            s = copy.deepcopy(scn)
            s['segs'][i] = [l - 1, None]
            yield s
    c = scn['c']
    for k, v in [('W', None), ('l1w', None), ('kind', 'g'), ('f32', False)]:
        if c[k] != v:
            s = copy.deepcopy(scn)
            s['c'][k] = v
            yield s
    for k, v in [('RelaxParam', 1.0), ('alpha', None), ('NonNegCoef', False), ('NoBndryCross', False), ('HighMemSolve', False), ('AuxVarObj', True)]:
        if c['opt'][k] != v:
            s = copy.deepcopy(scn)
            s['c']['opt'][k] = v
            yield s
    if scn['sched'].get('prace'):
        s = copy.deepcopy(scn)
        s['sched']['prace'] = 0
        yield s
    if scn['sched'].get('lens') != [1000000]:
        s = copy.deepcopy(scn)
        s['sched']['lens'] = [1000000]
        yield s
