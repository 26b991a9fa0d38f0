"""P06: parallel consensus dictionary learning is independent of worker scheduling."""
import copy

from .. import par
from ..boot import ENV
from ..engine import Violation
from ..simpool import PoolWorld
from ..util import same, same_stats, stats, snap, with_, drop_each

LEVEL = 'exploration'
RUNS = dict(quick=800, thorough=6000)
RULE = ('a scenario fixes a learning problem (mask or not, single/multi channel, number of training signals, options), a worker count, '
        'a split of the iterations over solve calls, optional earlier learners in the same process and a seeded schedule; non-trivial if more than one worker is used')
MEASURE = 'distinct (task-to-worker order, number of context switches, first 50 schedule decisions) per parallel section'
COMPONENTS = {'real': ['sporco.dictlrn.prlcnscdl', 'sporco.dictlrn.cbpdndl', 'sporco.dictlrn.cbpdndlmd', 'sporco.admm', 'sporco.linalg', 'sporco.fft', 'numpy'],
              'stub': ['multiprocessing.Pool (simulated fork, task queue, scheduling)', 'multiprocessing.RawArray (in-process shared memory)']}
ASSUMPTIONS = ['workers interleave between Python operations of package code, or perform single operations simultaneously; a single numpy call is not torn',
               'worker processes see a copy of the module globals taken at pool creation; only RawArray memory is shared']


def generate(rng, tier, i):
    c = par.gen_cns(rng)
    prev = None
    if rng.random() < .35:
        prev = dict(c=par.gen_cns(rng), n=rng.randint(1, 2), nproc=rng.choice([0, 1, 2]), keep=rng.random() < .3)
    return dict(c=c, segs=par.gen_segs(rng, rng.randint(1, 6)), nproc=rng.choice([1, 2, 2, 3, 3, 4, 5]), sched=par.gen_sched(rng),
                prev=prev, default_nproc=rng.random() < .08)


def nontrivial(scn):
    import json
    return json.dumps(scn, sort_keys=True) if scn['nproc'] > 1 else None


def results(b):
    return snap(b.getdict()), snap(b.getdict(crop=False)), snap(b.getcoef()), stats(b.itstat), b.j


def execute(scn, ctx):
    c = scn['c']
    total = par.seg_total(scn['segs'])
    tol = 1e-8

    def ref():
        b = par.cns_make(c, 0)
        b.opt['MaxMainIter'] = total
        b.solve()
        return results(b)
    want = ctx.reference(ref)
    ENV.pools = PoolWorld(ctx, par.schedules(scn['sched']))
    ENV.ncpu = 3
    hold = None
    if scn['prev']:
        p = scn['prev']

        def prev():
            pb = par.cns_make(p['c'], p['nproc'])
            pb.opt['MaxMainIter'] = p['n']
            pb.solve()
            return pb
        hold = ctx.reference(prev)
        if not p['keep']:
            hold = None

    def test():
        b = par.cns_make(c, None if scn['default_nproc'] else scn['nproc'])
        ret = snap(par.run_segments(b, scn['segs']))
        return (ret,) + results(b)
    got = ctx.attempt('parallel learning', test)
    ctx.log('j', got[5], len(got[4]))
    same('returned dictionary', got[0], want[0], tol, 'dictionary')
    same('dictionary', got[1], want[0], tol, 'dictionary')
    same('padded dictionary', got[2], want[1], tol, 'dictionary')
    same('coefficients', got[3], want[2], tol, 'coefficients')
    if got[5] != want[4]:
        raise Violation('iterations', 'iteration counter %r, expected %r' % (got[5], want[4]))
    same_stats('statistics', got[4], want[3], 1e-7, 'stats')
    ctx.note('nproc=%s K=%s segs=%s switches=%d races=%d' % (
        scn['nproc'], c['K'], scn['segs'], ctx.probes['context_switches'], ctx.probes['simultaneous_operations']))


def shrink(scn):
    if scn['prev']:
        yield with_(scn, prev=None)
    if scn['default_nproc']:
        yield with_(scn, default_nproc=False)
    if scn['nproc'] > 2:
        yield with_(scn, nproc=2)
    if scn['nproc'] > 1:
        yield with_(scn, nproc=1)
    for s in drop_each(scn['segs']):
        if s:
            yield with_(scn, segs=s)
    for i, (l, st) in enumerate(scn['segs']):
        s = copy.deepcopy(scn)
        if st is not None:
            s['segs'][i] = [st, None]
            yield s
        elif l > 1:
            s['segs'][i] = [l - 1, None]
            yield s
    c = scn['c']
    for k, v in [('mask', False), ('W', 'one'), ('kind', 'g'), ('K', 1), ('K', max(1, c['K'] - 1)), ('M', 2)]:
        if c[k] != v:
            s = copy.deepcopy(scn)
            s['c'][k] = v
            yield s
    for g in ('xo', 'do'):
        for k, v in [('RelaxParam', 1.0), ('rho', 1.0), ('ZeroMean', False)]:
            if k in c[g] and c[g][k] != v:
                s = copy.deepcopy(scn)
                s['c'][g][k] = v
                yield s
    if scn['sched'].get('prace'):
        s = copy.deepcopy(scn)
        s['sched']['prace'] = 0
        yield s
    if scn['sched'].get('lens') != [1000000]:
        s = copy.deepcopy(scn)
        s['sched']['lens'] = [1000000]
        yield s
