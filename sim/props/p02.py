"""P02: stopping and resuming dictionary learning never changes the outcome."""
from .. import cat, par
from ..util import same, same_stats, stats, with_, snap
from . import p01

LEVEL = 'exploration'
RUNS = dict(quick=2500, thorough=60000)
RULE = ('a scenario fixes a dictionary learning class and method combination, problem data, option setting and a history of solve calls (iteration limits, '
        'zero-length calls, callback stops); the interrupted history is compared with one uninterrupted run, then both are continued; non-trivial if there are at least two calls')
MEASURE = 'distinct (class, methods, options, cut positions)'
COMPONENTS = {'real': ['sporco.dictlrn.*', 'the sparse coding and dictionary update solvers they use', 'sporco.common', 'sporco.cnvrep'],
              'stub': ['the stop requests (callbacks, iteration limits) are decided by the simulator; the consensus learners run in their in-process mode (workers are simulated in P06)']}
ASSUMPTIONS = p01.ASSUMPTIONS
STRICT_REF = True


def generate(rng, tier, i):
    if i % 6 == 5:
        c = par.gen_cns(rng)
        c['name'] = 'cns'
        c['o'] = {}
    else:
        c = cat.gen(rng, name=rng.choice(['dictlrn.bpdndl.BPDNDictLearn', 'dictlrn.wbpdndl.WeightedBPDNDictLearn', 'dictlrn.user.Dict'] +
                                         ['dictlrn.cbpdndl.ConvBPDNDictLearn', 'dictlrn.cbpdndlmd.ConvBPDNMaskDictLearn'] * 4))
        if rng.random() < .15 and 'noopt' not in c and '.user.' not in c['name']:
            k = rng.choice([k for k in c['o'] if k in ('BPDN', 'CMOD', 'CBPDN', 'CCMOD')] or ['CBPDN' if 'dictlrn.cb' in c['name'] else 'BPDN'])
            c['o'][k] = dict(c['o'].get(k, {}), MaxMainIter=2)
    total = rng.choice([2, 3, 4, 5, 6, 8, 12])
    return dict(c=c, total=total, segs=cat.gen_segs(rng, total), more=rng.choice([0, 1, 2]))


nontrivial = p01.nontrivial


def make(c):
    if c['name'] == 'cns':
        return par.cns_make(c, 0)
    return cat.build(c)


def outcome(b, ret):
    return [snap(ret), snap(b.getdict()), snap(b.getcoef())], stats(b.itstat), b.j


def execute(scn, ctx):
    c = scn['c']
    segs = scn['segs']
    total = cat.seg_total(segs)

    def run(segs):
        b = make(c)
        r = cat.drive(b, segs)
        o = outcome(b, r)
        if scn['more']:
            r = cat.drive(b, [[scn['more'], None]])
        return o, outcome(b, r)
    want, want2 = ctx.reference(run, [[total, None]])
    if not p01.all_finite(want2[0]):
        ctx.probe('diverged')
        return
    got, got2 = ctx.attempt('interrupted run', run, segs)
    ctx.log(c['name'], segs, got2[2], len(got2[1]))
    ctx.fault('stop', sum(1 for s in segs if s[1] is not None))
    ctx.fault('iteration_limit', sum(1 for s in segs if s[1] is None and s[0]))
    ctx.fault('empty_call', sum(1 for s in segs if s[0] == 0))
    ctx.steps += got2[2]
    ctx.key(c['name'], c.get('xm'), c.get('dm'), sorted((k, str(sorted(v)) if isinstance(v, dict) else v) for k, v in c['o'].items()), segs)
    p01.compare('after %s' % segs, got, want, cat.tol(c))
    p01.compare('continued after %s' % segs, got2, want2, cat.tol(c))
    ctx.note('%s %s/%s segments %s' % (c['name'], c.get('xm'), c.get('dm'), segs))


def shrink(scn):
    for s in p01.shrink(dict(scn, mode='free')):
        s.pop('mode', None)
        yield s
