"""P01: stopping and resuming an ADMM or PGM solver never changes the outcome."""
from .. import cat
from ..engine import Violation
from ..util import same, same_stats, stats, with_, drop_each

FAM = ('admm', 'pgm')
LEVEL = 'exploration'
RUNS = dict(quick=8000, thorough=200000)
RULE = ('a scenario fixes a solver class, problem data, an option setting and a history of solve calls (iteration limits, zero-length calls, callback stops, or a tolerance stop '
        'at the end); the interrupted history is compared with one uninterrupted run of the same length, then both are continued; non-trivial if the history has at least two calls')
MEASURE = 'distinct (class, set of options, cut positions)'
COMPONENTS = {'real': ['all solver classes under sporco.admm and sporco.pgm', 'sporco.common', 'sporco.linalg', 'sporco.fft', 'sporco.prox'],
              'stub': ['the stop requests (callbacks, iteration limits) are decided by the simulator']}
ASSUMPTIONS = ['a stop request arrives at an iteration boundary, the only place where the interface accepts one',
               'zero-length calls are only made after the first iteration']
STRICT_REF = True


def generate(rng, tier, i):
    ns = cat.names(FAM)
    c = cat.gen(rng, name=ns[i % len(ns)])
    c['o'] = dict(c['o'])
    if rng.random() < .08:
        c['o']['FastSolve'] = True
    mode = 'tol' if rng.random() < .15 and not c['o'].get('FastSolve') else 'free'
    total = rng.choice([2, 3, 4, 5, 6, 8, 12, 15, 22])
    if mode == 'tol':
        c['o']['RelStopTol'] = rng.choice([0.3, 0.1, 0.05])
        c['o']['AbsStopTol'] = 0.0
        if c['name'].startswith('pgm'):
            del c['o']['AbsStopTol']
            if rng.random() < .4:
                c['o']['AutoStop'] = {'Enabled': True, 'Tau0': rng.choice([0.5, 2.0])}
        total = 25
    elif i % 97 == 50:
        total = rng.choice([258, 300])
    return dict(c=c, mode=mode, total=total, segs=cat.gen_segs(rng, total) if mode == 'free' else [rng.randint(1, 6) for _ in range(12)],
                more=rng.choice([0, 1, 3]))


def nontrivial(scn):
    import json
    return json.dumps(scn, sort_keys=True) if len(scn['segs']) > 1 else None


def outcome(b, ret):
    return cat.result(b, ret), stats(cat.core(b).itstat), cat.counter(b)


def compare(what, got, want, tol):
    same(what + ': solution', got[0], want[0], tol, 'solution')
    if got[2] != want[2]:
        raise Violation('iterations', '%s: iteration counter is %r, expected %r' % (what, got[2], want[2]))
    same_stats(what + ': statistics', got[1], want[1], max(tol, 1e-6), 'stats')


def execute(scn, ctx):
    c = scn['c']
    tol = cat.tol(c)
    if scn['mode'] == 'free':
        segs = scn['segs']
        total = cat.seg_total(segs)
    else:
        segs = None
        total = scn['total']

    def ref():
        b = cat.build(c, {'MaxMainIter': total})
        r = b.solve()
        o = outcome(b, r)
        if scn['more']:
            cat.core(b).opt['MaxMainIter'] = scn['more']
            r = b.solve()
        return o, outcome(b, r)
    want, want2 = ctx.reference(ref)
    if not all_finite(want2[0]):
        ctx.probe('diverged')
        return
    if segs is None:
        n0 = len(want[1])
        ctx.probe('tolerance_stop' if n0 < total else 'tolerance_not_reached')
        segs = []
        left = n0
        for s in scn['segs']:
            if left - s <= 0:
                break
            segs.append([s, None] if s % 2 else [s + 3, s])
            left -= s
        # the last call may do more but has to stop by itself
        segs.append([left + 4 if n0 < total else left, None])

    def test():
        b = cat.build(c)
        r = cat.drive(b, segs)
        o = outcome(b, r)
        if scn['more']:
            r = cat.drive(b, [[scn['more'], None]])
        return o, outcome(b, r)
    got, got2 = ctx.attempt('interrupted run', test)
    ctx.log(c['name'], segs, got2[2], len(got2[1]))
    ctx.fault('stop', sum(1 for s in segs if s[1] is not None))
    ctx.fault('iteration_limit', sum(1 for s in segs if s[1] is None and s[0]))
    ctx.fault('empty_call', sum(1 for s in segs if s[0] == 0))
    ctx.steps += got2[2]
    ctx.key(c['name'], sorted(c['o']), segs)
    compare('after %s' % segs, got, want, tol)
    compare('continued after %s' % segs, got2, want2, tol)
    ctx.note('%s segments %s' % (c['name'], segs))


def all_finite(lst):
    import numpy as np
    for v in lst:
        for a in (v if isinstance(v, (tuple, list)) else [v]):
            a = np.asarray(a)
            if a.dtype.kind in 'fc' and not (np.isfinite(a).all() and np.max(np.abs(a), initial=0) < 1e30):
                return False
    return True


def shrink(scn):
    if scn['mode'] == 'free':
        for s in drop_each(scn['segs']):
            if s and cat.seg_total(s) and s[0][0]:
                yield with_(scn, segs=s)
        for i, (l, st) in enumerate(scn['segs']):
            if st is not None:
                yield with_(scn, segs=scn['segs'][:i] + [[st, None]] + scn['segs'][i + 1:])
            elif l > 1:
                yield with_(scn, segs=scn['segs'][:i] + [[l // 2, None]] + scn['segs'][i + 1:])
                yield with_(scn, segs=scn['segs'][:i] + [[l - 1, None]] + scn['segs'][i + 1:])
    if scn['more']:
        yield with_(scn, more=scn['more'] // 2)
    for c in cat.shrink_conf(scn['c']):
        yield with_(scn, c=c)
