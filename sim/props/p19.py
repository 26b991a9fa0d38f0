"""P19: a warm start from exported iterates continues the original run."""
import numpy as np

import sporco.admm.parcbpdn as parcbpdn

from .. import cat, par
from ..engine import Violation, Skip
from ..fresh import Fresh
from ..util import same, same_stats, stats, snap, with_, drop_each
from .p01 import all_finite

LEVEL = 'exploration'
RUNS = dict(quick=5000, thorough=100000)
RULE = ('a scenario fixes an ADMM solver with a fixed penalty parameter, a number of iterations at which the process is lost so that only the exported primal and dual iterates survive, and a number of further '
        'iterations; a solver started from the exported iterates in a new process is compared with the original one that was not lost; non-trivial if at least one iteration precedes and follows the loss')
MEASURE = 'distinct (class, set of options, export point, further iterations)'
COMPONENTS = {'real': ['ADMM solver classes whose x step is computed directly, ParConvBPDN (serial execution of its groups)'],
              'stub': ['process loss: the continuation runs in a pristine forked image']}
ASSUMPTIONS = ['the penalty parameter is fixed (automatic adjustment changes the meaning of the dual iterate)',
               'x steps computed by an inner iteration that starts from the previous x (conjugate gradient, Gauss-Seidel) are not covered, they depend on more than the exported iterates']
STRICT_REF = True

SKIP = {'admm.tvl1.TVL1Denoise', 'admm.tvl2.TVL2Denoise',       # Gauss-Seidel from the previous x
        'admm.cbpdnin.ConvBPDNInhib',                           # inhibition weights are a state of their own
        'admm.ccmodmd.ConvCnstrMODMaskDcpl_Consensus'}          # second block of variables without initial value options


def names():
    return [n for n in cat.names(('admm',)) if n not in SKIP and '_CG' not in n]


def generate(rng, tier, i):
    ns = names()
    n, m = rng.choice([0, 1, 1, 2, 3, 5, 9, 17]), rng.choice([1, 2, 3, 6])
    if i % 13 == 5:
        return dict(fam='par', c=par.gen_par(rng), n=n, m=m, parts=rng.sample(['Y0', 'Y1', 'U0', 'U1'], rng.choice([4, 4, 4, 2, 1])))
    c = cat.gen(rng, name=ns[i % len(ns)])
    c.pop('noopt', None)
    c['o'] = dict(c['o'])
    c['o']['AutoRho'] = {'Enabled': False}
    if c['name'].endswith('PPPConsensus') or 'Consensus' in c['name']:
        c['o']['AutoRho'] = {'Enabled': False}
    return dict(fam='admm', c=c, n=max(n, 1), m=m, segs=cat.gen_segs(rng, m))


def nontrivial(scn):
    import json
    return json.dumps(scn, sort_keys=True) if scn['n'] else None


def resume(arg):
    c, Y, U, segs, m = arg
    b = cat.build(c, {'Y0': Y, 'U0': U})
    r = cat.drive(b, segs)
    return cat.result(b, r), stats(cat.core(b).itstat), snap(cat.core(b).Y), snap(cat.core(b).U)


def resume_par(arg):
    c, init, m = arg
    b = par.par_make(c, 0, dict(init, MaxMainIter=m))
    r = snap(b.solve())
    return r, stats(b.itstat)


def execute(scn, ctx):
    if scn['fam'] == 'par':
        return execute_par(scn, ctx)
    c = scn['c']
    tol = cat.tol(c)
    fr = Fresh(resume)
    try:
        def ref():
            b = cat.build(c, {'MaxMainIter': scn['n']})
            b.solve()
            s = cat.core(b)
            Y, U = snap(s.Y), snap(s.U)
            s.opt['MaxMainIter'] = scn['m']
            r = b.solve()
            return Y, U, cat.result(b, r), stats(s.itstat)[scn['n']:], snap(s.Y), snap(s.U)
        w = ctx.reference(ref)
        if not all_finite([w[2], w[0], w[1]]):
            ctx.probe('diverged')
            return
        ctx.fault('process_loss')
        out = fr.run((c, w[0], w[1], scn['segs'], scn['m']))
    finally:
        fr.close()
    if out[0] != 'ok':
        raise Violation('warmstart', '%s: warm start raised %s: %s\n%s' % ((c['name'],) + tuple(out[1:])) if out[0] == 'exc' else 'process died', sig='warmstart:%s' % out[1])
    g = out[1]
    for d in (g[1], w[3]):
        for r in d:
            r.pop('Iter', None)
    ctx.steps += scn['n'] + scn['m']
    ctx.key(c['name'], sorted(c['o']), scn['n'], scn['m'])
    ctx.log(c['name'], scn['n'], scn['m'])
    if '.ppp.' in c['name']:
        # initial iterates are converted to the single precision type of these solvers
        same(c['name'] + ': solution', g[0], w[2], 1e-4, 'solution')
        return
    same(c['name'] + ': auxiliary variable', g[2], w[4], tol, 'solution')
    same(c['name'] + ': dual variable', g[3], w[5], tol * 10, 'solution')
    same(c['name'] + ': solution', g[0], w[2], tol, 'solution')
    same_stats(c['name'] + ': statistics', g[1], w[3], max(tol, 1e-6), 'stats', drop=('XSlvRelRes',))
    ctx.note('%s exported after %d, continued for %d' % (c['name'], scn['n'], scn['m']))


def execute_par(scn, ctx):
    c = scn['c']
    ini = scn['parts']
    fr = Fresh(resume_par)
    try:
        def ref():
            b = par.par_make(c, 0)
            if scn['n']:
                b.opt['MaxMainIter'] = scn['n']
                b.solve()
            st = {}
            for k in ('Y0', 'Y1', 'U0', 'U1'):
                v = getattr(parcbpdn, 'mp_' + k, None)
                if v is None:
                    raise Skip('the iterates of ParConvBPDN are not where they were')
                st[k] = np.moveaxis(np.array(v), parcbpdn.mp_axisM, b.cri.axisM).copy()
            b.opt['MaxMainIter'] = scn['m']
            r = snap(b.solve())
            return st, r, stats(b.itstat)[scn['n']:]
        st, r, its = ctx.reference(ref)
        if scn['n']:
            ini = ['Y0', 'Y1', 'U0', 'U1']
        # before the first iteration all of them are zero, so that any subset of them may be given
        out = fr.run((c, {k: st[k] for k in ini}, scn['m']))
    finally:
        fr.close()
    if not all_finite([r]):
        ctx.probe('diverged')
        return
    ctx.fault('process_loss')
    if out[0] != 'ok':
        raise Violation('warmstart', 'ParConvBPDN: warm start raised %s: %s\n%s' % tuple(out[1:]) if out[0] == 'exc' else 'process died', sig='warmstart:%s' % out[1])
    for d in (out[1][1], its):
        for x in d:
            x.pop('Iter', None)
    ctx.steps += scn['n'] + scn['m']
    ctx.key('par', c['kind'], c['ngrp'], scn['n'], scn['m'])
    ctx.log('par', scn['n'], scn['m'])
    tol = 2e-3 if c['f32'] else 1e-8
    same('ParConvBPDN: solution', out[1][0], r, tol, 'solution')
    # the objective values of the first iterations may use the unrelaxed X of earlier ones
    same_stats('ParConvBPDN: statistics', out[1][1], its, max(tol, 1e-6), 'stats', drop=() if c['opt'].get('AuxVarObj') else ('ObjFun', 'DFid', 'RegL1'))
    ctx.note('ParConvBPDN exported after %d, continued for %d' % (scn['n'], scn['m']))


def shrink(scn):
    for n in (0, 1, scn['n'] - 1):
        if 0 <= n < scn['n'] and (n or scn['fam'] == 'par'):
            yield with_(scn, n=n)
    if scn['m'] > 1:
        if scn['fam'] == 'par':
            yield with_(scn, m=1)
        else:
            yield with_(scn, m=1, segs=[[1, None]])
            yield with_(scn, segs=[[scn['m'], None]])
    if scn['fam'] == 'admm':
        for c in cat.shrink_conf(scn['c']):
            if c['o'].get('AutoRho') == {'Enabled': False}:
                yield with_(scn, c=c)
