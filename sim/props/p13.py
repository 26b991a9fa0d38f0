"""P13: looking at a solver never changes what it computes."""
import io
import copy
import contextlib

import numpy as np

from sporco.admm.parcbpdn import ParConvBPDN
from sporco.admm import admm, cbpdn as acbpdn

from .. import cat, par
from ..boot import ENV
from ..simpool import PoolWorld
from ..engine import Violation
from ..util import rs, same, snap, with_, drop_each
from .p01 import all_finite, outcome, compare

LEVEL = 'exploration'
RUNS = dict(quick=5000, thorough=150000)
RULE = ('a scenario fixes a solver, a history of solve calls and, for chosen iterations and gaps between calls, a list of queries; the run with the queries is compared with the run without them, '
        'every query is performed twice in a row and must repeat its answer; non-trivial if at least one query is followed by an iteration')
MEASURE = 'distinct (class, query, position) triples'
COMPONENTS = {'real': ['all serial ADMM, PGM and dictionary learning classes, ParConvBPDN, consensus dictionary learning'], 'stub': ['standard output is captured']}
ASSUMPTIONS = ['queries are made from the callback or between calls of solve, after the first iteration', 'the values returned by queries are not modified by the user']
STRICT_REF = True

Q = ['getmin', 'getcoef', 'getdict', 'getdict0', 'reconstruct', 'reconstruct_x', 'getitstat', 'eval_objfn', 'var_x', 'var_y', 'var_u', 'var_y0', 'var_y1', 'obfn_fvar', 'obfn_gvar',
     'obfn_g0var', 'obfn_g1var', 'elapsed', 'runtime', 'rsdl', 'options', 'evaluate', 'itstat']


def generate(rng, tier, i):
    ns = cat.names()
    fam = None
    if i % 16 == 9:
        fam = rng.choice(['par', 'cns'])
        c = par.gen_par(rng) if fam == 'par' else par.gen_cns(rng)
        c['name'] = fam
    else:
        c = cat.gen(rng, name=ns[i % len(ns)])
    total = rng.choice([2, 3, 4, 6, 9])
    segs = cat.gen_segs(rng, total)
    qs = []
    p = rng.choice([.2, .5, 1.0])
    for k in range(total):
        if rng.random() < p:
            qs.append([k, rng.sample(Q, rng.choice([1, 2, 4, len(Q)]))])
    gaps = [[g, rng.sample(Q, rng.choice([1, 3, len(Q)]))] for g in range(len(segs)) if rng.random() < .5]
    return dict(c=c, fam=fam, nproc=rng.choice([0, 0, 2, 3]) if fam else 0, sched=par.gen_sched(rng) if fam else None, segs=segs, qs=qs, gaps=gaps, verbose=rng.random() < .25, rep=rng.choice([1, 1, 3]))


def nontrivial(scn):
    import json
    t = cat.seg_total(scn['segs'])
    return json.dumps(scn, sort_keys=True) if any(k < t - 1 for k, _ in scn['qs']) or scn['gaps'] else None


def flat(v):
    """Comparable form of an answer, by reference to the arrays handed out."""
    if v is None or isinstance(v, (int, float, complex, str, np.ndarray, np.generic)):
        return v
    if isinstance(v, (tuple, list)):
        return [flat(x) for x in v]
    if isinstance(v, dict):
        return [flat(v[k]) for k in sorted(v, key=str)]
    return None


def freeze(v):
    return copy.deepcopy(v)


def equal(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and np.array_equal(a, b, equal_nan=True) if np.asarray(a).dtype.kind in 'fc' else np.array_equal(a, b)
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)) and np.isnan(a) and np.isnan(b):
        return True
    return a == b


def ask(b, q):
    """One query; None if the class does not offer it."""
    s = cat.core(b)
    if q == 'getdict0':
        f = getattr(s, 'getdict', None)
        if f is None or 'crop' not in f.__code__.co_varnames:
            return None
        return f(crop=False)
    if q == 'elapsed':
        s.timer.elapsed('solve')
        return None
    if q == 'runtime':
        getattr(s, 'runtime', None)
        return None
    if q == 'options':
        str(s.opt)
        return None
    if q == 'rsdl':
        f = getattr(s, 'compute_residuals', None)
        return None if f is None or isinstance(s, ParConvBPDN) else f()
    if q == 'itstat':
        return list(s.itstat)
    if q == 'reconstruct':
        f = getattr(b, 'reconstruct', None) or getattr(s, 'reconstruct', None)
        if f is None:
            return None
        if isinstance(b, acbpdn.MultiDictConvBPDN):
            return [f(0), f(1)]
        return f()
    if q == 'reconstruct_x':
        # an array of the user's
        f = getattr(s, 'reconstruct', None)
        if cat.CATFAM(s) == 'dl':
            if f is None or f.__code__.co_varnames[1:3] != ('D', 'X'):
                return None
            return f(D=s.getdict(crop=False) * 1.25, X=s.getcoef() * 0.75)
        X = getattr(s, 'X', None)
        if f is None or X is None or isinstance(b, acbpdn.MultiDictConvBPDN) or f.__code__.co_argcount < 2:
            return None
        return f(rs(X.size).standard_normal(X.shape).astype(X.dtype))
    f = getattr(s, q, None)
    if f is None:
        return None
    if q == 'obfn_fvar' and isinstance(s, admm.ADMMConsensus):
        return [f(j) for j in range(s.Nb)]
    return f()


def execute(scn, ctx):
    c = scn['c']
    tol = cat.tol(c)
    segs = scn['segs']

    def run(obs, over):
        if scn.get('fam') == 'par':
            b = par.par_make(c, scn['nproc'], over)
        elif scn.get('fam') == 'cns':
            b = par.cns_make(c, scn['nproc'])
            b.opt['Verbose'] = bool(over)
        else:
            b = cat.build(c, over)
        cnt = [0]

        def look(where, qs):
            for q in qs:
                a = None
                for _ in range(scn['rep'] + 1):
                    try:
                        v = flat(ask(b, q))
                    except NotImplementedError:
                        ctx.probe('not_offered')
                        break
                    if a is not None and not equal(v, a[0]):
                        raise Violation('repeat', '%s: repeating %s %s gives a different answer' % (c['name'], q, where))
                    a = (freeze(v), v)
                if a is not None and a[0] is not None:
                    ctx.fault('query')
                    ctx.key(c['name'], q, where)

        def cb(obj):
            k = cnt[0]
            cnt[0] += 1
            for kk, qs in scn['qs']:
                if kk == k:
                    look('in iteration %d' % k, qs)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            if not obs:
                r = cat.drive(b, segs)
            else:
                for g, s in enumerate(segs):
                    r = cat.drive(b, [s], cb)
                    for gg, qs in scn['gaps']:
                        if gg == g:
                            look('after call %d' % g, qs)
        return outcome(b, r)
    if scn.get('fam'):
        ENV.pools = PoolWorld(ctx, par.schedules(scn['sched']))
        ENV.ncpu = 3
    want = ctx.reference(run, False, None)
    if not all_finite(want[0]):
        ctx.probe('diverged')
        return
    over = {'Verbose': True} if scn['verbose'] else None
    got = ctx.attempt('observed run', run, True, over)
    ctx.steps += got[2]
    ctx.fault('verbose', int(scn['verbose']))
    compare('observed', got, want, tol)
    ctx.log(c['name'], segs, got[2])
    ctx.note('%s queries at %s' % (c['name'], [k for k, _ in scn['qs']]))


def shrink(scn):
    for n in ('qs', 'gaps'):
        for s in drop_each(scn[n]):
            yield with_(scn, **{n: s})
        for i, (k, qs) in enumerate(scn[n]):
            for t in drop_each(qs):
                if t:
                    yield with_(scn, **{n: scn[n][:i] + [[k, t]] + scn[n][i + 1:]})
    if scn['verbose']:
        yield with_(scn, verbose=False)
    if scn.get('nproc'):
        yield with_(scn, nproc=0)
    if scn['rep'] > 1:
        yield with_(scn, rep=1)
    if len(scn['segs']) > 1 and not scn['gaps']:
        yield with_(scn, segs=[[cat.seg_total(scn['segs']), None]])
    for i, (l, st) in enumerate(scn['segs']):
        if l > 1:
            yield with_(scn, segs=scn['segs'][:i] + [[l - 1, None]] + scn['segs'][i + 1:])
    for c in cat.shrink_conf(scn['c']) if not scn.get('fam') else ():
        yield with_(scn, c=c)
