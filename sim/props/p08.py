"""P08: parallel grid search returns the true optimum under any schedule."""
import collections
import itertools

import numpy as np
import sporco.util as su

from .. import par
from ..boot import ENV
from ..engine import Violation
from ..simpool import PoolWorld
from ..simsched import Deadlock, StepLimit
from ..util import rs, with_

LEVEL = 'exploration'
RUNS = dict(quick=5000, thorough=80000)
RULE = ('a scenario fixes one or more grid searches (axes, function values including undefined, infinite and tied ones, scalar or multi-valued, minimum or maximum, number of processes) '
        'and a seeded schedule of the workers; non-trivial if there is more than one task and more than one worker')
MEASURE = 'distinct (assignment of tasks to workers, completion order) of a parallel section'
COMPONENTS = {'real': ['sporco.util.grid_search', 'numpy', 'pickle'], 'stub': ['multiprocessing.Pool', 'the user function']}
ASSUMPTIONS = ['the user function is a pure function of the grid point', 'at least one defined value for every function component']
STRICT_REF = True

LOG = []
TABLE = {}


def fn(p):
    p = tuple(float(x) for x in p)
    LOG.append(p)
    return TABLE[p]


class Callable(object):
    def __call__(self, p):
        return fn(p)


def gen_search(rng):
    na = rng.choice([1, 1, 2, 2, 3])
    mx = {1: 14, 2: 6, 3: 4}[na]
    return dict(ds=rng.randrange(1 << 30), ng=[rng.randint(1, mx) for _ in range(na)], nf=rng.choice([0, 0, 1, 2, 3]),
                ret=rng.choice(['tuple', 'tuple', 'list', 'array']), fmin=rng.random() < .5, nproc=rng.choice([None, 1, 2, 3, 5]),
                ncpu=rng.randint(1, 5), vals=rng.choice(['cont', 'cont', 'ties', 'nan', 'nan', 'inf', 'int', 'neg']),
                axes=rng.choice(['lin', 'log', 'int', 'unsorted', 'dup']), obj=rng.random() < .2)


def generate(rng, tier, i):
    return dict(s=[gen_search(rng) for _ in range(rng.choice([1, 1, 2, 3]))], sched=par.gen_sched(rng))


def nontrivial(scn):
    import json
    return json.dumps(scn, sort_keys=True) if any(np.prod(s['ng']) > 1 and (s['nproc'] or s['ncpu']) > 1 for s in scn['s']) else None


def make(s):
    r = rs(s['ds'])
    grd = []
    for n in s['ng']:
        a = {'lin': np.linspace(0, 1, n), 'log': np.logspace(-2, 2, n), 'int': np.arange(1, n + 1), 'unsorted': r.permutation(n) * 0.5,
             'dup': np.sort(r.randint(0, 3, n)) * 1.0}[s['axes']]
        grd.append(a)
    nf = max(1, s['nf'])
    table = {}
    seq = []
    for p in itertools.product(*grd):
        k = tuple(float(x) for x in p)
        if k not in table:
            v = r.randn(nf)
            if s['vals'] == 'ties':
                v = r.randint(0, 3, nf).astype(float)
            elif s['vals'] == 'nan':
                v = np.where(r.rand(nf) < .5, np.nan, v)
            elif s['vals'] == 'inf':
                v = np.where(r.rand(nf) < .3, np.inf if s['fmin'] else -np.inf, v)
            elif s['vals'] == 'neg':
                v = -np.abs(v) - 1
            elif s['vals'] == 'int':
                v = r.randint(-5, 5, nf)
            table[k] = v
        seq.append(k)
    # one defined value for each component
    for j in range(nf):
        if all(np.isnan(float(table[k][j])) for k in seq):
            table[seq[r.randint(len(seq))]][j] = 0.25
    return tuple(grd), table, seq


def wrap(s, v):
    if s['nf'] == 0:
        return v[0].item()
    v = [x.item() for x in v]
    return {'tuple': tuple(v), 'list': v, 'array': np.array(v)}[s['ret']]


def execute(scn, ctx):
    ENV.pools = PoolWorld(ctx, par.schedules(scn['sched']))
    for s in scn['s']:
        ENV.ncpu = s['ncpu']
        grd, table, seq = make(s)
        TABLE.clear()
        TABLE.update({k: wrap(s, v) for k, v in table.items()})
        del LOG[:]
        keep = [g.copy() for g in grd]
        kw = {} if s['nproc'] is None else {'nproc': s['nproc']}
        try:
            r = su.grid_search(Callable() if s['obj'] else fn, grd, fmin=s['fmin'], **kw)
        except (Deadlock, StepLimit) as e:
            raise Violation('hang', 'grid search does not complete: %s' % e)
        ctx.log(s['ng'], s['nf'], len(LOG))
        check(s, grd, table, seq, r, LOG)
        if not all(np.array_equal(a, b) for a, b in zip(grd, keep)):
            raise Violation('input', 'grid arrays were modified')
        if ENV.pools.leaked():
            raise Violation('leak', 'worker pool still running after grid search')
    ctx.fault('reordered_completion', len(scn['s']))


def check(s, grd, table, seq, r, log):
    if len(r) != 4:
        raise Violation('form', '%d values returned' % len(r))
    sprm, sfvl, fvmx, sidx = r
    if log is not None and collections.Counter(log) != collections.Counter(seq):
        raise Violation('evaluations', 'function evaluated %d times on %d grid points' % (len(log), len(seq)))
    nf = s['nf']
    shape = tuple(len(g) for g in grd)
    want = np.array([[float(x) for x in table[k]] for k in seq]).reshape(shape + (max(1, nf),))
    got = np.asarray(fvmx, dtype=float)
    if got.shape != (shape + (nf,) if nf else shape):
        raise Violation('values', 'function value array has shape %s' % (got.shape,))
    got = got.reshape(want.shape)
    if not np.array_equal(got, want, equal_nan=True):
        raise Violation('values', 'function values are not at their grid positions')
    if len(sidx) != len(grd) + (1 if nf else 0):
        raise Violation('indices', '%d index components' % len(sidx))
    sprm = np.asarray(sprm)
    if sprm.shape != ((len(grd), nf) if nf else (len(grd),)):
        raise Violation('parameters', 'optimal parameter array has shape %s' % (sprm.shape,))
    for j in range(max(1, nf)):
        w = want[..., j]
        opt = np.nanmin(w) if s['fmin'] else np.nanmax(w)
        g = float(sfvl[j]) if nf else float(sfvl)
        if g != opt:
            raise Violation('optimum', 'optimum %r, expected %r' % (g, opt))
        ix = tuple(int(np.asarray(a)[j]) if nf else int(a) for a in sidx[:len(grd)])
        if nf and int(sidx[-1][j]) != j:
            raise Violation('indices', 'function component index %r' % (sidx[-1],))
        if w[ix] != opt:
            raise Violation('indices', 'value at the returned indices is %r, expected %r' % (w[ix], opt))
        for a in range(len(grd)):
            if float(sprm[a, j] if nf else sprm[a]) != float(grd[a][ix[a]]):
                raise Violation('parameters', 'parameter %d is %r, expected %r' % (a, sprm[a], grd[a][ix[a]]))


def shrink(scn):
    n = len(scn['s'])
    for i in range(n):
        if n > 1:
            yield with_(scn, s=scn['s'][:i] + scn['s'][i + 1:])
    for i, s in enumerate(scn['s']):
        for a, k in enumerate(s['ng']):
            if k > 1:
                yield with_(scn, s=scn['s'][:i] + [dict(s, ng=s['ng'][:a] + [k // 2] + s['ng'][a + 1:])] + scn['s'][i + 1:])
        if len(s['ng']) > 1:
            yield with_(scn, s=scn['s'][:i] + [dict(s, ng=s['ng'][:-1])] + scn['s'][i + 1:])
        for k, v in (('nf', 0), ('vals', 'cont'), ('axes', 'lin'), ('obj', False), ('nproc', 2)):
            if s[k] != v:
                yield with_(scn, s=scn['s'][:i] + [dict(s, **{k: v})] + scn['s'][i + 1:])
    if scn['sched'].get('lens') != [1000000]:
        yield with_(scn, sched=dict(scn['sched'], lens=[1000000], prace=0))
