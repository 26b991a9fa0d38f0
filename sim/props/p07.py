"""P07: failures in parallel execution surface and leave nothing behind."""
import copy

import numpy as np
import sporco.util as su

from .. import par
from ..boot import ENV
from ..engine import Violation
from ..simpool import PoolWorld
from ..simsched import Deadlock, StepLimit
from ..util import same, stats, snap, with_

LEVEL = 'exploration'
RUNS = dict(quick=800, thorough=8000)
RULE = ('a scenario fixes a sequence of parallel jobs (sparse coding, dictionary learning with or without mask, grid search), a seeded worker schedule and faults '
        '(worker exception or memory exhaustion at a chosen task and operation, failure to create the pool or to allocate shared memory, exception or interrupt in the callback); '
        'non-trivial if a fault actually fired')
MEASURE = 'distinct (job kind, fault kind, place) combinations that fired'
COMPONENTS = {'real': ['sporco.admm.parcbpdn', 'sporco.dictlrn.prlcnscdl', 'sporco.util.grid_search', 'pickle'],
              'stub': ['multiprocessing.Pool', 'multiprocessing.RawArray']}
ASSUMPTIONS = ['a worker failure is an exception in the worker; a worker killed by the operating system makes the real multiprocessing.Pool.map wait for ever, '
               'which is a property of the Python library and not simulated',
               'a pool that has been garbage collected terminates its workers (as the real one does)']


class Boom(Exception):
    pass


def gsfn(p):
    return float(np.sum((np.asarray(p) - 0.4)**2))


def gen_fault(rng, job):
    kind = job['job']
    choices = ['worker_exception', 'worker_memory_error', 'pool_creation']
    if kind != 'grid':
        choices += ['callback_exception', 'callback_interrupt', 'alloc']
    f = rng.choice(choices)
    if f.startswith('worker'):
        return dict(at='task', kind=f, sec=rng.randint(0, 5), tsk=rng.randint(0, 3), step=rng.choice([0, 1, 5, 20, 60, 200]))
    if f == 'pool_creation':
        return dict(at='pool', kind=f)
    if f == 'alloc':
        return dict(at='alloc', kind=f, n=rng.randint(0, 14))
    return dict(at='cb', kind=f, it=rng.randint(1, 3))


def gen_job(rng):
    k = rng.choice(['par', 'par', 'cns', 'cns', 'grid'])
    if k == 'par':
        return dict(job='par', c=par.gen_par(rng), nproc=rng.randint(2, 3), n=rng.randint(1, 4))
    if k == 'cns':
        return dict(job='cns', c=par.gen_cns(rng), nproc=rng.randint(1, 3), n=rng.randint(1, 4))
    return dict(job='grid', ng=[rng.randint(1, 5) for _ in range(rng.randint(1, 2))], nproc=rng.randint(1, 4))


def generate(rng, tier, i):
    jobs = []
    for _ in range(rng.randint(1, 3)):
        j = gen_job(rng)
        j['fault'] = gen_fault(rng, j)
        j['resume'] = rng.random() < .4
        jobs.append(j)
    last = copy.deepcopy(rng.choice(jobs)) if rng.random() < .5 else gen_job(rng)
    last['fault'] = None
    return dict(jobs=jobs, last=last, sched=par.gen_sched(rng))


def nontrivial(scn):
    import json
    return json.dumps(scn, sort_keys=True)


def do_job(j, cbfault=None, keep=None):
    """Runs the job and returns its observable result."""
    if j['job'] == 'grid':
        grd = tuple(np.linspace(0, 1, n) for n in j['ng'])
        r = su.grid_search(gsfn, grd, nproc=j['nproc'])
        return [snap(r[0]), snap(r[1]), snap(r[2])]
    b = par.par_make(j['c'], j['nproc']) if j['job'] == 'par' else par.cns_make(j['c'], j['nproc'])
    if keep is not None:
        keep.append(b)
    b.opt['MaxMainIter'] = j['n']
    if cbfault is not None:
        b.opt['Callback'] = cbfault
    r = b.solve()
    return [snap(r), snap(b.getcoef())] + [[s[f] for f in sorted(s) if s[f] is not None] for s in stats(b.itstat)]


def execute(scn, ctx):
    lj = dict(scn['last'])
    if lj['job'] != 'grid':
        lj['nproc'] = 1 if lj['job'] == 'par' else 0

    def refrun():
        if lj['job'] == 'grid':
            grd = [np.linspace(0, 1, n) for n in lj['ng']]
            fv = np.array([gsfn(p) for p in __import__('itertools').product(*grd)]).reshape(lj['ng'])
            ix = np.unravel_index(np.nanargmin(fv), fv.shape)
            return [np.array([g[i] for g, i in zip(grd, ix)]), fv[ix], fv]
        return do_job(lj)
    want = ctx.reference(refrun)

    world = PoolWorld(ctx, par.schedules(scn['sched']))
    ENV.pools = world
    ENV.ncpu = 3
    held = []
    for ji, j in enumerate(scn['jobs']):
        f = copy.deepcopy(j['fault'])
        cb = None
        fired = []
        if f['at'] == 'task':
            world.faults = [dict(at='task', kind=f['kind'], section=world.nmap + f['sec'], task=f['tsk'], step=f['step'])]
        elif f['at'] == 'pool':
            world.faults = [dict(at='pool', kind=f['kind'], n=world.npool)]
        elif f['at'] == 'alloc':
            world.faults = [dict(at='alloc', kind=f['kind'], n=world.nalloc + f['n'])]
        else:
            world.faults = []
            cnt = [0]

            def cb(obj, f=f, cnt=cnt, fired=fired):
                cnt[0] += 1
                if cnt[0] == f['it']:
                    fired.append(1)
                    ctx.fault(f['kind'])
                    if f['kind'] == 'callback_interrupt':
                        raise KeyboardInterrupt()
                    raise Boom('callback')
        nf = len(world.fired)
        exc = None
        keep = []
        try:
            do_job(j, cb, keep)
        except (Deadlock, StepLimit) as e:
            raise Violation('hang', 'job %d (%s) does not complete after %s: %s' % (ji, j['job'], f, e))
        except BaseException as e:
            exc = type(e)
            del e
        did = len(world.fired) > nf or bool(fired)
        ctx.log('job', ji, j['job'], f['kind'], did, str(exc))
        if did:
            ctx.key(j['job'], j.get('c', {}).get('mask') if j['job'] == 'cns' else None, f)
            if exc is None:
                raise Violation('swallowed', '%s: %s was injected but the call returned normally' % (j['job'], f['kind']))
            if fired and f['kind'] == 'callback_interrupt' and exc is not KeyboardInterrupt:
                raise Violation('swallowed', 'interrupt in callback surfaced as %s' % exc.__name__)
            ok = {'worker_exception': (RuntimeError,), 'worker_memory_error': (MemoryError,), 'pool_creation': (OSError,),
                  'alloc': (OSError, MemoryError), 'callback_exception': (Boom,), 'callback_interrupt': (KeyboardInterrupt,)}[f['kind']]
            if not issubclass(exc, ok):
                raise Violation('disguised', '%s: %s surfaced as %s' % (j['job'], f['kind'], exc.__name__))
        elif exc is not None:
            raise Violation('exception', '%s without a fault raised %s (after earlier failures: %d)' % (j['job'], exc.__name__, ji))
        if f['at'] != 'cb' and not did:
            ctx.probe('fault_not_reached')
        leaked = world.leaked()
        if leaked:
            raise Violation('leak', '%d worker pool(s) still running after %s of %s (fault: %s)' % (
                len(leaked), 'failure' if did else 'completion', j['job'], f['kind'] if did else None))
        if did and j['resume'] and keep and f['at'] in ('cb', 'pool'):
            # the failure hit between two iterations: the solver can be used again
            world.faults = []
            b = keep[0]
            b.opt['Callback'] = None
            b.opt['MaxMainIter'] = 1
            try:
                b.solve()
            except (Deadlock, StepLimit) as e:
                raise Violation('hang', 'solver does not complete when restarted after %s' % f['kind'])
            except Exception as e:
                raise Violation('restart', 'solver restarted after %s raised %s: %s' % (f['kind'], type(e).__name__, e))
            if world.leaked():
                raise Violation('leak', 'worker pool still running after a solver was restarted following %s' % f['kind'])
            ctx.probe('restarted_after_fault')
        held.extend(keep)
    world.faults = []
    got = ctx.attempt('job after failures', do_job, scn['last'])
    same('result after earlier failures', got, want, 1e-6 if scn['last'].get('c', {}).get('f32') is not True else 2e-3, 'aftermath')
    if world.leaked():
        raise Violation('leak', 'worker pools still running after normal completion')
    ctx.note('%s' % [(j['job'], j['fault']['kind']) for j in scn['jobs']])


def shrink(scn):
    n = len(scn['jobs'])
    for i in range(n):
        if n > 1:
            yield with_(scn, jobs=scn['jobs'][:i] + scn['jobs'][i + 1:])
    if scn['last']['job'] != 'grid':
        yield with_(scn, last=dict(job='grid', ng=[2], nproc=1, fault=None))
    for i, j in enumerate(scn['jobs']):
        if j.get('n', 1) > 1:
            s = copy.deepcopy(scn)
            s['jobs'][i]['n'] = j['n'] - 1
            yield s
        if j['resume']:
            s = copy.deepcopy(scn)
            s['jobs'][i]['resume'] = False
            yield s
    if scn['sched'].get('lens') != [1000000]:
        s = copy.deepcopy(scn)
        s['sched'].update(lens=[1000000], prace=0)
        yield s
