"""P09: distributed (MPI) grid search agrees on every rank and never deadlocks."""
import threading

import numpy as np

from .. import simmpi, par
from ..engine import Violation, subrng
from ..simsched import Sim, Schedule, Deadlock, StepLimit
from ..util import with_
from . import p08

LEVEL = 'exploration'
RUNS = dict(quick=4000, thorough=100000)
RULE = ('a scenario fixes a communicator size, one or more grid searches and a seeded schedule of the ranks at bytecode granularity; non-trivial if there is more than one rank; '
        'a rank waiting for something that cannot happen, ranks in different collectives, and transfers of mismatched size are violations')
MEASURE = 'distinct (orders in which the ranks reach the collectives)'
COMPONENTS = {'real': ['sporco.mpiutil.grid_search', 'mpi4py constants, reduction operations and data types'], 'stub': ['the MPI communicator and the message layer', 'the user function']}
ASSUMPTIONS = ['default consolidation data type and functions returning floating point numbers, as documented', 'no rank fails (an MPI job ends when a rank fails)']
STRICT_REF = True


def generate(rng, tier, i):
    ss = []
    for _ in range(rng.choice([1, 1, 2])):
        s = p08.gen_search(rng)
        if s['vals'] == 'int':
            s['vals'] = 'ties'
        s['world'] = rng.random() < .3
        ss.append(s)
    return dict(s=ss, size=rng.choice([1, 2, 2, 3, 4, 5, 7, 9, 13]), sched=par.gen_sched(rng))


def nontrivial(scn):
    import json
    return json.dumps(scn, sort_keys=True) if scn['size'] > 1 else None


def execute(scn, ctx):
    world = simmpi.MPIWorld(scn['size'], ctx)
    sched = Schedule(rng=subrng(scn['sched']['seed']), lens=scn['sched']['lens'], prace=0, fixed=scn['sched'].get('fixed'))
    sim = Sim(sched)
    cases = [p08.make(s) for s in scn['s']]
    logs = [[] for _ in cases]
    outs = [[None] * scn['size'] for _ in cases]

    def rank(r):
        def main(th):
            comm = simmpi.SimComm(world, r, th)
            simmpi._ranks[threading.get_ident()] = comm
            for i, (s, (grd, table, seq)) in enumerate(zip(scn['s'], cases)):
                tab = {k: p08.wrap(s, v) for k, v in table.items()}

                def fn(p, tab=tab, i=i):
                    k = tuple(float(x) for x in p)
                    logs[i].append(k)
                    th.yield_()
                    return tab[k]
                kw = {} if s['world'] else {'comm': comm}
                outs[i][r] = simmpi.mpiutil.grid_search(fn, tuple(g.copy() for g in grd), fmin=s['fmin'], **kw)
        return main
    for r in range(scn['size']):
        sim.spawn(rank(r), 'rank%d' % r)
    try:
        sim.run(lambda t: failed(sim))
    except Deadlock as e:
        sim.killall()
        for t in sim.threads:
            if t.exc is not None:
                raise t.exc
        raise Violation('deadlock', '%d ranks, grid %s: %s' % (scn['size'], [s['ng'] for s in scn['s']], e))
    except StepLimit as e:
        sim.killall()
        raise Violation('hang', str(e))
    except BaseException:
        sim.killall()
        raise
    ctx.steps += sim.steps
    ctx.probe('context_switches', sim.switches)
    ctx.fault('rank_delayed', sim.switches)
    ctx.key([sorted((k, r) for r in s['pay']) for k, s in enumerate(world.slots)], [list(s['pay']) for s in world.slots])
    for i, (s, (grd, table, seq)) in enumerate(zip(scn['s'], cases)):
        for r in range(scn['size']):
            p08.check(s, grd, table, seq, outs[i][r], logs[i] if r == 0 else None)
            a, b = outs[i][r], outs[i][0]
            if any(not np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(a[3], b[3])) or \
                    not np.array_equal(a[0], b[0]):
                raise Violation('agreement', 'ranks 0 and %d return different answers' % r)


def failed(sim):
    for t in sim.threads:
        if t.state == 'done' and t.exc is not None:
            raise t.exc


def shrink(scn):
    for z in p08.shrink(scn):
        yield z
    if scn['size'] > 1:
        yield with_(scn, size=scn['size'] - 1)
        yield with_(scn, size=scn['size'] // 2)
