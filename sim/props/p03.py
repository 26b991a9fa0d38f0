"""P03: a solver restored from a saved copy continues where the saved one was."""
import pickle

from .. import cat
from ..engine import Violation
from ..fresh import Fresh
from ..util import stats, with_, snap
from . import p01

LEVEL = 'exploration'
RUNS = dict(quick=4000, thorough=100000)
RULE = ('a scenario fixes a solver class, data, options and a history of solve calls, saves, copies that evolve separately, and process losses after a save; the history as seen by the '
        'user is compared with one run in which nothing was lost; non-trivial if at least one save is followed by a continuation of the restored object')
MEASURE = 'distinct (class, options, history)'
COMPONENTS = {'real': ['all serial solver classes', 'pickle', 'a new operating system process that has only imported the package'],
              'stub': ['the moment of the process loss is decided by the simulator; the saved bytes are the only durable state']}
ASSUMPTIONS = ['the saved bytes themselves are stored intact', 'the restoring process runs the same version of the package',
               'saves are made between calls to solve']
STRICT_REF = True


def generate(rng, tier, i):
    ns = [n for n in cat.names() if not n.endswith('AddMaskSim')]
    c = cat.gen(rng, name=ns[i % len(ns)])
    ops = []
    n = rng.randint(1, 3)
    for _ in range(n):
        for s in cat.gen_segs(rng, rng.choice([1, 1, 2, 3, 5]), zero=False):
            ops.append(['it'] + s)
        z = rng.random()
        if z < .6:
            ops.append(['crash', rng.choice([2, 4, 5])])
        elif z < .8:
            ops.append(['save', rng.choice([2, 4, 5])])
        else:
            ops.append(['fork', rng.randint(1, 3), rng.choice([2, 5])])
    if rng.random() < .25:
        ops.insert(0, ['crash', 4])
    ops.append(['it', rng.choice([1, 2, 4]), None])
    return dict(c=c, ops=ops)


def nontrivial(scn):
    import json
    return json.dumps(scn, sort_keys=True) if any(o[0] in ('crash', 'fork') for o in scn['ops']) else None


def outcome(b, ret):
    core = cat.core(b)
    return [cat.result(b, ret) if ret is not None else None, stats(core.itstat), cat.counter(b),
            {k: list(getattr(core.getitstat(), k)) for k in core.getitstat()._fields if k != 'Time'} if len(core.itstat) else None]


def play(b, ops):
    """Performs ops up to the next crash; returns (saved bytes or None, index, last return value)."""
    ret = None
    side = []
    for i, op in enumerate(ops):
        if op[0] == 'it':
            ret = cat.drive(b, [[op[1], op[2]]])
        else:
            cat.core(b).opt['Callback'] = None
            data = pickle.dumps(b, protocol=op[-1])
            if op[0] == 'crash':
                return data, i + 1, ret, b, side
            if op[0] == 'fork':
                d = pickle.loads(data)
                cat.drive(d, [[op[1], None]])
                side.append(stats(cat.core(d).itstat))
    return None, len(ops), ret, b, side


def stage(arg):
    data, ops = arg
    b = pickle.loads(data)
    if any(o[0] == 'it' for o in ops):
        data2, i, ret, b, side = play(b, ops)
        return data2, i, outcome(b, ret) if data2 is None else None, side
    return stage_tail(b, ops)


def stage_tail(b, ops):
    data2, i, ret, b, side = play(b, ops)
    return data2, i, outcome(b, ret) if data2 is None else None, side


def execute(scn, ctx):
    c, ops = scn['c'], scn['ops']
    ncrash = sum(1 for o in ops if o[0] == 'crash')
    fresh = [Fresh(stage) for _ in range(ncrash)]
    try:
        def ref():
            b = cat.build(c)
            ret = None
            side = []
            for k, op in enumerate(ops):
                if op[0] == 'it':
                    ret = cat.drive(b, [[op[1], op[2]]])
                elif op[0] == 'fork':
                    # what a separate copy should do: a second solver taken through the same history
                    d = cat.build(c)
                    for o2 in ops[:k]:
                        if o2[0] == 'it':
                            cat.drive(d, [[o2[1], o2[2]]])
                    cat.drive(d, [[op[1], None]])
                    side.append(stats(cat.core(d).itstat))
            return outcome(b, ret), side
        want, wside = ctx.reference(ref)
        if want[0] is not None and not p01.all_finite(want[0]):
            ctx.probe('diverged')
            return

        def test():
            b = cat.build(c)
            data, i, ret, b, side = play(b, ops)
            return data, i, outcome(b, ret) if data is None else None, side
        data, i, out, gside = ctx.attempt('run with saves', test)
        pos = i
        while data is not None:
            ctx.fault('process_lost')
            r = fresh.pop(0).run((data, ops[pos:]))
            if r[0] == 'dead':
                raise Violation('crash', 'restoring process died')
            if r[0] == 'exc':
                raise Violation('restore', 'restored solver raised %s: %s\n%s' % r[1:4], sig='restore:%s' % r[1])
            data, i, out, s2 = r[1]
            gside += s2
            pos += i
    finally:
        for f in fresh:
            f.close()
    ctx.log(c['name'], ops, out[2], len(out[1]))
    ctx.fault('save', sum(1 for o in ops if o[0] == 'save'))
    ctx.fault('copy_evolves', sum(1 for o in ops if o[0] == 'fork'))
    ctx.key(c['name'], sorted(c['o']), ops)
    ctx.steps += out[2]
    tol = cat.tol(c)
    p01.compare('after %s' % ops, out, want, tol)
    if out[3] != want[3]:
        from ..util import same
        for f in want[3]:
            if any(isinstance(v, str) or v is None for v in want[3][f]):
                continue
            same('statistics field %s' % f, out[3][f], want[3][f], max(tol, 1e-6), 'stats')
    from ..util import same_stats
    for a, b in zip(gside, wside):
        same_stats('copy evolving separately', a, b, max(tol, 1e-6), 'copy')
    ctx.note('%s %s' % (c['name'], ops))


def shrink(scn):
    ops = scn['ops']
    for i in range(len(ops) - 1):
        yield with_(scn, ops=ops[:i] + ops[i + 1:])
    for i, o in enumerate(ops):
        if o[0] == 'it' and o[2] is not None:
            yield with_(scn, ops=ops[:i] + [['it', o[2], None]] + ops[i + 1:])
        elif o[0] == 'it' and o[1] > 1:
            yield with_(scn, ops=ops[:i] + [['it', o[1] - 1, None]] + ops[i + 1:])
        elif o[0] == 'fork':
            yield with_(scn, ops=ops[:i] + [['save', o[2]]] + ops[i + 1:])
    for c in cat.shrink_conf(scn['c']):
        yield with_(scn, c=c)
