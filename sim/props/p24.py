"""P24: a solver given new data continues like one built for them."""
import copy

import numpy as np

from .. import cat
from ..engine import Violation, Skip
from ..fresh import Fresh
from ..util import same, same_stats, stats, snap, with_, drop_each, rs
from . import p19
from .p01 import all_finite
from .p23 import Interrupt, EXC

LEVEL = 'exploration'
RUNS = dict(quick=4000, thorough=80000)
RULE = ('a scenario fixes a solver and a history of iterations, replacements of its dictionary or coefficient maps (some interrupted at an arbitrary instruction and then repeated) and changes of its penalty '
        'parameter; after each change the following iterations are compared with those of a solver built for the current data in a new process and started from the iterates held at that moment; '
        'non-trivial if something was changed after an iteration')
MEASURE = 'distinct (class, set of options, kinds of change) tuples'
COMPONENTS = {'real': ['all ADMM and PGM classes with setdict or setcoef whose iterates can be transferred (the ADMM ones of P19)'],
              'stub': ['process loss: the comparison solver runs in a pristine forked image']}
ASSUMPTIONS = ['the penalty parameter is changed as the solvers do it themselves (attribute, then rhochange), without automatic adjustment',
               'nothing is claimed about a solver whose data replacement was interrupted until the replacement has been repeated']
STRICT_REF = True


def setter(name):
    cls = cat.CAT[name].cls
    return 'setdict' if hasattr(cls, 'setdict') else 'setcoef' if hasattr(cls, 'setcoef') else None


def names():
    return [n for n in p19.names() + cat.names(('pgm',)) if setter(n) and 'MultiDict' not in n]


def generate(rng, tier, i):
    ns = names()
    c = cat.gen(rng, name=ns[i % len(ns)])
    c.pop('noopt', None)
    if c['lmbda'] is None:
        c['lmbda'] = .1
    c['o'] = dict(c['o'])
    adm = cat.CAT[c['name']].fam == 'admm'
    if adm:
        c['o']['AutoRho'] = {'Enabled': False}
        if rng.random() < .3 and 'HighMemSolve' in cat.CAT[c['name']].cls.Options.defaults:
            c['o']['HighMemSolve'] = True
        if rng.random() < .3 and 'rho' not in c['o']:
            c['o']['rho'] = rng.choice([.5, 3., 20.])
    else:
        c['o'].pop('Monotone', None)
    ops = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        if ops or rng.random() < .8:
            ops.append(['it', rng.choice([1, 1, 2, 3, 5, 8])])
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(['data', 'data', 'inplace', 'again', 'abort'] + (['rho', 'rho'] if adm else []))
            if k == 'rho':
                ops.append([k, rng.choice([.3, .5, 2., 7.])])
            elif k == 'abort':
                ops.append([k, rng.randrange(1 << 30), rng.random(), rng.choice(sorted(EXC))])
                ops.append(['data', ops[-1][1]])
            else:
                ops.append([k, rng.randrange(1 << 30)])
                if 'pdcsc' in c['name'] and k in ('data', 'inplace') and rng.random() < .6:
                    ops[-1].append(rng.choice('DB'))
    ops.append(['it', rng.choice([1, 2, 3, 6])])
    return dict(c=c, ops=ops)


def nontrivial(scn):
    import json
    seen = False
    for o in scn['ops']:
        if o[0] == 'it':
            seen = True
        elif seen:
            return json.dumps(scn, sort_keys=True)
    return None


def data(c, inp, seeds):
    """The data after the replacements with the given seeds (one for each part), as for a new solver."""
    new = dict(inp)
    for k, seed in sorted(seeds.items()):
        if k in inp:
            r = rs(seed)
            v = r.randn(*inp[k].shape)
            if np.iscomplexobj(inp[k]):
                v = v + 1j * r.randn(*inp[k].shape)
            if k == 'Z':
                v *= r.rand(*v.shape) < .5
            new[k] = v.astype(inp[k].dtype)
    return new


def part(op):
    return {k: op[1] + i for i, k in enumerate('DBZ') if op[0] not in ('data', 'inplace') or len(op) < 3 or op[2] == k}


def replace(b, c, new, part='', held=None):
    """Give the solver new data, in the layout in which it holds them (as the dictionary learning classes do).  With held, in the same arrays as last time."""
    if held is None:
        held = {}

    def arr(k, v):
        if k in held and held[k].shape == v.shape:
            held[k][...] = v
        else:
            held[k] = v.copy()
        return held[k]

    if setter(c['name']) == 'setcoef':
        b.setcoef(arr('Z', new['Z']))
        return
    D = None
    if part != 'B':
        D = arr('D', new['D'].reshape(b.cri.shpD) if hasattr(b, 'cri') else new['D'])
    if 'pdcsc' in c['name']:
        b.setdict(D, None if part == 'D' else arr('B', new['B']))
    else:
        b.setdict(D)


PG = ('Y', 'Yf', 'X', 'Xf', 'Xprv', 'Xfprv', 'Yprv', 'Yfprv', 't', 'k', 'L', 'backtrack', 'stepsizepolicy', 'F', 'Q', 'iterBTrack')


def export(c, b):
    s = cat.core(b)
    if cat.CAT[c['name']].fam == 'admm':
        return dict(Y=s.Y.copy(), U=s.U.copy(), rho=float(s.rho))
    return {k: copy.deepcopy(getattr(s, k)) for k in PG if hasattr(s, k)}


def fresh(arg):
    """A solver built for the data, with the iterates of another one."""
    c, seeds, st, m = arg
    inp = data(c, cat.inputs(c), seeds)
    if cat.CAT[c['name']].fam == 'admm':
        b = cat.construct(c, inp, cat.options(c, inp, {'Y0': st['Y'], 'U0': st['U'], 'rho': st['rho']}))
    else:
        b = cat.construct(c, inp, cat.options(c, inp))
        for k, v in st.items():
            setattr(b, k, v)
    return outcome(c, b, m, len(cat.core(b).itstat))


def outcome(c, b, m, n0):
    r = cat.drive(b, [[m, None]])
    s = cat.core(b)
    out = [snap(s.Y), snap(s.U) if hasattr(s, 'U') else None, snap(s.X)]
    if hasattr(s, 'reconstruct') and c['name'].split('.')[-1] != 'AddMaskSim':
        out.append(snap(s.reconstruct()))
    st = stats(s.itstat)[n0:]
    for r_ in st:
        r_.pop('Iter', None)
    return cat.result(b, r), out, st


def execute(scn, ctx):
    c = scn['c']
    nm = c['name']
    tol = cat.tol(c)
    inp = cat.inputs(c)
    frs = []
    kinds = []
    try:
        b = ctx.reference(cat.construct, c, inp, cat.options(c, inp))
        s = cat.core(b)
        seeds = {}
        held = {}
        changed = broken = False
        pend = []
        for op in scn['ops']:
            if op[0] == 'it':
                if broken:
                    continue        # only after removal of steps by the minimiser
                st = export(c, b) if changed else None
                got = ctx.attempt('%s: solve' % nm, lambda: outcome(c, b, op[1], len(s.itstat)))
                ctx.steps += op[1]
                if not all_finite(got[1]):
                    ctx.probe('diverged')
                    break
                if changed and all_finite([v for v in st.values() if isinstance(v, np.ndarray)]):
                    pend.append((op, seeds, st, got, list(kinds)))
                changed = False
                continue
            changed = True
            kinds.append(op[0])
            if op[0] == 'rho':
                ctx.fault('penalty_changed')
                s.rho = type(s.rho)(s.rho * op[1])
                ctx.attempt('%s: rhochange' % nm, s.rhochange)
            elif op[0] == 'abort':
                new = data(c, inp, part(op))
                cnt = Interrupt()
                with cnt:
                    replace(copy.deepcopy(b) if '.AddMaskSim' not in nm else cat.construct(c, inp, cat.options(c, inp)), c, new)
                hit = Interrupt(1 + int(op[2] * cnt.n), EXC[op[3]])
                try:
                    with hit:
                        replace(b, c, new)
                except EXC[op[3]]:
                    ctx.fault('interrupted_' + op[3])
                    broken = True
            else:
                if op[0] != 'again':
                    seeds = {**seeds, **part(op)}
                ctx.fault({'data': 'data_replaced', 'inplace': 'data_modified_in_place', 'again': 'data_given_again'}[op[0]])
                if op[0] != 'inplace':
                    held = {}
                ctx.attempt('%s: %s' % (nm, setter(nm)), lambda: replace(b, c, data(c, inp, seeds), op[2] if len(op) > 2 else '', held))
                broken = broken and len(op) > 2
        fr = Fresh(fresh_all)
        frs.append(fr)
        out = fr.run((c, [(p[1], p[2], p[0][1]) for p in pend])) if pend else ('ok', [])
    finally:
        for fr in frs:
            fr.close()
    if out[0] != 'ok':
        raise Violation('exception', '%s: the new solver raised %s' % (nm, out[1:]), sig='exception:new')
    ctx.key(nm, sorted(c['o']), tuple(kinds))
    for (op, seeds, st, got, ks), w in zip(pend, out[1]):
        what = '%s after %s: ' % (nm, '+'.join(ks))
        if not all_finite(w[1]):
            continue
        f = 1e-4 / tol if '.ppp.' in nm else 1
        for n, x, y in zip(('auxiliary variable', 'dual variable', 'primal variable', 'reconstruction'), got[1], w[1]):
            if x is not None:
                same(what + n, x, y, tol * f * (10 if n[0] == 'd' else 1), 'iterate')
        same(what + 'solution', got[0], w[0], tol * f, 'solution')
        same_stats(what + 'statistics', got[2], w[2], max(tol, 1e-6), 'stats', drop=('XSlvRelRes', 'Cnstr'))
        for x, y in zip(got[2], w[2]):
            if 'Cnstr' in y and not abs(x['Cnstr'] - y['Cnstr']) <= tol * max(1, abs(y['Cnstr'])):      # a violation of rounding size in some classes
                raise Violation('stats', '%s field Cnstr is %r, expected %r' % (what, x['Cnstr'], y['Cnstr']))
        ctx.log(what, len(got[2]))


def fresh_all(arg):
    c, l = arg
    return [fresh((c, seed, st, m)) for seed, st, m in l]


def shrink(scn):
    for o in drop_each(scn['ops']):
        yield with_(scn, ops=o)
    for i, o in enumerate(scn['ops']):
        if o[0] == 'it' and o[1] > 1:
            l = [list(x) for x in scn['ops']]
            l[i][1] -= 1
            yield with_(scn, ops=l)
    for c in cat.shrink_conf(scn['c']):
        if cat.CAT[c['name']].fam != 'admm' or 'AutoRho' in c['o'] and 'Enabled' in c['o']['AutoRho']:
            yield with_(scn, c=c)
