"""P23: an interrupted operation leaves everything else untouched."""
import contextlib
import copy
import gc
import io
import pickle
import sys

import numpy as np

from sporco import cdict

from .. import cat, par, boot
from ..boot import ENV
from ..engine import Violation, Skip
from ..fresh import Fresh
from ..simpool import PoolWorld
from ..util import stats, same, same_stats, with_, drop_each, rs
from . import p04, p13, p14, p16
from .p01 import all_finite

LEVEL = 'exploration'
RUNS = dict(quick=3000, thorough=40000)
RULE = ('a scenario fixes one to three solvers (possibly sharing input arrays or options), an interleaved sequence of operations on them (construction, solve, query, serialisation), one operation that is '
        'interrupted and the instruction at which an interrupt or allocation failure strikes; compared with a process in which the interrupted operation was not attempted; non-trivial if the interrupt struck')
MEASURE = 'distinct (class, operation, exception, interrupted function) tuples'
COMPONENTS = {'real': ['all serial ADMM, PGM and dictionary learning classes and their options classes, online dictionary learning, ParConvBPDN, consensus dictionary learning (parent process)', 'pickle'],
              'stub': ['process pool and shared memory for the parallel solvers']}
ASSUMPTIONS = ['nothing is claimed about a solver whose own construction or solve was interrupted: it is discarded and replaced',
               'interrupts strike between byte code instructions of package code, as signals do in CPython']
STRICT_REF = True
TIMEOUT = 120

EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'OSError': OSError}


def generate(rng, tier, i):
    t = p04.generate(rng, tier, 4 * (i + rng.randrange(1000)))
    sol = [dict(s, q=False, dele=False, warm=s['warm'] if rng.random() < .5 else None) for s in t['sol']]
    if not any(s['share'] for s in sol) and rng.random() < .3:
        sol = sol[:1]
    for s in sol:
        if s['share'] and s['share'][1] == 'opt':
            s['warm'] = sol[s['share'][0]]['warm']
    special = None
    if i % 13 in (3, 6):
        k = rng.choice(['par', 'cns']) if i % 13 == 6 else 'online'
        c = par.gen_par(rng) if k == 'par' else par.gen_cns(rng) if k == 'cns' else p14.generate(rng, tier, i)
        if k == 'online':
            c['ops'] = [o for o in c['ops'] if o['op'] == 'batch'][:3]
        special = dict(kind=k, c=c, nproc=rng.choice([0, 2, 3]) if k == 'cns' else rng.choice([1, 2, 3]), sched=par.gen_sched(rng))
    ops = []
    for j, s in enumerate(sol):
        ops += [[j, 'solve']] * s['n']
    rng.shuffle(ops)
    ops = [[j, 'make'] for j in range(len(sol))] + ops
    # the interrupted operation
    kind = rng.choice(['solve', 'solve', 'solve', 'query', 'query', 'make', 'pickle', 'opts'])
    j = rng.randrange(len(sol))
    if special:
        hit = [-1, rng.choice(['solve', 'solve', 'make']), None]
    elif kind == 'query':
        hit = [j, 'query', rng.choice(p13.Q)]
    else:
        if kind == 'pickle' and sol[j]['c']['name'].endswith('AddMaskSim'):
            kind = 'solve'
        if kind == 'opts' and rng.random() < .4:
            n = rng.choice(cat.names(('dl',)))
            sol, ops, j = [dict(c=cat.gen(rng, name=n), share=None, m=1, warm=None, n=1, q=False, dele=False)], [[0, 'make']], 0
        hit = [j, kind, None]
    pos = rng.randint(len(sol), len(ops))
    if kind in ('make', 'opts') and not special:
        pos = rng.randint(0, len(sol))
    many = not special or hit[1] == 'make'
    if hit[1] == 'solve' and not special and sol[j]['c']['name'].endswith('AddMaskSim'):
        many = False
    hits = [[rng.choice(['func', 'func', 'line', 'line', 'instr']), rng.random(), rng.random(), rng.choice(['KeyboardInterrupt'] * 2 + ['MemoryError', 'OSError'])] for _ in range(rng.choice([3, 6, 9]) if many else 1)]
    return dict(sol=sol, ops=ops, hit=hit, pos=pos, hits=hits, special=special)


def nontrivial(scn):
    import json
    return json.dumps(scn, sort_keys=True)


class Interrupt(object):
    """Counts byte code instructions of package code and raises at the chosen one."""

    def __init__(self, at=None, exc=None, sites=None):
        self.n, self.at, self.exc, self.where, self.sites = 0, at, exc, None, sites

    def g(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(boot.SPORCO):
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return self.l
        return None

    def l(self, frame, event, arg):
        if event == 'opcode':
            self.n += 1
            if self.sites is not None:
                self.sites.setdefault((frame.f_code, frame.f_lineno), []).append(self.n)
            if self.n == self.at:
                self.where = '%s:%s' % (frame.f_code.co_filename[len(boot.SPORCO):].strip('/'), frame.f_code.co_name)
                raise self.exc('simulated')
        return self.l

    def __enter__(self):
        sys.settrace(self.g)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


class Online(object):
    """Online dictionary learning with the interface of the other solvers."""

    def __init__(self, c):
        d, mx, M = p14.dsz_of(c)
        dt = np.float32 if c['f32'] else np.float64
        self.c, self.opt, self.n = c, {}, 0
        self.D0 = rs(c['seed']).randn(*(mx + ((c['Cd'],) if c['Cd'] else ()) + (M,))).astype(dt)
        self.b = p14.make(c, self.D0, 0, None)
        self.batches = []
        for op in c['ops']:
            lay = p14.layout(op, c)
            if lay is not None:
                S = rs(op['seed']).randn(*(tuple(op['N']) + (op['C'], op['K']))).astype(dt).reshape(lay[0])
                W = p14.mask_of(op, lay[0], c)[0] if c['mask'] else None
                self.batches.append(((S,) if W is None else (S, W.astype(dt)), dict(dimK=lay[1])))

    def solve(self):
        D = self.b.getdict()
        for a, k in self.batches:
            D = self.b.solve(*a, **k)
        return D

    def getcoef(self):
        return self.b.getdict()

    itstat = property(lambda self: self.b.itstat)


class World(object):
    def __init__(self, scn):
        self.scn = scn
        self.lives = p04.make(scn['sol'])
        self.dead = set()
        self.copies = []
        sp = scn['special']
        self.sp = None
        if sp:
            self.sp = sp

    def spmake(self):
        sp = self.sp
        if sp['kind'] == 'online':
            return Online(sp['c'])
        return par.par_make(sp['c'], sp['nproc']) if sp['kind'] == 'par' else par.cns_make(sp['c'], sp['nproc'])

    def op(self, j, k):
        lv = self.lives[j]
        if j in self.dead:
            return
        if k == 'make':
            lv.b = cat.construct(lv.s['c'], lv.inp, lv.opt)
        elif lv.b is not None:
            lv.ret = lv.b.solve()

    def prepare_hit(self):
        """What the interrupted operation needs."""
        j, k, q = self.scn['hit']
        if j < 0 and k == 'solve':
            self.spb = self.spmake()
            self.spb.opt['MaxMainIter'] = 2
        elif k == 'solve':
            # all but the last interruption strike copies
            self.copies = [copy.deepcopy(self.lives[j].b) for _ in self.scn['hits'][1:]]

    def hit(self):
        j, k, q = self.scn['hit']
        if j < 0:
            if k == 'make':
                self.spmake()
            else:
                self.spb.solve()
            return
        lv = self.lives[j]
        if k == 'make':
            cat.construct(lv.s['c'], lv.inp, lv.opt)
        elif k == 'opts':
            cat.options(lv.s['c'], lv.inp, {'MaxMainIter': lv.s['m']})
        elif k == 'solve':
            (self.copies.pop() if self.copies else lv.b).solve()
        elif k == 'query':
            if lv.ret is not None:
                try:
                    p13.ask(lv.b, q)
                except NotImplementedError:
                    pass
        else:
            pickle.dumps(lv.b, -1)

    def after(self):
        """The victim of an interrupted solve is discarded."""
        j, k, q = self.scn['hit']
        if j >= 0 and k == 'solve':
            self.dead.add(j)
            self.lives[j].b = None
        self.spb = None
        self.copies = []
        gc.collect()

    def finish(self):
        out = []
        for j, lv in enumerate(self.lives):
            if j in self.dead or lv.ret is None:
                out.append(None)
            else:
                out.append((cat.result(lv.b, lv.ret), stats(cat.core(lv.b).itstat), cat.counter(lv.b)))
        # replacements, built from the same arrays and options
        j, k, q = self.scn['hit']
        rep = None
        if j >= 0:
            lv = self.lives[j]
            b = cat.construct(lv.s['c'], lv.inp, cat.options(lv.s['c'], lv.inp, {'MaxMainIter': lv.s['m']}) if k == 'opts' else lv.opt)
            r = b.solve()
            rep = (cat.result(b, r), stats(cat.core(b).itstat), cat.counter(b))
        else:
            b = self.spmake()
            b.opt['MaxMainIter'] = 3
            r = b.solve()
            rep = ([r.copy(), np.array(b.getcoef())], stats(b.itstat), 3)
        return out, rep


def package_state():
    """Values of data attributes of all modules and classes of the package."""
    out = {}
    for n, m in sorted(sys.modules.items()):
        if m is None or not (n == 'sporco' or n.startswith('sporco.')):
            continue
        for k, v in list(vars(m).items()):
            if k.startswith('_') or k.startswith('mp_'):    # private: caches
                continue
            if isinstance(v, type):
                # option classes made on demand replace their predecessors
                if v.__module__ == n and v.__qualname__ == k and not issubclass(v, cdict.ConstrainedDict):
                    classes(v, '%s.%s' % (n, k), out, 0)
            elif data(v):
                out['%s.%s' % (n, k)] = p04.freeze(v)
    return out


def classes(c, name, out, depth):
    for k, v in list(vars(c).items()):
        if k.startswith('__'):
            continue
        if isinstance(v, type):
            if depth < 3 and v.__qualname__.startswith(c.__qualname__ + '.'):
                classes(v, name + '.' + k, out, depth + 1)
        elif data(v):
            out[name + '.' + k] = p04.freeze(v)


def data(v):
    return isinstance(v, (bool, int, float, str, tuple, list, dict, np.ndarray, set))


class NullCtx(object):
    steps = 0

    def __getattr__(self, n):
        return lambda *a, **k: None


def pools(scn, ctx):
    if scn['special']:
        ENV.pools = PoolWorld(ctx, par.schedules(scn['special']['sched']))
        ENV.ncpu = 3


def alone(scn):
    with contextlib.redirect_stdout(io.StringIO()):
        pools(scn, NullCtx())
        w = World(scn)
        for n, (j, k) in enumerate(scn['ops'] + [[None, None]]):
            if n == scn['pos']:
                w.after()
            if j is not None:
                w.op(j, k)
        return w.finish()


def count(scn):
    with contextlib.redirect_stdout(io.StringIO()):
        pools(scn, NullCtx())
        w = World(scn)
        for n, (j, k) in enumerate(scn['ops']):
            if n == scn['pos']:
                break
            w.op(j, k)
        w.prepare_hit()
        sites = {}
        with Interrupt(sites=sites) as it:
            w.hit()
    if not it.n:
        return []
    funcs = {}
    for (code, line), v in sites.items():
        funcs.setdefault(code, []).append(v)
    funcs = sorted(sorted(v) for v in funcs.values())
    sites = (sorted(sites.values()), funcs)
    return [at(sites, it.n, *h[:3]) for h in scn['hits']]


def at(sites, total, how, f, g):
    """Instruction at which an interruption strikes: uniform over the instructions executed or over the source lines, or the functions and their lines."""
    if how == 'instr':
        return 1 + min(total - 1, int(f * total))
    if how == 'line':
        s = sites[0][int(f * len(sites[0]))]
    else:
        s = sites[1][int(f * len(sites[1]))]
        s = s[int(f * 1e6 % 1 * len(s))]
    return s[int(g * len(s))]


def child(fr, scn, what):
    r = fr.run(scn)
    if r[0] == 'exc':
        raise Violation('reference', '%s: valid use without interruption raised %s: %s\n%s' % ((what,) + tuple(r[1:])), sig='reference:%s' % r[1])
    if r[0] != 'ok':
        raise RuntimeError('reference process died')
    return r[1]


def execute(scn, ctx):
    f1, f2 = Fresh(alone), Fresh(count)
    try:
        want = child(f1, scn, 'reference')
        ats = child(f2, scn, 'count')
    finally:
        f1.close()
        f2.close()
    j, kind, q = scn['hit']
    name = scn['special']['kind'] if j < 0 else scn['sol'][j]['c']['name']
    nm = '%s interrupted in %s' % (name, q or kind)
    if not ats:
        ctx.probe('nothing_to_interrupt')
        return
    steps = 0
    with contextlib.redirect_stdout(io.StringIO()):
        pools(scn, ctx)
        w = World(scn)
        frozen = [(p04.freeze(lv.inp), p04.freeze(lv.opt)) for lv in w.lives]
        for n, (jj, k) in enumerate(scn['ops'] + [[None, None]]):
            if n == scn['pos']:
                w.prepare_hit()
                errs = np.seterr(divide='warn', over='warn', under='warn', invalid='warn')
                before = p16.state()
                pack = package_state()
                for at, h in zip(ats, scn['hits']):
                    label = strike(w, at, EXC[h[3]], nm, ctx, (name, q or kind))
                    now = p16.state()
                    for x in before:
                        if before[x] != now[x]:
                            raise Violation('global', '%s: global state %s is not restored' % (label, x), sig='global:' + x)
                    now = package_state()
                    for x in pack:
                        if now.get(x) != pack[x]:
                            raise Violation('package', '%s: %s is not restored' % (label, x), sig='package:' + x)
                    steps += at
                nm = label
                np.seterr(**errs)
                w.after()
            if jj is not None:
                ctx.attempt('%s; then %s of %s' % (nm, k, scn['sol'][jj]['c']['name']), w.op, jj, k)
        for lv, fz in zip(w.lives, frozen):
            if p04.freeze(lv.inp) != fz[0]:
                raise Violation('input', '%s: an input array of %s was modified' % (nm, lv.s['c']['name']))
            if p04.freeze(lv.opt) != fz[1]:
                raise Violation('options', '%s: the options of %s were modified' % (nm, lv.s['c']['name']))
        got = ctx.attempt('%s; then the same computation again' % nm, w.finish)
    for jj, (g, v) in enumerate(zip(got[0], want[0])):
        if v is not None and all_finite(v[0]):
            check('%s: other solver %s' % (nm, scn['sol'][jj]['c']['name']), g, v, cat.tol(scn['sol'][jj]['c']))
    if all_finite(want[1][0]):
        check('%s: the same computation again' % nm, got[1], want[1], cat.tol(scn['sol'][j]['c']) if j >= 0 else (2e-3 if scn['special']['c'].get('f32') else 1e-7))
    ctx.steps += steps
    ctx.log(nm)
    ctx.note(nm)


def strike(w, at, exc, nm, ctx, key):
    it = Interrupt(at, exc)
    try:
        with it:
            w.hit()
        if it.where is not None:
            raise Violation('swallowed', '%s at instruction %d (%s): the %s did not reach the caller' % (nm, at, it.where, exc.__name__), sig='swallowed')
    except (KeyboardInterrupt, MemoryError, OSError) as e:
        if it.where is None or 'simulated' not in str(e) and type(e) is not exc:
            raise
        if type(e) is not exc:
            raise Violation('exception', '%s at %s: %s reached the caller instead of %s' % (nm, it.where, type(e).__name__, exc.__name__))
        e.__traceback__ = None
    if it.where is not None:
        ctx.fault(exc.__name__)
        ctx.key(*key, exc.__name__, it.where)
    return '%s at instruction %d (%s)' % (nm, at, it.where)


def check(nm, g, w, tol):
    same(nm, g[0], w[0], tol)
    same_stats(nm, g[1], w[1], max(tol, 1e-9) * 10)
    if g[2] != w[2]:
        raise Violation('mismatch', '%s: %s iterations instead of %s' % (nm, g[2], w[2]))


def shrink(scn):
    for n in range(len(scn['hits'])):
        if len(scn['hits']) > 1:
            yield with_(scn, hits=scn['hits'][:n] + scn['hits'][n + 1:])
    ns = len(scn['sol'])
    for n in range(len(scn['ops']) - 1, ns - 1, -1):
        ops = scn['ops'][:n] + scn['ops'][n + 1:]
        yield with_(scn, ops=ops, pos=scn['pos'] - (n < scn['pos']))
    if ns > 1 and scn['hit'][0] < ns - 1 and not any(o[0] == ns - 1 and o[1] == 'solve' for o in scn['ops']):
        ops = [o for o in scn['ops'] if o[0] != ns - 1]
        yield with_(scn, sol=scn['sol'][:-1], ops=ops, pos=scn['pos'] - (scn['pos'] >= ns))
    for n, s in enumerate(scn['sol']):
        if not any(x['share'] for x in scn['sol']):
            for c in cat.shrink_conf(s['c']):
                sol = copy.deepcopy(scn['sol'])
                sol[n]['c'] = c
                yield with_(scn, sol=sol)
