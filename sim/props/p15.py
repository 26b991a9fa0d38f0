"""P15: a learned dictionary satisfies its constraints at every moment."""
import sys
import copy

import numpy as np

from sporco.dictlrn import onlinecdl

from .. import boot, cat, par
from ..boot import ENV
from ..simpool import PoolWorld
from ..simsched import Deadlock, StepLimit
from ..engine import Violation, Skip
from ..util import rs, with_, drop_each
from . import p14

LEVEL = 'exploration'
RUNS = dict(quick=3500, thorough=100000)
RULE = ('a scenario fixes a dictionary learning or dictionary update class, options, degenerate data, a history of calls with stops and injected interruptions (exception in a callback of the outer or the '
        'inner solvers, KeyboardInterrupt or MemoryError at a chosen line of package code, worker failure), and the constraint set is evaluated independently at every callback, after every call and after '
        'every interruption; non-trivial if at least two observations follow an iteration')
MEASURE = 'distinct (class, methods, constraint, layout, data kind, event) tuples'
COMPONENTS = {'real': ['all dictionary update and dictionary learning classes (ADMM, PGM, combined, consensus parallel, online)'], 'stub': ['multiprocessing (simulated pool) for the parallel classes']}
ASSUMPTIONS = ['filters that are constant up to rounding while zero mean is requested are not generated (the projection is undefined there)', 'the option ReturnX of the ADMM classes asks for the infeasible variable and is not set',
               'no initial iterate is given through the Y0 or X0 options']

EVENTS = ['none', 'none', 'cb', 'inner', 'line', 'line', 'line']


def generate(rng, tier, i):
    m = i % 8
    if m == 7:
        s = p14.generate(rng, tier, i)
        return dict(kind='online', c=s, ints=[rng.choice([0, 0, rng.choice([20, 100, 300, 600, 1000, 2000, 4000])]) for _ in s['ops']])
    if m == 3:
        c = par.gen_cns(rng)
        c['do']['ZeroMean'] = rng.random() < .5
        segs = [dict(n=rng.randint(1, 3), ev=rng.choice(['none', 'none', 'task', 'cb']), sec=rng.randint(0, 6), tsk=rng.randint(0, 3), step=rng.choice([0, 1, 5, 20, 60, 200]), at=rng.randint(1, 3)) for _ in range(rng.randint(1, 4))]
        return dict(kind='cns', c=c, nproc=rng.randint(0, 3), sched=par.gen_sched(rng), segs=segs)
    ns = cat.names(tag='dict')
    c = cat.gen(rng, name=ns[(i * 7 + rng.randrange(3)) % len(ns)])
    o = c['o']
    for k in ('ReturnX', 'X0', 'Y0', 'U0'):
        o.pop(k, None)
    for sub in ('CCMOD', 'CMOD'):
        if sub in o and rng.random() < .3:
            o[sub]['ZeroMean'] = True
    segs = []
    for _ in range(rng.randint(1, 4)):
        n = rng.choice([1, 1, 2, 3, 5])
        segs.append(dict(n=n, ev=rng.choice(EVENTS), at=rng.randint(1, n), line=int(10 ** rng.uniform(.3, 3.6)), exc=rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError']), which=rng.randint(0, 1)))
    return dict(kind='serial', c=c, segs=segs, data=rng.choice(['n', 'n', 'n', 'n', 'zeroS', 'zeroZ', 'big', 'small', 'zerofilt']))


def nontrivial(scn):
    import json
    n = len(scn['c']['ops']) if scn['kind'] == 'online' else sum(s['n'] for s in scn['segs'])
    return json.dumps(scn, sort_keys=True) if n > 1 else None


class Boom(Exception):
    pass


def supports(dsz, dimN):
    """For each filter a list of (first channel, end channel, support)."""
    if not isinstance(dsz[0], tuple):
        dsz = (dsz,)
    out = []
    for d in dsz:
        if isinstance(d[0], tuple):
            c, l = 0, []
            for e in d:
                l.append((c, c + e[dimN], tuple(e[:dimN])))
                c += e[dimN]
            out += [l] * d[0][-1]
        else:
            out += [[(0, None, tuple(d[:dimN]))]] * d[-1]
    return out


def check_conv(what, D, dsz, dimN, zm, tol, full=None):
    sup = supports(dsz, dimN)
    mx = tuple(max(s[2][a] for f in sup for s in f) for a in range(dimN))
    D = np.asarray(D)
    if D.shape[:dimN] != mx or D.shape[-1] != len(sup):
        raise Violation('shape', '%s: dictionary has shape %s for size specification %s' % (what, D.shape, dsz))
    if not np.all(np.isfinite(D)):
        raise Violation('finite', '%s: dictionary has non-finite entries' % what)
    for name, A in (('', D), ('uncropped ', full)):
        if A is None:
            continue
        for m, f in enumerate(sup):
            v = np.array(A[..., m])
            n = np.sqrt(np.sum(np.abs(v.astype(complex)) ** 2))
            if not (n == 0 or abs(n - 1) <= tol):
                raise Violation('norm', '%s: %sfilter %d has norm %.9g' % (what, name, m, n))
            w = v.copy()
            for c0, c1, s in f:
                idx = tuple(slice(0, k) for k in s) + ((slice(c0, c1),) if c1 is not None else ())
                w[idx] = 0
                if zm:
                    mean = np.abs(np.mean(v[idx], axis=tuple(range(dimN))))
                    if np.max(mean) > tol:
                        raise Violation('zeromean', '%s: %sfilter %d has mean %.3g' % (what, name, m, np.max(mean)))
            if np.any(w != 0):
                raise Violation('support', '%s: %sfilter %d is non-zero outside its support %s' % (what, name, m, f))


def check_mat(what, D, shape, zm, nn, tol):
    D = np.asarray(D)
    if D.shape != tuple(shape):
        raise Violation('shape', '%s: dictionary has shape %s, expected %s' % (what, D.shape, shape))
    if not np.all(np.isfinite(D)):
        raise Violation('finite', '%s: dictionary has non-finite entries' % what)
    n = np.sqrt(np.sum(D.astype(float) ** 2, axis=0))
    bad = [m for m in range(D.shape[1]) if not (n[m] == 0 or abs(n[m] - 1) <= tol)]
    if bad:
        raise Violation('norm', '%s: atom %d has norm %.9g' % (what, bad[0], n[bad[0]]))
    if zm and np.max(np.abs(np.mean(D, axis=0))) > tol:
        raise Violation('zeromean', '%s: an atom has mean %.3g' % (what, np.max(np.abs(np.mean(D, axis=0)))))
    if nn and np.min(D) < 0:
        raise Violation('nonneg', '%s: an atom has a negative entry %.3g' % (what, np.min(D)))


class Lines(object):
    """Raises an exception when the n-th line of package code is executed (an interruption at an arbitrary point)."""

    def __init__(self, n, exc):
        self.n, self.exc, self.hit = n, exc, None

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.call)
        return self

    def call(self, fr, ev, arg):
        if fr.f_code.co_filename.startswith(boot.SPORCO) and fr.f_code.co_name not in ('__del__',):
            return self.line
        return None

    def line(self, fr, ev, arg):
        if ev == 'line' and self.hit is None:
            self.n -= 1
            if self.n <= 0:
                self.hit = '%s:%d' % (fr.f_code.co_filename[len(boot.SPORCO):], fr.f_lineno)
                sys.settrace(None)
                raise self.exc('injected')
        return self.line

    def __exit__(self, *a):
        sys.settrace(self.old)
        return False


def diverged(b):
    s = cat.core(b)
    for r in s.itstat:
        for v in r:
            if v is not None and not (np.isfinite(v) and abs(v) < 1e12):
                return True
    return False


def guard(b, fn):
    try:
        fn()
    except Violation as v:
        if v.kind in ('finite', 'norm') and diverged(b):
            raise Skip('the iteration diverges')
        raise


def exec_serial(scn, ctx):
    c = scn['c']
    nm = c['name']
    inp = cat.inputs(c)
    d = scn['data']
    for k in inp:
        if not isinstance(inp[k], np.ndarray) or k == 'W':
            continue
        if (d == 'zeroS' and k == 'S') or (d == 'zeroZ' and k == 'Z'):
            inp[k] = inp[k] * 0
        elif d == 'big' and k == 'S':
            inp[k] = inp[k] * 100
        elif d == 'small' and k == 'S':
            inp[k] = inp[k] * 1e-6
        elif d == 'zerofilt' and k == 'D':
            inp[k] = inp[k].copy()
            inp[k][..., 0] = 0
    opt = cat.options(c, inp)
    b = ctx.reference(cat.construct, c, inp, opt)
    s = cat.core(b)
    mat = nm in cat.names(tag='cmod')
    dl = cat.CATFAM(b) == 'dl'
    so = s.opt
    if dl:
        so = s.opt['CMOD'] if mat else s.opt['CCMOD'] if 'CCMOD' in s.opt else s.dstep.opt
    zm = bool(so['ZeroMean'])
    nn = bool(so['NonNegCoef']) if 'NonNegCoef' in so else False
    tol = 1e-4 if cat.f32(c) else 1e-8
    dimN = 2
    dsz = inp['dsz'] if 'dsz' in inp else inp['D'].shape
    if not mat and nm.endswith('WeightedConv'):
        raise Skip('')
    seen = [0]
    evs = set()

    def look(what):
        seen[0] += 1
        D = s.getdict()
        if mat:
            guard(b, lambda: check_mat(what, D, dsz, zm, nn, tol))
            return
        full = (s.dstep if '.user.' in nm else s).getdict(crop=False)
        guard(b, lambda: check_conv(what, D, dsz, dimN, zm, tol, full))

    if dl:
        look('before the first iteration')
    ctl = {'cb': None, 'n': 0, 'inner': None}

    def outer(obj):
        ctl['n'] += 1
        look('iteration %d' % ctl['n'])
        if ctl['cb'] is not None:
            ctl['cb'] -= 1
            if ctl['cb'] <= 0:
                ctl['cb'] = None
                raise Boom('callback')

    def innercb(obj):
        if ctl['inner'] is not None:
            ctl['inner'] -= 1
            if ctl['inner'] <= 0:
                ctl['inner'] = None
                raise Boom('inner callback')

    s.opt['Callback'] = outer
    if dl:
        for st in (s.xstep, s.dstep):
            if 'Callback' in st.opt:
                st.opt['Callback'] = innercb
    for g, sg in enumerate(scn['segs']):
        s.opt['MaxMainIter'] = sg['n']
        ev = sg['ev']
        ctl['cb'] = ctl['inner'] = None
        if ev == 'inner' and not dl:
            ev = 'cb'
        what = 'call %d' % g
        try:
            if ev == 'line':
                lc = Lines(sg['line'], KeyboardInterrupt if sg['exc'] == 'KeyboardInterrupt' else MemoryError)
                with lc:
                    s.solve()
            else:
                if ev == 'cb':
                    ctl['cb'] = sg['at']
                elif ev == 'inner':
                    ctl['inner'] = 2 * sg['at'] - sg['which']
                s.solve()
        except (Violation, Skip):
            raise
        except (Boom, KeyboardInterrupt, MemoryError) as e:
            if ev == 'line':
                ctx.fault('interrupt_' + sg['exc'])
                ctx.log('hit', lc.hit)
            else:
                ctx.fault('callback_exception' if ev == 'cb' else 'inner_callback_exception')
            what += ' interrupted (%s%s)' % (ev, ' at ' + lc.hit if ev == 'line' else '')
            evs.add(ev)
            ctx.key(nm, c.get('xm'), c.get('dm'), zm, nn, d, ev)
        except Exception as e:
            # a previous interruption may leave a solver that cannot be continued; the dictionary must still be feasible
            if not evs & {'line', 'inner'}:
                raise
            ctx.probe('not_resumable')
            ctx.log('not resumable', type(e).__name__)
        look('after ' + what)
        ctx.steps += sg['n']
    ctx.key(nm, c.get('xm'), c.get('dm'), zm, nn, c.get('kind'), c.get('dszk'), d)


def exec_cns(scn, ctx):
    c = scn['c']
    world = PoolWorld(ctx, par.schedules(scn['sched']))
    ENV.pools = world
    ENV.ncpu = 3
    b = ctx.attempt('construction', par.cns_make, c, scn['nproc'])
    Dsh = par.cns_data(c)[0].shape
    zm = c['do']['ZeroMean']
    nit = [0]
    ctl = {'cb': None}

    def cb(obj):
        nit[0] += 1
        guard(b, lambda: check_conv('iteration %d' % nit[0], b.getdict(), Dsh, 2, zm, 1e-8))
        if ctl['cb'] is not None:
            ctl['cb'] -= 1
            if ctl['cb'] <= 0:
                raise Boom('callback')

    b.opt['Callback'] = cb
    for g, sg in enumerate(scn['segs']):
        b.opt['MaxMainIter'] = sg['n']
        ctl['cb'] = sg['at'] if sg['ev'] == 'cb' else None
        world.faults = [dict(at='task', kind='worker_exception', section=world.nmap + sg['sec'], task=sg['tsk'], step=sg['step'])] if sg['ev'] == 'task' and scn['nproc'] else []
        nf = len(world.fired)
        try:
            b.solve()
        except (Deadlock, StepLimit) as e:
            raise Violation('hang', 'call %d: %s' % (g, e))
        except (Violation, Skip):
            raise
        except BaseException as e:
            if isinstance(e, Boom):
                ctx.fault('callback_exception')
            elif len(world.fired) == nf and not any(x['ev'] == 'task' for x in scn['segs'][:g]):
                raise
            ctx.key('cns', c['mask'], c['kind'], zm, sg['ev'], scn['nproc'])
        ctl['cb'] = None
        guard(b, lambda: check_conv('after call %d (%s)' % (g, sg['ev']), b.getdict(), Dsh, 2, zm, 1e-8))
    ctx.key('cns', c['mask'], c['kind'], zm, scn['nproc'])


def exec_online(scn, ctx):
    c = scn['c']
    d, mx, M = p14.dsz_of(c)
    tol = 1e-4 if c['f32'] else 1e-8
    dt = np.float32 if c['f32'] else np.float64
    hookn = {'at': None}

    def hook(o):
        if hookn['at'] is not None and o.k >= hookn['at']:
            raise Boom('')
        return 0
    D0 = rs(c['seed']).randn(*(mx + ((c['Cd'],) if c['Cd'] else ()) + (M,)))
    b = ctx.reference(p14.make, c, D0, 0, hook)

    def look(what):
        check_conv(what, b.getdict(), d, c['dimN'], c['zm'], tol)
    look('initial')
    for n, (op, line) in enumerate(zip(c['ops'], scn['ints'])):
        lay = p14.layout(op, c) if 'N' in op else None
        if lay is None:
            continue
        shp, dimK = lay
        S = rs(op['seed']).randn(*(tuple(op['N']) + (op['C'], op['K']))).astype(dt).reshape(shp)
        W = p14.mask_of(op, shp, c)[0] if c['mask'] else None
        args = (S,) if W is None else (S, W.astype(dt))
        if op['op'] == 'fail':
            hookn['at'] = op['at']
        what = 'batch %d' % n
        try:
            if line:
                lc = Lines(line, KeyboardInterrupt)
                with lc:
                    b.solve(*args, dimK=dimK)
            else:
                b.solve(*args, dimK=dimK)
        except (Boom, KeyboardInterrupt) as e:
            ctx.fault('callback_exception' if isinstance(e, Boom) else 'interrupt_KeyboardInterrupt')
            if line:
                what += ' interrupted at %s' % lc.hit
            ctx.key('online', c['mask'], c['Cd'], c['zm'], 'interrupted')
        hookn['at'] = None
        look('after ' + what)
        ctx.steps += 1
    ctx.key('online', c['mask'], c['Cd'], c['zm'], c['multi'])


def execute(scn, ctx):
    import io
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        dict(serial=exec_serial, cns=exec_cns, online=exec_online)[scn['kind']](scn, ctx)


def shrink(scn):
    if scn['kind'] == 'online':
        ops = scn['c']['ops']
        for n in range(len(ops)):
            s = copy.deepcopy(scn)
            del s['c']['ops'][n], s['ints'][n]
            yield s
        for n, l in enumerate(scn['ints']):
            if l:
                s = copy.deepcopy(scn)
                s['ints'][n] = 0
                yield s
        return
    for segs in drop_each(scn['segs']):
        if segs:
            yield with_(scn, segs=segs)
    for n, sg in enumerate(scn['segs']):
        if sg['ev'] != 'none':
            s = copy.deepcopy(scn)
            s['segs'][n]['ev'] = 'none'
            yield s
        if sg['n'] > 1:
            s = copy.deepcopy(scn)
            s['segs'][n]['n'] = 1
            s['segs'][n]['at'] = 1
            yield s
    if scn['kind'] == 'serial':
        if scn['data'] != 'n':
            yield with_(scn, data='n')
        for c in cat.shrink_conf(scn['c']):
            yield with_(scn, c=c)
