"""P22: optional components that are missing or broken change only speed."""
import importlib
import io
import contextlib
import os
import re
import sys
import types
import warnings

import numpy as np

from .. import cat, boot, funcs
from ..engine import Violation, Skip
from ..fresh import Fresh
from ..util import stats, snap, same, same_stats, with_, drop_each, rs
from .p01 import all_finite
from . import p14

LEVEL = 'exploration'
RUNS = dict(quick=1200, thorough=20000)
RULE = ('a scenario fixes a solver with inputs and options, the set of optional components that fail to import, the state of the (simulated) GPU stack, a module import order and whether the '
        'standard or the GPU variant of the solver is used; the outcome in a process that imported the package in this environment is compared with the outcome in the complete one; non-trivial '
        'if the environment or the variant differs from the standard one')
MEASURE = 'distinct (class, variant, missing components, GPU state) tuples'
COMPONENTS = {'real': ['all serial ADMM, PGM and dictionary learning classes', 'sporco.cupy with its module patching', 'NumPy, SciPy, pyfftw and numexpr where not removed by the scenario'],
              'stub': ['cupy, cupyx and GPUtil (a GPU whose memory is the host memory; device or driver failures injected)', 'import failures of pyfftw, numexpr, mpldatacursor, cupy']}
ASSUMPTIONS = ['different FFT and elementwise evaluation libraries round differently: runs that amplify perturbations of the inputs in the last digits beyond the tolerance are skipped',
               'the simulated GPU array type is the NumPy one, so transfers that are missing in code for a real GPU are not visible']
STRICT_REF = True
TIMEOUT = 120

OPTIONAL = ['pyfftw', 'numexpr', 'mpldatacursor']
MIRROR = ['admm.bpdn', 'admm.cbpdn', 'admm.cbpdnin', 'admm.cbpdntv', 'admm.pdcsc', 'admm.rpca', 'admm.tvl1', 'admm.tvl2', 'pgm.cbpdn']
MODS = ['fft', 'util', 'linalg', 'common', 'cdict', 'cnvrep', 'signal', 'array', 'metric', 'prox', 'plot', 'interp',
        'admm.admm', 'admm.bpdn', 'admm.cbpdn', 'admm.cbpdnin', 'admm.cbpdntv', 'admm.pdcsc', 'admm.ccmod', 'admm.ccmodmd', 'admm.cmod', 'admm.rpca', 'admm.spline', 'admm.tvl1', 'admm.tvl2',
        'admm.ppp', 'admm.parcbpdn', 'pgm.pgm', 'pgm.bpdn', 'pgm.cbpdn', 'pgm.ccmod', 'pgm.cmod', 'pgm.ppp', 'dictlrn.dictlrn', 'dictlrn.bpdndl', 'dictlrn.wbpdndl', 'dictlrn.cbpdndl',
        'dictlrn.cbpdndlmd', 'dictlrn.onlinecdl', 'dictlrn.prlcnscdl', 'cupy', 'cupy.admm', 'cupy.pgm', 'cupy.admm.cbpdn', 'cupy.admm.tvl2', 'cupy.pgm.cbpdn', 'cupy.dictlrn.onlinecdl']


def modname(n):
    return n.rsplit('.', 1)[0]


def generate(rng, tier, i):
    ns = cat.names()
    variant = 'cupy' if i % 2 else 'std'
    if variant == 'cupy':
        ns = [n for n in ns if modname(n) in MIRROR]
    c = cat.gen(rng, name=ns[(i // 2) % len(ns)])
    kind = 'func' if i % 5 == 4 else 'online' if i % 11 == 3 else 'cat'
    if kind == 'func':
        c = dict(name='functions', seeds=[rng.randrange(1 << 30) for _ in range(25)], f32=rng.random() < .4)
    elif kind == 'online':
        c = p14.generate(rng, tier, i)
        c['ops'] = [o for o in c['ops'] if o['op'] == 'batch'][:3]
        c['name'] = 'online'
    missing = [m for m in OPTIONAL if rng.random() < .5]
    gpu = rng.choice(['none', 'none', 'inaccessible', 'driver', 'sim', 'sim'])
    gputil = rng.choice(['none', 'fails', 'empty', 'ok', 'interface'])
    order = rng.sample(MODS, rng.choice([0, 1, 2, 4, 10]))
    return dict(kind=kind, c=c, variant=variant, missing=missing, gpu=gpu, gputil=gputil, order=order, n=rng.choice([1, 2, 3, 6]), split=rng.random() < .3)


def nontrivial(scn):
    import json
    return json.dumps(scn, sort_keys=True) if scn['missing'] or scn['variant'] == 'cupy' or scn['order'] else None


# ------------------------------------------------------------ the environment

def gpu_modules(state, gputil):
    """A simulated GPU stack."""
    cp = types.ModuleType('cupy')
    for k in dir(np):
        if not k.startswith('__') and k not in ('product',):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                try:
                    setattr(cp, k, getattr(np, k))
                except AttributeError:
                    pass
    cuda = types.ModuleType('cupy.cuda')

    class Device(object):
        current = 0

        def __init__(self, id=0):
            self.id = id

        @property
        def compute_capability(self):
            if state == 'inaccessible':
                raise RuntimeError('cudaErrorNoDevice: no CUDA-capable device is detected')
            return '70'

        def use(self):
            Device.current = self.id
    cuda.Device = Device
    cuda.runtime = types.ModuleType('cupy.cuda.runtime')
    cuda.runtime.CUDARuntimeError = RuntimeError
    cp.cuda = cuda
    cp.get_array_module = lambda *a: cp
    cp.asnumpy = np.asarray
    cp.core = types.ModuleType('cupy.core')
    cp.core.core = types.ModuleType('cupy.core.core')
    cp.core.core.ndarray = np.ndarray
    x = types.ModuleType('cupyx')
    x.scipy = types.ModuleType('cupyx.scipy')
    x.scipy.linalg = types.ModuleType('cupyx.scipy.linalg')
    import scipy.linalg as sl
    x.scipy.linalg.solve_triangular = sl.solve_triangular
    out = {'cupy': cp, 'cupy.cuda': cuda, 'cupyx': x, 'cupyx.scipy': x.scipy, 'cupyx.scipy.linalg': x.scipy.linalg}
    if gputil == 'none':
        out['GPUtil'] = None
    else:
        g = types.ModuleType('GPUtil')
        Gpu = type('GPU', (), dict(load=.5, memoryUtil=.1, id=0))

        def getGPUs():
            if gputil == 'fails':
                raise ValueError('nvidia-smi output not understood')
            return [] if gputil == 'empty' else [Gpu()]
        g.getGPUs = getGPUs
        g.getAvailable = lambda *a, **k: [0]
        out['GPUtil'] = g
    return out


class Broken(object):
    """An import hook: the library is there, its import fails."""

    def __init__(self, names):
        self.names = names

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] in self.names:
            raise ImportError('libcuda.so.1: cannot open shared object file (simulated)')
        return None


def load(name, variant, least, pat, new):
    f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), *name.split('.')[1:]) + '.py'
    src = open(f).read()
    if variant == 'cupy':
        src, k = re.subn(pat, new, src)
        if k < least:
            raise RuntimeError('harness: substitution failed')
    m = types.ModuleType(name)
    m.__package__ = name.rsplit('.', 1)[0]
    m.__file__ = f
    sys.modules[name] = m
    exec(compile(src, f, 'exec'), m.__dict__)
    return m


def prepare(scn):
    """Import the package anew in the environment of the scenario."""
    pkgs = tuple(scn['missing'])
    for n in list(sys.modules):
        t = n.split('.')[0]
        if t == 'sporco' or t in pkgs or n in ('sim.cat', 'sim.par', 'sim.user') or n.startswith('sim.props.') and n != __name__:
            del sys.modules[n]
            if n.startswith('sim.') and hasattr(sys.modules[n.rsplit('.', 1)[0]], n.rsplit('.', 1)[1]):
                delattr(sys.modules[n.rsplit('.', 1)[0]], n.rsplit('.', 1)[1])
    for p in pkgs:
        sys.modules[p] = None
    if scn['gpu'] in ('sim', 'inaccessible'):
        sys.modules.update(gpu_modules(scn['gpu'], scn['gputil']))
    elif scn['gpu'] == 'driver':
        sys.meta_path.insert(0, Broken(['cupy', 'cupyx']))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for m in scn['order']:
            importlib.import_module('sporco.' + m)
        if scn['variant'] == 'cupy':
            for m in MIRROR:
                importlib.import_module('sporco.cupy.' + m)
        boot.import_sporco()
    v = scn['variant']
    if scn['kind'] == 'func':
        return (lambda n: getattr(sys.modules['sporco.cupy'], n)) if v == 'cupy' else (lambda n: sys.modules['sporco.' + n])
    m = load('sim.cat', v, 10, r'(?m)^import sporco\.((?:%s|prox|pgm\.momentum|pgm\.stepsize|pgm\.backtrack)) as' % '|'.join(re.escape(m) for m in MIRROR), r'import sporco.cupy.\1 as')
    if scn['kind'] == 'online':
        return load('sim.props.p14', v, 2, r'(?m)^from sporco\.(admm import cbpdn|dictlrn import onlinecdl)$', r'from sporco.cupy.\1')
    return m


def leaves(x):
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, dict):
        x = [x[k] for k in sorted(x)]
    return [w for v in x for w in leaves(v)] if isinstance(x, (list, tuple)) else []


def gofunc(M, scn):
    c = scn['c']
    out, ok = [], []
    dt = np.float32 if c['f32'] else np.float64
    for s in c['seeds']:
        r = rs(s)
        k = funcs.STD[r.randint(len(funcs.STD))]
        try:
            out.append([k] + [plain(v) for v in funcs.ALL[k](M, r, dt)])
        except Exception as e:
            raise Failed(k, e)
    return out


class Failed(Exception):
    def __init__(self, k, e):
        Exception.__init__(self, '%s: %s: %s' % (k, type(e).__name__, e))


def goonline(m, scn, noise, seed):
    c = scn['c']
    r = rs(seed)

    def f(x):
        return (x * (1 + noise * r.randn(*x.shape))).astype(x.dtype) if noise else x
    out = []
    d, mx, M = m.dsz_of(c)
    dt = np.float32 if c['f32'] else np.float64
    b = m.make(c, f(rs(c['seed']).randn(*(mx + ((c['Cd'],) if c['Cd'] else ()) + (M,)))), 0, None)
    for op in c['ops']:
        lay = m.layout(op, c)
        if lay is None:
            continue
        S = f(rs(op['seed']).randn(*(tuple(op['N']) + (op['C'], op['K']))).astype(dt).reshape(lay[0]))
        W = m.mask_of(op, lay[0], c)[0] if c['mask'] else None
        args = (S,) if W is None else (S, W.astype(dt))
        out.append([snap(b.solve(*args, dimK=lay[1]))])
    return out, stats(b.itstat), b.j


def go(cat, scn, noise=None, seed=0):
    if scn['kind'] == 'func':
        return gofunc(cat, scn)
    if scn['kind'] == 'online':
        with contextlib.redirect_stdout(io.StringIO()):
            return goonline(cat, scn, noise, seed)
    c = scn['c']
    r = rs(seed)

    def f(x):
        if noise and isinstance(x, np.ndarray) and x.dtype.kind in 'fc':
            return (x * (1 + noise * r.randn(*x.shape))).astype(x.dtype)
        return x
    with contextlib.redirect_stdout(io.StringIO()):
        inp = {k: f(v) for k, v in cat.inputs(c).items()}
        b = cat.construct(c, inp, cat.options(c, inp, {'MaxMainIter': scn['n'], 'Verbose': False}))
        out = [plain(cat.result(b, b.solve()))]
        if scn['split']:
            out.append(plain(cat.result(b, b.solve())))
        return out, stats(cat.core(b).itstat), cat.counter(b)


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return np.asarray(x) if isinstance(x, np.ndarray) else x


def other(scn):
    try:
        m = prepare(scn)
    except Exception as e:
        import traceback
        return ('import', type(e).__name__, str(e)[:300], ''.join(traceback.format_exc().splitlines(True)[-8:]))
    sp = sys.modules['sporco']
    info = dict(pyfftw=sys.modules['sporco.fft'].have_pyfftw, numexpr=sys.modules['sporco.linalg'].have_numexpr)
    if 'sporco.cupy' in sys.modules:
        info['cupy'] = sys.modules['sporco.cupy'].have_cupy
    if scn['kind'] == 'cat':
        cls = m.construct(scn['c'], m.inputs(scn['c']), m.options(scn['c'], m.inputs(scn['c']), {}))
        info['class'] = type(m.core(cls)).__mro__[0].__module__
    try:
        return ('done', info, go(m, scn))
    except Exception as e:
        import traceback
        return ('failed', type(e).__name__, str(e)[:300], ''.join(traceback.format_exc().splitlines(True)[-8:]))


def compare(nm, g, w, tol):
    if len(g[0]) != len(w[0]):
        raise Violation('mismatch', '%s: number of results' % nm)
    for a, b in zip(g[0], w[0]):
        same(nm, a, b, tol)
        for x, y in zip(leaves(a), leaves(b)):
            if x.dtype != y.dtype:
                raise Violation('dtype', '%s: a result has type %s instead of %s' % (nm, x.dtype, y.dtype), sig='dtype')
    same_stats(nm, g[1], w[1], max(tol, 1e-9) * 10)
    if g[2] != w[2]:
        raise Violation('mismatch', '%s: %s iterations instead of %s' % (nm, g[2], w[2]))


def execute(scn, ctx):
    fr = Fresh(other)
    try:
        std = {'cat': cat, 'online': p14, 'func': lambda n: importlib.import_module('sporco.' + n)}[scn['kind']]
        want = ctx.reference(go, std, scn)
        c = scn['c']
        nm = '%s (%s) with %s missing, gpu %s/%s, imports %s' % (c['name'], scn['variant'], '+'.join(scn['missing']) or 'nothing', scn['gpu'], scn['gputil'], ' '.join(scn['order']) or 'standard')
        r = fr.run(scn)
    finally:
        fr.close()
    for m in scn['missing']:
        ctx.fault('missing_' + m)
    ctx.fault('gpu_' + scn['gpu'])
    ctx.key(c['name'], scn['variant'], tuple(scn['missing']), scn['gpu'])
    if r[0] != 'ok':
        raise Violation('exception', '%s: %s' % (nm, r[1:]), sig='exception:process')
    r = r[1]
    if r[0] in ('import', 'failed'):
        raise Violation('exception', '%s: %s raised %s: %s\n%s' % ((nm, 'import' if r[0] == 'import' else 'the solver') + r[1:]), sig='%s:%s' % (r[0], r[1]))
    info, got = r[1], r[2]
    for m in ('pyfftw', 'numexpr'):
        ctx.probe('%s_%s' % (m, 'used' if info[m] else 'absent'))
    ctx.log(nm, info)
    if scn['variant'] == 'std' and info.get('class', '').startswith('sporco.cupy'):
        raise Violation('mismatch', '%s: the standard class is the GPU one' % nm)
    if 'cupy' in info and info['cupy'] != (scn['gpu'] == 'sim'):
        raise Violation('mismatch', '%s: GPU support %s' % (nm, info['cupy']), sig='gpu')
    c = scn['c']
    if scn['kind'] == 'func':
        tol = 2e-5 if c['f32'] else 1e-11
        for g, w in zip(got, want):
            for j, (x, y) in enumerate(zip(g[1:], w[1:])):
                same('%s, function %s result %d' % (nm, w[0], j), x, y, tol, sig='func:' + w[0])
                if np.asarray(x).dtype != np.asarray(y).dtype:
                    raise Violation('dtype', '%s, function %s result %d has type %s instead of %s' % (nm, w[0], j, np.asarray(x).dtype, np.asarray(y).dtype), sig='dtype:' + w[0])
        ctx.steps += len(want)
        return
    if not all_finite([v for o in want[0] for v in o]):
        ctx.probe('not_finite')
        return
    tol = cat.tol(c) if scn['kind'] == 'cat' else (2e-3 if c['f32'] else 1e-7)
    try:
        compare(nm, got, want, tol)
    except Violation:
        for k in range(6):
            try:
                compare('', go(std, scn, 3e-7 if cat.f32(c) else 1e-14, k), want, tol)
            except Violation:
                raise Skip('the run amplifies rounding errors')
        raise
    ctx.steps += scn['n']


def shrink(scn):
    for k in ('missing', 'order'):
        for p in drop_each(scn[k]):
            yield with_(scn, **{k: p})
    if scn['kind'] == 'func':
        for p in drop_each(scn['c']['seeds']):
            yield with_(scn, c=dict(scn['c'], seeds=p))
    if scn['kind'] == 'online':
        for p in drop_each(scn['c']['ops']):
            if p:
                yield with_(scn, c=dict(scn['c'], ops=p))
    for c in cat.shrink_conf(scn['c']) if scn['kind'] == 'cat' else ():
        yield with_(scn, c=c)
    if scn['n'] > 1:
        yield with_(scn, n=1)
    if scn['split']:
        yield with_(scn, split=False)
    if scn['gpu'] != 'none':
        yield with_(scn, gpu='none', gputil='none')
