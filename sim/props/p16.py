"""P16: results depend on the inputs only, not on ambient state."""
import os
import gc
import sys
import time
import locale
import random
import ctypes
import shutil
import signal
import tempfile
import threading
import warnings

import numpy as np
import pyfftw

import sporco.fft

from .. import cat, par
from ..boot import ENV
from ..engine import Violation, Skip
from ..fresh import Fresh
from ..util import stats, snap, same, same_stats, with_, drop_each, rs
from .p01 import all_finite
from . import p14

LEVEL = 'exploration'
RUNS = dict(quick=3000, thorough=80000)
RULE = ('a scenario fixes a solver or learner with inputs and options and a set of perturbations of the ambient state; the outcome is compared with the outcome in a pristine process without '
        'perturbations, and the global state after the run with that before it; non-trivial if at least one perturbation is active')
MEASURE = 'distinct (class, perturbation) pairs'
COMPONENTS = {'real': ['all serial ADMM, PGM, dictionary learning and online learning classes', 'ParConvBPDN and consensus learning without a pool', 'glibc malloc (fill bytes through mallopt)', 'pyfftw'],
              'stub': ['clock', 'numpy.empty, numpy.empty_like, pyfftw.empty_aligned fill the array before it is handed out']}
ASSUMPTIONS = ['perturbations that legitimately change the order of floating point operations (memory layout, FFT threads) are compared up to the observed sensitivity of the run to rounding',
               'the floating point error mode "raise" and warnings turned into exceptions are not part of the ambient state considered']
STRICT_REF = True

EXACT = ['rng', 'rngheavy', 'empty_nan', 'empty_junk', 'malloc', 'clock', 'clockback', 'prior', 'prior_same', 'cupy', 'errmode', 'cwd', 'environ', 'gc', 'printopt', 'stdout', 'threads_alive', 'reuse']
ROUND = ['layF', 'layS', 'layN', 'layT', 'layU', 'layM', 'readonly', 'fftthreads', 'fftcache']


def generate(rng, tier, i):
    ns = cat.names()
    m = i % 12
    if m == 5:
        c = p14.generate(rng, tier, i)
        c['ops'] = [o for o in c['ops'] if o['op'] == 'batch'][:4]
        kind = 'online'
    elif m == 9:
        kind = rng.choice(['par', 'cns'])
        c = par.gen_par(rng) if kind == 'par' else par.gen_cns(rng)
    else:
        kind = 'cat'
        c = cat.gen(rng, name=ns[i % len(ns)])
    nex = rng.choice([0, 1, 1, 2, 4])
    per = rng.sample(EXACT, nex)
    if nex == 0 or rng.random() < .3:
        per.append(rng.choice(ROUND))
    prior = cat.gen(rng, name=rng.choice(ns)) if 'prior' in per else None
    return dict(kind=kind, c=c, per=sorted(per), prior=prior, n=rng.choice([1, 2, 3, 5]), split=rng.random() < .4, verbose=rng.random() < .15, fill=rng.choice([1, 0x80, 0x40, 0x55]), seed=rng.getrandbits(30))


def nontrivial(scn):
    import json
    return json.dumps(scn, sort_keys=True) if scn['per'] else None


def relay(x, how, keep):
    """The same array in another memory layout."""
    if not isinstance(x, np.ndarray) or x.ndim == 0 or x.dtype == object:
        return x
    if how == 'layF':
        return np.asfortranarray(x)
    if how == 'layS':
        big = np.full(tuple(2 * n for n in x.shape), 7, dtype=x.dtype)
        big[(slice(None, None, 2),) * x.ndim] = x
        keep.append(big)
        return big[(slice(None, None, 2),) * x.ndim]
    if how == 'layN':
        r = np.ascontiguousarray(x[(slice(None, None, -1),) * x.ndim])
        return r[(slice(None, None, -1),) * x.ndim]
    if how == 'layT':
        return np.ascontiguousarray(x.T).T
    if how == 'layU':
        buf = np.zeros(x.nbytes + 1, dtype=np.uint8)
        u = buf[1:].view(x.dtype).reshape(x.shape) if x.nbytes else x
        if x.nbytes:
            u[...] = x
        return u
    if how == 'layM':
        d = tempfile.mkdtemp(prefix='vp16')
        try:
            mm = np.memmap(os.path.join(d, 'a'), dtype=x.dtype, mode='w+', shape=x.shape)
            mm[...] = x
        finally:
            shutil.rmtree(d)
        return mm
    if how == 'readonly':
        y = x.copy()
        y.flags.writeable = False
        return y
    return x


def go(scn, how=None, noise=None):
    """Runs the computation and returns everything observable."""
    c = scn['c']
    keep = []
    r = rs(scn['seed'])

    def f(x):
        if noise and isinstance(x, np.ndarray) and x.dtype.kind in 'fc':
            return (x * (1 + noise * r.randn(*x.shape))).astype(x.dtype)
        return relay(x, how, keep) if how else x
    out = []
    if scn['kind'] == 'cat':
        inp = cat.inputs(c)
        inp = {k: f(v) for k, v in inp.items()}
        o = cat.options(c, inp, {'MaxMainIter': scn['n'], 'Verbose': scn['verbose']})
        b = cat.construct(c, inp, o)
        ret = b.solve()
        out.append(cat.result(b, ret))
        if scn['split']:
            ret = b.solve()
            out.append(cat.result(b, ret))
        return out, stats(cat.core(b).itstat), cat.counter(b)
    if scn['kind'] in ('par', 'cns'):
        mk = par.par_make if scn['kind'] == 'par' else par.cns_make
        b = mk(c, 1 if scn['kind'] == 'par' else 0)
        b.opt['MaxMainIter'] = scn['n']
        ret = b.solve()
        out.append([snap(ret), snap(b.getcoef())])
        if scn['split']:
            ret = b.solve()
            out.append([snap(ret), snap(b.getcoef())])
        return out, stats(b.itstat), scn['n']
    d, mx, M = p14.dsz_of(c)
    dt = np.float32 if c['f32'] else np.float64
    D0 = f(rs(c['seed']).randn(*(mx + ((c['Cd'],) if c['Cd'] else ()) + (M,))))
    b = p14.make(c, D0, 0, None)
    for op in c['ops']:
        lay = p14.layout(op, c)
        if lay is None:
            continue
        S = f(rs(op['seed']).randn(*(tuple(op['N']) + (op['C'], op['K']))).astype(dt).reshape(lay[0]))
        W = p14.mask_of(op, lay[0], c)[0] if c['mask'] else None
        args = (S,) if W is None else (S, f(W.astype(dt)))
        out.append([snap(b.solve(*args, dimK=lay[1]))])
    return out, stats(b.itstat), b.j


def alone(scn):
    import io
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        return go(scn)


class Fill(object):
    """Arrays with unspecified content come filled with a chosen content."""

    def __init__(self, junk, seed):
        self.junk, self.r, self.n = junk, rs(seed), 0

    def fill(self, a):
        self.n += 1
        if a.dtype.kind in 'fc':
            a[...] = self.r.choice([1e3, -7.5, 1e-3]) if self.junk else np.nan
        elif a.dtype.kind in 'iu':
            a[...] = 77
        elif a.dtype.kind == 'b':
            a[...] = True
        return a

    def patch(self):
        e, el, pa = np.empty, np.empty_like, pyfftw.empty_aligned
        fill = self.fill

        def empty(*a, **k):
            return fill(e(*a, **k))

        def empty_like(*a, **k):
            return fill(el(*a, **k))

        def empty_aligned(*a, **k):
            return fill(pa(*a, **k))
        np.empty, np.empty_like, pyfftw.empty_aligned = empty, empty_like, empty_aligned
        for n, m in list(sys.modules.items()):
            if n == 'sporco' or n.startswith('sporco.'):
                for k, v in list(vars(m).items()):
                    if v is e:
                        setattr(m, k, empty)
                    elif v is el:
                        setattr(m, k, empty_like)
                    elif v is pa:
                        setattr(m, k, empty_aligned)


class Clock(object):
    def __init__(self, back):
        self.t, self.back, self.n = 1e6, back, 0

    def now(self):
        self.n += 1
        self.t += 3600.0 if not self.back else (-1.0 if self.n % 3 else 1.5)
        return self.t


def state():
    s = np.random.get_state()
    return dict(np_random=(s[0], s[1].tobytes()) + s[2:], random=random.getstate(), errstate=np.geterr(), cwd=os.getcwd(), environ=dict(os.environ), printoptions=repr(np.get_printoptions()),
                stdout=id(sys.stdout), stderr=id(sys.stderr), threads=threading.active_count(), filters=list(warnings.filters), signals=[signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
                recursion=sys.getrecursionlimit(), locale=locale.setlocale(locale.LC_ALL), gc=gc.isenabled(), files=sorted(os.listdir('.')), fft_threads=sporco.fft.pyfftw_threads,
                fft_effort=sporco.fft.pyfftw_planner_effort, excepthook=id(sys.excepthook), trace=sys.gettrace(), umask=umask())


def umask():
    m = os.umask(0)
    os.umask(m)
    return m


def execute(scn, ctx):
    import io
    fr = Fresh(alone)
    fr2 = Fresh(noisy)
    d = tempfile.mkdtemp(prefix='vp16')
    try:
        _execute(scn, ctx, fr, fr2, d, io.StringIO())
    finally:
        fr.close()
        fr2.close()
        sys.stdout = sys.__stdout__
        os.chdir('/')
        shutil.rmtree(d, ignore_errors=True)


def noisy(scn):
    """Sensitivity of the computation to rounding: outcomes for inputs changed in the last digits."""
    import io
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        return [go(dict(scn, seed=scn['seed'] + k), noise=3e-7 if cat.f32(scn['c']) else 1e-14) for k in range(6)]


def compare(nm, got, want, tol):
    g, w = got, want
    if len(g[0]) != len(w[0]):
        raise Violation('mismatch', '%s: number of results' % nm)
    for a, b in zip(g[0], w[0]):
        same(nm, a, b, tol)
    same_stats(nm, g[1], w[1], max(tol, 1e-9) * 10)
    if g[2] != w[2]:
        raise Violation('mismatch', '%s: %s iterations instead of %s' % (nm, g[2], w[2]))


def _execute(scn, ctx, fr, fr2, d, sio):
    per = scn['per']
    r = fr.run(scn)
    if r[0] != 'ok':
        if r[0] == 'exc':
            raise Violation('reference', 'valid use raised %s: %s\n%s' % r[1:])
        raise RuntimeError('reference process died')
    want = r[1]
    fin = all_finite([v for o in want[0] for v in o])
    how = None
    keep = []
    os.chdir(d)
    if 'stdout' not in per:
        sys.stdout = sio
    for p in per:
        if p == 'rng':
            np.random.seed(scn['seed'])
            random.seed(scn['seed'])
        elif p == 'rngheavy':
            np.random.randn(1000)
            random.random()
        elif p in ('empty_nan', 'empty_junk'):
            f = Fill(p == 'empty_junk', scn['seed'])
            f.patch()
            keep.append(f)
        elif p == 'malloc':
            ctypes.CDLL(None).mallopt(-6, scn['fill'])
        elif p in ('clock', 'clockback'):
            ENV.clock = Clock(p == 'clockback')
        elif p == 'prior':
            pc = dict(kind='cat', c=scn['prior'], per=[], n=2, split=False, verbose=False, seed=1)
            try:
                go(pc)
            except Exception:
                ctx.probe('prior_failed')
        elif p == 'prior_same':
            go(dict(scn, n=scn['n'] + 1))
        elif p == 'reuse':
            # the same work up to an exception, abandoned
            try:
                x = [0]

                def tr(frm, ev, arg):
                    x[0] += 1
                    if x[0] > 200 + scn['seed'] % 2000:
                        raise KeyboardInterrupt()
                    return None
                sys.settrace(tr)
                try:
                    go(scn)
                finally:
                    sys.settrace(None)
            except KeyboardInterrupt:
                ctx.fault('abandoned_run')
        elif p == 'cupy':
            import importlib
            for mod in ('cupy', 'cupy.admm.cbpdn', 'cupy.pgm.cbpdn', 'cupy.dictlrn.onlinecdl'):
                importlib.import_module('sporco.' + mod)
        elif p == 'errmode':
            np.seterr(all='warn')
        elif p == 'cwd':
            os.mkdir('sub')
            os.chdir('sub')
        elif p == 'environ':
            os.environ.update(OMP_NUM_THREADS='3', HOME='/nonexistent', COLUMNS='17', MPLBACKEND='nonsense', DISPLAY=':99')
        elif p == 'gc':
            gc.enable()
            gc.set_threshold(5, 2, 2)
        elif p == 'printopt':
            np.set_printoptions(precision=1, threshold=2, suppress=True)
        elif p == 'stdout':
            sys.stdout = open(os.devnull, 'w')
        elif p == 'threads_alive':
            ev = threading.Event()
            t = threading.Thread(target=ev.wait, daemon=True)
            t.start()
            keep.append((ev, t))
        elif p == 'fftthreads':
            sporco.fft.pyfftw_threads = 4
        elif p == 'fftcache':
            pyfftw.interfaces.cache.enable()
        else:
            how = p
        ctx.fault(p)
        ctx.key(scn['kind'], scn['c'].get('name'), p)
    before = state()
    nm = '%s under %s' % (scn['c'].get('name', scn['kind']), '+'.join(per))
    rounding = any(p in ROUND for p in per)
    try:
        got = ctx.attempt(nm, go, scn, how)
    finally:
        ENV.clock = None
        ctypes.CDLL(None).mallopt(-6, 0)
        for k in keep:
            if isinstance(k, tuple):
                k[0].set()
    after = state() if 'threads_alive' not in per else dict(state(), threads=before['threads'])
    for k in before:
        if before[k] != after[k]:
            raise Violation('global', '%s: global state %s was changed by the run' % (nm, k), sig='global:' + k)
    if fin:
        tol = cat.tol(scn['c']) if scn['kind'] != 'online' else (2e-3 if scn['c']['f32'] else 1e-7)
        try:
            compare(nm, got, want, tol)
        except Violation:
            if not rounding:
                # alignment of small temporaries may select other vector code: allow only a run that is itself ill conditioned
                pass
            q = fr2.run(scn)
            if q[0] != 'ok':
                raise
            for w in q[1]:
                try:
                    compare('', w, want, tol)
                except Violation:
                    raise Skip('the run amplifies rounding errors')
            raise
    else:
        ctx.probe('not_finite')
    ctx.steps += scn['n']
    ctx.log(nm, got[2])


def shrink(scn):
    for p in drop_each(scn['per']):
        if p:
            yield with_(scn, per=p)
    if scn['kind'] == 'cat':
        for c in cat.shrink_conf(scn['c']):
            yield with_(scn, c=c)
    if scn['n'] > 1:
        yield with_(scn, n=1)
    for k in ('split', 'verbose'):
        if scn[k]:
            yield with_(scn, **{k: False})
