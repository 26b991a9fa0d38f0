"""Catalogue of the iterative solvers: random problem/option generation and construction.

A configuration `c` is a JSON object; `inputs(c)` makes the arrays, `options(c)`
the option object and `build(c)` the solver.  All configurations generated here
are valid uses of the documented interface.
"""
import numpy as np

import sporco.prox as sp
import sporco.admm.bpdn as abpdn
import sporco.admm.cbpdn as acbpdn
import sporco.admm.cbpdnin as acbpdnin
import sporco.admm.cbpdntv as acbpdntv
import sporco.admm.pdcsc as apdcsc
import sporco.admm.ccmod as accmod
import sporco.admm.ccmodmd as accmodmd
import sporco.admm.cmod as acmod
import sporco.admm.rpca as arpca
import sporco.admm.spline as aspline
import sporco.admm.tvl1 as atvl1
import sporco.admm.tvl2 as atvl2
import sporco.admm.ppp as appp
import sporco.pgm.bpdn as pbpdn
import sporco.pgm.cbpdn as pcbpdn
import sporco.pgm.ccmod as pccmod
import sporco.pgm.cmod as pcmod
import sporco.pgm.ppp as pppp
import sporco.pgm.momentum as pmom
import sporco.pgm.stepsize as pstep
import sporco.pgm.backtrack as pbt
import sporco.dictlrn.bpdndl as dbpdndl
import sporco.dictlrn.wbpdndl as dwbpdndl
import sporco.dictlrn.cbpdndl as dcbpdndl
import sporco.dictlrn.cbpdndlmd as dcbpdndlmd

from .util import rs
from . import user

OBJ = {'MomentumNesterov': pmom.MomentumNesterov, 'MomentumLinear': pmom.MomentumLinear,
       'MomentumGenLinear': pmom.MomentumGenLinear, 'StepSizePolicyCauchy': pstep.StepSizePolicyCauchy,
       'StepSizePolicyBB': pstep.StepSizePolicyBB, 'BacktrackStandard': pbt.BacktrackStandard,
       'BacktrackRobust': pbt.BacktrackRobust}


# picklable callables for plug and play priors
class Quad(object):
    def __init__(self, s):
        self.s = s

    def __call__(self, x):
        return 0.5 * np.linalg.norm((x - self.s).ravel())**2


class QuadProx(Quad):
    def __call__(self, x, rho):
        return self.s / (1 + rho) + (rho / (1 + rho)) * x


class QuadGrad(Quad):
    def __call__(self, x):
        return x - self.s


class L1Prox(object):
    def __init__(self, lm, inv=False):
        self.lm, self.inv = lm, inv

    def __call__(self, x, rho):
        return sp.prox_l1(x, self.lm / rho)


# ------------------------------------------------------------------ shapes

def conv_dims(c):
    """(D, S, dimK, dimN, internal shapes) for kind g/gk/cs/csk/cm/cmk/1d/1dk"""
    N, Nd, M, K, C = c['N'], c['Nd'], c['M'], c['K'], c['C']
    kind = c['kind']
    if kind.startswith('1d'):
        N = N[:1]
        d = [Nd, M]
        s = N + ([K] if kind == '1dk' else [])
        return d, s, (1 if kind == '1dk' else 0), 1, N + [1, K if kind == '1dk' else 1, M]
    d = [Nd, Nd, M]
    if kind == 'g':
        return d, N, 0, 2, N + [1, 1, M]
    if kind == 'gk':
        return d, N + [K], 1, 2, N + [1, K, M]
    if kind == 'cs':
        return d, N + [C], 0, 2, N + [C, 1, M]
    if kind == 'csk':
        return d, N + [C, K], 1, 2, N + [C, K, M]
    d = [Nd, Nd, C, M]
    if kind == 'cm':
        return d, N + [C], 0, 2, N + [1, 1, M]
    if kind == 'cmk':
        return d, N + [C, K], 1, 2, N + [1, K, M]
    raise KeyError(kind)


def arr(r, shape, c, sparse=False):
    a = r.randn(*shape)
    if c.get('cplx'):
        a = a + 1j * r.randn(*shape)
    if sparse:
        a = a * (r.rand(*shape) < .4)
    if c.get('f32'):
        a = a.astype(np.complex64 if c.get('cplx') else np.float32)
    return a


def mask(r, c, sshape, dimN, internal=True):
    w = c.get('W')
    dt = np.float32 if c.get('f32') else np.float64
    N = list(sshape[:dimN])
    if w == 'one':
        return np.array([1.0], dtype=dt)
    if w == 'full':
        a = (r.rand(*sshape) > .3).astype(dt)
        if c['kind'] in ('g', 'gk') and len(sshape) == dimN + 1:
            a = a.reshape(list(sshape[:dimN]) + [1, sshape[-1]])
        return a
    a = (r.rand(*N) > .3).astype(dt)
    return a.reshape(tuple(N) + (1,) * (len(sshape) - dimN))


# ------------------------------------------------------------------ entries
# name: (family, generator of class specific configuration, inputs, constructor)

CAT = {}


class Entry(object):
    def __init__(self, name, fam, cls, conf, inp, make, tags=()):
        self.name, self.fam, self.cls, self.conf, self.inp, self.make, self.tags = name, fam, cls, conf, inp, make, set(tags)


def reg(name, fam, cls, conf, inp, make, tags=()):
    CAT[name] = Entry(name, fam, cls, conf, inp, make, tags)


CONVK = ['g', 'g', 'gk', 'cs', 'csk', 'cm', 'cmk', '1d', '1dk']


def base(rng, kinds=('-',), f32=True, **k):
    c = dict(ds=rng.randrange(1 << 30), kind=rng.choice(kinds), N=rng.choice([[6, 6], [5, 7], [7, 8], [8, 5]]), Nd=rng.choice([2, 3]),
             M=rng.randint(2, 4), K=rng.randint(2, 3), C=rng.randint(2, 3), lmbda=rng.choice([0.01, 0.1, 0.3]),
             mu=rng.choice([0.01, 0.1]), f32=f32 and rng.random() < .1, W=rng.choice(['one', 'full', 'spatial']))
    c.update(k)
    return c


def autorho(rng):
    if rng.random() < .3:
        return {'Enabled': False}
    return {'Enabled': True, 'Period': rng.choice([1, 1, 2, 3, 5, 10]), 'Scaling': rng.choice([2.0, 1.3, 1000.0]),
            'RsdlRatio': rng.choice([1.05, 1.2, 2.0]), 'RsdlTarget': rng.choice([None, None, 1.0, 0.7]),
            'AutoScaling': rng.random() < .5, 'StdResiduals': rng.random() < .3}


def admm_opts(rng, auto=True, rec=False, extra=()):
    o = {}
    if rng.random() < .8:
        o['RelaxParam'] = rng.choice([1.0, 1.2, 1.8, 0.9])
    if rng.random() < .7:
        o['rho'] = rng.choice([0.5, 1.0, 3.0, 20.0])
    if auto and rng.random() < .75:
        o['AutoRho'] = autorho(rng)
    for k in extra:
        if rng.random() < .4:
            if k in ('NonNegCoef', 'NoBndryCross', 'HighMemSolve', 'LinSolveCheck', 'ZeroMean'):
                o[k] = True
            elif k == 'AuxVarObj':
                o[k] = rng.random() < .5
            elif k == 'ReturnX':
                o[k] = rng.random() < .5
            elif k == 'L1Weight':
                o[k] = {'$w': 's' if 'TVWeight' in extra else rng.choice(['s', 'M', 'full', 'M'])}
            elif k in ('GradWeight', 'TVWeight'):
                o[k] = {'$w': 's' if k == 'TVWeight' and rec else rng.choice(['s', '1M'])}
            elif k == 'L21Weight':
                o[k] = {'$w': 's'}
            elif k == 'CG':
                o[k] = {'MaxIter': rng.choice([5, 50, 1000]), 'StopTol': rng.choice([1e-3, 1e-6])}
    return o


def pgm_opts(rng, c, extra=(), hess=True, L=(5., 50., 500.)):
    o = {'L': rng.choice(L)}
    if rng.random() < .6:
        o['Momentum'] = rng.choice([{'$obj': ['MomentumNesterov']}, {'$obj': ['MomentumLinear', rng.choice([2., 3.])]},
                                    {'$obj': ['MomentumGenLinear', 50., 2.]}])
    z = rng.random()
    if z < .3:
        o['Backtrack'] = rng.choice([{'$obj': ['BacktrackStandard', 1.2, 50]}, {'$obj': ['BacktrackStandard', 2.0, rng.choice([3, 20])]},
                                     {'$obj': ['BacktrackRobust', 0.9, 2.0, 50]}, {'$obj': ['BacktrackRobust', 0.7, 1.5, 20]}])
    elif z < .6 and hess:
        o['StepSizePolicy'] = rng.choice([{'$obj': ['StepSizePolicyCauchy']}, {'$obj': ['StepSizePolicyBB']}])
    if rng.random() < .25:
        o['Monotone'] = True
    for k in extra:
        if rng.random() < .35:
            if k == 'L1Weight':
                o[k] = {'$w': rng.choice(['s', 'M', 'full'])}
            elif not (k == 'NonNegCoef' and o.get('ZeroMean')):
                o[k] = True
    return o


def some_zero(w, r):
    """set some of the weights to zero (e.g. for a lowpass filter that is not to be penalised)"""
    if r.rand() < .35:
        w[r.rand(*w.shape) < .3] = 0
    return w


def weight(c, w, xshape, r):
    """xshape: internal shape of the coefficient array, last axis is the filter axis"""
    M = xshape[-1]
    if w == 's':
        return 0.5 + r.rand()
    if w == '1M':
        return some_zero(0.5 + r.rand(M), r)
    if w == 'M':
        return some_zero(0.5 + r.rand(M), r).reshape((1,) * (len(xshape) - 1) + (M,))
    return some_zero(0.5 + r.rand(*xshape), r)


# --- admm.bpdn and pgm.bpdn: D (P, M), S (P, K)

def bp_inp(c, r):
    P, M, K = c['N'][0] + 2, c['M'] + c['N'][1], c['K']
    if c.get('tall'):
        P, M = M, P
    d = dict(D=arr(r, (P, M), c), S=arr(r, (P, K), c))
    d['xshape'] = (M, K)
    if c['name'].endswith('WeightedBPDN'):
        w = c['W']
        d['W'] = 0.5 + r.rand(*((P, K) if w == 'full' else (P, 1) if w == 'spatial' else (1, K)))
    return d


def bp_weight(c, w, xshape, r):
    M, K = xshape
    if w == 's':
        return 0.5 + r.rand()
    if w == 'M':
        return 0.5 + r.rand(M, 1)
    return 0.5 + r.rand(M, K)


def bp_conf(extra, fam='admm', par='lmbda'):
    def f(rng):
        c = base(rng, tall=rng.random() < .4)
        if fam == 'admm':
            c['o'] = admm_opts(rng, extra=extra)
        else:
            c['o'] = pgm_opts(rng, c, extra=extra)
        return c
    return f


A = ['AuxVarObj', 'NonNegCoef', 'L1Weight', 'LinSolveCheck']
reg('admm.bpdn.BPDN', 'admm', abpdn.BPDN, bp_conf(A), bp_inp, lambda k, c, i, o: k(i['D'], i['S'], c['lmbda'], opt=o))
reg('admm.bpdn.BPDNJoint', 'admm', abpdn.BPDNJoint, bp_conf(A), bp_inp, lambda k, c, i, o: k(i['D'], i['S'], c['lmbda'], c['mu'], opt=o))
reg('admm.bpdn.ElasticNet', 'admm', abpdn.ElasticNet, bp_conf(A), bp_inp, lambda k, c, i, o: k(i['D'], i['S'], c['lmbda'], c['mu'], opt=o))
reg('admm.bpdn.BPDNProjL1', 'admm', abpdn.BPDNProjL1, bp_conf(['AuxVarObj', 'NonNegCoef', 'LinSolveCheck']), bp_inp,
    lambda k, c, i, o: k(i['D'], i['S'], 5.0 * c['lmbda'] + 0.5, opt=o))
reg('admm.bpdn.MinL1InL2Ball', 'admm', abpdn.MinL1InL2Ball, bp_conf(['AuxVarObj', 'NonNegCoef', 'L1Weight']), bp_inp,
    lambda k, c, i, o: k(i['D'], i['S'], 0.1 + c['lmbda'], opt=o))
reg('pgm.bpdn.BPDN', 'pgm', pbpdn.BPDN, bp_conf(['NonNegCoef', 'L1Weight'], 'pgm'), bp_inp,
    lambda k, c, i, o: k(i['D'], i['S'], c['lmbda'], opt=o))
reg('pgm.bpdn.WeightedBPDN', 'pgm', pbpdn.WeightedBPDN, bp_conf(['NonNegCoef', 'L1Weight'], 'pgm'), bp_inp,
    lambda k, c, i, o: k(i['D'], i['S'], c['lmbda'], i['W'], opt=o))


# --- convolutional sparse coding

def cv_inp(c, r):
    d, s, dimK, dimN, x = conv_dims(c)
    i = dict(D=arr(r, d, c), S=arr(r, s, c))
    if c.get('mask'):
        i['W'] = mask(r, c, s, dimN)
    i['xshape'] = tuple(x)
    if c.get('mix'):
        d2 = list(d)
        d2[0] += 1
        if dimN == 2:
            d2[1] += 1
        i['D2'] = arr(r, d2, c)
        i['S2'] = arr(r, s, c)
    return i


def cv_conf(extra, kinds=CONVK, fam='admm', msk=False, cplx=False, f32=True, rec=False, **k):
    def f(rng):
        c = base(rng, kinds, f32=f32, mask=msk, **k)
        if cplx and rng.random() < .15:
            c['cplx'] = True
        ex = [e for e in extra if not (c.get('cplx') and e in ('NonNegCoef', 'LinSolveCheck'))]
        if fam == 'admm':
            c['o'] = admm_opts(rng, extra=ex, rec=rec)
        else:
            c['o'] = pgm_opts(rng, c, extra=ex)
        return c
    return f


def cv_make(*par):
    def f(k, c, i, o):
        _, _, dimK, dimN, _ = conv_dims(c)
        a = [i['D'], i['S']] + [c[p] if not callable(p) else p(c, i) for p in par]
        return k(*a, opt=o, dimK=dimK, dimN=dimN)
    return f


CA = ['AuxVarObj', 'NonNegCoef', 'NoBndryCross', 'HighMemSolve', 'L1Weight', 'LinSolveCheck']
CA2 = ['AuxVarObj', 'NonNegCoef', 'NoBndryCross', 'HighMemSolve', 'L1Weight']
reg('admm.cbpdn.ConvBPDN', 'admm', acbpdn.ConvBPDN, cv_conf(CA, cplx=True), cv_inp, cv_make('lmbda'))
reg('admm.cbpdn.ConvBPDNJoint', 'admm', acbpdn.ConvBPDNJoint, cv_conf(CA + ['L21Weight'], kinds=['cs', 'csk', 'cs']), cv_inp, cv_make('lmbda', 'mu'))
reg('admm.cbpdn.ConvElasticNet', 'admm', acbpdn.ConvElasticNet, cv_conf(CA), cv_inp, cv_make('lmbda', 'mu'))
reg('admm.cbpdn.ConvBPDNGradReg', 'admm', acbpdn.ConvBPDNGradReg, cv_conf(CA + ['GradWeight']), cv_inp, cv_make('lmbda', 'mu'))
reg('admm.cbpdn.ConvBPDNProjL1', 'admm', acbpdn.ConvBPDNProjL1, cv_conf([e for e in CA if e != 'L1Weight']), cv_inp,
    cv_make(lambda c, i: 3.0 * c['lmbda'] + 0.5))
reg('admm.cbpdn.ConvMinL1InL2Ball', 'admm', acbpdn.ConvMinL1InL2Ball, cv_conf(CA), cv_inp, cv_make(lambda c, i: c['lmbda'] + 0.1))
reg('admm.cbpdn.ConvBPDNMaskDcpl', 'admm', acbpdn.ConvBPDNMaskDcpl, cv_conf(CA, msk=True), cv_inp, cv_make('lmbda', lambda c, i: i['W']))
reg('admm.cbpdn.ConvL1L1Grd', 'admm', acbpdn.ConvL1L1Grd, cv_conf([e for e in CA if e != 'HighMemSolve'] + ['GradWeight'], msk=True), cv_inp,
    cv_make('lmbda', 'mu', lambda c, i: i['W']))


def ams_make(k, c, i, o):
    _, _, dimK, dimN, _ = conv_dims(c)
    return acbpdn.AddMaskSim(acbpdn.ConvBPDN, i['D'], i['S'], i['W'], c['lmbda'], opt=o, dimK=dimK, dimN=dimN)


def mdc_make(k, c, i, o):
    _, _, dimK, dimN, _ = conv_dims(c)
    return acbpdn.MultiDictConvBPDN(acbpdn.ConvBPDN, (i['D'], i['D2']), (i['S'], i['S2']), c['lmbda'], opt=o, dimK=dimK, dimN=dimN)


reg('admm.cbpdn.AddMaskSim', 'admm', acbpdn.ConvBPDN, cv_conf(['AuxVarObj', 'NonNegCoef', 'NoBndryCross', 'HighMemSolve'],
                                                             kinds=['g', 'gk', 'cs', 'cm'], msk=True), cv_inp, ams_make, ['wrapper'])
reg('admm.cbpdn.MultiDictConvBPDN', 'admm', acbpdn.ConvBPDN, cv_conf(['AuxVarObj', 'NonNegCoef', 'HighMemSolve'],
                                                                    kinds=['g'], mix=True), cv_inp, mdc_make, ['wrapper'])


def inhib_conf(rng):
    c = base(rng, ['g', 'gk'], f32=False, gamma=rng.choice([0.01, 0.1]))
    c['M'] = 4
    c['wg'] = rng.choice([None, 'grp', 'grp'])
    c['o'] = admm_opts(rng, extra=['AuxVarObj', 'NonNegCoef', 'HighMemSolve'])
    if rng.random() < .4:
        c['o']['SmoothWeight'] = rng.choice([0.3, 0.9])
    return c


def inhib_make(k, c, i, o):
    _, _, dimK, dimN, _ = conv_dims(c)
    return k(i['D'], i['S'], Wg=i.get('Wg'), lmbda=c['lmbda'], mu=c['mu'], gamma=c['gamma'], opt=o, dimK=dimK, dimN=dimN)


def inhib_inp(c, r):
    i = cv_inp(c, r)
    if c['wg']:
        i['Wg'] = np.append(np.eye(2), np.eye(2), axis=-1)
    return i


reg('admm.cbpdnin.ConvBPDNInhib', 'admm', acbpdnin.ConvBPDNInhib, inhib_conf, inhib_inp, inhib_make)
TV = ['AuxVarObj', 'NonNegCoef', 'NoBndryCross', 'L1Weight', 'TVWeight', 'LinSolveCheck', 'HighMemSolve']
for n in ('ConvBPDNScalarTV', 'ConvBPDNVectorTV', 'ConvBPDNRecTV'):
    reg('admm.cbpdntv.' + n, 'admm', getattr(acbpdntv, n), cv_conf(TV,
                                                                  kinds=['g', 'gk', 'cs', 'cm'], rec=n.endswith('RecTV')), cv_inp, cv_make('lmbda', 'mu'))


# --- product dictionaries: D (Nd, Nd, M), B (C, Mb), S (N0, N1, C)

def pd_conf(extra):
    def f(rng):
        c = base(rng, ['cs'], Mb=rng.randint(2, 3))
        c['o'] = admm_opts(rng, extra=extra)
        return c
    return f


def pd_inp(c, r):
    i = cv_inp(c, r)
    i['B'] = arr(r, (c['C'], c['Mb']), c)
    i['W'] = (r.rand(*(list(c['N']) + [c['C']])) > .3).astype(i['S'].dtype)
    i['xshape'] = tuple(c['N']) + (c['Mb'], 1, c['M'])
    return i


PA = ['AuxVarObj', 'NonNegCoef', 'NoBndryCross', 'LinSolveCheck']
reg('admm.pdcsc.ConvProdDictBPDN', 'admm', apdcsc.ConvProdDictBPDN, pd_conf(PA), pd_inp,
    lambda k, c, i, o: k(i['D'], i['B'], i['S'], c['lmbda'], opt=o, dimK=0))
reg('admm.pdcsc.ConvProdDictBPDNJoint', 'admm', apdcsc.ConvProdDictBPDNJoint, pd_conf(PA), pd_inp,
    lambda k, c, i, o: k(i['D'], i['B'], i['S'], c['lmbda'], c['mu'], opt=o, dimK=0))
reg('admm.pdcsc.ConvProdDictL1L1Grd', 'admm', apdcsc.ConvProdDictL1L1Grd, pd_conf(PA), pd_inp,
    lambda k, c, i, o: k(i['D'], i['B'], i['S'], c['lmbda'], c['mu'], opt=o, dimK=0))
reg('admm.pdcsc.ConvProdDictL1L1GrdJoint', 'admm', apdcsc.ConvProdDictL1L1GrdJoint, pd_conf(PA), pd_inp,
    lambda k, c, i, o: k(i['D'], i['B'], i['S'], c['lmbda'], c['mu'], opt=o, dimK=0))


# --- dictionary updates

def cc_conf(extra, fam='admm', msk=False, cplx=False, kinds=('g', 'gk', 'gk', 'cm', 'cmk', 'csk')):
    def f(rng):
        c = base(rng, kinds, mask=msk)
        if c['kind'] == 'g' or c['kind'] == 'cm':
            c['K'] = 1
        if cplx and rng.random() < .15:
            c['cplx'] = True
        if fam == 'admm':
            c['o'] = admm_opts(rng, extra=[e for e in extra if not (c.get('cplx') and e == 'LinSolveCheck')])
        else:
            c['o'] = pgm_opts(rng, c, extra=extra, hess=True)
        c['dszk'] = rng.choice(['plain', 'plain', 'plain', 'multi', 'multi', 'nest'])
        return c
    return f


def multi_dsz(c, dsz, C):
    """Specification of a dictionary with filters of several sizes (C channels or None)."""
    Nd, M = c['Nd'], c['M']
    if c.get('dszk') in (None, 'plain') or M < 2:
        return dsz
    ch = () if C is None else (C,)
    if c['dszk'] == 'nest' and C is not None and C > 1:
        return (((Nd, Nd, 1, 1), (Nd + 1, Nd, C - 1, 1)), ((Nd, Nd + 1, C - 1, M - 1), (Nd + 1, Nd, 1, M - 1)))
    return ((Nd, Nd) + ch + (1,), (Nd + 1, Nd + 1) + ch + (M - 1,))


def cc_inp(c, r):
    N, Nd, M, K, C = c['N'], c['Nd'], c['M'], c['K'], c['C']
    kind = c['kind']
    if kind in ('g', 'gk'):
        Z, S, dsz = N + [1, K, M], N + [K], (Nd, Nd, M)
    elif kind == 'csk':
        Z, S, dsz = N + [C, K, M], N + [C, K], (Nd, Nd, M)
    else:
        Z, S, dsz = N + [1, K, M], N + [C, K], (Nd, Nd, C, M)
    dsz = multi_dsz(c, dsz, C if kind in ('cm', 'cmk') else None)
    i = dict(Z=arr(r, Z, c, sparse=True), S=arr(r, S, c))
    i['dsz'] = dsz
    if c.get('mask'):
        i['W'] = mask(r, c, S, 2)
    return i


def cc_make(k, c, i, o):
    return k(i['Z'], i['S'], i['dsz'], opt=o, dimK=1)


def ccm_make(k, c, i, o):
    return k(i['Z'], i['S'], i['W'], i['dsz'], opt=o, dimK=1)


CC = ['AuxVarObj', 'ZeroMean', 'LinSolveCheck']
reg('admm.ccmod.ConvCnstrMOD_IterSM', 'admm', accmod.ConvCnstrMOD_IterSM, cc_conf(CC, cplx=True), cc_inp, cc_make, ['dict'])
reg('admm.ccmod.ConvCnstrMOD_CG', 'admm', accmod.ConvCnstrMOD_CG, cc_conf(CC + ['CG']), cc_inp, cc_make, ['dict'])
reg('admm.ccmod.ConvCnstrMOD_Consensus', 'admm', accmod.ConvCnstrMOD_Consensus, cc_conf(CC, kinds=('gk', 'gk', 'g', 'cmk')), cc_inp, cc_make, ['dict'])
reg('admm.ccmodmd.ConvCnstrMODMaskDcpl_IterSM', 'admm', accmodmd.ConvCnstrMODMaskDcpl_IterSM, cc_conf(CC, msk=True), cc_inp, ccm_make, ['dict'])
reg('admm.ccmodmd.ConvCnstrMODMaskDcpl_CG', 'admm', accmodmd.ConvCnstrMODMaskDcpl_CG, cc_conf(CC + ['CG'], msk=True), cc_inp, ccm_make, ['dict'])
reg('admm.ccmodmd.ConvCnstrMODMaskDcpl_Consensus', 'admm', accmodmd.ConvCnstrMODMaskDcpl_Consensus,
    cc_conf(CC, msk=True, kinds=('gk', 'gk', 'g', 'cmk')), cc_inp, ccm_make, ['dict'])
reg('pgm.ccmod.ConvCnstrMOD', 'pgm', pccmod.ConvCnstrMOD, cc_conf(['ZeroMean'], 'pgm'), cc_inp, cc_make, ['dict'])
reg('pgm.ccmod.ConvCnstrMODMask', 'pgm', pccmod.ConvCnstrMODMask, cc_conf(['ZeroMean'], 'pgm', msk=True), cc_inp, ccm_make, ['dict'])


def cm_inp(c, r):
    P, M, K = c['N'][0] + 2, c['M'] + 2, c['K'] + 4
    i = dict(Z=arr(r, (M, K), c, sparse=True), S=arr(r, (P, K), c), dsz=(P, M))
    if c['name'].endswith('WeightedCnstrMOD'):
        w = c['W']
        i['W'] = 0.5 + r.rand(*((P, K) if w == 'full' else (P, 1) if w == 'spatial' else (1, K)))
    return i


def cm_conf(extra, fam='admm'):
    def f(rng):
        c = base(rng)
        c['o'] = admm_opts(rng, extra=extra) if fam == 'admm' else pgm_opts(rng, c, extra=extra)
        return c
    return f


reg('admm.cmod.CnstrMOD', 'admm', acmod.CnstrMOD, cm_conf(['AuxVarObj', 'ZeroMean']), cm_inp,
    lambda k, c, i, o: k(i['Z'], i['S'], i['dsz'], opt=o), ['dict', 'cmod'])
reg('pgm.cmod.CnstrMOD', 'pgm', pcmod.CnstrMOD, cm_conf(['ZeroMean', 'NonNegCoef'], 'pgm'), cm_inp,
    lambda k, c, i, o: k(i['Z'], i['S'], i['dsz'], opt=o), ['dict', 'cmod'])
reg('pgm.cmod.WeightedCnstrMOD', 'pgm', pcmod.WeightedCnstrMOD, cm_conf(['ZeroMean', 'NonNegCoef'], 'pgm'), cm_inp,
    lambda k, c, i, o: k(i['Z'], i['S'], i['W'], i['dsz'], opt=o), ['dict', 'cmod'])

reg('pgm.cbpdn.ConvBPDN', 'pgm', pcbpdn.ConvBPDN, cv_conf(['NonNegCoef', 'NoBndryCross', 'L1Weight'], fam='pgm'), cv_inp, cv_make('lmbda'))
reg('pgm.cbpdn.ConvBPDNMask', 'pgm', pcbpdn.ConvBPDNMask, cv_conf(['NonNegCoef', 'NoBndryCross', 'L1Weight'], fam='pgm', msk=True), cv_inp,
    cv_make('lmbda', lambda c, i: i['W']))


# --- other ADMM problems

def oth_conf(extra=(), auto=True):
    def f(rng):
        c = base(rng)
        c['shape3'] = rng.random() < .3
        c['o'] = admm_opts(rng, extra=extra, auto=auto)
        return c
    return f


def oth_inp(c, r):
    shp = c['N'] + ([2] if c['shape3'] else [])
    S = arr(r, shp, c)
    i = dict(S=S, A=np.abs(arr(r, (3, 3), c)))
    i['A'] = (i['A'] / i['A'].sum()).astype(S.dtype)
    if c['shape3']:
        i['A'] = i['A'].reshape(3, 3, 1)
    i['xshape'] = tuple(shp)
    return i


def tv_make(k, c, i, o):
    return k(i['S'], c['lmbda'], opt=o, caxis=(2 if c['shape3'] and c['W'] == 'full' else None))


def tvd_make(k, c, i, o):
    return k(i['A'], i['S'], c['lmbda'], opt=o, caxis=(2 if c['shape3'] and c['W'] == 'full' else None))


def tv_conf(wts, gs=True, lsc=False):
    def f(rng):
        c = oth_conf(['LinSolveCheck'] if lsc else [])(rng)
        for w in wts:
            if rng.random() < .3:
                c['o'][w] = {'$w': 's' if c['shape3'] else rng.choice(['s', 'img'])}
        if gs and rng.random() < .4:
            c['o']['MaxGSIter'] = rng.choice([1, 2, 5])
            c['o']['GSTol'] = rng.choice([0.0, 1e-3, 1e-1])
        return c
    return f


reg('admm.tvl1.TVL1Denoise', 'admm', atvl1.TVL1Denoise, tv_conf(['DFidWeight', 'TVWeight']), oth_inp, tv_make)
reg('admm.tvl1.TVL1Deconv', 'admm', atvl1.TVL1Deconv, tv_conf(['DFidWeight', 'TVWeight'], False, True), oth_inp, tvd_make)
reg('admm.tvl2.TVL2Denoise', 'admm', atvl2.TVL2Denoise, tv_conf(['DFidWeight', 'TVWeight']), oth_inp, tv_make)
reg('admm.tvl2.TVL2Deconv', 'admm', atvl2.TVL2Deconv, tv_conf(['TVWeight'], False, True), oth_inp, tvd_make)


def two_d(f):
    def g(rng):
        c = f(rng)
        c['shape3'] = False
        return c
    return g


reg('admm.rpca.RobustPCA', 'admm', arpca.RobustPCA, two_d(oth_conf()), oth_inp, lambda k, c, i, o: k(i['S'], c['lmbda'] * 5, opt=o))
reg('admm.spline.SplineL1', 'admm', aspline.SplineL1, two_d(tv_conf(['DFidWeight'], False, True)), oth_inp,
    lambda k, c, i, o: k(i['S'], c['lmbda'] * 10, opt=o))


def nof32(f):
    def g(rng):
        c = f(rng)
        c['f32'] = False
        return c
    return g


reg('admm.ppp.PPP', 'admm', appp.PPP, nof32(oth_conf()), oth_inp,
    lambda k, c, i, o: k(i['S'].shape, Quad(i['S']), QuadProx(i['S']), L1Prox(c['lmbda']), opt=o))
reg('admm.ppp.PPPConsensus', 'admm', appp.PPPConsensus, nof32(oth_conf(auto=False)), oth_inp,
    lambda k, c, i, o: k(i['S'].shape, (QuadProx(i['S']), L1Prox(c['lmbda'])), opt=o))


def pppp_conf(rng):
    c = base(rng, f32=False, shape3=False)
    c['o'] = pgm_opts(rng, c, hess=False, L=(1.0, 1.5, 4.0))
    c['o'].pop('Monotone', None)
    c['o'].pop('Backtrack', None)
    return c


reg('pgm.ppp.PPP', 'pgm', pppp.PPP, pppp_conf, oth_inp,
    lambda k, c, i, o: k(i['S'].shape, Quad(i['S']), QuadGrad(i['S']), L1Prox(c['lmbda']), opt=o))


# ------------------------------------------------------------------ solvers a user derives from the framework classes

def user_inp(c, r):
    i = oth_inp(c, r)
    i['W'] = 0.5 + r.rand(*i['S'].shape)
    i['B'] = arr(r, (c['M'] + 2, c['N'][1] * 2), c)
    return i


def user_admm(extra, auto=True):
    def f(rng):
        c = oth_conf(auto=auto)(rng)
        for k, v in extra.items():
            if rng.random() < .4:
                c['o'][k] = rng.choice(v)
        return c
    return f


def user_pgm(L):
    def f(rng):
        c = base(rng, shape3=False)
        c['o'] = pgm_opts(rng, c, L=L)
        return c
    return f


BOOL = [True, False]
reg('admm.user.Constrained', 'admm', user.Constrained, user_admm({}), user_inp, lambda k, c, i, o: k(i['B'], i['S'], c['lmbda'], opt=o))
reg('admm.user.Equal', 'admm', user.Equal, user_admm({'fEvalX': BOOL, 'gEvalY': BOOL, 'ReturnX': BOOL}), user_inp,
    lambda k, c, i, o: k(i['W'], i['S'], c['lmbda'], opt=o))
reg('admm.user.TwoBlock', 'admm', user.TwoBlock, user_admm({'AuxVarObj': BOOL, 'ReturnVar': ['X', 'Y0', 'Y1']}), user_inp,
    lambda k, c, i, o: k(i['W'], i['S'], c['lmbda'], opt=o))
reg('admm.user.Consensus', 'admm', user.Consensus, user_admm({'fEvalX': BOOL, 'gEvalY': BOOL, 'AuxVarObj': BOOL}), user_inp,
    lambda k, c, i, o: k(i['S'], c['lmbda'], opt=o))
reg('pgm.user.Lasso', 'pgm', user.Lasso, user_pgm((50., 500.)), user_inp, lambda k, c, i, o: k(i['B'], i['S'], c['lmbda'], opt=o))
reg('pgm.user.Deconv', 'pgm', user.Deconv, user_pgm((5., 50.)), user_inp, lambda k, c, i, o: k(i['A'], i['S'], c['lmbda'], opt=o))


# ------------------------------------------------------------------ dictionary learning

def inner_admm(rng, extra=()):
    return admm_opts(rng, extra=extra)


def dl_bp_conf(rng):
    c = base(rng, f32=False)
    c['o'] = {'BPDN': inner_admm(rng, ['AuxVarObj', 'NonNegCoef']), 'CMOD': inner_admm(rng, ['ZeroMean'])}
    if rng.random() < .4:
        c['o']['AccurateDFid'] = True
    return c


def dl_bp_inp(c, r):
    P, M, K = c['N'][0] + 2, c['M'] + 2, c['K'] + 4
    return dict(D=arr(r, (P, M), c), S=arr(r, (P, K), c), W=0.5 + r.rand(P, K))


reg('dictlrn.bpdndl.BPDNDictLearn', 'dl', dbpdndl.BPDNDictLearn, dl_bp_conf, dl_bp_inp,
    lambda k, c, i, o: k(i['D'], i['S'], c['lmbda'], opt=o), ['dict', 'cmod'])


def dl_wbp_conf(rng):
    c = base(rng, f32=False)
    c['o'] = {'BPDN': pgm_opts(rng, c, ['NonNegCoef']), 'CMOD': pgm_opts(rng, c, ['ZeroMean'])}
    if rng.random() < .4:
        c['o']['AccurateDFid'] = True
    return c


reg('dictlrn.wbpdndl.WeightedBPDNDictLearn', 'dl', dwbpdndl.WeightedBPDNDictLearn, dl_wbp_conf, dl_bp_inp,
    lambda k, c, i, o: k(i['D'], i['S'], c['lmbda'], i['W'], opt=o), ['dict', 'cmod'])


def dl_cv_conf(msk):
    def f(rng):
        c = base(rng, ['g', 'gk', 'gk', 'cm', 'cmk', 'csk'], f32=False, mask=msk)
        if c['kind'] in ('g', 'cm'):
            c['K'] = 1
        c['xm'] = rng.choice(['admm', 'pgm'])
        c['dm'] = rng.choice(['ism', 'cg', 'cns', 'pgm'])
        if c['dm'] == 'cns' and c['kind'] == 'csk':
            c['kind'] = 'gk'
        o = {}
        if c['xm'] == 'admm':
            o['CBPDN'] = admm_opts(rng, extra=['AuxVarObj', 'NonNegCoef', 'L1Weight'] if not msk else ['NonNegCoef'])
        else:
            o['CBPDN'] = pgm_opts(rng, c, ['NonNegCoef'])
        if c['dm'] == 'pgm':
            o['CCMOD'] = pgm_opts(rng, c, ['ZeroMean'])
        else:
            o['CCMOD'] = admm_opts(rng, extra=['ZeroMean'] + (['CG'] if c['dm'] == 'cg' else []))
        if rng.random() < .4:
            o['AccurateDFid'] = True
        c['o'] = o
        if rng.random() < .3:
            c['dszk'] = rng.choice(['multi', 'nest'])
            o['DictSize'] = {'$dsz': 1}
        return c
    return f


def dl_cv_inp(c, r):
    N, Nd, M, K, C = c['N'], c['Nd'], c['M'], c['K'], c['C']
    if c['kind'] in ('g', 'gk'):
        d, s, x = [Nd, Nd, M], N + [K], N + [1, K, M]
    elif c['kind'] == 'csk':
        d, s, x = [Nd, Nd, M], N + [C, K], N + [C, K, M]
    else:
        d, s, x = [Nd, Nd, C, M], N + [C, K], N + [1, K, M]
    dsz = multi_dsz(c, tuple(d), C if c['kind'] in ('cm', 'cmk') else None) if 'DictSize' in c['o'] else tuple(d)
    if isinstance(dsz[0], tuple):
        d = [Nd + 1, Nd + 1] + d[2:]
    i = dict(D=arr(r, d, c), S=arr(r, s, c), xshape=tuple(x), dsz=dsz)
    if c.get('mask'):
        i['W'] = mask(r, c, s, 2)
    return i


def dl_opt(c, o):
    cls = CAT[c['name']].cls
    return cls.Options(o, xmethod=c['xm'], dmethod=c['dm'])


reg('dictlrn.cbpdndl.ConvBPDNDictLearn', 'dl', dcbpdndl.ConvBPDNDictLearn, dl_cv_conf(False), dl_cv_inp,
    lambda k, c, i, o: k(i['D'], i['S'], c['lmbda'], opt=o, xmethod=c['xm'], dmethod=c['dm'], dimK=1), ['dict'])
reg('dictlrn.cbpdndlmd.ConvBPDNMaskDictLearn', 'dl', dcbpdndlmd.ConvBPDNMaskDictLearn, dl_cv_conf(True), dl_cv_inp,
    lambda k, c, i, o: k(i['D'], i['S'], c['lmbda'], i['W'], opt=o, xmethod=c['xm'], dmethod=c['dm'], dimK=1), ['dict'])


def pl_conf(rng):
    c = base(rng, ['g', 'gk', 'cm', 'cmk'], f32=False)
    if c['kind'] in ('g', 'cm'):
        c['K'] = 1
    c['dm'] = rng.choice(['IterSM', 'CG', 'Consensus'])
    c['xo'] = admm_opts(rng, extra=['AuxVarObj', 'NonNegCoef'])
    c['do'] = admm_opts(rng)
    for k in ('xo', 'do'):
        if rng.random() < .15:
            c[k]['FastSolve'] = True
    c['o'] = {}
    return c


reg('dictlrn.user.Dict', 'dl', user.Dict, pl_conf, dl_cv_inp,
    lambda k, c, i, o: k(i['D'], i['S'], c['lmbda'], opt=o, xopt=c['xo'], dopt=c['do'], dcls=getattr(accmod, 'ConvCnstrMOD_' + c['dm'])), ['dict'])


# ------------------------------------------------------------------ interface

def names(fam=None, tag=None):
    return sorted(n for n, e in CAT.items() if (fam is None or e.fam in fam) and (tag is None or tag in e.tags))


def gen(rng, fam=None, name=None, tag=None):
    if name is None:
        name = rng.choice(names(fam, tag))
    c = CAT[name].conf(rng)
    c['name'] = name
    if CAT[name].fam == 'admm' and 'AuxVarObj' in getattr(CAT[name].cls.Options, 'defaults', {}) and 'fEvalX' in CAT[name].cls.Options.defaults:
        if rng.random() < .12:
            c['o']['fEvalX'] = rng.random() < .5
            c['o']['gEvalY'] = rng.random() < .5
        if 'ReturnX' in CAT[name].cls.Options.defaults and rng.random() < .1:
            c['o']['ReturnX'] = True
    if CAT[name].fam != 'dl' and not c.get('cplx') and rng.random() < (.5 if '.ppp.' in name else .06):
        c['o']['DataType'] = {'$dt': rng.choice(['float32', 'float64'])}
    if '.user.' not in name and rng.random() < .05:
        c['noopt'] = True
        c['o'] = {}
        c.pop('dszk', None) if CAT[name].fam == 'dl' else None
    if name in LNONE and rng.random() < .06:
        c['lmbda'] = None
    return c


# classes that choose the regularisation parameter from the data by default
LNONE = ['admm.bpdn.BPDN', 'admm.bpdn.ElasticNet', 'admm.bpdn.BPDNJoint', 'pgm.bpdn.BPDN', 'admm.cbpdn.ConvBPDN', 'admm.cbpdn.ConvElasticNet', 'admm.cbpdn.ConvBPDNGradReg',
         'admm.cbpdn.ConvBPDNJoint', 'pgm.cbpdn.ConvBPDN', 'admm.cbpdn.AddMaskSim', 'admm.cbpdnin.ConvBPDNInhib']


def inputs(c):
    r = rs(c['ds'])
    i = CAT[c['name']].inp(c, r)
    # saturated (exactly zero) regions in the data
    if isinstance(i.get('S'), np.ndarray) and i['S'].ndim and r.rand() < .2:
        i['S'][r.rand(len(i['S'])) < .4] = 0
    return i


def resolve(c, o, inp, path=()):
    out = {}
    for k, v in o.items():
        if isinstance(v, dict):
            if '$dt' in v:
                v = np.dtype(v['$dt'])
            elif '$dsz' in v:
                v = inp['dsz']
            elif '$obj' in v:
                v = OBJ[v['$obj'][0]](*v['$obj'][1:])
            elif '$w' in v:
                r = rs(c['ds'] + 17 + len(k))
                kind = v['$w']
                if kind == 'img':
                    v = 0.5 + r.rand(*inp['xshape'])
                elif c['name'].split('.')[1] == 'bpdn':
                    v = bp_weight(c, kind, inp['xshape'], r)
                else:
                    v = weight(c, kind, inp['xshape'], r)
                if isinstance(v, np.ndarray) and c.get('f32'):
                    v = v.astype(np.float32)
            else:
                v = resolve(c, v, inp, path + (k,))
        out[k] = v
    return out


def optdict(c, inp, over=None):
    o = resolve(c, c['o'], inp)
    e = CAT[c['name']]
    o.setdefault('MaxMainIter', 1)
    o.setdefault('Verbose', False)
    if e.fam == 'admm':
        o.setdefault('RelStopTol', 0.0)
        o.setdefault('AbsStopTol', -1.0)
    elif e.fam == 'pgm':
        o.setdefault('RelStopTol', 0.0)
    if over:
        o.update(over)
    return o


def options(c, inp, over=None):
    o = optdict(c, inp, over)
    e = CAT[c['name']]
    if 'xm' in c:
        return dl_opt(c, o)
    return e.cls.Options(o)


LATE = ('MaxMainIter', 'Verbose', 'StatusHeader', 'Callback', 'IterTimer', 'FastSolve', 'RelStopTol', 'AbsStopTol')


def construct(c, inp, opt):
    e = CAT[c['name']]
    if c.get('noopt') and all(opt[k] is None for k in ('Y0', 'U0', 'X0') if k in opt):
        # default options; those that are not read at construction are set afterwards
        b = e.make(e.cls, c, inp, None)
        for k in LATE:
            if k in opt:
                core(b).opt[k] = opt[k]
        return b
    return e.make(e.cls, c, inp, opt)


def build(c, over=None):
    inp = inputs(c)
    return construct(c, inp, options(c, inp, over))


def f32(c):
    """Is the computation, or one of its inputs, of single precision?"""
    dt = c['o'].get('DataType') if 'o' in c else None
    if dt is not None:
        return bool(c.get('f32')) or dt['$dt'] == 'float32'
    return bool(c.get('f32')) or '.ppp.' in c.get('name', '')


def tol(c):
    return 2e-3 if f32(c) else 1e-7


def core(b):
    """The solver object that iterates (wrappers delegate to an inner one)."""
    return b.cbpdn if isinstance(b, (acbpdn.AddMaskSim, acbpdn.MultiDictConvBPDN)) else b


def shrink_conf(c):
    """Simpler configurations, for minimisation."""
    import copy
    for k in list(c['o']):
        d = copy.deepcopy(c)
        del d['o'][k]
        yield d
        if isinstance(c['o'][k], dict):
            for j in list(c['o'][k]):
                if j.startswith('$'):
                    continue
                d = copy.deepcopy(c)
                del d['o'][k][j]
                yield d
    for k in ('f32', 'cplx'):
        if c.get(k):
            d = copy.deepcopy(c)
            d[k] = False
            yield d


# ------------------------------------------------------------------ driving

def gen_segs(rng, total, zero=True):
    """A way of cutting `total` iterations: [limit, callback stop or None]; zero-length calls included."""
    segs = []
    left = total
    while left > 0:
        n = min(left, rng.choice([1, 1, 1, 2, 2, 3, 5, 8]))
        if rng.random() < .4:
            segs.append([n + rng.randint(0, 4), n])
        else:
            segs.append([n, None])
        left -= n
        if zero and segs and rng.random() < .06:
            segs.append([0, None])
    return segs


def drive(b, segs, cb=None):
    """Performs the calls to solve; cb(solver) is an additional observer."""
    o = core(b).opt
    ret = None
    for lim, stop in segs:
        o['MaxMainIter'] = lim
        if stop is not None or cb is not None:
            cnt = [0]

            def f(obj, cnt=cnt, stop=stop):
                cnt[0] += 1
                if cb is not None:
                    cb(obj)
                return stop is not None and cnt[0] >= stop
            o['Callback'] = f
        else:
            o['Callback'] = None
        ret = b.solve()
    return ret


def seg_total(segs):
    return sum(min(l, s) if s is not None else l for l, s in segs)


def counter(b):
    b = core(b)
    return b.k if CATFAM(b) != 'dl' else b.j


def CATFAM(b):
    import sporco.dictlrn.dictlrn as dd
    return 'dl' if isinstance(b, dd.DictLearn) else 'solver'


def result(b, ret):
    """Everything a user gets out of a solver after solve()."""
    from .util import snap
    out = [snap(ret)]
    cb = core(b)
    for n in ('getmin', 'getcoef', 'getdict'):
        f = getattr(cb, n, None)
        if f is not None:
            out.append(snap(f()))
    return out
