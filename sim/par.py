"""Scenario pieces for the process-parallel solvers (P05, P06, P07)."""
import copy

import numpy as np

import sporco.admm.parcbpdn as parcbpdn
import sporco.dictlrn.prlcnscdl as prl

from . import boot
from .simpool import PoolWorld
from .simsched import Schedule
from .engine import subrng
from .util import rs, snap, stats

SLICES = [[1, 2], [1, 3, 10, 40], [5, 20, 100], [50, 300], [1, 1000]]


def gen_sched(rng):
    return dict(seed=rng.randrange(1 << 30), lens=rng.choice(SLICES), prace=rng.choice([0, 0, .05, .2, .5]),
                rdv=rng.random() < .4)


def schedules(sc):
    """schedule_for function from the scenario's schedule description."""
    fixed = sc.get('fixed')

    def f(k):
        if fixed is not None:
            return Schedule(fixed=fixed.get(str(k), []), rdv=sc.get('rdv', False))
        return Schedule(rng=subrng(sc['seed'], k), lens=sc['lens'], prace=sc['prace'],
                        rdv=sc.get('rdv', False))
    return f


# ------------------------------------------------------------ ParConvBPDN

def gen_par(rng):
    M = rng.randint(2, 7)
    kind = rng.choice(['g', 'g', 'gk', 'cs', 'cm'])
    ngrp = rng.randint(1, M)
    o = dict(RelaxParam=rng.choice([1.0, 1.0, 1.8, 1.3]), rho=rng.choice([0.5, 1.0, 5.0, None]),
             alpha=rng.choice([None, 0.5, 2.0]), NonNegCoef=rng.random() < .3, NoBndryCross=rng.random() < .3,
             HighMemSolve=rng.random() < .3, AuxVarObj=rng.random() < .5)
    return dict(ds=rng.randrange(1 << 30), N=rng.choice([[6, 6], [5, 7], [8, 6]]), Nd=rng.choice([2, 3]), M=M, kind=kind,
                K=rng.randint(2, 3), C=rng.randint(2, 3), ngrp=ngrp, opt=o, W=rng.choice([None, 'spatial', 'spatial']),
                l1w=rng.choice([None, None, 'arr', 'M']), lmbda=rng.choice([0.1, 0.02, 0.5]),
                f32=rng.random() < .15)


def par_data(c):
    r = rs(c['ds'])
    N, Nd, M = c['N'], c['Nd'], c['M']
    kind = c['kind']
    dt = np.float32 if c['f32'] else np.float64
    if kind == 'g':
        D = r.randn(Nd, Nd, M)
        S = r.randn(*N)
        dimK = 0
    elif kind == 'gk':
        D = r.randn(Nd, Nd, M)
        S = r.randn(*(N + [c['K']]))
        dimK = 1
    elif kind == 'cs':
        D = r.randn(Nd, Nd, M)
        S = r.randn(*(N + [c['C']]))
        dimK = 0
    else:
        D = r.randn(Nd, Nd, c['C'], M)
        S = r.randn(*(N + [c['C']]))
        dimK = 0
    W = None
    if c['W'] == 'spatial':
        W = (r.rand(*N) > 0.3).astype(dt)
        W = W.reshape(W.shape + (1,) * (S.ndim - 2)) if S.ndim > 2 else W
    l1w = 1.0
    if c['l1w'] == 'M':
        l1w = (0.5 + r.rand(M)).reshape((1,) * 4 + (M,)).astype(dt)
    elif c['l1w'] == 'arr':
        shp = tuple(N) + ((c['C'],) if kind == 'cs' else (1,)) + ((c['K'],) if kind == 'gk' else (1,)) + (M,)
        l1w = (0.5 + r.rand(*shp)).astype(dt)
    return D.astype(dt), S.astype(dt), W, l1w, dimK


def par_make(c, nproc, extra=None):
    D, S, W, l1w, dimK = par_data(c)
    o = dict(c['opt'])
    aux = o.pop('AuxVarObj')
    o.update(Verbose=False, MaxMainIter=1, RelStopTol=0.0, AbsStopTol=-1.0, L1Weight=l1w, AuxVarObj=aux)
    if extra:
        o.update(extra)
    opt = parcbpdn.ParConvBPDN.Options(o)
    return parcbpdn.ParConvBPDN(D, S, c['lmbda'], W=W, opt=opt, nproc=nproc, ngrp=c['ngrp'], dimK=dimK)


# ------------------------------------------------------------ consensus CDL

def gen_cns(rng):
    mask = rng.random() < .45
    kind = rng.choice(['g', 'g', 'cm'])
    M = rng.randint(2, 4)
    xo = dict(rho=rng.choice([0.5, 2.0, 10.0]), RelaxParam=rng.choice([1.0, 1.8, 1.4]))
    do = dict(rho=rng.choice([0.5, 1.0, 3.0]), RelaxParam=rng.choice([1.0, 1.8, 1.4]), ZeroMean=rng.random() < .3)
    return dict(ds=rng.randrange(1 << 30), mask=mask, kind=kind, N=rng.choice([[6, 6], [5, 7]]), Nd=rng.choice([2, 3]), M=M,
                K=rng.randint(1, 5), C=2, xo=xo, do=do, lmbda=rng.choice([0.1, 0.02]),
                W=rng.choice(['one', 'spatial', 'perk']))


def cns_data(c):
    r = rs(c['ds'])
    N, Nd, M, K = c['N'], c['Nd'], c['M'], c['K']
    if c['kind'] == 'g':
        D = r.randn(Nd, Nd, M)
        S = r.randn(*(N + [K]))
    else:
        D = r.randn(Nd, Nd, c['C'], M)
        S = r.randn(*(N + [c['C'], K]))
    W = None
    if c['mask']:
        if c['W'] == 'one':
            W = np.array([1.0])
        elif c['W'] == 'spatial':
            W = (r.rand(*N) > .3).astype(float)
            W = W.reshape(W.shape + (1,) * (S.ndim - 2))
        else:
            W = (r.rand(*S.shape) > .3).astype(float)
    return D, S, W


def cns_make(c, nproc):
    D, S, W = cns_data(c)
    o = {'Verbose': False, 'MaxMainIter': 1, 'CBPDN': dict(c['xo']), 'CCMOD': dict(c['do'])}
    if c['mask']:
        opt = prl.ConvBPDNMaskDcplDictLearn_Consensus.Options(o)
        return prl.ConvBPDNMaskDcplDictLearn_Consensus(D, S, c['lmbda'], W, opt, nproc=nproc, dimK=1)
    opt = prl.ConvBPDNDictLearn_Consensus.Options(o)
    return prl.ConvBPDNDictLearn_Consensus(D, S, c['lmbda'], opt, nproc=nproc, dimK=1)


def run_segments(b, segs, setcb=True):
    """segs: list of [limit, stop_after or None]"""
    for lim, stop in segs:
        b.opt['MaxMainIter'] = lim
        if stop is not None:
            cnt = [0]

            def cb(obj, cnt=cnt, stop=stop):
                cnt[0] += 1
                return cnt[0] >= stop
            b.opt['Callback'] = cb
        else:
            b.opt['Callback'] = None
        ret = b.solve()
    return ret


def seg_total(segs):
    return sum(min(l, s) if s is not None else l for l, s in segs)


def gen_segs(rng, total):
    segs = []
    left = total
    while left > 0:
        n = rng.randint(1, left)
        if rng.random() < .4:
            segs.append([n + rng.randint(0, 3), n])
        else:
            segs.append([n, None])
        left -= n
    return segs
