"""P14: online dictionary learning is determined by its stream of training data."""
import copy

import numpy as np

from sporco.admm import cbpdn
from sporco.dictlrn import onlinecdl

from ..engine import Violation
from ..util import rs, same, close, with_, drop_each

LEVEL = 'exploration'
RUNS = dict(quick=2500, thorough=80000)
RULE = ('a scenario is a stream of batches (image size, number of channels and images, layout, mask) for one online learner with failing batches, crash/restart from the dictionary and step count, '
        'and snapshots in between; after every batch the dictionary is compared with an independent spatial-domain computation of the update from the dictionary before it; non-trivial if at least two batches succeed')
MEASURE = 'distinct (class, layout, batch shape, previous batch shape, event) tuples'
COMPONENTS = {'real': ['OnlineConvBPDNDictLearn', 'OnlineConvBPDNMaskDictLearn', 'admm.cbpdn sparse coding (also used by the reference, with explicit layout)'],
              'stub': ['gradient step and projection of the reference are recomputed with numpy.fft']}
STRICT_REF = True
ASSUMPTIONS = ['a batch that fails does so before the dictionary step (invalid batch, or a failure while the sparse coding runs)',
               'CUDA solvers are not available']


def generate(rng, tier, i):
    dimN = rng.choice([2, 2, 2, 1])
    Cd = rng.choice([0, 0, 1, 2, 3])       # 0: no channel axis in the dictionary
    M = rng.choice([1, 2, 3, 4])
    multi = rng.random() < .15 and dimN == 2 and Cd == 0
    sz = [rng.choice([2, 3, 4]) for _ in range(dimN)]
    c = dict(mask=rng.random() < .5, dimN=dimN, Cd=Cd, M=M, sz=sz, multi=multi, f32=rng.random() < .15, zm=rng.random() < .4, a=rng.choice([10.0, 1.0, .1]), b=rng.choice([5.0, 1.0, 20.0]),
             seed=rng.getrandbits(30), lmbda=rng.choice([1e-2, .1, .5]), ctor_dimk=rng.choice([None, None, None, 0, 1]), arho=rng.random() < .3, iters=rng.choice([1, 2, 5, 8]),
             nonneg=rng.random() < .2, relax=rng.choice([1.0, 1.8]), tol=rng.random() < .2, verbose=rng.random() < .1)
    sizes = [[rng.choice([5, 6, 7, 8, 9]) + 2 * multi for _ in range(dimN)] for _ in range(rng.choice([1, 2, 3]))]
    C = Cd if Cd > 1 else None
    shapes = []
    for _ in range(rng.choice([1, 2, 3])):
        shapes.append([C or (1 if rng.random() < .5 else rng.choice([2, 3])), rng.choice([1, 1, 2, 3])])
    ops = []
    n = rng.choice([2, 3, 5, 8] if tier == 'quick' else [3, 6, 12, 20])
    if rng.random() < .03:
        # a long stream of small batches
        n, c['iters'], sizes = rng.choice([20, 30, 40]), rng.choice([1, 2]), [[5] * dimN if not multi else [7] * dimN]
    for _ in range(n):
        r = rng.random()
        Cb, K = rng.choice(shapes)
        op = dict(op='batch', N=rng.choice(sizes), C=Cb, K=K, seed=rng.getrandbits(30), pos=rng.random() < .3,
                  W=rng.choice([None, 'sp', 'full', 'ax', 'bin']), lay=rng.getrandbits(8))
        if r < .18:
            op['op'] = 'fail'
            op['how'] = rng.choice(['callback', 'callback', 'ndim', 'channels', 'wshape', 'type', 'interrupt', 'interrupt', 'interrupt'])
            op['frac'] = rng.random()
            op['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError', 'OSError'])
            op['at'] = rng.randrange(c['iters'])
        elif r < .26:
            op = dict(op='crash')
        elif r < .32:
            op = dict(op='snapshot')
        elif r < .36:
            op = dict(op='look')
        ops.append(op)
    c['ops'] = ops
    return c


def nontrivial(scn):
    import json
    return json.dumps(scn, sort_keys=True) if sum(o['op'] == 'batch' for o in scn['ops']) > 1 else None


class Boom(Exception):
    pass


def dsz_of(c):
    """Dictionary size specification and largest support."""
    dimN = c['dimN']
    if c['multi']:
        s2 = [s + 2 for s in c['sz']]
        return (tuple(c['sz']) + (c['M'],), tuple(s2) + (1,)), tuple(s2), c['M'] + 1
    d = tuple(c['sz']) + ((c['Cd'],) if c['Cd'] else ()) + (c['M'],)
    return d, tuple(c['sz']), c['M']


def layout(op, c):
    """External shape and dimK with which a batch of C channels and K images is handed over."""
    N, C, K, lay = tuple(op['N']), op['C'], op['K'], op['lay']
    opts = []
    fixed = c['ctor_dimk']
    for dimK in (None, 0, 1):
        if fixed is not None and dimK not in (None, fixed):
            pass                    # an explicit argument overrides the constructor
        eff = dimK if dimK is not None else fixed
        for shp, c1, k1 in ((N, 1, 1), (N + (C,), C, 1), (N + (K,), 1, K), (N + (C, K), C, K)):
            if (c1, k1) != (C, K):
                continue
            rdim = len(shp) - len(N)
            if eff is None:
                if rdim == 0:
                    cc, kk = 1, 1
                elif rdim == 1:
                    cc, kk = (shp[-1], 1) if c['Cd'] else (1, shp[-1])
                else:
                    cc, kk = shp[-2:]
            else:
                if rdim - eff not in (0, 1):
                    continue
                cc = shp[len(N)] if rdim - eff == 1 else 1
                kk = shp[-1] if eff == 1 else 1
            if (cc, kk) == (C, K) and (c['Cd'] <= 1 or cc == c['Cd']):
                opts.append((shp, dimK))
    return opts[lay % len(opts)] if opts else None


def mask_of(op, shp, c):
    """Mask as handed over, and its value in the layout (N, C, K, 1)."""
    if op['W'] is None:
        return None, None
    N, C, K = tuple(op['N']), op['C'], op['K']
    r = rs(op['seed'] ^ 0x5a5a)
    if op['W'] == 'sp':
        W = r.rand(*N) + .2
        return W, W.reshape(N + (1, 1, 1))
    if op['W'] == 'bin':
        W = (r.rand(*N) > .4).astype(float)
        return W, W.reshape(N + (1, 1, 1))
    if op['W'] == 'ax':
        if C == 1 and K > 1:
            W = r.rand(*(N + (K,))) + .2
            return W, W.reshape(N + (1, K, 1))
        if C > 1 and K == 1:
            W = r.rand(*(N + (C,))) + .2
            return W, W.reshape(N + (C, 1, 1))
    W = r.rand(*(N + (C, K))) + .2
    return W.reshape(N + (C, K) + ((1,) if op['lay'] & 64 else ())), W.reshape(N + (C, K, 1))


def csc_opt(c, cls, extra=None):
    o = {'MaxMainIter': c['iters'], 'AutoRho': {'Enabled': c['arho'], 'Period': 2}, 'RelaxParam': c['relax'], 'NonNegCoef': c['nonneg'], 'RelStopTol': 1e-1 if c['tol'] else 0.0}
    o.update(extra or {})
    return o


def make(c, D0, j0, hook):
    cls = onlinecdl.OnlineConvBPDNMaskDictLearn if c['mask'] else onlinecdl.OnlineConvBPDNDictLearn
    d, mx, M = dsz_of(c)
    o = {'eta_a': c['a'], 'eta_b': c['b'] + j0, 'ZeroMean': c['zm'], 'Verbose': c['verbose'], 'CBPDN': csc_opt(c, cls, {'Callback': hook})}
    if c['multi']:
        o['DictSize'] = d
    if c['f32']:
        o['DataType'] = np.float32
    return cls(D0, c['lmbda'], cls.Options(o), dimK=c['ctor_dimk'], dimN=c['dimN'])


def project(G, c):
    """Independent projection of G, (N.., Cd, 1, M), onto the feasible set; returns the filter support part."""
    dimN = c['dimN']
    d, mx, M = dsz_of(c)
    out = np.zeros(mx + G.shape[dimN:])
    sup = [tuple(c['sz'])] * c['M'] + ([mx] if c['multi'] else [])
    for m in range(M):
        idx = tuple(slice(0, s) for s in sup[m]) + (Ellipsis, m)
        v = G[idx].astype(float)
        if c['zm']:
            v = v - v.mean(axis=tuple(range(dimN)), keepdims=True)
        # normalised over the filter support and, where the dictionary has a channel axis, over the channels
        n = np.sqrt((v ** 2).sum())
        out[idx] = v / n if n > 0 else v
    return out


def ref_step(c, D, S, W, j, cb=None):
    """Reference update: D (support, Cd, 1, M), S (N, C, K)."""
    dimN = c['dimN']
    N = S.shape[:dimN]
    C, K = S.shape[dimN:]
    Cd = max(c['Cd'], 1)
    M = D.shape[-1]
    De = D.reshape(D.shape[:dimN] + (Cd, M))
    dt = np.float32 if c['f32'] else np.float64
    if c['mask']:
        W5 = np.ones((1,) * (dimN + 3)) if W is None else W
        o = cbpdn.ConvBPDNMaskDcpl.Options(csc_opt(c, None, {'AutoRho': {'Enabled': c['arho'], 'Period': 2, 'AutoScaling': False, 'RsdlRatio': 10.0, 'Scaling': 2.0, 'RsdlTarget': 1.0}}))
        b = cbpdn.ConvBPDNMaskDcpl(De.astype(D.dtype), S, c['lmbda'], W5.astype(dt), o, dimK=1, dimN=dimN)
    else:
        W5 = None
        o = cbpdn.ConvBPDN.Options(csc_opt(c, None, {'AutoRho': {'Enabled': c['arho'], 'Period': 2, 'AutoScaling': False, 'RsdlRatio': 10.0, 'Scaling': 2.0, 'RsdlTarget': 1.0}}))
        b = cbpdn.ConvBPDN(De.astype(D.dtype), S, c['lmbda'], o, dimK=1, dimN=dimN)
    X = b.solve().astype(float)      # (N, Cx, K, M)
    X = X.reshape(N + (C if Cd == 1 else 1, K, M))
    ax = tuple(range(dimN))
    full = np.zeros(N + (Cd, 1, M))
    full[tuple(slice(0, s) for s in D.shape[:dimN])] = D
    Df, Xf = np.fft.fftn(full, axes=ax), np.fft.fftn(X, axes=ax)
    R = np.real(np.fft.ifftn((Df * Xf).sum(-1), axes=ax)) - S
    if W5 is not None:
        R = W5[..., 0] * R
    Rf = np.fft.fftn(R, axes=ax)
    g = np.conj(Xf) * Rf[..., None]
    g = g.sum(dimN + 1, keepdims=True)
    if Cd == 1:
        g = g.sum(dimN, keepdims=True)
    grad = np.real(np.fft.ifftn(g, axes=ax))
    eta = c['a'] / (j + c['b'])
    G = full - eta * grad
    return project(G, c), eta, b.itstat[-1], G


def execute(scn, ctx):
    import io
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        _execute(scn, ctx)


def _execute(c, ctx):
    dimN = c['dimN']
    d, mx, M = dsz_of(c)
    Cd = max(c['Cd'], 1)
    cur = {'at': None}

    def hook(obj):
        if cur['at'] is not None and obj.k >= cur['at']:
            raise Boom('sparse coding interrupted')
        return 0

    D0 = rs(c['seed']).randn(*(mx + ((c['Cd'],) if c['Cd'] else ()) + (M,)))
    D0c = D0.copy()
    tol = 2e-3 if c['f32'] else 1e-7
    nm = 'mask' if c['mask'] else 'plain'
    b = ctx.reference(make, c, D0, 0, hook)
    j = j0 = 0
    dt = np.float32 if c['f32'] else np.float64
    same('initial dictionary', np.asarray(b.getdict()).reshape(mx + (Cd, 1, M)), project(D0.reshape(mx + (Cd, 1, M)), c), tol)
    prev, tprev, nst, off = None, 0.0, 0, 0
    for n, op in enumerate(c['ops']):
        D = np.array(b.getdict(), copy=True)
        what = 'step %d (%s)' % (n, op['op'])
        if op['op'] == 'crash':
            # only the dictionary and the number of steps survive
            b = ctx.attempt(what, make, c, D.reshape(mx + ((c['Cd'],) if c['Cd'] else ()) + (M,)), j, hook)
            j0, nst, off, tprev = j, 0, 0, 0.0
            same(what + ': restarted dictionary', b.getdict(), D, tol)
            ctx.fault('crash_restart')
            ctx.key(nm, 'crash')
            continue
        if op['op'] == 'snapshot':
            b = ctx.attempt(what, copy.deepcopy, b)
            same(what, b.getdict(), D, 0)
            ctx.fault('snapshot_restore')
            continue
        if op['op'] == 'look':
            if b.itstat:
                ctx.attempt(what, b.getitstat)
            ctx.attempt(what, b.getdict)
            same(what, b.getdict(), D, 0)
            continue
        lay = layout(op, c)
        if lay is None:
            ctx.probe('layout_not_expressible')
            continue
        shp, dimK = lay
        N, C, K = tuple(op['N']), op['C'], op['K']
        S5 = rs(op['seed']).randn(*(N + (C, K)))
        if op['pos']:
            S5 = np.abs(S5)
        S5 = S5.astype(dt)
        S = S5.reshape(shp).copy()
        W, W5 = mask_of(op, shp, c) if c['mask'] else (None, None)
        if W is not None:
            W = W.astype(dt)
        if op['op'] == 'fail':
            how = op['how']
            if how == 'interrupt':
                from .p23 import Interrupt, EXC
                dk = {} if dimK is None else {'dimK': dimK}
                args = (S, W) if c['mask'] else (S,)
                with Interrupt() as it:
                    copy.deepcopy(b).solve(*args, **dk)
                it = Interrupt(1 + min(it.n - 1, int(op['frac'] * it.n)), EXC[op['exc']])
                try:
                    with it:
                        b.solve(*args, **dk)
                except (KeyboardInterrupt, MemoryError, OSError) as e:
                    if it.where is None or type(e) is not EXC[op['exc']]:
                        raise
                    e.__traceback__ = None
                if it.where is None:      # fewer instructions than in the copy
                    ctx.probe('batch_not_interrupted')
                else:
                    ctx.fault('batch_' + how)
                    ctx.key(nm, 'fail', it.where)
                what = '%s: %s in %s' % (what, op['exc'], it.where)
                new = np.array(b.getdict(), copy=True)
                if not np.array_equal(new, D):
                    want = ctx.reference(ref_step, c, np.asarray(D).reshape(mx + (Cd, 1, M)), S5, W5, j)[0]
                    same(what + ': dictionary is neither the previous nor the updated one', new.reshape(mx + (Cd, 1, M)), want, tol * 10 if c['f32'] else tol)
                if b.j + j0 not in (j, j + 1) or len(b.itstat) not in (nst, nst + 1):
                    raise Violation('count', '%s: j=%d and %d records' % (what, b.j, len(b.itstat)))
                j, nst, prev = b.j + j0, len(b.itstat), None
                off = b.j - nst
                continue
            if how == 'wshape' and not c['mask']:
                how = 'callback'
            if how == 'channels' and c['Cd'] < 2:
                how = 'callback'
            Sx, Wx = S, W
            if how == 'callback':
                cur['at'] = op['at']
            elif how == 'ndim':
                Sx = S.reshape(-1)[:1].reshape(()) if dimN == 1 else S.reshape(-1)
            elif how == 'channels':
                Sx = np.zeros(N + (c['Cd'] + 1, 1), dtype=dt)
                dimK = 1
            elif how == 'wshape':
                Wx = np.ones(tuple(s + 3 for s in N), dtype=dt)
            elif how == 'type':
                Sx = None
            try:
                if c['mask']:
                    b.solve(Sx, Wx, dimK=dimK)
                else:
                    b.solve(Sx, dimK=dimK)
            except Exception:
                ctx.fault('batch_' + how)
                ctx.key(nm, 'fail', how)
            else:
                if how != 'callback':
                    raise Violation('accepted', '%s: an invalid batch (%s) was accepted' % (what, how))
                cur['at'] = None
                ctx.probe('callback_not_reached')
                raise_if = b.getdict()
                j += 1
                nst = len(b.itstat)
                prev = None
                continue
            cur['at'] = None
            same(what + ': dictionary after a failed batch', b.getdict(), D, 0)
            if b.j + j0 != j or len(b.itstat) != nst:
                raise Violation('count', '%s: a failed batch was counted (j=%d, %d records)' % (what, b.j, len(b.itstat)))
            continue
        want, eta, st, G = ctx.reference(ref_step, c, np.asarray(D).reshape(mx + (Cd, 1, M)), S5, W5, j)
        Sc, Wc = S.copy(), None if W is None else W.copy()
        dk = {} if dimK is None else {'dimK': dimK}
        if c['mask']:
            got = ctx.attempt(what, b.solve, S, W, **dk) if W is not None or op['lay'] & 1 else ctx.attempt(what, b.solve, S, **dk)
        else:
            got = ctx.attempt(what, b.solve, S, **dk)
        lbl = '%s batch %s%s of %d channels, %d images, dimK=%s' % (what, N, shp, C, K, dimK)
        # the projection is ill conditioned where a filter is close to zero before it is normalised
        same(lbl, np.asarray(got).reshape(mx + (Cd, 1, M)), want, tol * 10 if c['f32'] else tol)
        same(lbl + ': getdict', b.getdict(), got, 0)
        if not (np.array_equal(S, Sc) and (W is None or np.array_equal(W, Wc))):
            raise Violation('input', '%s: the batch was modified' % lbl)
        r = b.itstat[-1]
        j += 1
        nst += 1
        if len(b.itstat) != nst or r.Iter != nst - 1 + off:
            raise Violation('count', '%s: %d records, last with Iter=%s, after %d batches' % (lbl, len(b.itstat), r.Iter, nst))
        if not close(r.Eta, eta, 1e-6):
            raise Violation('eta', '%s: step size %r, expected %r' % (lbl, r.Eta, eta))
        rt = 1e-2 if c['f32'] else 1e-6
        for f in ('ObjFun', 'DFid', 'RegL1', 'Rho'):
            if not abs(getattr(r, f) - getattr(st, f)) <= rt * max(abs(getattr(st, f)), abs(st.ObjFun), 1e-9):
                raise Violation('stats', '%s: %s is %r, expected %r' % (lbl, f, getattr(r, f), getattr(st, f)))
        dd = np.linalg.norm(np.asarray(got, float) - D)
        if not abs(r.DeltaD - dd) <= rt * max(dd, 1):
            raise Violation('stats', '%s: DeltaD is %r, expected %r' % (lbl, r.DeltaD, dd))
        cn = np.linalg.norm(G - np.pad(want, [(0, N[a] - mx[a]) for a in range(dimN)] + [(0, 0)] * 3))
        if not abs(r.Cnstr - cn) <= rt * max(cn, 1):
            raise Violation('stats', '%s: Cnstr is %r, expected %r' % (lbl, r.Cnstr, cn))
        if r.Time < tprev:
            raise Violation('time', '%s: Time went back from %r to %r' % (lbl, tprev, r.Time))
        tprev = r.Time
        k = (N, C, K)
        ctx.key(nm, c['Cd'], len(shp) - dimN, dimK, C > 1, K > 1, 'first' if prev is None else (prev[0] != N, prev[1] != C, prev[2] != K), op['W'] if c['mask'] else None)
        if prev is not None and prev != k:
            ctx.fault('batch_shape_change')
        prev = k
        ctx.steps += 1
    if not np.array_equal(D0, D0c):
        raise Violation('input', 'the initial dictionary was modified')


def shrink(scn):
    for ops in drop_each(scn['ops']):
        if ops:
            yield with_(scn, ops=ops)
    for k, v in (('f32', False), ('zm', False), ('arho', False), ('nonneg', False), ('verbose', False), ('tol', False), ('multi', False), ('iters', 1), ('M', 1), ('ctor_dimk', None), ('relax', 1.0)):
        if scn[k] != v:
            yield with_(scn, **{k: v})
    for n, o in enumerate(scn['ops']):
        for k, v in (('K', 1), ('W', None)):
            if k in o and o[k] != v:
                ops = copy.deepcopy(scn['ops'])
                ops[n][k] = v
                yield with_(scn, ops=ops)
