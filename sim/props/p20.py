"""P20: the statistics recorded for an iteration describe the iterate it has produced."""
import numpy as np

from sporco.admm import admm

from .. import cat
from ..engine import Violation, Skip
from ..util import with_, drop_each
from .p01 import all_finite

LEVEL = 'exploration'
RUNS = dict(quick=7000, thorough=120000)
RULE = ('a scenario fixes a serial solver and a history: calls of solve with limits, callback stops, exceptions raised by the callback (iteration continued by the next call) '
        'and changes of the reporting options between calls; every recorded statistic is compared, at the moment it is recorded, with values computed from the iterate the '
        'solver hands out then, and with the iterate at the end of the iteration before; non-trivial if at least two iterations are checked')
MEASURE = 'distinct (class, option set, event, checks) combinations'
COMPONENTS = {'real': ['all serial ADMM, PGM and dictionary learning classes'], 'stub': []}
ASSUMPTIONS = ['histories with non-finite or exploding values are not compared', 'objective formulae are recomputed independently (numpy.fft, spatial domain) for the sparse coding and '
               'dictionary update classes of the bpdn, cbpdn, cmod and ccmod modules and the dictionary learning classes; for the others by asking the solver again']
STRICT_REF = True


def generate(rng, tier, i):
    ns = cat.names()
    c = cat.gen(rng, name=ns[i % len(ns)])
    o = c['o']
    if i % 3 == 0 and 'Monotone' not in o and c['name'].startswith('pgm') and rng.random() < .5:
        o['Monotone'] = True
    segs = []
    for _ in range(rng.randint(1, 4)):
        n = rng.choice([1, 1, 2, 3, 5, 8])
        segs.append(dict(n=n, ev=rng.choice(['none', 'none', 'stop', 'raise']), at=rng.randint(1, n), fast=rng.random() < .1))
    return dict(c=c, segs=segs, lag=rng.random() < .15)


def nontrivial(scn):
    import json
    return json.dumps(scn, sort_keys=True) if sum(s['n'] for s in scn['segs']) > 1 else None


class Boom(Exception):
    pass


def conv(D, X, Nv, axisN, axisM):
    Df = np.fft.fftn(D, s=Nv, axes=axisN)
    Xf = np.fft.fftn(X, axes=axisN)
    r = np.fft.ifftn(np.sum(Df * Xf, axis=axisM, keepdims=True), axes=axisN)
    return r if np.iscomplexobj(D) or np.iscomplexobj(X) else r.real


def fidelity(s, V):
    """0.5 || W (D x - s) ||^2 for the coefficients or dictionary V of the solver s (None if no formula is known here)."""
    W = getattr(s, 'W', None)
    if W is None:
        W = 1.0
    if hasattr(s, 'cri'):
        cri = s.cri
        if hasattr(s, 'setcoef'):
            R = conv(V, s.Z, cri.Nv, cri.axisN, cri.axisM)
        else:
            R = conv(s.D, V, cri.Nv, cri.axisN, cri.axisM)
        R = R - s.S
        return 0.5 * np.linalg.norm((W * R).ravel())**2
    if hasattr(s, 'setcoef'):
        R = np.asarray(V).dot(s.Z) - s.S
    else:
        R = np.asarray(s.D).dot(V) - s.S
    if np.ndim(W):
        return 0.5 * np.sum(W * R**2) if SQW.get(type(s).__name__) else 0.5 * np.linalg.norm((W * R).ravel())**2
    return 0.5 * np.linalg.norm(R.ravel())**2


SQW = {'WeightedBPDN': True, 'WeightedCnstrMOD': True}

BP = {'admm.bpdn.BPDN', 'admm.bpdn.ElasticNet', 'admm.bpdn.BPDNJoint', 'pgm.bpdn.BPDN', 'pgm.bpdn.WeightedBPDN',
      'admm.cbpdn.ConvBPDN', 'admm.cbpdn.ConvElasticNet', 'admm.cbpdn.ConvBPDNJoint', 'pgm.cbpdn.ConvBPDN', 'pgm.cbpdn.ConvBPDNMask'}
CM = {'admm.cmod.CnstrMOD', 'pgm.cmod.CnstrMOD', 'pgm.cmod.WeightedCnstrMOD', 'admm.ccmod.ConvCnstrMOD_IterSM', 'admm.ccmod.ConvCnstrMOD_CG', 'admm.ccmod.ConvCnstrMOD_Consensus',
      'pgm.ccmod.ConvCnstrMOD', 'pgm.ccmod.ConvCnstrMODMask'}


def formula(name, s):
    """Independent values of statistics fields from the iterate the solver hands out."""
    out = {}
    if name.startswith('pgm'):
        vf = vg = s.getmin()
    else:
        o = s.opt
        if 'fEvalX' not in o or 'gEvalY' not in o:
            return out
        if o['fEvalX'] and name == 'admm.ccmod.ConvCnstrMOD_Consensus':
            return out
        vf = s.var_x() if o['fEvalX'] else s.var_y()
        vg = s.var_y() if o['gEvalY'] else s.var_x()
    if name in BP:
        out['DFid'] = fidelity(s, vf)
        w = s.wl1 if hasattr(s, 'wl1') else 1.0
        out['RegL1'] = np.sum(np.abs(w * vg))
        out['ObjFun'] = out['DFid'] + s.lmbda * out['RegL1']
        if 'ElasticNet' in name:
            out['RegL2'] = 0.5 * np.linalg.norm(np.ravel(vg))**2
            out['ObjFun'] += s.mu * out['RegL2']
        elif 'Joint' in name:
            wl = getattr(s, 'wl21', 1.0)
            ax = s.cri.axisC if hasattr(s, 'cri') else 1
            out['RegL21'] = np.sum(np.asarray(wl) * np.sqrt(np.sum(vg**2, axis=ax, keepdims=True)))
            out['ObjFun'] += s.mu * out['RegL21']
    elif name in CM:
        out['DFid'] = fidelity(s, vf)
    return out


def dl_formula(name, s):
    out = {}
    # the values of the latest iteration of the two steps
    for step, m in ((s.xstep, s.isc.isxmap), (s.dstep, s.isc.isdmap)):
        for f, g in m.items():
            if step.opt['FastSolve'] or not step.itstat:
                out[f] = 0.0
            elif step.itstat[-1].Iter != step.k - 1:
                raise Violation('stale', '%s: latest record of %s is for iteration %d, %d have been performed' % (name, type(step).__name__, step.itstat[-1].Iter, step.k))
            else:
                out[f] = getattr(step.itstat[-1], g)
    if 'AccurateDFid' not in s.opt or not s.opt['AccurateDFid']:
        return out
    x = s.xstep
    X = s.getcoef()
    D = s.getdict(crop=False) if hasattr(x, 'cri') else s.getdict()
    W = getattr(x, 'W', None)
    W = 1.0 if W is None else W
    if hasattr(x, 'cri'):
        R = conv(D, X, x.cri.Nv, x.cri.axisN, x.cri.axisM) - x.S
        d = 0.5 * np.linalg.norm((W * R).ravel())**2
    else:
        R = D.dot(X) - x.S
        d = 0.5 * np.sum(W * R**2)
    l1 = np.sum(np.abs(X))
    out.update({'DFid': d, 'RegL1': l1, 'ObjFun': d + x.lmbda * l1})
    return out


def execute(scn, ctx):
    c = scn['c']
    nm = c['name']
    b = ctx.reference(cat.build, c)
    s = cat.core(b)
    dl = cat.CATFAM(b) == 'dl'
    isadmm = isinstance(s, admm.ADMM)
    rt = 5e-3 if cat.f32(c) else 1e-6
    at = 1e-3 if cat.f32(c) else 1e-9
    mono = not dl and not isadmm and bool(s.opt['Monotone'])
    st = dict(yprev=None, n=0, last=None, lastobj=None, rho=None, cb=None)
    done = set()

    def close(what, f, got, want, scale=0.0):
        if got is None:
            return
        got, want = float(np.real(got)), float(np.real(want))
        if not np.isfinite(got + want) or max(abs(got), abs(want)) > 1e10:
            raise Skip('diverging')
        if abs(got - want) > rt * max(abs(got), abs(want), scale) + at:
            raise Violation('statistic', '%s: recorded %s is %.12g, the iterate handed out gives %.12g' % (what, f, got, want))
        done.add(f)

    def snapY():
        if isadmm:
            st['yprev'] = s.Y.copy()

    def check(obj):
        st['n'] += 1
        what = '%s, iteration %d' % (nm, st['n'])
        ctx.steps += 1
        fast = not dl and s.opt['FastSolve']
        if fast:
            st['lastobj'] = None
            snapY()
            return
        r = s.itstat[-1]
        if r is st['last']:
            raise Violation('missing', '%s: no statistics have been recorded' % what)
        st['last'] = r
        k = s.j if dl else s.k
        if r.Iter != k:
            raise Violation('number', '%s: recorded iteration number %s, the solver is at %s' % (what, r.Iter, k))
        if dl:
            for f, v in dl_formula(nm, s).items():
                if f in r._fields:
                    close(what, f, getattr(r, f), v)
            return
        # the solver asked again
        if nm not in ('admm.cbpdnin.ConvBPDNInhib',):
            fld = type(s).itstat_fields_objfn
            ev = s.eval_objfn()
            sc = max([abs(float(np.real(x))) for x in ev if x is not None] + [0])
            for f, v in zip(fld, ev):
                if v is not None:
                    close(what, f, getattr(r, f), v, 1e-3 * sc)
        for f, v in formula(nm, s).items():
            close(what, f, getattr(r, f), v)
        if mono and s.k > 0:  # the first iteration of the algorithm is not monotone
            if st['lastobj'] is not None and r[1] > st['lastobj'] * (1 + (1e-4 if cat.f32(c) else 1e-9)) + at:
                raise Violation('monotone', '%s: objective %.12g after %.12g with the Monotone option' % (what, r[1], st['lastobj']))
            done.add('monotone')
        st['lastobj'] = r[1]
        if isadmm:
            rsdl(what, r)
            autorho(what, r)
            snapY()
        elif s.opt['Backtrack'] is not None:
            close(what, 'L', r.L, s.L)
            mx = s.opt['Backtrack'].maxiter
            if r.IterBTrack < 1 or r.IterBTrack > mx:
                raise Violation('backtrack', '%s: %s backtracking steps recorded, the limit is %s' % (what, r.IterBTrack, mx))
            if r.IterBTrack < mx and r.F_Btrack > r.Q_Btrack:
                raise Violation('backtrack', '%s: the step was accepted with F = %.12g > Q = %.12g' % (what, r.F_Btrack, r.Q_Btrack))
            done.add('backtrack')

    def rsdl(what, r):
        if type(s).compute_residuals is not admm.ADMM.compute_residuals:
            return
        try:
            AX = s.cnst_A(s.X) if not isinstance(s, (admm.ADMMEqual, admm.ADMMConsensus)) else s.X
        except (TypeError, NotImplementedError):
            return
        try:
            # quantities at the moment of the statistics, i.e. before the adaptation of rho (rho U is invariant)
            q = r.Rho / float(np.ravel(s.rho)[0]) if np.ndim(s.rho) else r.Rho / s.rho
            p = np.linalg.norm(s.rsdl_r(AX, s.Y))
            # classes with a dual residual of the multipliers, rho A^T U, are not affected by the adaptation of rho
            own = np.linalg.norm(s.rsdl_s(s.Y, s.Y)) > 0
            d = np.linalg.norm(s.rsdl_s(st['yprev'], s.Y)) * (1.0 if own else q)
            rn, sn = s.rsdl_rn(AX, s.Y), s.rsdl_sn(s.U)
        except NotImplementedError:
            return
        if not s.opt['AutoRho', 'StdResiduals']:
            rn, sn = rn or 1.0, sn or 1.0
            p, d = p / rn, d / sn
        close(what, 'PrimalRsdl', r.PrimalRsdl, p)
        close(what, 'DualRsdl', r.DualRsdl, d)

    def autorho(what, r):
        rho = np.ravel(r.Rho)
        if st['rho'] is not None:
            k, old = st['rho']
            a = s.opt['AutoRho']
            q = rho[0] / old[0]
            mx = float(s.rho_tau) * (1 + 1e-5)
            if abs(q - 1) > 1e-9:
                if not a['Enabled']:
                    raise Violation('rho', '%s: rho has changed from %.12g to %.12g although AutoRho is disabled' % (what, old[0], rho[0]))
                if k == 0 or (k + 1) % a['Period'] != 0:
                    raise Violation('rho', '%s: rho has changed from %.12g to %.12g after iteration number %d, the period is %d' % (what, old[0], rho[0], k, a['Period']))
                if not 1 / mx <= q <= mx:
                    raise Violation('rho', '%s: rho has changed from %.12g to %.12g, the scaling is limited to %g' % (what, old[0], rho[0], mx))
                done.add('rho')
        st['rho'] = (r.Iter, rho)

    def cb(obj):
        check(obj)
        if st['cb'] is not None:
            st['cb'] -= 1
            if st['cb'] <= 0:
                if ev == 'raise':
                    raise Boom('callback')
                return True

    s.opt['Callback'] = cb
    ev = None
    for g, sg in enumerate(scn['segs']):
        ev = sg['ev']
        st['cb'] = sg['at'] if ev != 'none' else None
        s.opt['MaxMainIter'] = sg['n']
        if not dl:
            s.opt['FastSolve'] = sg['fast'] and nm not in NOFAST
            if sg['fast']:
                st['rho'] = None
        snapY()
        n0 = len(s.itstat)
        try:
            b.solve()
            if ev == 'stop':
                ctx.fault('callback_stop')
        except Boom:
            ctx.fault('callback_exception')
        x = s.itstat[n0:]
        nit = sg['n'] if ev == 'none' else sg['at']
        if not dl and s.opt['FastSolve']:
            if x:
                raise Violation('fast', '%s: statistics recorded with FastSolve' % nm)
        elif len(x) != nit:
            raise Violation('missing', '%s: %d statistics recorded in a call with %d iterations' % (nm, len(x), nit))
        if not all_finite([x]):
            raise Skip('diverging')
    ctx.key(nm, json_key(c['o']), tuple(sorted(done)))


NOFAST = set()


def json_key(o):
    import json
    return json.dumps(o, sort_keys=True)


def shrink(scn):
    for segs in drop_each(scn['segs']):
        if segs:
            yield with_(scn, segs=segs)
    for i, sg in enumerate(scn['segs']):
        if sg['ev'] != 'none':
            yield with_(scn, segs=scn['segs'][:i] + [dict(sg, ev='none')] + scn['segs'][i + 1:])
        if sg['n'] > 1 and sg['ev'] == 'none':
            yield with_(scn, segs=scn['segs'][:i] + [dict(sg, n=sg['n'] // 2)] + scn['segs'][i + 1:])
    for c in cat.shrink_conf(scn['c']):
        yield with_(scn, c=c)
