"""Random calls of the array functions that have variants for missing optional components."""
import numpy as np


def arr(r, shape, dt, cplx=False):
    x = r.randn(*shape)
    if cplx:
        x = x + 1j * r.randn(*shape)
        return x.astype(np.complex64 if dt == np.float32 else np.complex128)
    return x.astype(dt)


def axes_of(r, nd):
    k = r.randint(1, nd + 1)
    return tuple(sorted(r.permutation(nd)[:k].tolist()))


def shp(r, nd=None, lo=2, hi=7):
    nd = nd or r.randint(1, 5)
    return tuple(int(v) for v in r.randint(lo, hi, nd))


def f_fftn(M, r, dt):
    s = shp(r)
    ax = axes_of(r, len(s))
    x = arr(r, s, dt, True)
    sz = None if r.rand() < .5 else tuple(int(s[a] + r.randint(-1, 3)) for a in ax)
    return [M('fft').fftn(x, sz, ax), M('fft').ifftn(x, sz, ax), M('fft').fftn_func(False)(x, sz, ax), M('fft').ifftn_func(False)(x, sz, ax)]


def f_rfftn(M, r, dt):
    s = shp(r)
    ax = axes_of(r, len(s))
    x = arr(r, s, dt)
    sz = tuple(s[a] for a in ax)
    F = M('fft')
    xf = F.rfftn(x, None, ax)
    big = tuple(v + int(r.randint(0, 3)) for v in sz)
    return [xf, F.rfftn(x, big, ax), F.irfftn(xf, sz, ax), F.fftn_func(True)(x, None, ax), F.ifftn_func(True)(xf, sz, ax), F.fftn(x, None, ax)]


def f_norms(M, r, dt):
    s = shp(r, r.randint(2, 5))
    ax = axes_of(r, len(s))
    x = arr(r, s, dt)
    F = M('fft')
    xf, xr = F.fftn(arr(r, s, dt, True), None, ax), F.rfftn(x, None, ax)
    return [F.fl2norm2(xf, ax), F.rfl2norm2(xr, s, ax), F.fl2norm2_func(False)(xf, s, ax), F.fl2norm2_func(True)(xr, s, ax)]


def f_dct(M, r, dt):
    s = shp(r)
    ax = axes_of(r, len(s))
    x = arr(r, s, dt)
    return [M('fft').dctii(x, ax), M('fft').idctii(x, ax)]


def f_fftconv(M, r, dt):
    nd = r.randint(1, 4)
    ax = axes_of(r, nd)
    sa, sb = list(shp(r, nd)), list(shp(r, nd))
    for a in range(nd):
        if a not in ax:
            sb[a] = sa[a]
    c = r.rand() < .3
    return [M('fft').fftconv(arr(r, sa, dt, c), arr(r, sb, dt, c), axes=ax)]


def f_aligned(M, r, dt):
    F = M('fft')
    s = shp(r)
    ax = axes_of(r, len(s))
    x = arr(r, s, dt, r.rand() < .4)
    o = []
    for v in (F.empty_aligned(s, dt), F.rfftn_empty_aligned(s, ax, dt), F.empty_aligned_func(True)(s, ax, dt), F.empty_aligned_func(False)(s, ax, dt)):
        o.append(np.zeros(v.shape, v.dtype))
    y = F.byte_aligned(x)
    z = F.byte_aligned(x.real.copy(), dtype=np.dtype(np.float64))
    cd = F.complex_dtype(np.dtype(dt))
    return o + [y, z, np.zeros(1, cd), np.zeros(1, F.real_dtype(cd))]


def f_inner(M, r, dt):
    s = shp(r, r.randint(1, 6), 1, 4)
    ax = int(r.randint(-len(s), len(s)))
    t = tuple(v if (i == ax % len(s) or r.rand() < .6) else 1 for i, v in enumerate(s))
    c = r.rand() < .5
    return [M('linalg').inner(arr(r, s, dt, c), arr(r, t, dt, c), axis=ax)]


def f_sm(M, r, dt):
    s = shp(r, 5, 1, 4)
    ah, b = arr(r, s[:3] + (1, s[4]), dt, True), arr(r, s, dt, True)
    rho = dt(r.rand() + .5)
    d = (arr(r, s, dt) ** 2 + dt(.5))
    L = M('linalg')
    cc = L.solvedbi_sm_c(ah, np.conj(ah), rho, 4)
    return [L.solvedbi_sm(ah, rho, b), L.solvedbi_sm(ah, rho, b, c=cc), L.solvedbd_sm(ah, d, b), cc]


def f_mdbi(M, r, dt):
    s = (3, 2, 1, int(r.randint(1, 4)), 3)
    ah, b = arr(r, s, dt, True), arr(r, s[:3] + (1, 3), dt, True)
    L = M('linalg')
    return [L.solvemdbi_ism(ah, dt(.7), b, 4, 3), L.solvemdbi_rsm(ah, dt(.7), b, 3)]


def f_cho(M, r, dt):
    n, m = int(r.randint(2, 7)), int(r.randint(2, 7))
    A = arr(r, (n, m), dt)
    L = M('linalg')
    rho = dt(r.rand() + .5)
    c, lw = L.cho_factor(A, rho)
    return [L.cho_solve_ATAI(A, rho, arr(r, (m, 3), dt), c, lw), L.cho_solve_AATI(A, rho, arr(r, (3, n), dt), c, lw)]


def f_rrs(M, r, dt):
    s = shp(r)
    x = arr(r, s, dt)
    return [M('linalg').rrs(x, arr(r, s, dt)), M('linalg').rrs(x * 0, x * 0)]


def special(r, x):
    """exact zeros, equal and opposite values, negative zeros, whole zero slices"""
    if r.rand() < .5:
        x[r.rand(*x.shape) < .2] = 0
    if r.rand() < .3:
        x[r.rand(*x.shape) < .2] = -0.0
    if r.rand() < .3:
        x[r.rand(*x.shape) < .3] = x.flat[0]
        x[r.rand(*x.shape) < .2] = -x.flat[0]
    if r.rand() < .3:
        x[r.randint(len(x))] = 0
    if r.rand() < .1:
        x[...] = 0
    return x


def thresh(r, s, dt):
    k = r.randint(5)
    if k < 2:
        return dt([0, r.rand()][k])
    w = np.abs(arr(r, s if k > 2 else (1,) * (len(s) - 1) + s[-1:], dt))
    if r.rand() < .6:
        w[r.rand(*w.shape) < .3] = 0
    return w


def f_prox_lp(M, r, dt):
    s = shp(r)
    v = special(r, arr(r, s, dt))
    w, g = thresh(r, s, dt), dt(r.choice([.7, .7, 0, 5]))
    ax = axes_of(r, len(s)) if r.rand() < .6 else None
    P = M('prox')
    return [P.prox_l1(v, w), P.prox_l0(v, w), P.prox_l2(v, g, axis=ax), P.proj_l2(v, g, axis=ax), P.norm_l1(v, ax), P.norm_l0(v, ax), P.norm_2l2(v, ax), P.norm_l2(v, ax)]


def f_prox_sp(M, r, dt):
    s = shp(r, r.randint(2, 4))
    v = special(r, arr(r, s, dt))
    ax = int(r.randint(0, len(s)))
    P = M('prox')
    return [P.prox_sl1l2(v, thresh(r, s, dt) if r.rand() < .5 else dt(.2), dt(r.choice([.3, 0, 5])), axis=ax), P.norm_l21(v, axis=ax)]


def f_l1proj(M, r, dt):
    s = shp(r, r.randint(1, 4))
    v = special(r, arr(r, s, dt))
    P = M('prox')
    ax = None if r.rand() < .5 else int(r.randint(0, len(s)))
    g = dt(r.rand() * 3)
    return [P.proj_l1(v, g, axis=ax), P.proj_l1(v, g, axis=ax, method='sortcumsum')]


def f_nuclear(M, r, dt):
    v = arr(r, shp(r, 2), dt)
    P = M('prox')
    return [P.prox_nuclear(v, dt(.5))[0], P.norm_nuclear(v)]


def f_signal(M, r, dt):
    s = shp(r, r.randint(2, 4), 3, 8)
    x = arr(r, s, dt)
    a = int(r.randint(0, len(s)))
    S = M('signal')
    zp = bool(r.rand() < .5)
    ax = tuple(range(len(s)))
    Gf, GHGf = S.gradient_filters(len(s), ax, s, dtype=np.dtype(dt))
    return [S.grad(x, a, zero_pad=zp), S.gradT(x, a, zero_pad=zp), Gf, GHGf]


def f_tikhonov(M, r, dt):
    x = arr(r, shp(r, 2, 12, 20), dt)
    lo, hi = M('signal').tikhonov_filter(x, 2.0, int(r.randint(2, 6)))
    return [lo, hi, M('signal').local_contrast_normalise(x)[0]]


def f_array(M, r, dt):
    s = shp(r)
    x = arr(r, s, dt)
    y = arr(r, s, dt)
    y[r.rand(*s) < .3] = 0
    A = M('array')
    ax = int(r.randint(0, len(s)))
    return [A.zdivide(x, y), A.atleast_nd(6, x), A.promote16(x), A.promote16(x.astype(np.float16)),
            A.promote16(x.astype(np.float16), lambda z: z * 2)] + list(A.split(x, ax))


def f_metric(M, r, dt):
    a, b = arr(r, (20, 22), dt), arr(r, (20, 22), dt)
    m = M('metric')
    return [m.mae(a, b), m.mse(a, b), m.snr(a, b), m.psnr(a, b, rng=1.0), m.isnr(a, b, a * .9), m.bsnr(a, b)]


def f_cnvrep(M, r, dt):
    C = M('cnvrep')
    D = arr(r, (3, 3, 4), dt)
    Nv = (6, 7)
    D = D.reshape(3, 3, 1, 1, 4)
    X = C.zpad(D, Nv)
    dsz = (3, 3, 4)
    zm = bool(r.rand() < .5)
    Pc = C.getPcn(dsz, Nv, dimN=2, dimC=0, crp=bool(r.rand() < .5), zm=zm)
    return [X, C.bcrop(X, dsz), C.normalise(X), C.zeromean(X, dsz), Pc(arr(r, Nv + (1, 1, 4), dt))]


ALL = {k[2:]: v for k, v in list(globals().items()) if k.startswith('f_')}
# functions that have a counterpart in sporco.cupy
STD = sorted(ALL)
