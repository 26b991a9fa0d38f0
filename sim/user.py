"""Solvers as a user of the framework classes would define them."""
import numpy as np

from sporco.admm import admm
from sporco.pgm import pgm
from sporco.dictlrn import dictlrn
from sporco.admm import cbpdn, ccmod
from sporco import cnvrep
from sporco.fft import rfftn, irfftn, rfl2norm2
from sporco.prox import prox_l1


class Constrained(admm.ADMM):
    """(1/2)||x - s||^2 + lmbda ||y||_1 subject to A x + B y = c."""

    class Options(admm.ADMM.Options):
        defaults = dict(admm.ADMM.Options.defaults)

        def __init__(self, opt=None):
            admm.ADMM.Options.__init__(self, {'AutoRho': {'RsdlTarget': 1.0}})
            self.update(opt if opt is not None else {})

    def __init__(self, A, S, lmbda, opt=None):
        m, n = A.shape
        self.A = A.astype(S.dtype)
        self.S = S.ravel()[:n].copy()
        self.d = np.linspace(0.5, 1.5, m).astype(S.dtype)
        self.c = (0.1 * np.arange(m) / m).astype(S.dtype)
        self.lmbda = S.dtype.type(lmbda)
        super(Constrained, self).__init__(n, (m,), (m,), S.dtype, opt)
        self.rhochange()

    def rhochange(self):
        self.M = np.eye(self.S.size, dtype=self.dtype) + self.rho * self.A.T.dot(self.A)

    def xstep(self):
        self.X = np.linalg.solve(self.M, self.S + self.rho * self.A.T.dot(self.c + self.d * self.Y - self.U))

    def ystep(self):
        self.Y = prox_l1((self.AX - self.c + self.U) / self.d, (self.lmbda / self.rho / self.d ** 2).astype(self.dtype))

    def obfn_f(self, X):
        return 0.5 * np.sum((X - self.S) ** 2)

    def obfn_g(self, Y):
        return self.lmbda * np.sum(np.abs(Y))

    def cnst_A(self, X):
        return self.A.dot(X)

    def cnst_AT(self, X):
        return self.A.T.dot(X)

    def cnst_B(self, Y):
        return -self.d * Y

    def cnst_c(self):
        return self.c


class Equal(admm.ADMMEqual):
    """(1/2)||W (x - s)||^2 + lmbda ||y||_1 subject to x = y, with extra statistics."""

    itstat_fields_extra = ('NonZero',)
    hdrtxt_objfn = ('Fnc', 'DFid', u'l1')
    hdrval_objfun = {'Fnc': 'ObjFun', 'DFid': 'FVal', u'l1': 'GVal'}

    def __init__(self, W, S, lmbda, opt=None):
        self.W2 = np.abs(W.astype(S.dtype)) + S.dtype.type(.1)
        self.S, self.lmbda = S, S.dtype.type(lmbda)
        super(Equal, self).__init__(S.shape, S.dtype, opt)
        self.X = np.zeros(S.shape, S.dtype)

    def xstep(self):
        self.X = (self.W2 * self.S + self.rho * (self.Y - self.U)) / (self.W2 + self.rho)

    def ystep(self):
        self.Y = prox_l1(self.AX + self.U, self.lmbda / self.rho)

    def obfn_f(self, X):
        return 0.5 * np.sum(self.W2 * (X - self.S) ** 2)

    def obfn_g(self, Y):
        return self.lmbda * np.sum(np.abs(Y))

    def itstat_extra(self):
        return (int(np.sum(self.obfn_gvar() != 0)),)


class TwoBlock(admm.ADMMTwoBlockCnstrnt):
    """(1/2)||y0 - s||^2 + lmbda ||y1||_1 subject to x = y0, D x = y1 for a diagonal D."""

    def __init__(self, W, S, lmbda, opt=None):
        self.D = np.abs(W.astype(S.dtype)) + S.dtype.type(.5)
        self.S, self.lmbda = S, S.dtype.type(lmbda)
        super(TwoBlock, self).__init__(S.size, (2,) + S.shape, 0, 1, S.dtype, opt)
        self.X = np.zeros(S.shape, S.dtype)

    def xstep(self):
        a, b = self.block_sep(self.Y - self.U)
        self.X = (a[0] + self.D * b[0]) / (1 + self.D ** 2)

    def ystep(self):
        a, b = self.block_sep(self.AX + self.U)
        self.Y = self.block_cat((self.S + self.rho * a) / (1 + self.rho), prox_l1(b, self.lmbda / self.rho))

    def cnst_A0(self, X):
        return X[np.newaxis]

    def cnst_A0T(self, Y):
        return Y[0]

    def cnst_A1(self, X):
        return (self.D * X)[np.newaxis]

    def cnst_A1T(self, Y):
        return self.D * Y[0]

    def obfn_g0(self, Y):
        return 0.5 * np.sum((Y - self.S) ** 2)

    def obfn_g1(self, Y):
        return self.lmbda * np.sum(np.abs(Y))


class Consensus(admm.ADMMConsensus):
    """sum_i (1/2)||x_i - s_i||^2 + lmbda ||y||_1 subject to x_i = y."""

    def __init__(self, S, lmbda, opt=None):
        self.S, self.lmbda = S, S.dtype.type(lmbda)
        super(Consensus, self).__init__(S.shape[-1], S.shape[:-1], S.dtype, opt)
        self.X = np.zeros(self.xshape, S.dtype)

    def xistep(self, i):
        self.X[..., i] = (self.S[..., i] + self.rho * (self.Y - self.U[..., i])) / (1 + self.rho)

    def prox_g(self, X, rho):
        return prox_l1(X, self.lmbda / rho)

    def obfn_fi(self, X, i):
        return 0.5 * np.sum((X - self.S[..., i]) ** 2)

    def obfn_g(self, Y):
        return self.lmbda * np.sum(np.abs(Y))


class Lasso(pgm.PGM):
    """(1/2)||A x - s||^2 + lmbda ||x||_1."""

    def __init__(self, A, S, lmbda, opt=None):
        self.A, self.S, self.lmbda = A, S, S.dtype.type(lmbda)
        self.b = S.ravel()[:A.shape[0]].copy()
        super(Lasso, self).__init__((A.shape[1],), S.dtype, opt)
        self.Y = self.X.copy()
        self.Yprv = self.Y.copy() + self.dtype.type(1e5)

    def grad_f(self, V=None):
        V = self.Y if V is None else V
        return self.A.T.dot(self.A.dot(V) - self.b)

    def prox_g(self, V):
        return prox_l1(V, self.lmbda / self.L)

    def hessian_f(self, V):
        return self.A.T.dot(self.A.dot(V))

    def obfn_f(self, X=None):
        X = self.X if X is None else X
        return 0.5 * np.sum((self.A.dot(X) - self.b) ** 2)

    def obfn_g(self, X):
        return self.lmbda * np.sum(np.abs(X))

    def rsdl(self):
        return np.linalg.norm((self.X - self.Yprv).ravel())


class Deconv(pgm.PGMDFT):
    """(1/2)||h * x - s||^2 + lmbda ||x||_1 in the DFT domain."""

    def __init__(self, A, S, lmbda, opt=None):
        self.S, self.lmbda = S, S.dtype.type(lmbda)
        Nv = S.shape
        super(Deconv, self).__init__(Nv, Nv, tuple(range(len(Nv))), S.dtype, opt)
        self.Hf = rfftn(A, Nv, self.axisN)
        self.Sf = rfftn(S, None, self.axisN)
        self.Xf = rfftn(self.X, None, self.axisN)
        self.Vf = self.Xf.copy()
        self.Y = self.X.copy()
        self.Yf = self.Xf.copy()
        self.Yfprv = self.Yf.copy() + self.dtype.type(1e5)

    def grad_f(self, V=None):
        V = self.Yf if V is None else V
        return np.conj(self.Hf) * (self.Hf * V - self.Sf)

    def prox_g(self, V):
        return prox_l1(V, self.lmbda / self.L)

    def hessian_f(self, V):
        return np.conj(self.Hf) * self.Hf * V

    def eval_objfn(self):
        f = 0.5 * rfl2norm2(self.Hf * self.Xf - self.Sf, self.S.shape, axis=self.axisN)
        g = self.obfn_g(self.X)
        return f + g, f, g

    def obfn_f(self, Xf=None):
        Xf = self.Xf if Xf is None else Xf
        return 0.5 * np.linalg.norm((self.Hf * Xf - self.Sf).ravel())**2

    def obfn_g(self, X):
        return self.lmbda * np.sum(np.abs(X))

    def rsdl(self):
        return np.sqrt(rfl2norm2(self.Xf - self.Yfprv, self.S.shape, axis=self.axisN))


class Dict(dictlrn.DictLearn):
    """Dictionary learning put together from its parts, with the default configuration of the statistics."""

    def __init__(self, D0, S, lmbda, opt=None, xopt=None, dopt=None, dcls=ccmod.ConvCnstrMOD_IterSM):
        self.opt = dictlrn.DictLearn.Options(opt)
        cri = cnvrep.CDU_ConvRepIndexing(D0.shape, S, 1, 2)
        D = cnvrep.Pcn(D0, D0.shape, cri.Nv, 2, cri.dimCd, crp=True, zm=False)
        xopt = cbpdn.ConvBPDN.Options(dict(xopt or {}, MaxMainIter=1))
        dopt = dcls.Options(dict(dopt or {}, MaxMainIter=1))
        dopt['Y0'] = cnvrep.zpad(cnvrep.stdformD(D, cri.Cd, cri.M, 2), cri.Nv)
        xstep = cbpdn.ConvBPDN(D, S, lmbda, xopt, dimK=1)
        dstep = dcls(None, S, D0.shape, dopt, dimK=1)
        super(Dict, self).__init__(xstep, dstep, self.opt)
