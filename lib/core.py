"""ctypes access to libcore.so (the repository's matrices/maxwell/eigensolver layers + harness/shim.c)."""
import ctypes as ct
import numpy as np

P = ct.c_void_p
D = ct.c_double


class Core:
    def __init__(self, path):
        self.lib = ct.CDLL(path)
        self.cplx = self.lib.vs_nvals() == 2
        self.herm = bool(self.lib.vs_hermitian())
        self.dt = np.complex128 if self.cplx else np.float64
        for n in ("mx_re_trace_A_diag_real", "mx_diag_real_trace"):
            getattr(self.lib, n).restype = D
        self.lib.mk_create.restype = P

    def call(self, name, *a):
        out = []
        for x in a:
            if isinstance(x, np.ndarray):
                assert x.flags.c_contiguous
                out.append(P(x.ctypes.data))
            elif isinstance(x, float):
                out.append(D(x))
            elif x is None:
                out.append(P(None))
            elif isinstance(x, (P,)):
                out.append(x)
            else:
                out.append(ct.c_int(int(x)))
        return getattr(self.lib, name)(*out)

    def zeros(self, *s):
        return np.zeros(s, self.dt)

    def nanfill(self, *s):
        a = np.empty(s, self.dt)
        a.view(np.uint8)[...] = 0xFF
        return a


def aligned(n, dt):
    return np.zeros(n, dt)


class Maxwell:
    def __init__(self, core, n, num_bands=4, nfft=4):
        self.c = core
        self.n = tuple(n)
        info = np.zeros(8, np.int32)
        self.h = P(core.call("mk_create", n[0], n[1], n[2], num_bands, nfft, info))
        self.N, _, _, self.fftN, self.last, self.lastsz, self.other, self.nfft = [int(x) for x in info]

    def close(self):
        self.c.call("mk_destroy", self.h)

    def set_k(self, k, G):
        self.c.call("mk_set_k", self.h, np.array(k, float), np.ascontiguousarray(G, float))

    def set_parity(self, p):
        self.c.call("mk_set_parity", self.h, p)

    def kpG(self):
        o = np.zeros((self.N, 8))
        self.c.call("mk_get_kpG", self.h, o)
        return o

    # tensors: (npts,3,3) complex hermitian
    def _pack(self, t):
        t = np.asarray(t)
        o = np.zeros((len(t), 9))
        o[:, 0], o[:, 1], o[:, 2] = t[:, 0, 0].real, t[:, 1, 1].real, t[:, 2, 2].real
        for c, (i, j) in ((3, (0, 1)), (5, (0, 2)), (7, (1, 2))):
            o[:, c] = t[:, i, j].real
            o[:, c + 1] = t[:, i, j].imag
        return o

    @staticmethod
    def unpack(o):
        t = np.zeros((len(o), 3, 3), complex)
        for i in range(3):
            t[:, i, i] = o[:, i]
        for c, (i, j) in ((3, (0, 1)), (5, (0, 2)), (7, (1, 2))):
            t[:, i, j] = o[:, c] + 1j * o[:, c + 1]
            t[:, j, i] = np.conj(t[:, i, j])
        return t

    def set_eps_inv(self, t):
        self.c.call("mk_set_eps_inv", self.h, self._pack(t))

    def set_mu_inv(self, t):
        self.c.call("mk_set_mu_inv", self.h, None if t is None else self._pack(t))

    def get_eps_inv(self, mu=False):
        o = np.zeros((self.fftN, 9))
        m = np.zeros(1)
        self.c.call("mk_get_mu_inv" if mu else "mk_get_eps_inv", self.h, o, m)
        return self.unpack(o), m[0]

    def op(self, op, X, arg=None, ev=None):
        X = np.ascontiguousarray(X, self.c.dt)
        Y = self.c.nanfill(*X.shape)
        r = self.c.call("mk_op", self.h, op, X.shape[1], X, Y, arg, ev)
        return (Y, r) if op == 14 else Y

    def field(self, which, X, b0, nb):
        X = np.ascontiguousarray(X, self.c.dt)
        o = np.zeros((self.fftN, nb, 3), complex)
        self.c.call("mk_field", self.h, which, X.shape[1], X, b0, nb, o)
        return o
