"""Naive reference model of the plane-wave Maxwell operators (numpy, dense, no FFT)."""
import numpy as np, itertools


def centered(i, n):
    """centred integer frequency of FFT index i on an n-point axis; on even axes the Nyquist index is -n/2
    (the representative is a convention, see kpG())."""
    return i - n if i >= (n + 1) // 2 and i > 0 else i


def indices(n):
    return list(itertools.product(*(range(q) for q in n)))


def kpG(n, kcart, G):
    """k+G (cartesian) per FFT index; FFT index i stands for e^{-2 pi i r.i/n}, hence the minus."""
    idx = np.array([[centered(a, q) for a, q in zip(i, n)] for i in indices(n)], float)
    return np.asarray(kcart) - idx @ np.asarray(G)


def idft(n):
    """spatial <- Fourier matrix: F[r,i] = exp(-2 pi i sum r_a i_a/n_a)"""
    ii = np.array(indices(n), float)
    ph = (ii / np.array(n, float)) @ ii.T
    return np.exp(-2j * np.pi * ph)


def cross_mat(q):
    return np.array([[0, -q[2], q[1]], [q[2], 0, -q[0]], [-q[1], q[0], 0]])


class Dense:
    """Operators as dense matrices in the (m,n) transverse basis; mn = (N,2,3) basis vectors."""

    def __init__(self, n, q, mn):
        self.n, self.q, self.mn = n, q, mn
        N = len(q)
        self.N = N
        self.F = idft(n)
        self.Fi = np.conj(self.F.T) / N
        self.T = np.zeros((3 * N, 2 * N))
        self.X = np.zeros((3 * N, 3 * N))
        for i in range(N):
            self.T[3 * i:3 * i + 3, 2 * i] = mn[i, 0]
            self.T[3 * i:3 * i + 3, 2 * i + 1] = mn[i, 1]
            self.X[3 * i:3 * i + 3, 3 * i:3 * i + 3] = cross_mat(q[i])
        I3 = np.eye(3)
        self.F3 = np.kron(self.F, I3)
        self.Fi3 = np.kron(self.Fi, I3)

    def blockdiag(self, t):
        N = self.N
        M = np.zeros((3 * N, 3 * N), complex)
        for i in range(N):
            M[3 * i:3 * i + 3, 3 * i:3 * i + 3] = t[i]
        return M

    def muinv(self, mu_inv):
        if mu_inv is None:
            return np.eye(2 * self.N)
        return self.T.T @ self.Fi3 @ self.blockdiag(mu_inv) @ self.F3 @ self.T

    def inner(self, eps_inv, left=None):
        """ -(q x) F^-1 eps^-1 F (q x)  (positive semidefinite curl-curl) """
        L = self.X
        R = self.X if left is None else left
        return -self.T.T @ L @ self.Fi3 @ self.blockdiag(eps_inv) @ self.F3 @ R @ self.T

    def op(self, eps_inv, mu_inv=None):
        B = self.muinv(mu_inv)
        return B @ self.inner(eps_inv) @ B

    def ucross(self, eps_inv, u):
        N = self.N
        U = np.kron(np.eye(N), cross_mat(u))
        return self.inner(eps_inv, left=U)

    def dfield(self, v):
        return (self.F3 @ self.X @ self.T @ v).reshape(self.N, 3, -1)

    def hfield(self, v):
        return (self.F3 @ self.T @ v).reshape(self.N, 3, -1)


def hashrng(*key):
    """deterministic, input-addressed values (no seed needed: part of the enumerated alphabet)"""
    import hashlib
    s = int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big")
    return np.random.Generator(np.random.PCG64(s))


def tensors(n, key, herm, inv, diag=False):
    """positive-definite tensor per grid point; inversion symmetric if inv"""
    N = n[0] * n[1] * n[2]
    g = hashrng("tens", n, key, herm, diag)
    t = np.zeros((N, 3, 3), complex)
    idx = indices(n)
    pos = {i: j for j, i in enumerate(idx)}
    for j, i in enumerate(idx):
        a = g.normal(size=(3, 3)) * 0.25
        h = (a + a.T) / 2 + np.diag(1.2 + g.uniform(size=3))
        h = h.astype(complex)
        if herm:
            b = g.normal(size=(3, 3)) * 0.15
            h = h + 1j * (b - b.T)
        if diag:
            h = np.diag(np.diag(h)).astype(complex)
        t[j] = h
    if inv:
        for j, i in enumerate(idx):
            c = pos[tuple((-a) % q for a, q in zip(i, n))]
            if c < j:
                t[j] = t[c]
    return t


def half_points(n):
    """grid indices stored by the inversion-symmetric build, in storage order"""
    rank = 3 if n[2] > 1 else 2 if n[1] > 1 else 1
    last = n[rank - 1]
    out = []
    for i in indices(n):
        if i[rank - 1] <= last // 2:
            out.append(i)
    return out


LATS = {
    "cubic": np.eye(3),
    "ortho": np.diag([1.0, 1.3, 0.7]),
    "tri": np.array([[np.sqrt(3) / 2, 0.5, 0], [np.sqrt(3) / 2, -0.5, 0], [0, 0, 1.0]]),
    "fcc": np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]) / np.sqrt(2),
    "tric": np.array([[1.0, 0.2, -0.1], [0.3, 1.1, 0.15], [-0.2, 0.1, 0.9]]),
}


def recip(R):
    """rows = lattice vectors -> rows = reciprocal vectors (no 2 pi)"""
    return np.linalg.inv(R).T
