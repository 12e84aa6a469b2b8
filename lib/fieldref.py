"""Reference model of everything MPB derives from one eigenstate: given the magnetic induction B on the grid, the
frequency and the material tensors, all other fields, energies, fractions and integrals follow (numpy, no FFT)."""
import numpy as np, itertools
import ref, scene, ctl

_memo = {}


def swapped_objs(sc):
    out = []
    for o in sc.objs:
        o = o.replace("epsilon-diag", "@@e-diag").replace("epsilon-offdiag", "@@e-off").replace("(epsilon ", "(@@e ")
        o = o.replace("mu-diag", "epsilon-diag").replace("mu-offdiag", "epsilon-offdiag").replace("(mu ", "(epsilon ")
        o = o.replace("@@e-diag", "mu-diag").replace("@@e-off", "mu-offdiag").replace("(@@e ", "(mu ")
        out.append(o)
    return out


def mu_grid(sc, cfg):
    """mu^-1 on the grid: the same structure entered as a dielectric (eps <-> mu); the tensor of mu is not exported"""
    if not sc.mu:
        return None
    if (sc.name, cfg) not in _memo:
        head = ctl.lattice(sc.Rin, sc.size)
        s = head + ctl.geometry(swapped_objs(sc)) + sc.script()[len(head + ctl.geometry(sc.objs)):]
        s += "(set! num-bands 1)(init-params NO-PARITY true)(emit 'eps (map get-epsilon-inverse-tensor-point %s))" % sc.pts()
        _memo[sc.name, cfg] = scene.tensor_grid(ctl.run(cfg, s).one("eps")[0])
    return _memo[sc.name, cfg]


def mean_medium(tinv):
    """the program's mean medium at each point: the harmonic-mean eigenvalue is left out"""
    w = np.linalg.eigvalsh(tinv)
    return 2.0 / (w[:, 0] + w[:, 1])


class Model:
    """all derived quantities of states of one structure"""

    def __init__(self, sc, eps_inv, mu_inv=None):
        self.sc, self.n = sc, sc.n
        self.N = int(np.prod(sc.n))
        self.ei, self.mi = eps_inv, mu_inv
        self.Vol = abs(np.linalg.det(sc.R))
        self.F = ref.idft(sc.n)
        self.Fi = np.conj(self.F.T) / self.N
        idx = np.array(ref.indices(sc.n), float)
        n = np.array(sc.n, float)
        self.idx = idx.astype(int)
        self.frac = idx / n - np.where(n > 1, 0.5, 0.0)   # lattice coordinates of the grid points (unit cell), as MPB centres them
        self.p = self.frac * np.array(sc.ss)                # the program's lattice vectors have the length of the cell
        self.pq = (idx / n - 0.5) * np.array(sc.ss)       # the points (grid-pts ...) asks for
        self.eps_mean = mean_medium(eps_inv)
        self.mu_mean = None if mu_inv is None else mean_medium(mu_inv)

    def q(self, k):
        return ref.kpG(self.n, self.sc.kcart(k), self.sc.G)

    def h(self, b):
        return b if self.mi is None else np.einsum("nij,nj->ni", self.mi, b)

    def d(self, b, om, k):
        q = self.q(k)
        s = -1.0 / om if om != 0 else -1.0
        return s * (self.F @ np.cross(q, self.Fi @ self.h(b)))

    def e(self, d):
        return np.einsum("nij,nj->ni", self.ei, d)

    def div(self, f, k):
        return 2j * np.pi * (self.F @ np.sum(self.q(k) * (self.Fi @ f), axis=1))

    def energy(self, kind, f):
        g = self.e(f) if kind == "d" else self.h(f) if kind == "b" else f
        dens = np.real(np.conj(f) * g).sum(1)
        comp = []
        for c in range(3):
            comp += [float(np.sum(f[:, c].real * g[:, c].real)), float(np.sum(f[:, c].imag * g[:, c].imag))]
        tot = dens.sum()
        return dens, [tot * self.Vol / self.N] + [c / (tot if tot else 1) for c in comp]

    def in_eps(self, dens, lo, hi):
        return float(dens[(self.eps_mean >= lo) & (self.eps_mean <= hi)].sum() * self.Vol / self.N)

    def phase(self, k, p):
        """Bloch phase at the program's points p (rows)"""
        return np.exp(2j * np.pi * (np.asarray(p) / np.array(self.sc.ss)) @ np.asarray(k))

    def interp(self, grid, p):
        """periodic multilinear interpolation at p (program units)"""
        n = np.array(self.n)
        out = []
        for x in np.atleast_2d(p):
            r = (x / np.array(self.sc.ss) + 0.5) % 1.0
            i0 = np.floor(r * n).astype(int)
            w = r * n - i0
            v = 0
            for c in itertools.product((0, 1), repeat=3):
                ww = np.prod([w[a] if c[a] else 1 - w[a] for a in range(3)])
                if ww == 0:
                    continue
                j = (i0 + np.array(c)) % n
                v = v + ww * grid[(j[0] * n[1] + j[1]) * n[2] + j[2]]
            out.append(v)
        return np.array(out)


def cv(rows):
    """list of cvector3 rows -> complex array"""
    return np.array(rows, complex).reshape(-1, 3)
