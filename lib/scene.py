"""Small named structures shared by the checks: a script, the grid it leads to and its lattice."""
import math, numpy as np, ctl, ref

INF = "infinity"


class Scene:
    def __init__(self, name, R, size, res, objs, mu=False, herm=False, inv=True, zsym=None, ysym=True, extra=""):
        """size entries None = no-size; inv: structure symmetric under inversion; zsym/ysym mirror symmetric"""
        self.name, self.size, self.res, self.objs = name, size, res, objs
        self.mu, self.herm, self.inv, self.extra = mu, herm, inv, extra
        self.B = np.eye(3) if R is None else np.array(R, float)
        self.Rin = R
        self.ss = [1.0 if s is None else float(s) for s in size]
        self.n = tuple(1 if s is None else max(1, int(math.ceil(res * s - 1e-9))) if not isinstance(res, (tuple, list)) else max(1, int(math.ceil(r * s - 1e-9)))
                       for s, r in zip(size, res if isinstance(res, (tuple, list)) else (res,) * 3))
        self.R = np.diag(self.ss) @ self.B / 1.0
        self.G = ref.recip(self.R)
        self.zsym = (self.n[2] == 1) if zsym is None else zsym
        self.ysym = ysym

    def script(self):
        r = self.res
        res = "(set! resolution %s)\n" % (ctl.v3(r) if isinstance(r, (tuple, list)) else ctl.num(r))
        return ctl.lattice(None if self.Rin is None else self.Rin, self.size) + ctl.geometry(self.objs) + res + self.extra

    def pts(self):
        return "(grid-pts %d %d %d %s %s %s)" % (self.n + tuple(ctl.num(x) for x in self.ss))

    def kcart(self, k):
        return np.asarray(k, float) @ self.G

    def builds(self):
        if self.herm:
            return ["herm"]
        return ["complex"] + (["inv"] if self.inv else []) + ["herm"]


def tensor_grid(rows):
    # libctl matrices are vectors of columns
    return np.array(rows, complex).reshape(-1, 3, 3).transpose(0, 2, 1)


TRI = [[math.sqrt(3) / 2, 0.5, 0], [math.sqrt(3) / 2, -0.5, 0], [0, 0, 1.0]]
FCC = [[0, 1 / math.sqrt(2), 1 / math.sqrt(2)], [1 / math.sqrt(2), 0, 1 / math.sqrt(2)], [1 / math.sqrt(2), 1 / math.sqrt(2), 0]]
ANI = {"epsilon-diag": (3.0, 5.0, 2.0), "epsilon-offdiag": (0.4, 0.2, -0.3)}
ANIXY = {"epsilon-diag": (3.0, 5.0, 2.0), "epsilon-offdiag": (0.7, 0, 0)}
GYRO = {"epsilon-diag": (4.0, 4.0, 3.0), "epsilon-offdiag": (0.5 + 0.8j, 0, 0)}
GYROF = {"epsilon-diag": (4.0, 5.0, 3.0), "epsilon-offdiag": (0.3 + 0.8j, 0.1 - 0.4j, 0.2j)}
ANIMU = {"epsilon-diag": (3.0, 4.0, 2.5), "mu-diag": (1.5, 2.0, 1.2), "mu-offdiag": (0.2, 0, 0)}

b, c, s = ctl.block, ctl.cyl, ctl.sphere
ALL = [
    Scene("slab1d", None, (1, None, None), 7, [b((0, 0, 0), (0.4, "infinity", "infinity") if False else (0.4, 1e20, 1e20), 9.0)]),
    Scene("slab1de", None, (2, None, None), 4, [b((0.13, 0, 0), (0.6, 1e20, 1e20), 5.0)], inv=False),
    Scene("vac2d", None, (1, 1, None), 3, []),
    Scene("rods2d", None, (1, 1, None), 5, [c((0, 0, 0), 0.2, 11.56)]),
    Scene("rods2de", None, (1, 1.5, None), 4, [c((0, 0, 0), 0.3, 8.0)]),
    Scene("tri2d", TRI, (1, 1, None), 5, [c((0, 0, 0), 0.3, 12.0)]),
    Scene("off2d", None, (1, 1, None), 4, [c((0.17, -0.11, 0), 0.26, 7.0), b((-0.3, 0.2, 0), (0.3, 0.2, 1), 3.0)], inv=False, ysym=False),
    Scene("ani2d", None, (1, 1, None), 5, [c((0, 0, 0), 0.32, ANIXY)], ysym=False),
    Scene("ani2df", None, (1, 1, None), 4, [b((0, 0, 0), (0.6, 0.4, 1), ANI)], zsym=False, ysym=False),
    Scene("mu2d", None, (1, 1, None), 5, [c((0, 0, 0), 0.3, (6.0, 2.0))], mu=True),
    Scene("mu2da", TRI, (1, 1, None), 4, [b((0.1, 0, 0), (0.5, 0.6, 1), ANIMU)], mu=True, inv=False, ysym=False),
    Scene("gyro2d", None, (1, 1, None), 5, [c((0, 0, 0), 0.3, GYRO)], herm=True, ysym=False),
    Scene("wg2d", None, (1, 5, None), 3, [b((0, 0, 0), (1e20, 1, 1e20), 12.0)]),
    Scene("cube3d", None, (1, 1, 1), 3, [s((0, 0, 0), 0.4, 9.0)], zsym=True),
    Scene("fcc3d", FCC, (1, 1, 1), 3, [s((0, 0, 0), 0.3, 11.0)], ysym=False),
    Scene("slabz3d", None, (1, 1, 2), 2.5, [b((0, 0, 0), (1e20, 1e20, 0.6), 12.0), c((0, 0, 0), 0.25, 1.0, h="0.6")], zsym=True),
    Scene("ani3d", None, (1, 1, 1), 3, [s((0.1, 0.05, -0.2), 0.45, ANI)], inv=False, ysym=False),
    Scene("mu3d", None, (1, 1.2, 0.9), 3, [s((0, 0, 0), 0.4, ANIMU)], mu=True, ysym=False),
    Scene("gyro3d", None, (1, 1, 1), 3, [s((0.1, 0, 0), 0.45, GYROF)], herm=True, inv=False, ysym=False),
]
BY = {x.name: x for x in ALL}
