#!/usr/bin/env python3-vt
"""C07: equivalent k-points and equivalent descriptions of a structure give the same bands.

A master structure is a smooth tensor function on a lattice.  Every transformation of the alphabet (all signed permutations of
the axes, general rotations, reflections, scalings of length, permittivity and permeability, permittivity/permeability exchange,
grid-step and general shifts, equivalent bases, supercells at folded k, k + G, -k with the transposed tensor, time reversal)
rewrites lattice, structure, grid and k; each description is given to the real executable and its frequencies and group
velocities must be related to the master's as physics requires: exactly where the transformation maps the discretised problem
onto itself, to the convergence of the grid otherwise.
Part "bz": first-brillouin-zone and coordinate conversions on every lattice and a lattice of k-points."""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mpbbuild
import numpy as np
import ctl, ref

NB = 4
EXACT, CONV = 2e-7, 4e-4
LAT = {
    "line": (np.eye(3), (1, None, None)),
    "square": (np.eye(3), (1, 1, None)),
    "rect": (np.diag([1.0, 1.3, 1.0]), (1, 1, None)),
    "tri": (np.array([[math.sqrt(3) / 2, 0.5, 0], [math.sqrt(3) / 2, -0.5, 0], [0, 0, 1.0]]), (1, 1, None)),
    "obl": (np.array([[1.0, 0.1, 0], [0.35, 0.95, 0], [0, 0, 1.0]]), (1, 1, None)),
    "cubic": (np.eye(3), (1, 1, 1)),
    "fcc": (np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]) / math.sqrt(2), (1, 1, 1)),
    "tric": (np.array([[1.0, 0.2, -0.1], [0.25, 1.1, 0.15], [-0.2, 0.1, 0.95]]), (1, 1, 1)),
}
KS = [(0.3, 0.17, 0.0), (0.12, -0.31, 0.23), (0.5, 0.0, 0.0)]
MATS = ("iso", "ani", "mu", "gyro", "mix")


def dim(lat):
    return 3 if LAT[lat][1][2] else 2 if LAT[lat][1][1] else 1


def setup(tier):
    for c in ("complex", "inv", "herm"):
        mpbbuild.build(c, what=("mpb",))


def tensors(mat, even):
    """eps and mu tensors as affine functions of a smooth scalar c: T(c) = A + c*B"""
    I = np.eye(3)
    if mat == "iso":
        return (5 * I, 1.2 * I), None
    a = (np.array([[5, .5, -.3], [.5, 6, .2], [-.3, .2, 4.5]]), np.array([[1.0, .2, 0], [.2, .7, -.3], [0, -.3, -.8]]))
    m = (np.array([[1.9, .1, .2], [.1, 1.6, 0], [.2, 0, 2.2]]), np.array([[.25, 0, .1], [0, -.2, .05], [.1, .05, .1]]))
    if mat == "ani":
        return a, None
    if mat == "mu":
        return (5 * I, 1.2 * I), m
    if mat == "mix":
        return a, m
    g = np.array([[0, 1, -.4], [-1, 0, .6], [.4, -.6, 0]])
    return (a[0] + .5j * g, a[1] + .3j * g), None


class Desc:
    """a description: lattice rows R (basis vectors), size, grid, k (reciprocal basis), and the map from its cartesian
    coordinates to the master's: r_master = Qi r + shift; tensors are rotated by Q = Qi^-1 (lengths scaled by s)"""

    def __init__(self, lat, mat, even, n):
        self.B, self.size = LAT[lat]
        self.lat, self.mat, self.even = lat, mat, even
        self.master = self.B
        self.n = n
        self.M = np.eye(3)        # r_master = M r + t
        self.t = np.zeros(3)
        self.Q = np.eye(3)        # tensor rotation
        self.es = self.ms = 1.0
        self.swap = self.conj = False
        self.inv_ = False

    def ss(self):
        return np.array([1.0 if s is None else s for s in self.size])

    def copy(self):
        import copy
        d = copy.copy(self)
        return d

    def script(self):
        s = ctl.lattice([list(map(float, x)) for x in self.B], self.size)
        s += "(set! resolution %s)\n" % ctl.v3([float(ni) / (si or 1) for ni, si in zip(self.n, self.size)])
        e, m = tensors(self.mat, self.even)
        if self.swap:
            e, m = m, e
        rot = lambda T: None if T is None else tuple(self.Q @ x @ self.Q.T for x in T)
        e, m = rot(e), rot(m)
        if self.conj:
            e = tuple(x.T for x in e)
        e = tuple(x * self.es for x in e)
        if m is None and self.ms != 1:
            m = (np.eye(3), np.zeros((3, 3)))
        m = None if m is None else tuple(x * self.ms for x in m)
        # lattice coordinates -> cartesian -> master cartesian -> master fractional
        W = np.linalg.inv(self.master.T) @ self.M @ self.B.T
        w0 = np.linalg.inv(self.master.T) @ self.t
        d = dim(self.lat)
        f = lambda row, off: "(+ (* %r (vector3-x p)) (* %r (vector3-y p)) (* %r (vector3-z p)) %r)" % (*map(float, row), float(off))
        s += "(set! force-mu? %s)(set! mesh-size 1)(define tp 6.283185307179586)(set! default-material (make material-function (material-func (lambda (p) (let* ((u (* tp %s)) (v (* tp %s)) (w (* tp %s)) (c %s)) (make medium-anisotropic %s))))))\n" % (
            "false" if m is None else "true",
            f(W[0], w0[0]), f(W[1], w0[1]), f(W[2], w0[2]), scalar(d, self.even),
            " ".join("(%s-diag %s) (%s-offdiag %s)" % (nm, aff([x.real for x in T], [(0, 0), (1, 1), (2, 2)]), nm, aff(T, [(0, 1), (0, 2), (1, 2)])) for nm, T in (("epsilon", e), ("mu", m)) if T is not None))
        return s

    def kcart(self, k):
        return np.asarray(k) @ ref.recip(np.diag(self.ss()) @ self.B)

    def krec(self, kc):
        return np.diag(self.ss()) @ self.B @ np.asarray(kc)


def aff(T, ij):
    out = []
    for i, j in ij:
        a, b = complex(T[0][i, j]), complex(T[1][i, j])
        if a.imag or b.imag:
            out.append("(make-rectangular (+ %r (* %r c)) (+ %r (* %r c)))" % (a.real, b.real, a.imag, b.imag))
        else:
            out.append("(+ %r (* %r c))" % (a.real, b.real))
    return " ".join(out)


def scalar(d, even):
    t = "(cos u)"
    if d > 1:
        t += " (* 0.6 (cos v)) (* 0.4 (cos (- u v)))"
    if d > 2:
        t += " (* 0.5 (cos w)) (* 0.35 (cos (+ v w)))"
    if not even:
        t += " (* 0.5 (sin u))" + (" (* 0.3 (sin (+ u v)))" if d > 1 else "") + (" (* -0.3 (sin w))" if d > 2 else "")
    return "(+ %s)" % t


def rotm(axis, ang):
    a = np.asarray(axis, float) / np.linalg.norm(axis)
    K = ref.cross_mat(a)
    return np.eye(3) + math.sin(ang) * K + (1 - math.cos(ang)) * K @ K


def transforms(lat, mat, tier):
    """name -> (function(desc, kcart) -> (desc', kcart', factor on freqs, matrix on velocities), exact?)"""
    d = dim(lat)
    T = {}

    def rigid(Q):
        # the whole description rotated: same lattice indices
        def f(D, k):
            E = D.copy()
            E.B = D.B @ Q.T
            E.M = np.linalg.inv(Q)
            E.Q = Q
            return E, Q @ k, 1.0, Q
        return f
    for nm, ax, an in (("rot1", (1, 2, 3), 0.7), ("rot2", (0, 0, 1), 0.4), ("rot3", (1, 0, 0), 1.9), ("rot4", (-1, 1, 0.2), 3.0)):
        T[nm] = (rigid(rotm(ax, an)), True)
    if mat != "gyro":
        T["refl"] = (rigid(np.diag([1.0, -1, 1]) @ rotm((1, 1, 0), 0.3)), True)
        T["inv"] = (rigid(-np.eye(3)), True)

    # relabelling of the lattice vectors: permutations and signs (same cartesian structure)
    def relabel(p, sg):
        def f(D, k):
            E = D.copy()
            E.B = np.array([sg[i] * D.B[p[i]] for i in range(3)])
            E.size = tuple(D.size[p[i]] for i in range(3))
            E.n = tuple(D.n[p[i]] for i in range(3))
            return E, k, 1.0, np.eye(3)
        return f
    for p in itertools.permutations(range(3)):
        for sg in itertools.product((1, -1), repeat=3):
            if tier != "thorough" and d < 3 and any(s < 0 and LAT[lat][1][p[i]] is None for i, s in enumerate(sg)):
                continue
            T["lab%d%d%d%s" % (*p, "".join("+-"[s < 0] for s in sg))] = (relabel(p, sg), True)

    def basis(U):
        def f(D, k):
            E = D.copy()
            E.B = np.array(U, float) @ D.B
            return E, k, 1.0, np.eye(3)
        return f
    if d == 2:
        for U in ([[1, 1], [0, 1]], [[1, 0], [-1, 1]], [[1, 0], [1, 1]], [[2, 1], [1, 1]], [[0, 1], [-1, 1]]):
            V = np.eye(3)
            V[:2, :2] = U
            T["basis%s" % "".join(map(str, sum(U, [])))] = (basis(V), False)
    if d == 3:
        for U in ([[1, 1, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [-1, 0, 1]], [[1, 0, 0], [0, 1, 1], [0, 0, 1]]):
            T["basis%s" % "".join(map(str, sum(U, [])))] = (basis(U), False)

    def scale(a):
        def f(D, k):
            E = D.copy()
            E.B = D.B * a
            E.M = np.eye(3) / a
            return E, k / a, 1 / a, np.eye(3)
        return f
    for a in (0.37, 2.5):
        T["scale%g" % a] = (scale(a), True)

    def resize(a):
        # the lattice given by other size factors on shorter or longer basis vectors
        def f(D, k):
            E = D.copy()
            E.B = np.array([D.B[i] / a[i] if D.size[i] else D.B[i] for i in range(3)])
            E.size = tuple(None if s is None else s * a[i] for i, s in enumerate(D.size))
            return E, k, 1.0, np.eye(3)
        return f
    T["size1"] = (resize((2.0, 0.5, 4.0)), True)
    T["size2"] = (resize((0.25, 1.0, 2.0)), True)

    def thick(D, k):
        # an axis without size as one of one grid point and some size
        E = D.copy()
        E.size = tuple(1.7 if s is None else s for s in D.size)
        return E, k, 1.0, np.eye(3)
    if d < 3:
        T["thick"] = (thick, True)

    def esc(a, b):
        def f(D, k):
            E = D.copy()
            E.es, E.ms = a, b
            return E, k, 1 / math.sqrt(a * b), np.eye(3)
        return f
    T["eps3"] = (esc(3.1, 1.0), True)
    T["mu2"] = (esc(1.0, 2.3), True)
    T["epsmu"] = (esc(0.7, 1.9), True)
    if mat in ("mu", "mix"):
        def dual(D, k):
            E = D.copy()
            E.swap = True
            return E, k, 1.0, np.eye(3)
        T["dual"] = (dual, True)

    def shift(frac, steps):
        def f(D, k):
            E = D.copy()
            sh = np.array([s / n if steps else s for s, n in zip(frac, D.n)]) * (np.array([x is not None for x in D.size]))
            E.t = (sh * D.ss()) @ D.B
            return E, k, 1.0, np.eye(3)
        return f
    for sh in ((1, 0, 0), (0, 2, 0), (0, 0, -1), (3, -1, 2)):
        T["shift%d%d%d" % sh] = (shift(sh, True), True)
    for sh in ((0.21, 0.47, -0.13), (0.5, 0.5, 0.5)):
        T["move%g" % sh[0]] = (shift(sh, False), False)

    def addG(g):
        def f(D, k):
            G = ref.recip(np.diag(D.ss()) @ D.B)
            return D.copy(), k + np.array([x if D.size[i] else 0 for i, x in enumerate(g)]) @ G, 1.0, np.eye(3)
        return f
    for g in ((1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, 0, -1), (1, -1, 1), (-1, -1, 0)):
        if any(x and LAT[lat][1][i] for i, x in enumerate(g)):
            T["G%d%d%d" % g] = (addG(g), False)

    def neg(D, k):
        E = D.copy()
        E.conj = mat == "gyro"
        return E, -k, 1.0, -np.eye(3)
    T["neg"] = (neg, True)

    def supercell(m):
        def f(D, k):
            E = D.copy()
            mm = [m[i] if D.size[i] else 1 for i in range(3)]
            E.size = tuple(None if s is None else s * q for s, q in zip(D.size, mm))
            E.n = tuple(a * q for a, q in zip(D.n, mm))
            return E, k, 1.0, np.eye(3)
        return f
    if d < 3:
        T["super2"] = (supercell((2, 1, 1)), "sub")
        T["super13"] = (supercell((1, 3, 1)), "sub")
        T["super22"] = (supercell((2, 2, 1)), "sub")
    elif lat == "cubic":
        T["super112"] = (supercell((1, 1, 2)), "sub")
    return T


GRID = {1: ((7, 1, 1), (18, 1, 1)), 2: ((5, 5, 1), (13, 12, 1)), 3: ((3, 3, 3), (7, 7, 7))}


def cases(tier):
    for lat in LAT:
        for mat in MATS:
            for cfg in ("complex", "inv", "herm"):
                if (mat == "gyro") != (cfg == "herm") and not (tier == "thorough" and mat != "gyro"):
                    continue
                if tier != "thorough" and cfg == "inv" and mat in ("mu",):
                    continue
                even = cfg == "inv"
                names = [t for t in transforms(lat, mat, tier) if cfg != "inv" or not (t[:5] == "shift" or t == "move0.21")]
                ki = range(len(KS)) if tier == "thorough" else ((len(lat) + len(mat)) % 2, )
                for k in ki:
                    for exact in (True, False):
                        sub = [t for t in names if (transforms(lat, mat, tier)[t][1] is True) == exact]
                        for i in range(0, len(sub), 8):
                            yield {"id": "tr-%s-%s-%s-%d-%d-%d" % (lat, mat, cfg, k, exact, i), "kind": "tr", "lat": lat, "mat": mat, "cfg": cfg, "k": k, "exact": exact, "names": sub[i:i + 8]}
    for lat in list(LAT) + ["skew", "long"]:
        yield {"id": "bz-%s" % lat, "kind": "bz", "lat": lat}
    for cfg in ("complex", "inv"):
        yield {"id": "hom-%s" % cfg, "kind": "hom", "cfg": cfg}


def run(cfg, D, ks, nb):
    s = D.script() + "(set! num-bands %d)(set! tolerance 1e-11)(set! deterministic? true)(set! eigensolver-block-size 0)(init-params NO-PARITY true)\n" % nb
    for k in ks:
        s += "(randomize-fields)(solve-kpoint %s)(emit 'f freqs (map vector->list (compute-group-velocities)))\n" % ctl.v3([float(x) for x in k])
    return ctl.run(cfg, s, timeout=280)


def tr(case, r):
    lat, mat, cfg = case["lat"], case["mat"], case["cfg"]
    d = dim(lat)
    n = GRID[d][0 if case["exact"] else 1]
    if not case["exact"] and d == 3 and mat in ("mix", "mu"):
        n = (8, 8, 8)
    D = Desc(lat, mat, cfg == "inv", n)
    T = transforms(lat, mat, "thorough")
    k = np.array(KS[case["k"]])
    k = np.array([x if D.size[i] or i == 2 else 0.5 * x for i, x in enumerate(k)])
    kc = D.kcart(k)
    m = run(cfg, D, [k], NB + 1)
    if not m.ok():
        return r.fail("died", "%s master: %s" % (case["id"], m.tail()))
    f0, v0 = m.one("f")
    f0, v0 = np.array(f0), np.array(v0)
    for name in case["names"]:
        fun, exact = T[name]
        E, k2, fac, Q = fun(D, kc)
        tag = "%s %s %s k=%s, %s" % (lat, mat, cfg, KS[case["k"]], name)
        nb = NB + 1
        ratio = np.prod(E.n) / np.prod(D.n)
        if exact == "sub":
            nb = int(round((NB + 2) * ratio)) + 1
        if name == "thick":
            kp = kc @ np.linalg.inv(ref.recip(D.B))          # (components in the reciprocal basis)
            kp = np.array([q if D.size[i] else 0 for i, q in enumerate(kp)]) @ ref.recip(D.B)
            k2 = kp
        x = run(cfg, E, [E.krec(k2)], nb)
        r.op()
        if not x.ok():
            r.fail("died", "%s: %s" % (tag, x.tail()))
            continue
        f, v = x.one("f")
        f, v = np.array(f), np.array(v)
        r.state(tag)
        if name == "thick":
            # (k along the axes without extent is measured in the basis vector itself, so it is zero here)
            m2 = run(cfg, D, [D.krec(kp)], nb)
            if not m2.ok():
                return r.fail("died", "%s master: %s" % (tag, m2.tail()))
            r.close("freqs-thick", f[:NB], np.array(m2.one("f")[0])[:NB], EXACT, tag)
            continue
        if exact == "sub":
            # bands of the primitive cell at every k that folds onto this one
            G = ref.recip(np.diag(E.ss()) @ E.B)
            mm = [E.n[i] // D.n[i] for i in range(3)]
            allf = []
            for s in itertools.product(*(range(q) for q in mm)):
                kk = D.krec(k2 + np.array(s) @ G)
                kk = kk - np.round(kk) * np.array([q is not None for q in D.size])
                y = run(cfg, D, [kk], NB + 2)
                if not y.ok():
                    return r.fail("died", "%s: %s" % (tag, y.tail()))
                allf += y.one("f")[0]
                top = y.one("f")[0][-1]
            want = np.sort(allf)[:NB + 1]
            e = np.abs(f[:NB + 1] - want).max()
            r.worst("super", e / CONV)
            if not e <= 2.5 * CONV:
                r.fail("super", "%s: frequencies %s instead of %s" % (tag, f[:NB + 1], want))
            continue
        tol = EXACT if exact else CONV
        want = f0 * fac
        e = np.abs(f[:NB] - want[:NB]).max()
        r.worst("exact" if exact else "conv", e / tol)
        if not e <= tol:
            r.fail("freqs-" + name[:3], "%s: frequencies %s instead of %s" % (tag, f[:NB], want[:NB]))
            continue
        # velocities of isolated bands; where they are degenerate, the sum
        gv = (v0 @ Q.T) * (fac / np.linalg.norm(k2) * np.linalg.norm(kc) if name[:5] == "scale" else fac)
        gv = v0 @ Q.T
        if name in ("eps3", "mu2", "epsmu"):
            gv = gv * fac
        i = 0
        while i < NB:
            j = i + 1
            while j < NB + 1 and f0[j] - f0[j - 1] < 4e-3:
                j += 1
            if j <= NB:
                got, w = v[i:j].sum(0), gv[i:j].sum(0)
                t = (2e-4 if exact else 2e-2)
                if not np.abs(got - w).max() <= t:
                    r.fail("velocity-" + name[:3], "%s: velocity %s instead of %s (bands %d-%d)" % (tag, got, w, i + 1, j))
                r.worst("vel" if exact else "velconv", float(np.abs(got - w).max() / t))
            i = j
    r.trace()


def bz(case, r):
    """first-brillouin-zone on a lattice of k, and all coordinate conversions"""
    lat = case["lat"]
    if lat == "skew":
        B = np.array([[1.0, 0, 0], [2.3, 0.6, 0], [0.4, -1.7, 1.2]])
    elif lat == "long":
        B = np.array([[1.0, 0, 0], [0.1, 3.0, 0], [0.3, 0.2, 0.4]])
    else:
        B = LAT[lat][0]
    vals = (-1.7, -0.5, 0.0, 0.42, 0.77, 7.2) if os.environ.get("VERIF_TIER") != "thorough" else (-1.7, -1.0, -0.5, -0.31, 0.0, 0.42, 0.5, 0.77, 2.0, 7.2)
    ks = list(itertools.product(vals, repeat=3))
    for size in ((1, 1, 1), (2, 1.5, 0.5)):
        ss = np.array(size, float)
        s = ctl.lattice([list(map(float, x)) for x in B], size) + "(init-params NO-PARITY true)(define KS %s)\n" % ctl.klist(ks)
        s = s.replace("(init-params", "(set! resolution 1)(set! geometry '())(init-params")
        s += "(emit 'bz (map (lambda (k) (vector->list (first-brillouin-zone k))) KS))\n"
        for f in ("lattice->cartesian", "cartesian->lattice", "reciprocal->cartesian", "cartesian->reciprocal", "lattice->reciprocal", "reciprocal->lattice"):
            s += "(emit 'cv (map (lambda (k) (vector->list (%s k))) KS))\n" % f
        s += "(emit 'rt (map (lambda (k) (list (vector->list (cartesian->lattice (lattice->cartesian k))) (vector->list (cartesian->reciprocal (reciprocal->cartesian k))) (vector->list (lattice->reciprocal (reciprocal->lattice k))))) KS))\n"
        x = ctl.run("complex", s, timeout=200)
        if not x.ok():
            return r.fail("died", "%s: %s" % (case["id"], x.tail()))
        R = np.diag(ss) @ B
        G = ref.recip(R)
        out = np.array(x.one("bz")[0], float)
        K = np.array(ks)
        red = lat not in ("skew", "long", "obl") and size == (1, 1, 1)
        nbr = np.array(list(itertools.product((-1, 0, 1) if not red else (-2, -1, 0, 1, 2), repeat=3)), float)
        ln = np.linalg.norm(out @ G, axis=1)
        for i, k in enumerate(ks):
            dk = out[i] - K[i]
            if np.abs(dk - np.round(dk)).max() > 1e-9:
                r.fail("bz-equiv", "%s: first-brillouin-zone %s is %s, not an equivalent point" % (case["id"], k, out[i]))
                break
            m = np.linalg.norm((out[i] + nbr) @ G, axis=1).min()
            if ln[i] > m + 1e-9:
                r.fail("bz-min", "%s: first-brillouin-zone %s is %s of length %.9g; an equivalent point has %.9g" % (case["id"], k, out[i], ln[i], m))
                break
            r.state(lat, size, i)
            r.op()
        A = B.T                       # lattice -> cartesian (columns)
        GB = ref.recip(R).T           # reciprocal (of the cell) -> cartesian
        mats = [A, np.linalg.inv(A), GB, np.linalg.inv(GB), np.linalg.inv(GB) @ A, np.linalg.inv(A) @ GB]
        for q, (row, M) in enumerate(zip(x.by["cv"], mats)):
            r.close("conv%d" % q, np.array(row[0]), K @ M.T, 1e-9, "%s size %s conversion %d" % (lat, size, q))
        rt = np.array(x.one("rt")[0])
        for q in range(3):
            r.close("roundtrip%d" % q, rt[:, q], K, 1e-9, "%s round trip %d" % (lat, q))
    r.trace()


def hom(case, r):
    """a homogeneous medium: omega = |k+G| / sqrt(eps mu), doubly degenerate, for every lattice, medium and k"""
    cfg = case["cfg"]
    for lat in LAT:
        B, size = LAT[lat]
        n = GRID[dim(lat)][0]
        ss = np.array([1.0 if s is None else s for s in size])
        G = ref.recip(np.diag(ss) @ B)
        for eps, mu in ((1, 1), (2.25, 1), (3.0, 1.7)):
            s = ctl.lattice([list(map(float, x)) for x in B], size) + ctl.geometry([]) + "(set! resolution %s)(set! default-material (make medium (epsilon %g) (mu %g)))(set! num-bands 8)(set! tolerance 1e-10)(init-params NO-PARITY true)\n" % (
                ctl.v3([float(a) for a in n]), eps, mu)
            for k in KS + [(0.0, 0.0, 0.0), (0.5, 0.5, 0.5), (1.2, -0.7, 0.4)]:
                s += "(randomize-fields)(solve-kpoint %s)(emit 'f freqs)\n" % ctl.v3(k)
            x = ctl.run(cfg, s)
            if not x.ok():
                r.fail("died", "%s %s: %s" % (case["id"], lat, x.tail()))
                continue
            for k, (f,) in zip(KS + [(0.0, 0.0, 0.0), (0.5, 0.5, 0.5), (1.2, -0.7, 0.4)], x.by["f"]):
                q = ref.kpG(n, np.array(k) @ G, G)
                want = np.sort(np.repeat(np.linalg.norm(q, axis=1), 2))[:8] / math.sqrt(eps * mu)
                r.op()
                r.state(lat, eps, mu, k)
                r.close("homogeneous", np.array(f), want, 2e-6, "%s %s eps %g mu %g k %s" % (cfg, lat, eps, mu, k))
    r.trace()


def run_case(case, r):
    {"tr": tr, "bz": bz, "hom": hom}[case["kind"]](case, r)


vf.Check("C07", "model_checking", cases, run_case, setup=setup,
         rule="every transformation of the alphabet applied to every master structure (lattice x material class x build); distinct = (master, k, transformation)",
         bounds="8 lattices, 5 material classes, 48 relabellings of the axes and ~30 other transformations, 2 (3) k-points, 4 bands; first-brillouin-zone on 10 lattices x 2 sizes x 1000 k",
         assumptions=["transformations that do not map the truncated plane-wave set onto itself are judged to the convergence of smooth structures (4e-4)"]).main()
