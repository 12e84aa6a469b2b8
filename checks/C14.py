#!/usr/bin/env python3-vt
"""C14: the effective dielectric (and magnetic) tensor is the right average of the structure.

Part "obj": every ordered pair (triple) of objects of the alphabet on every lattice, material class and default material; every
pixel is classified by an independent geometric model (homogeneous / one smooth interface / more) and its stored tensor judged:
exact, the exact laminate average for the interface's normal with the right fill fraction, or the eigenvalue bounds.
Part "flat": one planar face at every offset and orientation of a lattice of directions.
Part "fun": material functions (planar and smooth): the mesh average, predicted at each mesh point.
Part "equiv": descriptions of the same structure give the same tensors, and images under symmetries the image tensors.
Part "refuse": materials that cannot be used are refused."""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mpbbuild
import numpy as np
import ctl, ref, h5
from scene import TRI, FCC

LATS = {
    "line": (np.eye(3), (1, None, None), (7, 1, 1)),
    "square": (np.eye(3), (1, 1, None), (5, 4, 1)),
    "rect": (np.eye(3), (1, 1.5, None), (4, 7, 1)),
    "tri": (np.array(TRI), (1, 1, None), (5, 6, 1)),
    "tri2": (np.array(TRI), (2, 1, None), (7, 4, 1)),
    "cubic": (np.eye(3), (1, 1, 1), (3, 4, 5)),
    "ortho": (np.eye(3), (1, 0.8, 1.3), (4, 3, 4)),
    "fcc": (np.array(FCC), (1, 1, 1), (4, 4, 4)),
}
# name: (ctl, eps, mu)
O = lambda a, b, c, x=0, y=0, z=0: np.array([[a, x, y], [np.conj(x), b, z], [np.conj(y), np.conj(z), c]], complex)


def mat(eps, mu):
    g = lambda nm, t: "(%s-diag %s) (%s-offdiag %s)" % (nm, " ".join(ctl.num(t[i, i].real) for i in range(3)), nm, " ".join(ctl.num(complex(t[i, j])) if t[i, j].imag else ctl.num(t[i, j].real) for i, j in ((0, 1), (0, 2), (1, 2))))
    if eps is None:
        return "nothing"
    return "(make medium-anisotropic %s %s)" % (g("epsilon", eps), g("mu", mu))


I3 = np.eye(3, dtype=complex)
MATS = {
    "air": ("air", I3, I3),
    "hi": ("(make medium (epsilon 12))", 12 * I3, I3),
    "lo": ("(make dielectric (index 1.5))", 2.25 * I3, I3),
    "ani": (None, O(3, 5, 2, .4, .2, -.3), I3),
    "mu": ("(make medium (epsilon 2.2) (mu 3.5))", 2.2 * I3, 3.5 * I3),
    "mua": (None, O(4, 3, 6, .5, 0, .2), O(2, 1.5, 2.5, .3, -.2, .1)),
    "gyro": (None, O(4, 5, 3, .3 + .8j, .1 - .4j, .2j), O(1.5, 2, 1.8, .2j, .1, .3 - .1j)),
    "nothing": ("nothing", None, None),
}
for _n, (_c, _e, _m) in list(MATS.items()):
    if _c is None:
        MATS[_n] = (mat(_e, _m), _e, _m)
CLS = {"iso": ("hi", "lo"), "ani": ("ani", "hi"), "mag": ("mua", "mu"), "gyro": ("gyro", "ani")}


class Obj:
    def __init__(self, kind, c, m, **p):
        self.kind, self.c, self.m, self.p = kind, c, m, p

    def ctl(self):
        c = " ".join(map(ctl.num, self.c))
        p = self.p
        m = MATS[self.m][0]
        if self.kind in ("block", "ellipsoid"):
            e = p.get("e")
            ax = "" if e is None else " ".join("(e%d %s)" % (i + 1, " ".join(map(ctl.num, e[i]))) for i in range(3))
            return "(make %s (center %s) (size %s) %s (material %s))" % (self.kind, c, " ".join(map(ctl.num, p["size"])), ax, m)
        if self.kind == "sphere":
            return "(make sphere (center %s) (radius %s) (material %s))" % (c, ctl.num(p["r"]), m)
        return "(make cylinder (center %s) (radius %s) (height %s) (axis %s) (material %s))" % (c, ctl.num(p["r"]), ctl.num(p["h"]), " ".join(map(ctl.num, p["axis"])), m)

    def frame(self, B):
        e = np.array(self.p.get("e") or np.eye(3), float) @ B       # cartesian axes
        return e / np.linalg.norm(e, axis=1)[:, None]

    def proj(self, B, x):
        """x: cartesian displacements (M,3) -> components along the (oblique) axes"""
        return x @ np.linalg.inv(self.frame(B))

    def inside(self, B, x):
        if self.kind == "block":
            return (np.abs(self.proj(B, x)) <= np.array(self.p["size"]) / 2).all(1)
        if self.kind == "ellipsoid":
            return ((self.proj(B, x) / (np.array(self.p["size"]) / 2)) ** 2).sum(1) <= 1
        if self.kind == "sphere":
            return (x ** 2).sum(1) <= self.p["r"] ** 2
        a = np.array(self.p["axis"], float) @ B
        a /= np.linalg.norm(a)
        z = x @ a
        return (np.abs(z) <= self.p["h"] / 2) & (((x - z[:, None] * a) ** 2).sum(1) <= self.p["r"] ** 2)

    def normal(self, B, x, dim):
        """cartesian normal at displacement x, and whether the surface is planar there"""
        if self.kind == "block":
            q = self.proj(B, x[None])[0]
            d = np.abs(np.abs(q) - np.array(self.p["size"]) / 2)
            i = int(np.argmin(d))
            n = np.linalg.inv(self.frame(B))[:, i]                  # gradient of component i
        elif self.kind == "ellipsoid":
            F = np.linalg.inv(self.frame(B))
            q = x @ F
            n = F @ (q / (np.array(self.p["size"]) / 2) ** 2)
        elif self.kind == "sphere":
            n = x
        else:
            a = np.array(self.p["axis"], float) @ B
            a /= np.linalg.norm(a)
            z = x @ a
            rad = x - z * a
            pr = np.linalg.norm(rad)
            n = a if abs(z) > self.p["h"] / 2 or abs(abs(z) - self.p["h"] / 2) < abs(pr - self.p["r"]) else rad
        l = np.linalg.norm(n)
        return n / l if l > 1e-9 else None

    def planes(self, B, lo, hi):
        """faces (axis, sign) of a block whose plane crosses the range of projections"""
        s = np.array(self.p["size"]) / 2
        return [(i, sg) for i in range(3) for sg in (1, -1) if lo[i] - 1e-9 <= sg * s[i] <= hi[i] + 1e-9]


def objects(lat):
    B, size, n = LATS[lat]
    d = 3 if size[2] else 2 if size[1] else 1
    big = 1e20
    if d == 1:
        return [Obj("block", (0.03, 0, 0), "A", size=(.43, big, big)), Obj("block", (.46, 0, 0), "B", size=(.22, big, big)), Obj("block", (0.1, 0, 0), "A", size=(.05, big, big)),
                Obj("block", (-.2, 0, 0), "nothing", size=(.31, big, big)), Obj("block", (.24, 0, 0), "B", size=(.9, big, big)), Obj("cyl", (0, 0, 0), "A", r=.21, h=big, axis=(0, 0, 1))]
    if d == 2:
        s = size
        return [Obj("block", (.0313, -.0521, 0), "A", size=(.53, .47, big)), Obj("block", (.46 * s[0], .41 * s[1], 0), "B", size=(.37, .52, big)),
                Obj("block", (-.1, .12, 0), "A", size=(.61, .33, big), e=((1, 1, 0), (-1, 1, 0), (0, 0, 1))), Obj("cyl", (.02, .04, 0), "A", r=.31, h=big, axis=(0, 0, 1)),
                Obj("cyl", (-.43, .37, 0), "B", r=.27, h=big, axis=(0, 0, 1)), Obj("ellipsoid", (.1, -.2, 0), "B", size=(.7, .4, big), e=((1, .3, 0), (-.4, 1, 0), (0, 0, 1))),
                Obj("cyl", (.08, .11, 0), "nothing", r=.22, h=big, axis=(0, 0, 1)), Obj("block", (-.15, -.2, 0), "nothing", size=(.4, .35, big)),
                Obj("block", (.2, .1, 0), "B", size=(big, .23, big)), Obj("sphere", (.05, -.02, 0), "A", r=.38)]
    return [Obj("block", (.0313, -.0521, .0217), "A", size=(.53, .47, .61)), Obj("block", (.46 * size[0], .41 * size[1], -.44 * size[2]), "B", size=(.37, .52, .43)),
            Obj("block", (-.1, .12, .05), "A", size=(.61, .33, .5), e=((1, 1, .2), (-1, 1, .1), (.3, -.2, 1))), Obj("sphere", (.02, .04, -.03), "A", r=.36),
            Obj("sphere", (-.43, .37, .4), "B", r=.31), Obj("ellipsoid", (.1, -.2, .07), "B", size=(.8, .5, .6), e=((1, .3, 0), (-.4, 1, .2), (0, .1, 1))),
            Obj("cyl", (.04, .02, .1), "A", r=.29, h=.55, axis=(0, 0, 1)), Obj("cyl", (.1, -.07, 0), "B", r=.21, h=1.3, axis=(1, .4, -.3)), Obj("sphere", (.08, .11, .1), "nothing", r=.27),
            Obj("block", (-.15, -.2, 0), "nothing", size=(.4, .35, 1.7))]


def kottke(parts, n):
    """the exact average of a laminate with normal n: tau^-1(<tau>)"""
    a = n / np.linalg.norm(n)
    b = np.cross(a, (1, 0, 0) if abs(a[0]) < .6 else (0, 1, 0))
    b /= np.linalg.norm(b)
    Q = np.array([a, b, np.cross(a, b)]).T

    def tau(E):
        E = Q.T @ E @ Q
        t = np.empty((3, 3), complex)
        t[0, 0] = -1 / E[0, 0]
        t[0, 1:] = E[0, 1:] / E[0, 0]
        t[1:, 0] = E[1:, 0] / E[0, 0]
        t[1:, 1:] = E[1:, 1:] - np.outer(E[1:, 0], E[0, 1:]) / E[0, 0]
        return t
    T = sum(w * tau(E) for w, E in parts)
    E = np.empty((3, 3), complex)
    E[0, 0] = -1 / T[0, 0]
    E[0, 1:] = -T[0, 1:] / T[0, 0]
    E[1:, 0] = -T[1:, 0] / T[0, 0]
    E[1:, 1:] = T[1:, 1:] - np.outer(T[1:, 0], T[0, 1:]) / T[0, 0]
    return Q @ E @ Q.T


def halfcube(a, t):
    """fraction of the cube [-1/2,1/2]^d with a.u <= t"""
    a = np.abs(np.array([x for x in a if abs(x) > 1e-12]))
    d = len(a)
    if d == 0:
        return 1.0 if t >= 0 else 0.0
    t = t + a.sum() / 2
    v = 0.0
    for s in itertools.product((0, 1), repeat=d):
        v += (-1) ** sum(s) * max(0.0, t - np.dot(a, s)) ** d
    return min(1.0, max(0.0, v / (math.factorial(d) * np.prod(a))))


class Geo:
    def __init__(self, lat, objs, default):
        self.B, self.size, self.n = LATS[lat]
        self.lat = lat
        self.dim = 3 if self.size[2] else 2 if self.size[1] else 1
        self.ss = np.array([1.0 if s is None else s for s in self.size])
        self.objs, self.default = objs, default
        self.sh = [np.array(s) * self.ss for s in itertools.product(*((-2, -1, 0, 1, 2) if i < self.dim else (0,) for i in range(3)))]

    def owner(self, p):
        """p (M,3) lattice coordinates -> index of object*len(shifts)+shift or -1"""
        out = np.full(len(p), -1)
        self.cover = np.zeros((len(self.objs), len(p)), int)
        for i in range(len(self.objs)):
            o = self.objs[i]
            for k, s in enumerate(self.sh):
                inn = o.inside(self.B, (p - np.array(o.c) - s) @ self.B)
                out[inn] = i * len(self.sh) + k
                self.cover[i] += inn
        return out

    def material(self, ow):
        if ow < 0:
            return self.default
        m = self.objs[ow // len(self.sh)].m
        return self.default if m == "nothing" else m

    def script(self, mesh=3, extra=""):
        s = ctl.lattice([list(map(float, x)) for x in self.B], self.size) + "(set! resolution %s)(set! mesh-size %d)(set! num-bands %d)(set! default-material %s)(set! geometry (list %s))%s\n" % (
            ctl.v3([float(a) / b for a, b in zip(self.n, self.ss)]), mesh, NBM, MATS[self.default][0], " ".join(o.ctl() for o in self.objs), extra)
        return s


# mu: the file has no tensor, so it is measured as the map from B to H of random states
NBM = 6
RUN = """(init-params NO-PARITY true)(emit 'ok (using-mu?))(output-epsilon)
(if (using-mu?) (begin (set! tolerance 1e6)(solve-kpoint (vector3 0.11 0.23 0.31))(randomize-fields)
  (do ((b 1 (+ b 1))) ((> b %d)) (output-bfield b)(output-hfield b))))
""" % NBM


def tens(x, pre):
    t = np.zeros((x[pre + ".xx"].size, 3, 3), complex)
    for a, b, nm in ((0, 0, "xx"), (1, 1, "yy"), (2, 2, "zz"), (0, 1, "xy"), (0, 2, "xz"), (1, 2, "yz")):
        v = x[pre + "." + nm].astype(complex).ravel()
        if pre + "." + nm + ".i" in x:
            v = v + 1j * x[pre + "." + nm + ".i"].ravel()
        t[:, a, b] = v
        t[:, b, a] = v.conj() if a != b else v
    return t


class Lab:
    """runs many structures in one process: the body of a part runs twice, first to collect the scripts, then with the results"""

    def __init__(self, cfg, body, r):
        self.cfg, self.want, self.have = cfg, {}, {}
        body(self)
        L = list(self.want)
        for i in range(0, len(L), 60):
            self.batch(L[i:i + 60])
        self.want = None
        body(self)

    def __call__(self, script):
        if self.want is not None:
            self.want[script] = 1
            return None
        return self.have[script]

    def batch(self, L):
        with ctl.Scratch() as d:
            x = ctl.run(self.cfg, "".join("%s(set! filename-prefix \"s%03d-\")%s" % (s, i, RUN) for i, s in enumerate(L)), cwd=d, timeout=60 + 20 * len(L))
            if not x.ok():
                if len(L) == 1:
                    self.have[L[0]] = x
                else:
                    for s in L:
                        self.batch([s])
                return
            for i, s in enumerate(L):
                self.have[s] = self.read(d, "s%03d-" % i, x.by["ok"][i][0])

    def read(self, d, pre, mu):
        z = h5.readall(os.path.join(d, pre + "epsilon.h5"))
        T, Ti = tens(z, "epsilon"), tens(z, "epsilon_inverse")
        if np.abs(T @ Ti - np.eye(3)).max() > 1e-9:
            raise ValueError("the epsilon tensor times its inverse is not one: %g" % np.abs(T @ Ti - np.eye(3)).max())
        if not mu:
            return [T, None]
        F = {}
        for ty in "bh":
            F[ty] = np.array([[y[c + ".r"].ravel() + 1j * y[c + ".i"].ravel() for c in "xyz"] for y in (h5.readall(os.path.join(d, "%s%s.k01.b%02d.h5" % (pre, ty, b + 1))) for b in range(NBM))])
        M = np.empty_like(T)
        for i in range(len(T)):
            b, h = F["b"][:, :, i], F["h"][:, :, i]
            mi, _, rank, _ = np.linalg.lstsq(b, h, rcond=1e-6)
            if rank < 3 or np.abs(b @ mi - h).max() > 1e-8 * np.abs(h).max():
                raise ValueError("H is not a linear function of B at grid point %d (rank %d, residual %g)" % (i, rank, np.abs(b @ mi - h).max()))
            M[i] = np.linalg.inv(mi.T)
        if np.abs(M - M.conj().transpose(0, 2, 1)).max() > 1e-7:
            raise ValueError("mu is not hermitian: %g" % np.abs(M - M.conj().transpose(0, 2, 1)).max())
        return [T, M]


def setup(tier):
    for c in ("complex", "herm"):
        mpbbuild.build(c, what=("mpb",))


DIRS = [(1, 0, 0), (0, 1, 0), (1, 1, 0), (2, -1, 0), (1, 3, 0), (0, 0, 1), (1, 0, 1), (0, -1, 1), (1, 1, 1), (2, 1, -3), (0.02, 0.01, 1), (0.5, 0.3, 0.05)]


def cases(tier):
    th = tier == "thorough"
    for lat in LATS:
        ob = objects(lat)
        for cls in CLS:
            if cls != "gyro":
                cfgs = ("complex", "herm") if th else ("complex",)
            else:
                cfgs = ("herm",)
            for cfg in cfgs:
                for i in range(len(ob)):
                    yield {"id": "obj-%s-%s-%s-%d" % (lat, cls, cfg, i), "kind": "obj", "lat": lat, "cls": cls, "cfg": cfg, "i": i, "three": th}
        for cls in CLS:
            for di in range(len(DIRS)):
                if LATS[lat][1][2] is None and DIRS[di][2] or LATS[lat][1][1] is None and DIRS[di][1]:
                    continue
                yield {"id": "flat-%s-%s-%d" % (lat, cls, di), "kind": "flat", "lat": lat, "cls": cls, "cfg": "herm" if cls == "gyro" else "complex", "dir": di}
        for cls in CLS:
            yield {"id": "fun-%s-%s" % (lat, cls), "kind": "fun", "lat": lat, "cls": cls, "cfg": "herm" if cls == "gyro" else "complex"}
            yield {"id": "equiv-%s-%s" % (lat, cls), "kind": "equiv", "lat": lat, "cls": cls, "cfg": "herm" if cls == "gyro" else "complex"}
    for cfg in ("complex", "herm"):
        yield {"id": "refuse-%s" % cfg, "kind": "refuse", "cfg": cfg}


def assign(o, cls, flip=0):
    import copy
    q = copy.copy(o)
    if o.m in "AB":
        q.m = CLS[cls]["AB".index(o.m) ^ flip]
    return q


def judge(r, tag, G, E, M, mesh=3):
    """every pixel of one run"""
    n, d = np.array(G.n), G.dim
    S = 15 if d < 3 else 9
    u1 = np.linspace(-.5, .5, S)
    un = np.array(list(itertools.product(*(u1 if i < d else (0.0,) for i in range(3)))))
    h = G.ss / n * np.array([1.0 if i < d else 0.0 for i in range(3)])
    pts = np.array([[G.ss[i] * (q[i] / n[i] - .5) if i < d else 0.0 for i in range(3)] for q in itertools.product(*map(range, n))])
    allp = (pts[:, None, :] + un[None] * h * 1.002).reshape(-1, 3)
    own = G.owner(allp).reshape(len(pts), -1)
    # (where periodic copies of one object overlap, the program may find any of them, and may fall back to the mesh average)
    multi = (G.cover.reshape(len(G.objs), len(pts), -1) > 1).any(2)
    corners = np.array(list(itertools.product(*((-.5, .5) if i < d else (0.0,) for i in range(3))))) * h
    cown = G.owner((pts[:, None, :] + np.vstack([corners, np.zeros(3)])[None]).reshape(-1, 3)).reshape(len(pts), -1)
    anymu = any(np.abs(MATS[o.m][2] - I3).max() > 0 for o in G.objs if o.m != "nothing") or np.abs(MATS[G.default][2] - I3).max() > 0
    if anymu != (M is not None):
        r.fail("using-mu", "%s: magnetic materials %s but using-mu? %s" % (tag, anymu, M is not None))
        return
    tolf = min(.01, 1.0 / mesh ** d) * 1.25 + 1e-6
    for x, p in enumerate(pts):
        ows = sorted(set(own[x].tolist()) | set(cown[x].tolist()))
        ms = sorted(set(G.material(o) for o in ows))
        for which, T in ((1, E), (2, M)):
            if T is None:
                continue
            t = T[x]
            r.op()
            nm = "%s: %s at grid point %d %s" % (tag, ("", "epsilon", "mu")[which], x, np.round(p, 4).tolist())
            es = [MATS[m][which] for m in ms]
            if len(ms) == 1:
                r.info["homogeneous"] = r.info.get("homogeneous", 0) + 1
                if not np.abs(t - es[0]).max() <= 1e-9 * 12:
                    r.fail("homogeneous", "%s, inside %s, is %s" % (nm, ms[0], show(t)))
                continue
            ev = np.concatenate([np.linalg.eigvalsh(e) for e in es])
            w = np.linalg.eigvalsh(t)
            if not (w[0] >= ev.min() - 1e-8 and w[-1] <= ev.max() + 1e-8):
                r.fail("bounds", "%s has eigenvalues %s outside those of %s (%g..%g)" % (nm, w, ms, ev.min(), ev.max()))
                continue
            if len(ows) != 2:
                r.info["several"] = r.info.get("several", 0) + 1
                continue
            # two owners: the surface between them is that of the later one, provided the other fills the rest
            a, b = ows
            if any(y >= 0 and multi[y // len(G.sh), x] for y in ows):
                continue
            o = G.objs[b // len(G.sh)]
            c = np.array(o.c) + G.sh[b % len(G.sh)]
            X = (p - c) @ G.B
            nn = o.normal(G.B, X, d)
            nn2 = None
            if o.kind == "block":
                q = o.proj(G.B, (p[None] + np.vstack([corners])) @ G.B - c @ G.B)
                pl = o.planes(G.B, q.min(0), q.max(0))
                pl = [y for y in pl if y[0] < 3]
                if len(pl) != 1:
                    r.info["edges"] = r.info.get("edges", 0) + 1
                    continue
                i, sg = pl[0]
                qc = np.abs(np.abs(o.proj(G.B, X[None])[0]) - np.array(o.p["size"]) / 2)
                if int(np.argmin(qc)) != i:
                    # (the face crossing an elongated pixel is not the one nearest to its centre)
                    r.info["other_face"] = r.info.get("other_face", 0) + 1
                    continue
                nn = np.linalg.inv(o.frame(G.B))[:, i]
                g = (h[:, None] * G.B) @ nn
                f = halfcube(g, o.p["size"][i] / 2 - sg * (X @ nn))
                exact = True
            else:
                f = float((own[x] == b).mean())
                exact = False
                if o.kind == "cyl" and (abs(X @ axis(o, G.B)) + np.abs((corners @ G.B) @ axis(o, G.B)).max() > o.p["h"] / 2 or abs(np.linalg.norm(X - (X @ axis(o, G.B)) * axis(o, G.B))) < 1e-6):
                    continue
                if nn is None:
                    continue
            if d < 3:
                # the interface is parallel to the axes without extent only for objects that are
                if d == 2 and abs(nn[2]) > 1e-9 and o.kind != "sphere":
                    continue
                if d == 2 and o.kind == "sphere":
                    nn = np.array([nn[0], nn[1], 0.0])
                if d == 1:
                    nn = np.array(G.B[0])
                    if abs(X[1]) > 1e-9:
                        continue
                if np.linalg.norm(nn) < 1e-9:
                    continue
            E1, E2 = MATS[G.material(b)][which], MATS[G.material(a)][which]
            if np.abs(E1 - E2).max() < 1e-9:
                if np.abs(t - E1).max() > 1e-8:
                    r.fail("homogeneous", "%s, between equal materials, is %s" % (nm, show(t)))
                continue
            if min(f, 1 - f) < 1.01e-2:
                continue
            nn = nn / np.linalg.norm(nn)
            inv = lambda e: 1 / (nn @ e @ nn).real
            if abs(inv(E1) - inv(E2)) < 1e-6:
                # the fill fraction from the trace instead
                fs = np.linspace(0, 1, 401)
                ff = float(fs[np.argmin([np.abs(kottke([(y, E1), (1 - y, E2)], nn) - t).max() for y in fs])])
                slack = 2e-2
            else:
                ff = (inv(t) - inv(E2)) / (inv(E1) - inv(E2))
                slack = 2e-7
            want = kottke([(ff, E1), (1 - ff, E2)], nn)
            r.info["interface"] = r.info.get("interface", 0) + 1
            r.state(tag, x, which)
            unseen = len(set(cown[x].tolist())) == 1
            if unseen and (abs(ff) < 1e-9 or abs(ff - 1) < 1e-9):
                continue
            if not np.abs(want - t).max() <= slack * 12:
                r.fail("normal", "%s is %s; the average for the normal %s of the %s is %s (fill %.4f)" % (nm, show(t), np.round(nn, 4), o.kind, show(want), f))
                continue
            e = abs(ff - f)
            lim = tolf + (0 if exact else (.08 if d < 3 else .12)) + (0.01 if slack > 1e-3 else 0)
            if exact:
                r.worst("fill_error", e)
            if not e <= lim:
                r.fail("fill", "%s: a fraction %.4f of the pixel is taken to be %s, instead of %.4f (normal %s)" % (nm, ff, G.material(b), f, np.round(nn, 3)))


def axis(o, B):
    a = np.array(o.p["axis"], float) @ B
    return a / np.linalg.norm(a)


def show(t):
    return "[%s]" % " ".join("%.5g%s" % (t[i, j].real, "%+.4gi" % t[i, j].imag if t[i, j].imag else "") for i, j in ((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)))


def obj(case, r):
    Lab(case["cfg"], lambda lab: obj_(case, r, lab), r)
    r.trace()


def obj_(case, r, lab):
    lat, cls, cfg = case["lat"], case["cls"], case["cfg"]
    ob = objects(lat)
    i = case["i"]
    lists = [[i]] + [[i, j] for j in range(len(ob)) if j != i and (case["three"] or LATS[lat][1][2] is None or (j - i) % len(ob) < 5)]
    if case["three"]:
        lists += [[i, j, k] for j in range(len(ob)) for k in range(len(ob)) if len({i, j, k}) == 3]
    for L in lists:
        df = ("air", "lo", "ani" if cls != "iso" else "hi")[sum(L) % 3]
        if cls == "mag" and sum(L) % 3 == 1:
            df = "mu"
        G = Geo(lat, [assign(ob[k], cls, (q + sum(L)) % 2) for q, k in enumerate(L)], df)
        x = lab(G.script())
        tag = "%s %s %s objects %s default %s" % (lat, cls, cfg, L, df)
        if x is None:
            continue
        if not isinstance(x, list):
            r.fail("died", "%s: %s" % (tag, x.tail()))
            continue
        judge(r, tag, G, *x)


def flat(case, r):
    Lab(case["cfg"], lambda lab: flat_(case, r, lab), r)
    r.trace()


def flat_(case, r, lab):
    lat, cls, cfg = case["lat"], case["cls"], case["cfg"]
    B, size, n = LATS[lat]
    d = 3 if size[2] else 2 if size[1] else 1
    v = np.array(DIRS[case["dir"]], float)
    # two more axes of the lattice that are not parallel to it
    e = [v]
    for a in ((0, 1, 0), (0, 0, 1), (1, 0, 0)):
        if len(e) < 3 and np.linalg.matrix_rank(np.array(e + [np.array(a, float)])) == len(e) + 1:
            e.append(np.array(a, float))
    if d < 3 and abs(np.array(e)[:, 2]).sum() and not any(tuple(y) == (0, 0, 1) for y in e):
        return
    for off in np.linspace(-.2, .2, 5):
        for mesh in (3, 12) if d < 3 else (3,):
            sz = [.47, .95 if d > 1 else 1e20, .95 if d > 2 else 1e20]
            o = Obj("block", tuple(float(off * y) * .61 for y in v / np.linalg.norm(v)), CLS[cls][0], size=tuple(sz), e=tuple(tuple(map(float, y)) for y in e))
            if d == 2:
                # keep the axis without extent infinite
                o.p["size"] = tuple(1e20 if tuple(y) == (0, 0, 1) else s for y, s in zip(e, sz))
            G = Geo(lat, [o], "lo" if cls == "iso" else CLS[cls][1])
            x = lab(G.script(mesh))
            if x is None:
                continue
            tag = "%s %s face %s offset %.3g mesh %d" % (lat, cls, DIRS[case["dir"]], off, mesh)
            if not isinstance(x, list):
                r.fail("died", "%s: %s" % (tag, x.tail()))
                continue
            judge(r, tag, G, *x, mesh=mesh)


def fun(case, r):
    Lab(case["cfg"], lambda lab: fun_(case, r, lab), r)
    r.trace()


def fun_(case, r, lab):
    """material functions: planar and smooth"""
    lat, cls, cfg = case["lat"], case["cls"], case["cfg"]
    B, size, n = LATS[lat]
    d = 3 if size[2] else 2 if size[1] else 1
    ss = [1.0 if s is None else float(s) for s in size]
    n = np.array(n)
    E1, E2 = MATS[CLS[cls][0]], MATS[CLS[cls][1]]
    iso = cls == "iso"
    orth = np.abs(B - np.eye(3)).max() == 0
    dirs = [v for v in DIRS if all(v[i] == 0 for i in range(d, 3))]
    if not iso:
        if not orth:
            return
        dirs = [v for v in dirs if sum(map(abs, v)) == 1]
    fss, ss = ss, np.array(ss)
    pts = np.array([[ss[i] * (q[i] / n[i] - .5) if i < d else 0.0 for i in range(3)] for q in itertools.product(*map(range, n))])
    h = ss / n * np.array([1.0 if i < d else 0.0 for i in range(3)])

    def wrap(p):
        q = p / ss
        q = q - np.floor(q + .5)
        q[:, d:] = 0
        return q * ss
    for v in dirs + ["smooth"]:
        for off in (.037, .113, -.171):
            for mesh in (2, 3, 4):
                if v == "smooth":
                    if off != .037 or not iso:
                        continue
                    # (periodic, well resolved)
                    f = lambda p: 4 + 1.3 * np.cos(2 * np.pi * p[:, 0] / ss[0]) + (.7 * np.sin(2 * np.pi * p[:, 1] / ss[1]) if d > 1 else 0) + (.5 * np.cos(2 * np.pi * (p[:, 2] / ss[2] - p[:, 0] / ss[0])) if d > 2 else 0)
                    fs = "(make medium (epsilon (+ 4 (* 1.3 (cos (* 6.283185307179586 (/ (vector3-x p) %r)))) %s %s)))" % (
                        fss[0], "(* 0.7 (sin (* 6.283185307179586 (/ (vector3-y p) %r))))" % fss[1] if d > 1 else "",
                        "(* 0.5 (cos (* 6.283185307179586 (- (/ (vector3-z p) %r) (/ (vector3-x p) %r)))))" % (fss[2], fss[0]) if d > 2 else "")
                    ten = lambda p: f(p)[:, None, None] * I3
                    tm = None
                else:
                    vv = np.array(v, float)
                    side = lambda p: p @ vv < off
                    fs = "(if (< (vector3-dot p %s) %r) %s %s)" % (ctl.v3(v), off, E1[0], E2[0])
                    ten = lambda p: np.where(side(p)[:, None, None], E1[1], E2[1])
                    tm = (lambda p: np.where(side(p)[:, None, None], E1[2], E2[2])) if np.abs(E1[2] - I3).max() + np.abs(E2[2] - I3).max() > 0 else None
                s = ctl.lattice([list(map(float, x)) for x in B], size) + "(set! resolution %s)(set! mesh-size %d)(set! num-bands %d)(set! force-mu? %s)(set! default-material (make material-function (material-func (lambda (p) %s))))\n" % (
                    ctl.v3([float(a) / b for a, b in zip(n, ss)]), mesh, NBM, "true" if tm else "false", fs)
                x = lab(s)
                if x is None:
                    continue
                tag = "%s %s function %s offset %g mesh %d" % (lat, cls, v, off, mesh)
                if not isinstance(x, list):
                    r.fail("died", "%s: %s" % (tag, x.tail()))
                    continue
                mm = np.array([mesh if i < d else 1 for i in range(3)])
                mp = np.array(list(itertools.product(*((np.arange(k) - (k - 1) / 2) / k for k in mm)))) * h
                co = np.array(list(itertools.product(*((-.5, .5) if i < d else (0.0,) for i in range(3))))) * h
                for T, tf, nm in ((x[0], ten, "epsilon"), (x[1], tm, "mu")):
                    if tf is None:
                        continue
                    for i, p in enumerate(pts):
                        r.op()
                        cen = tf(wrap(p[None]))[0]
                        cc = tf(wrap(p + co))
                        t = T[i]
                        w = "%s: %s at %s" % (tag, nm, np.round(p, 4).tolist())
                        if np.abs(cc - cen).max() <= 1e-6:
                            if np.abs(t - cen).max() > 1e-9 * 12:
                                r.fail("fun-homogeneous", "%s is %s instead of %s" % (w, show(t), show(cen)))
                            continue
                        ms = tf(wrap(p + mp))
                        alt = np.linalg.inv(np.mean(np.linalg.inv(ms), 0))
                        r.info["mesh_pixels"] = r.info.get("mesh_pixels", 0) + 1
                        if iso:
                            e = np.mean(ms[:, 0, 0].real)
                            hm = 1 / np.mean(1 / ms[:, 0, 0].real)
                            ev, U = np.linalg.eigh(t)
                            ok = np.abs(ev - [hm, e, e]).max() < 1e-8
                            if not ok and not np.abs(t - alt).max() < 1e-8:
                                r.fail("fun-average", "%s has eigenvalues %s; the mesh gives %g and %g" % (w, ev, hm, e))
                            elif ok and e - hm > 1e-3 and mesh > 2 and .25 <= np.mean(np.abs(ms[:, 0, 0] - ms[0, 0, 0]) < 1e-9) <= .75:
                                if v == "smooth":
                                    g = np.array([(tf(wrap((p + s_ * 1e-5 * dd)[None]))[0, 0, 0].real) * s_ for dd in np.linalg.inv(B.T)[:, :] for s_ in (1, -1)]) if False else None
                                    continue
                                # only where the plane is not also cut by the cell boundary
                                q = p + co * 1.8
                                if np.abs(wrap(q) - q).max() > 1e-9:
                                    continue
                                nc = np.linalg.inv(B) @ np.array(v, float)
                                nc /= np.linalg.norm(nc)
                                ang = math.acos(min(1.0, abs(np.vdot(U[:, 0], nc))))
                                r.worst("fun_angle", ang)
                                if ang > .8:
                                    r.fail("fun-normal", "%s: the normal is %s instead of %s" % (w, U[:, 0].round(3), nc.round(3)))
                        else:
                            a = np.array(v, float)
                            q = p + co * 1.8
                            if np.abs(wrap(q) - q).max() > 1e-9 and True:
                                # a second interface at the cell boundary, parallel to this one
                                pass
                            want = kottke([(1 / len(ms), m_) for m_ in ms], a)
                            if np.abs(t - want).max() > 1e-8 and np.abs(t - alt).max() > 1e-8:
                                r.fail("fun-laminate", "%s is %s; the mesh gives %s" % (w, show(t), show(want)))


def equiv(case, r):
    Lab(case["cfg"], lambda lab: equiv_(case, r, lab), r)
    r.trace()


def equiv_(case, r, lab):
    lat, cls, cfg = case["lat"], case["cls"], case["cfg"]
    B, size, n = LATS[lat]
    d = 3 if size[2] else 2 if size[1] else 1
    ss = np.array([1.0 if s is None else s for s in size])
    ob = [assign(o, cls) for o in objects(lat)]
    import copy

    def moved(o, s):
        q = copy.copy(o)
        q.c = tuple(a + b for a, b in zip(o.c, s))
        return q

    def get(objs, df, extra="", mesh=3):
        return lab(Geo(lat, objs, df).script(mesh, extra))

    def same(name, a, b, tol=1e-9, f=lambda t: t):
        if a is None or b is None:
            return
        r.op()
        if not isinstance(a, list) or not isinstance(b, list):
            r.fail("died", "%s %s %s: %s" % (lat, cls, name, (a if not isinstance(a, list) else b).tail()))
            return
        for q in (0, 1):
            if (a[q] is None) != (b[q] is None):
                r.fail("equiv-" + name.split()[0], "%s %s %s: magnetic in one description only" % (lat, cls, name))
            elif a[q] is not None:
                e = np.abs(f(a[q]) - b[q]).max(axis=(1, 2))
                if e.max() > tol * 12:
                    i = int(np.argmax(e))
                    r.fail("equiv-" + name.split()[0], "%s %s %s: %s tensor at grid point %d is %s instead of %s" % (lat, cls, name, ("epsilon", "mu")[q], i, show(b[q][i]), show(f(a[q])[i])))
        r.state(lat, cls, name)
    def near(o):
        """the object and its neighbouring periodic copies fill the cell as all copies do (libctl looks no further)"""
        u = np.array(list(itertools.product(*(np.linspace(-.65, .65, 27 if d < 3 else 9) if k < d else (0.0,) for k in range(3))))) * ss
        hit = [s for s in itertools.product(*((-2, -1, 0, 1, 2) if k < d else (0,) for k in range(3))) if o.inside(B, (u - np.array(o.c) - np.array(s) * ss) @ B).any()]
        return all(max(map(abs, s)) < 2 for s in hit)
    df = CLS[cls][1]
    basis = {}
    for i, o in enumerate(ob):
        one = basis[i] = get([o], "air")
        # (the same pixel integral, so to rounding)
        same("twice %d" % i, one, get([o, copy.copy(o)], "air"))
        for s in itertools.product(*((-1, 0, 1) if k < d else (0,) for k in range(3))):
            if sum(map(abs, s)) == 1 and near(moved(o, np.array(s) * ss)):
                same("period %d %s" % (i, s), one, get([moved(o, np.array(s) * ss)], "air"), 1e-6 if o.kind == "block" and not o.p.get("e") else 2e-3)
        big = Obj("block", (0, 0, 0), df, size=(1e20, 1e20, 1e20))
        if o.m != "nothing":
            same("background %d" % i, get([o], df), get([big, o], "air"), 1e-6)
        else:
            same("nothing %d" % i, get([], df), get([o], df))
        # whole grid steps: the grid rolls
        st = [(1, 0, 0), (-1, 1, 0), (0, 2, 1)][:d][i % d]
        sh = np.array([a * b / c for a, b, c in zip(st, ss, n)])
        roll = lambda t: np.roll(t.reshape(tuple(n) + (3, 3)), st, (0, 1, 2)).reshape(-1, 3, 3)
        if not any(q > 1e10 for q in list(o.p.get("size", ()))[:d]):
            same("roll %d" % i, one, get([moved(o, sh)], "air"), 2e-2, roll)
        same("center %d" % i, one, get([moved(o, sh)], "air", "(set! geometry-center %s)" % ctl.v3([float(y) for y in sh])), 2e-2, lambda t: t) if False else None
        if o.kind == "block" and o.p.get("e") is None and o.m != "nothing":
            # two halves
            for k in range(d):
                if o.p["size"][k] > 1e10:
                    continue
                a, b = copy.copy(o), copy.copy(o)
                z = np.zeros(3)
                z[k] = o.p["size"][k] / 4
                a.c, b.c = tuple(np.array(o.c) - z), tuple(np.array(o.c) + z)
                hs = list(o.p["size"])
                hs[k] /= 2
                a.p, b.p = dict(o.p, size=tuple(hs)), dict(o.p, size=tuple(hs))
                x, y = one, get([a, b], "air")
                # inside the block the cut must not be seen
                if isinstance(x, list) and isinstance(y, list):
                    e = MATS[o.m][1]
                    full = np.abs(x[0] - e).max(axis=(1, 2)) < 1e-9
                    bad = np.abs(y[0][full] - e).max(axis=(1, 2)) > 1e-8
                    if bad.any():
                        r.fail("equiv-cut", "%s %s: a block cut in two along axis %d shows the cut: %s" % (lat, cls, k, show(y[0][full][bad][0])))
                    r.op()
    # order of objects that do not overlap
    for i, j in itertools.combinations(range(len(ob)), 2):
        G = Geo(lat, [ob[i], ob[j]], "air")
        u = np.array(list(itertools.product(*(np.linspace(-.5, .5, 21) if k < d else (0.0,) for k in range(3))))) * ss
        a = Geo(lat, [ob[i]], "air").owner(u) >= 0
        b = Geo(lat, [ob[j]], "air").owner(u) >= 0
        grow = lambda m: m
        if (a & b).any():
            continue
        x, y = get([ob[i], ob[j]], "air"), get([ob[j], ob[i]], "air")
        if not isinstance(x, list) or not isinstance(y, list):
            same("order", x, y)
            continue
        # pixels that touch one of them only
        hmask = []
        for p in itertools.product(*map(range, n)):
            c = np.array([ss[k] * (p[k] / n[k] - .5) if k < d else 0.0 for k in range(3)])
            q = c + np.array(list(itertools.product(*(np.linspace(-.52, .52, 9) if k < d else (0.0,) for k in range(3))))) * ss / np.array(n)
            w = G.owner(q) // len(G.sh)
            hmask.append(not ((w == 0).any() and (w == 1).any()))
        hmask = np.array(hmask)
        same("order %d %d" % (i, j), [None if t is None else t[hmask] for t in x], [None if t is None else t[hmask] for t in y], 1e-6)
    # inversion through the origin
    for i, o in enumerate(ob):
        m = moved(o, -2 * np.array(o.c))
        idx = np.array([np.ravel_multi_index([(-a) % b for a, b in zip(p, n)], n) for p in itertools.product(*map(range, n))])
        same("inversion %d" % i, basis[i], get([m], "air"), 2e-2, lambda t: t[idx])


def refuse(case, r):
    cfg = case["cfg"]
    lat = ctl.lattice(None, (1, 1, None)) + "(set! resolution 4)(set! num-bands 1)"
    neg = "(set! geometry (list (make cylinder (center 0 0) (radius 0.3) (height infinity) (material (make medium (epsilon -3))))))"
    ani = "(set! geometry (list (make cylinder (center 0 0) (radius 0.3) (height infinity) (material (make medium-anisotropic (epsilon-diag 3 4 5) (epsilon-offdiag %s))))))"
    indef = ani.replace("3 4 5", "1 1 1") % "2 0 0"
    T = [("negative epsilon", lat + neg + "(init-params NO-PARITY true)", False), ("negative epsilon allowed", lat + neg + "(set! negative-epsilon-ok? true)(init-params NO-PARITY true)", True),
         ("indefinite tensor", lat + indef + "(init-params NO-PARITY true)", False),
         ("xz coupling with TE", lat + ani % "0 0.3 0" + "(init-params TE true)", False), ("xz coupling with TM", lat + ani % "0 0.3 0" + "(init-params TM true)", False),
         ("yz coupling with TM", lat + ani % "0 0 0.2" + "(init-params TM true)", False), ("xy coupling with TE", lat + ani % "0.3 0 0" + "(init-params TE true)", True),
         ("xz coupling", lat + ani % "0 0.3 0" + "(init-params NO-PARITY true)", True), ("imaginary coupling", lat + ani % "0.2+0.3i 0 0" + "(init-params NO-PARITY true)", cfg == "herm"),
         ("imaginary xz coupling with TM", lat + ani % "0 0+0.3i 0" + "(init-params TM true)", False)]
    for nm, s, good in T:
        x = ctl.run(cfg, s + "(emit 'end 1)")
        r.op()
        r.state(cfg, nm)
        if good and not x.ok():
            r.fail("refused", "%s: %s: %s" % (cfg, nm, x.tail()))
        if not good and (x.rc == 0 or "end" in x.by):
            r.fail("accepted", "%s: %s is accepted" % (cfg, nm))
    r.trace()


def run_case(case, r):
    {"obj": obj, "flat": flat, "fun": fun, "equiv": equiv, "refuse": refuse}[case["kind"]](case, r)


if __name__ == "__main__":
    vf.Check("C14", "model_checking", cases, run_case, setup=setup,
             rule="every pixel of every (lattice, material class, ordered object list, default material), face direction x offset x mesh, material function and pair of equivalent descriptions",
             bounds="8 lattices, 4 material classes, ordered lists of 1-2 (thorough 3) of 6-10 objects, 12 face directions x 5 offsets, grids up to 7x4 and 4x4x4",
             assumptions=["point-in-object tests and pixel volumes of curved objects come from libctl; fill fractions are judged to the tolerance the program asks for (1/mesh^d, at most 1%)"]).main()
