#!/usr/bin/env python3-vt
"""C15: material grids interpolate, combine, differentiate and travel through files correctly.

Every arrangement (lattice, grids of every shape in blocks, spheres, skew blocks and as default material, overlapping or not, kind)
is given to the real executable; the dielectric function at every grid point, the reported gradient of every band with respect to
every grid value, the finite-difference query and saved / reloaded grids are compared with an independent interpolation (and, for the
gradients, also with finite differences of a dense eigen-decomposition)."""
import os, sys, itertools, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mpbbuild
import numpy as np
import ctl, h5, scene, fieldref
from fieldref import cv
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import C01, C23

interp = C23.interp
TRI = scene.TRI
LATS = {"line": (None, (1, None, None), (7, 1, 1)), "square": (None, (1, 1, None), (5, 5, 1)), "rect": (None, (1, 1.5, None), (4, 5, 1)), "tri": (TRI, (1, 1, None), (5, 4, 1)),
        "cubic": (None, (1, 1, 1), (3, 3, 3)), "fcc": (scene.FCC, (1, 1, 1.2), (3, 3, 4))}
KINDS = ("U-MIN", "U-PROD", "U-SUM")
PORT = '(define port (if (mpi-is-master?) (open-output-file "rows.txt") #f))(define (emit . xs) (if port (begin (write xs port) (newline port) (force-output port))))\n'


def setup(tier):
    for c in ("complex", "inv", "herm", "mpi", "mpiinv"):
        mpbbuild.build(c, what=("mpb",))


def dim(lat):
    s = LATS[lat][1]
    return 3 if s[2] else 2 if s[1] else 1


class Grid:
    """one material grid; v holds its values"""

    def __init__(self, name, shape, kind, lo=1.5, hi=8.0, seed=0, sym=False, mu=None):
        self.name, self.kind, self.lo, self.hi, self.mu = name, kind, lo, hi, mu
        self.shape = tuple(shape) + (1,) * (3 - len(shape))
        n = int(np.prod(self.shape))
        v = ((np.arange(n) * 0.6180339887 + 0.271 + 0.377 * seed) % 1.0) * 0.9 + 0.07
        v = np.round(v.reshape(self.shape), 4)
        if sym:                                                          # mirror symmetric (a grid is not periodic: the two faces of the cell must agree)
            for a in range(3):
                v = (v + np.flip(v, a)) / 2
        self.v = v

    def ctl(self):
        a, b, c = self.shape
        return ("(define %s-v (list->vector '(%s)))(define %s (make material-grid (material-grid-kind %s)(epsilon-min %s)(epsilon-max %s)%s(size (vector3 %d %d %d))"
                "(matgrid-init (lambda (x y z) (vector-ref %s-v (inexact->exact (round (+ (* %d (+ (* %d %d (+ x 0.5)) 0)) (* %d %d (+ y 0.5)) (* %d (+ z 0.5))))))))))\n") % (
            self.name, " ".join(ctl.num(x) for x in self.v.ravel()), self.name, self.kind, ctl.num(self.lo), ctl.num(self.hi),
            "(mu-min %s)(mu-max %s)" % tuple(map(ctl.num, self.mu)) if self.mu else "", a, b, c, self.name, a, b, c, b, c, c)


class Box:
    """block (axes None: along the lattice vectors) or sphere holding a grid or a constant"""

    def __init__(self, mat, center, size, axes=None, radius=None):
        self.mat, self.c, self.size, self.axes, self.radius = mat, np.array(center, float), np.array([1e20 if s is None else s for s in size], float) if size else None, axes, radius

    def ctl(self):
        m = self.mat.name if isinstance(self.mat, Grid) else "nothing" if self.mat is None else "(make dielectric (epsilon %s))" % ctl.num(self.mat)
        if self.radius:
            return "(make sphere (center %s)(radius %s)(material %s))" % (ctl.v3(self.c), ctl.num(self.radius), m)
        ax = "(e1 %s)(e2 %s)(e3 0 0 1)" % (" ".join(map(ctl.num, self.axes[0])), " ".join(map(ctl.num, self.axes[1]))) if self.axes is not None else ""
        return "(make block (center %s)(size %s)%s(material %s))" % (ctl.v3(self.c), " ".join(ctl.num(s) for s in self.size), ax, m)

    def coords(self, p, B):
        """position in the object's own coordinates (0..1 inside), and whether inside; p: lattice coordinates (unit vectors)"""
        r = p - self.c
        if self.radius:
            return 0.5 + 0.5 * r / self.radius, np.linalg.norm(r @ B, axis=1) <= self.radius
        if self.axes is not None:
            M = np.array([np.array(a, float) / np.linalg.norm(a) for a in self.axes] + [[0, 0, 1.0]])
            r = r @ np.linalg.inv(M)
        q = r / self.size
        return 0.5 + q, np.all(np.abs(q) <= 0.5, axis=1)


class Setup:
    def __init__(self, lat, objs, default, kind, sym=False):
        self.lat, self.objs, self.default = lat, objs, default
        R, self.size, self.n = LATS[lat]
        B = np.eye(3) if R is None else np.array(R, float)
        self.B = B / np.linalg.norm(B, axis=1)[:, None]
        self.d = dim(lat)
        self.ss = np.array([1.0 if s is None else s for s in self.size])
        self.on = np.array([1.0 if s is not None else 0.0 for s in self.size])
        self.grids = []
        for o in list(objs) + [Box(default, (0, 0, 0), (1, 1, 1))]:
            if isinstance(o.mat, Grid) and o.mat not in self.grids:
                self.grids.append(o.mat)
        self.sc = scene.Scene("mg-" + lat, R, self.size, 1, [])
        self.sc.n = self.n
        self.pts = (np.array(list(itertools.product(*map(range, self.n)))) / np.array(self.n) - 0.5) * self.ss * self.on

    def ctl(self, mesh):
        n, size = self.n, self.size
        return ctl.lattice(LATS[self.lat][0], size) + "(set! resolution %s)(set! mesh-size %d)\n" % (ctl.v3([float(a) / (s or 1) for a, s in zip(n, size)]), mesh) + "".join(g.ctl() for g in self.grids) + \
            "(set! default-material %s)(set! geometry (list %s))\n" % (self.default.name if isinstance(self.default, Grid) else "(make dielectric (epsilon %s))" % ctl.num(self.default), " ".join(o.ctl() for o in self.objs))

    def prep(self, p):
        """objects over the points p, topmost first, with the points' coordinates in them"""
        p = np.where(self.on > 0, (p / self.ss + 0.5) % 1.0 - 0.5, 0.0) * self.ss
        sh = [np.array(s) * self.ss for s in itertools.product(*((-1, 0, 1) if o else (0,) for o in self.on))]
        hits = []
        for o in reversed(self.objs):                                     # the last object is on top
            inside, q = np.zeros(len(p), bool), np.zeros((len(p), 3))
            for s in sh:
                c, i = o.coords(p - s, self.B)
                q[i & ~inside] = c[i & ~inside]
                inside |= i
            hits.append((o.mat, inside, np.where(q > 1, 2 - q, np.abs(q))))
        return hits + [(self.default, np.ones(len(p), bool), np.where(self.on > 0, 0.5 + p / self.ss, 0.0))]

    def at(self, p, vals=None, which="eps"):
        """epsilon at the points p (program units)"""
        if p is self.pts:
            if not hasattr(self, "_pts"):
                self._pts = self.prep(p)
            hits = self._pts
        else:
            hits = self.prep(p)
        V = {id(g): (g.v if vals is None else vals[i]) for i, g in enumerate(self.grids)}
        N = len(p)
        top = np.full(N, -1)
        for i, (m, ins, q) in enumerate(hits):
            top[(top < 0) & ins] = i
        last = len(hits) - 1
        top[np.array([hits[t][0] is None for t in top])] = last           # a hole of nothing shows the default material
        out = np.zeros(N)
        for t in set(top.tolist()):
            g, sel = hits[t][0], top == t
            if not isinstance(g, Grid):
                out[sel] = g if which == "eps" else 1.0
                continue
            acc, cnt, going = None, np.zeros(N), sel.copy()
            for m, ins, q in hits[t:]:
                now = going & ins
                if not (isinstance(m, Grid) and (m.kind, m.lo, m.hi) == (g.kind, g.lo, g.hi)):
                    going &= ~ins                                          # another material hides what lies below
                    continue
                u = np.zeros(N)
                u[now] = interp(V[id(m)], q[now])
                if acc is None:
                    acc = u.copy()
                elif g.kind == "U-MIN":
                    acc[now] = np.minimum(acc, u)[now]
                elif g.kind == "U-PROD":
                    acc[now] = (acc * u)[now]
                else:
                    acc[now] = (acc + u)[now]
                cnt[now] += 1
            if g.kind == "U-SUM":
                acc[sel] = acc[sel] / cnt[sel]
            a, b = (g.lo, g.hi) if which == "eps" else (g.mu or (1.0, 1.0))
            out[sel] = a + acc[sel] * (b - a)
        return out


def arrangements(lat, kind, sym=False):
    """name -> Setup"""
    d = dim(lat)
    cut = lambda t: tuple(t[:d])
    pad = lambda t: tuple(list(t[:d]) + [None] * (3 - d))
    ss = [1.0 if s is None else s for s in LATS[lat][1]]
    z = (0, 0, 0)
    off = [.03 * ss[0] if not sym else 0, -.047 * ss[1] if d > 1 and not sym else 0, .021 * ss[2] if d > 2 and not sym else 0]
    b1 = pad([.53 * ss[0], .62 * ss[1], .71 * ss[2]])
    b2 = pad([.83 * ss[0], .33 * ss[1], .87 * ss[2]])
    G = lambda nm, sh, s, **k: Grid(nm, cut(sh), kind, seed=s, sym=sym, **k)
    out = {}
    for i, sh in enumerate([(1, 1, 1), (4, 3, 2), (3, 5, 4), (7, 1, 2), (2, 6, 3)]):
        out["default%d" % i] = lambda sh=sh: Setup(lat, [], G("ga", sh, 0), kind)
    out["block"] = lambda: Setup(lat, [Box(G("ga", (4, 3, 3), 1), off, b1)], 2.0, kind)
    out["under"] = lambda: Setup(lat, [Box(G("ga", (3, 4, 2), 2), off, b1), Box(5.5, z, pad([.21 * ss[0], .23 * ss[1], .3 * ss[2]]))], 1.0, kind)
    out["over"] = lambda: Setup(lat, [Box(5.5, z, b2), Box(G("ga", (3, 2, 3), 3), off, b1)], 1.0, kind)
    out["two"] = lambda: Setup(lat, [Box(G("ga", (3, 4, 2), 4), off, b1), Box(G("gb", (2, 3, 4), 5), z, b2)], 1.0, kind)

    def shared():
        g = G("ga", (3, 3, 2), 6)
        return Setup(lat, [Box(g, off, b1), Box(g, z, b2)], 1.0, kind)
    out["shared"] = shared
    out["both"] = lambda: Setup(lat, [Box(G("ga", (3, 4, 2), 7), off, b1)], G("gb", (4, 3, 3), 8), kind)
    out["three"] = lambda: Setup(lat, [Box(G("ga", (3, 2, 2), 9), off, b1), Box(G("gb", (2, 3, 2), 10), z, b2)], G("gc", (4, 4, 3), 11), kind)
    out["other-range"] = lambda: Setup(lat, [Box(G("ga", (3, 2, 2), 9, hi=6.0), off, b1), Box(G("gb", (2, 3, 2), 10), z, b2)], G("gc", (4, 4, 3), 11), kind)
    out["equal"] = lambda: Setup(lat, [Box(G("ga", (3, 2, 2), 9), off, b1), Box(G("gb", (3, 2, 2), 9), z, b2)], 1.0, kind)
    out["hole"] = lambda: Setup(lat, [Box(G("ga", (3, 4, 2), 7), off, b1), Box(None, z, pad([.31 * ss[0], .43 * ss[1], .37 * ss[2]]))], G("gb", (4, 3, 3), 8), kind)
    def zero(z2):
        a, b = G("ga", (3, 4, 2), 4), G("gb", (2, 3, 4), 5)
        a.v[:] = 0                                                         # a grid of holes, to begin with
        if z2:
            b.v[1:] = 0
        return Setup(lat, [Box(a, off, b1), Box(b, z, b2)], 1.0, kind)
    out["zero"] = lambda: zero(False)
    out["zeros"] = lambda: zero(True)
    if lat in ("square", "rect", "cubic"):
        out["turned"] = lambda: Setup(lat, [Box(G("ga", (3, 4, 2), 12), off, pad([.6, .45, .7]), axes=((1, .4, 0), (-.4, 1, 0)))], 1.0, kind)
        out["skew"] = lambda: Setup(lat, [Box(G("ga", (3, 4, 2), 12), off, pad([.5, .4, .7]), axes=((1, .4, 0), (.1, 1, 0)))], 1.0, kind)
    if lat != "line":
        out["ball"] = lambda: Setup(lat, [Box(G("ga", (3, 4, 3), 13), z if sym else (.04, -.03, 0.02 if d > 2 else 0), None, radius=.37)], 1.0, kind)
    return out


def cases(tier):
    th = tier == "thorough"
    for lat in LATS:
        for kind in KINDS:
            yield {"id": "value-%s-%s" % (lat, kind), "kind": "value", "lat": lat, "gk": kind}
            names = list(arrangements(lat, kind))
            for a in names:
                for cfg in ("complex", "inv", "herm", "mpi", "mpiinv"):
                    if not th and a.startswith("default") and kind != "U-MIN":
                        continue
                    if cfg == "herm" and not th and a not in ("block", "default1"):
                        continue
                    if cfg.startswith("mpi") and (lat == "line" or not th and a not in ("three", "both", "shared", "default2", "ball")):
                        continue
                    yield {"id": "grad-%s-%s-%s-%s" % (lat, kind, a, cfg), "kind": "grad", "lat": lat, "gk": kind, "arr": a, "cfg": cfg}
        for cfg in ("complex", "inv", "mpi"):
            if cfg == "mpi" and lat == "line":
                continue
            yield {"id": "file-%s-%s" % (lat, cfg), "kind": "file", "lat": lat, "cfg": cfg}
    for kind in KINDS:
        yield {"id": "approx-%s" % kind, "kind": "approx", "gk": kind}


def run(cfg, s, np_=None, files={}, timeout=120):
    with ctl.Scratch() as d:
        for nm, sets in files.items():
            h5.write(os.path.join(d, nm), sets)
        res = ctl.run(cfg, PORT + s + "(if port (close-port port))", cwd=d, np_=np_, timeout=timeout)
        p = os.path.join(d, "rows.txt")
        for l in open(p) if os.path.exists(p) else ():
            try:
                x = ctl.sexp(l)
            except (ValueError, IndexError):
                continue
            res.by.setdefault(x[0], []).append(x[1:])
        res.h5 = {f: h5.readall(os.path.join(d, f)) for f in os.listdir(d) if f.endswith(".h5") and f not in files}
    return res


def procs(cfg, lat):
    return 2 if cfg.startswith("mpi") else None


def pts_of(S):
    return S.sc.pts()


def judge(r, tag, S, got, mesh):
    """got: epsilon tensors at the grid points"""
    n = np.array(S.n)
    mp = np.array(list(itertools.product(*((np.arange(k) - (k - 1) / 2) / k for k in (mesh if o else 1 for o in S.on))))) / n * S.ss
    co = np.array(list(itertools.product(*((-.5, .5) if o else (0.0,) for o in S.on)))) / n * S.ss
    cen = S.at(S.pts)
    ms = S.at((S.pts[:, None] + mp[None]).reshape(-1, 3)).reshape(len(S.pts), -1)
    for i in range(len(S.pts)):
        r.op()
        t = got[i]
        w = "%s: at grid point %d the inverse tensor is %s" % (tag, i, np.round(np.real(t), 6).tolist())
        if mesh == 1 or np.ptp(ms[i]) < 1e-9:
            # (the mesh of a pixel may see a single value that is not the one in its middle)
            if np.abs(t - np.eye(3) / cen[i]).max() > 1e-7 and (mesh == 1 or np.abs(t - np.eye(3) / ms[i, 0]).max() > 1e-7):
                r.fail("value", "%s instead of 1/%.6g" % (w, cen[i]))
            continue
        # the program takes the mean over its mesh unless the corners of the pixel show a single constant material
        ev = np.sort(np.linalg.eigvalsh(t))
        e, hm = ms[i].mean(), 1 / (1 / ms[i]).mean()
        if np.abs(ev - np.sort([1 / hm, 1 / e, 1 / e])).max() > 1e-7 and np.abs(ev - 1 / hm).max() > 1e-7:
            r.fail("average", "%s with eigenvalues %s; the mesh gives %.6g and %.6g" % (w, ev, 1 / hm, 1 / e))
        r.info["averaged"] = r.info.get("averaged", 0) + 1


def case_value(case, r):
    lat, kind = case["lat"], case["gk"]
    for sym, cfgs in ((False, ("complex", "herm")), (True, ("inv",))):
        for cfg in cfgs:
            s, todo = "", []
            for name, mk in arrangements(lat, kind, sym).items():
                S = mk()
                if sym and np.abs(S.at(S.pts + 1e-9) - S.at(-S.pts - 1e-9)).max() > 1e-6:
                    continue
                for mesh in (1, 2, 3) if name.startswith("default") else (1,):
                    s += S.ctl(mesh) + "(set! num-bands 1)(init-params NO-PARITY true)(emit 'eps (map get-epsilon-inverse-tensor-point %s))\n" % pts_of(S)
                    todo.append((S, mesh, "%s %s %s %s mesh %d" % (lat, kind, name, cfg, mesh)))
            res = run(cfg, s)
            if not res.ok():
                r.fail("died", "%s: %s" % (todo[len(res.by.get("eps", []))][2], res.tail()))
                continue
            for (S, mesh, tag), x in zip(todo, res.by["eps"]):
                r.state(tag)
                judge(r, tag, S, scene.tensor_grid(x[0]), mesh)
    # permeability of grids: H = B / mu at every point
    g = Grid("ga", (4, 3, 2)[:dim(lat)], kind, seed=3, mu=(1.2, 2.7))
    h = Grid("gb", (2, 3, 3)[:dim(lat)], kind, seed=4, mu=(1.2, 2.7))
    ss = [1.0 if s is None else s for s in LATS[lat][1]]
    S = Setup(lat, [Box(h, (.02, 0, 0), [.61 * ss[0]] + [.7 * x if LATS[lat][1][i] else None for i, x in ((1, ss[1]), (2, ss[2]))])], g, kind)
    s = S.ctl(1) + "(set! num-bands 2)(init-params NO-PARITY true)(randomize-fields)(set-kpoint-index 1)(emit 'eps (map get-epsilon-inverse-tensor-point %s))(get-bfield 1)(emit 'b (map get-bloch-field-point %s))(get-hfield 1)(emit 'h (map get-bloch-field-point %s))" % ((pts_of(S),) * 3)
    s = s.replace("(set-kpoint-index 1)", "(solve-kpoint (vector3 0.3 0.1 0.2))")
    res = run("complex", s)
    if not res.ok():
        r.fail("died", "%s %s mu: %s" % (lat, kind, res.tail()))
        return
    judge(r, "%s %s with mu" % (lat, kind), S, scene.tensor_grid(res.one("eps")[0]), 1)
    b, hh = cv(res.one("b")[0]), cv(res.one("h")[0])
    r.close("mu", hh * S.at(S.pts, which="mu")[:, None], b, 1e-6 * np.abs(b).max(), "%s %s: mu H vs B" % (lat, kind))
    r.trace()


GRAD = re.compile(r"(?m)^((?:, (?:[-+0-9.e]+|-?nan|-?inf))+)D-energy-components:, \d+, (\d+)")


def deps(S):
    """d epsilon(grid point) / d u for every value of every grid (central differences; exact: piecewise quadratic at most)"""
    out = []
    for gi, g in enumerate(S.grids):
        for j in range(g.v.size):
            V = [x.v.copy() for x in S.grids]
            V[gi].flat[j] += 1e-5
            a = S.at(S.pts, V)
            V[gi].flat[j] -= 2e-5
            out.append((a - S.at(S.pts, V)) / 2e-5)
    return np.array(out)


def case_grad(case, r):
    lat, kind, cfg = case["lat"], case["gk"], case["cfg"]
    sym = "inv" in cfg
    S = arrangements(lat, kind, sym)[case["arr"]]()
    if sym and np.abs(S.at(S.pts + 1e-9) - S.at(-S.pts - 1e-9)).max() > 1e-6:
        return
    if case["arr"] == "zeros" and kind == "U-MIN" or sym and case["arr"] == "equal" and kind == "U-MIN":
        return                                                            # both grids attain the minimum: no derivative
    nb = 4
    ks = [(0.3, 0.15 if S.d > 1 else 0, 0.22 if S.d > 2 else 0), (0.5, 0, 0), (0.1, 0.2, 0.4)][:2 if cfg != "complex" else 3]
    s = S.ctl(1) + "(set! num-bands %d)(set! tolerance 1e-12)(set! eigensolver-flags (+ EIGS_DEFAULT_FLAGS EIGS_FORCE_EXACT_LINMIN))(set! deterministic? true)(init-params NO-PARITY true)(define pts %s)(emit 'eps (map get-epsilon-inverse-tensor-point pts))\n" % (nb, pts_of(S))
    for ki, k in enumerate(ks):
        s += "(solve-kpoint %s)(emit 'f %d freqs)(for-each (lambda (b) (get-efield b) (emit 'e %d b (map get-bloch-field-point pts)) (print-material-grids-gradient b) (get-dfield b) (compute-field-energy)) '(%s))\n" % (ctl.v3(k), ki, ki, " ".join(str(i + 1) for i in range(nb)))
    res = run(cfg, s, procs(cfg, lat))
    tag = "%s %s %s %s" % (lat, kind, case["arr"], cfg)
    if not res.ok():
        r.fail("died", tag + ": " + res.tail())
        return
    D = deps(S)
    m = fieldref.Model(S.sc, scene.tensor_grid(res.one("eps")[0]))
    r.close("eps", np.real(m.ei[:, 0, 0]) * S.at(S.pts), np.ones(m.N), 1e-6, tag + " epsilon")
    rows = GRAD.findall(res.out)
    if len(rows) != nb * len(ks):
        r.fail("rows", "%s: %d gradients printed instead of %d: %s" % (tag, len(rows), nb * len(ks), res.out[-300:]))
        return
    fr = {x[0]: x[1] for x in res.by["f"]}
    E = {(x[0], x[1]): cv(x[2]) for x in res.by["e"]}
    it = iter(rows)
    for ki, k in enumerate(ks):
        W, wd = [], None
        for b in range(1, nb + 1):
            txt, bb = next(it)
            got = np.array([float(x) for x in txt.split(",")[1:]])
            e2 = (np.abs(E[ki, b]) ** 2).sum(1)
            want = -fr[ki][b - 1] / 2 * D @ e2 * m.Vol / m.N
            r.op()
            r.state(tag, ki, b, np.round(got, 5).tolist())
            if len(got) != len(want):
                r.fail("count", "%s: %d values reported for %d grid values" % (tag, len(got), len(want)))
                return
            r.close("gradient", got, want, 2e-5 * max(np.abs(want).max(), 1e-3), "%s k=%s band %d: reported gradient vs the field's" % (tag, k, b))
            W.append(want)
            G = got
            W[-1] = got
        # finite differences of the whole spectrum, summed over degenerate bands
        if cfg in ("complex", "inv") and case["arr"] in ("block", "three", "both", "shared", "turned", "ball", "default1"):
            w0 = np.sqrt(np.maximum(C01.spectrum(S.sc, k, m.ei, None, ()), 0))
            dl = 1e-4
            gi = 0
            step = max(1, len(D) // 6)
            sets = [s_ for s_ in [[b for b in range(nb) if abs(w0[b] - w0[a]) < 1e-5] for a in range(nb)] if abs(w0[max(s_) + 1] - w0[max(s_)]) > 1e-3 and w0[s_[0]] > 0.02]
            for j in range(0, len(D), step):
                ww = []
                for sg in (1, -1):
                    V = [x.v.copy() for x in S.grids]
                    jj = j
                    for v in V:
                        if jj < v.size:
                            v.flat[jj] += sg * dl
                            break
                        jj -= v.size
                    ww.append(np.sqrt(np.maximum(C01.spectrum(S.sc, k, np.eye(3)[None] / S.at(S.pts, V)[:, None, None], None, ()), 0)))
                for st in sets:
                    gap = min([abs(w0[st[0]] - w0[x]) for x in range(len(w0)) if x not in st])
                    if gap < 0.01:
                        continue
                    fd = sum((ww[0][x] - ww[1][x]) / (2 * dl) for x in st)
                    r.info["derivative"] = r.info.get("derivative", 0) + 1
                    r.close("derivative", sum(W[x][j] for x in st), fd, 1e-4 + 2e-5 * abs(fd), "%s k=%s bands %s value %d: reported gradient vs finite difference of the spectrum" % (tag, k, [x + 1 for x in st], j))
    r.trace()


def case_file(case, r):
    """saved grids are exact; loading resamples any file onto the grid, with supercells; later runs use the new values"""
    lat, cfg = case["lat"], case["cfg"]
    d = dim(lat)
    np_ = procs(cfg, lat)
    shapes = [(4, 3, 2)[:d], (1, 1, 1)[:d], (5, 1, 3)[:d], (2, 6, 3)[:d]]
    fsh = [(4, 3, 2)[:d], (3, 5, 2)[:d], (1, 1, 1)[:d]] + ([(6,), (2, 3)][:d - 1])
    sups = [(1, 1, 1), (2, 1, 1), (1, 2, 3), (0, 0, 0), (1.5, 1, 1)]
    files = {"f%d.h5" % i: {"data": np.round(((np.arange(int(np.prod(f))) * .618 + .2) % 1.0) * 1.2 - 0.1, 5).reshape(f)} for i, f in enumerate(fsh)}
    for si, sh in enumerate(shapes):
        g = Grid("ga", sh, "U-MIN", seed=si)
        S = Setup(lat, [], g, "U-MIN")
        mk = "(set! num-bands 1)(init-params NO-PARITY true)(emit 'eps \"%s\" (map get-epsilon-inverse-tensor-point %s))"
        s = S.ctl(1) + mk % ("start", pts_of(S)) + '(save-material-grid ga "s0")'
        ex = [("start", g.v, None)]
        for fi, f in enumerate(fsh):
            for su in sups:
                nm = "%d-%s" % (fi, su)
                s += '(load-material-grid! ga "f%d.h5" %s)(save-material-grid ga "x%d-%d")' % (fi, ctl.v3(su), fi, sups.index(su))
                v = files["f%d.h5" % fi]["data"]
                c = np.array(list(itertools.product(*[(np.arange(a) + .5) / a for a in g.shape]))) * [x if x > 0 else 1 for x in su]
                ex.append((nm, np.clip(interp(v, c % 1.0), 0, 1).reshape(g.shape), "x%d-%d.h5" % (fi, sups.index(su))))
                s += mk % (nm, pts_of(S))
        s += '(load-material-grid! ga "s0" (vector3 1 1 1))(save-material-grid ga "s1")' + mk % ("back", pts_of(S))
        ex.append(("back", g.v, "s1.h5"))
        s += '(randomize-material-grid! ga 0)(save-material-grid ga "s2")(randomize-material-grid! ga 0.3)(save-material-grid ga "s3")(randomize-material-grid! ga 5)(save-material-grid ga "s4")'
        res = run(cfg, s.replace('"s0" (vector3', '"s0.h5" (vector3'), np_, files)
        tag = "%s %s grid %s" % (lat, cfg, sh)
        if not res.ok():
            r.fail("died", tag + ": " + res.tail())
            continue
        if cfg == "inv":
            pass
        eps = {x[0]: scene.tensor_grid(x[1]) for x in res.by["eps"]}
        r.close("saved", res.h5["s0.h5"]["data"].ravel(), g.v.ravel(), 0, tag + ": saved grid")
        r.close("unchanged", res.h5["s2.h5"]["data"].ravel(), g.v.ravel(), 1e-12, tag + ": grid after noise of amplitude zero")
        for nm, lim in (("s3", .3), ("s4", 1)):
            v = res.h5[nm + ".h5"]["data"]
            if not (v.min() >= 0 and v.max() <= 1 and np.abs(v - res.h5["s2.h5"]["data"].reshape(v.shape)).max() > 0):
                r.fail("noise", "%s: values after adding noise: %s" % (tag, v.ravel()[:6]))
        for nm, v, f in ex:
            r.op()
            r.state(tag, nm)
            if f:
                x = res.h5[f]["data"]
                want = tuple(g.shape[:3 if g.shape[2] > 1 else 2 if g.shape[1] > 1 else 1])
                if x.shape != want:
                    r.fail("shape", "%s: file of shape %s instead of %s" % (tag, x.shape, want))
                r.close("loaded", x.ravel(), v.ravel(), 1e-12, "%s: grid loaded from %s" % (tag, nm))
            if cfg != "inv":
                r.close("in-force", np.real(eps[nm][:, 0, 0]), 1 / S.at(S.pts, [v]), 1e-7, "%s: inverse epsilon after %s" % (tag, nm))
    r.trace()


def case_approx(case, r):
    """the finite-difference query returns the quotient and puts everything back"""
    for lat in ("square", "tri", "cubic"):
        for a in ("block", "two", "both"):
            S = arrangements(lat, case["gk"])[a]()
            k = (0.3, 0.15, 0.22 if S.d > 2 else 0)
            du = 1e-3
            tot = sum(g.v.size for g in S.grids)
            js = sorted({0, 1, tot // 2, tot - 1})
            s = S.ctl(1) + "(set! num-bands 3)(set! tolerance 1e-12)(set! deterministic? true)(init-params NO-PARITY true)(define pts %s)\n" % pts_of(S)
            for j in js:
                for b in (1, 3):
                    s += "(emit 'q %d %d (material-grids-approx-gradient %s %d %d %s))(emit 'eps %d %d (map get-epsilon-inverse-tensor-point pts))" % (j, b, ctl.v3(k), b, j, ctl.num(du), j, b)
            res = run("complex", s)
            tag = "%s %s %s" % (lat, case["gk"], a)
            if not res.ok():
                r.fail("died", tag + ": " + res.tail())
                continue
            base = S.at(S.pts)
            w0 = np.sqrt(np.maximum(C01.spectrum(S.sc, k, np.eye(3)[None] / base[:, None, None], None, ()), 0))
            for (j, b, q), (_, _, e) in zip(res.by["q"], res.by["eps"]):
                V = [x.v.copy() for x in S.grids]
                jj = j
                for v in V:
                    if jj < v.size:
                        v.flat[jj] += du
                        break
                    jj -= v.size
                w1 = np.sqrt(np.maximum(C01.spectrum(S.sc, k, np.eye(3)[None] / S.at(S.pts, V)[:, None, None], None, ()), 0))
                r.op()
                r.state(tag, j, b)
                r.close("quotient", q, (w1[b - 1] - w0[b - 1]) / du, 2e-5, "%s value %d band %d: difference quotient" % (tag, j, b))
                r.close("restored", np.real(scene.tensor_grid(e)[:, 0, 0]), 1 / base, 1e-9, "%s value %d band %d: inverse epsilon afterwards" % (tag, j, b))
    r.trace()


def run_case(case, r):
    return globals()["case_" + case["kind"]](case, r)


if __name__ == "__main__":
    vf.Check("C15", "model_checking", cases, run_case, setup=setup, case_timeout=400, 
             rule="every grid point of every (lattice, kind, arrangement of grids, build, mesh size); every component of the gradient of every band of every arrangement, against the field's and against finite differences of the dense spectrum; every (grid, file, supercell) saved and loaded",
             bounds="6 lattices, 3 kinds, 14-17 arrangements of up to 3 grids (overlapping, shared, below and above other objects, holes, turned and skew blocks, spheres), grid shapes up to 7 x 6 x 4, 3 k-points, 4 bands, 5 builds (2 processes), 4 grids x 5 files x 5 supercells").main()
