#!/usr/bin/env python3-vt
"""C23: dielectric and permeability input files are used exactly where and how they are specified.

Every file of the alphabet (rank, grid, values, data sets) is given to the real executable with every lattice, simulation grid,
mesh size, build and set of objects; the exported tensor (for mu: the map from B to H of random states) at every grid point is
compared with an independent interpolation of the file (values at the centres of the file's cells, mirrored at the cell's faces),
or with the material of the object there.  Part "refuse": files that cannot be used."""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mpbbuild
import numpy as np
import ctl, h5
import C14

TRI = C14.TRI
LATS = {
    "line": (None, (1, None, None), (8, 1, 1)), "line2": (None, (2.5, None, None), (7, 1, 1)),
    "square": (None, (1, 1, None), (5, 4, 1)), "rect": (None, (1, 1.5, None), (4, 6, 1)), "tri": (TRI, (1, 1, None), (5, 6, 1)),
    "cubic": (None, (1, 1, 1), (3, 4, 5)), "fcc": (C14.FCC, (1, 1.2, 1), (4, 3, 4)),
}
SHAPES = [(1,), (4,), (8,), (1, 1), (3, 2), (5, 4), (4, 6), (2, 7), (1, 5), (1, 1, 1), (3, 2, 2), (5, 4, 1), (3, 4, 5), (8, 1, 1), (2, 3, 4), (1, 2, 1)]


def setup(tier):
    for c in ("complex", "herm", "inv"):
        mpbbuild.build(c, what=("mpb",))


def values(shape, lo=1.5, hi=9.0, sym=0):
    n = int(np.prod(shape))
    v = lo + (hi - lo) * ((np.arange(n) * 0.6180339887 + 0.37) % 1.0)
    v = v.reshape(shape)
    # mirror symmetric along each of the first `sym' axes (the data are not periodic: at r=0 every axis has its own value)
    for a in range(min(sym, len(shape))):
        v = (v + np.flip(v, a)) / 2
    return v


def interp(v, r):
    """r (M,3) in [0,1): multilinear, values at the cell centres, mirrored outside"""
    v = v.reshape(tuple(v.shape) + (1,) * (3 - v.ndim))
    out = 0.0
    q = r * np.array(v.shape) - 0.5
    f = np.floor(q).astype(int)
    t = q - f
    for s in itertools.product((0, 1), repeat=3):
        w = np.prod([t[:, a] if s[a] else 1 - t[:, a] for a in range(3)], axis=0)
        i = [np.clip(f[:, a] + s[a], 0, v.shape[a] - 1) for a in range(3)]
        out = out + w * v[tuple(i)]
    return out


def cases(tier):
    th = tier == "thorough"
    for lat in LATS:
        for si in range(len(SHAPES)):
            for cfg in ("complex", "herm", "inv"):
                if cfg == "herm" and not th and si % 3:
                    continue
                yield {"id": "file-%s-%d-%s" % (lat, si, cfg), "kind": "file", "lat": lat, "shape": si, "cfg": cfg}
        yield {"id": "objects-%s" % lat, "kind": "objects", "lat": lat, "cfg": "complex"}
        yield {"id": "again-%s" % lat, "kind": "again", "lat": lat, "cfg": "complex"}
    for cfg in ("complex",):
        yield {"id": "refuse-%s" % cfg, "kind": "refuse", "cfg": cfg}


class Lab(C14.Lab):
    """C14's batches, with files in the working directory"""

    def __init__(self, cfg, body, r, files):
        self.files = files
        super().__init__(cfg, body, r)

    def batch(self, L):
        with ctl.Scratch() as d:
            for nm, sets in self.files.items():
                h5.write(os.path.join(d, nm), sets)
            x = ctl.run(self.cfg, "".join("%s(set! filename-prefix \"s%03d-\")%s" % (s, i, C14.RUN) for i, s in enumerate(L)), cwd=d, timeout=60 + 20 * len(L))
            if not x.ok():
                if len(L) == 1:
                    self.have[L[0]] = x
                else:
                    for s in L:
                        self.batch([s])
                return
            for i, s in enumerate(L):
                self.have[s] = self.read(d, "s%03d-" % i, x.by["ok"][i][0])


def head(lat, mesh, eps="", mu="", objs=(), extra="", default="air"):
    R, size, n = LATS[lat]
    return ctl.lattice([list(map(float, x)) for x in R] if R is not None else None, size) + "(set! resolution %s)(set! mesh-size %d)(set! num-bands %d)(set! epsilon-input-file \"%s\")(set! mu-input-file \"%s\")(set! default-material %s)(set! geometry (list %s))%s\n" % (
        ctl.v3([float(a) / (b or 1) for a, b in zip(n, size)]), mesh, C14.NBM, eps, mu, default, " ".join(objs), extra)


def grid(lat):
    R, size, n = LATS[lat]
    d = 3 if size[2] else 2 if size[1] else 1
    return d, np.array(n), np.array([[a / b for a, b in zip(q, n)] for q in itertools.product(*map(range, n))])


def judge(r, tag, T, v, lat, mesh, skip=None):
    d, n, pts = grid(lat)
    on = np.array([1.0 if i < d else 0.0 for i in range(3)])
    wrap = lambda q: np.where(on > 0, q - np.floor(q), 0.0)
    mp = np.array(list(itertools.product(*((np.arange(k) - (k - 1) / 2) / k for k in (mesh if i < d else 1 for i in range(3)))))) / n
    co = np.array(list(itertools.product(*((-.5, .5) if i < d else (0.0,) for i in range(3))))) / n
    for i, p in enumerate(pts):
        if skip is not None and skip[i]:
            continue
        r.op()
        t = T[i]
        w = "%s: at grid point %d the tensor is %s" % (tag, i, C14.show(t))
        cen = interp(v, wrap(p[None]))[0]
        cc = interp(v, wrap(p + co))
        ms = interp(v, wrap(p + mp))
        if np.abs(cc - cen).max() <= 1e-6 or mesh == 1:
            if np.abs(t - cen * np.eye(3)).max() > 1e-7 * cen:
                # (a pixel whose corners happen to agree but whose middle does not is averaged)
                if not (mesh > 1 and np.abs(ms - cen).max() > 1e-6):
                    r.fail("value", "%s instead of %.6g" % (w, cen))
            continue
        e, hm = ms.mean(), 1 / (1 / ms).mean()
        ev = np.linalg.eigvalsh(t)
        if np.abs(ev - [hm, e, e]).max() > 1e-7 * e and np.abs(ev - hm).max() > 1e-7 * e:
            r.fail("average", "%s with eigenvalues %s; the mesh gives %.6g and %.6g" % (w, ev, hm, e))
        r.info["averaged"] = r.info.get("averaged", 0) + 1


def files(case, r):
    lat, sh, cfg = case["lat"], SHAPES[case["shape"]], case["cfg"]
    sym = grid(lat)[0] if cfg == "inv" else 0
    v, m = values(sh, sym=sym), values(sh[::-1], 1.2, 3.0, sym=sym)

    def body(lab):
        for mesh in (1, 2, 3):
            for which in ("eps", "mu", "both"):
                if which == "both" and mesh != 1:
                    continue
                x = lab(head(lat, mesh, "e.h5" if which != "mu" else "", "m.h5" if which != "eps" else "", default="air" if which == "both" else "(make medium (epsilon 2) (mu 1.5))" if which == "mu" else "(make dielectric (index 3))"))
                if x is None:
                    continue
                tag = "%s %s %s file %s mesh %d" % (lat, cfg, which, sh, mesh)
                r.state(tag)
                if not isinstance(x, list):
                    r.fail("died", "%s: %s" % (tag, x.tail()))
                    continue
                if (x[1] is None) != (which == "eps"):
                    r.fail("using-mu", "%s: using-mu? is %s" % (tag, x[1] is not None))
                    continue
                if which == "mu":
                    if np.abs(x[0] - 2 * np.eye(3)).max() > 1e-9:
                        r.fail("other", "%s: epsilon is not the default material's" % tag)
                else:
                    judge(r, tag, x[0], v, lat, mesh)
                if which != "eps":
                    judge(r, tag + " (mu)", x[1], m, lat, mesh)
    Lab(cfg, body, r, {"e.h5": {"data": v}, "m.h5": {"x": m}})
    r.trace()


def objects(case, r):
    """a file behind objects; holes made of `nothing'; objects of a magnetic material"""
    lat, cfg = case["lat"], case["cfg"]
    B, size, n = LATS[lat]
    d, n, pts = grid(lat)
    C14.LATS["_"] = (np.eye(3) if B is None else np.array(B), size, tuple(int(a) for a in n))
    v = values((5, 4, 3)[:d])
    mv = values((3, 3, 2)[:d], 1.2, 2.0)
    big = 1e20
    ss = [1.0 if s is None else s for s in size]
    blk = C14.Obj("block", (.031, -.052, .02), "A", size=(.53 * ss[0], .47 * ss[1] if d > 1 else big, .5 * ss[2] if d > 2 else big))
    hole = C14.Obj("block", (.1, .02, 0), "nothing", size=(.3 * ss[0], .9 * ss[1] if d > 1 else big, 1.7 if d > 2 else big))
    blk2 = C14.Obj("block", (-.4 * ss[0], .3 * ss[1] if d > 1 else 0, 0), "B", size=(.41 * ss[0], .5 * ss[1] if d > 1 else big, big))

    def body(lab):
        for cls in ("iso", "mag"):
            for L in ([blk], [blk, hole], [blk2, blk], [hole], [blk, blk2, hole], [hole, blk]):
                for ef, mf in (("e.h5", ""), ("", "m.h5"), ("e.h5", "m.h5")):
                    objs = [C14.assign(o, cls) for o in L]
                    G = C14.Geo("_", objs, "lo")
                    x = lab(head(lat, 3, ef, mf, [o.ctl() for o in objs], default=C14.MATS["lo"][0]))
                    if x is None:
                        continue
                    tag = "%s %s objects %s files %s %s" % (lat, cls, [o.m for o in objs], ef or "-", mf or "-")
                    r.state(tag)
                    if not isinstance(x, list):
                        r.fail("died", "%s: %s" % (tag, x.tail()))
                        continue
                    on = [1.0 if i < d else 0.0 for i in range(3)]
                    u = np.array(list(itertools.product(*(np.linspace(-.51, .51, 9) if i < d else (0.0,) for i in range(3)))))
                    P = ((pts - .5) * on * ss)[:, None, :] + u[None] * np.array(ss) / n
                    own = G.owner(P.reshape(-1, 3)).reshape(len(pts), -1)
                    mats = np.array([[None if o < 0 or objs[o // len(G.sh)].m == "nothing" else objs[o // len(G.sh)].m for o in row] for row in own], dtype=object)
                    for T, f, vv, w in ((x[0], ef, v, 1), (x[1], mf, mv, 2)):
                        if T is None:
                            continue
                        back = np.array([all(y is None for y in row) for row in mats])
                        for i in np.where(~back)[0]:
                            s = set(mats[i])
                            if len(s) == 1:
                                r.op()
                                want = C14.MATS[s.pop()][w]
                                if np.abs(T[i] - want).max() > 1e-8:
                                    r.fail("object", "%s: inside an object the tensor is %s instead of %s" % (tag, C14.show(T[i]), C14.show(want)))
                        if f:
                            judge(r, tag + " " + f, T, vv, lat, 3, ~back)
                        else:
                            want = C14.MATS["lo"][w]
                            if back.any() and np.abs(T[back] - want).max() > 1e-8:
                                r.fail("background", "%s: outside the objects the tensor is not the default material's" % tag)
    Lab(cfg, body, r, {"e.h5": {"data": v}, "m.h5": {"a": mv, "z": mv * 2}})
    r.trace()


def again(case, r):
    """an exported dielectric file (with its many data sets) read back; switching the file off again"""
    lat = case["lat"]
    B, size, n = LATS[lat]
    d, n, pts = grid(lat)
    with ctl.Scratch() as w:
        obj = "(make sphere (center 0.03 0.05 0.02) (radius 0.33) (material (make dielectric (epsilon 7))))"
        s = "(set! filename-prefix \"a-\")" + head(lat, 3, objs=[obj]) + "(init-params NO-PARITY true)(output-epsilon)"
        s += "(set! filename-prefix \"b-\")" + head(lat, 1, "a-epsilon.h5") + "(init-params NO-PARITY true)(output-epsilon)"
        s += "(set! filename-prefix \"c-\")" + head(lat, 3, objs=[obj]) + "(init-params NO-PARITY true)(output-epsilon)"
        x = ctl.run(case["cfg"], s, cwd=w)
        r.op()
        if not x.ok():
            return r.fail("died", "%s: %s" % (case["id"], x.tail()))
        A, Bt, Ct = (h5.readall(os.path.join(w, "%s-epsilon.h5" % q)) for q in "abc")
        T = C14.tens(Bt, "epsilon")
        judge(r, "%s: exported file read back" % lat, T, A["data"], lat, 1)
        if any(np.abs(A[k] - Ct[k]).max() > 0 for k in A if k in Ct and np.issubdtype(np.asarray(A[k]).dtype, np.number)) or set(A) != set(Ct):
            r.fail("off", "%s: after switching the file off the structure is not that of the objects" % lat)
        full = A["data"].reshape(-1)
        got = T[:, 0, 0].real
        if np.abs(got - full).max() > 1e-9:
            r.fail("half-pixel", "%s: with mesh-size 1 and the file's own grid the dielectric function is not the file's: the data are placed at the centres of the file's cells, half a grid step from the grid points (and from where MPB's own exported files have them)" % lat)
    r.state(lat)
    r.trace()


def refuse(case, r):
    cfg = case["cfg"]
    ok = values((4, 4))
    neg, inf, nan = ok.copy(), ok.copy(), ok.copy()
    neg[2, 1] = -30.0
    nan[1, 1] = np.nan
    T = [("good", {"data": ok}, True), ("no data set", {}, False), ("rank 4", {"data": values((2, 2, 2, 2))}, False), ("rank 5", {"data": values((1, 2, 1, 2, 1))}, False),
         ("negative", {"data": neg}, False), ("not a number", {"data": nan}, False), ("no points", {"data": np.zeros((0, 4))}, False), ("no points at the end", {"data": np.zeros((4, 0))}, False),
         ("missing", None, False), ("not HDF5", b"this is not an HDF5 file\n" * 20, False), ("empty file", b"", False)]
    for var in ("epsilon", "mu"):
        for nm, sets, good in T:
            with ctl.Scratch() as d:
                f = os.path.join(d, "f.h5")
                if isinstance(sets, bytes):
                    open(f, "wb").write(sets)
                elif sets is not None:
                    h5.write(f, sets)
                x = ctl.run(cfg, ctl.lattice(None, (1, 1, None)) + "(set! resolution 8)(set! num-bands 2)(set! mesh-size 1)(set! %s-input-file \"f.h5\")(set! k-points (list (vector3 0.1 0.2 0)))(run)(emit 'freqs freqs)" % var, cwd=d)
                r.op()
                r.state(var, nm)
                if good:
                    if not x.ok():
                        r.fail("refused", "%s: %s: %s" % (var, nm, x.tail()))
                elif x.rc == 0:
                    r.fail("accepted", "%s-input-file, %s: the run goes on: %s" % (var, nm, x.by.get("freqs")))
                elif x.rc == "timeout" or (isinstance(x.rc, int) and x.rc < 0 and x.rc != -6):
                    r.fail("crash", "%s-input-file, %s: the program crashes (%s)" % (var, nm, x.rc))
                elif x.rc == -6 and "CHECK failure" not in x.err and "check" not in x.err.lower():
                    r.fail("crash", "%s-input-file, %s: the program aborts: %s" % (var, nm, x.err[-300:]))
    r.trace()


def run_case(case, r):
    {"file": files, "objects": objects, "again": again, "refuse": refuse}[case["kind"]](case, r)


if __name__ == "__main__":
    vf.Check("C23", "model_checking", cases, run_case, setup=setup,
             rule="every grid point of every (lattice, file shape, mesh size, epsilon/mu/both, build), ordered object list with files behind, and unusable file",
             bounds="7 lattices, 16 file shapes of ranks 1-3, mesh sizes 1-3, 3 builds, 6 object lists x 3 combinations of files x 2 material classes, 11 files x 2 variables",
             assumptions=["mu is measured as the map from B to H of 6 random states"]).main()
