#!/usr/bin/env python3-vt
"""C22: symmetry overlaps and dominant plane waves are those of the field.

Part "op": for every structure, k-point, band and every operation {W|w} of the alphabet (all lattice isometries and some maps that
are not; grid, half-cell, lattice and arbitrary translations), symmetric or not, the overlaps from every interface against the
integral over the grid of the solved fields.  Part "grp": on structures with a known space group every product of two operations
of the little group of k.  Part "dom": the dominant plane wave in every build and process count.  Part "refuse"."""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mpbbuild
import numpy as np
import ref, ctl, scene, fieldref, battery
from fieldref import cv
from scene import Scene, TRI, FCC

K = {1: [(0.3, 0, 0), (0, 0, 0), (0.5, 0.1, 0.2)], 2: [(0.3, 0.15, 0), (0, 0, 0), (0.5, 0.5, 0), (0.1, 0.2, 0.25)], 3: [(0.3, 0.15, 0.22), (0, 0, 0), (0.5, 0, 0.5)]}
NB = 4
b, c, s = ctl.block, ctl.cyl, ctl.sphere
GL = [b((-0.25, 0.21, 0), (0.23, 0.17, 1e20), 9.0), b((0.25, -0.21, 0), (0.23, 0.17, 1e20), 9.0)]
# structures with their space groups: generators (W, w) and k-points
I3 = np.eye(3, dtype=int)
MZ, MX, MY = np.diag([1, 1, -1]), np.diag([-1, 1, 1]), np.diag([1, -1, 1])
C4 = np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]])
SW = np.array([[0, 1, 0], [1, 0, 0], [0, 0, 1]])
CYC = np.array([[0, 0, 1], [1, 0, 0], [0, 1, 0]])
C6 = np.array([[1, -1, 0], [1, 0, 0], [0, 0, 1]])     # found to be an isometry below, or its transpose is used
Z = (0, 0, 0)
H = 0.5


def iso(B):
    """all unimodular integer matrices with entries -1, 0, 1 that are isometries of the lattice with these basis vectors (rows)"""
    Bt = np.array(B).T
    out = []
    cols = list(itertools.product((-1, 0, 1), repeat=3))
    L = np.linalg.norm(Bt, axis=0)
    cand = [[v for v in cols if abs(np.linalg.norm(Bt @ v) - L[a]) < 1e-9] for a in range(3)]
    G = Bt.T @ Bt
    for q in itertools.product(*cand):
        W = np.array(q).T
        if abs(W.T @ G @ W - G).max() < 1e-9:
            out.append(W)
    return out


SYM = {
    "slab": (Scene("slab", None, (1, None, None), 7, [b((0, 0, 0), (0.4, 1e20, 1e20), 9.0)]), [(-I3, Z), (MZ, Z), (MY, Z), (np.array([[1, 0, 0], [0, 0, -1], [0, 1, 0]]), Z)], [Z, (H, 0, 0)]),
    "square": (Scene("square", None, (1, 1, None), 5, [c(Z, 0.23, 11.0)]), [(C4, Z), (MX, Z), (MZ, Z)], [Z, (H, H, 0), (H, 0, 0), (0.2, 0, 0), (0.2, 0.2, 0)]),
    "tri": (Scene("tri", TRI, (1, 1, None), 5, [c(Z, 0.31, 12.0)]), "all", [Z, (H, 0, 0), (1 / 3, 1 / 3, 0), (0.2, 0.2, 0)]),
    "glide": (Scene("glide", None, (1, 1, None), (6, 5, 1), GL), [(MY, (H, 0, 0)), (MZ, Z)], [Z, (0.2, 0, 0), (H, 0, 0), (0.3, H, 0)]),
    "mu": (Scene("mu", None, (1, 1, None), 5, [c(Z, 0.3, (6.0, 2.0))], mu=True), [(C4, Z), (MX, Z), (MZ, Z)], [(H, 0, 0), (0.2, 0, 0), (H, H, 0), (0.2, 0.2, 0)]),
    "cube": (Scene("cube", None, (1, 1, 1), 3, [s(Z, 0.4, 9.0)]), "all", [(H, H, H), (0.2, 0, 0), (H, 0, 0)]),
    "fcc": (Scene("fcc", FCC, (1, 1, 1), 3, [s(Z, 0.3, 11.0)]), "all", [(H, 0, 0), (H, H, H), (0.2, 0.2, 0)]),
    "rect": (Scene("rect", None, (2, 1, None), (3.5, 5, 1), [b(Z, (0.9, 0.37, 1e20), 7.0)]), [(MX, Z), (MY, Z), (MZ, Z)], [Z, (H, 0, 0), (0, H, 0)]),
    "gyro": (Scene("gyro", None, (1, 1, None), 5, [c(Z, 0.3, scene.GYRO)], herm=True), [(-I3 @ MZ, Z), (MZ, Z)], [Z, (H, 0, 0)]),
    "slabz": (Scene("slabz", None, (1, 1, 2), (3, 3, 2.5), [b(Z, (1e20, 1e20, 0.6), 12.0), c(Z, 0.25, 1.0, h="0.6")]), [(C4, Z), (MX, Z), (MZ, Z)], [(H, H, 0), (0.2, 0, 0), (0, 0, H)]),
}


def setup(tier):
    for q in ("complex", "herm", "inv", "mpi", "mpiinv"):
        mpbbuild.build(q, what=("mpb",))


def rank(n):
    return 3 if n[2] > 1 else 2 if n[1] > 1 else 1


def cases(tier):
    th = tier == "thorough"
    for sc in scene.ALL:
        for cfg in ["herm"] if sc.herm else ["complex"] + (["herm"] if th or sc.name in ("off2d", "ani3d", "mu2da") else []):
            for ki in range(len(K[rank(sc.n)])):
                yield {"id": "op-%s-%s-%d" % (sc.name, cfg, ki), "kind": "op", "scene": sc.name, "cfg": cfg, "ki": ki}
        for cfg in ("herm",) if sc.herm else ("complex", "inv", "herm", "mpi", "mpiinv"):
            if cfg in ("inv", "mpiinv") and not sc.inv or cfg[:3] == "mpi" and rank(sc.n) == 1:
                continue
            for np_ in (2, 3) + ((5, 7) if th else ()) if cfg[:3] == "mpi" else (None,):
                yield {"id": "dom-%s-%s%s" % (sc.name, cfg, np_ or ""), "kind": "dom", "scene": sc.name, "cfg": cfg, "np": np_}
    for nm in SYM:
        for ki in range(len(SYM[nm][2])):
            for cfg in ("complex", "herm") if not SYM[nm][0].herm and th else ("herm",) if SYM[nm][0].herm else ("complex",):
                yield {"id": "grp-%s-%s-%d" % (nm, cfg, ki), "kind": "grp", "name": nm, "cfg": cfg, "ki": ki}
    yield {"id": "refuse", "kind": "refuse"}


def head(sc, nb=NB):
    return sc.script() + "(set! num-bands %d)(set! tolerance 1e-12)(set! deterministic? true)(init-params NO-PARITY true)(define P %s)\n" % (nb, sc.pts())


def mat(W):
    return "(matrix3x3 %s)" % " ".join(ctl.v3([float(x) for x in W[:, j]]) for j in range(3))


FIELDS = """(emit 'f freqs)(do ((b 1 (+ b 1))) ((> b num-bands))
 (get-bfield b)(emit 'b (map get-bloch-field-point P))(get-hfield b)(emit 'h (map get-bloch-field-point P))(get-dfield b)(emit 'd (map get-bloch-field-point P))(get-efield b)(emit 'e (map get-bloch-field-point P)))
"""
OPS = """(define (cur-db type b W w) (if (eq? type 'd) (get-dfield b) (get-bfield b)) (transformed-overlap W w))
(define (ops b L) (for-each (lambda (o) (emit 'o b (compute-symmetry b (car o) (cadr o)) (cur-db 'b b (car o) (cadr o)) (cur-db 'd b (car o) (cadr o)))) L))
"""


def overlap(m, left, right, k, W, w, pseudo):
    """integral of conj(left) . (W right)({W|w}^-1 r) over the cell, Bloch phases included"""
    sc = m.sc
    Bt = sc.B.T
    Wc = Bt @ W @ np.linalg.inv(Bt)
    pt = (m.p - np.asarray(w, float)) @ np.linalg.inv(W).T
    S = np.array(sc.ss)
    n = np.array(sc.n)
    t = (pt / S + 0.5) * n
    near = np.abs(t - np.round(t)) < 1e-9
    t = np.where(near, np.round(t), t)
    i0 = np.floor(t).astype(int)
    f = t - i0
    g = 0
    for q in itertools.product((0, 1), repeat=3):
        ww = np.prod(np.where(np.array(q) == 1, f, 1 - f), axis=1)
        j = (i0 + np.array(q)) % n
        g = g + ww[:, None] * right[(j[:, 0] * n[1] + j[:, 1]) * n[2] + j[:, 2]]
    on = np.array([a is not None for a in sc.size])
    ph = np.exp(2j * np.pi * ((pt - m.p) / np.where(on, S, 1.0)) @ np.asarray(k, float))
    v = np.sum(np.sum(np.conj(left) * (g @ Wc.T), axis=1) * ph) * m.Vol / m.N
    return v * np.linalg.det(W) if pseudo else v


def fields(x, nb, m):
    out = []
    for i in range(nb):
        out.append({t: cv(x.by[t][i][0]) for t in "bhde"})
    return out


def z(a):
    return complex(*a) if isinstance(a, (list, tuple)) else complex(a)


def op(case, r):
    sc, cfg = scene.BY[case["scene"]], case["cfg"]
    k = K[rank(sc.n)][case["ki"]]
    S, n = np.array(sc.ss), np.array(sc.n)
    Ws = [W.astype(float) for W in iso(sc.B)]
    if sc.Rin is None:
        t = math.radians(35)
        Ws.append(np.array([[math.cos(t), -math.sin(t), 0], [math.sin(t), math.cos(t), 0], [0, 0, 1]]))
        Ws.append(np.array([[math.cos(t), 0, -math.sin(t)], [0, -1, 0], [math.sin(t), 0, math.cos(t)]]))
    Ws.append(np.array([[1.0, 1, 0], [0, 1, 0], [0, 0, 1]]))
    ws = [np.zeros(3), S / n, S * [0.5, 0, 0.5], S * [0.137, -0.71, 0.29], S * [1, -2, 1]]
    L = [(W, w) for W in Ws for w in ws]
    x = ctl.run(cfg, head(sc) + OPS + "(solve-kpoint %s)" % ctl.v3(k) + FIELDS + "(emit 'eps (map get-epsilon-inverse-tensor-point P))(define L (list %s))\n" % " ".join("(list %s %s)" % (mat(W), ctl.v3([float(q) for q in w])) for W, w in L)
                + "(do ((b 1 (+ b 1))) ((> b num-bands)) (ops b L))(for-each (lambda (o) (emit 's (compute-symmetries (car o) (cadr o)))) L)")
    if not x.ok():
        return r.fail("died", "%s: %s" % (case["id"], x.tail()))
    m = fieldref.Model(sc, scene.tensor_grid(x.one("eps")[0]), fieldref.mu_grid(sc, cfg))
    F = fields(x, NB, m)
    om = x.one("f")[0]
    for i in range(NB):
        F[i]["e"] = m.e(F[i]["d"])
        F[i]["h"] = m.h(F[i]["b"])
    it = iter(x.by["o"])
    for i in range(NB):
        for j, (W, w) in enumerate(L):
            bb, cs, tb, td = next(it)
            r.op(4)
            r.state(sc.name, cfg, k, i, j)
            wb = overlap(m, F[i]["h"], F[i]["b"], k, W, w, True)
            wd = overlap(m, F[i]["e"], F[i]["d"], k, W, w, False)
            tag = "%s %s k=%s band %d {%s|%s}" % (sc.name, cfg, k, i + 1, W.tolist(), w.tolist())
            # (a point on the boundary between interpolation cells is the same from both sides)
            r.close("b", z(tb), wb, 1e-7, "%s: transformed-overlap of B" % tag)
            r.close("d", z(td), wd, 1e-7 * max(1, abs(wd)), "%s: transformed-overlap of D" % tag)
            r.close("cs", z(cs), wb, 1e-7, "%s: compute-symmetry" % tag)
            r.close("all", z(x.by["s"][j][0][i]), wb, 1e-7, "%s: compute-symmetries" % tag)
            if np.abs(W - np.eye(3)).max() == 0 and j % 5 in (0, 4) and om[i] > 1e-6:
                p = sum(k[a] * w[a] / S[a] for a in range(3))
                r.close("translation", z(cs), np.exp(-2j * np.pi * p), 1e-6, "%s: of a lattice translation" % tag)
                r.close("translation-d", z(td), np.exp(-2j * np.pi * p), 1e-4, "%s: of a lattice translation (D)" % tag)
    r.trace()


def group(sc, gens):
    if gens == "all":
        return [(W, (0.0, 0, 0)) for W in iso(sc.B)]
    red = lambda w: tuple(round(float(q) % s % s, 9) % s for q, s in zip(w, sc.ss))
    key = lambda g: (tuple(g[0].ravel().tolist()), red(g[1]))
    G = {key((I3, Z)): (I3, Z)}
    todo = list(G.values())
    while todo:
        W, w = todo.pop()
        for V, v in gens:
            g = (W @ V, tuple(red(W @ np.array(v, float) + np.array(w, float))))
            if key(g) not in G:
                G[key(g)] = g
                todo.append(g)
    return list(G.values())


def same_set(sc, k, W):
    """the operation maps the plane waves of the calculation to themselves"""
    q = ref.kpG(sc.n, sc.kcart(k), sc.G)
    Wc = sc.B.T @ W @ np.linalg.inv(sc.B.T)
    key = lambda v: set(map(tuple, np.round(v, 6) + 0.0))
    return key(q) == key(q @ Wc.T)


def same_structure(sc, W, w, grids):
    """the operation maps the discretised structure to itself"""
    S, n = np.array(sc.ss), np.array(sc.n)
    idx = np.array(ref.indices(sc.n), float)
    p = (idx / n - np.where(n > 1, 0.5, 0)) * S
    t = (((p - np.array(w, float)) @ np.linalg.inv(W).T) / S + np.where(n > 1, 0.5, 0)) * n
    if np.abs(t - np.round(t)).max() > 1e-6:
        return False
    j = np.round(t).astype(int) % n
    j = (j[:, 0] * n[1] + j[:, 1]) * n[2] + j[:, 2]
    Wc = sc.B.T @ W @ np.linalg.inv(sc.B.T)
    return all(np.abs(Wc @ g[j] @ Wc.T - g).max() < 1e-9 for g in grids)


def grp(case, r):
    sc, gens, ks = SYM[case["name"]]
    k = np.array(ks[case["ki"]], float)
    # the plane waves about k on a grid of n points along an axis are symmetric if n is odd, or if n is even and k is on the boundary
    n = [1 if a is None else q + ((q % 2 == 0) != (abs(kk) == 0.5)) for a, q, kk in zip(sc.size, sc.n, k)]
    if case["name"] == "glide":
        n[0] = sc.n[0]
    if case["name"] in ("square", "mu", "tri", "slabz", "cube", "fcc"):
        n[1] = n[0]
    if case["name"] in ("cube", "fcc"):
        n[2] = n[0]
    if tuple(n) != tuple(sc.n):
        sc = Scene(sc.name, sc.Rin, sc.size, tuple(q / a for q, a in zip(n, sc.ss)), sc.objs, mu=sc.mu, herm=sc.herm)
    G = group(sc, gens)
    # little group: k in the reciprocal basis transforms by the inverse transpose (of the map in unit-cell coordinates)
    S = np.diag(sc.ss)
    x = ctl.run(case["cfg"], head(sc, 2) + "(emit 'eps (map get-epsilon-inverse-tensor-point P))")
    if not x.ok():
        return r.fail("died", "%s: %s" % (case["id"], x.tail()))
    grids = [scene.tensor_grid(x.one("eps")[0])]
    if sc.mu:
        grids.append(fieldref.mu_grid(Scene("%s-%s" % (sc.name, sc.n), sc.Rin, sc.size, sc.res, sc.objs, mu=True), case["cfg"]))
    lit = []
    on = np.array([a is not None for a in sc.size])
    for W, w in G:
        kk = np.linalg.inv(np.linalg.inv(S) @ W @ S).T @ k
        d = kk - k
        if np.abs(np.where(on, d - np.round(d), d)).max() < 1e-9 and same_set(sc, k, W) and same_structure(sc, W, w, grids):
            lit.append((W, w))
    nb = 6
    x = ctl.run(case["cfg"], head(sc, nb) + "(solve-kpoint %s)(emit 'f freqs)(for-each (lambda (o) (emit 's (map (lambda (a) a) (compute-symmetries (car o) (cadr o))))) (list %s))" % (
        ctl.v3([float(q) for q in k]), " ".join("(list %s %s)" % (mat(W), ctl.v3([float(q) for q in w])) for W, w in lit)))
    if not x.ok():
        return r.fail("died", "%s: %s" % (case["id"], x.tail()))
    om = x.one("f")[0]
    X = np.array([[z(q) for q in row[0]] for row in x.by["s"]])
    red = lambda w: tuple(round(float(q) % s, 6) % s for q, s in zip(w, sc.ss))
    index = {(tuple(W.ravel().tolist()), red(w)): i for i, (W, w) in enumerate(lit)}
    r.info["space group operations left out (not exact on the grid)"] = r.info.get("space group operations left out (not exact on the grid)", 0) + len(G) - len(lit)
    if len(lit) < 2:
        r.info["trivial"] = r.info.get("trivial", 0) + 1
    r.info["ops"] = r.info.get("ops", 0) + len(lit)
    sets, i = [], 0
    while i < nb:
        j = i + 1
        while j < nb and om[j] - om[j - 1] < 2e-6:
            j += 1
        sets.append((i, j))
        i = j
    if len(sets) > 1 or sets[-1][1] - sets[-1][0] > 1:
        sets.pop()       # (the last multiplet may be cut)
    for lo, hi in sets:
        if om[lo] < 1e-6:
            continue
        ch = X[:, lo:hi].sum(1)
        tag = "%s %s k=%s band %d-%d" % (case["name"], case["cfg"], tuple(k), lo + 1, hi)
        r.state(tag)
        if hi - lo == 1:
            for a, (W, w) in enumerate(lit):
                r.op()
                r.worst("unimodular", abs(abs(ch[a]) - 1))
                if abs(abs(ch[a]) - 1) > 1e-7:
                    r.fail("unimodular", "%s: overlap %s of {%s|%s} (an operation of the structure and k)" % (tag, ch[a], W.tolist(), w))
            for a, b_ in itertools.product(range(len(lit)), repeat=2):
                (W, w), (V, v) = lit[a], lit[b_]
                u = W @ np.array(v, float) + np.array(w, float)
                cix = index.get((tuple((W @ V).ravel().tolist()), red(u)))
                if cix is None:
                    r.fail("oracle", "%s: the little group is not closed" % tag)
                    return
                t = u - np.array(lit[cix][1], float)
                want = ch[cix] * np.exp(-2j * np.pi * sum(k[q] * t[q] / sc.ss[q] for q in range(3) if on[q]))
                r.op()
                r.worst("product", abs(ch[a] * ch[b_] - want))
                if abs(ch[a] * ch[b_] - want) > 1e-7:
                    r.fail("product", "%s: overlaps %s and %s of {%s|%s} and {%s|%s}, %s of their product" % (tag, ch[a], ch[b_], W.tolist(), w, V.tolist(), v, want))
                    return
            r.info["nondegenerate"] = r.info.get("nondegenerate", 0) + 1
        else:
            v = np.sum(np.abs(ch) ** 2) / len(lit)
            r.op()
            r.worst("norm", abs(v - round(v)))
            if abs(v - round(v)) > 1e-6 or v < 0.5:
                r.fail("norm", "%s: the characters of a degenerate set have the norm %g, not a positive integer" % (tag, v))
            r.info["degenerate"] = r.info.get("degenerate", 0) + 1
    r.trace()


DOM = """(define (cv v) (vector->list v))
(define (go k) (solve-kpoint k) (do ((b 1 (+ b 1))) ((> b num-bands)) (emit 'N (get-dominant-planewave b)) (get-bfield b) (emit 'b (map get-bloch-field-point P))))
"""


def dom(case, r):
    sc, cfg = scene.BY[case["scene"]], case["cfg"]
    ks = K[rank(sc.n)]
    nb = 5
    sct = (battery.MPI_EMIT if case["np"] else "") + head(sc, nb) + DOM + "".join("(go %s)" % ctl.v3(k) for k in ks)
    with ctl.Scratch() as d:
        x = ctl.run(cfg, sct, cwd=d, np_=case["np"])
        if x.rc != 0:
            return r.fail("died", "%s: %s" % (case["id"], x.tail()))
        procs = [x.by] if not case["np"] else []
        for i in range(case["np"] or 0):
            by = {}
            for row in battery.rows_of(os.path.join(d, "rows.%d" % i)):
                by.setdefault(row[0], []).append(row[1:])
            procs.append(by)
    eye = np.zeros((int(np.prod(sc.n)), 3, 3)) + np.eye(3)
    m = fieldref.Model(sc, eye)
    for by in procs:
        i = 0
        for k in ks:
            q = m.q(k)
            for bnd in range(nb):
                f = m.Fi @ cv(by["b"][i][0])
                got = np.real(cv([by["N"][i][0]])[0])
                a = np.sum(np.abs(f) ** 2, axis=1)
                r.op()
                r.state(sc.name, cfg, case["np"], k, bnd)
                ok = np.where(a >= a.max() * (1 - 1e-5))[0]
                if np.abs(q[ok] - got).max(axis=1).min() > 1e-9:
                    r.fail("dominant", "%s %s (%s processes) k=%s band %d: the dominant plane wave is %s; the largest Fourier coefficient is at %s" % (sc.name, cfg, case["np"] or 1, k, bnd + 1, got, q[ok].tolist()))
                if len(ok) == 1:
                    r.info["unique"] = r.info.get("unique", 0) + 1
                i += 1
    r.trace()


def refuse(case, r):
    sc = scene.BY["off2d"]
    E = [("(begin (get-efield 1) (transformed-overlap %s (vector3 0 0 0)))" % mat(I3), 0), ("(begin (get-hfield 1) (transformed-overlap %s (vector3 0 0 0)))" % mat(I3), 0),
         ("(begin (get-dfield 1) (compute-field-energy) (transformed-overlap %s (vector3 0 0 0)))" % mat(I3), 0), ("(begin (get-epsilon) (transformed-overlap %s (vector3 0 0 0)))" % mat(I3), 0),
         ("(begin (get-dfield 1) (transformed-overlap %s (vector3 0 0 0)))" % mat(2 * I3), 0), ("(compute-symmetry 1 %s (vector3 0 0 0))" % mat(0 * I3), 0),
         ("(compute-symmetry 0 %s (vector3 0 0 0))" % mat(I3), None), ("(compute-symmetry %d %s (vector3 0 0 0))" % (NB + 1, mat(I3)), None), ("(get-dominant-planewave 0)", None), ("(get-dominant-planewave %d)" % (NB + 1), None)]
    for e, want in E:
        for cfg in ("complex", "inv") if "planewave" in e else ("complex",):
            x = ctl.run(cfg, head(sc) + "(solve-kpoint (vector3 0.1 0.2 0))(emit 'v %s)" % e)
            r.op()
            r.state(cfg, e)
            if want is None:
                if x.rc == 0 and "v" in x.by:
                    r.fail("accepted", "%s: %s returns %s" % (cfg, e, x.by["v"]))
                elif not (isinstance(x.rc, int) and x.rc in (1, -6, 134)):
                    r.fail("crash", "%s: %s: status %s %s" % (cfg, e, x.rc, x.tail()))
            elif not x.ok() or z(x.one("v")[0]) != want:
                r.fail("value", "%s: %s returns %s, not zero: %s" % (cfg, e, x.by.get("v"), x.tail() if not x.ok() else ""))
    for e in ("(compute-symmetry 1 %s (vector3 0 0 0))" % mat(I3), "(transformed-overlap %s (vector3 0 0 0))" % mat(I3), "(get-dominant-planewave 1)", "(compute-symmetries %s (vector3 0 0 0))" % mat(I3)):
        # before initialisation; and in the builds that cannot do it
        x = ctl.run("complex", sc.script() + "(set! num-bands 2)(emit 'v %s)" % e)
        r.op()
        if x.rc == 0 and "transformed" not in e and "symmetries" not in e or isinstance(x.rc, int) and x.rc < 0 and x.rc != -6 or x.rc == "timeout":
            r.fail("early", "%s before init-params: status %s %s" % (e, x.rc, x.by.get("v")))
        if "planewave" in e:
            continue
        for cfg, np_ in (("inv", None), ("mpi", 2)):
            sd = scene.BY["rods2d"]
            x = ctl.run(cfg, head(sd) + "(solve-kpoint (vector3 0.1 0.2 0))(get-bfield 1)(emit 'v %s)" % e, np_=np_)
            r.op()
            r.state(cfg, e)
            if x.rc == 0 and "v" in x.by:
                v = z(x.by["v"][0][0][0]) if "symmetries" in e else z(x.by["v"][0][0])
                if abs(v - 1) > 1e-6:
                    r.fail("silent", "%s: %s returns %s" % (cfg, e, v))
    r.trace()


def run_case(case, r):
    {"op": op, "grp": grp, "dom": dom, "refuse": refuse}[case["kind"]](case, r)


if __name__ == "__main__":
    vf.Check("C22", "model_checking", cases, run_case, setup=setup,
             rule="every (structure, build, k, band, operation), every product of two operations of every little group, every (structure, build, process count, k, band) for the dominant plane wave",
             bounds="19 structures, 3-4 k, 4 bands, all lattice isometries and 1-3 other maps x 5 translations; 10 symmetric structures; 5 builds, 1-3 processes (thorough: 7)",
             assumptions=["structures on grids that the operations of the group part map to themselves", "ties of the largest Fourier coefficient within 1e-5 accept any of them"]).main()
