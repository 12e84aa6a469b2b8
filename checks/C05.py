#!/usr/bin/env python3-vt
"""C05: group velocities equal the derivative of the bands, whatever the block size, the query order and the loaded field."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mpbbuild
import numpy as np
import ref, ctl, scene, fieldref
from fieldref import cv
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import C01
from C04 import debruijn

OPT = {"default": "", "blk1": "(set! eigensolver-block-size 1)", "blk2": "(set! eigensolver-block-size 2)", "blkm2": "(set! eigensolver-block-size -2)", "blk3": "(set! eigensolver-block-size 3)",
       "nwork2": "(set! eigensolver-nwork 2)(set! eigensolver-block-size 2)"}
KS = {1: [(0.3, 0, 0), (0, 0, 0), (0.1, 0.2, 0.4), (0.45, 0, 0.1)], 2: [(0.3, 0.15, 0), (0, 0, 0), (0.2, 0, 0.3), (0.5, 0, 0), (-0.1, 0.45, 0)],
      3: [(0.3, 0.15, 0.22), (0, 0, 0), (-0.2, 0.4, 0), (0.5, 0, 0.1)]}
DIRS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0.3, -2, 0.7)]
QUERIES = {"all": "(map vector->list (compute-group-velocities))", "one": "(map (lambda (b) (vector->list (compute-1-group-velocity b))) bs)",
           "rec": "(map (lambda (b) (vector->list (compute-1-group-velocity-reciprocal b))) bs)",
           "comp": "(map compute-group-velocity-component dirs)", "comp1": "(map (lambda (d) (map (lambda (b) (compute-1-group-velocity-component d b)) bs)) dirs)",
           "dfield": "(begin (get-dfield 1) 0)", "bfield": "(begin (get-bfield %d) (compute-field-energy))", "flux": "(begin (get-poynting 1) 0)"}


def rank(n):
    return 3 if n[2] > 1 else 2 if n[1] > 1 else 1


# the operators transform 20 bands at a time
MANY = ("rods2d", "wg2d", "slabz3d", "mu2d", "mu3d", "gyro2d", "ani3d", "cube3d")
OPT["many"] = "(set! eigensolver-block-size 0)"


def setup(tier):
    for c in ("complex", "inv", "herm"):
        mpbbuild.build(c, what=("mpb",))


def cases(tier):
    for sc in scene.ALL:
        for cfg in sc.builds():
            if cfg == "herm" and not sc.herm and sc.name not in ("off2d", "mu2da", "ani3d"):
                continue
            for opt in OPT:
                if opt == "many":
                    if sc.name in MANY:
                        yield {"id": "%s-%s-many" % (sc.name, cfg), "scene": sc.name, "cfg": cfg, "opt": opt, "nb": 22, "par": "NO-PARITY"}
                    continue
                for nb in (1, 3, 4, 6) if tier == "thorough" else ((3, 5) if opt == "default" else (5,)):
                    for par in ("NO-PARITY", "EVEN-Z", "ODD-Z") if sc.zsym and (tier == "thorough" or opt in ("default", "blk2")) else ("NO-PARITY",):
                        yield {"id": "%s-%s-%s-%d-%s" % (sc.name, cfg, opt, nb, par), "scene": sc.name, "cfg": cfg, "opt": opt, "nb": nb, "par": par}


def run_case(case, r):
    sc, cfg, par = scene.BY[case["scene"]], case["cfg"], case["par"]
    nb = case["nb"]
    dim = 2 * int(np.prod(sc.n)) // (2 if par != "NO-PARITY" else 1)
    nb = nb if nb == 22 else max(1, min(nb, (dim - 2) // 3))
    ks = [k for k in KS[rank(sc.n)] if par == "NO-PARITY" or k[2] == 0]
    s = sc.script() + "(set! num-bands %d)(set! tolerance 1e-12)(set! deterministic? true)(set! eigensolver-flags (+ EIGS_DEFAULT_FLAGS EIGS_FORCE_EXACT_LINMIN))%s(init-params %s true)(define pts %s)\n" % (nb, OPT[case["opt"]], par, sc.pts())
    s += "(define bs '(%s))(define dirs (list %s))(emit 'eps (map get-epsilon-inverse-tensor-point pts))\n" % (" ".join(str(i + 1) for i in range(nb)), " ".join(ctl.v3(d) for d in DIRS))
    names = list(QUERIES)
    if case["opt"] == "many":
        ks = ks[:1]
    word = [names[i] for i in debruijn(len(names), 2)]
    for ki, k in enumerate(ks):
        s += "(randomize-fields)(solve-kpoint %s)(emit 'f %d freqs)(define ev (get-eigenvectors 1 %d))\n" % (ctl.v3(k), ki, nb)
        s += "(for-each (lambda (b) (get-bfield b) (emit 'b %d b (map get-bloch-field-point pts))) bs)\n" % ki
        for w in word if ki == 0 else names:
            q = QUERIES[w]
            s += "(emit 'v %d \"%s\" %s)\n" % (ki, w, q % nb if "%d" in q else q)
        s += "(for-each (lambda (b) (get-bfield b) (emit 'B %d b (map get-bloch-field-point pts))) bs)\n" % ki
    res = ctl.run(cfg, s)
    if not res.ok() and case["opt"] == "nwork2" and "failure to converge" in res.err:
        r.info["gaveup"] = r.info.get("gaveup", 0) + 1
        return
    if not res.ok():
        r.fail("died", res.tail())
        return
    m = fieldref.Model(sc, scene.tensor_grid(res.one("eps")[0]), fieldref.mu_grid(sc, cfg))
    fr = {x[0]: x[1] for x in res.by["f"]}
    B = {(x[0], x[1]): cv(x[2]) for x in res.by["b"]}
    tag = "%s %s %s nb=%d %s" % (sc.name, cfg, case["opt"], nb, par)
    for ki, b, rows in res.by["B"]:
        r.close("eigenvectors", cv(rows), B[ki, b], 1e-9, "%s k=%s band %d B field after velocity queries" % (tag, ks[ki], b))
    V, W = {}, {}
    for ki, k in enumerate(ks):
        v = np.zeros((nb, 3))
        for b in range(nb):
            om = fr[ki][b]
            f = B[ki, b + 1]
            if om == 0:
                continue
            d = m.d(f, om, k)
            e, h = m.e(d), m.h(f)
            v[b] = np.real(np.cross(np.conj(e), h)).sum(0) * m.Vol / m.N
        V[ki] = v
        if case["opt"] == "default":
            # independent of the fields: derivative of the dense spectrum, for isolated bands
            delta = 2e-4
            ei, mi = m.ei, m.mi
            w0 = np.sqrt(np.maximum(C01.spectrum(sc, k, ei, mi, C01.PAR[par]), 0))
            D = np.zeros((nb, 3))
            for a in range(3):
                if par != "NO-PARITY" and a == 2:
                    continue
                u = np.zeros(3)
                u[a] = delta
                kr = u @ np.linalg.inv(sc.G)
                wp = np.sqrt(np.maximum(C01.spectrum(sc, np.array(k) + kr, ei, mi, C01.PAR[par]), 0))
                wm = np.sqrt(np.maximum(C01.spectrum(sc, np.array(k) - kr, ei, mi, C01.PAR[par]), 0))
                D[:, a] = (wp[:nb] - wm[:nb]) / (2 * delta)
            for b in range(nb):
                gap = min([abs(w0[b] - w0[j]) for j in range(len(w0)) if j != b])
                if gap > 0.02 and w0[b] > 0.05:
                    r.info["isolated"] = r.info.get("isolated", 0) + 1
                    r.close("derivative", V[ki][b], D[b], 5e-4, "%s k=%s band %d Poynting velocity vs dense derivative" % (tag, k, b + 1))
                    W[ki, b] = D[b]
    for ki, q, out in res.by["v"]:
        v, k = V[ki], ks[ki]
        r.op()
        r.state(tag, ki, q, np.round(v, 6).tolist())
        u = np.array(DIRS, float) @ sc.G
        u /= np.linalg.norm(u, axis=1)[:, None]
        want = {"all": v, "one": v, "rec": v @ sc.G.T, "comp": u @ v.T, "comp1": u @ v.T}.get(q)
        if want is None:
            continue
        r.close(q, np.array(out, float), want, 2e-6 * max(1, np.abs(want).max()), "%s k=%s query %s" % (tag, k, q))
        if q == "all":
            for b in range(nb):
                if (ki, b) in W:
                    r.close("dense-derivative", np.array(out, float)[b], W[ki, b], 5e-4, "%s k=%s band %d velocity" % (tag, k, b + 1))
    r.trace()


if __name__ == "__main__":
    vf.Check("C05", "model_checking", cases, run_case, setup=setup, case_timeout=240,
             rule="one case = (structure, build, solver option, number of bands, parity); at every k each of the five velocity queries is asked, interleaved with field loading in all orders of length 2, and compared with the Poynting velocity of the state and with the finite difference of a dense eigen-decomposition",
             bounds="19 structures, 3 builds, 6 block-size/workspace options, 3-4 k-points, 5 directions, 3 parities, up to 6 bands").main()
