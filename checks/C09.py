#!/usr/bin/env python3-vt
"""C09: the inversion-symmetric build gives the same answers as the general build (and the hermitian build for real tensors).

The same battery of every observable the program offers is run in two builds over all shared structures, parity sectors and
grid shapes up to the bound; the answers are compared up to the phase of each eigenstate.  Part "div": divergence fields."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mpbbuild
import numpy as np
import ctl, scene, battery, ref

KK = {1: [(0.3, 0, 0), (-0.21, 0.1, 0.4), (0, 0, 0), (0.5, 0, 0)],
      2: [(0.3, 0.15, 0), (0.1, -0.2, 0.25), (0, 0, 0), (0.5, 0.5, 0)],
      3: [(0.3, 0.15, 0.22), (-0.1, 0.3, 0.4), (0, 0, 0), (0.5, 0.5, 0.5)]}
PARS = {"no": "NO-PARITY", "te": "TE", "tm": "TM", "ye": "EVEN-Y", "zo": "ODD-Z", "yozo": "(+ ODD-Y ODD-Z)"}


def setup(tier):
    for c in ("complex", "inv", "herm"):
        mpbbuild.build(c, what=("mpb",))


def cases(tier):
    th = tier == "thorough"
    for sc in scene.ALL:
        for b in sc.builds():
            if b == "complex" or (b == "herm" and sc.herm):
                continue
            yield {"id": "scene-%s-%s" % (sc.name, b), "kind": "scene", "scene": sc.name, "cfg": b, "nb": 4, "par": "no", "files": True}
            for p in PARS:
                if p == "no" or (p in ("te", "tm") and (sc.n[2] > 1 or not sc.zsym)) or (p[:2] in ("ye", "yo") and (not sc.ysym or sc.Rin is not None or sc.n[1] % 2 == 0)) or ("zo" in p and not sc.zsym):
                    continue
                if b == "inv" or th:
                    yield {"id": "scene-%s-%s-%s" % (sc.name, b, p), "kind": "scene", "scene": sc.name, "cfg": b, "nb": 3, "par": p, "files": False}
            if b == "inv":
                yield {"id": "div-%s" % sc.name, "kind": "div", "scene": sc.name}
    top = 5 if not th else 7
    for n in itertools.product(range(1, top + 1), repeat=3):
        if n == (1, 1, 1) or (not th and sum(1 for x in n if x == 5) > 1) or (not th and np.prod(n) > 48):
            continue
        if np.prod(n) < 3:
            continue
        yield {"id": "grid-%d%d%d" % n, "kind": "grid", "n": n, "mu": (n[0] + n[1] + n[2]) % 4 == 0}
    for name in ("rods2de", "mu2d", "slabz3d", "ani2df"):
        for bs in (1, 2, 0):
            yield {"id": "bs-%s-%d" % (name, bs), "kind": "scene", "scene": name, "cfg": "inv", "nb": 5, "par": "no", "files": False, "bs": bs}


def rank(n):
    return 3 if n[2] > 1 else 2 if n[1] > 1 else 1


def off(sc):
    d = rank(sc.n)
    pts = [(0.13, 0.21, -0.37), (-0.49, 0.48, 0.45), (0.77, -0.62, 1.3), (0.5, 0.5, 0.5), (-1.21, 1.07, -0.93)]
    return [tuple(x if i < d else 0 for i, x in enumerate(p)) for p in pts]


def both(r, case, sc, cfg, nb, ks, par, files, extra="", tag=None):
    tag = tag or case["id"]
    res = {}
    with ctl.Scratch() as da, ctl.Scratch() as db:
        for c, d in (("complex", da), (cfg, db)):
            q = ctl.run(c, battery.script(sc, ks, nb, off(sc), files=files, par=par, extra=extra), cwd=d, timeout=250)
            if not q.ok():
                if q.rc == 1 and ("failure to converge" in q.err or "emergency randomization" in q.out or "too small" in q.err):
                    r.info["gaveup"] = r.info.get("gaveup", 0) + 1
                    return
                return r.fail("died", "%s in the %s build: %s" % (tag, c, q.tail()))
            res[c] = battery.Bat(q.rows, q.out)
        # in a sector of higher symmetry the largest coefficient need not be unique
        battery.compare(r, tag, res["complex"], res[cfg], len(ks), nb, files=(da, db) if files else None, skip=("N",) if par != "NO-PARITY" else (), skip_n=(2, 3))
    r.trace()


def scene_case(case, r):
    sc = scene.BY[case["scene"]]
    ks = KK[rank(sc.n)]
    par = PARS[case["par"]]
    if case["par"][:2] in ("ye", "yo"):
        ks = [(k[0], 0, k[2]) for k in ks]
    if "z" in case["par"]:
        ks = [(k[0], k[1], 0) for k in ks]
    if case["par"] in ("te", "tm"):
        ks = [(k[0], k[1], 0) for k in ks]
    nb = case["nb"]
    if sc.name in ("vac2d", "slab1d", "slab1de") and case["par"] != "no":
        nb = 2
    both(r, case, sc, case["cfg"], nb, ks, par, case["files"], extra="(set! eigensolver-block-size %d)" % case["bs"] if "bs" in case else "")


SIZE = (1.0, 1.3, 0.8)
RG = [[1, 0, 0], [0.2, 1, 0], [0.1, -0.15, 1]]


def smooth(size, d, mu):
    ex = ("(set! force-mu? true)" if mu else "") + "(set! default-material (make material-function (material-func (lambda (p) (let* ((t (vector-map (lambda (x s) (* 6.283185307179586 (/ x s))) p (vector3 %s)))" % " ".join(str(s or 1) for s in size)
    ex += " (c (+ (cos (vector3-x t)) (* 0.7 (cos (vector3-y t))) (* 0.5 (cos (vector3-z t))) (* 0.4 (cos (+ (vector3-x t) (vector3-y t)))) (* 0.3 (cos (- (vector3-y t) (vector3-z t)))))))"
    ex += " (make medium-anisotropic (epsilon-diag (+ 5 c) (+ 6 (* 0.5 c)) (- 4.5 (* 0.6 c))) (epsilon-offdiag (* 0.3 c) %s)%s))))))\n" % (
        "0.2 (* -0.2 c)" if d == 3 else "0 0", " (mu-diag (+ 1.6 (* 0.2 c)) 1.5 (- 1.9 (* 0.1 c)))" if mu else "")
    return ex


def grid(case, r):
    n = tuple(case["n"])
    d = rank(n)
    for sized in (True, False):
        if sized and 1 not in n:
            continue
        ax = [i for i in range(3) if n[i] > 1]
        size = [s if (sized or a > 1) else None for a, s in zip(n, SIZE)]
        for a in (2, 1):
            if n[a] > 1:
                break
            size[a] = None
        if sized and all((s is None) == (m == 1) for s, m in zip(size, n)):
            continue
        res = [1.0 if s is None else (a - 0.3) / s for a, s in zip(n, SIZE)]
        full = all(s is not None for s in size)
        # a smooth structure symmetric under inversion (object boundaries are averaged numerically, not exactly symmetrically)
        ex = smooth(size, d, case["mu"])
        sc = scene.Scene("g", RG if full else None, size, res, [], mu=case["mu"], ysym=False, zsym=False, extra=ex)
        nb = min(3, 2 * int(np.prod(n)) - 2)
        if nb < 1:
            continue
        both(r, case, sc, "inv", nb, KK[d][:2], "NO-PARITY", int(np.prod(n)) <= 16, tag="%s sized=%s" % (case["id"], sized))


def div(case, r):
    """known finding: at grid points the build does not store, the divergence has the opposite sign"""
    sc = scene.BY[case["scene"]]
    n = sc.n
    ks = KK[rank(n)][:2]
    nb = 3
    s = "(set! num-bands %d)(set! tolerance 1e-12)(set! deterministic? true)(set! eigensolver-flags (+ EIGS_DEFAULT_FLAGS EIGS_FORCE_EXACT_LINMIN))(define P %s)(init-params NO-PARITY true)\n" % (nb, sc.pts())
    for i, k in enumerate(ks):
        s += "(solve-kpoint %s)(emit 'f freqs)(for-each (lambda (b) (get-dfield b)(emit 'd (map get-bloch-field-point P))(get-charge-density b)(emit 'c (map get-bloch-cscalar-point P))) (iota %d 1))\n" % (ctl.v3(k), nb)
    out = {}
    for c in ("complex", "inv"):
        q = ctl.run(c, sc.script() + s)
        if not q.ok():
            return r.fail("died", "%s %s" % (c, q.tail()))
        out[c] = q
    last = 2 if n[2] > 1 else 1 if n[1] > 1 else 0
    nl = n[last] // 2 + 1
    idx = np.array(list(itertools.product(*[range(a) for a in n])))
    for i, f in enumerate(out["complex"].by["f"]):
        f = f[0]
        for b in range(nb):
            if min([abs(f[b] - f[j]) for j in range(nb) if j != b]) < 5e-3 or b == nb - 1 or f[b] < 1e-3:
                continue
            q = i * nb + b
            da, db = [np.array(out[c].by["d"][q][0], complex).ravel() for c in ("complex", "inv")]
            ph = np.vdot(da, db)
            ph /= abs(ph)
            ca, cb = [np.array(out[c].by["c"][q][0], complex).ravel() for c in ("complex", "inv")]
            w = ca * ph
            sc_ = max(0.1, np.abs(w).max())
            stored = idx[:, last] < nl
            r.op()
            r.state("%s|%d|%d" % (case["id"], i, b))
            bad = np.abs(cb - w) > 2e-3 * sc_
            flip = np.abs(cb + w) <= 2e-3 * sc_
            if (bad & stored).any():
                r.fail("charge", "%s band %d at k %s: divergence %s instead of %s at a stored point" % (case["id"], b + 1, ks[i], cb[bad & stored][0], w[bad & stored][0]))
            if (bad & ~stored & ~flip).any():
                r.fail("charge", "%s band %d at k %s: divergence %s instead of +-%s at a mirrored point" % (case["id"], b + 1, ks[i], cb[bad & ~stored & ~flip][0], w[bad & ~stored & ~flip][0]))
            if (bad & ~stored & flip).any():
                r.fail("mirrored-divergence", "divergence has the wrong sign at mirrored points")
    r.trace()


def run_case(case, r):
    {"scene": scene_case, "grid": grid, "div": div}[case["kind"]](case, r)


if __name__ == "__main__":
    vf.Check("C09", "model-checked", cases, run_case, setup=setup,
             rule="a case is one structure (or grid shape) in one build and parity sector; states are distinct (case, k, band) compared completely",
             bounds="19 structures in all their builds and parity sectors, 4 k-points, 3-5 bands; all grid shapes up to 5x5x5 with at most 48 points (thorough 7x7x7), degenerate axes sized and unsized; magnetic and anisotropic materials",
             assumptions=["the general build's answers are judged by the other properties' own oracles", "states closer than 5e-3 in frequency are compared through sums over the group"]).main()
