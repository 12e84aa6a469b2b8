#!/usr/bin/env python3-vt
"""C01: the reported spectrum is the spectrum of the plane-wave Maxwell eigenproblem of the structure in force."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mpbbuild
import numpy as np
import ref, ctl, scene, fieldref

PAR = {"NO-PARITY": (), "EVEN-Z": (("z", 1),), "ODD-Z": (("z", -1),), "EVEN-Y": (("y", 1),), "ODD-Y": (("y", -1),),
       "(+ EVEN-Y EVEN-Z)": (("y", 1), ("z", 1)), "(+ EVEN-Y ODD-Z)": (("y", 1), ("z", -1)),
       "(+ ODD-Y EVEN-Z)": (("y", -1), ("z", 1)), "(+ ODD-Y ODD-Z)": (("y", -1), ("z", -1))}
KS = {3: [(0, 0, 0), (0.3, 0.15, 0.22), (0.5, 0, 0), (0.5, 0.5, 0.5), (-0.2, 0.4, 0), (0, 0, 0)],
      2: [(0, 0, 0), (0.3, 0.15, 0), (0.5, 0, 0), (0.5, 0.5, 0), (0.2, 0, 0.3), (-0.1, 0.45, 0), (0, 0, 0.4), (0, 0, 0)],
      1: [(0, 0, 0), (0.3, 0, 0), (0.5, 0, 0), (0.1, 0.2, 0.4), (-0.4, 0, 0), (0, 0, 0)]}
OPTS = {
    "default": "",
    "fl-default": "(set! eigensolver-flags EIGS_DEFAULT_FLAGS)",
    "simple": "(set! simple-preconditioner? true)",
    "blk1": "(set! eigensolver-block-size 1)",
    "blk2": "(set! eigensolver-block-size 2)",
    "blkm2": "(set! eigensolver-block-size -2)",
    "blk0": "(set! eigensolver-block-size 0)",
    "nwork2": "(set! eigensolver-nwork 2)",
    "dav": "(set! eigensolver-davidson? true)(set! eigensolver-nwork 6)",
    "davblk": "(set! eigensolver-davidson? true)(set! eigensolver-nwork 5)(set! eigensolver-block-size 2)",
    "fl-noreset": "(set! eigensolver-flags (+ EIGS_REORTHOGONALIZE EIGS_FORCE_EXACT_LINMIN))",
    "fl-dyn": "(set! eigensolver-flags (+ EIGS_DYNAMIC_RESET_CG EIGS_REORTHOGONALIZE EIGS_FORCE_EXACT_LINMIN))",
    "fl-proj": "(set! eigensolver-flags (+ EIGS_DEFAULT_FLAGS EIGS_FORCE_EXACT_LINMIN EIGS_PROJECT_PRECONDITIONING))",
    "fl-first": "(set! eigensolver-flags (+ EIGS_DEFAULT_FLAGS EIGS_FORCE_EXACT_LINMIN EIGS_ORTHONORMALIZE_FIRST_STEP))",
}


TOL = 1e-4
WARM = ("off2d", "mu2da", "ani3d", "gyro3d", "slab1de")


# the operators transform 20 bands at a time
MANY = ("rods2d", "wg2d", "slabz3d", "mu2d", "mu3d", "gyro2d", "ani3d", "cube3d")


def setup(tier):
    for c in ("complex", "inv", "herm"):
        mpbbuild.build(c, what=("mpb",))


def rank(n):
    return 3 if n[2] > 1 else 2 if n[1] > 1 else 1


def cases(tier):
    for sc in scene.ALL:
        for cfg in sc.builds():
            if cfg == "herm" and not sc.herm and sc.name not in ("off2d", "cube3d", "mu2d"):
                continue
            for opt in OPTS:
                if "dav" in opt and sc.mu:
                    continue
                full = tier == "thorough"
                if not full and opt not in ("default", "blk2") and sc.name not in ("slab1d", "rods2d", "off2d", "mu2d", "mu2da", "gyro2d", "cube3d", "mu3d", "tri2d"):
                    continue
                if opt in ("default", "blk0", "blkm2") and sc.name in MANY:
                    yield {"id": "%s-%s-%s-22" % (sc.name, cfg, opt), "scene": sc.name, "cfg": cfg, "opt": opt, "nb": 22}
                for nb in ((1, 2, 3, 5) if full else (3, 5) if opt == "default" else (5,)):
                    yield {"id": "%s-%s-%s-%d" % (sc.name, cfg, opt, nb), "scene": sc.name, "cfg": cfg, "opt": opt, "nb": nb}


def mirror_proj(sc, n, ax, sign, T):
    """projector, in the transverse-amplitude space, onto even/odd states under the mirror of axis ax;
    H is an axial vector: its in-plane components flip, the normal one does not"""
    idx = ref.indices(n)
    pos = {i: j for j, i in enumerate(idx)}
    a = "xyz".index(ax)
    S = -np.eye(3)
    S[a, a] = 1.0
    N = len(idx)
    P = np.zeros((3 * N, 3 * N))
    for j, i in enumerate(idx):
        m = list(i)
        m[a] = (-m[a]) % n[a]
        jj = pos[tuple(m)]
        P[3 * jj:3 * jj + 3, 3 * j:3 * j + 3] = S
    M = T.T @ P @ T
    return (np.eye(2 * N) + sign * M) / 2


def dense(sc, k, eps, mu):
    n = sc.n
    q = ref.kpG(n, sc.kcart(k), sc.G)
    mn = np.zeros((len(q), 2, 3))
    for i, v in enumerate(q):
        L = np.linalg.norm(v)
        if L < 1e-10:
            mn[i] = [[0, 0, 1.0], [0, 1.0, 0]]
            continue
        a = np.cross(v, [0, 0, 1.0] if abs(v[2]) < 0.9 * L else [1.0, 0, 0])
        a /= np.linalg.norm(a)
        mn[i] = [a, np.cross(a, v / L)]
    return ref.Dense(n, q, mn)


def spectrum(sc, k, eps, mu, par):
    """all eigenvalues, ascending, of  curl eps^-1 curl  on the divergence-free space of B, w.r.t. the energy mu^-1"""
    D = dense(sc, k, eps, mu)
    A = D.op(eps, mu)
    B = D.muinv(mu)
    V = np.eye(2 * D.N)
    for ax, s in par:
        P = mirror_proj(sc, sc.n, ax, s, D.T)
        w, U = np.linalg.eigh((V.conj().T @ P @ V + (V.conj().T @ P @ V).conj().T) / 2)
        V = V @ U[:, w > 0.5]
    import scipy.linalg
    A = V.conj().T @ A @ V
    B = V.conj().T @ B @ V
    return scipy.linalg.eigh((A + A.conj().T) / 2, (B + B.conj().T) / 2, eigvals_only=True)


def pars_for(sc, k):
    out = ["NO-PARITY"]
    zok = sc.zsym and abs(k[2]) < 1e-12
    yok = sc.ysym and abs(k[1]) < 1e-12 and sc.name not in ("tri2d", "fcc3d", "mu2da") and (sc.n[1] % 2 == 1) and sc.n[1] > 1
    if zok:
        out += ["EVEN-Z", "ODD-Z"]
    if yok:
        out += ["EVEN-Y", "ODD-Y"]
    if zok and yok:
        out += [p for p in PAR if p.startswith("(+")]
    return out


def tol_of(case):
    # line minimisation switched by the clock / Davidson on near-degenerate bands: looser
    return 1e-2 if case["opt"] == "fl-default" else 5e-3 if "dav" in case["opt"] else TOL


def bands(sc, nb, p):
    """stay well below the dimension of the sector: the iterative solver is meant for a few of many states"""
    dim = 2 * sc.n[0] * sc.n[1] * sc.n[2] // 2 ** len(PAR[p])
    return nb if nb == 22 and dim >= 50 else max(1, min(nb, (dim - 2) // 3))


def run_case(case, r):
    sc = scene.BY[case["scene"]]
    nb = case["nb"]
    ks = KS[rank(sc.n)]
    if "dav" in case["opt"]:
        ks = [k for k in ks if any(k)]  # the Davidson iteration stagnates on near-degenerate states of the special k=0 block
    plan = [("NO-PARITY", ks)]
    for p in PAR:
        kk = [k for k in ks if p in pars_for(sc, k)]
        if kk and p != "NO-PARITY":
            plan.append((p, kk))
    # a parity sector can be smaller than the number of bands asked for
    s = sc.script() + "(set! tolerance %s)(set! deterministic? true)\n" % ("1e-8" if "dav" in case["opt"] else "1e-11")
    # line minimisation is switched on timing by default; force it, so that a run is reproducible
    s += "(set! eigensolver-flags (+ EIGS_DEFAULT_FLAGS EIGS_FORCE_EXACT_LINMIN))%s\n" % OPTS[case["opt"]]
    for pi, (p, kk) in enumerate(plan):
        s += "(set! num-bands %d)(init-params %s true)\n" % (bands(sc, nb, p), p)
        if pi == 0:
            s += "(emit 'eps (map get-epsilon-inverse-tensor-point %s))\n" % sc.pts()
            if sc.mu:
                s += "(get-mu)\n"
        for ki, k in enumerate(kk):
            s += "(randomize-fields)(solve-kpoint %s)(emit 'f %d %d freqs parity)\n" % (ctl.v3(k), pi, ki)
        for ki, k in enumerate(kk if sc.name in WARM and p == "NO-PARITY" and case["opt"] in ("default", "simple", "blk2") else ()):
            # warm start from the previous point's fields, structures without symmetry (no invariant subspace to be stuck in)
            s += "(solve-kpoint %s)(emit 'w %d %d freqs parity)\n" % (ctl.v3(k), pi, ki)
    res = ctl.run(case["cfg"], s)
    if not res.ok() and case["opt"] in ("dav", "davblk", "nwork2") and any(t in res.err for t in ("failure to converge", "non-independent", "non-positive eigenvalue")):
        # a loud refusal to return an answer is not a wrong spectrum; what was printed before it is still judged
        r.info["gaveup"] = r.info.get("gaveup", 0) + 1
    elif not res.ok():
        r.fail("died", "mpb failed: " + res.tail())
        return
    eps = scene.tensor_grid(res.one("eps")[0])
    mu = None
    if sc.mu:
        mu = fieldref.mu_grid(sc, case["cfg"])
    memo = {}
    for pi, ki, fr, name in res.by.get("w", []):
        p, kk = plan[pi]
        k = kk[ki]
        w = memo[p, k] = spectrum(sc, k, eps, mu, PAR[p])
        r.op()
        left = list(w)
        for b, f in enumerate(fr):
            d = [abs(f * f - x) for x in left]
            i = int(np.argmin(d)) if np.isfinite(f) else 0
            if not (d[i] <= 2e-5 * max(1.0, abs(left[i]))):
                r.fail("notaneigenvalue", "%s %s k=%s %s %s nb=%d: reported omega^2=%.9g (band %d) is not an eigenvalue (nearest unused %.9g)" % (
                    sc.name, case["cfg"], k, p, case["opt"], nb, f * f, b + 1, left[i]))
                break
            left.pop(i)
    for pi, ki, fr, name in res.by.get("f", []):
        p, kk = plan[pi]
        k = kk[ki]
        w = memo[p, k] if (p, k) in memo else spectrum(sc, k, eps, mu, PAR[p])
        memo[p, k] = w
        m = min(len(fr), len(w))
        lam = np.array(fr, float) ** 2
        want = np.maximum(w[:m], 0)
        r.op()
        r.worst("dev", float(np.max(np.abs(lam[:m] - want))))
        r.state(sc.name, p, k, np.round(want, 9).tolist())
        bad = np.abs(lam[:m] - want) > tol_of(case) * np.maximum(1.0, want)
        if np.any(bad) or not np.all(np.isfinite(lam[:m])):
            i = int(np.argmax(bad | ~np.isfinite(lam[:m])))
            r.fail("spectrum", "%s %s k=%s %s %s nb=%d: band %d has omega^2=%.9g, the plane-wave problem has %.9g\n got %s\n want %s" % (
                sc.name, case["cfg"], k, p, case["opt"], nb, i + 1, lam[i], want[i], lam[:m].tolist(), want.tolist()))
        if np.any(np.diff(fr[:m]) < -tol_of(case)):
            r.fail("order", "frequencies not ascending: %s" % fr)
    r.trace()


if __name__ == "__main__":
    vf.Check("C01", "model_checking", cases, run_case, setup=setup, case_timeout=240,
             rule="one case = one (structure, build, solver option, number of bands) cell; inside it every listed k-point and every parity sector compatible with it is solved and compared, band by band, with a dense eigen-decomposition of the plane-wave operator",
             bounds="19 structures (1d/2d/3d, cubic/triangular/fcc, isotropic/anisotropic/gyrotropic/magnetic), grids up to 3x4x5, 6-8 k-points, 9 parity sectors, 14 solver option sets, 1-5 bands").main()
