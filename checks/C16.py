#!/usr/bin/env python3-vt
"""C16: the block-vector / square-matrix layer against numpy, over every operation sequence on a small register machine."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mpbbuild
import numpy as np
import ref
from core import Core

CONF = {}


def core(cfg):
    if cfg not in CONF:
        CONF[cfg] = Core(mpbbuild.Config(cfg).core)
    return CONF[cfg]


def setup(tier):
    for c in ("complex", "inv"):
        mpbbuild.build(c, what=("core",))


def cases(tier):
    shapes = [(n, p) for n in (1, 2, 3, 5) for p in (1, 2, 3)] + [(8, 5), (7, 4)]
    for cfg in ("complex", "inv"):
        for n, p in shapes:
            for first in range(len(OPS)):
                yield {"id": "seq-%s-%d-%d-%s" % (cfg, n, p, OPS[first][0]), "kind": "seq", "cfg": cfg, "n": n, "p": p, "first": first, "depth": 2 if tier == "quick" or n > 3 else 3}
        for n in (1, 2, 4, 5):
            yield {"id": "slice-%s-%d" % (cfg, n), "kind": "slice", "cfg": cfg, "n": n, "pmax": 4 if tier == "quick" else 6}
        for p in range(1, 7 if tier == "quick" else 11):
            yield {"id": "dec-%s-%d" % (cfg, p), "kind": "dec", "cfg": cfg, "p": p}


# ---- register machine: X0..X2 (n x p), S0..S1 (p x p); each op (name, impl, model)
def H(a):
    return np.conj(a.T)


def mk_ops():
    ops = []
    A = ops.append
    for i, j in ((0, 1), (1, 2), (2, 0)):
        A(("copy%d%d" % (i, j), lambda c, m, i=i, j=j: c.call("ev_copy", m.n, m.p, m.X[i], m.X[j]), lambda m, i=i, j=j: m.setX(i, m.X[j])))
        for a, b in ((1.0, -0.5), (0.5, 2.0), (0.0, 1.0)):
            A(("aXpbY%d%d_%g" % (i, j, a), lambda c, m, i=i, j=j, a=a, b=b: c.call("ev_aXpbY", m.n, m.p, a, m.X[i], b, m.X[j]), lambda m, i=i, j=j, a=a, b=b: m.setX(i, a * m.X[i] + b * m.X[j])))
    A(("XeYS", lambda c, m: (m.poison(0), c.call("ev_XeYS", m.n, m.p, m.p, m.X[0], m.X[1], m.S[0], 0)), lambda m: m.setX(0, m.X[1] @ m.S[0])))
    A(("XeYSherm", lambda c, m: (m.poison(2), c.call("ev_XeYS", m.n, m.p, m.p, m.X[2], m.X[0], m.S[1], 1)), lambda m: m.setX(2, m.X[0] @ H(m.S[1]))))
    A(("XeYSid", lambda c, m: (m.poison(0), c.call("ev_XeYS", m.n, m.p, 0, m.X[0], m.X[1], m.S[0], 0)), lambda m: m.setX(0, m.X[1])))
    A(("XpaYS", lambda c, m: c.call("ev_XpaYS", m.n, m.p, m.p, m.X[1], 0.5, m.X[2], m.S[0], 0), lambda m: m.setX(1, m.X[1] + 0.5 * m.X[2] @ m.S[0])))
    A(("XpaYSt", lambda c, m: c.call("ev_XpaYS", m.n, m.p, m.p, m.X[1], -1.5, m.X[2], m.S[1], 1), lambda m: m.setX(1, m.X[1] - 1.5 * m.X[2] @ H(m.S[1]))))
    A(("XpaYSid", lambda c, m: c.call("ev_XpaYS", m.n, m.p, 0, m.X[1], -0.25, m.X[0], m.S[1], 0), lambda m: m.setX(1, m.X[1] - 0.25 * m.X[0])))
    A(("XtX", lambda c, m: c.call("ev_XtX", m.n, m.p, m.S[0], m.X[0], m.W), lambda m: m.setS(0, H(m.X[0]) @ m.X[0])))
    A(("XtX2", lambda c, m: c.call("ev_XtX", m.n, m.p, m.S[1], m.X[2], m.W), lambda m: m.setS(1, H(m.X[2]) @ m.X[2])))
    A(("XtY", lambda c, m: c.call("ev_XtY", m.n, m.p, m.S[0], m.X[0], m.X[1], m.W), lambda m: m.setS(0, H(m.X[0]) @ m.X[1])))
    A(("XtY2", lambda c, m: c.call("ev_XtY", m.n, m.p, m.S[1], m.X[2], m.X[0], m.W), lambda m: m.setS(1, H(m.X[2]) @ m.X[0])))
    A(("scopy", lambda c, m: c.call("sq_copy", m.p, m.S[0], m.S[1]), lambda m: m.setS(0, m.S[1])))
    A(("sym", lambda c, m: c.call("sq_symmetrize", m.p, m.S[0], m.S[1]), lambda m: m.setS(0, (m.S[1] + H(m.S[1])) / 2)))
    A(("up2full", lambda c, m: c.call("sq_upper2full", m.p, m.S[1], m.S[0]), lambda m: m.setS(1, np.triu(m.S[0]) + H(np.triu(m.S[0], 1)))))
    for bd in (0, 1):
        for cd in (0, 1):
            t = lambda s, d: H(s) if d else s
            A(("AeBC%d%d" % (bd, cd), lambda c, m, bd=bd, cd=cd: (m.poisonW(), c.call("sq_AeBC", m.p, m.W, m.S[0], bd, m.S[1], cd), m.putS(0, m.W)), lambda m, bd=bd, cd=cd, t=t: m.setS(0, t(m.S[0], bd) @ t(m.S[1], cd))))
            A(("ApaBC%d%d" % (bd, cd), lambda c, m, bd=bd, cd=cd: (m.setW(m.S[1]), c.call("sq_ApaBC", m.p, m.W, 0.5, m.S[0], bd, m.S[1], cd), m.putS(1, m.W)), lambda m, bd=bd, cd=cd, t=t: m.setS(1, m.S[1] + 0.5 * t(m.S[0], bd) @ t(m.S[1], cd))))
    A(("ApaB", lambda c, m: c.call("sq_ApaB", m.p, m.S[0], -0.75, m.S[1]), lambda m: m.setS(0, m.S[0] - 0.75 * m.S[1])))
    A(("aApbB", lambda c, m: c.call("sq_aApbB", m.p, 0.5, m.S[1], 1.5, m.S[0]), lambda m: m.setS(1, 0.5 * m.S[1] + 1.5 * m.S[0])))
    A(("aApbBself", lambda c, m: c.call("sq_aApbB", m.p, 1.0, m.S[1], 0.5, m.S[1]), lambda m: m.setS(1, 1.5 * m.S[1])))
    d = lambda m: np.array([0.5, -1.25, 2.0, 0.75, -0.3][:m.p])
    A(("XpaYd", lambda c, m: c.call("mx_XpaY_diag_real", m.n, m.p, m.X[0], 0.5, m.X[1], d(m)), lambda m: m.setX(0, m.X[0] + 0.5 * m.X[1] * d(m))))
    A(("XpaYdc", lambda c, m: c.call("mx_XpaY_diag", m.n, m.p, m.X[0], 0.5, m.X[1], np.array(m.S[0][0])), lambda m: m.setX(0, m.X[0] + 0.5 * m.X[1] * m.S[0][0])))
    A(("XdYd", lambda c, m: c.call("mx_XdYd", m.n, m.p, m.X[2], d(m), m.X[1], 2 * d(m) + 1), lambda m: m.setX(2, m.X[2] * d(m) + m.X[1] * (2 * d(m) + 1))))
    return ops


OPS = mk_ops()


class Mach:
    def __init__(self, n, p, dt):
        self.n, self.p = n, p
        g = ref.hashrng("mach", n, p)

        def rnd(*s):
            a = g.normal(size=s)
            return np.ascontiguousarray(a + 1j * g.normal(size=s) if dt == np.complex128 else a, dt)
        self.X = [rnd(n, p) for _ in range(3)]
        self.S = [rnd(p, p) for _ in range(2)]
        self.W = np.full((p, p), np.nan, dt)

    def copy(self):
        m = Mach.__new__(Mach)
        m.n, m.p = self.n, self.p
        m.X = [x.copy() for x in self.X]
        m.S = [x.copy() for x in self.S]
        m.W = self.W.copy()
        return m

    def setX(self, i, v):
        self.X[i] = np.array(v)

    def setS(self, i, v):
        self.S[i] = np.array(v)

    def poison(self, i):
        self.X[i].view(np.uint8)[...] = 0xFF

    def poisonW(self):
        self.W.view(np.uint8)[...] = 0xFF

    def setW(self, v):
        self.W[...] = v

    def putS(self, i, v):
        self.S[i][...] = v


def run_case(case, r):
    c = core(case["cfg"])
    globals()["k_" + case["kind"]](case, c, r)


def k_seq(case, c, r):
    n, p = case["n"], case["p"]
    for rest in itertools.product(range(len(OPS)), repeat=case["depth"] - 1):
        seq = (case["first"],) + rest
        im, mo = Mach(n, p, c.dt), Mach(n, p, c.dt)
        for o in seq:
            OPS[o][1](c, im)
            OPS[o][2](mo)
            r.op()
        nm = ">".join(OPS[o][0] for o in seq)
        for k in range(3):
            r.close("seq", im.X[k], mo.X[k], 1e-11 * (1 + np.abs(mo.X[k]).max()), "%s n=%d p=%d X%d" % (nm, n, p, k))
        for k in range(2):
            r.close("seq", im.S[k], mo.S[k], 1e-11 * (1 + np.abs(mo.S[k]).max()), "%s n=%d p=%d S%d" % (nm, n, p, k))
        # read-only reductions of the final state
        out = np.zeros(1, c.dt)
        c.call("ev_traceXtY", n, p, im.X[0], im.X[1], out)
        w = np.trace(H(mo.X[0]) @ mo.X[1])
        r.close("trace", out[0], w, 1e-10 * (1 + abs(w)), nm + " traceXtY")
        c.call("sq_trace", p, im.S[0], out)
        r.close("strace", out[0], np.trace(mo.S[0]), 1e-10 * (1 + np.abs(mo.S[0]).max()), nm + " trace")
        c.call("sq_traceAtB", p, im.S[0], im.S[1], out)
        w = np.trace(H(mo.S[0]) @ mo.S[1])
        r.close("straceAtB", out[0], w, 1e-10 * (1 + abs(w) + np.abs(mo.S[0]).max() * np.abs(mo.S[1]).max()), nm + " traceAtB")
        dg, sc = np.full(p, np.nan, c.dt), np.full(p, np.nan, c.dt)
        c.call("ev_XtY_diag", n, p, im.X[0], im.X[2], dg, sc)
        w = np.sum(np.conj(mo.X[0]) * mo.X[2], axis=0)
        r.close("XtYdiag", dg, w, 1e-10 * (1 + np.abs(w).max() + np.abs(mo.X[0]).max() * np.abs(mo.X[2]).max()), nm + " XtY diag")
        dr, sr = np.full(p, np.nan), np.full(p, np.nan)
        c.call("ev_XtY_diag_real", n, p, im.X[0], im.X[2], dr, sr)
        r.close("XtYdiagr", dr, w.real, 1e-10 * (1 + np.abs(w).max() + np.abs(mo.X[0]).max() * np.abs(mo.X[2]).max()), nm + " XtY diag real")
        c.call("ev_XtX_diag_real", n, p, im.X[1], dr, sr)
        w = np.sum(np.abs(mo.X[1]) ** 2, axis=0)
        r.close("XtXdiag", dr, w, 1e-10 * (1 + w.max()), nm + " XtX diag")
        dd = np.array([0.5, -1.25, 2.0, 0.75, -0.3][:p])
        r.close("retrace", c.call("mx_re_trace_A_diag_real", p, im.S[1], dd), np.sum(np.diag(mo.S[1]).real * dd), 1e-10 * (1 + np.abs(mo.S[1]).max()), nm + " re trace")
        r.close("dtrace", c.call("mx_diag_real_trace", p, dd), dd.sum(), 1e-12, "real diagonal trace")
        c.call("mx_diag_trace", p, np.array(im.S[0][0]), out)
        r.close("dtracec", out[0], mo.S[0][0].sum(), 1e-10 * (1 + np.abs(mo.S[0]).max()), "diagonal trace")
        r.op(10)
        r.state(case["cfg"], n, p, seq)
        r.trace()
    r.nontrivial += 1


def rnd(c, key, *s):
    g = ref.hashrng(*key)
    a = g.normal(size=s)
    return np.ascontiguousarray(a + 1j * g.normal(size=s) if c.cplx else a, c.dt)


def k_slice(case, c, r):
    n, P = case["n"], case["pmax"]
    dt = c.dt
    for px in range(1, P + 1):
        for py in range(1, P + 1):
            X, Y = rnd(c, ("sx", n, px), n, px), rnd(c, ("sy", n, py), n, py)
            for ix in range(px):
                for iy in range(py):
                    for p in range(1, min(px - ix, py - iy) + 1):
                        w = "n=%d X(%d)[%d:] Y(%d)[%d:] p=%d" % (n, px, ix, py, iy, p)
                        Z = X.copy()
                        c.call("ev_copy_slice", n, px, py, Z, Y, ix, iy, p)
                        want = X.copy()
                        want[:, ix:ix + p] = Y[:, iy:iy + p]
                        r.close("copy_slice", Z, want, 0, w)
                        U, S = np.full((p, p), np.nan, dt), np.full((p, p), np.nan, dt)
                        c.call("ev_XtY_slice", n, px, py, p, U, X, Y, ix, iy, p, S)
                        r.close("XtY_slice", U, H(X[:, ix:ix + p]) @ Y[:, iy:iy + p], 1e-11, w)
                        for q in range(1, p + 1):
                            for iu in range(0, p - q + 1):
                                U = np.full((p, p), 3.25, dt)
                                S1, S2 = np.full((p, p), np.nan, dt), np.full((p, p), np.nan, dt)
                                c.call("ev_XtY_slice2", n, px, py, p, U, X, Y, ix, iy, p, q, iu, S1, S2)
                                want = np.full((p, p), 3.25, dt)
                                want[:, iu:iu + q] = H(X[:, ix:ix + p]) @ Y[:, iy:iy + q]
                                r.close("XtY_slice2", U, want, 1e-11, w + " q=%d iu=%d" % (q, iu))
                                r.op()
                        r.op(2)
                        r.state("slice", n, px, py, ix, iy, p)
    # sub-matrix products and updates at every offset
    for pu in range(1, P + 1):
        for p in range(1, pu + 1):
            X, Y = rnd(c, ("ux", n, p), n, p), rnd(c, ("uy", n, p), n, p)
            S = rnd(c, ("us", pu), pu, pu)
            for i in range(pu - p + 1):
                for j in range(pu - p + 1):
                    off = i * pu + j
                    w = "n=%d p=%d in %d at (%d,%d)" % (n, p, pu, i, j)
                    U, W = np.full((pu, pu), 1.5, dt), np.full((p, p), np.nan, dt)
                    c.call("ev_XtY_sub", n, p, pu, U, off, X, Y, W)
                    want = np.full((pu, pu), 1.5, dt)
                    want[i:i + p, j:j + p] = H(X) @ Y
                    r.close("XtY_sub", U, want, 1e-11, w)
                    for dag in (0, 1):
                        for a, b in ((0.5, 1.0), (1.0, -2.0), (0.0, 1.0)):
                            Z = X.copy() if a else c.nanfill(n, p)
                            c.call("ev_aXpbYS_sub", n, p, pu, a, Z, b, Y, S, off, dag)
                            blk = S[i:i + p, j:j + p]
                            want = (a * X if a else 0) + b * Y @ (H(blk) if dag else blk)
                            r.close("aXpbYS_sub", Z, want, 1e-11, w + " a=%g dag=%d" % (a, dag))
                            r.op()
                    r.state("sub", n, pu, p, i, j)
                    r.op()
    # resize
    for ap in range(1, P + 1):
        for p0 in range(1, ap + 1):
            for p1 in range(1, ap + 1):
                buf = rnd(c, ("rs", n, ap), n * ap)
                old = buf.copy()
                c.call("ev_resize", n, ap, p0, p1, buf, 1)
                k = min(p0, p1)
                r.close("resize", buf[:n * p1].reshape(n, p1)[:, :k], old[:n * p0].reshape(n, p0)[:, :k], 0, "evect resize %d->%d of %d" % (p0, p1, ap))
                b2 = rnd(c, ("rq", ap), ap * ap)
                old = b2.copy()
                c.call("sq_resize", ap, p0, p1, b2, 1)
                r.close("sqresize", b2[:p1 * p1].reshape(p1, p1)[:k, :k], old[:p0 * p0].reshape(p0, p0)[:k, :k], 0, "sq resize %d->%d of %d" % (p0, p1, ap))
                r.op(2)
    r.trace()
    r.nontrivial += 1


def k_dec(case, c, r):
    p = case["p"]
    dt = c.dt
    fams = {}
    A = rnd(c, ("d", p), p, p)
    fams["posdef"] = A @ H(A) + 0.3 * np.eye(p)
    fams["diag"] = np.diag(np.arange(1, p + 1) * 0.5).astype(dt)
    fams["ident"] = np.eye(p, dtype=dt)
    q, _ = np.linalg.qr(A)
    fams["degen"] = (q * np.array([1.0 + (i // 2) for i in range(p)])) @ H(q)
    fams["indef"] = (q * np.array([(-1) ** i * (0.7 + i) for i in range(p)])) @ H(q)
    fams["illcond"] = (q * np.logspace(-4, 2, p)) @ H(q)
    B = rnd(c, ("db", p), p, p)
    B = B @ H(B) + 0.5 * np.eye(p)
    for nm, M in fams.items():
        M = np.ascontiguousarray((M + H(M)) / 2, dt)
        pos = nm != "indef"
        cond = np.linalg.cond(M)
        for pd in ((1, 0) if pos else (0,)):
            for pw in (p, p + 2):
                U, W = M.copy(), np.full((pw, pw), np.nan, dt)
                ok = c.call("sq_invert", p, U, pd, pw, W)
                if not ok:
                    r.fail("invert-fail", "%s p=%d pd=%d reported failure" % (nm, p, pd))
                r.close("invert", U @ M, np.eye(p), 1e-12 * cond * 10 * p, "%s p=%d pd=%d inverse" % (nm, p, pd))
                r.op()
        for pw in (p, p + 1, 2 * p):
            U, W, ev = M.copy(), np.full((pw, pw), np.nan, dt), np.full(p, np.nan)
            c.call("sq_eigensolve", p, U, ev, pw, W)
            r.close("eigvals", ev, np.linalg.eigvalsh(M), 1e-11 * (1 + np.abs(ev).max()), "%s p=%d eigenvalues" % (nm, p))
            r.close("eigvecs", H(U) @ np.diag(ev) @ U, M, 1e-10 * (1 + np.abs(M).max()), "%s p=%d U = adj(U') D U'" % (nm, p))
            r.close("eigorth", U @ H(U), np.eye(p), 1e-11, "%s p=%d eigenvectors orthonormal" % (nm, p))
            U, W, ev, B2 = M.copy(), np.full((pw, pw), np.nan, dt), np.full(p, np.nan), B.copy()
            c.call("sq_gen_eigensolve", p, U, B2, ev, pw, W)
            V = H(U)
            r.close("geneig", M @ V, B @ V @ np.diag(ev), 1e-9 * (1 + np.abs(M).max()), "%s p=%d generalized eigenproblem" % (nm, p))
            r.close("geneig-norm", H(V) @ B @ V, np.eye(p), 1e-9, "%s p=%d B-orthonormal" % (nm, p))
            if np.any(np.diff(ev) < -1e-12):
                r.fail("order", "%s p=%d eigenvalues not ascending" % (nm, p))
            r.op(2)
        ev = np.full(p, np.nan, complex)
        c.call("sq_eigenvalues", p, M.copy(), ev)
        srt = lambda v: np.array(sorted(v, key=lambda z: (round(z.real, 6), round(z.imag, 6))))
        r.close("geev", srt(ev), srt(np.linalg.eigvals(M).astype(complex)), 1e-6 * (1 + np.abs(M).max()), "%s p=%d general eigenvalues" % (nm, p))
        G = np.ascontiguousarray(M + rnd(c, ("g", p), p, p), dt)
        G0 = G.copy()
        c.call("sq_eigenvalues", p, G, ev)
        r.close("geev-const", G, G0, 0, "argument of eigenvalues is preserved")
        want = np.linalg.eigvals(G0)
        d = [min(abs(x - y) for y in want) for x in ev]
        r.close("geev2", np.array(d), np.zeros(p), 1e-7 * (1 + np.abs(G0).max()), "%s p=%d nonhermitian eigenvalues" % (nm, p))
        if pos:
            R_, U, W = np.full((p, p), np.nan, dt), M.copy(), np.full((p, p), np.nan, dt)
            c.call("sq_sqrt", p, R_, U, W)
            r.close("sqrt", R_ @ R_, M, 1e-10 * (1 + np.abs(M).max()), "%s p=%d square root" % (nm, p))
            r.close("sqrt-herm", R_, H(R_), 1e-11 * (1 + np.abs(R_).max()), "%s p=%d square root hermitian" % (nm, p))
            if np.linalg.eigvalsh((R_ + H(R_)) / 2).min() < -1e-9:
                r.fail("sqrt-pos", "%s p=%d root not positive" % (nm, p))
        # singular / non-positive-definite input must be reported, not silently inverted
        bad = M.copy()
        bad[-1, :] = 0
        bad[:, -1] = 0
        U, W = bad.copy(), np.full((p, p), np.nan, dt)
        if c.call("sq_invert", p, U, 1, p, W):
            r.fail("singular", "%s p=%d singular matrix inverted without an error" % (nm, p))
        if p > 1 and not pos:
            U = M.copy()
            if c.call("sq_invert", p, U, 1, p, W):
                r.fail("notpd", "%s p=%d indefinite matrix accepted as positive definite" % (nm, p))
        r.op(5)
        r.state("dec", case["cfg"], p, nm)
    r.trace()
    r.nontrivial += 1


if __name__ == "__main__":
    vf.Check("C16", "model_checking", cases, run_case, setup=setup,
             rule="register machine over 3 block vectors and 2 square matrices: every sequence of operations up to the depth, final registers and every reduction compared with numpy; plus every slice/offset geometry up to 4 columns and every decomposition per matrix family",
             bounds="42 operations, all sequences of length 2 (3 for small shapes, thorough), 14 shapes, real and complex builds",
             assumptions=["numpy/LAPACK is the oracle"]).main()
