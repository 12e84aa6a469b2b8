#!/usr/bin/env python3-vt
"""C02: every operator application equals the plane-wave definition, for every basis vector."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mpbbuild  # vf first: it pins the BLAS to one thread
import numpy as np
import ref
from core import Core, Maxwell

CONF = {}
EZ, OZ, EY, OY = 1, 2, 4, 8


def core(cfg):
    if cfg not in CONF:
        CONF[cfg] = Core(mpbbuild.Config(cfg).core)
    return CONF[cfg]


def setup(tier):
    for c in ("complex", "inv", "herm"):
        mpbbuild.build(c, what=("core",))


GRIDS_Q = [(1, 1, 1), (2, 1, 1), (3, 1, 1), (5, 1, 1), (8, 1, 1), (2, 2, 1), (3, 2, 1), (4, 3, 1), (1, 4, 1), (5, 5, 1), (2, 2, 2), (3, 2, 2), (2, 3, 4), (1, 1, 3), (3, 1, 2), (4, 4, 2), (3, 3, 3)]
GRIDS_T = GRIDS_Q + [(4, 1, 1), (6, 1, 1), (7, 1, 1), (9, 1, 1), (4, 4, 1), (6, 4, 1), (5, 4, 1), (2, 5, 1), (7, 3, 1), (2, 2, 3), (2, 2, 5), (4, 2, 3), (1, 2, 3), (1, 5, 2), (4, 4, 4), (3, 4, 5), (5, 3, 3), (1, 1, 4), (4, 1, 4)]
KS = {"0": (0, 0, 0), "gen": (0.21, -0.33, 0.17), "inplane": (0.3, 0.4, 0), "xonly": (0.37, 0, 0), "edge": (0.5, 0.5, 0), "zonly": (0, 0, 0.25), "yonly": (0, -0.5, 0), "latt": (1, 0, 0), "big": (2.2, -1.7, 0.6), "xz": (0.2, 0, 0.3)}


def cases(tier):
    grids = GRIDS_Q if tier == "quick" else GRIDS_T
    lats = ["cubic", "tri", "tric"] if tier == "quick" else list(ref.LATS)
    for cfg in ("complex", "inv", "herm"):
        for n in grids:
            if cfg == "inv" and n == (1, 1, 1):
                continue  # a one-point grid is refused (loudly) by the real-FFT build
            for lat in lats:
                for mu in (0, 1):
                    yield {"id": "op-%s-%s-%s-mu%d" % (cfg, "x".join(map(str, n)), lat, mu), "kind": "op", "cfg": cfg, "n": n, "lat": lat, "mu": mu}
        # every storage location of the dielectric, one at a time (the operator is linear in it)
        for n in ([(4, 1, 1), (3, 2, 1), (4, 2, 1), (2, 2, 2), (3, 2, 3)] if tier == "quick" else [(4, 1, 1), (5, 1, 1), (3, 2, 1), (4, 4, 1), (5, 3, 1), (2, 2, 2), (3, 2, 3), (4, 2, 2), (2, 3, 4)]):
            yield {"id": "basis-%s-%s" % (cfg, "x".join(map(str, n))), "kind": "basis", "cfg": cfg, "n": n, "lat": "tric"}
        for n in ([(4, 4, 1), (5, 3, 1), (3, 2, 4), (4, 3, 3), (1, 4, 3)] if tier == "quick" else [(4, 4, 1), (5, 3, 1), (3, 5, 1), (2, 2, 2), (3, 2, 4), (4, 3, 3), (1, 4, 3), (2, 5, 5), (3, 4, 4)]):
            yield {"id": "hist-%s-%s" % (cfg, "x".join(map(str, n))), "kind": "hist", "cfg": cfg, "n": n, "lat": "ortho", "depth": 2 if tier == "quick" else 3}
        for n in ([(3, 2, 1), (2, 2, 2)] if tier == "quick" else [(4, 1, 1), (3, 2, 1), (2, 2, 2), (3, 2, 2)]):
            yield {"id": "plans-%s-%s" % (cfg, "x".join(map(str, n))), "kind": "plans", "cfg": cfg, "n": n, "lat": "tri"}
        for n in ([(1, 1, 1), (4, 1, 1), (5, 1, 1), (4, 4, 1), (3, 5, 1), (1, 4, 1), (2, 4, 4), (3, 4, 5), (3, 1, 3)] if tier == "quick" else GRIDS_T):
            yield {"id": "par-%s-%s" % (cfg, "x".join(map(str, n))), "kind": "par", "cfg": cfg, "n": n}
        if cfg != "inv":
            for n in ([(4, 1, 1), (5, 1, 1), (4, 3, 1), (5, 4, 1), (3, 3, 3), (4, 2, 3)] if tier == "quick" else GRIDS_T):
                yield {"id": "pw-%s-%s" % (cfg, "x".join(map(str, n))), "kind": "pw", "cfg": cfg, "n": n}
        else:
            for n in ([(1, 1, 1), (2, 1, 1), (5, 1, 1), (6, 1, 1), (4, 4, 1), (3, 5, 1), (1, 4, 1), (5, 2, 1), (2, 2, 2), (3, 4, 5), (4, 3, 4), (1, 3, 3), (3, 1, 4)] if tier == "quick" else GRIDS_T):
                yield {"id": "half-%s" % "x".join(map(str, n)), "kind": "half", "cfg": cfg, "n": n}


def point_order(c, n):
    return [ref.indices(n).index(i) for i in ref.half_points(n)] if not c.cplx else list(range(n[0] * n[1] * n[2]))


def basis(r, m, n, kc, G, where):
    """read back and validate the transverse basis; return the dense reference"""
    o = m.kpG()
    q = ref.kpG(n, kc, G)
    # the Nyquist index of an even axis may be represented by either sign
    amb = [i for i, idx in enumerate(ref.indices(n)) if any(a * 2 == b for a, b in zip(idx, n))]
    mn = np.stack([o[:, 2:5], o[:, 5:8]], axis=1)
    qc = np.cross(mn[:, 0], mn[:, 1]) * o[:, :1]
    zero = np.abs(o[:, 0]) < 1e-12
    bad = [i for i in range(m.N) if i not in amb and np.abs(q[i] - qc[i]).max() > 1e-9]
    if bad:
        r.fail("kpG", "%s: plane wave %s is k+G=%s, expected %s" % (where, ref.indices(n)[bad[0]], qc[bad[0]], q[bad[0]]))
    for i in amb:
        # must still be congruent to the index modulo the grid
        d = np.linalg.solve(np.asarray(G).T, qc[i] - np.asarray(kc))
        w = -np.array(ref.indices(n)[i], float)
        rem = (d - w) / np.array(n, float)
        ok = np.abs(rem - np.round(rem)).max() < 1e-8 and np.all(np.abs(d) <= np.array(n) / 2.0 + 1e-9)
        if not ok:
            r.fail("kpG-nyquist", "%s: plane wave %s is k+G=%s" % (where, ref.indices(n)[i], qc[i]))
        q[i] = qc[i]
    r.close("kmag", o[:, 0], np.linalg.norm(q, axis=1), 1e-9, where + " |k+G|")
    r.close("kmag2", o[:, 1], np.sum(q * q, axis=1), 1e-9, where + " |k+G|^2")
    gram = np.einsum("iaj,ibj->iab", mn, mn)
    r.close("orthonormal", gram, np.broadcast_to(np.eye(2), gram.shape), 1e-9, where + " transverse basis")
    return ref.Dense(n, q, mn)


def apply_all(m, c, op, dim, batch, arg=None):
    """full matrix of an operator by applying it to every basis vector, `batch` columns at a time"""
    cols = []
    I = np.eye(dim)
    for b in range(0, dim, batch):
        cols.append(m.op(op, I[:, b:b + batch], arg=arg))
    return np.concatenate(cols, axis=1)


def run_case(case, r):
    n = tuple(case["n"])
    c = core(case["cfg"])
    globals()["k_" + case["kind"]](case, n, c, r)
    r.trace()


def k_op(case, n, c, r):
    R = ref.LATS[case["lat"]]
    G = ref.recip(R)
    N = n[0] * n[1] * n[2]
    order = point_order(c, n)
    herm = c.herm
    eps = ref.tensors(n, "eps", herm, not c.cplx)
    mu = ref.tensors(n, "mu", herm, not c.cplx) if case["mu"] else None
    dim = 2 * N
    for nfft in (1, 2, 3, 8):
        m = Maxwell(c, n, num_bands=8, nfft=nfft)
        m.set_eps_inv(eps[order])
        m.set_mu_inv(None if mu is None else mu[order])
        for kn, k in KS.items():
            if nfft in (1, 8) and kn not in ("0", "gen", "latt"):
                continue
            k = np.array(k, float) * np.array([1, n[1] > 1 or nfft == 3, n[2] > 1 or nfft == 3])
            m.set_k(k, G)
            w = "%s k=%s nfft=%d" % (case["id"], kn, nfft)
            d = basis(r, m, n, k @ G, G, w)
            r.state(case["id"], kn, nfft)
            batch = {1: 2, 2: 5, 3: 1, 8: 16}[nfft]
            A = apply_all(m, c, 0, dim, batch)
            ref_A = d.op(eps, mu)
            if not c.cplx and np.abs(ref_A.imag).max() > 1e-9:
                raise RuntimeError("reference not real")
            s = max(1.0, np.abs(ref_A).max())
            r.close("operator", A / s, ref_A / s, 1e-10, w + " Maxwell operator")
            r.close("hermitian", A / s, np.conj(A.T) / s, 1e-10, w + " hermiticity")
            B = apply_all(m, c, 1, dim, batch)
            r.close("muinv", B, d.muinv(mu), 1e-10, w + " mu^-1 operator")
            for u in ((1.0, 0.0, 0.0), (0.3, -0.7, 0.2)):
                V = apply_all(m, c, 9, dim, batch, arg=np.array(u))
                rv = d.ucross(eps, u)
                s = max(1.0, np.abs(rv).max())
                r.close("ucross", V / s, rv / s, 1e-10, w + " u-cross operator")
            t = 0.37
            T1 = apply_all(m, c, 10, dim, batch, arg=np.array([t]))
            s = max(1.0, np.abs(ref_A).max())
            r.close("target1", T1 / s, (ref_A - t * t * np.eye(dim)) / s, 1e-10, w + " target operator (single)")
            T2 = apply_all(m, c, 11, dim, batch, arg=np.array([t]))
            q = (ref_A - t * t * np.eye(dim))
            r.close("target2", T2 / s ** 2, (q @ q) / s ** 2, 1e-10, w + " target operator (squared)")
            r.op(6 * dim)
            # fields, all band windows of a 3-column block
            if nfft == 8:
                X = ref.hashrng("X", n).normal(size=(dim, 3))
                if c.cplx:
                    X = X + 1j * ref.hashrng("Xi", n).normal(size=(dim, 3))
                D, Hf = d.dfield(X)[order], d.hfield(X)[order]
                E = np.einsum("iab,ibc->iac", eps[order], D)
                for b0 in range(3):
                    for nb in range(1, 4 - b0):
                        for wh, rf, nm in ((0, D, "D"), (1, E, "E"), (2, Hf, "H")):
                            f = m.field(wh, X, b0, nb)
                            s = max(1.0, np.abs(rf).max())
                            r.close("field" + nm, np.moveaxis(f, 1, 2) / s, rf[:, :, b0:b0 + nb] / s, 1e-10, "%s %s field bands %d+%d" % (w, nm, b0, nb))
                            r.op()
                        # H from B into every window of a 4-column target
                        for h0 in range(0, 5 - nb):
                            H = np.full((dim, 4), 7.0).astype(c.dt)
                            c.call("mk_H_from_B", m.h, 3, 4, np.ascontiguousarray(X, c.dt), H, b0, h0, nb)
                            want = np.full((dim, 4), 7.0).astype(c.dt)
                            val = d.muinv(mu) @ X[:, b0:b0 + nb]
                            want[:, h0:h0 + nb] = val if c.cplx else val.real
                            r.close("HfromB", H, want, 1e-9, "%s H from B %d->%d+%d" % (w, b0, h0, nb))
                            r.op()
        m.close()
    r.nontrivial += 1


def k_basis(case, n, c, r):
    G = ref.recip(ref.LATS[case["lat"]])
    N = n[0] * n[1] * n[2]
    order = point_order(c, n)
    idx = ref.indices(n)
    comps = [(i, i, 1.0) for i in range(3)] + [(0, 1, 1.0), (0, 2, 1.0), (1, 2, 1.0)] + ([(0, 1, 1j), (0, 2, 1j), (1, 2, 1j)] if c.herm else [])
    m = Maxwell(c, n, num_bands=4, nfft=4)
    k = np.array([0.21, -0.33, 0.17])
    m.set_k(k, G)
    d = basis(r, m, n, k @ G, G, case["id"])
    for j in order:
        conj = idx.index(tuple((-a) % q for a, q in zip(idx[j], n)))
        for (a, b, v) in comps:
            t = np.zeros((N, 3, 3), complex)
            for p in ({j} if c.cplx else {j, conj}):
                t[p, a, b] = v
                t[p, b, a] = np.conj(v)
            m.set_eps_inv(t[order])
            A = apply_all(m, c, 0, 2 * N, 4)
            w = d.op(t)
            s = max(1.0, np.abs(w).max())
            r.close("basis", A / s, w / s, 1e-10, "%s point %s comp %s%s" % (case["id"], idx[j], (a, b), v))
            r.op(2 * N)
            r.state(case["id"], j, a, b, str(v))
            r.nontrivial += 1
    m.close()


def k_hist(case, n, c, r):
    """every sequence of configuration steps on one handle, operator re-checked against a fresh reference after each"""
    R = ref.LATS[case["lat"]]
    G = ref.recip(R)
    N = n[0] * n[1] * n[2]
    order = point_order(c, n)
    e = [ref.tensors(n, "e%d" % i, c.herm, not c.cplx) for i in range(2)]
    u = ref.tensors(n, "mu", c.herm, not c.cplx)
    ks = [(0, 0, 0), (0.2, 0.1, 0), (0.1, 0.2, 0.3 if n[2] > 1 else 0)]
    steps = [("k", i) for i in range(3)] + [("eps", 0), ("eps", 1), ("mu", 0), ("mu", 1), ("bands", 2), ("bands", 5), ("parity", EZ), ("parity", 0), ("parity", OY)]
    X = ref.hashrng("X", n).normal(size=(2 * N, 4)).astype(c.dt)
    cache = {}

    def refop(k, ei, mi):
        if (k, ei, mi) not in cache:
            mm = Maxwell(c, n, 4, 4)
            kc = np.array(ks[k]) @ G
            mm.set_k(ks[k], G)
            d = basis(r, mm, n, kc, G, case["id"])
            cache[(k, ei, mi)] = (d.op(e[ei], u if mi else None), d.muinv(u if mi else None))
            mm.close()
        return cache[(k, ei, mi)]
    for seq in itertools.product(range(len(steps)), repeat=case["depth"]):
        m = Maxwell(c, n, 5, 3)
        st = {"k": 0, "eps": 0, "mu": 0}
        m.set_k(ks[0], G)
        m.set_eps_inv(e[0][order])
        for s in seq:
            what, v = steps[s]
            if what == "k":
                m.set_k(ks[v], G)
                st["k"] = v
            elif what == "eps":
                m.set_eps_inv(e[v][order])
                st["eps"] = v
            elif what == "mu":
                m.set_mu_inv(u[order] if v else None)
                st["mu"] = v
            elif what == "bands":
                c.call("mk_set_num_bands", m.h, v)
            else:
                m.set_parity(v)
            A, B = refop(st["k"], st["eps"], st["mu"])
            s_ = max(1.0, np.abs(A).max())
            r.close("hist-op", m.op(0, X) / s_, A @ X / s_, 1e-9, "%s after %s" % (case["id"], [steps[q] for q in seq]))
            r.close("hist-mu", m.op(1, X), B @ X, 1e-9, "%s mu after %s" % (case["id"], [steps[q] for q in seq]))
            r.op(3)
            r.state(case["id"], sorted(st.items()), what, v)
        m.close()
        r.trace()
    r.nontrivial += 1


def k_plans(case, n, c, r):
    """more distinct band counts than the plan cache holds, twice over, in both orders"""
    G = ref.recip(ref.LATS[case["lat"]])
    N = n[0] * n[1] * n[2]
    order = point_order(c, n)
    e = ref.tensors(n, "eps", c.herm, not c.cplx)
    u = ref.tensors(n, "mu", c.herm, not c.cplx)
    m = Maxwell(c, n, 48, 48)
    m.set_k((0.2, 0.1, 0), G)
    m.set_eps_inv(e[order])
    m.set_mu_inv(u[order])
    d = basis(r, m, n, np.array((0.2, 0.1, 0)) @ G, G, case["id"])
    A = d.op(e, u)
    X = ref.hashrng("X", n).normal(size=(2 * N, 48)).astype(c.dt)
    W = A @ X
    for sweep in (range(1, 49), range(48, 0, -1), range(1, 49)):
        for p in sweep:
            r.close("plans", m.op(0, X[:, :p]), W[:, :p], 1e-9 * max(1, np.abs(W).max()), "%s p=%d" % (case["id"], p))
            r.op()
            r.state(case["id"], p)
    m.close()
    r.nontrivial += 1


def k_par(case, n, c, r):
    """mirror projections and expectation values, on every basis vector"""
    N = n[0] * n[1] * n[2]
    idx = ref.indices(n)
    for lat in ("cubic", "ortho"):
        G = ref.recip(ref.LATS[lat])
        for k in ((0, 0, 0), (0.3, 0, 0), (0.3, 0.2, 0), (0.3, 0, 0.2), (0.1, 0.2, 0.3)):
            m = Maxwell(c, n, 4, 4)
            m.set_k(k, G)
            w0 = "%s %s k=%s" % (case["id"], lat, k)
            d = basis(r, m, n, np.array(k) @ G, G, w0)
            mir = {}
            for ax, (E, O) in ((2, (EZ, OZ)), (1, (EY, OY))):
                PP = {}
                allowed = k[ax] == 0
                for p in (E, O):
                    m.set_parity(p)
                    PP[p] = apply_all(m, c, 5, 2 * N, 3)
                    r.op(2 * N)
                    r.state(case["id"], lat, k, p)
                    w = "%s parity %d" % (w0, p)
                    if not allowed:
                        r.close("par-noop", PP[p], np.eye(2 * N), 0, w + " must be inert when k breaks the mirror")
                        continue
                    r.close("par-idem", PP[p] @ PP[p], PP[p], 1e-12, w + " projector idempotent")
                    r.close("par-herm", PP[p], np.conj(PP[p].T), 1e-12, w + " projector hermitian")
                if not allowed:
                    continue
                r.close("par-sum", PP[E] + PP[O], np.eye(2 * N), 1e-12, w0 + " even+odd projector")
                M = PP[E] - PP[O]
                mir[ax] = M
                # cartesian mirror of the pseudovector H on all non-Nyquist plane waves
                s3 = np.full(3, -1.0)
                s3[ax] = 1.0
                for i, ii in enumerate(idx):
                    if n[ax] > 1 and ii[ax] * 2 == n[ax]:
                        continue
                    jj = list(ii)
                    jj[ax] = (-jj[ax]) % n[ax]
                    j = idx.index(tuple(jj))
                    for a in range(2):
                        want = np.zeros((N, 3))
                        want[j] = s3 * d.mn[i, a]
                        got = (d.T @ M[:, 2 * i + a]).reshape(N, 3)
                        r.close("mirror", got, want, 1e-10, "%s mirror axis %d of plane wave %s comp %d" % (w0, ax, ii, a))
                # expectation value
                X = ref.hashrng("px", n).normal(size=(2 * N, 5)).astype(c.dt)
                if c.cplx:
                    X = X + 1j * ref.hashrng("pxi", n).normal(size=(2 * N, 5))
                X = np.concatenate([X, PP[E] @ X[:, :1], PP[O] @ X[:, 1:2]], axis=1)
                keep = np.linalg.norm(X, axis=0) > 1e-9
                X = np.ascontiguousarray(X[:, keep], c.dt)
                o = np.zeros(X.shape[1])
                c.call("mk_zparity" if ax == 2 else "mk_yparity", m.h, X.shape[1], X, o)
                want = np.real(np.einsum("ia,ia->a", np.conj(X), M @ X)) / np.sum(np.abs(X) ** 2, axis=0)
                r.close("parity-value", o, want, 1e-10, w0 + " parity expectation axis %d" % ax)
                r.op()
            # combined and contradictory parities
            for pz in (0, EZ, OZ, EZ | OZ):
                for py in (0, EY, OY, EY | OY):
                    m.set_parity(pz | py)
                    P = apply_all(m, c, 5, 2 * N, 4)
                    r.op(2 * N)
                    W = np.eye(2 * N)
                    if 2 in mir and pz in (EZ, OZ):
                        W = 0.5 * (np.eye(2 * N) + (1 if pz == EZ else -1) * mir[2]) @ W
                    if 1 in mir and py in (EY, OY):
                        W = 0.5 * (np.eye(2 * N) + (1 if py == EY else -1) * mir[1]) @ W
                    r.close("par-comb", P, W, 1e-12, "%s combined parity %d" % (w0, pz | py))
                    r.state(case["id"], lat, k, pz | py)
                    # constant (zero-frequency) fields at k=0 within this parity
                    if k == (0, 0, 0):
                        for p in (1, 2, 3):
                            Y, nc = m.op(14, np.full((2 * N, p), 3.0))
                            dc = [W[a, a] for a in range(2)]
                            wantn = min(p, sum(1 for a in range(2) if abs(dc[a] - 1) < 1e-9))
                            if nc != wantn:
                                r.fail("const-bands", "%s parity %d p=%d: %d constant bands, want %d" % (w0, pz | py, p, nc, wantn))
                            Q = Y[:, :nc]
                            r.close("const-orth", np.conj(Q.T) @ Q, np.eye(nc), 1e-12, w0 + " constant bands orthonormal")
                            r.close("const-dc", np.abs(Q[2:]).sum(), 0.0, 0, w0 + " constant bands are DC only")
                            r.close("const-par", W @ Q, Q, 1e-12, w0 + " constant bands have the parity")
                            r.close("const-rest", Y[:, nc:], np.full((2 * N, p - nc), 3.0), 0, w0 + " other bands untouched")
                            r.op()
                        Z = apply_all(m, c, 8, 2 * N, 2)
                        zz = np.eye(2 * N)
                        zz[0, 0] = zz[1, 1] = 0
                        r.close("zero-k", Z, zz, 0, w0 + " zero-k constraint")
            m.close()
    r.nontrivial += 1


def k_pw(case, n, c, r):
    """set_planewave / dominant planewave for every admissible G"""
    N = n[0] * n[1] * n[2]
    G = ref.recip(ref.LATS["tric"])
    for k in ((0.21, 0.33, 0.17), (0, 0, 0), (0.5, 0, 0)):
        kk = np.array(k)
        m = Maxwell(c, n, 4, 4)
        m.set_k(kk, G)
        d = basis(r, m, n, kk @ G, G, case["id"])
        rng = [range(-((q - 1) // 2), (q - 1) // 2 + 1) for q in n]
        for g in itertools.product(*rng):
            q = (kk + np.array(g)) @ G
            ln = np.linalg.norm(q)
            if ln < 1e-9:
                continue
            for axis in ((0.0, 0.0, 1.0), (0.3, 1.0, -0.2)):
                if np.linalg.norm(np.cross(q, axis)) < 1e-6:
                    continue
                for (s, p) in ((1, 0), (0, 1), (0.6 + 0.3j, -0.2 + 0.9j)):
                    H = np.full((2 * N, 3), 5.0).astype(c.dt)
                    c.call("mk_set_planewave", m.h, 3, H, 2, np.array(g, np.int32), np.array([complex(s).real, complex(s).imag, complex(p).real, complex(p).imag]), np.array(axis))
                    qh = q / ln
                    ph = np.cross(qh, axis)
                    ph /= np.linalg.norm(ph)
                    sh = np.cross(qh, ph)
                    want = (s * sh + p * ph)
                    got = (d.T @ H[:, 1]).reshape(N, 3)
                    w = np.zeros((N, 3), complex)
                    hit = [i for i in range(N) if np.abs(d.q[i] - q).max() < 1e-9]
                    if len(hit) != 1:
                        r.fail("pw-missing", "%s g=%s not representable" % (case["id"], g))
                        continue
                    w[hit[0]] = want
                    r.close("planewave", got, w, 1e-10, "%s k=%s g=%s axis=%s" % (case["id"], k, g, axis))
                    r.close("pw-others", H[:, [0, 2]], np.full((2 * N, 2), 5.0), 0, "%s other bands untouched" % case["id"])
                    o = np.zeros(3)
                    c.call("mk_dominant", m.h, 3, H, 2, o)
                    r.close("dominant", o, q, 1e-9, "%s k=%s g=%s dominant plane wave" % (case["id"], k, g))
                    r.op(2)
                    r.state(case["id"], k, g, axis, str((s, p)))
        # dominance is by total intensity of both polarizations, for every pair of plane waves
        for i in range(N):
            for j in range(N):
                if i == j or (j - i) % 3:
                    continue
                X = np.zeros((2 * N, 1), c.dt)
                X[2 * i, 0], X[2 * i + 1, 0] = 0.8, -0.7
                X[2 * j, 0] = 1.0
                o = np.zeros(3)
                c.call("mk_dominant", m.h, 1, X, 1, o)
                r.close("dominant2", o, d.q[i], 1e-9, "%s dominant of two" % case["id"])
                r.op()
        m.close()
    r.nontrivial += 1


def k_half(case, n, c, r):
    """the redundant half of every inversion-symmetric field is reconstructed exactly, for every Bloch phase"""
    N = n[0] * n[1] * n[2]
    idx = ref.indices(n)
    rank = 3 if n[2] > 1 else 2 if n[1] > 1 else 1
    last = n[rank - 1]
    half = ref.half_points(n)
    m = Maxwell(c, n, 2, 2)
    nstored, nnew = last // 2 + 1, last - (last // 2 + 1)
    for k in ((0, 0, 0), (0.5, 0, 0), (0.13, 0.29, -0.41), (0, 0.25, 0), (0, 0, 0.3)):
        kk = np.array([k[0], k[1] if rank > 1 else 0, k[2] if rank > 2 else 0])
        g = ref.hashrng("half", n, k)
        # periodic part u with u(-r) = conj(u(r)); field = u exp(ikr)
        u = g.normal(size=(N, 3)) + 1j * g.normal(size=(N, 3))
        full = np.zeros((N, 3), complex)
        for j, i in enumerate(idx):
            cidx = idx.index(tuple((-a) % q for a, q in zip(i, n)))
            full[j] = (u[j] + np.conj(u[cidx])) / 2
        bl = np.array([np.exp(2j * np.pi * np.dot(kk, np.array(i) / np.array(n, float))) for i in idx])
        full = full * bl[:, None]
        st = np.array([full[idx.index(i)] for i in half])
        rest = [i for i in idx if i not in set(half)]
        # storage order of the other half: same leading index, increasing last index
        rest = sorted(rest)
        want = np.array([full[idx.index(i)] for i in rest]) if rest else np.zeros((0, 3))
        f = np.array(st, order="C")
        c.call("mk_otherhalf_v", m.h, f, np.array(kk, float))
        r.close("half-vector", f[:len(rest)], want, 1e-12, "%s k=%s vector field" % (case["id"], k))
        for cc in range(3):
            f = np.array(st[:, cc], order="C")
            c.call("mk_otherhalf_c", m.h, f, np.array(kk, float))
            r.close("half-cscalar", f[:len(rest)], want[:, cc], 1e-12, "%s k=%s complex scalar field" % (case["id"], k))
            a = np.abs(full[:, cc]) ** 2
            s = np.array([a[idx.index(i)] for i in half])
            wr = np.array([a[idx.index(i)] for i in rest])
            f = np.array(s, order="C")
            c.call("mk_otherhalf_r", m.h, f)
            r.close("half-scalar", f[:len(rest)], wr, 1e-12, "%s real scalar field" % case["id"])
        r.op(7)
        r.state(case["id"], k)
    m.close()
    r.nontrivial += 1


if __name__ == "__main__":
    vf.Check("C02", "model_checking", cases, run_case, setup=setup,
             rule="one case = one (build, grid, lattice) cell; inside it every basis vector, k-point, band batching, parity combination or operation sequence is enumerated; a cell is non-trivial when the operator or map under test is applied to every basis vector",
             bounds="grids up to 5x5 / 4x4x2, 10 k-points, 3 lattices, batch sizes 1,2,3,8; configuration sequences of depth 2 (3 thorough)",
             assumptions=["numpy dense linear algebra is the oracle", "tolerance 1e-10 relative on operator matrix elements"]).main()
