#!/usr/bin/env python3-vt
"""C08: point queries and integrals agree with the stored grid everywhere in space.

Part A ("grid"): every grid shape up to 4x4x4 (thorough 5x5x5), sized and unsized degenerate axes, both builds: fields of
every kind with arbitrary stored values are queried through every interface on a lattice of positions that has, along
each axis, every grid point, points between every pair of neighbours, the cell boundaries and points several cells away;
every integral is taken with a function that records each call it receives.
Part B ("phys"): the same for every kind of solved field of every structure."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mpbbuild
import numpy as np
import ref, ctl, scene, fieldref
from fieldref import cv

SIZE = (1.3, 0.7, 2.1)
R = [[1.0, 0.2, 0.1], [-0.3, 1.1, 0.0], [0.15, 0.1, 0.9]]
KPT = (0.31, -0.17, 0.23)


def setup(tier):
    for c in ("complex", "inv", "herm"):
        mpbbuild.build(c, what=("mpb",))


def cases(tier):
    top = 4 if tier != "thorough" else 6
    for n in itertools.product(range(1, top + 1), repeat=3):
        for cfg in ("complex", "inv"):
            if cfg == "inv" and n == (1, 1, 1):
                continue        # refused: FFTW has no real transform of a single point
            for sized in ((True, False) if 1 in n else (True,)):
                yield {"id": "grid-%s-%d%d%d-%s" % (cfg, *n, "s" if sized else "u"), "kind": "grid", "n": n, "cfg": cfg, "sized": sized}
    for sc in scene.ALL:
        for cfg in sc.builds():
            yield {"id": "phys-%s-%s" % (sc.name, cfg), "kind": "phys", "scene": sc.name, "cfg": cfg}


def axis(n, ext):
    x = [(i + f) / n - 0.5 for i in range(n) for f in (0, 0.3)]
    return x + ([-0.5 - 0.3 / n, 0.5, 0.5 + 0.2 / n, 1.9, -2.15] if ext else [0.5 + 0.2 / n, -0.5 - 0.3 / n])


def interp(n, grid, frac):
    """periodic multilinear interpolation of grid (N, ...) at fractional positions"""
    n = np.array(n)
    t = (frac + 0.5) * n
    i0 = np.floor(t).astype(int)
    w = t - i0
    out = 0
    for c in itertools.product((0, 1), repeat=3):
        ww = np.prod(np.where(np.array(c)[None, :] == 1, w, 1 - w), axis=1)
        j = (i0 + np.array(c)) % n
        g = grid[(j[:, 0] * n[1] + j[:, 1]) * n[2] + j[:, 2]]
        out = out + ww.reshape((-1,) + (1,) * (g.ndim - 1)) * g
    return out


def expand(n, cfg, stored, conj):
    """stored values in storage order -> the full grid"""
    N = int(np.prod(n))
    stored = np.asarray(stored)
    if cfg != "inv":
        return stored
    last = 2 if n[2] > 1 else 1 if n[1] > 1 else 0
    nl = n[last] // 2 + 1
    m = list(n)
    m[last] = nl
    out = np.empty((N,) + stored.shape[1:], stored.dtype)
    for x, i in enumerate(itertools.product(*[range(a) for a in n])):
        c = i[last] >= nl
        j = [(-a) % b for a, b in zip(i, n)] if c else i
        v = stored[(j[0] * m[1] + j[1]) * m[2] + j[2]]
        out[x] = np.conj(v) if c and conj else v
    return out


LIB = """
(define (raw f kind)
  (let ((acc '()) (t (field-copy f)))
    (field-map! t (lambda (v) (set! acc (cons v acc)) v) t)
    (reverse acc)))
(define calls '())
(define (rec3 a b c) (set! calls (cons (list a b c) calls)))
(define (take-calls) (let ((c (reverse calls))) (set! calls '()) c))
(define FI (lambda (F eps r) (rec3 F eps r) (+ (* eps (vector3-cdot F F)) (vector3-dot (vector3 0.3 0.7+1i -0.4) F) (vector3-x r) (* 0+2i (vector3-y r)))))
(define EI (lambda (u eps r) (rec3 u eps r) (+ (* u u eps) (* u (vector3-z r)) (vector3-x r))))
"""


def match_calls(r, key, calls, want, p, tol, tag):
    """every grid point exactly once; values in any order. want: list of columns (arrays); p: positions"""
    N = len(p)
    if len(calls) != N:
        r.fail(key, "%s: user function called %d times for %d grid points" % (tag, len(calls), N))
        return
    pos = np.array([c["r"] for c in calls], float)
    used = np.zeros(N, bool)
    for c, x in zip(calls, pos):
        d = np.abs(p - x).max(1)
        i = int(np.argmin(d))
        if d[i] > 1e-9 or used[i]:
            r.fail(key, "%s: user function called at %s: %s" % (tag, x, "twice" if d[i] <= 1e-9 else "not a grid point"))
            return
        used[i] = True
        for k, w in want.items():
            e = np.abs(np.array(c[k], complex) - w[i]).max()
            if not e <= tol:
                r.fail(key, "%s: user function received %s=%s at %s, stored %s" % (tag, k, c[k], x, w[i]))
                return




def grid(case, r):
    n, cfg = tuple(case["n"]), case["cfg"]
    N = int(np.prod(n))
    ss = [1.0 if (not case["sized"] and a == 1) else s for a, s in zip(n, SIZE)]
    size = [None if (not case["sized"] and a == 1) else s for a, s in zip(n, SIZE)]
    res = [1.0 if s is None else (a - 0.3) / s for a, s in zip(n, SIZE)]
    for a in (2, 1):
        # a trailing axis with a single point is not a dimension of the problem: it has the length of its basis vector
        if n[a] > 1:
            break
        ss[a] = 1.0
    # lattice vectors along unsized axes must be orthogonal to the others for the reduced problem to make sense: use a skew
    # lattice only when every axis is sized
    skew = all(s is not None for s in size)
    sc = scene.Scene("g", R if skew else None, size, res,
                     [ctl.block((0, 0, 0), (0.6 * ss[0], 1e20, 1e20), {"epsilon-diag": (3.0, 5.0, 2.0), "epsilon-offdiag": (0.4, 0.2, -0.3)}),
                      ctl.block((0, 0, 0), (1e20, 0.45 * ss[1], 0.4 * ss[2]), 7.0)])
    scr = sc.script()
    sc.ss = ss
    sc.R = np.diag(ss) @ sc.B
    sc.G = ref.recip(sc.R)
    if sc.n != n:
        raise RuntimeError("grid %s %s" % (sc.n, n))
    big = N > 32
    fr = np.array(list(itertools.product(*[axis(a, not big or i == big % 3) for i, a in enumerate(n)])))
    pts = fr * np.array(ss)
    # stored values: arbitrary, different at every stored point
    s = scr + "(set! num-bands 1)(init-params NO-PARITY true)" + LIB
    s += "(define pts (list %s))\n" % "".join("(vector3 %r %r %r)" % tuple(p) for p in pts.tolist())
    s += "(solve-kpoint %s)(get-epsilon)(define n 0)\n" % ctl.v3(KPT)
    s += """
(define fr (rscalar-field-make cur-field))(define fc (cscalar-field-make cur-field))(define fv (cvector-field-make cur-field))(define fn (cvector-field-make cur-field))(define fe (field-copy cur-field))
(define (h i c) (sin (+ (* 1.7 i) (* 2.3 c) 0.4)))
(define (g i c) (make-rectangular (h i c) (h i (+ c 10))))
(set! n 0)(field-map! fr (lambda (x) (set! n (+ n 1)) (h n 0)) fr)
(set! n 0)(field-map! fc (lambda (x) (set! n (+ n 1)) (g n 1)) fc)
(set! n 0)(field-map! fv (lambda (x) (set! n (+ n 1)) (vector3 (g n 2) (g n 3) (g n 4))) fv)
(field-set! fn fv)(cvector-field-nonbloch! fn)
(emit 'rawe (raw fe 0))(emit 'rawr (raw fr 0))(emit 'rawc (raw fc 0))(emit 'rawv (raw fv 0))(emit 'rawn (raw fn 0))
(emit 'eps (map get-epsilon-point pts))(emit 'ei (map get-epsilon-inverse-tensor-point pts))
(emit 'oe (map (lambda (p) (rscalar-field-get-point fe p)) pts))
(emit 'or (map (lambda (p) (rscalar-field-get-point fr p)) pts))
(emit 'oc (map (lambda (p) (cscalar-field-get-point fc p)) pts))
(emit 'ov (map (lambda (p) (cvector-field-get-point fv p)) pts))
(emit 'ovb (map (lambda (p) (cvector-field-get-point-bloch fv p)) pts))
(emit 'on (map (lambda (p) (cvector-field-get-point fn p)) pts))
(emit 'onb (map (lambda (p) (cvector-field-get-point-bloch fn p)) pts))
(field-load fr)(emit 'cr (map get-energy-point pts))(emit 'crs (map get-scalar-field-point pts))
(emit 'ir (compute-energy-integral EI) (take-calls))
(emit 'ir2 (compute-field-integral EI) (take-calls))
(field-load fc)(emit 'cc (map get-cscalar-point pts))(emit 'ccb (map get-bloch-cscalar-point pts))
(field-load fv)(emit 'cv (map get-field-point pts))(emit 'cvb (map get-bloch-field-point pts))
(emit 'iv (compute-field-integral FI) (take-calls))
(field-load fn)(emit 'cn (map get-field-point pts))(emit 'cnb (map get-bloch-field-point pts))
(emit 'in (compute-field-integral FI) (take-calls))
(emit 'i0 (integrate-fields (lambda (r) (set! calls (cons (list r) calls)) (+ 1 (* 0+1i (vector3-x r)) (vector3-y r)))) (take-calls))
(emit 'i4 (integrate-fields (lambda (r a b c d) (set! calls (cons (list r a b c d) calls)) (+ a (* b 2) (vector3-x c) (* 0+1i (vector3-z d)) (vector3-z r))) fr fc fv fn) (take-calls))
(emit 'i1 (integrate-fields (lambda (r e) (set! calls (cons (list r e) calls)) e) fe) (take-calls))
(field-load fv)(emit 'ic (integrate-fields (lambda (r e) (set! calls (cons (list r e) calls)) (vector3-y e)) cur-field) (take-calls))
"""
    res_ = ctl.run(cfg, s)
    tag = "grid %s %s%s" % (n, cfg, "" if case["sized"] else " unsized")
    if not res_.ok():
        r.fail("died", "%s %s" % (tag, res_.tail()))
        return
    o = lambda t: res_.one(t)
    # what is stored, as written by the formula
    ns = len(o("rawr")[0])
    i = np.arange(1, ns + 1)
    h = lambda c: np.sin(1.7 * i + 2.3 * c + 0.4)
    g = lambda c: h(c) + 1j * h(c + 10)
    want = {"r": h(0), "c": g(1), "v": np.stack([g(2), g(3), g(4)], 1)}
    want["n"] = want["v"]
    nl = N if cfg != "inv" else N // n[2 if n[2] > 1 else 1 if n[1] > 1 else 0] * (n[2 if n[2] > 1 else 1 if n[1] > 1 else 0] // 2 + 1)
    if ns != nl:
        r.fail("stored", "%s: field-map! visited %d stored points, the grid stores %d" % (tag, ns, nl))
        return
    for q in "rcvn":
        got = cv(o("raw" + q)[0]) if q in "vn" else np.array(o("raw" + q)[0], complex)
        r.close("map", got, want[q].astype(complex), 1e-12, tag + " values set by field-map! " + q)
    F = {q: expand(n, cfg, want[q], q != "r") for q in "rcvn"}
    ek = "inv" if cfg == "inv" else cfg
    tens = scene.tensor_grid(o("ei")[0])
    # the stored dielectric tensor: the answers at the grid points
    gidx = [j for j, f in enumerate(fr) if np.allclose((f + 0.5) * np.array(n) % 1, 0) and (f >= -0.5).all() and (f < 0.5 - 1e-9).all()]
    if len(gidx) != N:
        raise RuntimeError("grid points %d %d" % (len(gidx), N))
    order = sorted(gidx, key=lambda j: tuple(np.round((fr[j] + 0.5) * np.array(n)).astype(int)))
    T = tens[order]
    em = fieldref.mean_medium(T)
    E = expand(n, cfg, np.array(o("rawe")[0], float), False)
    r.close("eps-stored", E, em, 1e-9, tag + " get-epsilon against the stored tensor")
    ti = interp(n, T, fr)
    r.close("eps-tensor", tens, ti, 1e-10, tag + " inverse tensor between grid points")
    r.close("eps-point", np.array(o("eps")[0], float), fieldref.mean_medium(ti), 1e-9, tag + " get-epsilon-point")
    ph = np.exp(2j * np.pi * (fr * np.array([1.0] * 3)) @ np.array(KPT))
    for q, cur in (("r", ("cr", "crs")), ("c", ("cc", "ccb")), ("v", ("cv", "cvb")), ("n", ("cn", "cnb"))):
        b = interp(n, F[q], fr)
        full = b if q in "rn" else b * (ph if q == "c" else ph[:, None])
        A = lambda t: cv(o(t)[0]) if q in "vn" else np.array(o(t)[0], complex)
        r.close("point-" + q, A("o" + q), full.astype(complex), 1e-11, tag + " field object query " + q)
        r.close("cur-" + q, A(cur[0]), full.astype(complex), 1e-11, tag + " current field query " + q)
        r.close("cur-" + q, A(cur[1]), b.astype(complex), 1e-11, tag + " current field query " + cur[1])
        if q in "vn":
            r.close("point-" + q, A("o" + q + "b"), b, 1e-11, tag + " Bloch envelope query " + q)
        r.op(4 * len(fr))
    r.close("point-e", np.array(o("oe")[0], float), interp(n, E, fr), 1e-10, tag + " rscalar-field-get-point epsilon")
    # integrals
    m = fieldref.Model(sc, T)
    pos = m.p
    V = m.Vol / N
    vec = np.array([0.3, 0.7 + 1j, -0.4])
    phg = np.exp(2j * np.pi * m.frac @ np.array(KPT))
    for t in ("ir", "ir2"):
        val, calls = o(t)
        match_calls(r, "calls-" + t, [dict(u=c[0], e=c[1], r=c[2]) for c in calls], {"u": F["r"], "e": em}, pos, 1e-9, tag + " " + t)
        r.close("int-" + t, complex(val), complex(np.sum(F["r"] ** 2 * em + F["r"] * pos[:, 2] + pos[:, 0]) * V), 1e-9, tag + " " + t)
    for t, q in (("iv", "v"), ("in", "n")):
        val, calls = o(t)
        f = F[q] * (phg[:, None] if q == "v" else 1)
        match_calls(r, "calls-" + t, [dict(F=c[0], e=c[1], r=c[2]) for c in calls], {"F": f, "e": em}, pos, 1e-9, tag + " " + t)
        # vector3-dot does not conjugate
        w = np.sum(em * np.sum(abs(f) ** 2, 1) + f @ vec + pos[:, 0] + 2j * pos[:, 1]) * V
        r.close("int-" + t, complex(val), complex(w), 1e-9, tag + " " + t)
    val, calls = o("i0")
    match_calls(r, "calls-i0", [dict(r=c[0]) for c in calls], {}, pos, 1e-9, tag + " integrate-fields without fields")
    r.close("int-i0", complex(val), complex(np.sum(1 + 1j * pos[:, 0] + pos[:, 1]) * V), 1e-9, tag + " i0")
    val, calls = o("i4")
    match_calls(r, "calls-i4", [dict(r=c[0], a=c[1], b=c[2], c=c[3], d=c[4]) for c in calls], {"a": F["r"], "b": F["c"], "c": F["v"], "d": F["n"]}, pos, 1e-9, tag + " integrate-fields")
    r.close("int-i4", complex(val), complex(np.sum(F["r"] + 2 * F["c"] + F["v"][:, 0] + 1j * F["n"][:, 2] + pos[:, 2]) * V), 1e-9, tag + " i4")
    val, calls = o("i1")
    match_calls(r, "calls-i1", [dict(r=c[0], a=c[1]) for c in calls], {"a": em}, pos, 1e-9, tag + " i1")
    r.close("int-i1", complex(val), complex(np.sum(em) * V), 1e-9, tag + " i1")
    val, calls = o("ic")
    match_calls(r, "calls-ic", [dict(r=c[0], a=c[1]) for c in calls], {"a": F["v"]}, pos, 1e-9, tag + " ic")
    r.close("int-ic", complex(val), complex(np.sum(F["v"][:, 1]) * V), 1e-9, tag + " ic")
    r.op(8)
    r.state(n, cfg, case["sized"])
    for f in fr[:: max(1, len(fr) // 200)]:
        r.state(n, cfg, case["sized"], f.tolist())
    r.trace()


VEC = [("d", "(get-dfield 2)"), ("e", "(get-efield 2)"), ("b", "(get-bfield 2)"), ("h", "(get-hfield 1)"), ("v", "(get-poynting 2)"), ("ed", "(get-dfield 1)(get-efield-from-dfield)")]
SCA = [("D", "(get-dfield 2)(compute-field-energy)"), ("B", "(get-bfield 1)(compute-field-energy)"), ("R", "(get-tot-pwr 2)"), ("n", "(get-epsilon)")]


def phys(case, r):
    sc, cfg = scene.BY[case["scene"]], case["cfg"]
    n, N = sc.n, int(np.prod(sc.n))
    rng = np.random.RandomState(5)
    fr = np.array(list(itertools.product(*[[-0.5 + 0.0 / a, -0.5 + 0.37 / a, 0.5 + 0.21 / a, -1.7, (a // 2) / a - 0.5 + 0.6 / a] if a > 1 else [0.0, 0.31, -1.4] for a in n])))
    pts = fr * np.array(sc.ss)
    k = {1: (0.3, 0.1, 0.2), 2: (0.3, 0.15, 0.0), 3: (0.3, 0.15, 0.22)}[3 if n[2] > 1 else 2 if n[1] > 1 else 1]
    s = sc.script() + "(set! num-bands 2)(set! deterministic? true)(init-params NO-PARITY true)" + LIB
    s += "(define pts (list %s))\n(solve-kpoint %s)" % ("".join("(vector3 %r %r %r)" % tuple(p) for p in pts.tolist()), ctl.v3(k))
    s += "(emit 'T (map get-epsilon-inverse-tensor-point %s))(emit 'tp (map get-epsilon-inverse-tensor-point pts))(emit 'ep (map get-epsilon-point pts))\n" % sc.pts()
    for t, load in VEC:
        s += """%s(emit 'v "%s" (raw cur-field 0) (map get-field-point pts) (map get-bloch-field-point pts)
 (let ((c (field-copy cur-field))) (map (lambda (p) (cvector-field-get-point c p)) pts))
 (map (lambda (p) (cvector-field-get-point-bloch cur-field p)) pts)
 (compute-field-integral FI) (take-calls) (integrate-fields (lambda (r a) (set! calls (cons (list r a) calls)) (vector3-x a)) cur-field) (take-calls))\n""" % (load, t)
    for t, load in SCA:
        s += """%s(emit 's "%s" (raw cur-field 0) (map (lambda (p) (rscalar-field-get-point cur-field p)) pts) (let ((c (field-copy cur-field))) (map (lambda (p) (rscalar-field-get-point c p)) pts))
 %s (integrate-fields (lambda (r a) (set! calls (cons (list r a) calls)) a) cur-field) (take-calls))\n""" % (
            load, t, "(map get-energy-point pts) (compute-energy-integral EI) (take-calls)" if t != "n" else "0 0 0")
    if cfg != "inv":
        s += "(get-hfield 1)(compute-field-divergence)(emit 'c (raw cur-field 0) (map get-cscalar-point pts) (map get-bloch-cscalar-point pts) (map (lambda (p) (cscalar-field-get-point cur-field p)) pts))"
    s += "(emit 'done)"
    res = ctl.run(cfg, s)
    tag = "%s %s" % (sc.name, cfg)
    if not res.ok() or not res.by.get("done"):
        r.fail("died", "%s %s" % (tag, res.tail()))
        return
    T = scene.tensor_grid(res.one("T")[0])
    m = fieldref.Model(sc, T)
    ti = interp(n, T, fr)
    r.close("eps-tensor", scene.tensor_grid(res.one("tp")[0]), ti, 1e-10, tag)
    r.close("eps-point", np.array(res.one("ep")[0], float), fieldref.mean_medium(ti), 1e-9, tag)
    ph = np.exp(2j * np.pi * fr @ np.array(k))
    phg = np.exp(2j * np.pi * m.frac @ np.array(k))
    V = m.Vol / N
    vec = np.array([0.3, 0.7 + 1j, -0.4])
    for row in res.by["v"]:
        t = row[0]
        F = expand(n, cfg, cv(row[1]), True)
        b = interp(n, F, fr)
        P = np.ones(len(fr)) if t == "v" else ph
        Pg = np.ones(N) if t == "v" else phg
        tl = 1e-11 * max(1, abs(F).max())
        r.close("get-field-point", cv(row[2]), b * P[:, None], tl, tag + " " + t)
        r.close("get-bloch-field-point", cv(row[3]), b, tl, tag + " " + t)
        r.close("cvector-field-get-point", cv(row[4]), b * P[:, None], tl, tag + " " + t)
        r.close("cvector-field-get-point-bloch", cv(row[5]), b, tl, tag + " " + t)
        f = F * Pg[:, None]
        match_calls(r, "calls-field", [dict(F=c[0], e=c[1], r=c[2]) for c in row[7]], {"F": f, "e": m.eps_mean}, m.p, 1e-9, tag + " compute-field-integral " + t)
        r.close("int-field", complex(row[6]), complex(np.sum(m.eps_mean * np.sum(abs(f) ** 2, 1) + f @ vec + m.p[:, 0] + 2j * m.p[:, 1]) * V), 1e-9, tag + " " + t)
        match_calls(r, "calls-fields", [dict(r=c[0], F=c[1]) for c in row[9]], {"F": F}, m.p, 1e-9, tag + " integrate-fields " + t)
        r.close("int-fields", complex(row[8]), complex(np.sum(F[:, 0]) * V), 1e-9, tag + " " + t)
        r.op(6)
        r.state(tag, t)
    for row in res.by["s"]:
        t = row[0]
        F = expand(n, cfg, np.array(row[1], float), False)
        b = interp(n, F, fr)
        r.close("rscalar", np.array(row[2], float), b, 1e-10, tag + " " + t)
        r.close("rscalar", np.array(row[3], float), b, 1e-10, tag + " " + t)
        if t != "n":
            r.close("get-energy-point", np.array(row[4], float), b, 1e-10, tag + " " + t)
            match_calls(r, "calls-energy", [dict(u=c[0], e=c[1], r=c[2]) for c in row[6]], {"u": F, "e": m.eps_mean}, m.p, 1e-9, tag + " compute-energy-integral " + t)
            r.close("int-energy", complex(row[5]), complex(np.sum(F ** 2 * m.eps_mean + F * m.p[:, 2] + m.p[:, 0]) * V), 1e-9, tag + " " + t)
        else:
            r.close("eps-stored", F, m.eps_mean, 1e-9, tag)
        match_calls(r, "calls-fields", [dict(r=c[0], u=c[1]) for c in row[8]], {"u": F}, m.p, 1e-9, tag + " integrate-fields " + t)
        r.close("int-fields", complex(row[7]), complex(np.sum(F) * V), 1e-9, tag + " " + t)
        r.op(5)
        r.state(tag, t)
    for row in res.by.get("c", []):
        F = np.array(row[0], complex)
        b = interp(n, F, fr)
        r.close("cscalar", np.array(row[1], complex), b * ph, 1e-9, tag)
        r.close("cscalar", np.array(row[2], complex), b, 1e-9, tag)
        r.close("cscalar", np.array(row[3], complex), b * ph, 1e-9, tag)
    r.trace()


def run_case(case, r):
    {"grid": grid, "phys": phys}[case["kind"]](case, r)


if __name__ == "__main__":
    vf.Check("C08", "model_checking", cases, run_case, setup=setup, case_timeout=300,
             rule="one case = one grid shape (or structure) and build: every kind of field, every point-query interface on a complete lattice of positions, every integral with each call of the user function recorded; states are (grid, build, position) and (structure, build, field kind)",
             bounds="all grid shapes up to 4x4x4 (thorough 6x6x6), degenerate axes sized and unsized, complex and inversion builds, per-axis positions {every grid point, 0.3 between neighbours, both cell boundaries, one and two cells away}; 19 structures in all their builds").main()
