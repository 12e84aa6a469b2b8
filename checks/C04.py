#!/usr/bin/env python3-vt
"""C04: fields obey Maxwell's relations, are normalised, and reading never disturbs.

Part A ("phys"): every derived quantity of every band of every scene/build/k against the reference model.
Part B ("seq"): all sequences of field operations of length 2 (3 on some scenes) walked on one live session; a
simulator of the documented state machine predicts every value returned and what every query sees afterwards."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mpbbuild
import numpy as np
import ref, ctl, scene, fieldref
from fieldref import cv

K = {1: [(0.3, 0, 0), (0, 0, 0), (0.5, 0, 0), (0.2, 0.1, 0.3)], 2: [(0.3, 0.15, 0), (0, 0, 0), (0.5, 0, 0), (0.1, 0, 0.25)],
     3: [(0.3, 0.15, 0.22), (0, 0, 0), (0, 0, 0.5)]}
NB = 4
TOL = 2e-9
# query objects in lattice coordinates (no face on a grid point of any scene); the second crosses the cell boundary
OBJ = [((0.08, -0.07, 0.03), (0.51, 0.43, 0.57), True), ((0.47, 0.44, 0.05), (0.33, 0.37, 0.9), True), ((0.11, 0.02, 0.0), (0.23, 0.91, 0.77), False)]


def rank(n):
    return 3 if n[2] > 1 else 2 if n[1] > 1 else 1


def setup(tier):
    for c in ("complex", "inv", "herm"):
        mpbbuild.build(c, what=("mpb",))


def builds(sc):
    return [c for c in sc.builds() if c != "herm" or sc.herm or sc.name in ("off2d", "mu2da", "ani3d")]


def cases(tier):
    for sc in scene.ALL:
        for cfg in builds(sc):
            yield {"id": "phys-%s-%s" % (sc.name, cfg), "kind": "phys", "scene": sc.name, "cfg": cfg, "nb": NB}
            if sc.name in ("rods2d", "mu2d", "gyro2d", "mu3d", "slabz3d"):
                # the transforms work on 20 bands at a time
                yield {"id": "many-%s-%s" % (sc.name, cfg), "kind": "phys", "scene": sc.name, "cfg": cfg, "nb": 22}
    quick2 = [("slab1d", "complex"), ("slab1d", "inv"), ("rods2de", "inv"), ("off2d", "complex"), ("mu2d", "inv"), ("mu2da", "complex"), ("gyro2d", "herm"), ("ani3d", "complex"), ("mu3d", "inv"), ("tri2d", "inv")]
    three = quick2[:-2] if tier != "thorough" else [(s.name, c) for s in scene.ALL for c in builds(s)]
    all2 = quick2 if tier != "thorough" else [(s.name, c) for s in scene.ALL for c in builds(s)]
    for s, c in all2:
        for mu0 in ((0, 1) if tier == "thorough" else (0,)):
            yield {"id": "seq2-%s-%s-%d" % (s, c, mu0), "kind": "seq", "scene": s, "cfg": c, "depth": 2, "part": 0, "of": 1, "ki": mu0}
    for s, c in (("off2d", "complex"), ("mu2d", "inv"), ("mu2da", "complex")) if tier != "thorough" else all2:
        for st in STATES:
            if not (st == "C" and c == "inv"):
                yield {"id": "ref-%s-%s-%s" % (s, c, st), "kind": "refuse", "scene": s, "cfg": c, "state": st}
    for s, c in three:
        of = 16
        for p in range(of):
            yield {"id": "seq3-%s-%s-%d" % (s, c, p), "kind": "seq", "scene": s, "cfg": c, "depth": 3, "part": p, "of": of, "ki": 0}


def objlist(sc, which):
    out = []
    for i in which:
        c, s, inside = OBJ[i]
        cc = [a * b for a, b in zip(c, sc.ss)]
        ss = [a * b for a, b in zip(s, sc.ss)]
        out.append(ctl.block(cc, ss, 2.0) if inside else "(make block (center %s) (size %s) (material nothing))" % (" ".join(map(ctl.num, cc)), " ".join(map(ctl.num, ss))))
    return "(list %s)" % " ".join(out)


def objmask(m, which):
    m_ = np.zeros(m.N, bool)
    for x in range(m.N):
        f = m.frac[x]
        for i in reversed(which):
            c, s, inside = OBJ[i]
            hit = any(all(abs(f[a] - c[a] + sh[a]) <= s[a] / 2 for a in range(3)) for sh in itertools.product((-1, 0, 1), repeat=3))
            if hit:
                m_[x] = inside
                break
    return m_


FI = "(lambda (F eps r) (+ (* eps (vector3-cdot F F)) (* (+ 0.3 (vector3-x r) (* 2 (vector3-y r)) (* 3 (vector3-z r))) (vector3-y F)) (* 0+2i (vector3-x F)) (* (vector3-z r) (vector3-z F))))"
EI = "(lambda (u eps r) (+ (* u eps (+ 0.3 (vector3-x r) (* 2 (vector3-y r)) (* 3 (vector3-z r)))) (* u u)))"


def field_integral(m, f, k):
    F = f if k is None else f * m.phase(k, m.p)[:, None]
    w = 0.3 + m.p @ np.array([1.0, 2, 3])
    return np.sum(m.eps_mean * np.sum(abs(F) ** 2, 1) + w * F[:, 1] + 2j * F[:, 0] + m.p[:, 2] * F[:, 2]) * m.Vol / m.N


def energy_integral(m, u):
    w = 0.3 + m.p @ np.array([1.0, 2, 3])
    return np.sum(u * m.eps_mean * w + u * u) * m.Vol / m.N


def base_script(sc, nb=NB):
    return sc.script() + "(set! num-bands %d)(set! tolerance 1e-12)(set! deterministic? true)(set! eigensolver-flags (+ EIGS_DEFAULT_FLAGS EIGS_FORCE_EXACT_LINMIN))%s(init-params NO-PARITY true)(define pts %s)\n" % (nb, "(set! eigensolver-block-size 0)" if nb > 20 else "", sc.pts())


def phys(case, r):
    sc = scene.BY[case["scene"]]
    cfg = case["cfg"]
    nb = case["nb"]
    ks = K[rank(sc.n)] if nb <= 20 else K[rank(sc.n)][:1]
    s = base_script(sc, nb) + "(emit 'eps (map get-epsilon-inverse-tensor-point pts))\n(define ol %s)(define ol1 %s)(define lo 1.5)(define hi 6.0)\n" % (objlist(sc, (0, 1, 2)), objlist(sc, (1,)))
    for ki, k in enumerate(ks):
        s += """(randomize-fields)(solve-kpoint %s)(emit 'f %d freqs)
(do ((b 1 (+ b 1))) ((> b %d))
 (get-bfield b)(emit 'b %d b (map get-bloch-field-point pts) (compute-field-integral %s))
 (emit 'be %d b (compute-field-energy) (map get-energy-point pts) (compute-energy-in-dielectric lo hi) (compute-energy-in-object-list ol) (compute-energy-in-object-list ol1) (compute-energy-integral %s))
 (get-dfield b)(emit 'd %d b (map get-bloch-field-point pts) (compute-field-integral %s))
 (emit 'de %d b (compute-field-energy) (map get-energy-point pts) (compute-energy-in-dielectric lo hi) (compute-energy-in-object-list ol) (compute-energy-in-object-list ol1) (compute-energy-integral %s))
 (get-efield b)(emit 'e %d b (map get-bloch-field-point pts) (compute-field-integral %s))
 (get-hfield b)(emit 'h %d b (map get-bloch-field-point pts) (compute-field-integral %s)))
""" % (ctl.v3(k), ki, nb, ki, FI, ki, EI, ki, FI, ki, EI, ki, FI, ki, FI)
        if cfg != "inv":
            s += """(do ((b 1 (+ b 1))) ((> b %d)) (for-each (lambda (c g) (g b) (compute-field-divergence) (emit 'div %d b c (map get-bloch-cscalar-point pts) (map get-cscalar-point pts)))
  '(b d e h) (list get-bfield get-dfield get-efield get-hfield)))
""" % (nb, ki)
    res = ctl.run(cfg, s)
    if not res.ok():
        r.fail("died", res.tail())
        return
    m = fieldref.Model(sc, scene.tensor_grid(res.one("eps")[0]), fieldref.mu_grid(sc, cfg))
    fr = {x[0]: x[1] for x in res.by["f"]}
    B, val = {}, {}
    tag = sc.name + " " + cfg
    mk, mk1 = objmask(m, (0, 1, 2)), objmask(m, (1,))
    for ki, b, rows, integ in res.by["b"]:
        B[ki, b] = cv(rows)
    for (ki, b), f in B.items():
        om = fr[ki][b - 1]
        k = ks[ki]
        d = m.d(f, om, k)
        val[ki, b] = {"b": f, "d": d, "e": m.e(d), "h": m.h(f)}
    for t in "bdeh":
        for ki, b, rows, integ in res.by[t]:
            got, want, k = cv(rows), val[ki, b][t], ks[ki]
            sc_ = max(1.0, np.abs(want).max())
            r.op()
            r.state(tag, ki, b, t, np.round(np.abs(got), 6).tolist())
            r.close("field-" + t, got, want, TOL * sc_, "%s k=%s band %d %s field" % (tag, k, b, t))
            r.close("integral-" + t, integ, field_integral(m, want, k), 1e-8 * max(1, m.eps_mean.max()) * sc_ ** 2, "%s k=%s band %d field integral over %s" % (tag, k, b, t))
            if t in "bd":
                r.close("div-" + t, m.div(got, k), 0, 1e-7 * sc_ * 60, "%s k=%s band %d divergence of %s" % (tag, k, b, t)) if np.abs(m.div(got, k)).max() > 6e-6 * sc_ else None
    for ki, b in B:
        om, k = fr[ki][b - 1], ks[ki]
        # curl E = i omega B (to the convergence of the eigensolver)
        if om > 1e-3:
            q = m.q(k)
            ce = m.F @ np.cross(q, m.Fi @ val[ki, b]["e"]) / om
            bb = val[ki, b]["b"]
            err = np.abs(ce - bb).max() / np.abs(bb).max()
            r.worst("curlE", float(err))
            if err > 1e-3:
                r.fail("curlE", "%s k=%s band %d: curl E / (i omega) differs from B by %.3g" % (tag, k, b, err))
    for t in ("be", "de"):
        for ki, b, en, pts, ined, inob, inob1, ei in res.by[t]:
            k, om = ks[ki], fr[ki][b - 1]
            dens, lst = m.energy(t[0], val[ki, b][t[0]])
            r.op()
            w = "%s k=%s band %d %s" % (tag, k, b, t[0])
            if len(en) != 7:
                r.fail("energy-list", "%s: %s" % (w, en))
                continue
            r.close("energy-total", en[0], lst[0], 1e-8, w)
            if lst[0] > 1e-9:
                r.close("energy-comps", en[1:], lst[1:], 1e-8, w)
            if sc.mu and om < 1e-9 and t == "be":
                # zero-frequency bands at k=0 are constant B; with mu != 1 that is neither static nor of unit energy
                if abs(en[0] - 1) > 1e-5:
                    r.fail("static-mu-norm", "%s energy integral of a zero-frequency band is %.6g" % (w, en[0]))
            elif t == "be" or om > 1e-3:
                r.close("energy-unit", en[0], 1.0, 1e-5, w + " energy integral")
                r.close("energy-fractions", sum(en[1:]), 1.0, 1e-9, w + " sum of fractions")
            r.close("density", pts, dens, 1e-8 * max(1, dens.max()), w + " energy density")
            r.close("in-dielectric", ined, m.in_eps(dens, 1.5, 6.0), 1e-8, w)
            r.close("in-objects", inob, float(dens[mk].sum()) * m.Vol / m.N, 1e-8, w)
            r.close("in-objects1", inob1, float(dens[mk1].sum()) * m.Vol / m.N, 1e-8, w)
            r.close("energy-integral", ei, energy_integral(m, dens), 1e-7 * max(1, m.eps_mean.max()), w)
    for ki, b, c, rows, rows2 in res.by.get("div", []):
        want = m.div(val[ki, b][c], ks[ki])
        t = 1e-8 * max(1.0, np.abs(val[ki, b][c]).max()) * 60
        r.close("divergence-" + c, np.array(rows, complex), want, t, "%s k=%s band %d div %s" % (tag, ks[ki], b, c))
        r.close("divergence-phase-" + c, np.array(rows2, complex), want * m.phase(ks[ki], m.pq), t, "%s k=%s band %d full div %s" % (tag, ks[ki], b, c))
        r.op()
    if len(res.by["b"]) != len(ks) * nb:
        r.fail("missing", "only %d bands printed" % len(res.by["b"]))
    r.trace()


# ---------------------------------------------------------------- part B
P1, P2 = (0.13, -0.21, 0.37), (-0.41, 0.33, -0.08)


class Sim:
    """the documented state machine: which field is current, its band and values; eigenvector phases"""

    def __init__(self, m, B, fr, k, cfg):
        self.m, self.B, self.fr, self.k, self.cfg = m, B, fr, k, cfg
        self.ph = np.ones(NB, complex)
        self.saved_ph = np.ones(NB, complex)
        self.cur = None
        self.saved = None
        self.memo = {}

    def field(self, t, b):
        if (t, b) not in self.memo:
            f = self.B[b]
            if t in "de":
                d = self.m.d(f, self.fr[b - 1], self.k)
                self.memo["d", b] = d
                self.memo["e", b] = self.m.e(d)
            elif t == "h":
                self.memo["h", b] = self.m.h(f)
            else:
                self.memo["b", b] = f
        return self.memo[t, b] * self.ph[b - 1]


def p_of(sc, p):
    return [a * b if n > 1 or True else 0 for a, b, n in zip(p, sc.ss, sc.n)]


def probe(t):
    if t is None:
        return "(list 'none (compute-energy-in-dielectric 0 1e9) (length (compute-field-energy)))"
    if t in "dbhecv":
        return "(list 'vec (get-bloch-field-point p1) (get-bloch-field-point p2) (get-field-point p1) (cvector-field-get-point cur-field p2) (cvector-field-get-point-bloch cur-field p1))"
    if t in "DHBR":
        return "(list 'sca (get-energy-point p1) (get-energy-point p2) (rscalar-field-get-point cur-field p1))"
    if t == "C":
        return "(list 'csc (get-bloch-cscalar-point p1) (get-cscalar-point p2) (cscalar-field-get-point cur-field p1))"
    return "(list 'rs (rscalar-field-get-point cur-field p1) (rscalar-field-get-point cur-field p2))"


# each op: name -> (allowed(type) , script, new type given old type)
def after_energy(t, mu):
    return t.upper() if t in ("d", "b") or (t == "h" and not mu) else t


def ops_for(sc, cfg):
    mu = sc.mu
    o = {}

    def add(name, scr, nt, ok=lambda t: True):
        o[name] = (scr, nt, ok)
    for b in (1, 3):
        for t in "dbhe":
            add("%s%d" % (t, b), "(get-%sfield %d)" % (t, b), lambda t_, s, t=t, b=b: (t, b))
    add("bad", "(begin (get-dfield 0) (get-bfield 9) (get-hfield -1))", lambda t, s: "same")
    add("efromd", "(get-efield-from-dfield)", lambda t, s: ("e", None) if t == "d" else "same")
    add("energy", "(compute-field-energy)", lambda t, s: (after_energy(t, mu), None) if t else "same")
    add("indiel", "(compute-energy-in-dielectric 1.5 6.0)", lambda t, s: "same")
    add("inobj", "(compute-energy-in-object-list ol)", lambda t, s: "same")
    add("fint", "(compute-field-integral FI)", lambda t, s: "same", lambda t: t is None or t in "dhbecvCnm")
    add("eint", "(compute-energy-integral EI)", lambda t, s: "same")
    add("eps", "(get-epsilon)", lambda t, s: ("n", 0))
    if mu:
        add("mu", "(get-mu)", lambda t, s: ("m", 0))
    if cfg != "inv":
        add("div", "(compute-field-divergence)", lambda t, s: ("C", None) if t and t in "dhbec" else "same")
    add("gv", "(map vector->list (compute-group-velocities))", lambda t, s: None)
    add("gv1", "(vector->list (compute-1-group-velocity 2))", lambda t, s: None)
    add("par", "(list (compute-zparities) (compute-yparities))", lambda t, s: "same")
    add("getev", "(begin (set! ev (get-eigenvectors 1 %d)) 0)" % NB, lambda t, s: "same")
    add("setev", "(begin (set-eigenvectors ev 1) 0)", lambda t, s: None)
    add("dotev", "(sqmatrix-eigs (dot-eigenvectors ev 1))", lambda t, s: None if mu else "same")
    add("domk", "(vector->list (get-dominant-planewave 2))", lambda t, s: "same")
    if cfg != "inv":
        add("sym", "(compute-symmetry 2 (matrix3x3 (vector3 1 0 0) (vector3 0 1 0) (vector3 0 0 1)) (vector3 0 0 0))", lambda t, s: ("b", 2))
    add("poynt", "(begin (get-poynting 2) 0)", lambda t, s: ("v", 2))
    add("totpwr", "(begin (get-tot-pwr 2) 0)", lambda t, s: ("R", 2))
    add("out", "(begin (output-field-to-file -1 \"z-\") 0)", lambda t, s: None)
    add("copy", "(begin (set! sv (field-copy cur-field)) 0)", lambda t, s: "same", lambda t: t is not None)
    add("load", "(begin (field-load sv) 0)", lambda t, s: "saved", lambda t: True)
    add("fixph", "(begin (fix-field-phase) 0)", lambda t, s: "same")
    add("scale", "(begin (scale-eigenvector 3 %s) 0)" % ("-1" if cfg == "inv" else "(make-polar 1 0.7)"), lambda t, s: None)
    return o


def debruijn(n, d):
    a = [0] * n * d
    seq = []

    def db(t, p):
        if t > d:
            if d % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, n):
                a[t] = j
                db(t + 1, t)
    sys.setrecursionlimit(10000)
    db(1, 1)
    return seq + seq[:d - 1]


def plan(case):
    """the list of (op name) this case walks, and the type trajectory"""
    sc = scene.BY[case["scene"]]
    ops = ops_for(sc, case["cfg"])
    names = list(ops)
    seq = debruijn(len(names), case["depth"])
    L = len(seq)
    a, b = case["part"] * L // case["of"], (case["part"] + 1) * L // case["of"]
    return sc, ops, [names[i] for i in seq[a:min(L, b + case["depth"] - 1)]]


def seq(case, r):
    sc, ops, names = plan(case)
    cfg, mu = case["cfg"], sc.mu
    k = K[rank(sc.n)][case["ki"]]
    s = base_script(sc)
    s += "(emit 'eps (map get-epsilon-inverse-tensor-point pts))(define ol %s)(define FI %s)(define EI %s)(define p1 %s)(define p2 %s)\n" % (
        objlist(sc, (0, 1, 2)), FI, EI, ctl.v3(p_of(sc, P1)), ctl.v3(p_of(sc, P2)))
    s += "(define (sqmatrix-eigs m) (map (lambda (i) (sqmatrix-ref m i i)) '(0 1 2 3)))\n"
    s += "(define ev #f)(define sv #f)(set! print-ok? #f)(solve-kpoint %s)(emit 'f freqs)(set! ev (get-eigenvectors 1 %d))(define ev0 ev)\n" % (ctl.v3(k), NB)
    s += "(do ((b 1 (+ b 1))) ((> b %d)) (get-bfield b)(emit 'b b (map get-bloch-field-point pts)))\n(get-bfield 1)(set! sv (field-copy cur-field))(get-bfield 1)\n" % NB
    # trajectory of types
    t, svt = "b", "b"
    walk = []
    for nm in names:
        scr, nt, ok = ops[nm]
        if not ok(t):
            continue
        n2 = nt(t, None)
        old = t
        if nm == "copy":
            svt = {"D": "D", "H": "H"}.get(t, t)
        if n2 is None:
            t = None
        elif n2 == "saved":
            t = svt
        elif n2 != "same":
            t = n2[0]
        walk.append((nm, old, t, n2))
        s += "(emit 'o %d %s %s)\n" % (len(walk) - 1, scr if nm not in ("bad", "efromd", "eps", "mu", "div") and scr[:5] != "(get-" else "(begin %s 0)" % scr, probe(t))
    s += "(do ((b 1 (+ b 1))) ((> b %d)) (get-bfield b)(emit 'C b (map get-bloch-field-point pts)))\n" % NB
    s += "(set-eigenvectors ev0 1)(do ((b 1 (+ b 1))) ((> b %d)) (get-bfield b)(emit 'B b (map get-bloch-field-point pts)))(emit 'done freqs)\n" % NB
    with ctl.Scratch() as d:
        res = ctl.run(cfg, s, cwd=d, timeout=280)
    rows = {x[0]: x[1:] for x in res.by.get("o", [])}
    if not res.by.get("eps") or not res.by.get("f"):
        r.fail("died", res.tail())
        return
    m = fieldref.Model(sc, scene.tensor_grid(res.one("eps")[0]), fieldref.mu_grid(sc, cfg))
    if mu:
        mumean = m.mu_mean
    fr = res.by["f"][0][0]
    B = {b: cv(v) for b, v in res.by["b"]}
    sim = Sim(m, B, fr, k, cfg)
    mk = objmask(m, (0, 1, 2))
    pp = [p_of(sc, P1), p_of(sc, P2)]
    cur = ("b", 1, sim.field("b", 1))     # (type, band, values)
    saved = cur
    evph, lastband = sim.ph.copy(), 1
    consts = {}
    tag = "%s %s" % (sc.name, cfg)
    F1 = lambda g: m.interp(g, pp)
    phs = m.phase(k, pp)
    for i, (nm, old, new, n2) in enumerate(walk):
        if i not in rows:
            r.fail("died", "after %s: step %d %s: %s" % ([w[0] for w in walk[max(0, i - 4):i]], i, nm, res.tail()))
            return
        out, pr = rows[i]
        hist = " (after %s)" % ",".join(w[0] for w in walk[max(0, i - 3):i + 1])
        r.op()
        r.state(tag, [w[0] for w in walk[max(0, i - case["depth"] + 1):i + 1]])
        ty, band, val = (cur[0], cur[1], cur[2]) if cur else (None, None, None)
        want = None
        big = 1.0 if val is None else max(1.0, float(np.abs(val).max()) ** 2)
        # --- value returned and the state it leaves
        if len(nm) == 2 and nm[0] in "dbhe" and nm[1] in "13":
            cur = (nm[0], int(nm[1]), sim.field(nm[0], int(nm[1])))
        elif nm == "efromd" and ty == "d":
            cur = ("e", band, m.e(val))
        elif nm == "energy":
            if ty and (ty in "db" or (ty == "h" and not mu)):
                dens, want = m.energy("d" if ty == "d" else "b" if ty == "b" else "h0", val)
                cur = (ty.upper(), band, dens)
            else:
                want = []
        elif nm == "indiel":
            want = m.in_eps(val, 1.5, 6.0) if ty and ty in "DHBR" else 0
        elif nm == "inobj":
            want = float(val[mk].sum()) * m.Vol / m.N if ty and ty in "DHBR" else 0
        elif nm == "eint":
            want = energy_integral(m, val) if ty and ty in "DHBR" else 0
        elif nm == "fint":
            want = field_integral(m, val, None if ty == "v" else k) if ty and ty in "dhbecv" else 0
        elif nm == "eps":
            cur = ("n", 0, m.eps_mean)
        elif nm == "mu":
            cur = ("m", 0, mumean)
        elif nm == "div" and ty and ty in "dhbec":
            cur = ("C", band, m.div(val, k))
        elif nm in ("gv", "gv1", "par", "domk", "sym"):
            o_ = np.array(out, complex).reshape(-1)
            if nm == "sym":
                cur = ("b", 2, sim.field("b", 2))
            if nm in ("gv", "gv1"):
                cur = None
            if nm in consts:
                r.close("const-" + nm, o_, consts[nm], 1e-7, tag + hist + " value changed")
            consts[nm] = o_
            if nm == "gv1" and "gv" in consts:
                r.close("const-gv", o_, consts["gv"].reshape(-1, 3)[1], 1e-7, tag + hist + " gv1 vs gv")
            if nm == "sym":
                r.close("sym-identity", o_, np.array([1.0 + 0j]), 1e-7, tag + hist)
        elif nm == "getev":
            evph = sim.ph.copy()
        elif nm == "setev":
            sim.ph = evph.copy()
            cur = None
        elif nm == "dotev":
            want = np.conj(evph) * sim.ph
            if mu:
                cur = None
        elif nm == "poynt":
            e, h = sim.field("e", 2), sim.field("h", 2)
            cur = ("v", 2, np.cross(np.conj(e), h))
        elif nm == "totpwr":
            cur = ("R", 2, m.energy("d", sim.field("d", 2))[0] + m.energy("b", sim.field("b", 2))[0])
        elif nm == "out":
            cur = None
        elif nm == "copy":
            saved = cur
        elif nm == "load":
            # loading does not change which band later phase-fixing refers to
            cur = (saved[0], lastband, saved[2])
        elif nm == "scale":
            sim.ph[2] *= -1 if cfg == "inv" else np.exp(0.7j)
            cur = None
        elif nm == "fixph":
            if ty and ty in "dhbecv" and pr[0] == "vec":
                g = cv(pr[1:3])
                w = F1(val)
                j = np.unravel_index(np.argmax(np.abs(w)), w.shape)
                f = g[j] / w[j]
                if abs(abs(f) - 1) > 1e-7:
                    r.fail("fixph", "%s%s phase factor %s is not a phase" % (tag, hist, f))
                    return
                f /= abs(f)
                cur = (ty, band, val * f)
                if band:
                    sim.ph[band - 1] *= f
                sq = np.sum(cur[2] ** 2)
                if cfg != "inv" and abs(np.sum(val ** 2)) > 1e-6 * np.sum(abs(val) ** 2) and (abs(sq.imag) > 1e-6 * abs(sq) or sq.real < 0):
                    r.fail("fixph", "%s%s sum of squares %s not real positive after fixing the phase" % (tag, hist, sq))
        if cur is not None and cur[1] is not None:
            lastband = cur[1]
        if want is not None:
            try:
                g = np.array(out, complex)
            except (TypeError, ValueError):
                g = np.array([np.nan])
            r.close("value-" + nm, g, np.array(want, complex), 1e-7 * big * max(1.0, m.eps_mean.max()), tag + hist)
        # --- what the queries see afterwards
        if (cur[0] if cur else None) != new:
            raise RuntimeError("trajectory mismatch %s %s %s" % (nm, cur and cur[0], new))
        if cur is None:
            r.close("refuse", np.array([pr[1], pr[2]], float), np.zeros(2), 0, tag + hist + " a query without a field was answered")
            continue
        ty, band, val = cur
        tl = 1e-7 * max(1.0, float(np.abs(val).max()))
        g = F1(val)
        if pr[0] == "vec":
            ph = np.ones(2) if ty == "v" else phs
            r.close("probe-" + nm, cv(pr[1:]), np.array([g[0], g[1], g[0] * ph[0], g[1] * ph[1], g[0]]), tl, tag + hist + " field seen afterwards (" + ty + ")")
        elif pr[0] == "sca":
            r.close("probe-" + nm, np.array(pr[1:], float), np.array([g[0], g[1], g[0]]), tl, tag + hist + " energy seen afterwards")
        elif pr[0] == "csc":
            r.close("probe-" + nm, np.array(pr[1:], complex), np.array([g[0], g[1] * phs[1], g[0] * phs[0]]), tl * 10, tag + hist + " divergence seen afterwards")
        elif pr[0] == "rs":
            r.close("probe-" + nm, np.array(pr[1:], float), g, tl, tag + hist + " medium seen afterwards")
        if len(r.fails) > 5:
            return
    if not res.ok() or not res.by.get("done"):
        r.fail("died", res.tail())
        return
    for b, v in res.by["C"]:
        r.close("final", cv(v), sim.field("b", b), 1e-7, "%s eigenvector of band %d changed by the sequence" % (tag, b))
    for b, v in res.by["B"]:
        r.close("final", cv(v), B[b], 1e-8, "%s eigenvector of band %d changed by the sequence" % (tag, b))
    r.trace()


STATES = {"noinit": "", "nosolve": "(init-params NO-PARITY true)", "none": "@", "d": "@(get-dfield 2)", "e": "@(get-efield 2)", "b": "@(get-bfield 2)", "h": "@(get-hfield 2)",
          "D": "@(get-dfield 2)(compute-field-energy)", "B": "@(get-bfield 2)(compute-field-energy)", "R": "@(get-tot-pwr 2)", "v": "@(get-poynting 2)",
          "C": "@(get-dfield 2)(compute-field-divergence)", "n": "@(get-epsilon)"}
QUERIES = {"get-energy-point": ("(get-energy-point p1)", "DHBR"), "get-bloch-field-point": ("(get-bloch-field-point p1)", "dhbecv"), "get-field-point": ("(get-field-point p1)", "dhbecv"),
           "get-bloch-cscalar-point": ("(get-bloch-cscalar-point p1)", "C"), "get-cscalar-point": ("(get-cscalar-point p1)", "C"),
           "cvec-point": ("(cvector-field-get-point cur-field p1)", "dhbecv"), "cvec-bloch": ("(cvector-field-get-point-bloch cur-field p1)", "dhbecv"),
           "rs-point": ("(rscalar-field-get-point cur-field p1)", "DHBRnm"), "cs-point": ("(cscalar-field-get-point cur-field p1)", "C"), "copy": ("(begin (field-copy cur-field) 1)", "dhbecvDHBRCnm"),
           "efromd": ("(begin (get-efield-from-dfield) (cvector-field-get-point-bloch cur-field p1))", "dhbecv"), "loadd": ("(begin (get-dfield 1) (get-bloch-field-point p1))", "+"),
           "loadb": ("(begin (get-bfield 1) (get-bloch-field-point p1))", "+"), "loadh": ("(begin (get-hfield 1) (get-bloch-field-point p1))", "+"), "loade": ("(begin (get-efield 1) (get-bloch-field-point p1))", "+"),
           "energy": ("(let ((x (compute-field-energy))) (if (null? x) (exit 7)) x)", "dhb"), "div": ("(begin (compute-field-divergence) (get-bloch-cscalar-point p1))", "dhbecC")}


def refuse(case, r):
    """every query in every state: those that need another kind of field must end the run or be refused, not answer"""
    sc, cfg, st = scene.BY[case["scene"]], case["cfg"], case["state"]
    pre = sc.script() + "(set! num-bands 4)(set! deterministic? true)(define p1 %s)" % ctl.v3(p_of(sc, P1))
    pre += STATES[st].replace("@", "(init-params NO-PARITY true)(solve-kpoint %s)" % ctl.v3(K[rank(sc.n)][0]))
    for q, (scr, okin) in QUERIES.items():
        res = ctl.run(cfg, pre + "(emit 'before)(emit 'ans %s)(emit 'after)" % scr)
        r.op()
        r.state(case["scene"], cfg, st, q)
        allowed = (okin == "+" and st not in ("noinit", "nosolve")) or (len(st) == 1 and st in okin)
        if q == "energy" and st == "h" and sc.mu:
            allowed = False
        if q == "div" and cfg == "inv":
            continue
        if isinstance(res.rc, int) and (res.rc < 0 or res.rc in (134, 139, 136)) and "CHECK failure" not in res.err:
            r.fail("crash-" + q, "%s %s: %s in state %s crashed: %s" % (case["scene"], cfg, q, st, res.tail()))
        elif not res.by.get("before"):
            r.fail("setup", "%s" % res.tail())
        elif allowed and (not res.ok() or not res.by.get("ans")):
            r.fail("refused-" + q, "%s %s: %s in state %s was refused: %s" % (case["scene"], cfg, q, st, res.tail()))
        elif not allowed and res.by.get("ans"):
            r.fail("answered-" + q, "%s %s: %s in state %s was answered: %s" % (case["scene"], cfg, q, st, res.by["ans"]))
    r.trace()


def run_case(case, r):
    {"phys": phys, "seq": seq, "refuse": refuse}[case["kind"]](case, r)


if __name__ == "__main__":
    vf.Check("C04", "model_checking", cases, run_case, setup=setup, case_timeout=300,
             rule="phys: one case = one (structure, build); all fields, energies and integrals of 4 bands at 3-4 k-points at every grid point. seq: one case = one segment of a de Bruijn word over ~30 field operations, so that every sequence of 2 (3) operations occurs; after every operation the state is probed and compared with a simulator",
             bounds="19 structures, 3 builds, grids up to 3x4x5; all operation sequences of length 2 on 10 (structure, build) pairs and of length 3 on 8 of them (thorough: of length 2 and 3 on all pairs, two k-points)").main()
