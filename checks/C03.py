#!/usr/bin/env python3-vt
"""C03: results depend on the current inputs only, never on the history of the session.

A letter is (inputs, activity): it sets every input variable, initialises with fields reset, observes, and then does something
that leaves state behind.  All triples (inputs, activity, next inputs) are walked: the complete directed multigraph is traversed
edge by edge on live sessions, and after every edge the observations are compared with those of a fresh session given the same
inputs.  Two observations: the complete battery of fields, velocities, energies and maps after solving one k-point, and the
results and numbering of a (run)."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, mpbbuild
import numpy as np
import ctl, scene, battery, h5
from C09 import off, rank, KK

DEFAULTS = """(set! num-bands 3)(set! tolerance 1e-12)(set! target-freq 0.0)(set! mesh-size 3)(set! epsilon-input-file "")(set! mu-input-file "")(set! force-mu? false)
(set! deterministic? true)(set! simple-preconditioner? false)(set! eigensolver-flags (+ EIGS_DEFAULT_FLAGS EIGS_FORCE_EXACT_LINMIN))(set! eigensolver-block-size -11)
(set! eigensolver-nwork 3)(set! eigensolver-davidson? false)(set! negative-epsilon-ok? false)(set! k-split-num 1)(set! k-split-index 0)(set! filename-prefix "")
(set! default-material air)(set! ensure-periodicity true)(set! dimensions 3)(set! current-k (vector3 0))(set! randomize-fields? false)
(set! geometry-center (vector3 0 0 0))(set! geometry '())(set! resolution 10)(set! k-points '())
"""

# name: (scene, settings, parity)
MG = """(set! geometry (list (make block (center 0 0 0) (size 1e20 1e20 1e20) (material (make material-grid (epsilon-min 1) (epsilon-max 7) (size (vector3 3 3 1))
 (matgrid-init (lambda (x y z) (+ 0.5 (* 0.4 (cos (* 6.283185307179586 (+ x 0.3))) (cos (* 6.283185307179586 y))))))))) (make cylinder (center 0 0) (radius 0.2) (height infinity) (material (make dielectric (epsilon 3))))))"""
CONF = {
    "rods": ("rods2d", "", "NO-PARITY"),
    "rods6": ("rods2d", "(set! num-bands 6)", "NO-PARITY"),
    "rodste": ("rods2d", "", "TE"),
    "rodsb": ("rods2d", "(set! num-bands 5)(set! eigensolver-block-size 2)", "NO-PARITY"),
    "off": ("off2d", "(set! eigensolver-nwork 2)", "NO-PARITY"),
    "tri": ("tri2d", "(set! simple-preconditioner? true)", "NO-PARITY"),
    "ani": ("ani2df", "(set! mesh-size 5)", "NO-PARITY"),
    "mu": ("mu2d", "", "NO-PARITY"),
    "mub": ("mu2d", "(set! num-bands 5)(set! eigensolver-block-size 2)", "TM"),
    "muf": ("rods2d", "(set! mu-input-file \"mu.h5\")", "NO-PARITY"),
    "epsf": ("rods2d", "(set! epsilon-input-file \"eps.h5\")", "NO-PARITY"),
    "force": ("rods2d", "(set! force-mu? true)", "NO-PARITY"),
    "mg": ("rods2d", MG, "NO-PARITY"),
    "def": ("rods2d", "(set! default-material (make dielectric (epsilon 2)))(set! geometry-center (vector3 0.2 0.1 0))", "NO-PARITY"),
    "slab": ("slab1d", "", "NO-PARITY"),
    "cube": ("cube3d", "", "NO-PARITY"),
    "slabz": ("slabz3d", "", "ODD-Z"),
    "dav": ("rods2d", "(set! eigensolver-davidson? true)(set! eigensolver-nwork 5)(set! tolerance 1e-11)", "TM"),
}
NOINV = {"off"}
REAL_BUILD = [c for c in CONF if c not in NOINV]

# what is left behind: scripts that may use everything the session holds
ACT = {
    "none": "",
    "solve": "(set-parity NO-PARITY)(randomize-fields)(solve-kpoint (vector3 0.1 0.4 0))(get-efield num-bands)(compute-group-velocities)",
    "keep": "(init-params NO-PARITY false)(solve-kpoint (vector3 0.4 0 0))(get-dfield 1)(compute-field-energy)",
    "target": "(if (not (using-mu?)) (begin (set! target-freq 0.41)(set! eigensolver-davidson? false)(set! eigensolver-nwork 3)(set! num-bands 2)(set! tolerance 1e-2)(init-params NO-PARITY true)(solve-kpoint (vector3 0.3 0.2 0))(get-bfield 1)))",
    "davidson": "(if (not (using-mu?)) (begin (set! eigensolver-davidson? true)(set! eigensolver-nwork 5)(set! eigensolver-flags EIGS_DEFAULT_FLAGS)(set! simple-preconditioner? true)(set! tolerance 1e-4)(init-params NO-PARITY false)(randomize-fields)(solve-kpoint (vector3 0.2 0.3 0))))",
    "index": "(set-kpoint-index 7)(get-dfield 1)(define sv (field-copy cur-field))(get-epsilon)(field-load sv)(set! current-k (vector3 0.9 0.9 0))",
    "vectors": "(define ev (get-eigenvectors 1 num-bands))(scale-eigenvector 1 0+2i)(set-eigenvectors ev 1)(save-eigenvectors \"left\")(randomize-fields)(load-eigenvectors \"left\")",
    "vectorsr": "(define ev (get-eigenvectors 1 num-bands))(scale-eigenvector 1 2)(set-eigenvectors ev 1)(save-eigenvectors \"left\")(randomize-fields)(load-eigenvectors \"left\")",
    "run": "(set! k-points (list (vector3 0.3 0.1 0) (vector3 0.45 0 0)))(run-parity NO-PARITY true (lambda (b) (get-dfield b)(compute-field-energy)))",
    "split": "(set! k-points (list (vector3 0.3 0.1 0) (vector3 0.45 0 0) (vector3 0.1 0.2 0)))(set! k-split-num 2)(set! k-split-index 1)(set! filename-prefix \"left-\")(run-parity NO-PARITY false)",
    "throw": "(set! k-points (list (vector3 0.3 0.1 0) (vector3 0.45 0 0)))(catch #t (lambda () (run-parity NO-PARITY true (lambda (b) (if (= b 2) (throw 'stop))))) (lambda args #t))",
    "files": "(get-dfield 1)(output-field)(output-epsilon)(output-hfield-x 2)(output-poynting 1)",
    "zero": "(set! num-bands 0)(init-params NO-PARITY true)(get-epsilon)(output-field)(if (using-mu?) (get-mu))",
    "findk": "(set! tolerance 1e-6)(find-k NO-PARITY 0.1 1 1 (vector3 1 0 0) 1e-3 0.1 0 1)",
    "eps": "(init-params NO-PARITY false)(get-epsilon)(compute-energy-in-dielectric 0 3)",
    "twice": "(init-params NO-PARITY true)(init-params NO-PARITY false)",
    "gap": "(set! k-points (list (vector3 0.3 0.1 0) (vector3 0.5 0 0)))(set! num-bands 1)(set! eigensolver-block-size 1)(run)",
}


def setup(tier):
    for c in ("complex", "inv"):
        mpbbuild.build(c, what=("mpb",))


def acts(cfg):
    return [a for a in ACT if a != ("vectors" if cfg == "inv" else "vectorsr")]


def confs(cfg):
    return list(CONF) if cfg == "complex" else REAL_BUILD


def segs(cfg, tier):
    """every triple (c1, a, c2) once: an Eulerian circuit of the complete multigraph, cut into segments"""
    C, A = confs(cfg), acts(cfg)
    out = {c: [(a, d) for d in C[::-1] for a in A[::-1]] for c in C}
    # Hierholzer with labelled edges
    stack, path = [(C[0], None)], []
    while stack:
        v, lab = stack[-1]
        if out[v]:
            a, d = out[v].pop()
            stack.append((d, a))
        else:
            path.append(stack.pop())
    path.reverse()
    L = 24
    for i in range(0, len(path) - 1, L):
        yield path[i:i + L + 1]


def cases(tier):
    for cfg in ("complex", "inv"):
        for fl in (0, 1) if tier == "thorough" else (None,):
            for i, s in enumerate(segs(cfg, tier)):
                if tier != "thorough" and cfg == "inv" and i % 3:
                    continue
                yield {"id": "walk-%s-%s-%d" % (cfg, fl, i), "cfg": cfg, "walk": s, "flavour": fl}


def settings(c):
    scn, ex, par = CONF[c]
    sc = scene.BY[scn]
    s = DEFAULTS + sc.script() + ex + "\n"
    pts = [p for p in grid(sc)]
    step = max(1, len(pts) // 7)
    pts = pts[::step]
    s += "(set! P (list %s))(set! Poff (list %s))(set! FILES false)(set! OBJ (list %s))\n" % (
        " ".join(ctl.v3(p) for p in pts), " ".join(ctl.v3(p) for p in off(sc)[:3]), " ".join(list(sc.objs) + [ctl.block((0.1, -0.2, 0.05), (0.45, 0.5, 0.6), 1.0)]))
    return s


def grid(sc):
    n, ss = sc.n, sc.ss
    for i in range(n[0]):
        for j in range(n[1]):
            for k in range(n[2]):
                yield (ss[0] * (i / n[0] - .5), ss[1] * (j / n[1] - .5), ss[2] * (k / n[2] - .5))


def kof(c):
    scn, ex, par = CONF[c]
    k = KK[rank(scene.BY[scn].n)]
    if par != "NO-PARITY":
        k = [(x[0], x[1], 0) for x in k]
    return k


def observe(c, flavour, ident):
    par = CONF[c][2]
    ks = kof(c)
    s = "(emit 'letter %s)\n" % ident
    s += settings(c)
    if flavour == 0:
        s += "(init-params %s true)(emit 'start (get-kpoint-index) (using-mu?))(bat-eps)(set! current-k %s)(solve-kpoint current-k)(set! OLD (get-eigenvectors 1 num-bands))(bat-k 0)\n" % (par, ctl.v3(ks[0]))
    else:
        s += """(set! k-points (list %s %s))(run-parity %s true (lambda (b) (emit 'bf b (get-kpoint-index) (cv current-k)) (get-dfield b) (emit 'bp (map abs (compute-field-energy)) (map get-energy-point P))) (lambda () (emit 'kf (get-kpoint-index) freqs)))
(emit 'run all-freqs band-range-data gap-list (get-kpoint-index) parity num-bands k-points (compute-group-velocities))
""" % (ctl.v3(ks[0]), ctl.v3(ks[1]), par)
    return s + "(emit 'end)\n"


PRE = "(define P '())(define Poff '())(define FILES false)(define OBJ '())(define OLD 0)(set! print-ok? #f)\n"


def letters(res):
    out, cur = [], None
    for x in res.rows:
        if x[0] == "letter":
            cur = []
            out.append(cur)
        elif x[0] == "end":
            cur.append(("end",))
            cur = None
        elif cur is not None:
            cur.append(x)
    return out


def files(d):
    rng = np.random.default_rng(5)
    h5.write(d + "/eps.h5", {"epsilon": 2 + 5 * rng.random((3, 4))})
    h5.write(d + "/mu.h5", {"mu": 1 + rng.random((2, 3))})


def go(cfg, script):
    with ctl.Scratch() as d:
        files(d)
        return ctl.run(cfg, PRE + battery.DEF + script, cwd=d, timeout=280)


REF = {}


def refl(cfg, c, fl):
    if (cfg, c, fl) not in REF:
        REF[cfg, c, fl] = go(cfg, observe(c, fl, "\"ref\""))
    return REF[cfg, c, fl]


def numbers(x):
    o = []
    for y in x:
        if isinstance(y, list):
            o += numbers(y)
        elif not isinstance(y, str):
            o.append(y)
        else:
            o.append(sum(map(ord, y)))
    return o


def isolated(f, b):
    return all(abs(f[b] - f[j]) > 5e-3 for j in range(len(f)) if j != b) and f[b] > 1e-3 and b < len(f) - 1


def case(case, r):
    cfg, walk = case["cfg"], [tuple(x) for x in case["walk"]]
    A = acts(cfg)
    C = confs(cfg)
    plan, s = [], ""
    for i, (c, a) in enumerate(walk):
        if i:
            s += "(set! print-ok? #f)" + ACT[a] + "\n"
        fl = case["flavour"]
        if fl is None:
            fl = (C.index(c) + (A.index(a) + C.index(walk[i - 1][0]) if i else 0)) % 2
        s += observe(c, fl, "%d" % i)
        plan.append((c, a, walk[i - 1][0] if i else None, fl))
    res = go(cfg, s)
    got = letters(res)
    for i, (c, a, prev, fl) in enumerate(plan):
        tag = "%s: %s%s" % (cfg, c, " after %s, %s" % (prev, a) if prev else " (fresh)")
        want = refl(cfg, c, fl)
        if not want.ok():
            r.fail("reference-died", "%s %s fresh: %s" % (cfg, c, want.tail()))
            return
        w = letters(want)[0]
        if i >= len(got) or not got[i] or got[i][-1] != ("end",):
            r.fail("died", "%s: %s" % (tag, res.tail()))
            return
        g = got[i]
        r.op()
        r.state(cfg, c, a, prev, fl)
        if fl == 0:
            if g[0] != w[0]:
                r.fail("start", "%s: starts with %s, a fresh session with %s" % (tag, g[0], w[0]))
            nb = len([x for x in w if x[0] == "f"][0][2])
            battery.compare(r, tag, battery.Bat(w[1:-1]), battery.Bat(g[1:-1]), 1, nb, tolfld=2e-4)
            continue
        if [x[0] for x in g] != [x[0] for x in w]:
            r.fail("run-rows", "%s: band functions called %s, in a fresh session %s" % (tag, [x[:3] for x in g if x[0] != "bp"], [x[:3] for x in w if x[0] != "bp"]))
            continue
        fr = [x[2] for x in w if x[0] == "kf"]
        ik = 0
        band = 0
        for x, y in zip(w, g):
            if x[0] == "kf":
                r.close("run-freqs", numbers(y), numbers(x), 2e-6, "%s: index and frequencies" % tag)
                ik += 1
            elif x[0] == "bf":
                band = x[1]
                r.close("run-bands", numbers(y), numbers(x), 1e-12, "%s: band and k number in the band function" % tag)
            elif x[0] == "bp":
                if isolated(fr[ik] if ik < len(fr) else fr[-1], band - 1):
                    r.close("run-fields", numbers([[y[1][0]] + y[2]]), numbers([[x[1][0]] + x[2]]), 2e-3, "%s: energies of band %d" % (tag, band))
            elif x[0] == "run":
                f = fr[-1]
                for q in range(1, 8):
                    a_, b_ = numbers([y[q]]), numbers([x[q]])
                    r.close("run-out%d" % q, a_, b_, 2e-4 if q < 4 else 1e-12, "%s: %s" % (tag, ["", "all-freqs", "band-range-data", "gap-list", "index", "parity", "num-bands", "k-points"][q]))
                for b, (u, v) in enumerate(zip(x[8], y[8])):
                    if isolated(f, b):
                        r.close("run-gv", numbers([v]), numbers([u]), 2e-3, "%s: group velocities" % tag)
    if not res.ok():
        r.fail("died", "%s" % res.tail())
    r.trace()


vf.Check("C03", "model_checking", cases, case, setup=setup,
         rule="all triples (inputs, activity, next inputs) over %d input sets and %d activities are walked edge by edge on live sessions; each letter is compared with a fresh session" % (len(CONF), len(ACT) - 1),
         bounds="%d input sets x %d activities x %d input sets; words of up to 24 letters; grids up to 3x3x5, 3-6 bands" % (len(CONF), len(ACT) - 1, len(CONF)),
         assumptions=["fields are compared up to the phase of each state and the basis of degenerate ones"]).main()
