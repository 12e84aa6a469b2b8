#!/usr/bin/env python3-vt
"""C13: field objects behave as independent values.

Part A ("seq"): every ordered pair (thorough: triple) of operations over two objects of each kind and the current field,
walked on a live session; after every step the whole contents of every object and of the current field, and point
queries of each at every grid point, are compared with a reference register machine.
Part B ("store"): every kind of field, stored, disturbed by every operation and loaded back, answers every query as
before.   Part C ("refuse"): every operation on every combination of non-conforming objects ends the run with an error."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, mpbbuild
import numpy as np
import ref, ctl, scene, fieldref, C08
from C04 import debruijn, rank

KK = {1: [(0.3, 0, 0), (0.21, 0.1, 0.4)], 2: [(0.3, 0.15, 0), (0.1, -0.2, 0.25)], 3: [(0.3, 0.15, 0.22), (-0.1, 0.3, 0.4)]}
OBJS = ("r1", "r2", "c1", "c2", "v1", "v2")
KIND = {"r": "r", "c": "c", "v": "v"}

# one function of each signature; the arguments enter asymmetrically
FN = {("r", "r"): "(lambda (a) (- (* 0.9 a) 0.3))", ("r", "c"): "(lambda (a) (+ (real-part a) (* 0.5 (imag-part a))))",
      ("r", "v"): "(lambda (a) (real-part (vector3-cdot a a)))", ("r", "rcv"): "(lambda (a b c) (+ (* 0.5 a) (imag-part b) (* 0.25 (real-part (vector3-y c)))))",
      ("r", "rr"): "(lambda (a b) (- a (* 0.5 b)))", ("c", "r"): "(lambda (a) (make-rectangular (* 0.5 a) (- a)))",
      ("c", "c"): "(lambda (a) (* 0+1i a))", ("c", "vv"): "(lambda (a b) (* 0.5 (vector3-cdot a b)))", ("c", "rc"): "(lambda (a b) (+ (* 0.3 a) (* 0.8-0.1i b)))",
      ("v", "v"): "(lambda (a) (vector3 (vector3-y a) (* 0+0.8i (vector3-z a)) (vector3-x a)))", ("v", "vv"): "(lambda (a b) (vector3-scale 0.7 (vector3-cross (vector3-conj a) b)))",
      ("v", "rc"): "(lambda (a b) (vector3 a b (* 0.5 a b)))", ("v", "cv"): "(lambda (a b) (vector3-scale a b))", ("v", "r"): "(lambda (a) (vector3 a (* 2 a) -0.5))"}
NP = {("r", "r"): lambda a: 0.9 * a - 0.3, ("r", "c"): lambda a: a.real + 0.5 * a.imag, ("r", "v"): lambda a: (abs(a) ** 2).sum(1),
      ("r", "rcv"): lambda a, b, c: 0.5 * a + b.imag + 0.25 * c[:, 1].real, ("r", "rr"): lambda a, b: a - 0.5 * b,
      ("c", "r"): lambda a: 0.5 * a - 1j * a, ("c", "c"): lambda a: 1j * a, ("c", "vv"): lambda a, b: 0.5 * (np.conj(a) * b).sum(1), ("c", "rc"): lambda a, b: 0.3 * a + (0.8 - 0.1j) * b,
      ("v", "v"): lambda a: np.stack([a[:, 1], 0.8j * a[:, 2], a[:, 0]], 1), ("v", "vv"): lambda a, b: 0.7 * np.cross(np.conj(a), b),
      ("v", "rc"): lambda a, b: np.stack([a + 0j, b, 0.5 * a * b], 1), ("v", "cv"): lambda a, b: a[:, None] * b, ("v", "r"): lambda a: np.stack([a, 2 * a, 0 * a - 0.5], 1) + 0j}


def setup(tier):
    for c in ("complex", "inv", "herm"):
        mpbbuild.build(c, what=("mpb",))


def cases(tier):
    q = [("slab1d", "complex"), ("slab1d", "inv"), ("rods2de", "inv"), ("off2d", "complex"), ("mu2d", "inv"), ("gyro2d", "herm"), ("slabz3d", "inv")]
    full = [(s.name, c) for s in scene.ALL for c in s.builds()]
    for s, c in (q if tier != "thorough" else full):
        of = 8
        for p in range(of):
            yield {"id": "seq2-%s-%s-%d" % (s, c, p), "kind": "seq", "scene": s, "cfg": c, "depth": 2, "part": p, "of": of}
    if tier == "thorough":
        for s, c in (("slab1d", "inv"), ("off2d", "complex"), ("rods2de", "inv")):
            for p in range(200):
                yield {"id": "seq3-%s-%s-%d" % (s, c, p), "kind": "seq", "scene": s, "cfg": c, "depth": 3, "part": p, "of": 200}
    for s, c in (q[:3] + q[4:] if tier != "thorough" else full):
        for ld in STORE:
            if not (ld == "C" and c == "inv"):
                yield {"id": "store-%s-%s-%s" % (s, c, ld), "kind": "store", "scene": s, "cfg": c, "load": ld}
    for c in ("complex", "inv"):
        for i in range(len(REFUSE)):
            yield {"id": "refuse-%s-%d" % (c, i), "kind": "refuse", "cfg": c, "i": i}


# operations: name -> (script, needs cur kind or None, effect on kinds of cur)
def ops_for(sc, cfg):
    o = {}
    for k, mk in (("r", "rscalar-field-make"), ("c", "cscalar-field-make"), ("v", "cvector-field-make")):
        for i, src in ((1, "v1"), (2, "cur")):
            o["make %s%d %s" % (k, i, src)] = ("make", "%s%d" % (k, i), src, mk)
    o["make r1 c2"] = ("make", "r1", "r2", "field-make")
    o["make c1 c2"] = ("make", "c1", "c2", "field-make")
    o["make v2 v1"] = ("make", "v2", "v1", "field-make")
    for d, s in (("r1", "r2"), ("c2", "c1"), ("v1", "v2"), ("v2", "cur"), ("cur", "v1"), ("r2", "r2")):
        o["set %s %s" % (d, s)] = ("set", d, s)
    for d, s in (("r2", "r1"), ("c1", "c2"), ("v2", "v1"), ("v1", "cur")):
        o["copy %s %s" % (d, s)] = ("copy", d, s)
    for d, ss in (("r1", ("r1",)), ("r2", ("r1", "c1", "v1")), ("r1", ("v2",)), ("r2", ("r2", "r1")), ("c1", ("r1",)), ("c2", ("c1",)), ("c1", ("v1", "v2")), ("c2", ("r2", "c2")),
                  ("v1", ("v2",)), ("v2", ("v1", "v1")), ("v1", ("r1", "c1")), ("v2", ("r2",)), ("v2", ("c2", "v2")), ("cur", ("v1", "cur")), ("cur", ("cur",)), ("v1", ("cur", "v2")), ("r1", ("cur",))):
        o["map %s %s" % (d, " ".join(ss))] = ("map", d, ss)
    for s in ("r1", "c1", "v1", "v2", "cur"):
        o["load " + s] = ("load", s)
    for b, nm, k in ((1, "get-dfield 1", "v"), (2, "get-bfield 2", "v"), (2, "get-efield 2", "v"), (1, "get-poynting 1", "v"), (0, "get-epsilon", "r"), (2, "get-tot-pwr 2", "r")):
        o[nm] = ("solver", nm, k)
    o["energy"] = ("energy",)
    for s in ("v1", "v2", "cur"):
        o["nonbloch " + s] = ("nonbloch", s)
    o["integ"] = ("integ", ("r1", "c1", "v1", "v1"))
    o["integ-cur"] = ("integ", ("cur", "v2", "r2"))
    o["conf"] = ("conf",)
    o["kA"] = ("k", 0)
    o["kB"] = ("k", 1)
    o["init"] = ("init",)
    o["gc"] = ("gc",)
    o["gv"] = ("gv",)
    return o


def plan(sc, cfg, case):
    ops = ops_for(sc, cfg)
    names = list(ops)
    w = debruijn(len(names), case["depth"])
    L = len(w)
    w = w + w[:case["depth"]]
    a, b = case["part"] * L // case["of"], (case["part"] + 1) * L // case["of"] + case["depth"] - 1
    return [(names[i], ops[names[i]]) for i in w[a:b]]


LIB = """
(define (wt i) (+ (sin (+ (* 1.3 i) 0.2)) (* 0.1 i)))
(define (dot1 v) (if (vector? v) (+ (vector3-x v) (* 1.37 (vector3-y v)) (* -0.81 (vector3-z v))) v))
(define (dig f) (let ((i 0) (s 0)) (field-map! (field-make f) (lambda (v) (set! s (+ s (* (wt i) (dot1 v)))) (set! i (+ i 1)) v) f) (list i s)))
(define (digp q f) (let loop ((l pts) (i 0) (s 0)) (if (null? l) s (loop (cdr l) (+ i 1) (+ s (* (wt i) (dot1 (q f (car l)))))))))
(define (all f) (let ((acc '())) (field-map! (field-make f) (lambda (v) (set! acc (cons v acc)) v) f) (reverse acc)))
(define (see n cur)
  (emit 'o n (append (map dig (list r1 r2 c1 c2 v1 v2)) (list (digp rscalar-field-get-point r1) (digp rscalar-field-get-point r2) (digp cscalar-field-get-point c1) (digp cscalar-field-get-point c2)
     (digp cvector-field-get-point v1) (digp cvector-field-get-point v2) (digp cvector-field-get-point-bloch v1) (digp cvector-field-get-point-bloch v2)))
   (case cur ((r) (list (dig cur-field) (digp rscalar-field-get-point cur-field)))
             ((c) (list (dig cur-field) (digp cscalar-field-get-point cur-field) (digp (lambda (f p) (get-cscalar-point p)) 0)))
             ((v) (list (dig cur-field) (digp cvector-field-get-point cur-field) (digp (lambda (f p) (get-field-point p)) 0)))
             (else '()))
   (list (map rscalar-field? (list r1 c1 v1)) (map cscalar-field? (list r1 c1 v1)) (map cvector-field? (list r1 c1 v1)) (map field? (list r1 c2 v2)))))
(define ncall 0)
"""


def seq(case, r):
    sc, cfg = scene.BY[case["scene"]], case["cfg"]
    n, N = sc.n, int(np.prod(sc.n))
    ks = KK[rank(n)]
    P = plan(sc, cfg, case)
    s = sc.script() + "(set! num-bands 2)(set! deterministic? true)(init-params NO-PARITY true)(define pts %s)(solve-kpoint %s)\n" % (sc.pts(), ctl.v3(ks[0]))
    s += """(get-epsilon)(define (h i c) (sin (+ (* 1.7 i) (* 2.3 c) 0.4)))(define (g i c) (make-rectangular (h i c) (h i (+ c 10))))(define n 0)
(define r1 (rscalar-field-make cur-field))(define r2 (rscalar-field-make cur-field))(define c1 (cscalar-field-make cur-field))(define c2 (cscalar-field-make cur-field))(define v1 (cvector-field-make cur-field))(define v2 (cvector-field-make cur-field))
(define (fill f c k) (set! n 0) (field-map! f (lambda (x) (set! n (+ n 1)) (case k ((0) (h n c)) ((1) (g n c)) (else (vector3 (g n c) (g n (+ c 1)) (g n (+ c 2)))))) f))
(define (reset) (fill r1 0 0)(fill r2 1 0)(fill c1 2 1)(fill c2 3 1)(fill v1 4 2)(fill v2 7 2))
(reset)(emit 'n n)
""" + LIB
    curk = "r"
    steps = []
    k = 0
    for i, (nm, op) in enumerate(P):
        pre = None
        uses = [x for x in op[1:] if isinstance(x, str)] + [y for x in op[1:] if isinstance(x, tuple) for y in x]
        need = None
        if "cur" in uses:
            need = "any"
        if op[0] in ("set", "copy") and "cur" in op[1:] or op[0] == "nonbloch" and op[1] == "cur" or op[0] == "map" and "cur" in uses:
            need = "v"
        if op[0] == "energy":
            need = "fresh"
        if (need == "v" and curk != "v") or (need == "any" and curk is None) or need == "fresh":
            pre = ("solver", "get-dfield 2", "v")
        for o in ([pre] if pre else []) + [op]:
            scr = ""
            c2 = curk
            if o[0] == "make":
                scr = "(set! %s (%s %s))" % (o[1], o[3], o[2].replace("cur", "cur-field"))
                if o[2] == "cur" and curk is None:
                    raise RuntimeError
            elif o[0] == "set":
                scr = "(field-set! %s %s)" % tuple(x.replace("cur", "cur-field") for x in o[1:3])
            elif o[0] == "copy":
                scr = "(set! %s (field-copy %s))" % (o[1], o[2].replace("cur", "cur-field"))
            elif o[0] == "map":
                kd = lambda x: curk if x == "cur" else x[0]
                sig = (kd(o[1]), "".join(kd(x) for x in o[2]))
                scr = "(field-map! %s (lambda a (set! ncall (+ ncall 1)) (apply %s a)) %s)" % (o[1].replace("cur", "cur-field"), FN[sig], " ".join(x.replace("cur", "cur-field") for x in o[2]))
                o = o + (sig,)
            elif o[0] == "load":
                scr = "(field-load %s)" % o[1].replace("cur", "cur-field")
                c2 = curk if o[1] == "cur" else o[1][0]
            elif o[0] == "solver":
                scr = "(%s)" % o[1]
                c2 = o[2]
            elif o[0] == "energy":
                scr = "(compute-field-energy)"
                c2 = "r"
            elif o[0] == "nonbloch":
                scr = "(cvector-field-nonbloch! %s)" % o[1].replace("cur", "cur-field")
            elif o[0] == "integ":
                scr = "(emit 'i %d (integrate-fields (lambda (p . a) (set! ncall (+ ncall 1)) (apply + (* 0.1 (vector3-x p)) (map (lambda (x w) (* w (dot1 x))) a (list-head '(1 0.7+0.2i -0.6 1.9) (length a))))) %s))" % (i, " ".join(x.replace("cur", "cur-field") for x in o[1]))
                o = o + (tuple(curk if x == "cur" else x[0] for x in o[1]),)
            elif o[0] == "conf":
                scr = "(emit 'f %d (map (lambda (a) (fields-conform? a v1)) (list r1 r2 c1 c2 v2)))" % i
            elif o[0] == "k":
                scr = "(solve-kpoint %s)" % ctl.v3(ks[o[1]])
                c2 = None
            elif o[0] == "init":
                scr = "(init-params NO-PARITY false)(solve-kpoint %s)" % ctl.v3(ks[k])
                c2 = None
            elif o[0] == "gc":
                scr = "(gc)(gc)"
            elif o[0] == "gv":
                scr = "(compute-group-velocities)"
                c2 = None
            if o[0] == "k":
                k = o[1]
            # contents grow through repeated products: start afresh now and then
            fresh = o is op or len(o) > len(op)
            s += "(set! ncall 0)%s(emit 'nc %d ncall)(see %d '%s)%s" % (scr, len(steps), len(steps), c2 or "none",
                                                                     "(emit 'w %d (all cur-field))" % len(steps) if o[0] in ("solver", "energy") else "")
            reset = len(steps) % 12 == 11
            if reset:
                s += "(reset)"
            s += "\n"
            steps.append((nm, o, c2, k, reset))
            curk = c2
    s += "(emit 'done)"
    res = ctl.run(cfg, s)
    tag = "%s %s" % (sc.name, cfg)
    if not res.ok() or not res.by.get("done"):
        r.fail("died", "%s %s" % (tag, res.tail()))
        return
    ns = res.one("n")[0]
    i = np.arange(1, ns + 1)
    h = lambda c: np.sin(1.7 * i + 2.3 * c + 0.4)
    g = lambda c: h(c) + 1j * h(c + 10)
    V = lambda c: np.stack([g(c), g(c + 1), g(c + 2)], 1)
    st, bl = {}, {}

    def fill():
        st.update({"r1": h(0), "r2": h(1), "c1": g(2), "c2": g(3), "v1": V(4), "v2": V(7)})
    fill()
    for x in OBJS:
        bl[x] = True
    st["cur"], bl["cur"] = None, True
    fr = np.array(ref.indices(n)) / np.array(n) - 0.5
    wt = lambda m: np.sin(1.3 * np.arange(m) + 0.2) + 0.1 * np.arange(m)
    dv = np.array([1, 1.37, -0.81])
    d1 = lambda a: a @ dv if a.ndim == 2 else a
    m = fieldref.Model(sc, np.tile(np.eye(3), (N, 1, 1)))
    O = {x[0]: x[1:] for x in res.by["o"]}
    W = {x[0]: x[1] for x in res.by.get("w", [])}
    I = {x[0]: x[1] for x in res.by.get("i", [])}
    NC = {x[0]: x[1] for x in res.by.get("nc", [])}
    hist = []
    Ifields = iter([x[1] for x in res.by.get("i", [])])
    Conf = iter([x[1] for x in res.by.get("f", [])])
    for j, (nm, o, ck, k, reset) in enumerate(steps):
        ph = np.exp(2j * np.pi * fr @ np.array(ks[k]))
        hist = (hist + [nm if o[0] != "solver" else o[1]])[-3:]
        where = "%s after %s" % (tag, " ; ".join(hist))
        ncall = 0
        if o[0] == "make":
            kd = o[1][0]
            st[o[1]] = np.zeros(ns) if kd == "r" else np.zeros(ns, complex) if kd == "c" else np.zeros((ns, 3), complex)
            bl[o[1]] = True
        elif o[0] in ("set", "copy"):
            st[o[1]], bl[o[1]] = st[o[2]].copy(), bl[o[2]]
        elif o[0] == "map":
            sig = o[3]
            src = [st[x] for x in o[2]]
            bs = [bl[x] for x in o[2]]
            st[o[1]] = NP[sig](*src)
            ncall = ns
            if len(o[2]) == 1 and sig[0] == sig[1]:
                bl[o[1]] = bs[0]
            elif len(o[2]) > 1:
                bl[o[1]] = True
        elif o[0] == "load":
            if o[1] != "cur":
                st["cur"], bl["cur"] = st[o[1]].copy(), bl[o[1]]
        elif o[0] in ("solver", "energy"):
            v = W[j]
            st["cur"] = fieldref.cv(v) if ck == "v" else np.array(v, complex if ck == "c" else float)
            bl["cur"] = o[1:2] != ("get-poynting 1",)
        elif o[0] == "nonbloch":
            bl[o[1]] = False
        elif o[0] == "integ":
            F = []
            for x, kd in zip(o[1], o[2]):
                F.append(C08.expand(n, cfg, st[x], kd != "r"))
            w = [1, 0.7 + 0.2j, -0.6, 1.9]
            tot = np.sum(0.1 * m.p[:, 0] + sum(a * d1(f) for a, f in zip(w, F))) * m.Vol / N
            r.close("integral", complex(next(Ifields)), complex(tot), 1e-9 * max(1, sum(abs(f).sum() for f in F) * m.Vol / N), where)
            ncall = N
        elif o[0] == "conf":
            if next(Conf) != [True] * 5:
                r.fail("conform", where + ": fields of one grid reported as not conforming")
        elif o[0] in ("k", "init", "gv"):
            st["cur"] = None
        r.op()
        r.state(tag, hist[-case["depth"]:])
        if NC[j] != ncall:
            r.fail("calls", "%s: the user function was called %d times for %d points" % (where, NC[j], ncall))
        ob, cu, preds = O[j]
        if preds != [[True, False, False], [False, True, False], [False, False, True], [True] * 3]:
            r.fail("predicates", "%s: type predicates answer %s" % (where, preds))
        for x, (cnt, d) in zip(OBJS, ob[:6]):
            w = np.sum(wt(ns) * d1(st[x]))
            tl = 1e-10 * max(1.0, np.sum(abs(st[x])) * ns * 0.1)
            if cnt != ns or not abs(complex(d) - w) <= tl:
                r.fail("contents", "%s: the contents of %s are not as the operations define (digest %s, expected %s)" % (where, x, d, w))
                return
        full = {x: C08.expand(n, cfg, st[x], x[0] != "r") for x in OBJS}
        exp = [full["r1"], full["r2"], full["c1"] * ph, full["c2"] * ph] + [full[x] * (ph[:, None] if bl[x] else 1) for x in ("v1", "v2")] + [full["v1"], full["v2"]]
        for nmq, got, e in zip(("r1", "r2", "c1", "c2", "v1", "v2", "v1 bloch", "v2 bloch"), ob[6:], exp):
            w = np.sum(wt(N) * d1(e))
            if not abs(complex(got) - w) <= 1e-10 * max(1.0, np.sum(abs(e)) * N * 0.1):
                r.fail("points", "%s: point queries of %s give digest %s, expected %s" % (where, nmq, got, w))
                return
        if ck is not None and st["cur"] is not None:
            f = C08.expand(n, cfg, st["cur"], ck != "r")
            e = f if ck == "r" else f * ph if ck == "c" else f * (ph[:, None] if bl["cur"] else 1)
            tl = 1e-10 * max(1.0, np.sum(abs(f)) * N * 0.1)
            if not abs(complex(cu[0][1]) - np.sum(wt(ns) * d1(st["cur"]))) <= tl:
                r.fail("cur", "%s: contents of the current field: digest %s, expected %s" % (where, cu[0][1], np.sum(wt(ns) * d1(st["cur"]))))
                return
            for q in cu[1:]:
                if not abs(complex(q) - np.sum(wt(N) * d1(e))) <= tl:
                    r.fail("cur-points", "%s: point queries of the current field: digest %s, expected %s" % (where, q, np.sum(wt(N) * d1(e))))
                    return
        if reset:
            fill()
            for x in OBJS:      # the fill maps each object onto itself: its kind of phase stays
                pass
    r.trace()


STORE = {"d": "(get-dfield 2)", "b": "(get-bfield 1)", "h": "(get-hfield 2)", "e": "(get-efield 1)", "v": "(get-poynting 2)", "D": "(begin (get-dfield 1) (compute-field-energy))", "B": "(begin (get-bfield 2)(compute-field-energy))",
         "H": "(begin (get-hfield 2)(compute-field-energy))", "R": "(get-tot-pwr 1)", "n": "(get-epsilon)", "m": "(get-mu)", "C": "(begin (get-dfield 1)(compute-field-divergence))"}
DISTURB = ["0", "(get-bfield 2)", "(begin (get-dfield 1)(compute-field-energy))", "(get-epsilon)", "(get-efield 2)", "(compute-group-velocities)", "(begin (get-hfield 1)(output-field-to-file -1 \"x-\"))",
           "(init-params NO-PARITY false)", "(compute-zparities)", "(set-eigenvectors (get-eigenvectors 1 1) 1)", "(begin (set! st (field-copy st)) (gc))", "(field-map! (field-copy st) (lambda (a) (if (vector? a) (vector3 0 0 0) 0)) st)",
           "(get-dominant-planewave 1)", "(get-poynting 1)"]


def store(case, r):
    sc, cfg, ld = scene.BY[case["scene"]], case["cfg"], case["load"]
    if ld == "m" and not sc.mu:
        return
    if ld in "H" and sc.mu:
        return
    ks = KK[rank(sc.n)]
    s = sc.script() + "(set! num-bands 2)(set! deterministic? true)(init-params NO-PARITY true)(define pts (list (vector3 0.1 0.2 0.05) (vector3 -0.3 0.4 0.6)))(solve-kpoint %s)\n" % ctl.v3(ks[0])
    s += LIB + "(define st 0)(define FI (lambda (F eps r) (+ (* eps (vector3-cdot F F)) (vector3-dot (vector3 0.3 0.7+1i -0.4) F) (vector3-x r))))(define EI (lambda (u eps r) (+ (* u u eps) (* u (vector3-z r)))))\n"
    obj = "(list (make block (center 0.05 0.03 0) (size 0.47 0.43 0.7) (material (make dielectric (epsilon 2)))))"
    if ld in "dbhev":
        ans = "(list (all cur-field) (map get-field-point pts) (map get-bloch-field-point pts) (compute-field-integral FI) %s %s)" % (
            "(compute-energy-in-dielectric 0 100)" if ld == "x" else "0",
            "(begin (get-efield-from-dfield)(all cur-field))" if ld == "d" else "(begin (compute-field-energy))" if ld in "bhe" and not (ld == "h" and sc.mu) else "0")
    elif ld in "DBHR":
        ans = "(list (all cur-field) (map get-energy-point pts) (compute-energy-integral EI) (compute-energy-in-dielectric 1.5 100) (compute-energy-in-object-list %s))" % obj
    elif ld in "nm":
        ans = "(list (all cur-field) (map (lambda (p) (rscalar-field-get-point cur-field p)) pts))"
    else:
        ans = "(list (all cur-field) (map get-cscalar-point pts) (map get-bloch-cscalar-point pts))"
    for i, d in enumerate(DISTURB):
        # the answers consume the field in some cases: take them from a fresh load of the same state
        s += "%s(set! st (field-copy cur-field))(emit 'a %d %s)\n%s\n" % (STORE[ld], i, ans, d)
        s += "%s(field-load st)(emit 'b %d %s)\n" % ("(solve-kpoint kk)" if False else "", i, ans)
        if "init-params" in d:
            s += "(solve-kpoint %s)\n" % ctl.v3(ks[0])
    s += "(emit 'done)"
    s = s.replace("(init-params NO-PARITY false)\n", "(init-params NO-PARITY false)(solve-kpoint %s)\n" % ctl.v3(ks[0])) if False else s
    with ctl.Scratch() as d:
        res = ctl.run(cfg, s, cwd=d)
    tag = "%s %s" % (sc.name, cfg)
    if not res.ok() or not res.by.get("done"):
        r.fail("died", "%s %s: %s" % (tag, STORE[ld], res.tail()))
        return

    def flat(x):
        return [y for z in x for y in flat(z)] if isinstance(x, list) else [complex(x)]
    A = {x[0]: flat(x[1]) for x in res.by["a"]}
    B = {x[0]: flat(x[1]) for x in res.by["b"]}
    for i, dd in enumerate(DISTURB):
        r.op()
        r.state(tag, ld, i)
        if dd.startswith("(init"):
            # the k-point is no longer set: only what does not involve it
            m = len(A[i]) if ld in "DBHRnm" else int(np.prod(sc.n)) * (3 if ld != "C" else 1)
            if cfg == "inv" and ld not in "DBHRnm":
                m = len(C08.expand(sc.n, "complex", np.arange(3), False))
            a, b = A[i][:m], B[i][:m]
        else:
            a, b = A[i], B[i]
        if len(a) != len(b) or not np.allclose(a, b, rtol=1e-11, atol=1e-11):
            r.fail("reload", "%s: field stored by %s and loaded back after %s answers differently (%s instead of %s)" % (tag, STORE[ld], dd, b[:6], a[:6]))
    r.trace()


BASE = "(set! geometry-lattice (make lattice (size 1 1 no-size)))(set! geometry (list (make cylinder (center 0 0) (radius 0.3) (height infinity) (material (make dielectric (epsilon 4))))))(set! resolution %s)(set! num-bands 2)(init-params NO-PARITY true)(solve-kpoint (vector3 0.2 0.1 0))(get-epsilon)"
MK = "(define r (rscalar-field-make cur-field))(define c (cscalar-field-make cur-field))(define v (cvector-field-make cur-field))"
R2 = MK + "(set! resolution %s)(init-params NO-PARITY true)(solve-kpoint (vector3 0.2 0.1 0))(get-epsilon)(define r' (rscalar-field-make cur-field))(define c' (cscalar-field-make cur-field))(define v' (cvector-field-make cur-field))"
R6 = R2 % "6"
R3 = MK + "(set! resolution (vector3 3 12 1))(init-params NO-PARITY true)(get-epsilon)(define r' (rscalar-field-make cur-field))(define c' (cscalar-field-make cur-field))(define v' (cvector-field-make cur-field))"
ID = "(lambda a (car a))"
REFUSE = []
for a, b in itertools.permutations("rcv", 2):
    REFUSE.append((MK, "(field-set! %s %s)" % (a, b)))
for G in (R6, R3):
    for a in "rcv":
        REFUSE.append((G, "(field-set! %s %s')" % (a, a)))
        REFUSE.append((G, "(field-set! %s' %s)" % (a, a)))
        REFUSE.append((G, "(field-load %s)" % a))
        for b in "rcv":
            REFUSE.append((G, "(field-map! %s (lambda (x y) x) %s %s')" % (a, a, b)))
            REFUSE.append((G, "(field-map! %s (lambda (x y) y) %s' %s)" % (a, b, a)))
            REFUSE.append((G, "(integrate-fields (lambda (p x y) 1) %s %s')" % (a, b)))
            REFUSE.append((G, "(integrate-fields (lambda (p x y z) 1) %s' %s' %s)" % (a, b, a)))
    REFUSE.append((G, "(field-set! cur-field r)"))
    REFUSE.append((G, "(field-set! r cur-field)"))
    REFUSE.append((G, "(field-map! cur-field (lambda (x) x) r)"))
    REFUSE.append((G, "(integrate-fields (lambda (p x y) 1) cur-field v)"))
for x in ("cur-field",):
    for op in ("(rscalar-field-make %s)", "(cscalar-field-make %s)", "(cvector-field-make %s)", "(field-make %s)", "(field-copy %s)", "(field-set! r %s)", "(field-load %s)", "(integrate-fields (lambda (p x) 1) %s)", "(field-map! r (lambda (x) 1) %s)",
               "(rscalar-field-get-point %s (vector3 0 0 0))", "(cscalar-field-get-point %s (vector3 0 0 0))", "(cvector-field-get-point %s (vector3 0 0 0))", "(cvector-field-get-point-bloch %s (vector3 0 0 0))", "(cvector-field-nonbloch! %s)"):
        REFUSE.append((MK + "(solve-kpoint (vector3 0.1 0.1 0))", op % x))          # no current field
        REFUSE.append((MK, op % "5"))
        REFUSE.append((MK, op % "\"r\""))
        REFUSE.append((MK, op % "'r"))
        REFUSE.append((MK, op % "(get-eigenvectors 1 1)"))
for q, ks in (("rscalar-field-get-point", "cv"), ("cscalar-field-get-point", "rv"), ("cvector-field-get-point", "rc"), ("cvector-field-get-point-bloch", "rc")):
    for a in ks:
        REFUSE.append((MK, "(%s %s (vector3 0.1 0.2 0))" % (q, a)))
for a in "rc":
    REFUSE.append((MK, "(cvector-field-nonbloch! %s)" % a))
REFUSE.append((MK, "(cvector-field-nonbloch! cur-field)"))
for f in ("(lambda (x) (vector3 1 2 3))", "(lambda (x) \"a\")"):
    REFUSE.append((MK, "(field-map! r %s r)" % f))
REFUSE.append((MK, "(field-map! v (lambda (x) 3) v)"))
REFUSE.append((MK, "(field-map! r (lambda (x) 3) r c)"))
REFUSE.append((MK, "(field-map! c (lambda (x) 'a) c)"))


def refuse(case, r):
    pre, op = REFUSE[case["i"]]
    cfg = case["cfg"]
    s = BASE % "4" + pre + "(emit 'before)" + op + "(emit 'after)"
    res = ctl.run(cfg, s)
    r.op()
    r.state(cfg, case["i"])
    if not res.by.get("before"):
        r.fail("setup", res.tail())
    elif res.by.get("after") or res.rc == 0:
        r.fail("accepted", "%s: %s after %s was not refused" % (cfg, op, pre[-160:]))
    elif isinstance(res.rc, int) and (res.rc < 0 or res.rc in (139, 134)) or res.rc == "timeout":
        r.fail("crash", "%s: %s after %s ended with %s" % (cfg, op, pre[-160:], res.rc))
    r.trace()


def run_case(case, r):
    {"seq": seq, "store": store, "refuse": refuse}[case["kind"]](case, r)


if __name__ == "__main__":
    vf.Check("C13", "model_checking", cases, run_case, setup=setup, case_timeout=600,
             rule="seq: one case = one segment of a de Bruijn word over the operations, every state of the register file compared after every step; store: one field kind, every disturbance; refuse: one invalid operation",
             bounds="6 objects plus the current field, ~55 operations, all ordered pairs on 7 structure/build cells (thorough: all cells, all triples on 3); 12 stored field kinds x 14 disturbances; ~190 invalid operations on two builds").main()
