#!/usr/bin/env python3-vt
"""C21: the targeted solver returns the states nearest the target, and they are states like any other."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mpbbuild
import numpy as np
import ref, ctl, scene, fieldref
from fieldref import cv
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import C01

OPT = {"default": "", "blk0": "(set! eigensolver-block-size 0)", "blk1": "(set! eigensolver-block-size 1)", "blk2": "(set! eigensolver-block-size 2)", "simple": "(set! simple-preconditioner? true)",
       "dav": "(set! eigensolver-davidson? true)(set! eigensolver-nwork 6)", "davblk": "(set! eigensolver-davidson? true)(set! eigensolver-nwork 5)(set! eigensolver-block-size 2)",
       "nwork5": "(set! eigensolver-nwork 5)"}
KS = {1: [(0.3, 0, 0), (0, 0, 0), (0.1, 0.2, 0.4)], 2: [(0.3, 0.15, 0), (0, 0, 0), (0.2, 0, 0.3), (0.5, 0.5, 0)], 3: [(0.3, 0.15, 0.22), (0, 0, 0), (0.5, 0, 0.1)]}
NEG = [scene.Scene("neg2d", None, (1, 1, None), 5, [ctl.cyl((0, 0, 0), 0.3, -3.0)]),
       scene.Scene("neg1d", None, (1, None, None), 7, [ctl.block((0, 0, 0), (0.4, 1e20, 1e20), -5.0)]),
       scene.Scene("neg2e", None, (1, 1, None), 4, [ctl.block((0.1, 0, 0), (0.5, 0.4, 1), {"epsilon-diag": (-3.0, -5.0, -2.0), "epsilon-offdiag": (0.4, 0, 0)})], inv=False, ysym=False),
       scene.Scene("neg3d", None, (1, 1, 1), 3, [ctl.sphere((0, 0, 0), 0.4, -4.0)], zsym=True)]
PLAIN = [s for s in scene.ALL if not s.mu]
BY = {s.name: s for s in PLAIN + NEG}


def rank(n):
    return 3 if n[2] > 1 else 2 if n[1] > 1 else 1


def setup(tier):
    for c in ("complex", "inv", "herm"):
        mpbbuild.build(c, what=("mpb",))


def cases(tier):
    for sc in PLAIN:
        for cfg in sc.builds():
            if cfg == "herm" and not sc.herm and tier != "thorough" and sc.name not in ("off2d", "ani3d"):
                continue
            for opt in OPT:
                if tier != "thorough" and opt not in ("default", "dav") and sc.name not in ("rods2d", "slab1d", "off2d", "gyro2d", "cube3d"):
                    continue
                for par in ("NO-PARITY", "EVEN-Z", "ODD-Z") if sc.zsym and (tier == "thorough" or opt in ("default", "blk2")) else ("NO-PARITY",):
                    yield {"id": "%s-%s-%s-%s" % (sc.name, cfg, opt, par), "kind": "near", "scene": sc.name, "cfg": cfg, "opt": opt, "par": par}
    for sc in NEG:
        for cfg in sc.builds():
            for opt in ("default", "blk2", "dav") if tier != "thorough" else OPT:
                yield {"id": "%s-%s-%s" % (sc.name, cfg, opt), "kind": "neg", "scene": sc.name, "cfg": cfg, "opt": opt, "par": "NO-PARITY"}
    for sc in ("slab1d", "rods2d", "slab1de", "cube3d"):
        for cfg in BY[sc].builds():
            yield {"id": "hist-%s-%s" % (sc, cfg), "kind": "hist", "scene": sc, "cfg": cfg}


def nearest(w, t, nb):
    """the nb eigenfrequencies nearest t, or None when the choice is ambiguous"""
    a = np.argsort(np.abs(w ** 2 - t ** 2), kind="stable")
    b = np.argsort(np.abs(w - t), kind="stable")
    wa, wb = np.sort(w[a[:nb]]), np.sort(w[b[:nb]])
    if np.abs(wa - wb).max() > 1e-6:
        return None
    other = np.array([np.abs(x - wa).min() > 1e-6 for x in w])            # states that are not (degenerate with) the wanted ones
    for m, o in ((np.abs(w ** 2 - t ** 2), a), (np.abs(w - t), b)):
        if other.any() and m[other].min() < 1.25 * m[o[nb - 1]] + 0.01:
            return None
    return wa


HEAD = "(set! tolerance 1e-13)(set! deterministic? true)(set! eigensolver-flags (+ EIGS_DEFAULT_FLAGS EIGS_FORCE_EXACT_LINMIN))"


def targets(w, tier):
    """frequencies in bands and gaps"""
    u = [w[0]]
    for x in w[1:]:
        if x > u[-1] + 1e-6:
            u.append(x)
    out = [0.5 * u[0]] if u[0] > 1e-3 else []
    for i in range(min(len(u) - 1, 6)):
        g = u[i + 1] - u[i]
        out += [u[i] + f * g for f in ((0.1, 0.35, 0.65, 0.9) if tier == "thorough" else (0.15, 0.65))]
    out += [u[min(3, len(u) - 1)], u[min(8, len(u) - 1)] * 1.0001]
    return [t for t in out if t > 1e-3]


def ask(j, nb):
    s = "(emit 'f %d freqs)" % j
    s += "(for-each (lambda (b) (get-bfield b) (emit 'b %d b (map get-bloch-field-point pts)) (emit 'be %d b (compute-field-energy)) (get-dfield b) (emit 'd %d b (map get-bloch-field-point pts)) (emit 'de %d b (compute-field-energy)) (get-efield b) (emit 'e %d b (map get-bloch-field-point pts))) '(%s))" % (j, j, j, j, j, " ".join(str(i + 1) for i in range(nb)))
    s += "(emit 'v %d (map vector->list (compute-group-velocities)))\n" % j
    return s


def judge(r, tag, m, k, res, j, nb, om2):
    """the states returned are orthonormal eigenstates, with consistent fields, energies and velocities"""
    B = {}
    for b in range(1, nb + 1):
        f = cv([x for x in res.by["b"] if x[0] == j and x[1] == b][0][2])
        d = cv([x for x in res.by["d"] if x[0] == j and x[1] == b][0][2])
        e = cv([x for x in res.by["e"] if x[0] == j and x[1] == b][0][2])
        B[b] = f
        lam = om2[b - 1]
        curl = lambda x: m.F @ np.cross(m.q(k), m.Fi @ x)
        back = curl(m.e(curl(f)))                                     # q x eps^-1 q x b = -lam b
        scale = np.abs(f).max() * max(1, abs(lam))
        r.close("eigenstate", -back, lam * f, 3e-2 * scale, "%s band %d: Maxwell operator applied to the state vs omega^2 times it" % (tag, b))
        om = np.sqrt(abs(lam))
        dd = m.d(f, om if om > 1e-7 else 0, k)
        r.close("d", d, dd, 1e-6 * max(1, np.abs(dd).max()), "%s band %d D field" % (tag, b))
        r.close("e", e, m.e(dd), 1e-6 * max(1, np.abs(m.e(dd)).max()), "%s band %d E field" % (tag, b))
        if lam > 1e-6:
            be = [x for x in res.by["be"] if x[0] == j and x[1] == b][0][2]
            de = [x for x in res.by["de"] if x[0] == j and x[1] == b][0][2]
            r.close("energy", [be[0], de[0]], [1, 1], 1e-4, "%s band %d energies" % (tag, b))
    A = np.array([B[b].ravel() for b in sorted(B)])
    r.close("orthonormal", A.conj() @ A.T * m.Vol / m.N, np.eye(nb), 1e-8, tag + " overlaps of the states")
    v = np.array([x for x in res.by["v"] if x[0] == j][0][1], float)
    for b in range(1, nb + 1):
        om = np.sqrt(abs(om2[b - 1]))
        if om < 1e-6:
            continue
        d = m.d(B[b], om, k)
        want = np.real(np.cross(np.conj(m.e(d)), B[b])).sum(0) * m.Vol / m.N
        r.close("velocity", v[b - 1], want, 1e-6 * max(1, np.abs(want).max()), "%s band %d velocity" % (tag, b))


def eps_of(sc, cfg, extra=""):
    res = ctl.run(cfg, sc.script() + extra + "(set! num-bands 1)(init-params NO-PARITY true)(emit 'eps (map get-epsilon-inverse-tensor-point %s))" % sc.pts())
    return scene.tensor_grid(res.one("eps")[0])


def run_case(case, r):
    return globals()["case_" + case["kind"]](case, r)


LOUD = ("failure to converge", "non-positive eigenvalue", "non-independent AV subspace", "singular YtY")


def run_plan(r, case, sc, s, plan, m, k, neg=False):
    """a run that gives up (loudly) ends the program: the questions left are asked again"""
    cfg, par = case["cfg"], case["par"]
    todo = list(range(len(plan)))
    while todo:
        res = ctl.run(cfg, sc.script() + HEAD + OPT[case["opt"]] + "(define pts %s)\n" % sc.pts() + "".join(s[j] for j in todo), timeout=200)
        done, again = [x[0] for x in res.by.get("v", [])], []
        for j in done:
            t, nb, want = plan[j]
            tag = "%s %s %s %s k=%s target %.4f nb=%d" % (sc.name, cfg, case["opt"], par, k, t, nb)
            got = np.array([x[1] for x in res.by["f"] if x[0] == j][0], float)
            r.op()
            r.state(tag, np.round(got, 6).tolist())
            r.worst("freq", np.abs(np.sort(got) - want).max())
            r.info["answered"] = r.info.get("answered", 0) + 1
            if case["opt"].startswith("dav") and np.abs(np.sort(got) - want).max() > 1e-4 and "(randomize-fields)" not in s[j]:
                # the Davidson iteration can stall between states: it is given other starting fields
                s[j] = s[j].replace("(solve-kpoint", "(randomize-fields)(solve-kpoint")
                again.append(j)
                continue
            if not r.close("frequencies", np.sort(got), want, 2e-4 if neg else 2e-5, tag + ": frequencies nearest the target"):
                continue
            judge(r, tag, m, k, res, j, nb, got if neg else got ** 2)
        if res.ok():
            todo = again
            continue
        if not any(x in res.err for x in LOUD):
            r.fail("died", res.tail())
            break
        r.info["gaveup"] = r.info.get("gaveup", 0) + 1
        todo = again + [j for j in todo if j not in done][1:]


def case_neg(case, r):
    sc, cfg, par = BY[case["scene"]], case["cfg"], case["par"]
    extra = "(allow-negative-epsilon)"
    eps = eps_of(sc, cfg, extra)
    m = fieldref.Model(sc, eps)
    for ki, k in enumerate(KS[rank(sc.n)]):
        lam = C01.spectrum(sc, k, eps, None, C01.PAR[par])
        if not any(k):
            lam = lam[np.abs(lam) > 1e-8]
        lam = lam[np.argsort(np.abs(lam), kind="stable")]
        s, plan = [], []
        for nb in (1, 2, 3, 4, 6):
            if nb > len(lam) // 3 or (abs(lam[nb] - lam[nb - 1]) > 1e-6 and abs(lam[nb]) < 1.2 * abs(lam[nb - 1])):
                continue
            plan.append((0.0, nb, np.sort(lam[:nb])))
            s.append("(allow-negative-epsilon)(set! num-bands %d)(init-params %s true)(solve-kpoint %s)" % (nb, par, ctl.v3(k)) + ask(len(plan) - 1, nb))
        run_plan(r, case, sc, s, plan, m, k, True)
    r.trace()


HOPS = {"ord": "(set! target-freq 0)(init-params NO-PARITY true)", "t1": "(set! target-freq %s)(init-params NO-PARITY true)", "t2": "(set! target-freq %s)(init-params NO-PARITY true)",
        "keep": "(init-params NO-PARITY false)", "late": "(set! target-freq %s)", "zero": "(set! target-freq 0)", "neg": "(allow-negative-epsilon)(init-params NO-PARITY true)",
        "pos": "(set! negative-epsilon-ok? false)(init-params NO-PARITY true)", "bands": "(set! num-bands (- 5 num-bands))(init-params NO-PARITY false)"}


def case_hist(case, r):
    """targets take effect at init-params and leave no trace afterwards"""
    sc, cfg = BY[case["scene"]], case["cfg"]
    eps = eps_of(sc, cfg)
    k = KS[rank(sc.n)][0]
    w = np.sqrt(np.maximum(C01.spectrum(sc, k, eps, None, ()), 0))
    ts = []
    for t in targets(w, "thorough")[1:]:
        if all(nearest(w, t, nb) is not None and abs(nearest(w, t, nb)[0] - w[0]) > 1e-3 for nb in (2, 3)):
            ts.append(t)
    t1, t2 = ts[0], ts[-1]
    m = fieldref.Model(sc, eps)
    depth = 3 if os.environ.get("VERIF_TIER") == "thorough" else 2
    s = sc.script() + HEAD + "(set! num-bands 2)(define pts %s)\n" % sc.pts()
    words = [w_ for w_ in itertools.product(HOPS, repeat=depth)]
    exp, j = [], 0
    for wd in words:
        nb, target, act, neg, kept = 2, 0.0, 0.0, False, False
        s += "(set! num-bands 2)(set! target-freq 0)(set! negative-epsilon-ok? false)(init-params NO-PARITY true)\n"
        for o in wd:
            before = act
            if o == "ord":
                target = act = 0.0
            elif o in ("t1", "t2"):
                target = act = t1 if o == "t1" else t2
            elif o == "keep":
                act = target
            elif o == "late":
                target = t1
            elif o == "zero":
                target = 0.0
            elif o == "neg":
                target = act = 1e-20
                neg = True
            elif o == "pos":
                act, neg = target, False
            else:
                nb, act = 5 - nb, target
            s += HOPS[o] % (ctl.num(t2 if o == "t2" else t1)) if "%" in HOPS[o] else HOPS[o]
            s += "(solve-kpoint %s)" % ctl.v3(k) + ask(j, nb)
            kept = (act != before or kept) if o in ("keep", "bands", "late", "zero") else False
            exp.append((wd, o, nb, act, neg, kept))
            j += 1
    res = ctl.run(cfg, s, timeout=300)
    if not res.ok():
        if not any(x in res.err for x in LOUD):
            r.fail("died", res.tail())
            return
        r.info["gaveup"] = r.info.get("gaveup", 0) + 1
        exp = exp[:len(res.by.get("v", []))]
    for j, (wd, o, nb, act, neg, kept) in enumerate(exp):
        got = np.array([x[1] for x in res.by["f"] if x[0] == j][0], float)
        want = nearest(w, act, nb) if act > 1e-9 else w[:nb]
        tag = "%s %s history %s at %s" % (sc.name, cfg, wd, o)
        r.op()
        r.state(tag, np.round(got, 6).tolist())
        if kept:
            # another target, starting from the exact states of the old one: the solver may stay there
            judge(r, tag, m, k, res, j, nb, got if neg else got ** 2)
            continue
        if r.close("history", np.sort(got), want ** 2 if neg else want, 2e-5, tag + ": frequencies"):
            judge(r, tag, m, k, res, j, nb, got if neg else got ** 2)
    r.trace()


def case_near(case, r):
    sc, cfg, par = BY[case["scene"]], case["cfg"], case["par"]
    eps = eps_of(sc, cfg)
    m = fieldref.Model(sc, eps)
    ks = [k for k in KS[rank(sc.n)] if par == "NO-PARITY" or k[2] == 0]
    tier = os.environ.get("VERIF_TIER", "quick")
    big = np.prod(sc.n) > 20
    for ki, k in enumerate(ks):
        w2 = C01.spectrum(sc, k, eps, None, C01.PAR[par])
        w = np.sqrt(np.maximum(w2, 0))
        if not any(k):
            w = w[w > 1e-5]                                              # the constant static states are not solved for
        s = []
        plan = []
        for t in targets(w, tier):
            for nb in (1, 2, 3, 5):
                if nb > max(1, len(w) // 3):
                    continue
                want = nearest(w, t, nb)
                if want is None:
                    continue
                plan.append((t, nb, want))
                j = len(plan) - 1
                s.append("(set! target-freq %s)(set! num-bands %d)(init-params %s true)(solve-kpoint %s)" % (ctl.num(t), nb, par, ctl.v3(k)) + ask(j, nb))
        if not plan:
            continue
        run_plan(r, case, sc, s, plan, m, k)
    r.trace()


if __name__ == "__main__":
    vf.Check("C21", "model_checking", cases, run_case, setup=setup, case_timeout=400,
             rule="one case = (structure, build, solver option, parity) with every target and number of bands whose nearest states are unambiguous, or a structure with negative epsilon, or all histories of target changes; frequencies against the whole dense spectrum, and every state judged as an eigenstate with its fields, energies and velocities",
             bounds="16 positive structures, 4 negative ones, 3 builds, 8 solver options, 3-4 k-points, 3 parities, up to 17 targets per k (26 thorough) x 1, 2, 3, 5 bands; histories of 9 operations to depth 2 (3 thorough)").main()
