#!/usr/bin/env python3-vt
"""C06: parity sectors partition the spectrum, parities are reported exactly, and the order of parity runs in a session
does not matter."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mpbbuild
import numpy as np
import ref, ctl, scene, fieldref
from fieldref import cv
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import C01
from C04 import debruijn
from scene import Scene, b as BL, c as CY, s as SP

NB = 4
EXTRA = [
    Scene("even2d", None, (1, 1, None), 6, [CY((0, 0, 0), 0.3, 6.0)]),
    Scene("evenz3d", None, (1, 1, 1), 4, [SP((0, 0, 0), 0.35, 4.0)], zsym=True),
    Scene("mix3d", None, (1, 1, 1), (3, 5, 4), [BL((0, 0, 0), (0.5, 0.7, 0.36), 5.0)], zsym=True),
    Scene("cubemu3d", None, (1, 1, 1), (3, 3, 3), [SP((0, 0, 0), 0.4, (4.0, 1.5))], zsym=True, mu=True),
    Scene("sub3d", None, (1, 1, 2), (3, 3, 2.5), [BL((0, 0, 0.6), (1e20, 1e20, 0.6), 2.0), BL((0, 0, 0), (1e20, 0.5, 0.5), 7.0)], zsym=False, inv=False),
]
BY = dict(scene.BY)
BY.update({x.name: x for x in EXTRA})
NOY = ("tri2d", "fcc3d", "mu2da", "off2d", "ani2d", "ani2df", "gyro2d", "ani3d", "mu3d", "gyro3d")
# action name -> (script, sector)
N, ZE, ZO, YE, YO = "NO-PARITY", "EVEN-Z", "ODD-Z", "EVEN-Y", "ODD-Y"
C4 = {(a, b): "(+ %s %s)" % (a, b) for a in (YE, YO) for b in (ZE, ZO)}
RUNS = {"run": N, "run-zeven": ZE, "run-zodd": ZO, "run-yeven": YE, "run-yodd": YO, "run-yeven-zeven": C4[YE, ZE], "run-yeven-zodd": C4[YE, ZO],
        "run-yodd-zeven": C4[YO, ZE], "run-yodd-zodd": C4[YO, ZO]}
ALIAS = {"run-te": ZE, "run-tm": ZO, "run-even": ZE, "run-odd": ZO, "run-te-yeven": C4[YE, ZE], "run-te-yodd": C4[YO, ZE], "run-tm-yeven": C4[YE, ZO], "run-tm-yodd": C4[YO, ZO]}
# changing the sector without re-initialising; -1 = the sector of the previous run
SETP = {"set " + v: v for v in RUNS.values()}
SETP["set -1"] = None
SETP["rp " + YO] = YO


def setup(tier):
    for c in ("complex", "inv", "herm"):
        mpbbuild.build(c, what=("mpb",))


def sectors(sc):
    y = sc.ysym and sc.name not in NOY
    out = [N]
    if sc.zsym:
        out += [ZE, ZO]
    if y:
        out += [YE, YO]
    if y and sc.zsym:
        out += list(C4.values())
    # in one dimension half of the combined sectors are empty; the iterative solver is meant for a few of many states
    return [p for p in out if dim(sc, p) >= 5]


def dim(sc, p):
    n = tuple(sc.n)
    if (n, p) not in _dim:
        D = C01.dense(sc, (0.3, 0, 0), None, None)
        V = np.eye(2 * D.N)
        for ax, sg in C01.PAR[p]:
            P = C01.mirror_proj(sc, n, ax, sg, D.T)
            w, U = np.linalg.eigh((V.T @ P @ V + (V.T @ P @ V).T) / 2)
            V = V @ U[:, w > 0.5]
        _dim[n, p] = V.shape[1]
    return _dim[n, p]


_dim = {}


def ks_of(sc):
    ks = [(0.3, 0, 0), (0, 0, 0)]
    if not (sc.ysym and sc.name not in NOY):
        ks[0] = (0.3, 0.15, 0)
    if not sc.zsym:
        ks = [(0.3, 0, 0.2), (0.1, 0, 0)] if sc.ysym and sc.name not in NOY else [(0.3, 0.1, 0.2), (0, 0, 0)]
    return ks


def cases(tier):
    for sc in scene.ALL + EXTRA:
        for cfg in sc.builds():
            if cfg == "herm" and not sc.herm and sc.name not in ("mu2d", "cube3d"):
                continue
            yield {"id": "sec-%s-%s" % (sc.name, cfg), "kind": "sec", "scene": sc.name, "cfg": cfg}
            if len(sectors(sc)) > 1 and (tier == "thorough" or sc.n[2] == 1 or sc.name in ("cube3d",)):
                yield {"id": "seq-%s-%s" % (sc.name, cfg), "kind": "seq", "scene": sc.name, "cfg": cfg, "depth": 3 if tier == "thorough" and sc.n[2] == 1 else 2}
    for scn in ("rods2d", "cube3d", "wg2d", "slab1d"):
        for cfg in ("complex", "inv"):
            for p, k in ((ZE, (0.1, 0, 0.2)), (ZO, (0, 0, -0.5)), (YE, (0.1, 0.2, 0)), (YO, (0, 0.5, 0)), (C4[YE, ZO], (0.1, 0.2, 0)), (C4[YO, ZE], (0.1, 0, 0.3)), ("(+ EVEN-Z ODD-Z)", (0.1, 0, 0)), ("(+ EVEN-Y ODD-Y)", (0.1, 0, 0))):
                yield {"id": "bad-%s-%s-%s-%s" % (scn, cfg, p, k), "kind": "bad", "scene": scn, "cfg": cfg, "par": p, "k": list(k)}


def head(sc, nb):
    return sc.script() + "(set! num-bands %d)(set! tolerance 1e-11)(set! deterministic? true)(set! eigensolver-flags (+ EIGS_DEFAULT_FLAGS EIGS_FORCE_EXACT_LINMIN))(define pts %s)(define bs '(%s))\n" % (
        nb, sc.pts(), " ".join(str(i + 1) for i in range(nb)))


def nbands(sc, p):
    return min(NB, max(1, (dim(sc, p) - 2) // 3))


def name_of(sc, p):
    s = ""
    for ax, sg in reversed(C01.PAR[p]):
        s += ({"z1": "te", "z-1": "tm"} if sc.n[2] == 1 else {"z1": "zeven", "z-1": "zodd"}).get(ax + str(sg)) if ax == "z" else ("yeven" if sg == 1 else "yodd")
    return s


def mirror(m, f, ax, axial):
    """image of the field f on the grid under the mirror of axis ax"""
    a = "xyz".index(ax)
    j = m.idx.copy()
    j[:, a] = (-j[:, a]) % m.n[a]
    g = f[(j[:, 0] * m.n[1] + j[:, 1]) * m.n[2] + j[:, 2]].copy()
    S = np.ones(3)
    S[a] = -1
    return g * (-S if axial else S)


def even_axes(sc):
    return [a for a in "xyz" if sc.n["xyz".index(a)] % 2 == 0]


def ref_spectrum(sc, k, m, p, memo):
    key = (tuple(k), p)
    if key not in memo:
        memo[key] = np.maximum(C01.spectrum(sc, k, m.ei, m.mi, C01.PAR[p]), 0)
    return memo[key]


def exact_par(sc, p):
    """on an even grid the mirror does not commute exactly with the operator (boundary plane waves)"""
    return all(sc.n["xyz".index(ax)] % 2 == 1 for ax, _ in C01.PAR[p])


def sec(case, r):
    sc, cfg = BY[case["scene"]], case["cfg"]
    ks = ks_of(sc)
    secs = sectors(sc)
    s = head(sc, NB)
    for pi, p in enumerate(secs):
        s += "(set! num-bands %d)(init-params %s true)\n" % (nbands(sc, p), p)
        if pi == 0:
            s += "(emit 'eps (map get-epsilon-inverse-tensor-point pts))\n"
        for ki, k in enumerate(ks):
            s += "(randomize-fields)(solve-kpoint %s)(emit 'f %d %d freqs (compute-zparities) (compute-yparities) parity)\n" % (ctl.v3(k), pi, ki)
            s += """(do ((b 1 (+ b 1))) ((> b num-bands))
 (for-each (lambda (c g) (g b) (emit 'x %d %d b c (map get-bloch-field-point pts))) '(b d e h) (list get-bfield get-dfield get-efield get-hfield)))
""" % (pi, ki)
    res = ctl.run(cfg, s)
    if not res.ok():
        r.fail("died", res.tail())
        return
    m = fieldref.Model(sc, scene.tensor_grid(res.one("eps")[0]), fieldref.mu_grid(sc, cfg))
    X = {tuple(x[:4]): cv(x[4]) for x in res.by["x"]}
    memo = {}
    for pi, ki, fr, zp, yp, name in res.by["f"]:
        p, k = secs[pi], ks[ki]
        tag = "%s %s k=%s %s" % (sc.name, cfg, k, p)
        r.op()
        r.state(tag, np.round(fr, 6).tolist())
        if name != name_of(sc, p):
            r.fail("name", "%s: parity is called %r, expected %r" % (tag, name, name_of(sc, p)))
        for ax, vals in (("z", zp), ("y", yp)):
            want = dict(C01.PAR[p]).get(ax)
            if len(vals) != len(fr):
                r.fail("count", "%s: %d %s-parities for %d bands" % (tag, len(vals), ax, len(fr)))
                continue
            if max(np.abs(vals)) > 1 + 1e-8:
                r.fail("range", "%s: %s-parity outside [-1,1]: %s" % (tag, ax, vals))
            if want is not None:
                r.close("sector-parity", vals, [want] * len(fr), 1e-7, "%s: reported %s-parities" % (tag, ax))
                for b in range(len(fr)):
                    for c in "bdeh":
                        if sc.n["xyz".index(ax)] % 2 == 0 and c != "b":
                            continue
                        f = X[pi, ki, b + 1, c]
                        if sc.n["xyz".index(ax)] % 2 == 0:
                            continue
                        r.close("field-symmetry", mirror(m, f, ax, c in "bh"), want * f, 1e-5 * max(1, abs(f).max()), "%s band %d %s field under the %s mirror" % (tag, b + 1, c, ax))
                        if ax == "z" and sc.n[2] == 1:
                            zero = f[:, 2] if (c in "de") == (want == 1) else f[:, :2]
                            r.close("te-tm", zero, 0 * zero, 1e-9, "%s band %d: components of the %s field that vanish" % (tag, b + 1, c))
            else:
                a = "xyz".index(ax)
                # the mirror operation of a plane-wave set needs an orthogonal axis, an odd grid, and k in the plane
                orth = all(abs(sc.G[a] @ sc.G[i]) < 1e-9 for i in range(3) if i != a) and abs(sc.G[a] / np.linalg.norm(sc.G[a]) - np.eye(3)[a]).max() < 1e-9
                if orth and k[a] == 0 and (sc.n[a] % 2 == 1):
                    ex = []
                    for b in range(len(fr)):
                        f = X[pi, ki, b + 1, "b"]
                        ex.append(np.real(np.vdot(f, mirror(m, f, ax, True))) / np.vdot(f, f).real)
                    r.close("expectation", vals, ex, 1e-6, "%s: %s-parities vs expectation of the mirror" % (tag, ax))
                    r.info["expectations"] = r.info.get("expectations", 0) + len(fr)
                    if any(abs(abs(e) - 1) > 1e-3 for e in ex):
                        r.info["mixed"] = r.info.get("mixed", 0) + 1
        if exact_par(sc, p):
            w = ref_spectrum(sc, k, m, p, memo)[:len(fr)]
            r.close("spectrum", np.array(fr) ** 2, w, 1e-4 * max(1, w.max()), "%s: omega^2" % tag)
    F = {(x[0], x[1]): x[2] for x in res.by["f"]}
    for fam in ((ZE, ZO), (YE, YO), tuple(C4.values())):
        if not all(p in secs for p in fam):
            continue
        for ki, k in enumerate(ks):
            lists = [F[secs.index(p), ki] for p in fam]
            full = F[0, ki]
            # the union is complete only below the highest frequency every sector was solved for
            # (a sector that is solved for fewer bands bounds it)
            top = min([l[-1] for l in lists])
            u = sorted(sum(lists, []))
            tol = 2e-5 if all(exact_par(sc, p) for p in fam) else 3e-2
            got = [f for f in full if f < top - 2 * tol]
            r.op()
            r.info["union"] = r.info.get("union", 0) + len(got)
            r.close("union", got, u[:len(got)], tol * max(1, top), "%s %s k=%s: unrestricted bands vs union of %s" % (sc.name, cfg, k, fam))
    r.trace()


def seq(case, r):
    sc, cfg = BY[case["scene"]], case["cfg"]
    ks = ks_of(sc)
    secs = sectors(sc)
    # on an even grid the mirror does not commute with the operator and a sector's frequencies are not sharp
    secs = [p for p in secs if exact_par(sc, p)]
    acts = {}
    for nm, p in list(RUNS.items()) + list(ALIAS.items()) + list(SETP.items()):
        if p is None or p in secs:
            acts[nm] = p
    if sc.n[2] > 1 or case["depth"] == 3:
        acts = {a: p for a, p in acts.items() if a not in ALIAS and not a.startswith("rp")}
    if case["depth"] == 3:
        acts = {a: p for a, p in acts.items() if a in ("run", "run-zeven", "run-zodd", "run-yodd", "run-yeven-zodd", "set -1", "set EVEN-Z", "set ODD-Z", "set ODD-Y", "set NO-PARITY")}
    names = list(acts)
    word = [names[i] for i in debruijn(len(names), case["depth"])]
    nb = min(nbands(sc, p) for p in secs)
    s = head(sc, nb) + "(set! k-points %s)\n(define i 0)\n(define (probe) (emit 'f i freqs (compute-zparities) (compute-yparities) parity))\n" % ctl.klist(ks)
    s += "(init-params NO-PARITY true)(emit 'eps (map get-epsilon-inverse-tensor-point pts))\n"
    want, prev = [], N
    for i, w in enumerate(word):
        p = acts[w]
        if p is None:
            p = prev
        s += "(set! i %d)" % i
        if w.startswith("set"):
            # sectors are switched inside a session that was initialised for another one
            s += "(init-params -1 true)" if w == "set -1" else "(set-parity %s)" % p
            s += "".join("(randomize-fields)(solve-kpoint %s)(probe)" % ctl.v3(k) for k in ks)
            s += "\n"
        elif w.startswith("rp"):
            s += "(run-parity %s true probe randomize-fields)\n" % p
        else:
            s += "(%s probe randomize-fields)\n" % w
        want.append(p)
        prev = p
    res = ctl.run(cfg, s)
    if not res.ok():
        r.fail("died", res.tail())
        return
    m = fieldref.Model(sc, scene.tensor_grid(res.one("eps")[0]), fieldref.mu_grid(sc, cfg))
    memo, first, cnt = {}, {}, {}
    rows = res.by["f"]
    if len(rows) != len(word) * len(ks):
        r.fail("count", "%d k-points reported for %d runs of %d" % (len(rows), len(word), len(ks)))
        return
    for j, (i, fr, zp, yp, name) in enumerate(rows):
        k, p = ks[j % len(ks)], want[i]
        if i != j // len(ks):
            r.fail("order", "row %d belongs to run %s" % (j, i))
            return
        tag = "%s %s k=%s after %s: %s" % (sc.name, cfg, k, word[max(0, i - 2):i], word[i])
        r.op()
        r.state(sc.name, cfg, k, word[max(0, i - 1):i + 1])
        if name != name_of(sc, p):
            r.fail("name", "%s: parity is called %r, expected %r" % (tag, name, name_of(sc, p)))
        for ax, sg in C01.PAR[p]:
            r.close("sector-parity", zp if ax == "z" else yp, [sg] * len(fr), 1e-7, "%s: reported %s-parities" % (tag, ax))
        w = ref_spectrum(sc, k, m, p, memo)[:len(fr)] if exact_par(sc, p) else np.array(first.setdefault((k, p), fr)) ** 2
        r.close("seq-spectrum", np.array(fr) ** 2, w, 1e-4 * max(1, w.max()), "%s: omega^2" % tag)
    # the prefix of the printed lines names the sector
    for l in res.out.splitlines():
        if "freqs:, " in l and "k index" not in l:
            nm = l.split("freqs:")[0]
            cnt[nm] = cnt.get(nm, 0) + 1
    exp = {}
    for p in want:
        exp[name_of(sc, p)] = exp.get(name_of(sc, p), 0) + len(ks)
    if cnt != exp:
        r.fail("prefix", "%s %s: output lines %s, expected %s" % (sc.name, cfg, cnt, exp))
    r.trace()


def bad(case, r):
    sc, cfg, p, k = BY[case["scene"]], case["cfg"], case["par"], case["k"]
    r.op()
    r.state(case["id"])
    s = head(sc, 2) + "(init-params %s true)(emit 'init)(solve-kpoint %s)(emit 'f freqs parity)" % (p, ctl.v3(k))
    res = ctl.run(cfg, s)
    r.trace()
    if res.ok() or res.by.get("f"):
        r.fail("accepted", "%s %s: parity %s with k=%s was accepted: %s" % (sc.name, cfg, p, k, res.by.get("f")))
    elif "incompatible" not in res.err:
        r.fail("message", "%s %s: parity %s with k=%s: %s" % (sc.name, cfg, p, k, res.tail()))


def run_case(case, r):
    {"sec": sec, "seq": seq, "bad": bad}[case["kind"]](case, r)


if __name__ == "__main__":
    vf.Check("C06", "model_checking", cases, run_case, setup=setup, case_timeout=300,
             rule="one case = (structure, build): every sector solved at every k and compared with the dense sector spectrum, the mirror image of every field on the grid and the union over sectors; or one session walking every ordered pair (triple) of parity runs, aliases and set-parity calls; or one incompatible (sector, k) request",
             bounds="24 structures, 3 builds, up to 9 sectors, 2 k-points, 4 bands, all words of length 2 (thorough: 3) over up to 27 parity actions").main()
