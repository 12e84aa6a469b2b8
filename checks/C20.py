#!/usr/bin/env python3-vt
"""C20: output files record the field in force, and I/O faults are reported.

Part A ("run"): whole runs with every output function as band function: the directory must contain exactly the expected
files, each with exactly the expected data sets, attributes and values (known from point queries in the same run).
Part B ("grid"): every grid shape up to 4x4x4 with arbitrary stored values of every kind, exported whole and by component.
Part C ("seq"): every ordered pair of output operations in one session; after each the directory is compared.
Part D ("fault"): every file operation of every output routine fails once, or from then on; the run must then end with a
non-zero status unless the file it left is complete all the same."""
import os, sys, itertools, glob, re, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, mpbbuild
import numpy as np
import ref, ctl, scene, fieldref, h5, C08, C04
from fieldref import cv

SHIM = os.path.join(mpbbuild.WORK if hasattr(mpbbuild, "WORK") else "/tmp", "vf-iofault-%d.so" % os.getuid())


def setup(tier):
    for c in ("complex", "inv", "herm"):
        mpbbuild.build(c, what=("mpb", "mpbdata"))
    tmp = SHIM + ".%d" % os.getpid()
    subprocess.check_call(["gcc", "-shared", "-fPIC", "-O1", "-o", tmp, os.path.join(vf.VERIF, "harness/iofault.c"), "-ldl"])
    os.rename(tmp, SHIM)


KA = {1: [(0.3, 0, 0), (0, 0, 0), (-0.4, 0.1, 1.2)], 2: [(0.3, 0.15, 0), (0, 0, 0), (-0.4, 0.7, 0.25)], 3: [(0.3, 0.15, 0.22), (0, 0, 0)]}
# band function -> (type character in the file name, prefix, component)
OUT = {}
for q in "hbde":
    for c in ("", "-x", "-y", "-z"):
        OUT["output-%sfield%s" % (q, c)] = (q, "", c[1:])
OUT.update({"output-bpwr": ("bpwr", "", ""), "output-hpwr": ("bpwr", "", ""), "output-dpwr": ("dpwr", "", ""), "output-tot-pwr": ("rpwr", "tot.", ""),
            "output-poynting": ("v", "flux.", ""), "output-poynting-x": ("v", "flux.", "x"), "output-poynting-y": ("v", "flux.", "y"), "output-poynting-z": ("v", "flux.", "z"),
            "output-charge-density": ("C", "", "")})
LOAD = {"h": "(get-hfield b)", "b": "(get-bfield b)", "d": "(get-dfield b)", "e": "(get-efield b)", "bpwr": "(get-bfield b)(compute-field-energy)", "dpwr": "(get-dfield b)(compute-field-energy)",
        "rpwr": "(get-tot-pwr b)", "v": "(get-poynting b)", "C": "(get-charge-density b)"}
GET = {"h": "get-bloch-field-point", "b": "get-bloch-field-point", "d": "get-bloch-field-point", "e": "get-bloch-field-point", "v": "get-bloch-field-point",
       "bpwr": "get-energy-point", "dpwr": "get-energy-point", "rpwr": "get-energy-point", "C": "get-bloch-cscalar-point"}
RUNS = [("run", None), ("run-te", "te"), ("run-tm", "tm"), ("run-yodd", "yodd"), ("run-zodd", "Z"), ("run-yeven-zeven", "Y")]


def cases(tier):
    for sc in scene.ALL:
        for cfg in sc.builds():
            for run, _ in RUNS:
                z, y = "z" in run or "-t" in run, "y" in run
                if (z and not sc.zsym) or (y and not sc.ysym):
                    continue
                if ("-te" in run or "-tm" in run) and sc.n[2] > 1:
                    continue
                # sectors too small for the eigensolver at some k, and vacuum's degenerate spectrum, end in loud solver errors
                if sc.name == "vac2d" or (sc.name == "slab1d" and run == "run-yeven-zeven"):
                    continue
                if tier != "thorough" and run != "run" and sc.name not in ("rods2de", "slab1d", "mu2d", "cube3d", "slabz3d", "wg2d"):
                    continue
                yield {"id": "run-%s-%s-%s" % (sc.name, cfg, run), "kind": "run", "scene": sc.name, "cfg": cfg, "run": run, "var": "plain"}
    for cfg in ("complex", "inv"):
        for var in ("noprefix", "prefix", "longprefix", "h5prefix", "subdir", "split-0", "split-1", "split-2", "index99", "at-k", "pwr-obj", "emptyk", "sub-ctl", "scm"):
            yield {"id": "name-%s-%s" % (cfg, var), "kind": "run", "scene": "rods2de", "cfg": cfg, "run": "run-tm" if var in ("split-1", "index99") else "run", "var": var}
    top = 4 if tier != "thorough" else 6
    for n in itertools.product(range(1, top + 1), repeat=3):
        for cfg in ("complex", "inv", "herm"):
            if (cfg == "inv" and n == (1, 1, 1)) or (cfg == "herm" and tier != "thorough" and n[0] > 2):
                continue
            yield {"id": "grid-%s-%d%d%d" % (cfg, *n), "kind": "grid", "n": n, "cfg": cfg}
    for s, c in ((("off2d", "complex"), ("rods2de", "inv"), ("mu2d", "inv"), ("gyro3d", "herm")) if tier != "thorough" else [(s.name, c) for s in scene.ALL for c in s.builds()]):
        of = 4
        for p in range(of):
            yield {"id": "seq-%s-%s-%d" % (s, c, p), "kind": "seq", "scene": s, "cfg": c, "part": p, "of": of}
    for op in FAULTS:
        for mode in ("once", "sticky"):
            for big in ((False, True) if op not in ("mgrid",) else (False,)):
                yield {"id": "fault-%s-%s%s" % (op, mode, "-big" if big else ""), "kind": "fault", "op": op, "mode": mode, "big": big}
    for op in FAULTS:
        yield {"id": "path-%s" % op, "kind": "path", "op": op}


def bphase(n, k):
    idx = np.array(ref.indices(n), float)
    return np.exp(2j * np.pi * (idx / np.array(n)) @ np.array(k))


def dims_of(n):
    return n if n[2] > 1 else n[:2] if n[1] > 1 else n[:1]


def check_file(r, tag, path, n, R, ty, comp, vals, k, desc, tol):
    """vals: Bloch values on the grid (N,3) / (N,) as queried"""
    with h5.File(path) as f:
        got = {x: f.read(x) for x in f.names()}
    D = dims_of(n)
    want = {}
    if ty in "hbdecv":
        F = vals * (1 if ty == "v" else bphase(n, k)[:, None])
        for i, c in enumerate("xyz"):
            if comp in ("", c):
                want[c + ".r"], want[c + ".i"] = F[:, i].real.reshape(D), F[:, i].imag.reshape(D)
    elif ty == "C":
        F = vals * bphase(n, k)
        want["c.r"], want["c.i"] = F.real.reshape(D), F.imag.reshape(D)
    else:
        want["data"] = np.asarray(vals, float).reshape(D)
    extra = {"lattice vectors": R, "description": desc}
    if ty in "hbdecvC":
        extra["Bloch wavevector"] = np.zeros(3) if ty == "v" else np.array(k, float)
    if set(got) != set(want) | set(extra):
        r.fail("datasets", "%s %s contains %s, expected %s" % (tag, os.path.basename(path), sorted(got), sorted(set(want) | set(extra))))
        return
    for c in want:
        r.close("values", got[c], want[c], tol, "%s %s data set %s" % (tag, os.path.basename(path), c))
    for c in extra:
        if c == "description":
            if got[c] != desc:
                r.fail("description", "%s %s says %r, expected %r" % (tag, os.path.basename(path), got[c], desc))
        else:
            r.close("attr", got[c], np.array(extra[c], float), 1e-12, "%s %s %s" % (tag, os.path.basename(path), c))


def check_eps(r, tag, path, n, R, tinv, herm):
    with h5.File(path) as f:
        got = {x: f.read(x) for x in f.names()}
    D = dims_of(n)
    want = {"data": fieldref.mean_medium(tinv).reshape(D)}
    for nm, T in (("epsilon", np.linalg.inv(tinv)), ("epsilon_inverse", tinv)):
        for i, j in ((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)):
            want["%s.%s%s" % (nm, "xyz"[i], "xyz"[j])] = T[:, i, j].real.reshape(D)
            if herm and i != j:
                want["%s.%s%s.i" % (nm, "xyz"[i], "xyz"[j])] = T[:, i, j].imag.reshape(D)
    extra = {"lattice vectors", "description"}
    if set(got) != set(want) | extra:
        r.fail("datasets", "%s epsilon file contains %s" % (tag, sorted(got)))
        return
    for c in want:
        r.close("eps-values", got[c], want[c], 1e-9 * max(1, abs(want[c]).max()), "%s epsilon file, data set %s" % (tag, c))
    r.close("attr", got["lattice vectors"], R, 1e-12, tag + " epsilon file")
    if got["description"] != "dielectric function, epsilon":
        r.fail("description", "%s epsilon: %r" % (tag, got["description"]))


def cscale(k):
    return "%g" % k


WORD = {"h": "h field", "b": "b field", "d": "d field", "e": "e field", "v": "v field", "C": "C field", "bpwr": "B field energy density", "dpwr": "D field energy density", "rpwr": "R field energy density"}


def describe(ty, ki, b, fr):
    return "%s, kpoint %d, band %d, freq=%g" % (WORD[ty], ki, b, fr)


def run(case, r):
    sc, cfg, rn, var = scene.BY[case["scene"]], case["cfg"], case["run"], case["var"]
    n = sc.n
    ks = KA[C04.rank(n)]
    nb = 2 if "run" == rn or n[1] > 1 else 1
    par = {"run": "", "run-te": "te", "run-tm": "tm", "run-yodd": "yodd", "run-zodd": "tm" if n[2] == 1 else "zodd", "run-yeven-zeven": ("te" if n[2] == 1 else "zeven") + "yeven"}[rn]
    ymir = "y" in rn
    if ymir:
        ks = [(k[0], 0.0 if C04.rank(n) > 1 else k[1] * 0, k[2]) for k in ks]
    if par[:2] in ("te", "tm", "ze", "zo"):
        ks = [(k[0], k[1], 0.0) for k in ks]
    ks = [k for i, k in enumerate(ks) if k not in ks[:i]]
    fns = list(OUT) if cfg != "inv" else [o for o in OUT if OUT[o][0] != "C"]
    params, files, name, sub = [], (), "job.ctl", None
    prefix, indices, set_ = "job-", list(range(1, len(ks) + 1)), ""
    first = True
    if var == "noprefix":
        set_, prefix = "(set! filename-prefix false)", ""
    elif var == "prefix":
        set_, prefix = '(set! filename-prefix "a b_")', "a b_"
    elif var == "longprefix":
        set_, prefix = '(set! filename-prefix "%s")' % ("p" * 150), "p" * 150
    elif var == "h5prefix":
        set_, prefix = '(set! filename-prefix "x.h5-")', "x.h5-"
    elif var == "subdir":
        set_, prefix = '(set! filename-prefix "s/y-")', "s/y-"
    elif var.startswith("split"):
        ks = ks + [(0.11, 0.02, 0), (0.45, -0.2, 0)]
        i = int(var[-1])
        params = ["k-split-num=3", "k-split-index=%d" % i]
        bs = (len(ks) + 2) // 3
        indices = list(range(1, len(ks) + 1))[i * bs:(i + 1) * bs]
        first = i == 0
    elif var == "index99":
        ks = ks[:1]
        indices = [100]
    elif var == "emptyk":
        ks, indices = [], []
    elif var == "sub-ctl":
        name = "s/job.ctl"
    elif var == "scm":
        name = "job.scm"
        prefix = "job-"
    s = sc.script() + "(set! num-bands %d)(set! deterministic? true)(set! k-points %s)(define pts %s)%s\n" % (nb, ctl.klist(ks), sc.pts(), set_)
    s += "(define (see) (emit 'k (get-kpoint-index) freqs (vector->list current-k)))\n(define seen 0)\n"
    s += "(define (eps) (if (= seen 0) (begin (set! seen 1)(emit 'eps (map get-epsilon-inverse-tensor-point pts)))))\n"
    tys = sorted(set(OUT[o][0] for o in fns))
    for ty in tys:
        s += "(define (q-%s b) %s (emit 'v \"%s\" (get-kpoint-index) b (map %s pts)))\n" % (ty, LOAD[ty], ty, GET[ty])
    obj = "(make block (center 0 0) (size 0.4 0.3 1) (material nothing))"
    if var == "at-k":
        fl = "(output-at-kpoint %s output-dfield output-hfield-x) (output-at-kpoint %s output-bpwr)" % (ctl.v3(ks[1]), ctl.v3(ks[2]))
        chosen = [("output-dfield", 2), ("output-hfield-x", 2), ("output-bpwr", 3)]
    elif var == "pwr-obj":
        fl = "(output-dpwr-in-objects output-dfield 0.02 (list-ref obj 0)) (output-dpwr-in-objects (combine-band-functions output-bfield-y output-dpwr) 2.0 (list-ref obj 0))"
        s += "(define obj (list (make block (center 0 0) (size infinity infinity infinity) (material nothing))))\n"
        s = s.replace("(material nothing)", "(material (make dielectric (epsilon 2)))")
        chosen = [("output-dfield", None)]
    else:
        fl = " ".join(fns)
        chosen = [(o, None) for o in fns]
    if var == "index99":
        s += "(init-params NO-PARITY true)(set-parity %s)(set-kpoint-index 99)(solve-kpoint %s)(define current-k %s)(do ((b 1 (+ b 1))) ((> b %d)) %s)(see)(eps)(output-epsilon)\n" % (
            {"": "NO-PARITY", "tm": "ODD-Z"}[par], ctl.v3(ks[0]), ctl.v3(ks[0]), nb, "".join("(%s b)" % f for f in fns) + "".join("(q-%s b)" % t for t in tys))
    elif var == "emptyk":
        s += "(%s %s)(eps)\n" % (rn, fl)
    else:
        s += "(%s see eps %s %s)\n" % (rn, fl, " ".join("q-" + t for t in tys))
    s += "(emit 'done)"
    tag = "%s %s %s %s" % (sc.name, cfg, rn, var)
    with ctl.Scratch() as d:
        os.mkdir(d + "/s")
        decoys = {"epsilon.h5": b"not to be touched", "job-d.k01.b9.h5": b"keep", "job.h5": b"keep me", "d.k01.b01": b"keep"}
        for f, c in decoys.items():
            open(os.path.join(d, f), "wb").write(c)
        res = ctl.run(cfg, s, cwd=d, params=params, name=name)
        if not res.ok() or not res.by.get("done"):
            r.fail("died", "%s %s" % (tag, res.tail()))
            return
        kinfo = {x[0]: x[1:] for x in res.by.get("k", [])}
        if sorted(kinfo) != indices:
            r.fail("numbers", "%s: k-points numbered %s, expected %s" % (tag, sorted(kinfo), indices))
            return
        want = {}
        vals = {(t, ki, b): v for t, ki, b, v in res.by.get("v", [])}
        suf = "." + par if par else ""
        for o, only in chosen:
            ty, pre, comp = OUT[o]
            for ki in indices:
                if only and ki != only:
                    continue
                if var == "pwr-obj" and not any(ks[ki - 1]):
                    continue            # the constant bands have no D energy
                for b in range(1, nb + 1):
                    want["%s%s%s.k%02d.b%02d%s%s.h5" % (prefix, pre, ty, ki, b, "." + comp if comp else "", suf)] = (ty, comp, ki, b)
        if first:
            want[prefix + "epsilon.h5"] = "eps"
            if sc.mu:
                want[prefix + "mu.h5"] = "mu"
        have = set(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs) - set(decoys if prefix else [x for x in decoys if x not in want]) - {name}
        if have != set(want):
            r.fail("files", "%s: files %s missing, %s unexpected" % (tag, sorted(set(want) - have)[:5], sorted(have - set(want))[:5]))
            return
        for f, c in decoys.items():
            if f not in want and open(os.path.join(d, f), "rb").read() != c:
                r.fail("overwritten", "%s: unrelated file %s was changed" % (tag, f))
        tinv = scene.tensor_grid(res.one("eps")[0]) if res.by.get("eps") else None
        kk = dict(zip(range(1, 99), ks)) if var != "index99" else {100: ks[0]}
        for f, w in want.items():
            p = os.path.join(d, f)
            r.op()
            r.state(tag, f)
            if w == "eps":
                check_eps(r, tag, p, n, sc.R, tinv, cfg == "herm")
            elif w == "mu":
                with h5.File(p) as g:
                    got = {x: g.read(x) for x in g.names()}
                if set(got) != {"data", "lattice vectors", "description"} or got["description"] != "permeability mu":
                    r.fail("datasets", "%s mu file: %s" % (tag, got))
                mm = fieldref.mean_medium(fieldref.mu_grid(sc, cfg)).reshape(dims_of(n))
                r.close("mu-values", got["data"], mm, 1e-8, tag + " mu file")
            else:
                ty, comp, ki, b = w
                v = vals[ty, ki, b]
                v = cv(v) if ty in "hbdev" else np.array(v, complex if ty == "C" else float)
                # fields with generic phases: the states are fixed within the run
                check_file(r, tag, p, n, sc.R, ty, comp, v, kk[ki], describe(ty, ki, b, kinfo[ki][0][b - 1]), 1e-9 * max(1.0, abs(v).max()))
            if len(r.fails) > 6:
                return
    r.trace()


def grid(case, r):
    n, cfg = tuple(case["n"]), case["cfg"]
    N = int(np.prod(n))
    SZ = C08.SIZE
    ss = [s if not (a == 1 and all(x == 1 for x in n[i:])) else 1.0 for i, (a, s) in enumerate(zip(n, SZ))]
    size = [None if (a == 1 and all(x == 1 for x in n[i:])) and i > 0 else s for i, (a, s) in enumerate(zip(n, SZ))]
    ss[0] = SZ[0]
    res = [1.0 if s is None else (a - 0.3) / s for a, s in zip(n, size)]
    skew = all(s is not None for s in size)
    sc = scene.Scene("g", C08.R if skew else None, size, res,
                     [ctl.block((0, 0, 0), (0.6 * SZ[0], 1e20, 1e20), {"epsilon-diag": (3.0, 5.0, 2.0), "epsilon-offdiag": (0.4, 0.2, -0.3)} if cfg != "herm" else {"epsilon-diag": (3.0, 5.0, 2.0), "epsilon-offdiag": (0.4 + 0.3j, 0.2 - 0.1j, -0.3 + 0.2j)}),
                      ctl.block((0, 0, 0), (1e20, 0.45 * SZ[1], 0.4 * SZ[2]), 7.0)])
    if sc.n != n:
        raise RuntimeError("grid %s %s" % (sc.n, n))
    k = C08.KPT
    s = sc.script() + "(set! num-bands 1)(init-params NO-PARITY true)(define n 0)" + """
(define (h i c) (sin (+ (* 1.7 i) (* 2.3 c) 0.4)))
(define (g i c) (make-rectangular (h i c) (h i (+ c 10))))
(solve-kpoint %s)(get-epsilon)
(define fr (rscalar-field-make cur-field))(define fc (cscalar-field-make cur-field))(define fv (cvector-field-make cur-field))(define fn (cvector-field-make cur-field))
(set! n 0)(field-map! fr (lambda (x) (set! n (+ n 1)) (h n 0)) fr)
(set! n 0)(field-map! fc (lambda (x) (set! n (+ n 1)) (g n 1)) fc)
(set! n 0)(field-map! fv (lambda (x) (set! n (+ n 1)) (vector3 (g n 2) (g n 3) (g n 4))) fv)
(field-set! fn fv)(cvector-field-nonbloch! fn)
(emit 'n n)(emit 'T (map get-epsilon-inverse-tensor-point %s))
(for-each (lambda (c) (field-load fv)(output-field-to-file c "o-")(field-load fn)(output-field-to-file c "o-")) '(-1 0 1 2))
(field-load fc)(output-field-to-file -1 "o-")(field-load fr)(output-field-to-file -1 "o-")
(output-epsilon)(emit 'f freqs)(emit 'done)
""" % (ctl.v3(k), sc.pts())
    tag = "grid %s %s" % (n, cfg)
    with ctl.Scratch() as d:
        out = ctl.run(cfg, s, cwd=d)
        if not out.ok() or not out.by.get("done"):
            r.fail("died", "%s %s" % (tag, out.tail()))
            return
        ns = out.one("n")[0]
        i = np.arange(1, ns + 1)
        h = lambda c: np.sin(1.7 * i + 2.3 * c + 0.4)
        g = lambda c: h(c) + 1j * h(c + 10)
        V = C08.expand(n, cfg, np.stack([g(2), g(3), g(4)], 1), True)
        Cc = C08.expand(n, cfg, g(1), True)
        Rr = C08.expand(n, cfg, h(0), False)
        want = {"o-%s.k01.b00%s.h5" % (t, c): (t, c[1:]) for t in "cv" for c in ("", ".x", ".y", ".z")}
        want.update({"o-C.k01.b00.h5": ("C", ""), "o-rpwr.k01.b00.h5": ("r", ""), "job-epsilon.h5": ("n", "")})
        have = set(os.path.basename(x) for x in glob.glob(d + "/*.h5"))
        if have != set(want):
            # the band number of a field that was not made from a band is whatever was loaded last
            r.fail("files", "%s: %s instead of %s" % (tag, sorted(have), sorted(want)))
            return
        for f, (t, c) in want.items():
            p = os.path.join(d, f)
            r.op()
            r.state(n, cfg, f)
            if t == "n":
                check_eps(r, tag, p, n, sc.R, scene.tensor_grid(out.one("T")[0]), cfg == "herm")
                continue
            with h5.File(p) as g_:
                desc = g_.read("description")
            check_file(r, tag, p, n, sc.R, t, c, {"c": V, "v": V, "C": Cc, "r": Rr}[t], k, desc, 1e-11)
    r.trace()


def ops_seq(sc, cfg):
    o = {}
    for nm, (ty, pre, comp) in OUT.items():
        if comp in ("x", "y") or (cfg == "inv" and ty == "C") or nm == "output-hpwr":
            continue
        for b in (1, 2) if nm in ("output-dfield", "output-bfield", "output-dpwr") else (2,):
            o["%s %d" % (nm, b)] = ("(%s %d)" % (nm, b), "%s%s.k%%02d.b%02d%s" % (pre, ty, b, "." + comp if comp else ""), ty, comp, b)
    o["eps"] = ("(output-epsilon)", "epsilon", "eps", "", 0)
    o["again"] = ("(output-field)", None, None, "", 0)          # refused: the field is consumed by the previous output
    o["save"] = ('(save-eigenvectors "ev")', "!ev", "ev", "", 0)
    o["gv"] = ("(compute-group-velocities)", None, None, "", 0)
    o["getd"] = ("(begin (get-dfield 1) (output-field-y))", "d.k%02d.b01.y", "d", "y", 1)
    o["k1"] = ("(solve-kpoint %s)" % ctl.v3(KA[C04.rank(sc.n)][0]), None, "k", "", 0)
    o["k2"] = ("(solve-kpoint %s)" % ctl.v3(KA[C04.rank(sc.n)][0 if False else -1]), None, "k", "", 1)
    return o


def seq(case, r):
    sc, cfg = scene.BY[case["scene"]], case["cfg"]
    ops = ops_seq(sc, cfg)
    names = list(ops)
    word = C04.debruijn(len(names), 2)
    L = len(word)
    word = [names[i] for i in word[case["part"] * L // case["of"]:min(L, (case["part"] + 1) * L // case["of"] + 1)]]
    n = sc.n
    s = sc.script() + "(set! num-bands 2)(set! deterministic? true)(set! eigensolver-flags EIGS_DEFAULT_FLAGS)(init-params NO-PARITY true)(define pts %s)" % sc.pts()
    s += "(define kk %s)(solve-kpoint kk)(emit 'eps (map get-epsilon-inverse-tensor-point pts))(define step 0)\n" % ctl.v3(KA[C04.rank(n)][0])
    # every step works in a directory of its own
    k, ki = KA[C04.rank(n)][0], 1
    plan = []
    for i, nm in enumerate(word):
        scr, f, ty, comp, b = ops[nm]
        if ty == "k":
            ki += 1
            k = KA[C04.rank(n)][0 if nm == "k1" else -1]
        s += '(mkdir "s%d")(chdir "s%d")%s(chdir "..")' % (i, i, scr)
        if ty in LOAD:
            s += "(let ((b %d)) %s (emit 'v %d freqs (map %s pts)))" % (b, LOAD[ty], i, GET[ty])
            if i + 1 < len(word) and word[i + 1] == "again":
                # leave the session as the output left it
                s += "(output-field-to-file -1 \"zz\")"
        s += "\n"
        plan.append((nm, f, ty, comp, b, k, ki))
    s += "(emit 'done)"
    tag = "%s %s" % (sc.name, cfg)
    with ctl.Scratch() as d:
        res = ctl.run(cfg, s, cwd=d)
        if not res.ok() or not res.by.get("done"):
            r.fail("died", "%s %s" % (tag, res.tail()))
            return
        tinv = scene.tensor_grid(res.one("eps")[0])
        vals = {x[0]: x[1:] for x in res.by.get("v", [])}
        for i, (nm, f, ty, comp, b, k, ki) in enumerate(plan):
            have = sorted(os.listdir("%s/s%d" % (d, i)))
            hist = "%s after %s:" % (tag, [w for w in word[max(0, i - 2):i + 1]])
            want = [] if f is None else [f[1:] + ".h5"] if f[0] == "!" else ["job-" + (f % ki if "%" in f else f) + ".h5"]
            r.op()
            r.state(tag, word[max(0, i - 1):i + 1])
            if have != want:
                r.fail("files", "%s wrote %s, expected %s" % (hist, have, want))
                return
            p = "%s/s%d/%s" % (d, i, want[0]) if want else None
            if ty == "eps":
                check_eps(r, hist, p, n, sc.R, tinv, cfg == "herm")
            elif ty in LOAD:
                fr, v = vals[i]
                v = cv(v) if ty in "hbdev" else np.array(v, complex if ty == "C" else float)
                check_file(r, hist, p, n, sc.R, ty, comp, v, k, describe(ty, ki, b, fr[b - 1]), 1e-9 * max(1.0, abs(v).max()))
            if len(r.fails) > 5:
                return
    r.trace()


FAULTS = {"eps": "(output-epsilon)", "mu": "(output-mu)", "field": "(output-dfield 1)", "comp": "(output-bfield-y 1)", "scalar": "(output-dpwr 1)", "charge": "(output-charge-density 1)",
          "flux": "(output-poynting 1)", "evects": '(save-eigenvectors "ev")', "outevects": '(output-eigenvectors (get-eigenvectors 1 1) "ev")', "mgrid": '(save-material-grid mg "mg")', "data": None}


def fault_script(op, big):
    s = """(set! geometry-lattice (make lattice (size 1 1 no-size)))
(define mg (make material-grid (epsilon-min 2) (epsilon-max 5) (size 3 4 1) (matgrid-init (lambda (x y z) (+ 0.2 (* 0.5 x))))))
(set! geometry (list (make cylinder (center 0 0) (radius 0.2) (height infinity) (material (make medium (epsilon 9) (mu 2)))) (make block (center 0 0) (size 0.3 0.3 infinity) (material mg))))
(set! resolution %d)(set! num-bands 2)(set! deterministic? true)(set! tolerance 1e-3)(init-params NO-PARITY true)(solve-kpoint (vector3 0.3 0.1 0))
""" % (100 if big else 5)
    return s + (FAULTS[op] or '(output-dfield 1)') + "(emit 'end)"


def contents(d):
    out = {}
    for p in sorted(glob.glob(d + "/*.h5")):
        out[os.path.basename(p)] = h5.readall(p)
    return out


def same(a, b):
    if set(a) != set(b):
        return False
    for f in a:
        if set(a[f]) != set(b[f]):
            return False
        for x in a[f]:
            if isinstance(a[f][x], str):
                if a[f][x] != b[f][x]:
                    return False
            elif a[f][x].shape != b[f][x].shape or not np.allclose(np.abs(a[f][x]), np.abs(b[f][x]), atol=1e-6):
                return False
    return True


def do(op, big, d, env):
    if op != "data":
        return ctl.run("complex", fault_script(op, big), cwd=d, env=env)
    # the file to work on is made without faults; mpb-data then adds to it
    res = ctl.run("complex", fault_script(op, big), cwd=d)
    if not res.ok():
        return res
    src = glob.glob(d + "/*.h5")[0]
    e = dict(os.environ)
    e.update(mpbbuild.env())
    e.update(env)
    p = subprocess.run([mpbbuild.Config("complex").mpbdata if hasattr(mpbbuild.Config("complex"), "mpbdata") else mpbbuild.Config("complex").dir + "/mpb-data", "-r", "-m", "2", src], env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
    res = ctl.Result(p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"), d)
    return res


def fault(case, r):
    op, mode, big = case["op"], case["mode"], case["big"]
    with ctl.Scratch() as d:
        res = do(op, big, d, {"LD_PRELOAD": SHIM, "VF_FAIL_LOG": d + "/log"})
        if not res.ok():
            r.fail("died", "%s without faults: %s" % (op, res.tail()))
            return
        n = len(open(d + "/log").read().split("\n")) - 1
        ref_ = contents(d)
    if n < 3:
        r.fail("few", "%s: only %d file operations seen" % (op, n))
        return
    for k in range(1, n + 1):
        r.op()
        r.state(op, mode, big, k)
        with ctl.Scratch() as d:
            res = do(op, big, d, {"LD_PRELOAD": SHIM, "VF_FAIL_LOG": d + "/log", "VF_FAIL_AT": str(k), "VF_FAIL_MODE": mode})
            hit = " FAILED" in open(d + "/log").read()
            if not hit:
                r.fail("shim", "operation %d of %d was not reached" % (k, n))
                continue
            if res.rc == "timeout":
                r.fail("hang", "%s: failing file operation %d (%s): no end" % (op, k, mode))
            elif res.rc == 0:
                try:
                    ok = same(ref_, contents(d))
                except Exception:
                    ok = False
                if not ok:
                    r.fail("unreported", "%s: file operation %d of %d failed (%s), the run exited with status 0 and the file is incomplete" % (op, k, n, mode))
    r.info["faults"] = n
    r.trace()


def path(case, r):
    """the file cannot be created at all: missing directory, or a directory in its place"""
    op = case["op"]
    if op == "data":
        return
    for kind in ("missing", "isdir"):
        with ctl.Scratch() as d:
            s = fault_script(op, False)
            if kind == "missing":
                s = s.replace("(set! num-bands", '(set! filename-prefix "no/such/")(set! num-bands').replace('"ev")', '"no/such/ev")').replace('mg "mg"', 'mg "no/such/mg"')
            else:
                for f in ("job-epsilon", "job-mu", "job-d.k01.b01", "job-b.k01.b01.y", "job-dpwr.k01.b01", "job-C.k01.b01", "job-flux.v.k01.b01", "ev", "mg"):
                    os.mkdir("%s/%s.h5" % (d, f))
            res = ctl.run("complex", s, cwd=d)
            r.op()
            r.state(op, kind)
            if res.rc == 0 or res.by.get("end"):
                r.fail("unreported", "%s with %s: exit status %s" % (op, kind, res.rc))
    r.trace()


def run_case(case, r):
    {"run": run, "grid": grid, "seq": seq, "fault": fault, "path": path}[case["kind"]](case, r)


if __name__ == "__main__":
    vf.Check("C20", "model_checking", cases, run_case, setup=setup, case_timeout=600,
             rule="run: one case = one (structure, build, run function, naming variant), every file of the run compared; grid: one grid shape with arbitrary values; seq: one part of a de Bruijn word over the output operations, so that every ordered pair occurs; fault: one output routine and failure mode, every file operation failing in turn",
             bounds="19 structures in all builds; 6 run functions; 14 naming variants; all grid shapes to 4x4x4 (thorough 6x6x6); all ordered pairs of ~20 operations; every single file-operation fault, and every point from which all operations fail, of 11 output routines at two file sizes").main()
