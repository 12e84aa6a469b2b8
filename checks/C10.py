#!/usr/bin/env python3-vt
"""C10: parallel runs equal serial runs for every number of processes.

The battery of observations (lib/battery.py) is run serially and by the distributed executable with every number of
processes, below, equal to and beyond the extents of the grid, over all structures and all grid shapes up to the bound, in
the general and the inversion-symmetric build; every process' own results are compared, and the files.
Part "io": state saved by p processes and loaded by q, all pairs.   Part "grid-ops": material grids.
Part "group": the processes divided into groups.   Part "fault": a failing run ends on every process."""
import os, sys, itertools, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, mpbbuild
import numpy as np
import ctl, scene, battery, ref, h5, C09
from C09 import KK, PARS, rank, off

SER = {"mpi": "complex", "mpiinv": "inv"}


def setup(tier):
    for c in ("complex", "inv"):
        mpbbuild.build(c, what=("mpb",), drivers=("groups",) if c == "complex" else ())
    mpbbuild.build("mpi", what=("mpb",), drivers=("groups",))
    mpbbuild.build("mpiinv", what=("mpb",))


def cases(tier):
    th = tier == "thorough"
    for sc in scene.ALL:
        if sc.herm or rank(sc.n) < 2:
            continue       # the distributed program refuses one-dimensional grids (documented)
        for cfg in ("mpi", "mpiinv"):
            if cfg == "mpiinv" and not sc.inv:
                continue
            nps = (2, 3, 4, 7) if not th else (1, 2, 3, 4, 5, 6, 7, 8, 11)
            for i, p in enumerate(nps):
                yield {"id": "scene-%s-%s-%d" % (sc.name, cfg, p), "kind": "scene", "scene": sc.name, "cfg": cfg, "np": p, "nb": 3, "par": "no", "files": i % 2 == 0 or th}
    for sc, p in (("rods2d", "te"), ("rods2d", "tm"), ("rods2d", "ye"), ("slabz3d", "zo"), ("mu2d", "tm")):
        for cfg in ("mpi", "mpiinv"):
            for n in (2, 3, 6):
                yield {"id": "par-%s-%s-%s-%d" % (sc, p, cfg, n), "kind": "scene", "scene": sc, "cfg": cfg, "np": n, "nb": 3, "par": p, "files": False}
    for sc in ("off2d", "mu2d", "slabz3d"):
        yield {"id": "many-%s" % sc, "kind": "scene", "scene": sc, "cfg": "mpi", "np": 3, "nb": 22, "par": "no", "files": False, "bs": 0}
        yield {"id": "block-%s" % sc, "kind": "scene", "scene": sc, "cfg": "mpi", "np": 3, "nb": 5, "par": "no", "files": False, "bs": 2}
    top = 4 if not th else 5
    for n in itertools.product(range(1, top + 1), repeat=3):
        N = int(np.prod(n))
        if N < 3 or (not th and (N > 36)):
            continue
        for cfg in ("mpi", "mpiinv"):
            if not th and cfg == "mpiinv" and sum(n) % 2:
                continue
            for p in ((2, 3, 5)[(sum(n) + len(cfg)) % 3],) if not th else (1, 2, 3, 4, 5, 6):
                yield {"id": "grid-%d%d%d-%s-%d" % (*n, cfg, p), "kind": "grid", "n": n, "cfg": cfg, "np": p, "mu": sum(n) % 4 == 0}
    for cfg in ("mpi", "mpiinv"):
        for p, q in itertools.product((0, 1, 2, 3, 5), repeat=2):
            if p or q:
                yield {"id": "io-%s-%d-%d" % (cfg, p, q), "kind": "io", "cfg": cfg, "p": p, "q": q}
    for cfg in ("mpi", "mpiinv"):
        for p in (1, 2, 3, 5):
            yield {"id": "mg-%s-%d" % (cfg, p), "kind": "mg", "cfg": cfg, "np": p}
            yield {"id": "run-%s-%d" % (cfg, p), "kind": "run", "cfg": cfg, "np": p}
            yield {"id": "fault-%s-%d" % (cfg, p), "kind": "fault", "cfg": cfg, "np": p}
    for p in (0, 1, 2, 3, 4, 6):
        yield {"id": "group-%d" % p, "kind": "group", "np": p}


def judge_procs(r, tag, d, p):
    """every process printed the same results (collective queries return the same on all)"""
    rows = [open("%s/rows.%d" % (d, i), errors="replace").read().splitlines() for i in range(p)]
    for i in range(1, p):
        if len(rows[i]) != len(rows[0]):
            r.fail("processes", "%s: process %d has %d results, process 0 has %d" % (tag, i, len(rows[i]), len(rows[0])))
            return False
        for a, b in zip(rows[0], rows[i]):
            if a == b:
                continue
            x, y = flat(ctl.sexp(a)), flat(ctl.sexp(b))
            if len(x) != len(y) or any(u != v if isinstance(u, str) or isinstance(v, str) else not abs(u - v) <= 1e-9 * max(1, abs(u)) for u, v in zip(x, y)):
                r.fail("processes", "%s: process %d answers %s, process 0 %s" % (tag, i, b[:300], a[:300]))
                return False
    return True


def flat(x):
    out = []
    for y in x:
        if isinstance(y, list):
            out += flat(y)
        else:
            out.append(y)
    return out


def pair(r, case, sc, ks, nb, par, files, extra="", tag=None, skip=()):
    tag = tag or case["id"]
    cfg, p = case["cfg"], case["np"]
    with ctl.Scratch() as da, ctl.Scratch() as db:
        s = battery.script(sc, ks, nb, off(sc), files=files, par=par, extra=extra)
        q = ctl.run(SER[cfg], s, cwd=da, timeout=250)
        m = ctl.run(cfg, battery.script(sc, ks, nb, off(sc), files=files, par=par, extra=extra, mpi=True), cwd=db, np_=p, timeout=250)
        give = [z.rc == 1 and ("failure to converge" in z.err or "emergency randomization" in z.out or "too small" in z.err) for z in (q, m)]
        if q.ok() and m.rc == 1 and min(sc.n[:2]) == 1 and "grid point in x and y" in m.err + m.out or m.rc == 1 and "rank < 2 MPI" in m.err:
            r.info["refused"] = r.info.get("refused", 0) + 1       # documented
            return r.trace()
        if not q.ok() or not m.ok():
            if any(give):
                r.info["gaveup"] = r.info.get("gaveup", 0) + 1
                return
            return r.fail("died", "%s serial: %s\ndistributed: %s" % (tag, q.tail(), m.tail()))
        if not judge_procs(r, tag, db, p):
            return
        A = battery.Bat(q.rows, q.out)
        B = battery.Bat(battery.rows_of(db + "/rows.0"), m.out)
        battery.compare(r, tag, A, B, len(ks), nb, files=(da, db) if files else None, skip=("N",) if par != "NO-PARITY" else (), skip_n=(2, 3), swapped=True)
    r.trace()


def scene_case(case, r):
    sc = scene.BY[case["scene"]]
    ks = KK[rank(sc.n)][:3]
    if case["par"][:2] in ("ye", "yo"):
        ks = [(k[0], 0, k[2]) for k in ks]
    if "z" in case["par"] or case["par"] in ("te", "tm"):
        ks = [(k[0], k[1], 0) for k in ks]
    nb = case["nb"]
    if sc.name == "slab1d" or sc.name == "vac2d":
        nb = min(nb, 3)
    if nb > 10:
        ks = ks[:1]
    pair(r, case, sc, ks, nb, PARS[case["par"]], case["files"], extra="(set! eigensolver-block-size %d)" % case["bs"] if "bs" in case else "")


def grid(case, r):
    n = tuple(case["n"])
    d = rank(n)
    size = list(C09.SIZE)
    for a in (2, 1):
        if n[a] > 1:
            break
        size[a] = None
    res = [1.0 if s is None else (a - 0.3) / s for a, s in zip(n, C09.SIZE)]
    full = all(s is not None for s in size)
    if case["cfg"] == "mpi":
        E = {"epsilon-diag": (3.0, 5.0, 2.0), "epsilon-offdiag": (0.4, 0.2, -0.3) if d == 3 else (0.4, 0, 0)}
        if case["mu"]:
            E["mu-diag"] = (1.5, 2.0, 1.2)
        objs = [ctl.block((0.17, 0.1, -0.08), (0.41, 0.45, 0.37), E), ctl.sphere((-0.2, 0.1, 0.1), 0.3, 6.0)]
        sc = scene.Scene("g", C09.RG if full else None, size, res, objs, mu=case["mu"], ysym=False, zsym=False)
    else:
        sc = scene.Scene("g", C09.RG if full else None, size, res, [], mu=case["mu"], ysym=False, zsym=False, extra=C09.smooth(size, d, case["mu"]))
    nb = min(3, 2 * int(np.prod(n)) - 2)
    pair(r, case, sc, KK[d][:2], nb, "NO-PARITY", int(np.prod(n)) <= 12)


def io(case, r):
    """a state saved by one number of processes is the state another number loads"""
    cfg, p, q = case["cfg"], case["p"], case["q"]
    for name in ("rods2de", "mu2d", "cube3d"):
        sc = scene.BY[name]
        k = KK[rank(sc.n)][0]
        emit = battery.MPI_EMIT
        obs = "(define P %s)(define (obs t) (for-each (lambda (b) (get-bfield b)(emit t b (map get-bloch-field-point P))(compute-field-energy)(emit t b (map get-energy-point P))) (iota 4 1)))\n" % sc.pts()
        head = sc.script() + "(set! num-bands 4)(set! tolerance 1e-6)" + obs
        with ctl.Scratch() as d:
            w = ctl.run(cfg if p else SER[cfg], (emit if p else "") + head + "(init-params NO-PARITY true)(solve-kpoint %s)(obs 'x)(save-eigenvectors \"v\")(output-eigenvectors (get-eigenvectors 2 2) \"v2\")\n(get-dfield 2)(output-field)" % ctl.v3(k),
                        cwd=d, np_=p or None, timeout=200, name="w.ctl")
            if not w.ok():
                return r.fail("died", "%s saving: %s" % (case["id"], w.tail()))
            a = battery.rows_of(d + "/rows.0") if p else w.rows
            # the state is there before it is loaded: other k point, other fields
            l = ctl.run(cfg if q else SER[cfg], (emit if q else "") + head + "(init-params NO-PARITY true)(solve-kpoint %s)(load-eigenvectors \"v\")(obs 'x)(let ((e (input-eigenvectors \"v2\" 2))) (set-eigenvectors e 1)(set-eigenvectors e 3))(obs 'y)" % ctl.v3(k), cwd=d, np_=q or None, timeout=200, name="l.ctl")
            if not l.ok():
                return r.fail("died", "%s loading: %s" % (case["id"], l.tail()))
            if q and not judge_procs(r, case["id"], d, q):
                return
            b = battery.rows_of(d + "/rows.0") if q else l.rows
        bx = [x for x in b if x[0] == "x"]
        by = [x for x in b if x[0] == "y"]
        r.op(len(a))
        r.state(name + case["id"])
        if len(a) != len(bx) or len(by) != len(a):
            return r.fail("rows", "%s %s: %d, %d results instead of %d" % (case["id"], name, len(bx), len(by), len(a)))
        for x, y in zip(a, bx):
            r.close("saved", np.array(flat(y)[2:], complex), np.array(flat(x)[2:], complex), 1e-9, "%s %s band %d" % (case["id"], name, x[1]))
        for i, y in enumerate(by):
            x = a[(y[1] - 1) % 2 * 2 + 2 + i % 2]
            r.close("copied", np.array(flat(y)[2:], complex), np.array(flat(x)[2:], complex), 1e-9, "%s %s band %d" % (case["id"], name, y[1]))
    r.trace()


MG = """
(set! geometry-lattice (make lattice (size 1 1 no-size)))(set! resolution 5)(set! mesh-size 1)
(define mg (make material-grid (epsilon-min 2)(epsilon-max 9)(size 4 3 1)(material-grid-kind U-SUM)
  (matgrid-init (lambda (x y z) (+ 0.5 (* 0.3 (sin (* 6.2831853 x))) (* 0.1 (cos (* 6.2831853 y))))))))
(set! geometry (list (make block (center 0 0 0) (size 1 1 1) (material mg))))
(set! num-bands 3)(set! tolerance 1e-9)(set! deterministic? true)(set! filename-prefix false)
(define P (grid-pts 5 5 1 1 1 1))
"""


def mgcase(case, r):
    cfg, p = case["cfg"], case["np"]
    # symmetric under inversion for mpiinv
    s = MG.replace("(sin (* 6.2831853 x))", "(cos (* 6.2831853 x))") + """(run (lambda () (emit 'f freqs)))
(get-epsilon)(emit 'e (map get-epsilon-point P))
(save-material-grid mg "mg")
(print-material-grids-gradient 2)
(emit 'a (material-grids-approx-gradient (vector3 0.2 0.1 0) 2 3 0.01))
(load-material-grid! mg "mg.h5" (vector3 1 1 1))(init-params NO-PARITY true)(get-epsilon)(emit 'e2 (map get-epsilon-point P))
(randomize-material-grid! mg 0.3)(init-params NO-PARITY true)(get-epsilon)(emit 'rnd (map get-epsilon-point P))
""".replace("(emit 'a (material-grids-approx-gradient (vector3 0.2 0.1 0) 2 3 0.01))\n", "")
    s = s.replace("(run (lambda", "(set! k-points (list (vector3 0.2 0.1 0)))(run (lambda")
    with ctl.Scratch() as da, ctl.Scratch() as db:
        q = ctl.run(SER[cfg], s, cwd=da)
        m = ctl.run(cfg, battery.MPI_EMIT + s, cwd=db, np_=p, timeout=200)
        if not q.ok() or not m.ok():
            return r.fail("died", "serial %s\ndistributed %s" % (q.tail(), m.tail()))
        if not judge_procs(r, case["id"], db, p):
            return
        A, B = battery.Bat(q.rows), battery.Bat(battery.rows_of(db + "/rows.0"))
        r.op(4)
        r.state(case["id"])
        for k, tol in (("f", 1e-6), ("e", 1e-10), ("e2", 1e-10)):
            r.close("mg-" + k, np.array(flat(B.rows[(k,)]), float), np.array(flat(A.rows[(k,)]), float), tol, "%s %s" % (case["id"], k))
        r.close("mg-reload", np.array(flat(B.rows[("e2",)]), float), np.array(flat(B.rows[("e",)]), float), 1e-10, case["id"])
        x, y = h5.readall(da + "/mg.h5"), h5.readall(db + "/mg.h5")
        if set(x) != set(y):
            return r.fail("mg-file", "%s: %s instead of %s" % (case["id"], sorted(y), sorted(x)))
        for n in x:
            if not isinstance(x[n], str):
                r.close("mg-file", y[n], x[n], 1e-12, "%s %s" % (case["id"], n))
        ga, gb = [[l for l in z.out.splitlines() if re.match(r"[-+0-9.e]+(,\s*[-+0-9.e]+)+\s*$", l) or l.startswith("grad")] for z in (q, m)]
        if len(ga) != len(gb):
            r.fail("mg-gradient", "%s: %d gradient lines instead of %d" % (case["id"], len(gb), len(ga)))
        else:
            va = [[float(t) for t in re.findall(r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?", l)] for l in ga]
            vb = [[float(t) for t in re.findall(r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?", l)] for l in gb]
            for a, b in zip(va, vb):
                if len(a) == len(b):
                    r.close("mg-gradient", np.array(b), np.array(a), 1e-4, case["id"])
                else:
                    r.fail("mg-gradient", "%s: %s instead of %s" % (case["id"], b, a))
        r.info["gradlines"] = r.info.get("gradlines", 0) + len(ga)
    r.trace()


def run(case, r):
    """the run driver and its printed results"""
    cfg, p = case["cfg"], case["np"]
    sc = scene.BY["rods2de"]
    s = sc.script() + "(set! num-bands 4)(set! tolerance 1e-9)(set! deterministic? true)(set! k-points (list (vector3 0.1 0.2 0) (vector3 0.3 0.15 0) (vector3 -0.2 0.4 0)))\n"
    s += "(run-te display-group-velocities display-zparities (output-dpwr-in-objects (lambda (b) (print \"got:, \" b \"\\n\")) 0.2 %s) fix-hfield-phase output-hfield-z)(emit 'r all-freqs gap-list band-range-data (get-kpoint-index))\n" % sc.objs[0]
    s += "(run-tm display-yparities output-dpwr fix-dfield-phase output-dfield-z)(emit 'r all-freqs gap-list band-range-data (get-kpoint-index))\n"
    s += "(emit 'fk (find-k TM 0.25 1 1 (vector3 1 0.3 0) 1e-5 0.2 0.01 0.6))\n"
    with ctl.Scratch() as da, ctl.Scratch() as db:
        q = ctl.run(SER[cfg], s, cwd=da)
        m = ctl.run(cfg, battery.MPI_EMIT + s, cwd=db, np_=p, timeout=200)
        if not q.ok() or not m.ok():
            return r.fail("died", "serial %s\ndistributed %s" % (q.tail(), m.tail()))
        if not judge_procs(r, case["id"], db, p):
            return
        A, B = battery.Bat(q.rows), battery.Bat(battery.rows_of(db + "/rows.0"))
        r.op(3)
        r.state(case["id"])
        num = lambda B, k: np.array([z for z in flat(B.rows[(k,)]) if not isinstance(z, str)], float)
        r.close("run", num(B, "r"), num(A, "r"), 2e-3, case["id"])
        r.close("find-k", num(B, "fk"), num(A, "fk"), 1e-4, case["id"])
        pick = lambda z: [l for l in z.out.splitlines() if re.match(r"\w*(freqs|velocity|parity|kvals|dpwr|got|energy-components)\w*:, ", l)]
        la, lb = pick(q), pick(m)
        if len(la) != len(lb):
            r.fail("printed", "%s: %d lines of results instead of %d" % (case["id"], len(lb), len(la)))
        # the two languages' output streams are not synchronised with each other: compare line kinds separately
        for kind in sorted(set(l.split(":")[0] for l in la)):
            xa, xb = [[l for l in z if l.split(":")[0] == kind] for z in (la, lb)]
            for a, b in zip(xa, xb):
                # numbers (also inside vectors)
                na, nb_ = [[float(t) for t in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?", l.split(":", 1)[1])] for l in (a, b)]
                if "energy-components" in a:
                    na, nb_ = na[:2], nb_[:2]
                if len(na) != len(nb_) or (na and np.abs(np.array(na) - np.array(nb_)).max() > 5e-3):
                    r.fail("printed", "%s: %r instead of %r" % (case["id"], b, a))
                    return
        fa, fb = [sorted(f for f in os.listdir(d) if f.endswith(".h5")) for d in (da, db)]
        if fa != fb:
            return r.fail("file-names", "%s: %s" % (case["id"], sorted(set(fa) ^ set(fb))))
        for f in fa:
            x, y = battery.swap(h5.readall(da + "/" + f)), h5.readall(db + "/" + f)
            for n in x:
                if n not in y or isinstance(x[n], str):
                    if n not in y or x[n] != y[n] and "freq" not in x[n]:
                        r.fail("file-text", "%s: %s %s: %r instead of %r" % (case["id"], f, n, y.get(n), x[n]))
                    continue
                if x[n].shape != y[n].shape or (np.abs(x[n] - y[n]).max() > 5e-3 and np.abs(x[n] + y[n]).max() > 5e-3):
                    r.fail("file", "%s: %s %s differs" % (case["id"], f, n))
    r.trace()


FAULT = ["(output-field-to-file -1 \"no/such/dir/x-\")", "(load-eigenvectors \"missing\")", "(save-eigenvectors \"no/such/dir/y\")", "(get-eigenvectors 3 9)",
         "(set! num-bands 100000)(init-params NO-PARITY true)", "(vector-ref (vector 1 2) 7)"]


def fault(case, r):
    cfg, p = case["cfg"], case["np"]
    sc = scene.BY["rods2de"]
    for i, f in enumerate(FAULT):
        s = sc.script() + "(set! num-bands 3)(init-params NO-PARITY true)(solve-kpoint (vector3 0.3 0.1 0))(get-dfield 1)\n" + f + "\n(emit 'alive)\n"
        if "100000" in f:
            continue
        with ctl.Scratch() as d:
            m = ctl.run(cfg, s, cwd=d, np_=p, timeout=150)
        r.op()
        r.state(f, p)
        if m.rc == "timeout":
            r.fail("hang", "%s with %d processes: no end after %s" % (cfg, p, f))
        elif m.rc == 0:
            r.fail("status", "%s with %d processes: exits successfully after %s" % (cfg, p, f))
        elif "alive" in m.by:
            r.fail("status", "%s with %d processes: carries on after %s" % (cfg, p, f))
        elif any(x in m.err for x in ("Segmentation fault", "signal 11", "SIGSEGV")):
            r.fail("crash", "%s with %d processes: %s: %s" % (cfg, p, f, m.err[-500:]))
    r.trace()


def group(case, r):
    import subprocess
    p = case["np"]
    if p == 0:
        x = mpbbuild.Config("complex").exe("groups")
        for seq in itertools.product((-1, 0, 1, 2, 3), repeat=2):
            q = subprocess.run([x] + [str(g) for g in seq], capture_output=True, text=True, timeout=60, env=mpbbuild.env())
            good = max(seq) <= 1     # anything not positive ends the division in this driver
            n = len([l for l in q.stdout.splitlines() if " crank 0 csize 1 " in l])
            r.op()
            r.state(str(seq), 0)
            if (q.returncode == 0) != good or (good and n != 2):
                r.fail("serial-groups", "serial program divided into %s groups: exit %s, %d answers %s" % (seq, q.returncode, n, q.stderr))
        return r.trace()
    c = mpbbuild.Config("mpi")
    e = mpbbuild.env(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_btl="self,vader,tcp")
    base = {}
    for seq in [(0,)] + [(g,) for g in range(1, p + 1)] + [t for t in itertools.product(range(0, p + 1), repeat=2)][:16]:
        try:
            q = subprocess.run(["mpirun", "--oversubscribe", "--bind-to", "none", "-n", str(p), c.exe("groups")] + [str(x) for x in seq], env=e, capture_output=True, text=True, timeout=150)
        except subprocess.TimeoutExpired:
            return r.fail("hang", "%d processes, groups %s: no end" % (p, seq))
        if q.returncode != 0:
            return r.fail("died", "%d processes, groups %s: %s %s" % (p, seq, q.returncode, q.stderr[-600:]))
        r.op()
        r.state(str(seq), p)
        rows = {}
        for l in q.stdout.splitlines():
            m = re.match(r"step (\d+) rank (\d+) group (-?\d+) of (\d+) crank (\d+) csize (\d+) sums (.*)$", l)
            if m:
                t = [int(x) for x in m.groups()[:6]]
                rows[(t[0], t[1])] = (t[2:], [float(x) for x in m.group(7).split()])
        for st, g in enumerate(seq):
            for rk in range(p):
                if (st, rk) not in rows:
                    return r.fail("rows", "%d processes, groups %s: no answer from process %d" % (p, seq, rk))
                (grp, ng, crank, csize), v = rows[(st, rk)]
                wg = rk * max(g, 1) // p
                mem = [x for x in range(p) if x * max(g, 1) // p == wg]
                if grp != wg or csize != len(mem) or crank != mem.index(rk):
                    r.fail("groups", "%d processes in %s groups: process %d is number %d of %d in group %d, expected %d of %d in %d" % (p, seq, rk, crank, csize, grp, mem.index(rk), len(mem), wg))
                # v: bands of a problem that depends on the group only, twice; masters; the global size, rank, sum of ranks
                want = base.setdefault(grp % 3, v[:-3])
                if v[:12] != v[12:24] and np.abs(np.array(v[:12]) - np.array(v[12:24])).max() > 1e-7 or v[24] != 2:
                    r.fail("values", "%d processes in %s groups: process %d gets %s" % (p, seq, rk, v))
                if np.abs(np.array(v[:-3]) - np.array(want)).max() > 1e-7:
                    r.fail("values", "%d processes in %s groups: process %d gets %s instead of %s" % (p, seq, rk, v[:-3], want))
                if v[-3:] != [p, rk, p * (p - 1) / 2]:
                    r.fail("global", "%d processes in %s groups: process %d sees the whole as %s" % (p, seq, rk, v[-3:]))
    r.trace()


def run_case(case, r):
    {"scene": scene_case, "grid": grid, "io": io, "mg": mgcase, "run": run, "fault": fault, "group": group}[case["kind"]](case, r)


if __name__ == "__main__":
    vf.Check("C10", "model-checked", cases, run_case, setup=setup, workers=6,
             rule="a case is one structure or grid shape x build x number of processes; states are distinct (case, k, band) compared completely, file exchanges, faults and group divisions",
             bounds="17 structures x 2 distributed builds x 2, 3, 4, 7 processes (thorough 1..8, 11); all grid shapes up to 4x4x4 with at most 36 points (thorough 5x5x5), 2, 3 or 5 processes each (thorough 1..6); all pairs of process counts 0 (serial), 1, 2, 3, 5 for files; all group divisions of up to 6 processes and all pairs of successive ones up to the bound",
             assumptions=["the message-passing library schedules the messages itself: interleavings of messages are not controlled, the program uses only collective operations and matched pairs", "the serial answers are judged by the other properties"]).main()
