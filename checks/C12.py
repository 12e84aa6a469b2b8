#!/usr/bin/env python3-vt
"""C12: eigenvector objects copy, overlap, combine and persist faithfully.

Part A ("seq"): every ordered pair (thorough: triple on some) of operations - copying out every band range, putting it
back at every position, scaling, overlapping, saving, loading, and the queries that must not interfere - on live
sessions; after every step the complete raw contents of the session's eigenvectors and of both objects are compared with
a register machine on arrays.   Part B ("persist"): a second process loads the file.   Part C ("refuse"): every invalid
range, object or file.   Part D ("sq"): the small matrices built from overlaps."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, mpbbuild
import numpy as np
import ref, ctl, scene, fieldref, h5, C08
from C04 import debruijn, rank
from fieldref import cv

KK = {1: [(0.3, 0, 0), (0.21, 0.1, 0.4)], 2: [(0.3, 0.15, 0), (0.1, -0.2, 0.25)], 3: [(0.3, 0.15, 0.22), (-0.1, 0.3, 0.4)]}


def setup(tier):
    for c in ("complex", "inv", "herm"):
        mpbbuild.build(c, what=("mpb",))


# (scene, build, bands, block size)
CELLS = [("slab1d", "complex", 4, -11), ("slab1d", "inv", 4, 2), ("rods2de", "inv", 4, 0), ("off2d", "complex", 5, 2), ("mu2d", "inv", 4, -11), ("mu2da", "complex", 5, 2), ("mu2d", "complex", 5, 3),
         ("gyro2d", "herm", 4, 0), ("mu3d", "inv", 4, 1), ("slabz3d", "inv", 3, 0)]
MANY = [("mu2d", "complex", 24, 0), ("mu2d", "inv", 23, 0), ("off2d", "complex", 22, 0), ("mu2da", "complex", 23, -11), ("mu2d", "complex", 22, 21)]


def cases(tier):
    for c in CELLS if tier != "thorough" else CELLS + [(s.name, b, 4, bs) for s in scene.ALL for b in s.builds() for bs in (0, -11, 3)]:
        of = 8
        for p in range(of):
            yield {"id": "seq-%s-%s-%d-%d-%d" % (*c, p), "kind": "seq", "cell": c, "depth": 2, "part": p, "of": of, "mode": "full"}
    for c in MANY:
        for p in range(2):
            yield {"id": "many-%s-%s-%d-%d-%d" % (*c, p), "kind": "seq", "cell": c, "depth": 2, "part": p, "of": 2, "mode": "many"}
    if tier == "thorough":
        for c in (CELLS[1], CELLS[3], CELLS[4], CELLS[5]):
            for p in range(300):
                yield {"id": "seq3-%s-%s-%d-%d-%d" % (*c, p), "kind": "seq", "cell": c, "depth": 3, "part": p, "of": 300, "mode": "full"}
    for sc in scene.ALL:
        for b in sc.builds():
            yield {"id": "persist-%s-%s" % (sc.name, b), "kind": "persist", "scene": sc.name, "cfg": b}
    for cfg in ("complex", "inv"):
        for mu in (False, True):
            for i in range(len(REFUSE)):
                yield {"id": "refuse-%s-%d-%d" % (cfg, mu, i), "kind": "refuse", "cfg": cfg, "mu": mu, "i": i}
    for cfg in ("complex", "inv"):
        yield {"id": "sq-%s" % cfg, "kind": "sq", "cfg": cfg}


def ops_for(sc, cfg, nb, mode):
    o = {}
    rng = [(b, m) for b in range(1, nb + 1) for m in range(1, nb + 2 - b)] if mode == "full" else [(1, nb), (1, 20), (2, 21), (nb, 1), (nb - 3, 3)]
    for b, m in rng:
        o["get1 %d %d" % (b, m)] = ("get", "e1", b, m)
    for b, m in ((1, nb), (2, 2), (nb, 1)):
        o["get2 %d %d" % (b, m)] = ("get", "e2", b, m)
    for e in ("e1", "e2"):
        for b in (range(1, nb + 1) if mode == "full" else (1, 2, nb - 2, nb)):
            o["set %s %d" % (e, b)] = ("set", e, b)
            o["dot %s %d" % (e, b)] = ("dot", e, b)
    for b, z in ((1, -1.0), (nb, 0.5), (2, 0.6 - 0.8j)):
        if cfg == "inv":
            z = z.real
        o["scale %d %s" % (b, z)] = ("scale", b, z)
    o["save"] = ("save",)
    o["load"] = ("load",)
    for e, f in (("e1", "e2"), ("e2", "e1"), ("e1", "e1")):
        o["io %s %s" % (e, f)] = ("io", e, f)
    o["input F"] = ("input",)
    o["fix"] = ("fix",)
    o["dfield"] = ("noop", "(get-dfield 1)")
    o["hfield"] = ("noop", "(begin (get-hfield 2)(compute-field-energy)(fix-field-phase))") if False else ("noop", "(begin (get-hfield 2)(compute-field-energy))")
    o["gv"] = ("noop", "(compute-group-velocities)")
    o["par"] = ("noop", "(begin (compute-zparities)(compute-yparities)(get-dominant-planewave 2))")
    if mode == "full":
        o["k1"] = ("k", 0)
        o["k2"] = ("k", 1)
        o["init"] = ("init",)
    o["gc"] = ("gc",)
    return o


def seq(case, r):
    name, cfg, nb, bs = case["cell"]
    sc = scene.BY[name]
    n, N = sc.n, int(np.prod(sc.n))
    ops = ops_for(sc, cfg, nb, case["mode"])
    names = list(ops)
    w = debruijn(len(names), case["depth"])
    L = len(w)
    w = w + w[:case["depth"]]
    a, b = case["part"] * L // case["of"], (case["part"] + 1) * L // case["of"] + case["depth"] - 1
    word = [names[i] for i in w[a:b]]
    ks = KK[rank(n)]
    s = sc.script() + "(set! num-bands %d)(set! deterministic? true)(set! eigensolver-block-size %d)(set! tolerance 1e-4)(init-params NO-PARITY true)(solve-kpoint %s)\n" % (nb, bs, ctl.v3(ks[0]))
    s += "(define (rows m) (let ((n (sqmatrix-size m))) (map (lambda (i) (map (lambda (j) (sqmatrix-ref m i j)) (iota n))) (iota n))))(define U 0)\n"
    s += "(define pts %s)(define e1 (get-eigenvectors 1 %d))(define e2 (get-eigenvectors 2 2))(save-eigenvectors \"F\")(save-eigenvectors \"s0\")\n" % (sc.pts(), nb)
    if sc.mu:
        # a state made of one basis vector at a time is not needed: every vector is a combination of the states below
        s += "(for-each (lambda (b) (get-bfield b)(emit 'b b (map get-bloch-field-point pts))) (iota %d 1))" % nb
    p1, p2, pF = nb, 2, nb
    steps = []
    k, base_k = 0, 0
    kF = 0
    tag = {"H": 0, "e1": 0, "e2": 0, "F": 0}       # which solve the contents stem from (k epochs)
    ep = 0
    for nm in word:
        o = ops[nm]
        scr = ""
        p = {"e1": p1, "e2": p2}
        skip = False
        if o[0] == "get":
            scr = "(set! %s (get-eigenvectors %d %d))" % o[1:]
            if o[1] == "e1":
                p1 = o[3]
            else:
                p2 = o[3]
        elif o[0] == "set":
            skip = o[2] - 1 + p[o[1]] > nb
            scr = "(set-eigenvectors %s %d)" % o[1:]
        elif o[0] == "dot":
            skip = o[2] - 1 + p[o[1]] > nb
            scr = "(set! U (dot-eigenvectors %s %d))(emit 'U %d (rows U))" % (o[1], o[2], len(steps))
        elif o[0] == "scale":
            scr = "(scale-eigenvector %d %s)" % (o[1], ctl.num(o[2]))
        elif o[0] == "save":
            scr = '(save-eigenvectors "F")'
        elif o[0] == "load":
            scr = '(load-eigenvectors "F")'
        elif o[0] == "io":
            q = p[o[1]]
            scr = '(output-eigenvectors %s "G")(set! %s (input-eigenvectors "G" %d))' % (o[1], o[2], q)
            if o[2] == "e1":
                p1 = q
            else:
                p2 = q
        elif o[0] == "input":
            scr = '(set! e1 (input-eigenvectors "F" %d))' % nb
            p1 = nb
        elif o[0] == "fix":
            skip = p2 > nb or cfg == "inv" and False
            scr = "(emit 'fix %d (fix-phase-consistency e2 1))" % len(steps)
            skip = skip or (k != 0 or any(ops[x][0] in ("k", "init") for x, *_ in steps) and False)
        elif o[0] == "noop":
            scr = o[1]
        elif o[0] == "k":
            scr = "(randomize-fields)(solve-kpoint %s)" % ctl.v3(ks[o[1]])     # the bands may be copies of one another
            k = o[1]
        elif o[0] == "init":
            scr = "(init-params NO-PARITY true)(solve-kpoint %s)" % ctl.v3(ks[k])
        elif o[0] == "gc":
            scr = "(gc)(gc)"
        if skip:
            scr = ""
            o = ("skip",)
        i = len(steps)
        s += "%s(save-eigenvectors \"H%d\")(output-eigenvectors e1 \"A%d\")(output-eigenvectors e2 \"B%d\")\n" % (scr, i, i, i)
        if o[0] in ("k", "init"):
            if sc.mu:
                s += "(for-each (lambda (b) (get-bfield b)(emit 'bk %d b (map get-bloch-field-point pts))) (iota %d 1))" % (i, nb)
        steps.append((nm, o, p1, p2))
    s += "(emit 'done)"
    t = "%s %s %d bands, block %d" % (name, cfg, nb, bs)
    with ctl.Scratch() as d:
        res = ctl.run(cfg, s, cwd=d, timeout=500)
        if not res.ok() or not res.by.get("done"):
            r.fail("died", "%s %s" % (t, res.tail()))
            return

        def rd(f):
            with h5.File(os.path.join(d, f + ".h5") if os.path.exists(os.path.join(d, f + ".h5")) else os.path.join(d, f)) as x:
                v = x.read("rawdata")
            v = v.reshape(v.shape[0] * v.shape[1], v.shape[2], v.shape[3])
            return v[..., 0] + (1j * v[..., 1] if v.shape[2] == 2 else 0)
        H = rd("s0")
        st = {"H": H.copy(), "e1": H.copy(), "e2": H[:, 1:3].copy(), "F": H.copy()}
        m = fieldref.Model(sc, np.tile(np.eye(3), (N, 1, 1)), fieldref.mu_grid(sc, cfg) if sc.mu else None)
        # the inner product: with mu, <x, mu^-1 y> from the fields of the states the vectors are made of
        epoch = [H.copy(), None if not sc.mu else {x[0]: cv(x[1]) for x in res.by["b"]}]

        def gram(ep_):
            B = np.stack([ep_[1][b + 1].reshape(-1) for b in range(nb)], 1)
            HB = np.stack([m.h(ep_[1][b + 1]).reshape(-1) for b in range(nb)], 1)
            return B.conj().T @ HB * m.Vol / N
        Us = {x[0]: x[1] for x in res.by.get("U", [])}
        Fx = {x[0]: x[1] for x in res.by.get("fix", [])}
        bk = {}
        for x in res.by.get("bk", []):
            bk.setdefault(x[0], {})[x[1]] = cv(x[2])
        G = gram(epoch) if sc.mu else None
        hist = []
        for i, (nm, o, q1, q2) in enumerate(steps):
            hist = (hist + [nm])[-3:]
            where = "%s after %s" % (t, " ; ".join(hist))
            fresh = False
            if o[0] == "get":
                st[o[1]] = st["H"][:, o[2] - 1:o[2] - 1 + o[3]].copy()
            elif o[0] == "set":
                e = st[o[1]]
                st["H"][:, o[2] - 1:o[2] - 1 + e.shape[1]] = e
            elif o[0] in ("dot", "fix"):
                e, b = (st[o[1]], o[2]) if o[0] == "dot" else (st["e2"], 1)
                h_ = st["H"][:, b - 1:b - 1 + e.shape[1]]
                want = None
                if not sc.mu:
                    want = e.conj().T @ h_
                else:
                    ca, ra = np.linalg.lstsq(epoch[0], e, rcond=None)[:2]
                    cb, rb = np.linalg.lstsq(epoch[0], h_, rcond=None)[:2]
                    if max(abs(epoch[0] @ ca - e).max(), abs(epoch[0] @ cb - h_).max()) < 1e-10:
                        want = ca.conj().T @ G @ cb
                if o[0] == "dot":
                    U = np.array(Us[i], complex)
                    if U.shape != (e.shape[1],) * 2:
                        r.fail("dot", "%s: the matrix is %s for %d vectors" % (where, U.shape, e.shape[1]))
                    elif want is not None:
                        r.close("dot", U, want, 1e-9, where)
                        r.info["dots"] = r.info.get("dots", 0) + 1
                else:
                    ph = np.array(Fx[i], complex)
                    r.close("fix-unit", abs(ph), np.ones(len(ph)), 1e-12, where)
                    if want is not None:
                        dg = np.diag(want)
                        ok = abs(dg) > 1e-6
                        r.close("fix", ph[ok], (dg / np.where(ok, abs(dg), 1))[ok], 1e-6, where)
                    st["H"][:, :e.shape[1]] = h_ * np.conj(ph)
            elif o[0] == "scale":
                st["H"][:, o[1] - 1] *= o[2]
            elif o[0] == "save":
                st["F"] = st["H"].copy()
            elif o[0] == "load":
                st["H"] = st["F"].copy()
            elif o[0] == "io":
                st[o[2]] = st[o[1]].copy()
            elif o[0] == "input":
                st["e1"] = st["F"].copy()
            elif o[0] in ("k", "init"):
                fresh = True
            got = {"H": rd("H%d" % i), "e1": rd("A%d" % i), "e2": rd("B%d" % i)}
            for x in ("H", "e1", "e2"):
                if fresh and x == "H":
                    st["H"] = got["H"].copy()
                    epoch = [got["H"].copy(), bk.get(i)]
                    G = gram(epoch) if sc.mu else None
                    # solved states are orthonormal in the energy inner product
                    r.close("ortho", got["H"].conj().T @ got["H"] if not sc.mu else G, np.eye(nb), 1e-8, where + ": overlaps of the solved states")
                    continue
                if got[x].shape != st[x].shape:
                    r.fail("shape", "%s: %s has shape %s, expected %s" % (where, x, got[x].shape, st[x].shape))
                    return
                tol = 1e-13 * max(1, abs(st[x]).max()) if o[0] in ("scale", "fix") else 0
                if not abs(got[x] - st[x]).max() <= tol:
                    c = sorted(set((np.where(~(abs(got[x] - st[x]) <= tol))[1] + 1).tolist()))
                    r.fail("contents", "%s: %s changed where it should not, or is not as the operation defines (bands %s, by %g)" % (where, x, c, abs(got[x] - st[x]).max()))
                    return
                st[x] = got[x]
            r.op()
            r.state(t, hist[-case["depth"]:])
            if sc.mu and i == 0 or i == 0:
                r.close("ortho", H.conj().T @ H if not sc.mu else gram([H, {x[0]: cv(x[1]) for x in res.by["b"]}]), np.eye(nb), 1e-8, t + ": overlaps of the solved states")
    r.trace()


def persist(case, r):
    sc, cfg = scene.BY[case["scene"]], case["cfg"]
    if sc.name == "vac2d":
        return
    ks = KK[rank(sc.n)]
    nb = 3
    head = sc.script() + "(set! num-bands %d)(set! tolerance 1e-10)" % nb
    ans = "(map (lambda (b) (get-bfield b) (let ((f (map get-bloch-field-point pts))) (get-efield b) (list f (map get-bloch-field-point pts)))) (iota %d 1))" % nb
    t = "%s %s" % (sc.name, cfg)
    with ctl.Scratch() as d:
        a = ctl.run(cfg, head + "(init-params NO-PARITY true)(define pts %s)(solve-kpoint %s)(save-eigenvectors \"F\")(emit 'f freqs)(emit 'B %s)(define e (get-eigenvectors 2 2))(output-eigenvectors e \"E\")(emit 'done)" % (sc.pts(), ctl.v3(ks[0]), ans), cwd=d)
        if not a.by.get("done"):
            r.fail("died", "%s %s" % (t, a.tail()))
            return
        # a later process: its first solve at this k starts from the file and must stay there
        b = ctl.run(cfg, head + "(define pts %s)(set! k-points (list %s))(define mid #f)(define n 0)(run-parity NO-PARITY \"F\" (lambda (b) (set! n (+ n 1))))(emit 'f freqs iterations)"
                    "(emit 'B %s)(load-eigenvectors \"F\")(emit 'B2 (map (lambda (b) (get-bfield b) (map get-bloch-field-point pts)) (iota %d 1)))(save-eigenvectors \"G\")"
                    "(define e (input-eigenvectors \"E\" 2))(output-eigenvectors e \"E2\")(emit 'd (sqmatrix-diag (dot-eigenvectors e 2)))(emit 'done)" % (sc.pts(), ctl.v3(ks[0]), ans, nb), cwd=d)
        if not b.by.get("done"):
            r.fail("died", "%s reading back: %s" % (t, b.tail()))
            return
        rd = lambda f: h5.readall(d + "/" + f if os.path.exists(d + "/" + f) else d + "/" + f + ".h5")["rawdata"]
        for x, y in (("F", "G"), ("E", "E2")):
            u, v = rd(x), rd(y)
            if u.shape != v.shape or not np.array_equal(u, v):
                r.fail("file", "%s: what was saved is not what is loaded (%s)" % (t, x))
        r.close("freqs", np.array(b.one("f")[0], float), np.array(a.one("f")[0], float), 1e-6, t + " frequencies of a run resumed from a file")
        fa = [cv(z[0]) for z in a.one("B")[0]]
        fb = [cv(z) for z in b.one("B2")[0]]
        for i in range(nb):
            r.close("fields", fb[i], fa[i], 1e-12, "%s field of band %d after loading" % (t, i + 1))
        r.close("overlap", np.array(b.one("d")[0], complex), np.ones(2), 1e-8, t + " overlap of a stored object with the loaded state")
        r.op(4)
        r.state(t)
    r.trace()


OBJ = "(define e (get-eigenvectors 1 2))"
G6 = OBJ + "(set! resolution 6)(init-params NO-PARITY true)(solve-kpoint (vector3 0.2 0.1 0))"
REFUSE = []
for b, m in ((0, 1), (-1, 2), (1, 4), (3, 2), (4, 1), (1, -1), (5, -2), (2, 100)):
    REFUSE.append((OBJ, "(get-eigenvectors %d %d)" % (b, m)))
for b in (0, -1, -2, 3, 4, 50):
    REFUSE.append((OBJ, "(set-eigenvectors e %d)" % b))
    REFUSE.append((OBJ, "(dot-eigenvectors e %d)" % b))
    REFUSE.append((OBJ, "(scale-eigenvector %d 0.5)" % (b if b != 3 else 4)))
for x in ("5", '"e"', "(dot-eigenvectors e 1)", "(begin (get-epsilon) (field-copy cur-field))"):
    for op in ("(set-eigenvectors %s 1)", "(dot-eigenvectors %s 1)", '(output-eigenvectors %s "z")'):
        REFUSE.append((OBJ, op % x))
REFUSE += [(G6, "(set-eigenvectors e 1)"), (G6, "(dot-eigenvectors e 1)"), (G6, "(fix-phase-consistency e 1)")]
REFUSE += [(OBJ + '(save-eigenvectors "f")(set! resolution 6)(init-params NO-PARITY true)', '(load-eigenvectors "f")'),
           (OBJ + '(save-eigenvectors "f")(set! resolution 6)(init-params NO-PARITY true)', '(input-eigenvectors "f" 3)'),
           (OBJ + '(save-eigenvectors "f")(set! num-bands 2)(init-params NO-PARITY true)', '(load-eigenvectors "f")'),
           (OBJ + '(save-eigenvectors "f")(set! num-bands 4)(init-params NO-PARITY true)', '(load-eigenvectors "f")'),
           (OBJ + '(output-eigenvectors e "f")', '(load-eigenvectors "f")'), (OBJ + '(output-eigenvectors e "f")', '(input-eigenvectors "f" 1)'), (OBJ + '(output-eigenvectors e "f")', '(input-eigenvectors "f" 3)'),
           (OBJ + '(save-eigenvectors "f")', '(input-eigenvectors "f" 4)'), (OBJ, '(load-eigenvectors "nofile")'), (OBJ, '(input-eigenvectors "nofile" 2)'),
           (OBJ, '(load-eigenvectors "junk")'), (OBJ, '(load-eigenvectors "other")'), (OBJ, '(load-eigenvectors "otherkind")'), (OBJ + '(output-epsilon)', '(load-eigenvectors "job-epsilon.h5")'),
           (OBJ, '(run-parity NO-PARITY "nofile")'), (OBJ, '(run-parity NO-PARITY "junk")')]
for i, j in ((-1, 0), (0, -1), (2, 0), (0, 2), (5, 5)):
    REFUSE.append((OBJ + "(define U (dot-eigenvectors e 1))", "(sqmatrix-ref U %d %d)" % (i, j)))
    REFUSE.append((OBJ + "(define U (dot-eigenvectors e 1))", "(sqmatrix-set U %d %d 1)" % (i, j)))
REFUSE += [(OBJ, "(sqmatrix-mult (sqmatrix-diagm '(1 2)) (sqmatrix-diagm '(1 2 3)))"), (OBJ, "(sqmatrix-mult e e)"), (OBJ, "(sqmatrix-size e)"), (OBJ, "(sqmatrix-ref 3 0 0)"), (OBJ, "(sqmatrix-eigvals e)")]
NOINIT = ["(get-eigenvectors 1 1)", '(save-eigenvectors "f")', '(load-eigenvectors "f")', '(input-eigenvectors "f" 1)', "(scale-eigenvector 1 1)"]
REFUSE += [(None, x) for x in NOINIT]


def refuse(case, r):
    pre, op = REFUSE[case["i"]]
    cfg = case["cfg"]
    s = "(set! geometry-lattice (make lattice (size 1 1 no-size)))(set! geometry (list (make cylinder (center 0 0) (radius 0.3) (height infinity) (material (make medium (epsilon 4) %s)))))(set! resolution 4)(set! num-bands 3)(set! eigensolver-block-size 2)" % ("(mu 2)" if case["mu"] else "")
    if pre is not None:
        s += "(init-params NO-PARITY true)(solve-kpoint (vector3 0.2 0.1 0))" + pre
    with ctl.Scratch() as d:
        open(d + "/junk", "w").write("this is not a data file\n" * 50)
        open(d + "/junk.h5", "w").write("this is not a data file\n" * 50)
        h5.write(d + "/other.h5", {"rawdata2": np.zeros((16, 2, 3, 2))})
        # the other build's number kind
        h5.write(d + "/otherkind.h5", {"rawdata": np.zeros((16, 2, 3, 2 if cfg == "inv" else 1))})
        for f in ("other", "otherkind"):
            os.link(d + "/%s.h5" % f, d + "/" + f)
        res = ctl.run(cfg, s + "(emit 'before)" + op + "(emit 'after)", cwd=d)
    r.op()
    r.state(cfg, case["mu"], case["i"])
    if not res.by.get("before"):
        r.fail("setup", res.tail())
    elif res.by.get("after") or res.rc == 0:
        r.fail("accepted", "%s%s: %s after %s was not refused" % (cfg, " (magnetic)" if case["mu"] else "", op, pre))
    elif res.rc == "timeout" or res.rc < 0 or res.rc in (139, 134):
        r.fail("crash", "%s%s: %s after %s ended with %s" % (cfg, " (magnetic)" if case["mu"] else "", op, pre, res.rc))
    r.trace()


def sq(case, r):
    """small matrices: every size to 4, sets of every entry, products, diagonals, eigenvalues"""
    cfg = case["cfg"]
    rng = ref.hashrng("sq", cfg)
    s = "(define (rows m) (let ((n (sqmatrix-size m))) (map (lambda (i) (map (lambda (j) (sqmatrix-ref m i j)) (iota n))) (iota n))))"
    M = []
    for p in range(1, 5):
        for v in range(3):
            z = rng.normal(size=(2, p, p)) + (1j * rng.normal(size=(2, p, p)) if cfg == "complex" else 0)
            if v == 1:
                z[1] = z[0]
            dg = rng.normal(size=p) + (1j * rng.normal(size=p) if cfg == "complex" else 0)
            M.append((z, dg))
            st = lambda nm, a: "(define %s (sqmatrix-diagm '(%s)))" % (nm, " ".join("1" for _ in range(p))) + "".join("(sqmatrix-set %s %d %d %s)" % (nm, i, j, ctl.num(complex(a[i, j]) if cfg == "complex" else float(a[i, j].real))) for i in range(p) for j in range(p))
            s += st("a", z[0]) + st("b", z[1]) + "(define c (sqmatrix-mult a b))(define dd (sqmatrix-diagm (list %s)))(define aa (sqmatrix-mult a a))" % " ".join(ctl.num(complex(x) if cfg == "complex" else float(x.real)) for x in dg)
            s += "(emit 'm (rows a) (rows b) (rows c) (rows dd) (rows aa) (sqmatrix-eigvals a) (sqmatrix-diag a) (sqmatrix-size c) (map sqmatrix? (list a c 3)) (map evectmatrix? (list a)))\n"
    s += "(emit 'done)"
    res = ctl.run(cfg, s)
    if not res.by.get("done"):
        r.fail("died", res.tail())
        return
    for (z, dg), row in zip(M, res.by["m"]):
        p = len(dg)
        A = [np.array(x, complex) for x in row[:5]]
        for got, want, w in zip(A, (z[0], z[1], z[0] @ z[1], np.diag(dg), z[0] @ z[0]), ("first factor", "second factor", "product", "diagonal", "square")):
            r.close("sq", got, want.astype(complex), 1e-12, "%s %dx%d %s" % (cfg, p, p, w))
        e = list(np.array(row[5], complex))
        for x in np.linalg.eigvals(z[0]):
            j = int(np.argmin([abs(x - y) for y in e]))
            r.close("eig", e.pop(j), x, 1e-9, "%s %dx%d eigenvalues" % (cfg, p, p))
        r.close("sq", np.array(row[6], complex), np.diag(z[0]).astype(complex), 1e-13, "diagonal entries")
        if row[7:] != [p, [True, True, False], [False]]:
            r.fail("sq", "size or type: %s" % row[7:])
        r.op(6)
        r.state(cfg, p, len(r.s) if hasattr(r, "s") else 0)
    r.trace()


def run_case(case, r):
    {"seq": seq, "persist": persist, "refuse": refuse, "sq": sq}[case["kind"]](case, r)


if __name__ == "__main__":
    vf.Check("C12", "model_checking", cases, run_case, setup=setup, case_timeout=600,
             rule="seq: one case = one segment of a de Bruijn word over the operations, the raw contents of all three registers compared after every step; persist: one structure and build, two processes; refuse: one invalid operation",
             bounds="every band range of 3-5 bands, and ranges across the 20-band batches for 22-24 bands; all ordered pairs of ~45 operations on 10 structure/build/block-size cells (thorough: all cells, triples on 4); ~75 invalid operations on 4 cells").main()
