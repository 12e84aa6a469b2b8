#!/usr/bin/env python3-vt
"""C18: mpb-data transforms data sets exactly as its options say.

Every combination of options is given to the real mpb-data on files of every lattice, rank, grid, wavevector and number of copies;
every data set it writes is compared with an independent resampling: the output grid is the output cell centred on the centre of
the input cell, the value is the multilinear interpolation of the periodic (Bloch periodic for complex data) input there, vectors
are expressed in the axes of the output cell.  Part "real": files written by the program itself, serial and distributed."""
import os, sys, itertools, math, subprocess, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mpbbuild
import numpy as np
import h5, ctl, scene

S3 = math.sqrt(3)
LATS = {
    "none": None, "square": np.diag([1.0, 1.5, 1.0]), "tri": np.array([[S3 / 2, .5, 0], [S3 / 2, -.5, 0], [0, 0, 1.0]]),
    "fcc": np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]), "oblique": np.array([[1.0, .2, .1], [-.3, 1.1, .05], [.25, -.1, .7]]),
}
SHAPES = [(1,), (5,), (3, 4), (1, 2), (5, 1), (2, 3, 4), (4, 3, 1), (1, 1, 2)]
KS = [None, (0.0, 0, 0), (0.3, -0.2, 0.15)]
COPIES = [None, (1, 1, 1), (2, 1, 3)]
RECT = [(), ("-r",), ("-e", "1,0.5,0.2"), ("-e", "0.3,1,0.4")]
RES = [(), ("-n", "3.3"), ("-n", "7")]
MUL = [(), ("-x", "2"), ("-y", "1.7", "-x", "0.6"), ("-m", "2.2"), ("-z", "3", "-x", "1.3")]
PH = [(), ("-P", "77")]


def setup(tier):
    for q in ("complex", "herm", "mpi"):
        mpbbuild.build(q, what=("mpb", "mpbdata"))


def cases(tier):
    th = tier == "thorough"
    for lat in LATS:
        for si in range(len(SHAPES)):
            for ki, k in enumerate(KS):
                for ci, cp in enumerate(COPIES):
                    if not th and (ki, ci) not in (((2, 0), (2, 2)) if si % 3 else ((0, 0), (1, 2), (2, 0))):
                        continue
                    yield {"id": "opt-%s-%d-%d-%d" % (lat, si, ki, ci), "kind": "opt", "lat": lat, "shape": si, "k": ki, "copies": ci, "mul": None if th else 2 + (si + ki) % 3}
    for lat in ("tri", "oblique"):
        yield {"id": "sets-%s" % lat, "kind": "sets", "lat": lat}
        yield {"id": "dir-%s" % lat, "kind": "dir", "lat": lat}
    yield {"id": "dir-square", "kind": "dir", "lat": "square"}
    yield {"id": "args", "kind": "args"}
    for sc in ("rods2de", "tri2d", "ani2df", "gyro2d", "ani3d", "gyro3d", "fcc3d"):
        yield {"id": "real-%s" % sc, "kind": "real", "scene": sc}


def vals(shape, seed):
    n = int(np.prod(shape))
    return ((np.arange(n) * 0.6180339887 + 0.137 * seed) % 1.0 * 2 - 0.7).reshape(shape)


def content(shape):
    f = {"data": vals(shape, 1), "data.r": vals(shape, 2), "data.i": vals(shape, 3), "epsilon.xy": vals(shape, 4), "epsilon_inverse.zz": vals(shape, 5), "other": vals(shape, 6)}
    for j, c in enumerate("xyz"):
        f[c + ".r"], f[c + ".i"] = vals(shape, 7 + j), vals(shape, 11 + j)
    return f


class Opt:
    def __init__(self, args):
        self.rect, self.ve, self.n, self.m, self.T, self.p, self.P = False, None, 0.0, [1.0, 1.0, 1.0], False, False, 0.0
        a = list(args)
        while a:
            o = a.pop(0)
            if o == "-r":
                self.rect = True
            elif o == "-e":
                self.rect, self.ve = True, np.array([float(x) for x in a.pop(0).split(",")])
            elif o == "-n":
                self.n = float(a.pop(0))
            elif o in ("-x", "-y", "-z"):
                self.m["xyz".index(o[1])] = float(a.pop(0))
            elif o == "-m":
                self.m = [float(a.pop(0))] * 3
            elif o == "-T":
                self.T = True
            elif o == "-p":
                self.p = True
            elif o == "-P":
                self.P = float(a.pop(0))


def cell(R, o):
    """(output cell before repetition, rotation of vectors); rows of R are the lattice vectors"""
    if not o.rect:
        return R.copy(), np.eye(3)
    e = R[0] if o.ve is None else o.ve
    e = e / np.linalg.norm(e)
    # the first vector: where the line along e meets the plane through the ends of the three lattice vectors
    t = 1 / np.sum(np.linalg.solve(R.T, e))
    sg = 1.0
    if t < 0:
        t, sg = -t, -1.0        # still along e; the same handedness
    c0 = t * e
    c1 = R[1] - R[0]
    c1 = c1 - (c1 @ e) * e
    c2 = R[2] - R[0]
    c2 = c2 - (c2 @ e) * e
    c2 = sg * (c2 - (c2 @ c1) / (c1 @ c1) * c1)
    out = np.array([c0, c1, c2])
    return out, np.array([v / np.linalg.norm(v) for v in out])


class Want:
    """expected output for files with these attributes"""

    def __init__(self, R, k, copies, shape, o):
        self.o, self.shape = o, shape
        rank = len(shape)
        R = np.eye(3) if R is None else np.array(R, float)
        k = None if k is None else np.array(k, float)
        if copies is not None:
            R = R * np.array(copies, float)[:, None]
            k = None if k is None else k * np.array(copies, float)
        C, self.rot = cell(R, o)
        C = C * np.array(o.m)[:, None]
        n3 = np.array(tuple(shape) + (1,) * (3 - rank))
        if o.n > 0:
            nout = [int(np.linalg.norm(C[a]) * o.n + 0.5) for a in range(3)]
        else:
            nout = [int(n3[a] * o.m[a]) for a in range(3)]
        nout = np.array([max(1, q) if a < rank else 1 for a, q in enumerate(nout)])
        idx = np.array(list(itertools.product(*map(range, nout))), float)
        r = (idx / nout - 0.5) @ C
        f = np.linalg.solve(R.T, r.T).T + 0.5
        t = f * n3
        # points on the grid up to rounding are on the grid (the interpolation is continuous)
        t = np.where(np.abs(t - np.round(t)) < 1e-9, np.round(t), t)
        self.n3, self.nout, self.k, self.rank = n3, nout, k, rank
        self.i0 = np.floor(t).astype(int)
        self.w = t - self.i0
        self.tie = np.any(np.abs(self.w - 0.5) < 1e-9, axis=1) if o.p else np.zeros(len(t), bool)
        if o.p:
            self.w = (self.w > 0.5).astype(float)

    def data(self, re, im=None):
        v = re if im is None else re + 1j * im
        v = v.reshape(self.n3)
        out = 0
        for c in itertools.product((0, 1), repeat=3):
            ww = np.prod(np.where(np.array(c) == 1, self.w, 1 - self.w), axis=1)
            j = self.i0 + np.array(c)
            x = v[tuple((j % self.n3).T)]
            if im is not None and self.k is not None:
                x = x * np.exp(2j * np.pi * (j // self.n3) @ self.k)
            out = out + ww * x
        if im is not None:
            out = out * np.exp(2j * np.pi * self.o.P / 360)
        return self.lay(out)

    def lay(self, v):
        v = v.reshape(self.nout)
        if self.o.T and self.rank > 1:
            v = v.transpose(1, 0, 2)
        return v.reshape(self.outshape())

    def outshape(self):
        n = list(self.nout)
        if self.o.T and self.rank > 1:
            n[0], n[1] = n[1], n[0]
        return tuple(int(q) for q in n[:self.rank])

    def vec(self, V):
        """V: {'x': complex array, ..}"""
        M = self.rot
        if self.o.T:
            M = M[[1, 0, 2]]
        W = {c: sum(M[a, b] * V["xyz"[b]] for b in range(3)) for a, c in enumerate("xyz")}
        return {c: self.data(W[c].real, W[c].imag) for c in "xyz"}


def invoke(cfg, args, cwd):
    return subprocess.run([mpbbuild.build(cfg, what=("mpbdata",)).mpbdata] + list(args), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)


def save(path, sets, lat, k, copies):
    s = dict(sets)
    if LATS.get(lat) is not None:
        s["lattice vectors"] = LATS[lat]
    if k is not None:
        s["Bloch wavevector"] = np.array(k)
    if copies is not None:
        s["lattice copies"] = np.array(copies, float)
    h5.write(path, s)
    return s


def same(r, key, tag, got, want, tie=None):
    if got is None:
        return r.fail("missing", "%s was not written" % tag)
    if tuple(got.shape) != tuple(want.shape):
        return r.fail("shape", "%s has the shape %s instead of %s" % (tag, got.shape, want.shape))
    d = np.abs(got - want)
    if tie is not None:
        d = np.where(tie, 0, d)
    r.op()
    if not (d.max() < 1e-9):
        i = np.unravel_index(np.argmax(np.where(np.isnan(d), 1e9, d)), d.shape)
        r.fail(key, "%s differs by %.3g at %s: %s instead of %s" % (tag, d[i], i, got[i], want[i]))


def compare(r, tag, W, src, got, suffix, sets):
    tie = W.lay(W.tie)
    for nm in sets:
        if nm in ("data", "epsilon.xy", "epsilon_inverse.zz", "other") or nm in ("x", "y", "z"):
            same(r, "real", "%s: %s" % (tag, nm), got.get(nm + suffix), W.data(src[nm]), tie)
        elif nm == "data.c":
            w = W.data(src["data.r"], src["data.i"])
            same(r, "complex", "%s: data.r" % tag, got.get("data.r" + suffix), w.real, tie)
            same(r, "complex", "%s: data.i" % tag, got.get("data.i" + suffix), w.imag, tie)
        elif nm == "vec":
            w = W.vec({c: src[c + ".r"] + 1j * src[c + ".i"] for c in "xyz"})
            for c in "xyz":
                same(r, "vector", "%s: %s.r" % (tag, c), got.get(c + ".r" + suffix), w[c].real, tie)
                same(r, "vector", "%s: %s.i" % (tag, c), got.get(c + ".i" + suffix), w[c].imag, tie)


ALLSETS = ("data", "epsilon.xy", "epsilon_inverse.zz", "data.c", "vec")


def opt(case, r):
    lat, shape, k, cp = case["lat"], SHAPES[case["shape"]], KS[case["k"]], COPIES[case["copies"]]
    mul = MUL if case["mul"] is None else [MUL[0], MUL[1], MUL[case["mul"]]]
    with ctl.Scratch() as d:
        f = os.path.join(d, "in.h5")
        src = save(f, content(shape), lat, k, cp)
        for q, (a, b, c, T, p) in enumerate(itertools.product(RECT, RES, mul, ((), ("-T",)), ((), ("-p",)))):
            P = PH[q % 2]
            args = a + b + c + T + p + P
            o = Opt(args)
            x = invoke("complex", ("-o", "out") + args + ("in",), d)
            tag = "%s %s k=%s copies=%s: mpb-data %s" % (lat, shape, k, cp, " ".join(args))
            r.state(tag)
            if x.returncode != 0:
                r.fail("died", "%s: status %s: %s" % (tag, x.returncode, x.stdout[-300:]))
                continue
            W = Want(LATS[lat], k, cp, shape, o)
            got = h5.readall(os.path.join(d, "out.h5"))
            compare(r, tag, W, src, got, "", ALLSETS)
            extra = set(got) - {"data", "epsilon.xy", "epsilon_inverse.zz", "data.r", "data.i", "x.r", "x.i", "y.r", "y.i", "z.r", "z.i"}
            if extra:
                r.fail("extra", "%s writes %s" % (tag, sorted(extra)))
        now = h5.readall(f)
        if set(now) != set(src) or any(np.any(now[n] != src[n]) for n in src):
            r.fail("input", "%s %s: the input file was changed although -o was given" % (lat, shape))
    r.trace()


def sets(case, r):
    """which data sets, which file: in place, again, -d, file:name, -o with several files, partial vectors"""
    lat, k = case["lat"], KS[2]
    shape = (3, 4)
    o1, o2 = ("-r", "-n", "4", "-P", "30"), ("-m", "2", "-p")
    w1, w2 = Want(LATS[lat], k, None, shape, Opt(o1)), Want(LATS[lat], k, None, shape, Opt(o2))
    full = content(shape)

    def world(seq, files, check):
        """seq of (args); files name -> sets; check(outputs)"""
        with ctl.Scratch() as d:
            src = {n: save(os.path.join(d, n + ".h5"), s, lat, k, None) for n, s in files.items()}
            for a in seq:
                x = invoke("complex", a, d)
                r.op()
                r.state(lat, a)
                if x.returncode != 0:
                    r.fail("died", "%s mpb-data %s: status %s: %s" % (lat, a, x.returncode, x.stdout[-300:]))
                    return
            out = {n[:-3]: h5.readall(os.path.join(d, n)) for n in os.listdir(d) if n.endswith(".h5")}
            check(src, out)

    def keep(src, out, names, tag):
        for n in names:
            for s in src[n]:
                if s not in out[n] or np.any(out[n][s] != src[n][s]):
                    r.fail("kept", "%s %s: data set %s of the input was changed" % (lat, tag, s))

    def only(got, src, new, tag):
        if set(got) != set(src) | set(new):
            r.fail("extra", "%s %s: the file has %s, expected %s more than before" % (lat, tag, sorted(set(got) - set(src)), sorted(new)))

    new = [s + "-new" for s in ("data", "epsilon.xy", "epsilon_inverse.zz", "data.r", "data.i", "x.r", "x.i", "y.r", "y.i", "z.r", "z.i")]

    def c1(src, out):
        keep(src, out, ["a"], "in place")
        only(out["a"], src["a"], new, "in place")
        compare(r, "%s in place" % lat, w1, full, out["a"], "-new", ALLSETS)
    world([o1 + ("a.h5",)], {"a": full}, c1)

    def c2(src, out):
        keep(src, out, ["a"], "in place twice")
        only(out["a"], src["a"], new, "in place twice")
        compare(r, "%s in place twice" % lat, w2, full, out["a"], "-new", ALLSETS)
    world([o1 + ("a",), o2 + ("a",)], {"a": full}, c2)

    def c3(src, out):
        keep(src, out, ["a", "b"], "two files")
        only(out["a"], src["a"], [], "two files with -o")
        only(out["b"], src["b"], new, "two files with -o")
        compare(r, "%s -o first" % lat, w1, full, out["o"], "", ALLSETS)
        compare(r, "%s -o second" % lat, w1, full, out["b"], "-new", ALLSETS)
    world([("-o", "o.h5") + o1 + ("a", "b")], {"a": full, "b": full}, c3)

    real = {"other": full["other"], "data": full["data"], "z.q.r": full["data.r"], "z.q.i": full["data.i"]}

    def c4(src, out):
        only(out["o"], {}, ["other"], "-d")
        compare(r, "%s -d other" % lat, w1, full, out["o"], "", ("other",))
    world([("-d", "other", "-o", "o") + o1 + ("a",)], {"a": real}, c4)
    world([("-o", "o") + o1 + ("a.h5:other",)], {"a": real}, c4)
    world([("-d", "data", "-o", "o") + o1 + ("a:other",)], {"a": real}, c4)

    def c5(src, out):
        only(out["a"], src["a"], ["other-new"], "a:other b with -d data")
        only(out["b"], src["b"], ["data-new"], "a:other b with -d data")
        compare(r, "%s a:other" % lat, w1, full, out["a"], "-new", ("other",))
        compare(r, "%s b -d data" % lat, w1, full, out["b"], "-new", ("data",))
    world([("-d", "data") + o1 + ("a:other", "b")], {"a": real, "b": real}, c5)

    def c6(src, out):
        w = w1.data(full["data.r"], full["data.i"])
        only(out["o"], {}, ["z.q.r", "z.q.i"], "-d of a complex data set")
        same(r, "complex", "%s -d z.q: z.q.r" % lat, out["o"].get("z.q.r"), w.real)
        same(r, "complex", "%s -d z.q: z.q.i" % lat, out["o"].get("z.q.i"), w.imag)
    world([("-d", "z.q", "-o", "o") + o1 + ("a",)], {"a": real}, c6)

    # components of a vector exported alone
    for sub in (("x",), ("y",), ("z",), ("x", "z")):
        def c7(src, out):
            only(out["o"], {}, [c + "." + q for c in sub for q in "ri"], "components %s" % (sub,))
            for c in sub:
                w = w1.data(full[c + ".r"], full[c + ".i"])
                same(r, "component", "%s %s alone" % (lat, c), out["o"].get(c + ".r"), w.real)
                same(r, "component", "%s %s alone" % (lat, c), out["o"].get(c + ".i"), w.imag)
        world([("-o", "o") + o1 + ("a",)], {"a": {c + "." + q: full[c + "." + q] for c in sub for q in "ri"}}, c7)

    def c8(src, out):
        only(out["o"], {}, ["x", "y", "z"], "real components")
        for c in "xyz":
            same(r, "component", "%s real %s" % (lat, c), out["o"].get(c), w1.data(full[c + ".r"]))
    world([("-o", "o") + o1 + ("a",)], {"a": {c: full[c + ".r"] for c in "xyz"}}, c8)
    r.trace()


def direction(case, r):
    """-e in every direction of a grid of directions"""
    lat = case["lat"]
    R = LATS[lat]
    shape = (3, 4, 2)
    src0 = content(shape)
    with ctl.Scratch() as d:
        src = save(os.path.join(d, "in.h5"), src0, lat, KS[2], None)
        for e in itertools.product((-1, 0, 1, 2), repeat=3):
            s = float(np.sum(np.linalg.solve(R.T, np.array(e, float))))
            bad = abs(s) < 1e-9
            args = ("-e", "%d,%d,%d" % e, "-n", "2.3")
            if not bad and max(np.linalg.norm(cell(R, Opt(args))[0], axis=1)) > 12:
                continue
            x = invoke("complex", ("-o", "out") + args + ("in",), d)
            tag = "%s mpb-data %s" % (lat, " ".join(args))
            r.op()
            r.state(tag)
            if bad:
                if x.returncode == 0:
                    r.fail("impossible", "%s: there is no such cell of finite size; the status is 0" % tag)
                elif x.returncode < 0 and b"CHECK" not in x.stdout:
                    r.fail("crash", "%s: there is no such cell of finite size; the program crashes (%s)" % (tag, x.returncode))
                continue
            if x.returncode != 0:
                r.fail("died", "%s: status %s: %s" % (tag, x.returncode, x.stdout[-300:]))
                continue
            W = Want(R, KS[2], None, shape, Opt(args))
            compare(r, tag, W, src, h5.readall(os.path.join(d, "out.h5")), "", ALLSETS)
    r.trace()


def args(case, r):
    shape = (3, 4)
    full = content(shape)
    T = [((), False), (("-q", "in"), False), (("-n", "0", "in"), False), (("-n", "-2", "in"), False), (("-e", "1,2", "in"), False), (("nosuch",), False), (("-o", "nodir/out", "in"), False), (("bad",), False),
         (("-h",), True), (("-V",), True), (("rank4",), False), (("mixed",), False), (("-v", "in"), True), (("-v", "plain"), True), (("-d", "q" * 350, "in"), None), (("-d", "q" * 2000, "in"), None), (("-n", "3", "-x", "0", "in"), True)]
    for a, good in T:
        with ctl.Scratch() as d:
            src = save(os.path.join(d, "in.h5"), full, "tri", KS[2], None)
            h5.write(os.path.join(d, "plain.h5"), {"data": full["data"]})
            h5.write(os.path.join(d, "rank4.h5"), {"data": vals((2, 2, 2, 2), 1)})
            h5.write(os.path.join(d, "mixed.h5"), {"data.r": full["data.r"], "data.i": full["data.i"].T})
            open(os.path.join(d, "bad.h5"), "w").write("not a file of this kind\n" * 30)
            x = invoke("complex", a, d)
            r.op()
            r.state(a)
            if good is None:
                if x.returncode < 0 and b"CHECK" not in x.stdout:
                    r.fail("crash", "mpb-data %s crashes with status %s" % (" ".join(a)[:60], x.returncode))
            elif good != (x.returncode == 0):
                r.fail("status", "mpb-data %s: status %s: %s" % (" ".join(a)[:60], x.returncode, x.stdout[-300:]))
            elif x.returncode < 0 and x.returncode != -6:
                r.fail("crash", "mpb-data %s: status %s" % (" ".join(a)[:60], x.returncode))
    r.trace()


def real(case, r):
    """the program's own files: every data set is transformed, serial and distributed (with -T) agree"""
    sc = scene.BY[case["scene"]]
    cfg = "herm" if sc.herm else "complex"
    k = (0.3, -0.2, 0.15 if sc.n[2] > 1 else 0)
    s = sc.script() + "(set! num-bands 2)(set! tolerance 1e-9)(set! deterministic? true)(set! filename-prefix \"p-\")(init-params NO-PARITY true)(output-epsilon)(solve-kpoint %s)(output-efield 1)(output-hfield 2)(output-dfield-x 1)(output-dpwr 1)(output-poynting 1)(get-dfield 1)%s" % (
        ctl.v3(k), "(compute-field-divergence)(output-field)" if cfg != "inv" else "")
    serial = {}
    for np_ in ((None, 2) if cfg == "complex" else (None,)):
        with ctl.Scratch() as d:
            x = ctl.run("mpi" if np_ else cfg, s, cwd=d, np_=np_)
            if x.rc != 0:
                return r.fail("died", "%s: %s" % (case["id"], x.tail()))
            for f in sorted(q for q in os.listdir(d) if q.endswith(".h5")):
                src = h5.readall(os.path.join(d, f))
                if f.startswith("p-e.") or f.startswith("p-h.") or "poynting" in f or f.startswith("p-s."):
                    # -T undoes the exchange of axes in distributed files (the fields are the same up to a phase)
                    if not np_:
                        serial[f] = src
                    else:
                        x = invoke(cfg, ("-T", "-o", "undo", f), d)
                        r.op()
                        if x.returncode != 0:
                            r.fail("died", "%s: mpb-data -T %s: %s" % (sc.name, f, x.stdout[-300:]))
                        else:
                            und = h5.readall(os.path.join(d, "undo.h5"))
                            os.unlink(os.path.join(d, "undo.h5"))
                            vec = lambda S: np.array([S[c + ".r"] + 1j * S[c + ".i"] for c in "xyz"])
                            a, b = vec(serial[f]), vec(und)
                            if a.shape != b.shape:
                                r.fail("undo-shape", "%s: -T turns %s into the shape %s; the serial file has %s" % (sc.name, f, b.shape, a.shape))
                            else:
                                far = lambda u: np.abs(np.vdot(u, a) / max(np.vdot(u, u).real, 1e-30) * u - a).max() / np.abs(a).max()
                                if far(b) > 1e-2:
                                    if far(b[[1, 0, 2]]) < 1e-2:
                                        r.fail("transposed-vectors", "%s: -T (without -r) of the distributed %s gives the serial field with its x and y components exchanged" % (sc.name, f))
                                    else:
                                        r.fail("undo", "%s: -T of the distributed %s is not the serial field (by %.3g of its maximum)" % (sc.name, f, far(b)))
                num = {n: v for n, v in src.items() if isinstance(v, np.ndarray) and n not in ("lattice vectors", "Bloch wavevector", "lattice copies")}
                for a in (("-r", "-n", "4.3"), ("-x", "2", "-y", "1.5", "-P", "20"), ("-p", "-m", "2")):
                    a2 = a + (("-T",) if np_ else ())
                    x = invoke("mpi" if False else cfg, ("-o", "out-" + f) + a2 + (f,), d)
                    tag = "%s%s: mpb-data %s %s" % (sc.name, " distributed" if np_ else "", " ".join(a2), f)
                    r.op()
                    r.state(tag)
                    if x.returncode != 0:
                        r.fail("died", "%s: %s" % (tag, x.stdout[-300:]))
                        continue
                    got = h5.readall(os.path.join(d, "out-" + f))
                    os.unlink(os.path.join(d, "out-" + f))
                    if set(got) != set(num):
                        r.fail("sets", "%s writes %s of %s" % (tag, sorted(got), sorted(num)))
                        continue
                    R, kv, cp = src.get("lattice vectors"), src.get("Bloch wavevector"), src.get("lattice copies")
                    # (a distributed file has its first two axes exchanged; so has the -T output, in its own sense)
                    shape = next(iter(num.values())).shape
                    W = Want(R, kv, cp, shape, Opt(a2))
                    done = set()
                    tie = W.lay(W.tie)
                    if all(c + "." + q in num for c in "xyz" for q in "ri"):
                        w = W.vec({c: num[c + ".r"] + 1j * num[c + ".i"] for c in "xyz"})
                        for c in "xyz":
                            same(r, "vector", "%s: %s.r" % (tag, c), got[c + ".r"], w[c].real, tie)
                            same(r, "vector", "%s: %s.i" % (tag, c), got[c + ".i"], w[c].imag, tie)
                            done |= {c + ".r", c + ".i"}
                    for n in sorted(set(num) - done):
                        if n.endswith(".r") and n[:-2] + ".i" in num:
                            w = W.data(num[n], num[n[:-2] + ".i"])
                            same(r, "complex", "%s: %s" % (tag, n), got[n], w.real, tie)
                            same(r, "complex", "%s: %s" % (tag, n), got[n[:-2] + ".i"], w.imag, tie)
                        elif not (n.endswith(".i") and n[:-2] + ".r" in num):
                            same(r, "real", "%s: %s" % (tag, n), got[n], W.data(num[n]), tie)
    r.trace()


def run_case(case, r):
    {"opt": opt, "sets": sets, "dir": direction, "args": args, "real": real}[case["kind"]](case, r)


if __name__ == "__main__":
    vf.Check("C18", "model_checking", cases, run_case, setup=setup,
             rule="every (lattice, grid, wavevector, copies) x every combination of options; every data set of every output",
             bounds="5 lattices, 8 grids of ranks 1-3, 3 wavevectors, 3 numbers of copies (quick: 4 of 9 combinations); 4 cells x 3 resolutions x 5 periods x transposition x pixels; 64 directions of -e; 17 invalid or special invocations; files of 7 structures",
             assumptions=["with -p, points half way between grid points may take either"]).main()
