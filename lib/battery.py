"""One battery of observations of a solved structure, and the comparison of two of them up to the phase of each eigenstate
(and the choice of basis among degenerate ones).  Shared by the checks that say two ways of computing agree."""
import os, re
import numpy as np
import ctl, h5

DEF = r"""
(define (cv v) (vector->list v))
(define (bat-field ki b type getter)
  (getter b)
  (emit 'F ki b type (map (lambda (p) (cv (get-bloch-field-point p))) P) (map (lambda (p) (cv (get-field-point p))) Poff))
  (emit 'I ki b type
    (compute-field-integral (lambda (f eps r) (vector3-dot f (vector3 1 0.5 -0.25))))
    (compute-field-integral (lambda (f eps r) (* eps (+ 1 (vector3-x r) (* 0.3 (vector3-y r)) (* 0.2 (vector3-z r) (vector3-z r))) (vector3-x f))))
    (compute-field-integral (lambda (f eps r) (* (+ 1 (sin (vector3-x r)) (vector3-z r)) (/ 1 (+ 1 eps)) (vector3-cdot f f))))))
(define (bat-pwr ki b type getter)
  (getter b)
  (emit 'W ki b type (compute-field-energy)
    (map get-energy-point P) (map get-energy-point Poff)
    (list (compute-energy-in-dielectric 0 1.5) (compute-energy-in-dielectric 1.5 100) (compute-energy-in-dielectric 0.1 5))
    (map (lambda (o) (compute-energy-in-objects o)) OBJ)
    (list (compute-energy-integral (lambda (u eps r) u)) (compute-energy-integral (lambda (u eps r) (* u eps (+ 1 (vector3-x r) (* 0.4 (vector3-y r) (vector3-z r)))))))))
(define (bat-band ki b)
  (bat-field ki b 'd get-dfield)
  (bat-field ki b 'e get-efield)
  (bat-field ki b 'h get-hfield)
  (bat-field ki b 'b get-bfield)
  (bat-pwr ki b 'd get-dfield)
  (bat-pwr ki b 'h get-bfield)
  (emit 'G ki b (compute-1-group-velocity-component (vector3 1 0.5 0) b) (cv (compute-1-group-velocity b)) (cv (compute-1-group-velocity-reciprocal b)))
  (emit 'N ki b (cv (get-dominant-planewave b)))
  (get-dfield b)
  (let ((d (field-copy cur-field)))
    (get-hfield b)
    (let ((s (rscalar-field-make cur-field)))
      (field-map! s (lambda (a h) (real-part (vector3-cdot (vector3-cross (vector3-conj a) h) (vector3 1 2 3)))) d cur-field)
      (emit 'S ki b (map (lambda (p) (rscalar-field-get-point s p)) P)
        (integrate-fields (lambda (r a h x) (* (+ 1 (vector3-y r)) (vector3-cdot a h) (+ 2 x))) d cur-field s))
      (field-load s)
      (emit 'X ki b (map get-energy-point Poff)))))
(define (bat-files ki b)
  (output-dfield b) (output-hfield-y b) (output-dpwr b) (output-bpwr b) (output-poynting b) (output-tot-pwr b) (output-efield-z b))
(define (bat-k ki)
  (emit 'f ki freqs (cv current-k) (get-kpoint-index))
  (emit 'gv ki (map cv (compute-group-velocities)) (compute-group-velocity-component (vector3 1 0 0)))
  (emit 'par ki (compute-zparities) (compute-yparities))
  (let ((u (dot-eigenvectors OLD 1)))
    (emit 'U ki (map (lambda (i) (map (lambda (j) (magnitude (sqmatrix-ref u i j))) (iota (sqmatrix-size u)))) (iota (sqmatrix-size u)))))
  (do ((b 1 (+ b 1))) ((> b num-bands))
    (bat-band ki b)
    (if FILES (bat-files ki b)))
  (set! OLD (get-eigenvectors 1 num-bands)))
(define (bat-eps)
  (get-epsilon)
  (emit 'eps (map get-epsilon-point P) (map get-epsilon-point Poff) (map (lambda (p) (map cv (vector->list (get-epsilon-inverse-tensor-point p)))) P)
    (compute-energy-in-dielectric 0 100))
  (if (using-mu?) (begin (get-mu) (emit 'mu (map (lambda (p) (rscalar-field-get-point cur-field p)) P)))))
"""

MPI_EMIT = r"""
(define bat-port (open-output-file (string-append "rows." (number->string (mpi-proc-index)))))
(define (emit . xs) (write xs bat-port) (newline bat-port) (force-output bat-port))
"""


def script(sc, ks, nb, off, files=False, mpi=False, par="NO-PARITY", extra="", objs=None, tol="1e-12", parities=True):
    s = sc.script()
    if mpi:
        s += MPI_EMIT
    s += "(set! num-bands %d)(set! tolerance %s)(set! deterministic? true)(set! eigensolver-flags (+ EIGS_DEFAULT_FLAGS EIGS_FORCE_EXACT_LINMIN))\n%s\n" % (nb, tol, extra)
    objs = (list(sc.objs) if objs is None else list(objs)) + [ctl.block((0.1, -0.2, 0.05), (0.45, 0.5, 0.6), 1.0)]
    s += "(define P %s)(define Poff (list %s))(define FILES %s)(define OBJ (list %s))(define OLD 0)\n" % (
        sc.pts(), " ".join(ctl.v3(p) for p in off), "true" if files else "false", " ".join(objs))
    d = DEF
    if not parities:
        d = d.replace("(emit 'par ki (compute-zparities) (compute-yparities))", "")
    s += d
    s += "(init-params %s true)(bat-eps)(if FILES (begin (output-epsilon) (if (using-mu?) (output-mu))))\n" % par
    for i, k in enumerate(ks):
        s += "(set! current-k %s)(randomize-fields)(solve-kpoint current-k)%s(bat-k %d)\n" % (ctl.v3(k), "(set! OLD (get-eigenvectors 1 num-bands))" if i == 0 else "", i)
    if files:
        s += "(save-eigenvectors \"vecs\")\n"
    return s


class Bat:
    """the rows of one run, by key"""

    def __init__(self, rows, out=""):
        self.rows = {}
        for x in rows:
            key = (x[0],) + tuple(y for y in x[1:4] if isinstance(y, (int, str)) and not isinstance(y, bool))
            n = len(key)
            self.rows.setdefault(key, []).append(x[n:])
        self.lines = {}
        for l in out.splitlines():
            m = re.match(r"(epsilon|mu|D-energy-components|H-energy-components|[a-z]*freqs):,? (.*)$", l)
            if m:
                q = []
                for t in re.findall(r"[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|nan|inf)", m.group(2).replace("-1%", "").replace("-", " -") if m.group(1) in ("epsilon", "mu") else m.group(2)):
                    q.append(float(t))
                self.lines.setdefault(m.group(1), []).append(q)


def rows_of(path):
    out = []
    for l in open(path, errors="replace"):
        if l.startswith("("):
            try:
                out.append(ctl.sexp(l))
            except (ValueError, IndexError):
                pass
    return out


def arr(x):
    return np.array(x, complex)


def groups(f, tol):
    out, i = [], 0
    while i < len(f):
        j = i + 1
        while j < len(f) and f[j] - f[j - 1] < tol:
            j += 1
        out.append(list(range(i, j)))
        i = j
    return out


def compare(r, tag, A, B, nk, nb, tolf=2e-6, files=None, gaptol=5e-3, skip=(), skip_n=(), tie=1e-3, tolfld=None, swapped=False):
    """A: reference battery, B: the one judged; files: (dirA, dirB)"""
    def rel(x, ref):
        return np.abs(x).max() / max(floor[0], np.abs(ref).max()) if x.size else 0.0
    floor = [1e-3]

    def one(bat, key):
        v = bat.rows.get(key)
        if not v or len(v) != 1:
            return None
        return v[0]

    def cmp(key, a, b, tol, what):
        r.op()
        a, b = arr(a).ravel(), arr(b).ravel()
        if a.shape != b.shape:
            r.fail(key, "%s: %s has %d values instead of %d" % (tag, what, b.size, a.size))
            return False
        e = rel(a - b, a)
        if not e <= tol:
            i = int(np.argmax(np.abs(a - b))) if not np.isnan(b).any() else int(np.argmax(np.isnan(b)))
            r.fail(key, "%s: %s is %s instead of %s (value %d of %d; %s vs %s)" % (tag, what, b[i], a[i], i, a.size, b[:3], a[:3]))
            return False
        r.worst(key, e / tol)
        return True

    for key in sorted(set(A.rows) | set(B.rows), key=str):
        if len(A.rows.get(key, [])) != len(B.rows.get(key, [])):
            r.fail("rows", "%s: %d results %s instead of %d" % (tag, len(B.rows.get(key, [])), key, len(A.rows.get(key, []))))
            return
    for e in ("eps", "mu"):
        if (e,) in A.rows:
            for i, (x, y) in enumerate(zip(one(A, (e,)), one(B, (e,)))):
                cmp(e + "-%d" % i, x, y, 1e-9, "%s query %d" % (e, i))
    for t in ("epsilon", "mu"):
        if t in A.lines and t not in skip:
            for Z in (A, B):
                for l in Z.lines.get(t, []):
                    if len(l) > 6 and abs(abs(l[0]) - abs(l[1])) < 1e-5:
                        l[6] = 0       # the share of 'high' points of a homogeneous medium is decided by rounding
            cmp("stat-" + t, A.lines[t], B.lines.get(t, []), 2e-5, "printed statistics of " + t)
    phases = {}
    for k in range(nk):
        floor[0] = 1e-3
        fa, fb = one(A, ("f", k)), one(B, ("f", k))
        if not cmp("freqs", fa[0], fb[0], tolf if min(fa[0]) > 1e-3 else max(tolf, 1e-5), "freqs at k %d" % k):
            return
        cmp("kidx", [fa[2]] + fa[1], [fb[2]] + fb[1], 1e-12, "k and its number")
        f = fa[0]
        G = groups(f, gaptol)
        # the last group may be cut
        last_cut = G[-1]
        ga, gb = one(A, ("gv", k)), one(B, ("gv", k))
        pa, pb = one(A, ("par", k)), one(B, ("par", k))
        for g in G:
            gap = min([abs(f[i] - f[j]) for i in g for j in range(nb) if j not in g] + [1.0])
            cut = g == last_cut and len(g) > 1
            if cut:
                continue
            single = len(g) == 1
            # the last band alone: its partner may be just above; judged as single only if not the last
            maybe = g == last_cut
            tol = (tolfld or 2e-4) if gap > 0.02 else 1e-3
            if min(f[i] for i in g) < 1e-3:
                continue
            floor[0] = 0.1
            V = lambda z: arr([z[0][i] for i in g]).sum(0)
            W = lambda z, c: arr([z[c][i] for i in g]).sum()
            if not maybe:
                cmp("gv", V(ga), V(gb), tol, "group velocities at k %d band %s" % (k, g))
                cmp("gvc", [W(ga, 1)], [W(gb, 1)], tol, "group velocity component at k %d band %s" % (k, g))
                if pa:
                    for c in (0, 1):
                        cmp("parity", [W(pa, c)], [W(pb, c)], tol, "%s parity at k %d band %s" % ("zy"[c], k, g))
            if maybe:
                continue
            if not single:
                for ty in "dh":
                    sa, sb = [sum_w([one(Z, ("W", k, i + 1, ty)) for i in g]) for Z in (A, B)]
                    for q, (x, y) in enumerate(zip(sa, sb)):
                        cmp("sum-" + ty, x, y, 5 * tol, "sum over degenerate bands %s at k %d of %s energies (%d)" % (g, k, ty, q))
                continue
            b = g[0] + 1
            what = "at k %d band %d" % (k, b)
            r.state("%s|%d|%d" % (tag, k, b))
            za, zb = arr(one(A, ("F", k, b, "d"))[0]).ravel(), arr(one(B, ("F", k, b, "d"))[0]).ravel()
            ov = np.vdot(za, zb)
            den = np.linalg.norm(za) * np.linalg.norm(zb)
            ph = ov / abs(ov) if abs(ov) > 0 else 1.0
            phases[(k, b)] = ph
            for ty in "dehb":
                xa, xb = one(A, ("F", k, b, ty)), one(B, ("F", k, b, ty))
                for q, nm in ((0, "Bloch field"), (1, "field between grid points")):
                    cmp("F-" + ty, arr(xa[q]) * ph, xb[q], tol, "%s %s %s" % (nm, ty, what))
                ia, ib = one(A, ("I", k, b, ty)), one(B, ("I", k, b, ty))
                for q in (0, 1):
                    cmp("I-%s%d" % (ty, q), [np.complex128(ia[q]) * ph], [ib[q]], 2 * tol, "integral %d over %s %s" % (q, ty, what))
                cmp("I-%s2" % ty, [ia[2]], [ib[2]], 2 * tol, "integral 2 over %s %s" % (ty, what))
            for ty in "dh":
                for q, (x, y) in enumerate(zip(one(A, ("W", k, b, ty)), one(B, ("W", k, b, ty)))):
                    if q == 0:
                        # real and imaginary parts depend on the phase of the state, their sums do not
                        x, y = [[z[0], z[1] + z[2], z[3] + z[4], z[5] + z[6]] for z in (x, y)]
                    cmp("W-%s%d" % (ty, q), x, y, 2 * tol, "%s energies (%d) %s" % (ty, q, what))
            for q, (x, y) in enumerate(zip(one(A, ("G", k, b)), one(B, ("G", k, b)))):
                cmp("G%d" % q, x, y, 2 * tol, "group velocity of one band (%d) %s" % (q, what))
            if "N" not in skip and k not in skip_n:
                cmp("N", one(A, ("N", k, b)), one(B, ("N", k, b)), 1e-9, "dominant plane wave " + what)
            for q, (x, y) in enumerate(zip(one(A, ("S", k, b)), one(B, ("S", k, b)))):
                cmp("S%d" % q, x, y, 20 * tol, "mapped field (%d) %s" % (q, what))
            cmp("X", one(A, ("X", k, b)), one(B, ("X", k, b)), 20 * tol, "loaded field " + what)
        floor[0] = 0.1
        ua, ub = np.array(one(A, ("U", k))[0]), np.array(one(B, ("U", k))[0])
        prev = one(A, ("f", max(0, k - 1)))[0]
        for g in G[:-1]:
            for h in groups(prev, gaptol)[:-1]:
                x, y = [np.sqrt((u[np.ix_(h, g)] ** 2).sum()) for u in (ua, ub)] if k else [np.sqrt((u[np.ix_(g, g)] ** 2).sum()) for u in (ua, ub)]
                if min(f[i] for i in g) < 1e-3 or min(prev[i] for i in h) < 1e-3:
                    continue
                cmp("U", [x], [y], 2e-3, "overlap of bands %s at k %d with bands %s before" % (g, k, h))
    if files:
        floor[0] = 0.1
        compare_files(r, tag, files[0], files[1], [one(A, ("f", k))[0] for k in range(nk)], phases, cmp, swapped)
    return phases


def sum_w(ws):
    """sum over a degenerate group of the additive parts of W rows (energy fractions are ratios of unit totals)"""
    out = []
    for c in range(1, len(ws[0])):
        out.append(sum(arr(w[c]) for w in ws))
    out.insert(0, sum(arr(w[0][:1]) for w in ws))
    return out


def swap(x):
    """the contents of an output file, with x and y exchanged (as the manual says of distributed runs)"""
    y = {}
    for n, a in x.items():
        if not isinstance(a, str):
            if n == "lattice vectors":
                a = a[[1, 0, 2]]
            elif n == "Bloch wavevector":
                a = a[[1, 0, 2]]
            else:
                a = a.reshape(a.shape + (1,) * (3 - a.ndim)).swapaxes(0, 1)
                a = a.reshape(a.shape[:1 if a.shape[2] == 1 and a.shape[1] == 1 else 2 if a.shape[2] == 1 else 3])
        y[n] = a
    return y


def compare_files(r, tag, da, db, freqs, phases, cmp, swapped=False):
    fa = sorted(f for f in os.listdir(da) if f.endswith(".h5"))
    fb = sorted(f for f in os.listdir(db) if f.endswith(".h5"))
    if fa != fb:
        r.fail("file-names", "%s: files %s instead of %s" % (tag, sorted(set(fb) - set(fa)), sorted(set(fa) - set(fb))))
        return
    for f in fa:
        m = re.search(r"\.k(\d+)\.b(\d+)", f)
        x, y = h5.readall(os.path.join(da, f)), h5.readall(os.path.join(db, f))
        x, y = [{n: a for n, a in z.items() if not n.endswith(".screwy")} for z in (x, y)]
        if swapped and not f.startswith("vecs"):
            x = swap(x)
        for z in (x, y):
            # hermitian builds also write the imaginary parts of the off-diagonal tensor components
            for n in [n for n in z if "epsilon" in f and n.endswith(".i") and n[:-2].startswith("epsilon")]:
                if (n not in x or n not in y):
                    if np.abs(z[n]).max() > 1e-12:
                        r.fail("file-sets", "%s: %s %s is not zero" % (tag, f, n))
                    del z[n]
        if f.startswith("vecs"):
            continue
        if set(x) != set(y):
            r.fail("file-sets", "%s: %s contains %s instead of %s" % (tag, f, sorted(y), sorted(x)))
            continue
        for n in x:
            if isinstance(x[n], str) or isinstance(y[n], str):
                if str(x[n]) != str(y[n]) and "freq" not in str(x[n]):
                    r.fail("file-text", "%s: %s %s is %r instead of %r" % (tag, f, n, y[n], x[n]))
                continue
            if x[n].shape != y[n].shape:
                r.fail("file-shape", "%s: %s %s has shape %s instead of %s" % (tag, f, n, y[n].shape, x[n].shape))
        r.op()
        if m:
            ph = phases.get((int(m.group(1)) - 1, int(m.group(2))))
            if ph is None:
                continue
        else:
            ph = 1
        names = set(n[:-2] for n in x if n.endswith(".r"))
        for n in x:
            if isinstance(x[n], str):
                continue
            if n[:-2] in names:
                continue
            cmp("file", x[n], y[n], 2e-3 if m and n == "data" else 1e-9, "file %s, %s" % (f, n))
        for n in names:
            if "flux" in f:
                cmp("file", x[n + ".r"] + 1j * x[n + ".i"], y[n + ".r"] + 1j * y[n + ".i"], 2e-3, "file %s, %s" % (f, n))
                continue
            cmp("file", ph * (x[n + ".r"] + 1j * x[n + ".i"]), y[n + ".r"] + 1j * y[n + ".i"], 2e-3, "file %s, %s" % (f, n))
