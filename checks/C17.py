#!/usr/bin/env python3-vt
"""C17: find-k returns the wavevectors of the frequency and restores the session.

For every structure, direction (with and without an origin), parity, band range, frequency, starting guess, bracket and tolerance
of the alphabet, find-k is called in a session with its own settings.  Reference bands on a dense lattice of k along the line
(separate runs) tell where each band passes the frequency: the k returned for each band must be such a place and lie in the
bracket; an error is accepted only where some band has no sign change in the bracket.  The band functions must see, once per band,
the state at the k returned, and the session must be as before."""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mpbbuild
import numpy as np
import ctl

TRI = [[math.sqrt(3) / 2, 0.5, 0], [math.sqrt(3) / 2, -0.5, 0], [0, 0, 1.0]]
STR = {
    # name: lattice script, geometry, parities, directions (origin, direction in the reciprocal basis), brackets
    "line": (ctl.lattice(None, (1, None, None)) + "(set! resolution 16)", [ctl.block((0.1, 0, 0), (0.4, 1e20, 1e20), 6)], ("TM", "NO-PARITY"), [(None, (1, 0, 0)), ((0.05, 0, 0), (2, 0, 0))]),
    "square": (ctl.lattice(None, (1, 1, None)) + "(set! resolution 8)", [ctl.cyl((0.05, 0.1, 0), 0.3, 5)], ("TM", "TE"), [(None, (1, 0, 0)), (None, (1, 2, 0)), ((0.1, 0.2, 0), (0, 3, 0)), ((0.2, 0.1, 0), (1, -1, 0))]),
    "tri": (ctl.lattice(TRI, (1, 1, None)) + "(set! resolution 8)", [ctl.cyl((0.0, 0.1, 0), 0.25, 8)], ("TM",), [(None, (1, 0, 0)), (None, (1, 1, 0)), ((0.1, 0.0, 0), (0, 1, 0))]),
    "guide": (ctl.lattice(None, (None, 2, None)) + "(set! resolution 8)", [ctl.block((0, 0.1, 0), (1e20, 0.8, 1e20), 9)], ("NO-PARITY", "TM", "TE"), [(None, (1, 0, 0)), (None, (0, 0, 1)), ((0.1, 0, 0), (0, 0, 1))]),
    "rods": (ctl.lattice(None, (1, 1, None)) + "(set! resolution 8)", [ctl.cyl((0, 0, 0), 0.3, 7)], ("TM", "TE"), [(None, (1, 0, 0)), ((0.1, 0.2, 0), (1, 1, 0))]),
    "mag": (ctl.lattice(None, (1, 1.4, None)) + "(set! resolution 6)", [ctl.cyl((0.05, 0.1, 0), 0.3, (4, 2))], ("TM",), [(None, (1, 0.5, 0))]),
    "cubic": (ctl.lattice(None, (1, 1, 1)) + "(set! resolution 5)", [ctl.sphere((0.02, 0.1, 0.05), 0.35, {"epsilon-diag": (4, 5, 6), "epsilon-offdiag": (0.3, 0.2, -0.1)})], ("NO-PARITY",), [(None, (1, 0.3, 0.2)), ((0.1, 0.05, 0), (0, 0, 1))]),
}
KMIN, KMAX, NK = 0.02, 0.46, 23
BANDS = [(1, 1), (1, 2), (2, 2), (2, 3), (1, 3), (3, 3), (1, 4)]


def setup(tier):
    for c in ("complex", "inv", "herm"):
        mpbbuild.build(c, what=("mpb",))


def base(name):
    l, g, _, _ = STR[name]
    return l + ctl.geometry(g) + "(set! tolerance 1e-8)"


DEFS = """
(define (kline orig dir m) (vector3+ orig (vector3-scale m (cartesian->reciprocal (unit-vector3 (reciprocal->cartesian dir))))))
(define log '())
(define (bf1 b) (get-dfield b)(set! log (cons (list 1 b num-bands (vector3-x current-k) (vector3-y current-k) (vector3-z current-k) (list-ref freqs (- b 1)) (car (compute-field-energy)) (compute-1-group-velocity-component (vector3 1 1 0) b)) log)))
(define (bf2 b) (get-bfield b)(set! log (cons (list 2 b num-bands (vector3-x current-k) (vector3-y current-k) (vector3-z current-k) (list-ref freqs (- b 1)) (car (compute-field-energy)) 0) log)))
(define (bf0) (set! log (cons (list 0 num-bands num-bands (vector3-x current-k) (vector3-y current-k) (vector3-z current-k) (list-ref freqs (- num-bands 1)) 1 0) log)))
(define (v3l v) (list (vector3-x v) (vector3-y v) (vector3-z v)))
"""


def cases(tier):
    th = tier == "thorough"
    for name in STR:
        for p in STR[name][2]:
            for di in range(len(STR[name][3])):
                if p != "NO-PARITY" and STR[name][3][di][1][2]:
                    continue
                for cfg in ("complex", "inv", "herm") if name == "rods" else ("complex",):
                    yield {"id": "%s-%s-%d-%s" % (name, p, di, cfg), "name": name, "p": p, "dir": di, "cfg": cfg, "full": th}
    yield {"id": "first-square", "name": "square", "p": "TM", "dir": 1, "cfg": "complex", "full": th, "first": True}
    for cfg in ("complex",):
        yield {"id": "homog-%s" % cfg, "kind": "homog", "cfg": cfg}


def dense(cfg, name, p, orig, d, nb=5):
    ks = np.linspace(KMIN, KMAX, NK)
    s = base(name) + DEFS + "(set! num-bands %d)(init-params %s true)\n(for-each (lambda (m) (solve-kpoint (kline %s %s m))(emit 'd m freqs)) '(%s))" % (
        nb, p, ctl.v3(orig), ctl.v3(d), " ".join("%r" % float(k) for k in ks))
    x = ctl.run(cfg, s)
    if not x.ok():
        return x
    return ks, np.array([f for _, f in x.by["d"]])


def crossings(ks, f, w, lo, hi):
    """the k in [lo, hi] where the interpolated band passes w; and the signs at the ends"""
    from scipy.interpolate import CubicSpline
    c = CubicSpline(ks, f)
    g = np.linspace(max(lo, ks[0]), min(hi, ks[-1]), 801)
    v = c(g) - w
    r = [g[i] - v[i] * (g[i + 1] - g[i]) / (v[i + 1] - v[i]) for i in range(len(g) - 1) if v[i] * v[i + 1] < 0]
    return r, v[0], v[-1]


def run_case(case, r):
    if case.get("kind") == "homog":
        return homog(case, r)
    name, p, cfg = case["name"], case["p"], case["cfg"]
    orig, d = STR[name][3][case["dir"]]
    o = orig or (0, 0, 0)
    D = dense(cfg, name, p, o, d)
    if not isinstance(D, tuple):
        return r.fail("died", "%s: dense bands: %s" % (case["id"], D.tail()))
    ks, F = D
    guesses = ["0.05", "0.24", "0.44"]
    calls = []
    brs = [(KMIN, KMAX), (KMIN, 0.3), (0.12, KMAX)]
    for (b1, b2), (lo, hi), fr in itertools.product(BANDS, brs, (0.1, 0.35, 0.6, 0.9)):
        w = float(F[0, b1 - 1] + fr * (F[-1, b1 - 1] - F[0, b1 - 1])) if (b1 + b2) % 2 == 0 else float(F.min(0)[b2 - 1] + fr * (F.max(0)[b2 - 1] - F.min(0)[b2 - 1]))
        pred = []
        for b in range(b1, b2 + 1):
            cr, v0, v1 = crossings(ks, F[:, b - 1], w, lo, hi)
            pred.append((cr, v0, v1))
        good = all(v0 < 0 < v1 and len(cr) == 1 for cr, v0, v1 in pred)
        some = all(cr for cr, _, _ in pred)
        if not good and (not some or not case["full"]) and not (b1 == b2 and some and lo == KMIN):
            continue
        for gi, g in enumerate(guesses):
            gl = float(g)
            if not lo <= gl <= hi:
                continue
            lst = "(list %s)" % " ".join(g for _ in range(b1, b2 + 1)) if (gi + b1) % 2 else g
            for tol in ((1e-2, 1e-5) if case["full"] else (1e-4,)):
                calls.append((b1, b2, lo, hi, w, lst, tol, pred, good))
    if not calls:
        return r.trace()
    kd = ctl.v3(d) if orig is None else "(%s %s %s)" % ("list" if case["dir"] % 2 else "cons", ctl.v3(orig), ctl.v3(d))
    for i in range(0, len(calls), 12):
        part = calls[i:i + 12]
        s = base(name) + DEFS + "(set! num-bands 7)(set! k-points (list (vector3 0.1 0.2 0.3) (vector3 0.4 0 0)))\n"
        if not case.get("first"):
            s += "(init-params %s true)(solve-kpoint (vector3 0.3 0.1 0))\n" % p
        for j, (b1, b2, lo, hi, w, g, tol, pred, good) in enumerate(part):
            funs = ("", "bf1", "bf2 bf1", "bf0 bf1", "bf1 bf0 bf2")[j % 5]
            s += "(set! log '())(define res (guard %d (lambda () (find-k %s %r %d %d %s %r %s %r %r %s))))(emit 'call %d num-bands (map v3l k-points) (if (list? res) res '()) (reverse log))(set! num-bands 7)(set! k-points (list (vector3 0.1 0.2 0.3) (vector3 0.4 0 0)))\n" % (
                j, p, w, b1, b2, kd, tol, g, lo, hi, funs, j)
            # independent frequencies at the k returned
            s += "(if (list? res) (begin (set! num-bands 5)(init-params %s true)(map (lambda (m) (solve-kpoint (kline %s %s m))(emit 'chk %d m freqs)) res)(set! num-bands 7)))\n" % (p, ctl.v3(o), ctl.v3(d), j)
        x = ctl.run(cfg, s, timeout=280)
        if not x.ok():
            r.fail("died", "%s: %s" % (case["id"], x.tail()))
            continue
        chk = {}
        for j, m, f in x.by.get("chk", []):
            chk.setdefault(j, []).append((m, f))
        err = {e[1]: e[2] for e in x.by.get("error", []) if len(e) > 2} if x.by.get("error") else {}
        errs = {}
        for e in x.by.get("error", []):
            errs[e[0]] = str(e[1:])
        rows = {y[0]: y[1:] for y in x.by["call"]}
        kv = [l for l in x.out.splitlines() if "kvals:" in l]
        okn = 0
        for j, (b1, b2, lo, hi, w, g, tol, pred, good) in enumerate(part):
            r.op()
            funs = ("", "bf1", "bf2 bf1", "bf0 bf1", "bf1 bf0 bf2")[j % 5].split()
            tag = "%s bands %d-%d omega %.6g from %s in [%g,%g] tolerance %g" % (case["id"], b1, b2, w, g, lo, hi, tol)
            nb, kp, res, log = rows[j]
            if not res:
                if good:
                    r.fail("error", "%s: no answer although every band passes the frequency once: %s" % (tag, errs.get(j, "?")))
                elif "bracket" not in errs.get(j, ""):
                    r.fail("other-error", "%s: %s" % (tag, errs.get(j, "?")))
                else:
                    r.info["not_bracketed"] = r.info.get("not_bracketed", 0) + 1
                continue
            r.state(tag)
            if nb != 7 or np.abs(np.array(kp) - [[.1, .2, .3], [.4, 0, 0]]).max() > 0:
                r.fail("session", "%s: afterwards num-bands is %s and k-points %s" % (tag, nb, kp))
            if len(res) != b2 - b1 + 1:
                r.fail("count", "%s: %d values" % (tag, len(res)))
                continue
            for b, k, (m, f), (cr, v0, v1) in zip(range(b1, b2 + 1), res, chk[j], pred):
                c = ks.searchsorted(k)
                slope = np.abs(np.gradient(F[:, b - 1], ks)).max()
                if not lo - 1e-9 <= k <= hi + 1e-9:
                    r.fail("bracket", "%s: band %d has k %g" % (tag, b, k))
                    continue
                e = abs(f[b - 1] - w)
                lim = 2 * tol * k * slope + 2e-6
                r.worst("frequency_error", e / lim)
                if not e <= lim:
                    r.fail("frequency", "%s: band %d at the k returned, %.8g, has frequency %.8g" % (tag, b, k, f[b - 1]))
                elif good and abs(k - cr[0]) > 1e-2:
                    r.fail("root", "%s: band %d: %g instead of %g" % (tag, b, k, cr[0]))
            # band functions
            want = {}
            for fn in funs:
                for b in range(b1, b2 + 1):
                    want.setdefault(b, []).append(int(fn[2]))
            got = {}
            for row in log:
                got.setdefault(row[1], []).append(row[0])
            if got != want:
                r.fail("functions", "%s: band functions called as %s instead of %s" % (tag, got, want))
                continue
            for fn, b, nb_, kx, ky, kz, fq, en, gv in log:
                kk = res[b - b1]
                kw = np.array(chkk(x, o, d, kk, name))
                if np.abs(np.array([kx, ky, kz]) - kw).max() > 1e-9:
                    r.fail("fun-k", "%s: band function of band %d sees k %s instead of %s" % (tag, b, (kx, ky, kz), kw))
                if abs(fq - chk[j][b - b1][1][b - 1]) > 1e-6:
                    r.fail("fun-freq", "%s: band function of band %d sees frequency %g instead of %g" % (tag, b, fq, chk[j][b - b1][1][b - 1]))
                if fn and abs(en - 1) > 1e-6:
                    r.fail("fun-field", "%s: band function of band %d sees energy %g" % (tag, b, en))
            okn += 1
        # the summary lines
        lines = [[float(v) for v in l.split(",")[1:]] for l in kv]
        wl = []
        for j, (b1, b2, lo, hi, w, g, tol, pred, good) in enumerate(part):
            if rows[j][2]:
                wl.append([w, b1, b2] + list(o) + list(chkk(x, (0, 0, 0), d, 1.0, name)) + rows[j][2])
        if len(lines) != len(wl) or any(len(a) != len(b) or np.abs(np.array(a) - b).max() > 1e-6 for a, b in zip(lines, wl)):
            r.fail("kvals", "%s: the kvals lines are %s instead of %s" % (case["id"], lines[:3], wl[:3]))
    r.trace()


_B = {"rods": np.eye(3), "line": np.eye(3), "square": np.eye(3), "cubic": np.eye(3), "tri": np.array(TRI), "guide": np.diag([1, 2, 1.0]), "mag": np.diag([1, 1.4, 1.0])}


def chkk(x, o, d, m, name):
    import ref
    G = ref.recip(_B[name])
    c = np.array(d, float) @ G
    u = c / np.linalg.norm(c)
    return np.array(o) + m * (u @ np.linalg.inv(G))


def homog(case, r):
    """a homogeneous medium, and find-k as the first operation of a session"""
    for n, dirs in ((1.0, (1, 0, 0)), (2.0, (0.3, 0.4, 0)), (1.5, (0, 1, 0))):
        for w in (0.02, 0.1, 0.2):
            s = ctl.lattice(None, (1, 1, None)) + "(set! resolution 6)(set! num-bands 3)(set! default-material (make dielectric (index %r)))(emit 'k (find-k TM %r 1 1 %s 1e-5 0.2 0.001 0.49))(emit 'n num-bands k-points)" % (n, w, ctl.v3(dirs))
            x = ctl.run(case["cfg"], s)
            r.op()
            tag = "homogeneous n=%g omega %g along %s" % (n, w, dirs)
            if n * w > .49:
                continue
            if not x.ok():
                r.fail("first", "%s: %s" % (tag, x.tail()))
                continue
            k = x.one("k")[0][0]
            r.state(tag)
            if abs(k - n * w) > 1e-5:
                r.fail("homog", "%s: k is %r instead of %r" % (tag, k, n * w))
            if x.one("n") != [3, []]:
                r.fail("session", "%s: num-bands and k-points are %s" % (tag, x.one("n")))
    r.trace()


if __name__ == "__main__":
    vf.Check("C17", "model_checking", cases, run_case, setup=setup,
             rule="every (structure, parity, direction, band range, bracket, frequency fraction, starting guess, list of band functions)",
             bounds="6 structures, 7 band ranges, 3 brackets, 4 frequency fractions, 3 guesses (scalar or list), tolerance 1e-4 (thorough 1e-2 and 1e-5)",
             assumptions=["where a band is not monotonic in the bracket, any place where it has the frequency is accepted, and so is the error that no bracket was found"]).main()
