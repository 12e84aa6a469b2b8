#!/usr/bin/env python3-vt
"""C11: the run driver covers every k and band function exactly once; gaps are true.

Part A ("split"): list-split for all lists x numbers of chunks x indices.   Part B ("gaps"): band ranges, gap list,
printed lines and retrieve-gap for every frequency pattern up to the bound.   Part C ("run"): real runs of every word of
band functions x list of k-points x chunk; the log of calls, the state they saw and everything recorded is compared with
what the documentation says, the frequencies with separate sessions.   Part D ("script"): the splitting script under
every completion order of the chunks and every set of failing chunks.   Part E ("names"): the named run functions."""
import os, sys, re, itertools, subprocess, time, math, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mpbbuild
import numpy as np
import ctl, scene


def setup(tier):
    for c in ("complex", "inv"):
        mpbbuild.build(c, what=("mpb",))
    mpbbuild.build("complex", what=("mpb", "split"))


K = {"a": (0.1, 0, 0), "b": (0.4, 0, 0), "c": (0.25, 0, 0), "0": (0, 0, 0)}
LISTS = ["", "a", "ab", "0b", "aba", "cab0", "bcab0"]
SPLITS = [(1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (4, 1), (4, 3), (7, 2), (7, 6), (2, 2)]
LET = ["T", "B", "C", "K", "Z", "D", "A"]      # band functions, see PRE
SC = {"complex": "slab1de", "inv": "slab1d"}


def cases(tier):
    yield {"id": "split", "kind": "split", "n": 13 if tier != "thorough" else 40, "num": 15 if tier != "thorough" else 45}
    for nb, nk, vmax in ([(1, 3, 3), (2, 1, 3), (2, 2, 3), (2, 3, 3), (3, 1, 3), (3, 2, 3), (3, 3, 2)] if tier != "thorough" else
                         [(1, 5, 4), (2, 2, 5), (2, 3, 4), (2, 4, 3), (3, 2, 5), (3, 3, 3), (3, 4, 2), (4, 3, 2)]):
        yield {"id": "gaps-%d-%d-%d" % (nb, nk, vmax), "kind": "gaps", "nb": nb, "nk": nk, "vmax": vmax}
    yield {"id": "retrieve", "kind": "retrieve"}
    for bs in (-11, 0, 1):
        yield {"id": "zero-%d" % bs, "kind": "zero", "bs": bs}
    for cfg in ("complex", "inv"):
        for L in LISTS:
            for nb in (0, 1, 3):
                depth = 2 if tier != "thorough" else 3
                if nb != 3 or len(L) > 4:
                    depth -= 1
                yield {"id": "run-%s-%s-%d" % (cfg, L or "none", nb), "kind": "run", "cfg": cfg, "L": L, "nb": nb, "depth": depth, "rand": False}
        for L in ("a", "cab0"):
            yield {"id": "runr-%s-%s" % (cfg, L), "kind": "run", "cfg": cfg, "L": L, "nb": 2, "depth": 1, "rand": True}
        yield {"id": "twice-%s" % cfg, "kind": "twice", "cfg": cfg}
        yield {"id": "names-%s" % cfg, "kind": "names", "cfg": cfg}
    for n in (1, 2, 3, 4) if tier != "thorough" else (1, 2, 3, 4, 5):
        yield {"id": "order-%d" % n, "kind": "order", "n": n}
    for n in (1, 2, 3):
        yield {"id": "fail-%d" % n, "kind": "failc", "n": n}
    for n in (1, 2, 3, 5, 7) if tier != "thorough" else range(1, 9):
        for L in ("cab0", "bcab0"):
            yield {"id": "assembled-%d-%s" % (n, L), "kind": "assembled", "n": n, "L": L}


# ---------------------------------------------------------------- A
def split(case, r):
    N, M = case["n"], case["num"]
    s = "(for-each (lambda (n) (for-each (lambda (num) (for-each (lambda (i) (emit 's n num i (list-split (iota n) num i))) (iota (+ num 3) -1))) (iota %d 1))) (iota %d))\n" % (M - 1, N)
    res = ctl.run("complex", s)
    if not res.ok():
        return r.fail("died", res.tail())
    got = {(n, num, i): parse_pair(c) for n, num, i, c in res.by["s"]}
    for n in range(N):
        for num in range(1, M):
            pos = 0
            out = []
            for i in range(num):
                st, ch = got[(n, num, i)]
                r.op()
                r.state("%d.%d.%d" % (n, num, i))
                if ch and st != pos:
                    r.fail("start", "list of %d in %d chunks: chunk %d starts at %s, is numbered from %s" % (n, num, i, pos, st))
                if not ch and n > 0 and st == 0:
                    r.fail("start-empty", "list of %d in %d chunks: empty chunk %d is numbered from 0 like the first" % (n, num, i))
                if len(ch) > -(-n // num):
                    r.fail("uneven", "list of %d in %d chunks: chunk %d has %d" % (n, num, i, len(ch)))
                pos += len(ch)
                out += ch
            if out != list(range(n)):
                r.fail("partition", "list of %d in %d chunks: the chunks together are %s" % (n, num, out))
            for i in (-1, num, num + 1):
                if got[(n, num, i)][1]:
                    r.fail("outside", "chunk %d of %d is %s" % (i, num, got[(n, num, i)]))
    r.trace()


def parse_pair(c):
    """(start . list) is written as (start e1 e2 ...)"""
    return c[0], list(c[1:])


# ---------------------------------------------------------------- B
def patterns(nb, nk, vmax):
    vs = list(itertools.combinations_with_replacement(range(vmax + 1), nb))
    return itertools.product(vs, repeat=nk)


def gaps(case, r):
    nb, nk, vmax = case["nb"], case["nk"], case["vmax"]
    pats = list(patterns(nb, nk, vmax))
    s = "(define ks (map (lambda (i) (vector3 i 0.5 0)) (iota %d)))\n" % nk
    s += "(define (doit pat) (let ((br (fold-left (lambda (b fk) (update-band-range-data b (car fk) (cdr fk))) '() (map cons pat ks))))\n"
    s += " (set! band-range-data br)(emit 'p pat)(output-band-range-data br)(let ((g (output-gaps br))) (emit 'g (map (lambda (x) (list (caar x) (cdar x) (cadr x) (cddr x))) br) g\n"
    s += "  (map retrieve-gap (iota (max 0 (- (length br) 1)) 1))))))\n"
    s += "".join("(doit '(%s))\n" % " ".join("(%s)" % " ".join("%.2f" % (v / 4 + 0.25) for v in f) for f in p) for p in pats)
    res = ctl.run("complex", s)
    if not res.ok() or len(res.by["g"]) != len(pats):
        return r.fail("died", res.tail())
    # the lines printed for each pattern
    blocks, cur = [], None
    for l in res.out.splitlines():
        if l.startswith("@@ (p "):
            cur = []
            blocks.append(cur)
        elif cur is not None and (l.startswith("Band ") or l.startswith("Gap ")):
            cur.append(l)
    for p, g, lines in zip(pats, res.by["g"], blocks):
        F = [[v / 4 + 0.25 for v in f] for f in p]
        judge_gaps(r, F, [(i, 0.5, 0) for i in range(nk)], g[0], g[1], lines, str(p))
        want = [200 * (min(f[b + 1] for f in F) - max(f[b] for f in F)) / (min(f[b + 1] for f in F) + max(f[b] for f in F)) for b in range(nb - 1)]
        r.op()
        r.state(str(p))
        if len(want) != len(g[2]) or (want and np.abs(np.array(want) - np.array(g[2], float)).max() > 1e-9):
            r.fail("retrieve", "%s: retrieve-gap %s instead of %s" % (p, g[2], want))
    r.trace()


NUMRE = r"([-+0-9.e]+)"


def judge_gaps(r, F, ks, br, gl, lines, what, tol=0.0):
    """F[k][b]; br rows (min k max k); gl list of (percent f1 f2)"""
    nb = len(F[0]) if F else 0
    if len(br) != nb:
        return r.fail("ranges", "%s: ranges for %d bands instead of %d" % (what, len(br), nb))
    for b in range(nb):
        col = [f[b] for f in F]
        mn, mx = min(col), max(col)
        bmin, kmin, bmax, kmax = br[b]
        if abs(bmin - mn) > tol or abs(bmax - mx) > tol:
            r.fail("ranges", "%s: band %d range %s to %s instead of %s to %s" % (what, b + 1, bmin, bmax, mn, mx))
        for v, kk, x in ((mn, kmin, "minimum"), (mx, kmax, "maximum")):
            kk = parse_vec(kk)
            at = [ks[i] for i in range(len(ks)) if abs(col[i] - v) <= tol]
            if not any(np.abs(np.array(kk) - np.array(a)).max() < 1e-12 for a in at):
                r.fail("range-k", "%s: band %d has its %s at %s, reported %s" % (what, b + 1, x, at, kk))
    want = []
    for b in range(nb - 1):
        lo, hi = max(f[b] for f in F), min(f[b + 1] for f in F)
        if hi - lo > tol:
            want.append((200 * (hi - lo) / (hi + lo), lo, hi, b + 1))
    g2 = [tuple(x) for x in gl]
    if len(g2) != len(want) and not (tol and abs(len(g2) - len(want)) and any(abs(max(f[b] for f in F) - min(f[b + 1] for f in F)) < 1e-5 for b in range(nb - 1))):
        return r.fail("gap-list", "%s: gaps %s instead of %s" % (what, g2, want))
    if len(g2) == len(want):
        for a, w in zip(g2, want):
            if np.abs(np.array(a, float) - np.array(w[:3])).max() > max(1e-9, 500 * tol):
                r.fail("gap-list", "%s: gaps %s instead of %s" % (what, g2, want))
    if lines is None:
        return
    bl = [l for l in lines if l.startswith("Band ")]
    gp = [l for l in lines if l.startswith("Gap ")]
    if len(bl) != nb:
        r.fail("range-lines", "%s: %d 'Band' lines for %d bands" % (what, len(bl), nb))
    for i, l in enumerate(bl):
        m = re.match(r"Band (\d+) range: %s at .* to %s at " % (NUMRE, NUMRE), l)
        if not m or int(m.group(1)) != i + 1 or abs(float(m.group(2)) - br[i][0]) > 1e-9 or abs(float(m.group(3)) - br[i][2]) > 1e-9:
            r.fail("range-lines", "%s: line %s does not say %s" % (what, l, br[i]))
    if len(gp) != len(g2):
        r.fail("gap-lines", "%s: %d 'Gap' lines for %d gaps" % (what, len(gp), len(g2)))
    for l, w in zip(gp, want if len(want) == len(g2) else []):
        m = re.match(r"Gap from band (\d+) \(%s\) to band (\d+) \(%s\), %s%%" % (NUMRE, NUMRE, NUMRE), l)
        if not m or int(m.group(1)) != w[3] or int(m.group(3)) != w[3] + 1 or abs(float(m.group(2)) - w[1]) > max(1e-9, tol) or abs(float(m.group(4)) - w[2]) > max(1e-9, tol) \
                or abs(float(m.group(5)) - w[0]) > max(1e-6, 500 * tol):
            r.fail("gap-lines", "%s: line %s does not say %s" % (what, l, w))


def parse_vec(k):
    # a vector3 is written #(x y z), read back as a list; an unset k is -1
    return tuple(k) if isinstance(k, (list, tuple)) else (float("nan"),) * 3


def retrieve(case, r):
    s = "(define (br l) (map (lambda (x) (cons (cons (car x) (vector3 0)) (cons (cdr x) (vector3 0.1)))) l))\n"
    for n in range(5):
        s += "(set! band-range-data (br '(%s)))" % " ".join("(%s . %s)" % (0.1 + i * 0.2, 0.2 + i * 0.25) for i in range(n))
        for b in range(0, n + 2):
            s += "(catch #t (lambda () (emit 'v %d %d (retrieve-gap %d))) (lambda e (emit 'e %d %d)))\n" % (n, b, b, n, b)
    res = ctl.run("complex", s)
    if not res.ok():
        return r.fail("died", res.tail())
    vals = {(n, b): v for n, b, v in res.by.get("v", [])}
    for n in range(5):
        for b in range(0, n + 2):
            r.op()
            r.state("%d.%d" % (n, b))
            if 1 <= b < n:
                hi, lo = 0.1 + b * 0.2, 0.2 + (b - 1) * 0.25
                w = 200 * (hi - lo) / (hi + lo)
                if (n, b) not in vals or abs(vals[(n, b)] - w) > 1e-9:
                    r.fail("retrieve", "retrieve-gap %d of %d bands gives %s instead of %s" % (b, n, vals.get((n, b)), w))
            elif (n, b) in vals:
                r.fail("retrieve-none", "retrieve-gap %d with %d bands gives %s" % (b, n, vals[(n, b)]))
    r.trace()


def zero(case, r):
    """no bands asked for: nothing is solved and no result of an earlier k point is returned"""
    for cfg in ("complex", "inv"):
        s = scene.BY["slab1d"].script() + "(set! eigensolver-block-size %d)(set! num-bands 0)(init-params NO-PARITY true)(solve-kpoint (vector3 0.1 0 0))(emit 'z freqs iterations)(get-epsilon)(emit 'e (get-epsilon-point (vector3 0)))\n" % case["bs"]
        s += "(set! num-bands 2)(init-params TE true)(solve-kpoint (vector3 0.1 0 0))(emit 'n (length freqs) parity)(set! num-bands 0)(init-params TM true)(solve-kpoint (vector3 0.2 0 0))(emit 'z freqs iterations)(get-epsilon)(emit 'e (get-epsilon-point (vector3 0)))\n"
        res = ctl.run(cfg, s)
        r.op(2)
        r.state(cfg)
        if not res.ok() or len(res.by.get("e", [])) != 2:
            return r.fail("zero-bands", "no bands: %s" % res.tail())
        if any(z != [[], 0] for z in res.by["z"]) or res.one("n") != [2, "te"] or any(abs(e[0] - 9) > 1e-9 for e in res.by["e"]):
            r.fail("zero-bands", "no bands: freqs and iterations %s, then %s" % (res.by["z"], res.one("n")))
    r.trace()


# ---------------------------------------------------------------- C
PRE = r"""
(define (st) (list (vector3-x current-k) (get-kpoint-index) freqs num-bands))
(define (obs b) (get-dfield b) (compute-field-energy) (list (compute-energy-in-dielectric 1.5 100) (list-ref freqs (- b 1))))
(define (T) (emit 'c 'T (st)))
(define (B b) (emit 'c 'B b (st) (obs b)))
(define (A b) (emit 'c 'A b (st) (compute-1-group-velocity-component (vector3 1 0 0) b)))
(define (Z) (emit 'c 'Z (st) (compute-group-velocity-component (vector3 1 0 0))))
(define (T2) (emit 'c 'T2 (st)))
(define (B2 b) (emit 'c 'B2 b (st)))
(define C (combine-band-functions T2 B2))
(define (T3) (emit 'c 'T3 (st)))
(define (B3 b) (emit 'c 'B3 b (st)))
(define Kf (output-at-kpoint (vector3 %s 0 0) B3 T3))
(define (T4) (emit 'c 'T4 (st)))
(define (B4 b) (emit 'c 'B4 b (st)))
(define D (combine-band-functions (output-dpwr-in-objects B4 DMIN %s) (output-dpwr-in-objects T4 DMIN %s)))
(define (after tag) (emit 'after tag (st) all-freqs (map (lambda (x) (list (caar x) (cdar x) (cadr x) (cddr x))) band-range-data) gap-list eigensolver-iters
   k-points (file-exists? "job-epsilon.h5")) (if (file-exists? "job-epsilon.h5") (delete-file "job-epsilon.h5")))
"""
NAME = {"T": "T", "B": "B", "C": "C", "K": "Kf", "Z": "Z", "D": "D", "A": "A"}


def reference(cfg, nb):
    """frequencies and observables at each k, from a session of its own per k (plain init-params / solve-kpoint)"""
    sc = scene.BY[SC[cfg]]
    out = {}
    obj = sc.objs[0]
    for x, k in K.items():
        s = sc.script() + "(set! num-bands %d)(set! deterministic? true)(set! tolerance 1e-9)\n(init-params NO-PARITY true)(solve-kpoint %s)\n" % (nb, ctl.v3(k))
        s += "(emit 'f freqs)(emit 'v (compute-group-velocity-component (vector3 1 0 0)))(map (lambda (b) (get-dfield b)(compute-field-energy)(emit (quote o) (compute-energy-in-dielectric 1.5 100))(emit 'd (compute-energy-in-objects %s))) (iota num-bands 1))\n" % obj
        res = ctl.run(cfg, s)
        if not res.ok():
            raise ctl.Died(res.tail())
        out[x] = {"f": res.one("f")[0], "v": res.one("v")[0], "o": [q[0] for q in res.by["o"]], "d": [q[0] for q in res.by["d"]]}
    return out


def words(depth):
    for d in range(depth + 1):
        yield from itertools.product(LET, repeat=d)


def calls_at(word, ref, nb, kx, kpt, dmin):
    """the calls expected at one k point: (name, band or None)"""
    out = []
    for w in word:
        if w in ("T", "Z"):
            out.append((w, None))
        elif w in ("B", "A"):
            out += [(w, b) for b in range(1, nb + 1)]
        elif w == "C":
            for b in range(1, nb + 1):
                if b == 1:
                    out.append(("T2", None))
                out.append(("B2", b))
        elif w == "K":
            if kx == kpt:
                for b in range(1, nb + 1):
                    out.append(("B3", b))
                    if b == 1:
                        out.append(("T3", None))
        elif w == "D":
            for b in range(1, nb + 1):
                if ref[kx]["d"][b - 1] >= dmin:
                    out.append(("B4", b))
                    if b == 1:
                        out.append(("T4", None))
    return out


def prescript(cfg, kx, dmin):
    sc = scene.BY[SC[cfg]]
    return PRE.replace("DMIN", repr(dmin)) % (K[kx][0], sc.objs[0], sc.objs[0])


def run(case, r):
    cfg, L, nb = case["cfg"], case["L"], case["nb"]
    sc = scene.BY[SC[cfg]]
    ref = reference(cfg, nb) if nb else {x: {"f": [], "v": [], "o": [], "d": []} for x in K}
    ds = sorted(x for q in ref.values() for x in q["d"])
    # a threshold in the widest space between the energies occurring
    dmin = 0.5
    if len(ds) > 1:
        i = max(range(len(ds) - 1), key=lambda i: ds[i + 1] - ds[i])
        dmin = (ds[i] + ds[i + 1]) / 2
    kx = (L + "b")[len(L) // 2]
    s = sc.script() + "(set! num-bands %d)(set! deterministic? true)(set! tolerance 1e-9)\n" % nb
    s += prescript(cfg, kx, dmin)
    if case["rand"]:
        s += "(set! randomize-fields? true)"
    s += "(set! k-points %s)\n" % ctl.klist([K[x] for x in L])
    plan = []
    for w in words(case["depth"]):
        for num, idx in (SPLITS if len(w) < 2 else SPLITS[:1] + [SPLITS[4]]):
            plan.append((w, num, idx))
            s += "(set! k-split-num %d)(set! k-split-index %d)(emit 'start %d)(run %s)(after %d)\n" % (num, idx, len(plan) - 1, " ".join(NAME[x] for x in w), len(plan) - 1)
            if case["rand"]:
                # what the states are after a run with randomize-fields?: no longer the solutions
                if w == () and idx == 0:
                    s += "(if (and (> num-bands 0) (> (get-kpoint-index) 0)) (begin (get-dfield 1) (compute-field-energy) (emit (quote rand) %d (compute-energy-in-dielectric 1.5 100))))\n" % (len(plan) - 1)
    res = ctl.run(cfg, s, timeout=280)
    if not res.ok() or len(res.by.get("after", [])) != len(plan):
        return r.fail("died", res.tail())
    judge_runs(case, r, res, plan, L, nb, ref, kx, dmin)
    r.trace()


def closev(a, b, tol=2e-5):
    return len(a) == len(b) and all(abs(x - y) <= tol for x, y in zip(a, b))


def chunk(L, num, idx):
    n = len(L)
    if idx < 0 or idx >= num:
        return n, ""
    bs = -(-n // num)
    return idx * bs, L[idx * bs:(idx + 1) * bs]


def judge_runs(case, r, res, plan, L, nb, ref, kx, dmin):
    ev = []
    lines = []
    cur, cl = None, None
    for l in res.out.splitlines():
        i = l.find("@@ (")
        if i >= 0:
            x = ctl.sexp(l[i + 3:])
            if x[0] == "start":
                cur, cl = [], []
                ev.append(cur)
                lines.append(cl)
            elif x[0] == "c" and cur is not None:
                cur.append(x[1:])
            elif x[0] == "after":
                cur.append(["after"] + x[1:])
        elif cl is not None and (l.startswith("Band ") or l.startswith("Gap ") or l.startswith("dpwr:")):
            cl.append(l)
    flines = [l for l in res.out.splitlines() if re.match(r"freqs:, \d", l)]
    exp_lines = []
    its = 0
    for (w, num, idx), e, ll in zip(plan, ev, lines):
        tag = "run %s chunk %d of %d of '%s'" % ("".join(w), idx, num, L)
        start, ch = chunk(L, num, idx)
        if nb == 0:
            ch_ = ""
        else:
            ch_ = ch
        aft = e[-1]
        got = e[:-1]
        want = []
        for i, x in enumerate(ch_):
            exp_lines.append((start + i + 1, K[x], ref[x]["f"], tag))
            for name, b in calls_at(w, ref, nb, x, kx, dmin):
                want.append((name, b, x, start + i + 1))
        r.op()
        r.state(tag)
        seq_got = [(g[0], g[1] if len(g) > 1 and isinstance(g[1], int) else None) for g in got]
        if seq_got != [(a, b) for a, b, _, _ in want]:
            r.fail("calls", "%s: band functions called %s instead of %s" % (tag, seq_got, [(a, b) for a, b, _, _ in want]))
            continue
        for g, (name, b, x, ki) in zip(got, want):
            st = next(q for q in g[1:] if isinstance(q, list))
            if abs(st[0] - K[x][0]) > 1e-12 or st[1] != ki or st[3] != nb:
                r.fail("state-k", "%s: %s %s saw k %s number %s with %s bands instead of %s number %s with %d" % (tag, name, b, st[0], st[1], st[3], K[x][0], ki, nb))
            if not closev(st[2], ref[x]["f"]):
                r.fail("state-freqs", "%s: %s %s at %s saw freqs %s instead of %s" % (tag, name, b, x, st[2], ref[x]["f"]))
            rest = g[-1]
            if name == "B" and not deg(ref[x]["f"], b):
                if not closev(rest, [ref[x]["o"][b - 1], ref[x]["f"][b - 1]], 1e-4):
                    r.fail("state-field", "%s: %s %s at %s saw %s instead of %s" % (tag, name, b, x, rest, [ref[x]["o"][b - 1], ref[x]["f"][b - 1]]))
            if name == "A" and not deg(ref[x]["f"], b) and abs(rest - ref[x]["v"][b - 1]) > 2e-3:
                r.fail("state-field", "%s: %s %s at %s saw velocity %s instead of %s" % (tag, name, b, x, rest, ref[x]["v"][b - 1]))
            if name == "Z" and len(set(np.round(ref[x]["f"], 4))) == nb and not closev(rest, ref[x]["v"], 2e-3):
                r.fail("state-field", "%s: %s at %s saw velocities %s instead of %s" % (tag, name, x, rest, ref[x]["v"]))
        # dpwr lines
        dl = [l for l in ll if l.startswith("dpwr:")]
        wd = [(b, ref[x]["f"][b - 1], ref[x]["d"][b - 1]) for x in ch_ for c in w if c == "D" for b in range(1, nb + 1) for _ in (0, 1)]
        if len(dl) != len(wd):
            r.fail("dpwr", "%s: %d dpwr lines instead of %d" % (tag, len(dl), len(wd)))
        else:
            for l, (b, f, d) in zip(dl, wd):
                q = [float(z) for z in l.split(",")[1:]]
                if q[0] != b or abs(q[1] - f) > 2e-5 or (abs(q[2] - d) > 1e-4 and f > 1e-3):
                    r.fail("dpwr", "%s: %s instead of %s" % (tag, l, (b, f, d)))
        _, _, st, allf, br, gl, iters, kp, eps = aft
        if len(allf) != len(ch_) or any(not closev(a, ref[x]["f"]) for a, x in zip(allf, ch_)):
            r.fail("all-freqs", "%s: all-freqs %s instead of %s" % (tag, allf, [ref[x]["f"] for x in ch_]))
            continue
        its += len(ch_)
        if len(iters) != its:
            r.fail("iters", "%s: statistics of %d solves instead of %d" % (tag, len(iters), its))
        if len(kp) != len(L):
            r.fail("k-points", "%s: changed k-points to %s" % (tag, kp))
        if bool(eps) != (start == 0):
            r.fail("epsilon", "%s: dielectric function %swritten by the chunk starting at %d" % (tag, "" if eps else "not ", start))
        if st[1] != start + len(ch_):
            r.fail("index-after", "%s: k number %s after the run instead of %d" % (tag, st[1], start + len(ch_)))
        multi = len(ch_) > 1
        if multi:
            judge_gaps(r, allf, [K[x] for x in ch_], br, gl, [l for l in ll if not l.startswith("dpwr")], tag)
        else:
            if ch_:
                judge_gaps(r, allf, [K[x] for x in ch_], br, [], None, tag) if False else None
            if gl:
                r.fail("stale-gaps", "%s: gap-list %s after a run over %d k-points" % (tag, gl, len(ch_)))
            if len(br) != (nb if ch_ else 0):
                r.fail("stale-ranges", "%s: ranges of %d bands after a run over %d k-points" % (tag, len(br), len(ch_)))
            if [l for l in ll if not l.startswith("dpwr")]:
                r.fail("range-lines", "%s: range lines for %d k-points: %s" % (tag, len(ch_), ll[:2]))
    if len(flines) != len(exp_lines):
        r.fail("freqs-lines", "%d freqs: lines instead of %d" % (len(flines), len(exp_lines)))
    else:
        G = scene.BY[SC[case["cfg"]]].G
        for l, (i, k, f, tag) in zip(flines, exp_lines):
            q = [float(z) for z in l.split(",")[1:]]
            kc = np.linalg.norm(np.array(k) @ G)
            if q[0] != i or np.abs(np.array(q[1:4]) - k).max() > 1e-6 or not closev(q[5:], f, 3e-5 * max([1] + list(f))) or abs(q[4] - kc) > 1e-5 * max(1, kc):
                r.fail("freqs-lines", "%s: line %s instead of number %d k %s freqs %s" % (tag, l, i, k, f))
    if case.get("rand"):
        for n, v in res.by.get("rand", []):
            w, num, idx = plan[n]
            ch = chunk(L, num, idx)[1]
            if ch and abs(v - ref[ch[-1]]["o"][0]) < 1e-6:
                r.fail("not-randomized", "randomize-fields? true left the solution in place after the run")


def deg(f, b):
    return any(abs(f[i] - f[b - 1]) < 1e-4 for i in range(len(f)) if i != b - 1)


def twice(case, r):
    """every ordered pair of (list, bands) settings in one session: nothing recorded is left over from the first run"""
    cfg = case["cfg"]
    sc = scene.BY[SC[cfg]]
    refs = {nb: reference(cfg, nb) for nb in (1, 2, 3)}
    refs[0] = {x: {"f": []} for x in K}
    sets = [(L, nb) for L in ("", "a", "ab", "cab0") for nb in (0, 1, 3)] + [("bc", 2)]
    s = sc.script() + "(set! deterministic? true)(set! tolerance 1e-9)\n" + prescript(cfg, "b", 0.5)
    plan = []
    for a, b in itertools.product(range(len(sets)), repeat=2):
        for i in (a, b):
            L, nb = sets[i]
            s += "(set! num-bands %d)(set! k-points %s)(emit 'start 0)(run T)(after 0)\n" % (nb, ctl.klist([K[x] for x in L]))
            plan.append((L, nb))
    res = ctl.run(cfg, s, timeout=280)
    if not res.ok() or len(res.by.get("after", [])) != len(plan):
        return r.fail("died", res.tail())
    prev = None
    for (L, nb), aft in zip(plan, res.by["after"]):
        _, st, allf, br, gl, iters, kp, eps = aft
        ch = L if nb else ""
        tag = "run of '%s' with %d bands after %s" % (L, nb, prev)
        prev = (L, nb)
        r.op()
        r.state(tag)
        if len(allf) != len(ch) or any(not closev(a, refs[nb][x]["f"]) for a, x in zip(allf, ch)):
            r.fail("all-freqs", "%s: all-freqs %s" % (tag, allf))
            continue
        if len(ch) > 1:
            judge_gaps(r, allf, [K[x] for x in ch], br, gl, None, tag)
        elif gl or len(br) != (nb if ch else 0):
            r.fail("stale-gaps", "%s: gap-list %s, ranges of %d bands" % (tag, gl, len(br)))
    r.trace()


RUNS = {"run": ("NO-PARITY", ""), "run-zeven": ("EVEN-Z", "zeven"), "run-zodd": ("ODD-Z", "zodd"), "run-yeven": ("EVEN-Y", "yeven"), "run-yodd": ("ODD-Y", "yodd"),
        "run-yeven-zeven": ("(+ EVEN-Y EVEN-Z)", "yevenzeven"), "run-yeven-zodd": ("(+ EVEN-Y ODD-Z)", "yevenzodd"), "run-yodd-zeven": ("(+ ODD-Y EVEN-Z)", "yoddzeven"),
        "run-yodd-zodd": ("(+ ODD-Y ODD-Z)", "yoddzodd"), "run-even": ("EVEN-Z", "zeven"), "run-odd": ("ODD-Z", "zodd"), "run-te": ("EVEN-Z", "te"), "run-tm": ("ODD-Z", "tm"),
        "run-te-yeven": ("(+ EVEN-Y EVEN-Z)", "teyeven"), "run-te-yodd": ("(+ ODD-Y EVEN-Z)", "teyodd"), "run-tm-yeven": ("(+ EVEN-Y ODD-Z)", "tmyeven"),
        "run-tm-yodd": ("(+ ODD-Y ODD-Z)", "tmyodd")}
NUMPAR = {"NO": 0, "EZ": 1, "OZ": 2, "EY": 4, "OY": 8}


def names(case, r):
    """every named run function = the parity it names, checked against the parities of the states it returns"""
    cfg = case["cfg"]
    for name in ("rods2d", "cube3d"):
        sc = scene.BY[name]
        s = sc.script() + "(set! num-bands 3)(set! deterministic? true)(set! tolerance 1e-7)(set! k-points (list (vector3 0.3 0 0)))\n"
        for fn in RUNS:
            s += "(%s (lambda () (emit 'n '%s freqs (get-parity-string) (compute-zparities) (compute-yparities))))\n" % (fn, fn)
        s = s.replace("(get-parity-string)", "parity")
        res = ctl.run(cfg, s, timeout=200)
        if not res.ok() or len(res.by.get("n", [])) != len(RUNS):
            return r.fail("died", res.tail())
        for fn, f, par, zp, yp in res.by["n"]:
            p = RUNS[fn][0]
            r.op()
            r.state(name + fn)
            wz = 1 if "EVEN-Z" in p else -1 if "ODD-Z" in p else None
            wy = 1 if "EVEN-Y" in p else -1 if "ODD-Y" in p else None
            if wz is not None and max(abs(x - wz) for x in zp) > 1e-6:
                r.fail("run-parity", "%s %s: z parities %s" % (name, fn, zp))
            if wy is not None and max(abs(x - wy) for x in yp) > 1e-6:
                r.fail("run-parity", "%s %s: y parities %s" % (name, fn, yp))
            if wz is None and wy is None and len(set(np.sign(zp))) < 2 and name == "rods2d":
                r.fail("run-parity", "%s %s: all states of one parity %s" % (name, fn, zp))
    r.trace()


# ---------------------------------------------------------------- D
STUB = """#!/bin/bash
# stands in for mpb: announces itself, waits to be released, prints its chunk and exits as told
for a in "$@"; do case "$a" in k-split-index=*) i=${a#*=};; k-split-num=*) n=${a#*=};; esac; done
printf '%s\\n' "$@" > args.$i.$$
echo x > started.$i.$$
c=0
while ! test -e go.$i; do sleep 0.01; c=$((c+1)); if test $c -gt 3000; then exit 77; fi; done
echo "chunk $i of $n begins"
echo "chunk $i of $n ends"
echo x > done.$i.$$
if test -e fail.$i; then exit 3; fi
exit 0
"""


def launch(d, n, extra, order, failing):
    with open(d + "/mpb", "w") as f:
        f.write(STUB)
    os.chmod(d + "/mpb", 0o755)
    for i in failing:
        open("%s/fail.%d" % (d, i), "w").close()
    with open(d + "/out", "wb") as fo, open(d + "/err", "wb") as fe:
        p = subprocess.Popen(["/bin/bash", mpbbuild.Config("complex").split, str(n)] + extra, cwd=d, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, start_new_session=True)
        import glob
        def wait(cond):
            t = time.time()
            while not cond():
                if time.time() - t > 20:
                    return False
                time.sleep(0.003)
            return True
        ok = wait(lambda: all(glob.glob("%s/started.%d.*" % (d, i)) for i in range(n)) or p.poll() is not None)
        time.sleep(0.02)
        for i in order:
            open("%s/go.%d" % (d, i), "w").close()
            wait(lambda: len(glob.glob("%s/done.%d.*" % (d, i))) >= max(1, len(glob.glob("%s/started.%d.*" % (d, i)))) or p.poll() is not None)
        try:
            rc = p.wait(timeout=30)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            rc = "timeout"
    left = glob.glob("/tmp/mpb-split.%d.*" % p.pid)
    for f in left:
        os.unlink(f)
    starts = {i: len(glob.glob("%s/started.%d.*" % (d, i))) for i in range(n + 1)}
    args = {i: [open(x).read().split("\n")[:-1] for x in glob.glob("%s/args.%d.*" % (d, i))] for i in range(n)}
    return rc, open(d + "/out").read(), open(d + "/err").read(), starts, args, left


def script_case(r, n, extra, order, failing):
    tag = "%d chunks finishing in order %s%s" % (n, order, " with %s failing" % (failing,) if failing else "")
    with ctl.Scratch() as d:
        rc, out, err, starts, args, left = launch(d, n, extra, order, failing)
    r.op()
    r.state(tag)
    want = "".join("chunk %d of %d begins\nchunk %d of %d ends\n" % (i, n, i, n) for i in range(n))
    for i in range(n):
        if starts[i] != 1:
            r.fail("launched", "%s: chunk %d was run %d times" % (tag, i, starts[i]))
        for a in args[i]:
            if a[-len(extra):] != extra if extra else False:
                r.fail("arguments", "%s: mpb was given %s instead of %s" % (tag, a, extra))
            if not any(x.startswith("k-split-num=") and x == "k-split-num=%d" % n for x in a):
                r.fail("arguments", "%s: mpb was given %s" % (tag, a))
    if starts.get(n):
        r.fail("launched", "%s: a chunk %d was run" % (tag, n))
    if not failing and out != want:
        r.fail("output", "%s: output %r instead of %r" % (tag, out, want))
    if failing and [l for l in want.splitlines() if out.splitlines().count(l) > 1]:
        r.fail("output", "%s: output %r" % (tag, out))
    if (rc != 0) != bool(failing):
        r.fail("status", "%s: exit status %s" % (tag, rc))
    if left:
        r.fail("leftover", "%s: left %s" % (tag, left))


def order(case, r):
    n = case["n"]
    for o in itertools.permutations(range(n)):
        script_case(r, n, ["resolution=3", "filename-prefix=\"a b\"", "job.ctl"], list(o), ())
    r.trace()


def failc(case, r):
    n = case["n"]
    for m in range(1, 2 ** n):
        for o in itertools.permutations(range(n)):
            script_case(r, n, ["job.ctl"], list(o), [i for i in range(n) if m >> i & 1])
    r.trace()


def assembled(case, r):
    """the real program: the assembled output has the same lines of results as one serial run"""
    sc = scene.BY["slab1de"]
    n, L = case["n"], case["L"]
    s = sc.script() + "(set! num-bands 3)(set! deterministic? true)(set! tolerance 1e-9)(set! k-points %s)\n" % ctl.klist([K[x] for x in L])
    s += "(run (lambda (b) (get-dfield b) (compute-field-energy) (print \"res:, \" (get-kpoint-index) \", \" b \", \" (compute-energy-in-dielectric 1.5 100) \"\\n\")))\n"
    outs = []
    for m in (0, n):
        with ctl.Scratch() as d:
            with open(d + "/job.ctl", "w") as f:
                f.write(ctl.PRELUDE + s)
            if m == 0:
                p = subprocess.run([mpbbuild.Config("complex").mpb, "job.ctl"], cwd=d, env=mpbbuild.env(), stdin=subprocess.DEVNULL, capture_output=True, text=True)
            else:
                os.symlink(mpbbuild.Config("complex").mpb, d + "/mpb")
                p = subprocess.run(["/bin/bash", mpbbuild.Config("complex").split, str(m), "job.ctl"], cwd=d, env=mpbbuild.env(), stdin=subprocess.DEVNULL, capture_output=True, text=True)
            if p.returncode != 0:
                return r.fail("died", "%d chunks: exit status %s\n%s\n%s" % (m, p.returncode, p.stdout[-500:], p.stderr[-500:]))
            outs.append((p.stdout, os.path.exists(d + "/job-epsilon.h5")))
    pick = lambda o, t: [[float(x) for x in l.split(",")[1:]] for l in o.splitlines() if re.match(t + r":, \d", l)]
    for t, tol in (("freqs", 1e-5), ("res", 1e-4)):
        a, b = pick(outs[0][0], t), pick(outs[1][0], t)
        r.op(len(a))
        r.state("%s%s%d" % (L, t, n))
        if len(a) != len(b) or any(len(x) != len(y) or np.abs(np.array(x) - np.array(y)).max() > tol for x, y in zip(a, b)):
            r.fail("assembled", "%d chunks: %s lines %s instead of %s" % (n, t, b, a))
    if outs[0][1] != outs[1][1]:
        r.fail("assembled", "%d chunks: epsilon file %s" % (n, outs[1][1]))
    r.trace()


def run_case(case, r):
    {"split": split, "gaps": gaps, "retrieve": retrieve, "zero": zero, "run": run, "twice": twice, "names": names, "order": order, "failc": failc, "assembled": assembled}[case["kind"]](case, r)


if __name__ == "__main__":
    vf.Check("C11", "model-checked", cases, run_case, setup=setup,
             rule="a case is one list/pattern family, one word family of band functions on a k list, or one set of schedules of the script; states are distinct (list, chunks, index), frequency patterns, runs and schedules",
             bounds="lists up to 12 in up to 14 chunks (thorough 39/44); frequency patterns of up to 3 bands x 3 k-points x 3-4 values; words of up to 2 (3) of 7 kinds of band function x 7 k lists x 11 chunks x 0, 1, 3 bands; all pairs of 13 run settings; all completion orders of up to 4 (5) chunks and all failing subsets of up to 3",
             assumptions=["the script is run by bash with a stand-in for mpb whose completion is controlled", "the frequencies the run driver records are compared with separate sessions (their correctness is C01)"]).main()
