"""Exploration driver shared by all checks.

A check defines
    cases(tier)      -> iterable of JSON-able dicts: the complete bounded space, in a fixed order
    run_case(case,r) -> executes one case on the real code, recording on r (a Rec) every observed
                        state, every operation executed, and every disagreement with the reference.
The driver enumerates every case over a pool of worker processes, re-executes a failing case before
reporting it, writes a replay file, honours /verif/known-findings.txt and writes the evidence file.
A worker that dies (failed CHECK, signal, sanitizer report) is a disagreement of the case it ran.
"""
import os
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
import os, sys, json, time, hashlib, select, signal, traceback, struct

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))


class Rec:
    def __init__(self):
        self.nstates = set()
        self.transitions = 0
        self.traces = 0
        self.fails = []
        self.nontrivial = 0
        self.info = {}

    def state(self, *obs):
        self.nstates.add(hashlib.blake2b(repr(obs).encode(), digest_size=8).hexdigest())

    def op(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def worst(self, key, v):
        self.info["max_" + key] = max(self.info.get("max_" + key, 0), v)

    def fail(self, key, msg):
        self.fails.append((str(key), str(msg)))

    def close(self, key, got, want, tol, msg=""):
        """got ~ want (scalars or numpy arrays)."""
        import numpy as np
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            self.fail(key, "%s shape %s != %s" % (msg, g.shape, w.shape))
            return False
        if g.size == 0:
            return True
        d = np.abs(g - w)
        if not np.all(np.isfinite(d)) or d.max() > tol:
            i = int(np.argmax(np.where(np.isfinite(d), d, np.inf)))
            self.fail(key, "%s differs by %.3g (tol %.1g) at %s: got %s want %s" % (
                msg, float(d.reshape(-1)[i]), tol, np.unravel_index(i, d.shape) if d.shape else (), g.reshape(-1)[i], w.reshape(-1)[i]))
            return False
        return True

    def ser(self):
        return {"s": sorted(self.nstates), "t": self.transitions, "tr": self.traces, "f": self.fails, "n": self.nontrivial, "i": self.info}


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                rest = l.split(" ", 2)[2]
                key, _, what = rest.partition(" ")
                if key.startswith("key="):
                    out[key[4:]] = what
    return out


def _w(fd, obj):
    b = json.dumps(obj, default=str).encode()
    b = struct.pack(">I", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


_PARENT_FDS = set()


class _Worker:
    def __init__(self, run_case, env):
        cr, pw = os.pipe()
        pr, cw = os.pipe()
        self.errpath = "/tmp/vf-%d-%d.err" % (os.getpid(), pw)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                os.close(pw)
                os.close(pr)
                for f in _PARENT_FDS:
                    os.close(f)
                fd = os.open(self.errpath, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                os.dup2(fd, 1)
                os.dup2(fd, 2)
                for k, v in env.items():
                    os.environ[k] = v
                buf = os.fdopen(cr, "rb")
                while True:
                    h = buf.read(4)
                    if len(h) < 4:
                        os._exit(0)
                    case = json.loads(buf.read(struct.unpack(">I", h)[0]))
                    os.ftruncate(fd, 0)
                    os.lseek(fd, 0, 0)
                    r = Rec()
                    try:
                        run_case(case, r)
                        err = None
                    except (MemoryError, OSError, SyntaxError, NameError):
                        err = traceback.format_exc()[-3000:]
                    except BaseException as e:
                        # what the program answered does not have the form every answer has on the reference tree
                        # (rows missing, wrong shapes, NaN where a matrix is decomposed ...)
                        err = None
                        r.fail("unreadable", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-2000:]))
                    _w(cw, {"r": r.ser(), "err": err})
            finally:
                os._exit(77)
        os.close(cr)
        os.close(cw)
        self.pid, self.w, self.r = pid, pw, pr
        _PARENT_FDS.update((pw, pr))
        self.case = None
        self.t0 = 0

    def send(self, case):
        self.case, self.t0 = case, time.time()
        _w(self.w, case)

    def recv(self):
        b = b""
        while len(b) < 4:
            c = os.read(self.r, 4 - len(b))
            if not c:
                return None
            b += c
        n = struct.unpack(">I", b)[0]
        out = b""
        while len(out) < n:
            c = os.read(self.r, n - len(out))
            if not c:
                return None
            out += c
        return json.loads(out)

    def stop(self, kill=False):
        os.close(self.w)
        os.close(self.r)
        _PARENT_FDS.difference_update((self.w, self.r))
        if kill:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
        _, st = os.waitpid(self.pid, 0)
        try:
            err = open(self.errpath, errors="replace").read()[-2500:]
            os.unlink(self.errpath)
        except OSError:
            err = ""
        return st, err


class Check:
    def __init__(self, pid, level, cases, run_case, title="", budget=None, case_timeout=300, setup=None,
                 assumptions=(), rule="", workers=8, bounds=""):
        self.pid, self.level, self.cases, self.run_case = pid, level, cases, run_case
        self.case_timeout, self.setup, self.assumptions, self.rule = case_timeout, setup, list(assumptions), rule
        self.workers = workers
        self.bounds = bounds
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.budget = budget or (700 if self.tier == "quick" else 6 * 3600)

    # one case in a fresh worker
    def _once(self, case):
        w = _Worker(self.run_case, {})
        w.send(case)
        rl, _, _ = select.select([w.r], [], [], self.case_timeout)
        res = w.recv() if rl else None
        st, err = w.stop(kill=not rl)
        return self._judge(res, st, err, timeout=not rl)

    def _judge(self, res, st, err, timeout=False):
        if timeout:
            return {"r": Rec().ser(), "f": [("timeout", "no answer within %d s" % self.case_timeout)], "err": None}
        if res is None:
            return {"r": Rec().ser(), "f": [("died", "process died (status %s): %s" % (st, err))], "err": None}
        if res["err"]:
            return {"r": res["r"], "f": [], "err": res["err"]}
        return {"r": res["r"], "f": [tuple(x) for x in res["r"]["f"]], "err": None}

    def main(self):
        t0 = time.time()
        args = sys.argv[1:]
        import mpbbuild
        try:
            if self.setup:
                self.setup(self.tier)
        except mpbbuild.BuildError as e:
            print("BUILD FAILED:", e)
            sys.exit(2)
        if args[:1] == ["--replay"]:
            case = json.load(open(args[1]))["case"]
            j = self._once(case)
            print(json.dumps(case)[:2000])
            for k, m in j["f"]:
                print("DISAGREES [%s] %s" % (k, m))
            if j["err"]:
                print(j["err"])
            sys.exit(1 if j["f"] else 2 if j["err"] else 0)
        only = None
        if args[:1] == ["--match"]:
            only = args[1]
        states, trans, traces, nontriv, ncases = set(), 0, 0, 0, 0
        samples, fails, errs, info = [], [], [], {}
        it = iter(self.cases(self.tier))
        ws, exhausted, capped = [], False, False
        distinct = set()

        def nxt():
            nonlocal exhausted
            while True:
                try:
                    c = next(it)
                except StopIteration:
                    exhausted = True
                    return None
                if only and only not in json.dumps(c):
                    continue
                return c

        def account(case, j):
            nonlocal trans, traces, nontriv, ncases
            r = j["r"]
            ncases += 1
            states.update(r["s"])
            trans += r["t"]
            traces += r["tr"]
            nontriv += r["n"]
            for k, v in r["i"].items():
                info[k] = max(info.get(k, 0), v) if k.startswith("max_") else info.get(k, 0) + v
            distinct.add(json.dumps(case, sort_keys=True))
            if len(samples) < 4 and ncases % 7 == 1:
                samples.append({"case": case, "ops": r["t"], "states": len(r["s"])})
            for k, m in j["f"]:
                fails.append((case, k, m))
            if j["err"]:
                errs.append((case, j["err"]))

        while True:
            if time.time() - t0 > self.budget or (len(fails) > 60 and not os.environ.get("VF_ALL")) or len(errs) > 20:
                if not exhausted:
                    c = nxt()
                    capped = capped or c is not None
                    exhausted = True
            while not exhausted and len(ws) < self.workers:
                c = nxt()
                if c is None:
                    break
                w = _Worker(self.run_case, {})
                w.send(c)
                ws.append(w)
            if not ws:
                break
            rl, _, _ = select.select([w.r for w in ws], [], [], 1.0)
            for w in list(ws):
                if w.r in rl:
                    res = w.recv()
                    case = w.case
                    if res is None:
                        st, err = w.stop()
                        ws.remove(w)
                        account(case, self._judge(None, st, err))
                        continue
                    account(case, self._judge(res, 0, ""))
                    c = None if exhausted else nxt()
                    if c is None:
                        w.stop()
                        ws.remove(w)
                    else:
                        w.send(c)
                elif time.time() - w.t0 > self.case_timeout:
                    case = w.case
                    w.stop(kill=True)
                    ws.remove(w)
                    account(case, self._judge(None, 0, "", timeout=True))

        # confirm and report
        known = known_findings(self.pid)
        rc, viol, seenkeys = 0, 0, {}
        os.makedirs(VERIF + "/replays", exist_ok=True)
        for case, k, m in fails:
            full = "%s/%s" % (case.get("id", "?"), k)
            kf = next((q for q in known if q == full or q == k), None)
            if kf is not None:
                if kf not in seenkeys:
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, known[kf]))
                    seenkeys[kf] = 1
                continue
            if (seenkeys.get(k, 0) >= 3 and not os.environ.get("VF_ALL")) or viol >= (12 if not os.environ.get("VF_ALL") else 400) or (full in seenkeys):
                continue
            seenkeys[full] = 1
            j = self._once(case)
            again = [x for x in j["f"] if x[0] == k]
            if not again:
                again = j["f"]
            if not again:
                print("NOTE: a disagreement did not recur and is not reported: %s %s" % (full, m))
                continue
            seenkeys[k] = seenkeys.get(k, 0) + 1
            viol += 1
            h = hashlib.sha1((json.dumps(case, sort_keys=True) + k).encode()).hexdigest()[:10]
            rp = "%s/replays/%s-%s.json" % (VERIF, self.pid, h)
            json.dump({"property": self.pid, "case": case, "key": k, "message": m, "how": "python3-vt checks/%s.py --replay <this file>" % self.pid}, open(rp, "w"), indent=1)
            print("disagreement [%s] %s" % (full, m[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            rc = 1
        if errs:
            print("HARNESS ERROR in %d case(s); first: %s\n%s" % (len(errs), json.dumps(errs[0][0])[:600], errs[0][1]))
            if rc == 0:
                rc = 2
        cov = {"states": len(states), "transitions": trans, "traces_validated_against_impl": traces,
               "evaluations": ncases, "distinct_nontrivial": nontriv if nontriv else len(distinct),
               "rule": self.rule, "samples": samples, "bounds": self.bounds,
               "exhaustive": (not capped) and not only}
        cov.update({(k if k.startswith("max_") else "count_" + k): v for k, v in info.items()})
        if not only:
            os.makedirs(VERIF + "/evidence", exist_ok=True)
            json.dump({"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed, "level": self.level,
                       "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - t0, 2), "violations": viol},
                      open("%s/evidence/%s.json" % (VERIF, self.pid), "w"), indent=1, default=str)
        print("%s %s: %d cases, %d states, %d transitions, %d traces validated, %d violations, %.1f s%s" % (
            self.pid, self.tier, ncases, len(states), trans, traces, viol, time.time() - t0, " (CAPPED)" if capped else ""))
        sys.exit(rc)
