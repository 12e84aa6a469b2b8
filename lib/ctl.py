"""Run freshly built mpb executables on generated control files and read back what they did.

Every observation is printed by the script itself, at full precision, on lines starting with "@@ "
(one S-expression per line); the human-readable output is returned as well.
"""
import os, re, shutil, subprocess, tempfile, signal
import mpbbuild

PRELUDE = r"""
(set! interactive? false)
(define (emit . xs) (if (mpi-is-master?) (begin (display "@@ ") (write xs) (newline))))
(define (grid-pts nx ny nz sx sy sz)
  (let ((out '()))
    (do ((i 0 (+ i 1))) ((>= i nx))
      (do ((j 0 (+ j 1))) ((>= j ny))
        (do ((k 0 (+ k 1))) ((>= k nz))
          (set! out (cons (vector3 (* sx (- (/ i nx) 0.5)) (* sy (- (/ j ny) 0.5)) (* sz (- (/ k nz) 0.5))) out)))))
    (reverse out)))
(define (guard tag thunk) (catch #t thunk (lambda args (emit 'error tag (format #f "~s" args)))))
"""


class Died(Exception):
    pass


_tok = re.compile(r'\s*(?:(#?\()|(\))|"((?:[^"\\]|\\.)*)"|([^\s()"]+))')


def _num(t):
    if re.fullmatch(r"[+-]?\d+", t):
        return int(t)
    m = re.fullmatch(r"([+-]?\d+)/(\d+)", t)
    if m:
        return int(m.group(1)) / int(m.group(2))
    u = t.replace("inf.0", "inf").replace("nan.0", "nan")
    if u.endswith("i") and re.search(r"\d|inf|nan", u):
        v = u[:-1]
        m = re.match(r"^(.*?)([+-](?:[0-9.]+(?:e[+-]?\d+)?|inf|nan)?)$", v)
        if m:
            re_, im = m.group(1), m.group(2)
            if im in ("+", "-"):
                im += "1"
            try:
                return complex(float(re_) if re_ else 0.0, float(im))
            except ValueError:
                pass
    try:
        return float(u)
    except ValueError:
        return None


def sexp(s):
    stack, cur = [], []
    pos = 0
    s = s.rstrip()
    while pos < len(s):
        m = _tok.match(s, pos)
        if not m:
            raise ValueError("bad sexp: " + s[pos:pos + 60])
        pos = m.end()
        if m.group(1):
            stack.append(cur)
            cur = []
        elif m.group(2):
            c = cur
            cur = stack.pop()
            cur.append(c)
        elif m.group(3) is not None:
            cur.append(re.sub(r"\\(.)", r"\1", m.group(3)))
        else:
            t = m.group(4)
            if t == "#t":
                cur.append(True)
            elif t == "#f":
                cur.append(False)
            else:
                v = _num(t)
                cur.append(t if v is None else v)
    return cur[0]


class Result:
    def __init__(self, rc, out, err, cwd):
        self.rc, self.out, self.err, self.cwd = rc, out, err, cwd
        self.rows = []
        for l in out.splitlines():
            i = l.find("@@ (")
            if i >= 0:
                try:
                    self.rows.append(sexp(l[i + 3:]))
                except (ValueError, IndexError):
                    pass
        self.by = {}
        for x in self.rows:
            self.by.setdefault(x[0], []).append(x[1:])

    def one(self, tag):
        """the payload of the single row `tag`"""
        v = self.by.get(tag)
        if not v or len(v) != 1:
            raise Died("%d rows tagged %s (rc %s)\n%s\n%s" % (len(v or []), tag, self.rc, self.out[-1200:], self.err[-1500:]))
        return v[0]

    def ok(self):
        return self.rc == 0

    def tail(self):
        return "rc=%s\nstdout: ...%s\nstderr: %s" % (self.rc, self.out[-900:], self.err[-1500:])


class Scratch:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="vmpb-")

    def __enter__(self):
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def run(cfg, script, cwd=None, params=(), timeout=240, np_=None, asan=False, prelude=True, stdin=None, env=None, exe=None, name="job.ctl", files=()):
    """cfg: build configuration name; np_: number of MPI processes (mpi build only)."""
    own = None
    if cwd is None:
        own = Scratch()
        cwd = own.d
    try:
        c = mpbbuild.Config(cfg, asan=asan)
        with open(os.path.join(cwd, name), "w") as f:
            f.write((PRELUDE if prelude else "") + script)
        cmd = [exe or c.mpb] + list(params) + list(files) + [name]
        e = dict(os.environ)
        e.update(mpbbuild.env())
        if asan:
            e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:" + e.get("ASAN_OPTIONS", "")
            e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
        if env:
            e.update(env)
        if np_:
            e.update({"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "TMPDIR": cwd if len(cwd) < 60 else "/tmp",
                      "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_btl": "self,vader,tcp", "OMPI_MCA_mpi_yield_when_idle": "1"})
            cmd = ["mpirun", "--oversubscribe", "--bind-to", "none", "-n", str(np_)] + cmd
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try:
            out, err = p.communicate(stdin, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            rc = "timeout"
        return Result(rc, out.decode(errors="replace"), err.decode(errors="replace"), cwd)
    finally:
        if own:
            own.__exit__()


def num(x):
    if isinstance(x, complex):
        return "%r%s%ri" % (x.real, "+" if x.imag >= 0 else "", x.imag)
    if x == float("inf"):
        return "1e20"
    return repr(x.item() if hasattr(x, "item") else x)


def v3(v):
    return "(vector3 %s)" % " ".join(num(x) for x in v)


def klist(ks):
    return "(list %s)" % " ".join(v3(k) for k in ks)


def lattice(R=None, size=(1, 1, 1)):
    """R: rows = basis vectors (lengths = basis-size are derived); size entries None -> no-size"""
    import math
    s = " ".join("no-size" if x is None else num(x) for x in size)
    if R is None:
        return "(set! geometry-lattice (make lattice (size %s)))\n" % s
    ln = [math.sqrt(sum(x * x for x in row)) for row in R]
    return "(set! geometry-lattice (make lattice (size %s) (basis-size %s) %s))\n" % (
        s, " ".join(num(float(x)) for x in ln), " ".join("(basis%d %s)" % (i + 1, " ".join(num(float(x)) for x in R[i])) for i in range(3)))


def medium(m):
    """m: number eps, (eps,mu), or dict of medium-anisotropic properties"""
    if isinstance(m, (int, float)):
        return "(make medium (epsilon %s))" % num(m)
    if isinstance(m, (tuple, list)):
        return "(make medium (epsilon %s) (mu %s))" % (num(m[0]), num(m[1]))
    if isinstance(m, dict):
        return "(make medium-anisotropic %s)" % " ".join("(%s %s)" % (k, " ".join(num(x) for x in v)) for k, v in m.items())
    return m


def block(c, s, m, axes=None):
    ax = ""
    if axes:
        ax = " " + " ".join("(e%d %s)" % (i + 1, " ".join(num(x) for x in a)) for i, a in enumerate(axes))
    return "(make block (center %s) (size %s)%s (material %s))" % (" ".join(num(x) for x in c), " ".join(num(x) for x in s), ax, medium(m))


def cyl(c, r, m, h="infinity", axis=(0, 0, 1)):
    return "(make cylinder (center %s) (radius %s) (height %s) (axis %s) (material %s))" % (
        " ".join(num(x) for x in c), num(r), h, " ".join(num(x) for x in axis), medium(m))


def sphere(c, r, m):
    return "(make sphere (center %s) (radius %s) (material %s))" % (" ".join(num(x) for x in c), num(r), medium(m))


def geometry(objs):
    return "(set! geometry (list %s))\n" % " ".join(objs)
