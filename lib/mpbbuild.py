"""Build NanoComp/mpb from /repo's current working tree into a private directory.

The objects are keyed by a hash of every source file that goes into them plus the
flags, so that a changed tree is always recompiled and an unchanged one is reused.
Nothing is written under /repo.
"""
import functools, os, sys, re, glob, hashlib, subprocess, shutil, fcntl, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MPB_REPO", "/repo")
OUT = os.environ.get("MPB_BUILD_OUT", os.path.join(VERIF, "build"))
LIBCTL = "/usr/share/libctl"
H5S = "/usr/lib/x86_64-linux-gnu/hdf5/serial"
H5P = "/usr/lib/x86_64-linux-gnu/hdf5/openmpi"
MPI_INC = ["-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
LIBDIRS = ["util", "matrices", "matrixio", "maxwell"]
INCS = ["-I%s/src/%s" % (REPO, d) for d in LIBDIRS]


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def _sources():
    fs = []
    for d in LIBDIRS:
        fs += glob.glob("%s/src/%s/*.[ch]" % (REPO, d))
    fs += glob.glob("%s/mpb/*.[ch]" % REPO) + glob.glob("%s/mpb/*.in" % REPO) + glob.glob("%s/utils/*.[ch]" % REPO)
    return sorted(f for f in fs if not f.endswith("/mpb/Makefile.in"))


@functools.lru_cache(None)
def tree_hash(extra=b""):
    # once per run: what a check builds and what it then executes are the same tree
    h = hashlib.sha256()
    for f in _sources():
        h.update(f.encode() + b"\0" + _read(f) + b"\0")
    for f in sorted(glob.glob(VERIF + "/config/*.h") + glob.glob(VERIF + "/harness/*.[ch]")) + [os.path.abspath(__file__)]:
        h.update(os.path.basename(f).encode() + _read(f))
    h.update(extra)
    return h.hexdigest()[:16]


class Config:
    """cfg in complex|inv|herm|mpi|debug; asan=True adds -fsanitize=address."""

    def __init__(self, cfg, asan=False):
        self.cfg, self.asan = cfg, asan
        self.mpi = cfg.startswith("mpi")
        self.root = os.path.join(OUT, tree_hash())
        self.name = cfg + ("-asan" if asan else "")
        self.dir = os.path.join(self.root, self.name)
        h5 = H5P if self.mpi else H5S
        self.opt = ["-g", "-O1" if asan else "-O2", "-fPIC", "-w"]
        if asan:
            self.opt += ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer",
                         "-fno-sanitize=alignment"]
        self.inc = ["-DHAVE_CONFIG_H", "-I" + self.dir] + INCS + ["-I%s/mpb" % REPO,
                    "-I/usr/include/hdf5/" + ("openmpi" if self.mpi else "serial")]
        if self.mpi:
            self.inc += MPI_INC
        self.libs = ["-L" + h5, "-Wl,-rpath," + h5, "-lhdf5", "-lz"] + \
            (["-lfftw3_mpi"] if self.mpi else []) + ["-llapack", "-lblas", "-lfftw3", "-lm", "-lgfortran"] + \
            (["-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi"] if self.mpi else [])

    # ---- paths of products
    @property
    def mpb(self):
        return os.path.join(self.dir, "mpb")

    @property
    def core(self):
        return os.path.join(self.dir, "libcore.so")

    @property
    def mpbdata(self):
        return os.path.join(self.dir, "mpb-data")

    @property
    def split(self):
        return os.path.join(self.dir, "mpb-split")

    def exe(self, name):
        return os.path.join(self.dir, name)


def _prune(keep):
    try:
        ds = [os.path.join(OUT, d) for d in os.listdir(OUT)]
        ds = sorted((d for d in ds if os.path.isdir(d) and d != keep and re.fullmatch(r"[0-9a-f]{16}", os.path.basename(d))), key=os.path.getmtime)
        now = time.time()
        for d in ds[:-4]:
            if now - os.path.getmtime(d) > 3600:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def build(cfg, asan=False, what=("mpb",), drivers=()):
    """what: subset of mpb, core, mpbdata, split; drivers: harness/<name>.c linked with the core objects."""
    c = Config(cfg, asan)
    os.makedirs(c.dir, exist_ok=True)
    _prune(c.root)
    with open(os.path.join(c.dir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _build(c, what, drivers)
    return c


def _build(c, what, drivers):
    d = c.dir
    done = lambda n: os.path.join(d, ".done-" + n)
    stamp = lambda n: open(done(n), "w").close()
    shutil.copyfile("%s/config/config-%s.h" % (VERIF, c.cfg), d + "/config.h") if not os.path.exists(d + "/config.h") else None
    jobs = []

    def cc(src, obj, extra=()):
        jobs.append(["gcc"] + c.opt + c.inc + list(extra) + ["-c", src, "-o", obj])

    def flush():
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(_run, jobs))
        del jobs[:]

    if not os.path.exists(done("objs")):
        # generated quadrature table
        _run(["gcc", "-O2", "-w", "-DHAVE_CONFIG_H", "-I" + d] + INCS + ["%s/src/util/sphere-quad.c" % REPO, "-o", d + "/sphere_quad", "-llapack", "-lblas", "-lm", "-lgfortran"])
        out = _run([d + "/sphere_quad"])
        with open(d + "/sphere-quad.h", "w") as f:
            f.write("/* generated */\n\n" + out)
        with open(d + "/mpbconf.h", "w") as f:
            f.write("")
        for sub in LIBDIRS:
            for s in sorted(glob.glob("%s/src/%s/*.c" % (REPO, sub))):
                if os.path.basename(s) == "sphere-quad.c":
                    continue
                cc(s, "%s/core-%s-%s.o" % (d, sub, os.path.basename(s)[:-2]))
        flush()
        stamp("objs")
    coreobjs = sorted(glob.glob(d + "/core-*.o"))

    if "mpb" in what and not os.path.exists(done("mpb")):
        eigs = ""
        for l in open("%s/src/matrices/eigensolver.h" % REPO):
            if l.startswith("#define EIGS_"):
                l = re.sub(r"#define ([A-Za-z0-9_]*) \(1<<([0-9]*)\)", r"(define \1 (pow2 \2))", l.rstrip("\n"))
                l = re.sub(r"#define ([A-Za-z0-9_]*) \((.*)\)", r"(define \1 (+ \2))", l)
                eigs += re.sub(r" *\| */? *", " ", l)
        scm = open("%s/mpb/mpb.scm.in" % REPO).read()
        scm = scm.replace("@LIBCTL_DIR@", LIBCTL).replace("@EIGS_FLAGS_SCM@", eigs).replace("@ACTIVATE_READLINE@", "")
        with open(d + "/mpb.scm", "w") as f:
            f.write(scm)
        with open(d + "/mu.c", "w") as f:
            f.write(open("%s/mpb/epsilon.c" % REPO).read().replace("epsilon", "mu").replace("eps_inv", "mu_inv"))
        shutil.copyfile(LIBCTL + "/base/main.c", d + "/main.c")
        shutil.copyfile(LIBCTL + "/utils/geom.c", d + "/geom.c")
        _run(["gen-ctl-io", "--code", "-o", d + "/ctl-io.c", d + "/mpb.scm", LIBCTL])
        _run(["gen-ctl-io", "--header", "-o", d + "/ctl-io.h", d + "/mpb.scm", LIBCTL])
        defs = ["-I/usr/include/guile/3.0", "-DHAVE_CTL_HOOKS=1", "-DHAVE_CTL_EXPORT_HOOK=1",
                '-DCTL_SCM="%s/base/ctl.scm"' % LIBCTL, '-DINCLUDE_SCM="%s/base/include.scm"' % LIBCTL,
                '-DSPEC_SCM="%s/mpb.scm"' % d, '-DVERSION_STRING="mpb-verif"']
        objs = []
        for s in sorted(glob.glob("%s/mpb/*.c" % REPO)) + [d + "/" + x for x in ("main.c", "geom.c", "ctl-io.c")]:
            b = os.path.basename(s)[:-2]
            if b in ("epsilon", "mu"):
                continue  # #included by medium.c
            o = "%s/mpb-%s.o" % (d, b)
            objs.append(o)
            cc(s, o, defs)
        flush()
        _run(["gcc"] + c.opt + ["-o", c.mpb] + objs + coreobjs + ["-lnlopt", "-lctl", "-lguile-3.0", "-lgc", "-lpthread", "-ldl"] + c.libs)
        stamp("mpb")
    if "core" in what and not os.path.exists(done("core")):
        _run(["gcc"] + c.opt + c.inc + ["-shared", "-o", c.core, VERIF + "/harness/shim.c"] + coreobjs + c.libs)
        stamp("core")
    if "mpbdata" in what and not os.path.exists(done("mpbdata")):
        _run(["gcc"] + c.opt + c.inc + ["-o", c.mpbdata, "%s/utils/mpb-data.c" % REPO] + coreobjs + ["-lctlgeom"] + c.libs)
        stamp("mpbdata")
    if "split" in what and not os.path.exists(done("split")):
        t = open("%s/mpb/mpb-split-preinstall.in" % REPO).read().replace("@SH_JOB@", "/bin/bash")
        with open(d + "/mpb-split", "w") as f:
            f.write(t)
        stamp("split")
    for n in drivers:
        if not os.path.exists(done("drv-" + n)):
            _run(["gcc"] + c.opt + c.inc + ["-o", c.exe(n), "%s/harness/%s.c" % (VERIF, n)] + coreobjs + c.libs)
            stamp("drv-" + n)


ENV = {
    "GUILE_AUTO_COMPILE": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_plm": "isolated",
    "OMPI_MCA_btl": "self,vader", "OMPI_MCA_btl_base_warn_component_unused": "0", "PRTE_MCA_plm": "isolated",
    "LC_ALL": "C.UTF-8", "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_odr_violation=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98", "GC_DONT_GC": "",
}


def env(**kw):
    e = dict(os.environ)
    e.update({k: v for k, v in ENV.items() if v != ""})
    e.update(kw)
    return e


if __name__ == "__main__":
    t = time.time()
    for a in sys.argv[1:]:
        cfg, _, w = a.partition(":")
        asan = cfg.endswith("-asan")
        b = build(cfg[:-5] if asan else cfg, asan, tuple(w.split(",")) if w else ("mpb",))
        print(a, b.dir, round(time.time() - t, 1))
