"""Work with planted bugs (never used by a check).
  seedlab.py new ID SPEC.py     write seeded/ID from a python spec (dict: property, needs, what_it_breaks, edits, exe, ctl | sh)
  seedlab.py verify ID...       patch applies, builds, stable tests pass, demo fails with / passes without the patch
  seedlab.py catch ID... [-- CHECK...]   run the check of the property against the planted bug
"""
import sys, os, json, subprocess, tempfile, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def clean():
    sh(["git", "-C", R, "checkout", "--", "."])


def new(id, spec):
    d = V + "/seeded/" + id
    os.makedirs(d, exist_ok=True)
    assert not sh(["git", "-C", R, "status", "--short"]).stdout.strip()
    try:
        for f, old, nw in spec["edits"]:
            s = open(R + "/" + f).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(R + "/" + f, "w").write(s.replace(old, nw))
        diff = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE).stdout
    finally:
        clean()
    open(d + "/patch.diff", "wb").write(diff)
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["what_it_breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if "ctl" in spec:
        open(d + "/demo.ctl", "w").write(CTL + spec["ctl"] + '\n(newline)(display (if demo-bad? "DEMO-BAD" "DEMO-OK"))(newline)\n')
        body = '"$R/_build/%s" "$D/demo.ctl" > out 2>&1\n[ $? = 0 ] && grep -q DEMO-OK out && exit 0\ntail -30 out\nexit 1\n' % spec.get("exe", "complex/mpb/mpb")
    else:
        body = spec["sh"]
    for n, t in spec.get("files", {}).items():
        open(d + "/" + n, "w").write(t)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nR=$PWD\nD=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d)\ntrap \'rm -rf "$T"\' EXIT\ncd "$T" || exit 9\n'
                                    'export GUILE_AUTO_COMPILE=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1\n' + body)
    os.chmod(d + "/demo.sh", 0o755)


CTL = r"""(set! interactive? false)
(define demo-bad? #f)
(define (demo-check what got want tol)
  (let ((d (magnitude (- got want))))
    (if (not (<= d tol))
        (begin (set! demo-bad? #t) (display (list what got want)) (newline)))))
(define (demo-true what b) (if (not b) (begin (set! demo-bad? #t) (display what) (newline))))
"""


def demo(id):
    t = tempfile.mkdtemp()
    try:
        shutil.copytree(V + "/seeded/" + id, t + "/d", ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        try:
            p = sh(["bash", t + "/d/demo.sh"], cwd=R, timeout=300)
            return p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            return "timeout", ""
    finally:
        shutil.rmtree(t)


def build():
    p = sh("bash /opt/vp/build.sh")
    assert "BUILD OK" in p.stdout, p.stdout[-3000:]


def verify(ids):
    clean()
    build()
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for i in ids:
        rc, o = demo(i)
        print(i, "demo on the unchanged tree:", rc, "" if rc == 0 else "BAD " + o[-1500:])
    for i in ids:
        try:
            p = sh(["git", "-C", R, "apply", V + "/seeded/%s/patch.diff" % i])
            if p.returncode:
                print(i, "patch does not apply", p.stdout)
                continue
            try:
                build()
            except AssertionError as e:
                print(i, "BAD does not build", e)
                continue
            rc, o = demo(i)
            print(i, "demo with the patch:", rc, "" if rc != 0 else "BAD", o[-300:].replace("\n", " | "))
            sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            t = json.load(open("/tmp/seedtest.json"))
            miss = stable - set(t["passed"])
            print(i, "stable tests:", "all pass" if not miss else "BAD: %s" % sorted(miss)[:5])
        finally:
            clean()
    build()


def catch(ids, checks):
    for i in ids:
        prop = json.load(open(V + "/seeded/%s/meta.json" % i))["property"]
        try:
            p = sh(["git", "-C", R, "apply", V + "/seeded/%s/patch.diff" % i])
            if p.returncode:
                print(i, "patch does not apply", p.stdout)
                continue
            for c in checks or [prop]:
                p = sh("python3-vt checks/%s.py" % c, cwd=V)
                v = re.search(r"VIOLATION property=%s.*" % c, p.stdout)
                m = re.search(r"disagreement.*", p.stdout)
                print(i, c, "CAUGHT" if p.returncode == 1 and v else "missed rc=%s" % p.returncode, (m.group(0)[:260] if m else p.stdout[-300:]), flush=True)
        finally:
            clean()


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "new":
        ns = {}
        exec(open(a[1]).read(), ns)
        for i, s in ns["SEEDS"].items():
            if len(a) < 3 or i in a[2:]:
                new(i, s)
                print("wrote", i)
    elif a[0] == "verify":
        verify(a[1:])
    elif a[0] == "catch":
        j = a.index("--") if "--" in a else len(a)
        catch(a[1:j], a[j + 1:])
