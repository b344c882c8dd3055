"""Maintains /verif/seeded: python3 tools/seed.py make ID | demo ID... | tests ID... | catch ID...

make   records the diff of the scratch copy /tmp/wt as seeded/ID/patch.diff and resets the copy
demo   the demonstration passes on the clean copy and fails on the patched one
tests  the repository's stable tests pass on the patched copy (private mount namespace)
catch  runs the property's quick check against the patched copy
"""
import json, os, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def copy():
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    sh("cp -a %s %s/repo" % (os.environ.get("SEED_REPO", "/repo"), d))
    return d


def main():
    what, ids = sys.argv[1], sys.argv[2:]
    if what == "make":
        i = ids[0]
        d = os.path.join(S, i)
        os.makedirs(d, exist_ok=True)
        p = subprocess.run("git -C /tmp/wt diff", shell=True, text=True, stdout=subprocess.PIPE).stdout
        assert p.strip(), "no change in /tmp/wt"
        open(os.path.join(d, "patch.diff"), "w").write(p)
        sh("git -C /tmp/wt checkout -- .")
        shutil.copy(os.path.join(V, "harness", "simcore.py"), d)
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nexec python3-vt -B "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        return
    if ids == ["all"]:
        ids = sorted(os.listdir(S))
    for i in ids:
        d = os.path.join(S, i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        t = copy()
        try:
            if what == "demo":
                ns = "unshare -m --propagation private bash -c 'mount --bind %s/repo /repo && cd /repo && bash %s/demo.sh'" % (t, d)
                a = sh(ns)
                r = sh("git -C %s/repo apply %s/patch.diff" % (t, d))
                assert r.returncode == 0, r.stdout
                b = sh(ns)
                print(i, "clean", a.returncode, "patched", b.returncode, "OK" if a.returncode == 0 and b.returncode else "BAD", b.stdout.strip().splitlines()[-1:], flush=True)
                if a.returncode:
                    print(a.stdout[-1500:])
            elif what == "tests":
                r = sh("git -C %s/repo apply %s/patch.diff" % (t, d))
                assert r.returncode == 0, r.stdout
                t0 = time.time()
                r = sh("unshare -m --propagation private bash -c 'mount --bind %s/repo /repo && bash /opt/vp/test.sh %s/out.json'" % (t, t))
                base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                out = json.load(open(t + "/out.json"))
                missing = [x for x in base if x not in out["passed"]]
                print(i, "tests", "OK" if not missing else "MISSING %s" % missing[:5], "%d s" % (time.time() - t0), flush=True)
            elif what == "catch":
                r = sh("git -C %s/repo apply %s/patch.diff" % (t, d))
                assert r.returncode == 0, r.stdout
                r = sh("cd %s && PYTHONHASHSEED=0 VERIF_SEED=1 VERIF_REPO=%s/repo VERIF_OUT=%s python3-vt harness/runner.py %s --tier quick" % (V, t, t, meta["property"]))
                print(i, meta["property"], "rc", r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED", r.stdout.strip().splitlines()[-1][:200] if r.stdout.strip() else "", flush=True)
        finally:
            shutil.rmtree(t)


main()
