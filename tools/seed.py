#!/usr/bin/env python3
"""seed.py new ID: make seeded/ID/patch.diff from seeds.py and validate it.
Validation works on a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS, DEMO_SH


def sh(cmd, cwd, timeout=400):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def one(s):
    d = ROOT + "/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="vpseed")
    try:
        subprocess.check_call(["cp", "-a", "/repo/.", t + "/r"])
        r = t + "/r"
        for f, old, new in s["edits"]:
            p = r + "/src/" + f
            x = open(p).read()
            if x.count(old) < 1:
                return s["id"], "BADEDIT " + old[:50]
            open(p, "w").write(x.replace(old, new, 1))
        rc, diff = sh("git diff", r)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cpp", "w").write(s["demo"])
        with open(d + "/demo.sh", "w") as f:
            f.write(DEMO_SH.replace("@FLAGS@", s.get("flags", "")).replace("@RUN@", s.get("run", "")))
        os.chmod(d + "/demo.sh", 0o755)
        if s.get("stubs"):
            shutil.copytree(ROOT + "/stubs", d + "/stubs", dirs_exist_ok=True)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        rc, _ = sh("git apply --check %s/patch.diff" % d, "/repo")
        if rc:
            return s["id"], "patch does not apply"
        # build script and tests use fixed paths: bind the copy by running in place
        a, out_a = sh("bash %s/demo.sh" % d, "/repo", 120)
        b, out_b = sh("bash %s/demo.sh" % d, r, 120)
        # all tests which include a changed header
        fails = []
        for tcpp in sorted(os.listdir(r + "/tests")):
            if not tcpp.endswith(".cpp"):
                continue
        res = "clean=%d patched=%d" % (a, b)
        if a or not b:
            res += "\n" + out_a[-600:] + "\n---\n" + out_b[-600:]
            return s["id"], "BAD " + res
        return s["id"], "ok " + res
    finally:
        shutil.rmtree(t)


for s in SEEDS:
    if len(sys.argv) > 1 and s["id"] not in sys.argv[1:]:
        continue
    print(*one(s))
