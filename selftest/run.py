#!/usr/bin/env python3
"""Runs the checks on edited copies of the repository's sources (never on
/repo itself).  mutants.py lists edits which break a property (the named check
has to report them) and edits which keep the behaviour (all named checks have
to stay quiet).   usage: run.py [name or property filter...]"""
import concurrent.futures
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import glob
import importlib
MUTANTS, EQUIV = [], []
for _f in sorted(glob.glob(HERE + "/mutants*.py")):
    _m = importlib.import_module(os.path.basename(_f)[:-3])
    MUTANTS += _m.MUTANTS
    EQUIV += _m.EQUIV


def run(kind, name, props, edits):
    d = tempfile.mkdtemp(prefix="vpmut")
    try:
        shutil.copytree(os.environ.get("VP_BASE", "/repo") + "/src", d + "/src")
        for f, old, new in edits:
            p = d + "/src/" + f
            s = open(p).read()
            if old not in s:
                return name, "BADEDIT", f + ": " + old[:60]
            s = s.replace(old, new) if new is not None else s
            open(p, "w").write(s)
        out = []
        bad = []
        for pr in props:
            r = subprocess.run([sys.executable, "-m", "sa.check", pr], cwd=os.path.dirname(HERE),
                               env=dict(os.environ, VP_REPO=d, VP_EVIDENCE=d + "/ev",
                                        PYTHONDONTWRITEBYTECODE="1"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            want = 1 if kind == "mutant" else 0
            out.append("%s=%d" % (pr, r.returncode))
            if r.returncode != want:
                bad.append(r.stdout[-700:])
            elif kind == "mutant":
                out.append(r.stdout.splitlines()[0][:230])
        return name, "ok" if not bad else "FAIL", " ".join(out) + ("\n" + "\n".join(bad) if bad else "")
    finally:
        shutil.rmtree(d)


def main(argv):
    jobs = []
    for kind, lst in (("mutant", MUTANTS), ("equiv", EQUIV)):
        for name, props, edits in lst:
            if not argv or any(a == name or a in props or a == kind for a in argv):
                jobs.append((kind, name, props, edits))
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(max_workers=4) as ex:
        for (kind, *_), (name, res, txt) in zip(jobs, ex.map(lambda j: run(*j), jobs)):
            bad += res != "ok"
            print("%-6s %-28s %s %s" % (kind, name, res, txt), flush=True)
    print("%d jobs, %d bad" % (len(jobs), bad))
    return bad != 0


sys.exit(main(sys.argv[1:]))
