"""Type-level witnesses: small translation units which have to compile, and
ones which have to be rejected by the compiler (with a diagnostic which tells
that it was for the intended reason).  Nothing is executed."""
import concurrent.futures
import os
import re
import subprocess

from . import build
from .build import CLANG, tmpdir, include_flags
from .ir import AnalysisError


def compiles(text, std=None, flags=()):
    p = subprocess.run([CLANG, "-x", "c++", "-std=" + (std or build.STD), "-fsyntax-only", "-w", "-ferror-limit=0", "-fno-caret-diagnostics",
                        "-ftemplate-backtrace-limit=0", *flags, *include_flags(), "-"],
                       input=text, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode == 0, p.stdout


def check(ctx, groups, std=None):
    """groups: list of (name, prologue, positive, negative):
         positive: list of (what, declaration) which all have to compile
         negative: list of (what, declaration, regex or None) each of which has to be rejected"""
    jobs = []
    for name, pro, pos, neg in groups:
        body = "".join("#line 1 \"witness:%d\"\n%s\n" % (n, d) for n, (w, d) in enumerate(pos))
        jobs.append((name, "pos", pro + "\n" + body, pos, None))
        for w, d, rx in neg:
            jobs.append((name, "neg", pro + "\n#line 1 \"witness:0\"\n" + d, w, rx))
        jobs.append((name, "pro", pro, None, None))
    tmpdir()
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(lambda j: compiles(j[2], std), jobs))
    for (name, kind, text, w, rx), (ok, out) in zip(jobs, res):
        if kind == "pro" and not ok:
            raise AnalysisError("witness %s: %s" % (name, out[-300:]))
    for (name, kind, text, w, rx), (ok, out) in zip(jobs, res):
        if kind == "pos":
            ctx.count("witnesses compiled", len(w))
            if ok:
                continue
            hit = sorted({int(n) for n in re.findall(r"witness:(\d+):", out)})
            if not hit:        # the diagnostics do not tell which: one by one
                pro = next(g[1] for g in groups if g[0] == name)

                def find(ns):
                    if compiles(pro + "\n" + "\n".join(w[n][1] for n in ns), std)[0]:
                        return []
                    if len(ns) == 1:
                        return ns
                    return [n for h in chunks(ns) for n in find(h)]

                def chunks(ns):
                    k = max(1, -(-len(ns) // 8))
                    return [ns[i:i + k] for i in range(0, len(ns), k)]
                with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
                    hit = [n for ns in ex.map(find, chunks(list(range(len(w))))) for n in ns]
                if not hit:
                    raise AnalysisError("witness %s: %s" % (name, out[-300:]))
            for n in hit:
                what = w[n][0]
                line = next((x for x in out.splitlines() if re.search(r"error", x) and "witness:%d:" % n in x), "")
                first = line or next((x for x in out.splitlines() if "error" in x), "")
                ctx.violate("witness:%s:%s" % (name, what), "witness %s" % name, "%s: %s" % (what, first.strip()[:200]), [w[n][1][:300]])
        elif kind == "neg":
            ctx.count("witnesses rejected")
            if ok:
                ctx.violate("witness:%s:%s" % (name, w), "witness %s" % name, "%s: the compiler accepts what it has to reject" % w, [text[-300:]])
            elif rx and not re.search(rx, out):
                raise AnalysisError("witness %s: rejected for another reason: %s" % (name, out[-300:]))
