"""One run of one check: collects instances, violations, evidence."""
import concurrent.futures
import json
import os
import sys
import time

from . import build
from .ir import AnalysisError

VERIF = build.VERIF


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.violations = {}      # key -> dict
        self.counts = {}
        self.samples = []
        self.floors = []
        self.rules = []
        self.assumptions = []
        self.units = []
        self._mods = {}

    # ---- bookkeeping --------------------------------------------------
    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def sample(self, text, limit=60):
        if len(self.samples) < limit and text not in self.samples:
            self.samples.append(text)

    def floor(self, what, n, minimum):
        """The rule has to have at least this many instances."""
        if n < minimum:
            self.floors.append("%s: found %d, expected at least %d" % (what, n, minimum))

    def violate(self, key, where, msg, trace=None):
        if key not in self.violations:
            self.violations[key] = {"key": key, "where": where, "message": msg,
                                    "trace": trace or []}

    # ---- modules ------------------------------------------------------
    def configs(self):
        return [(), ("NDEBUG",)]

    def modules(self, drivers, defs=((), ("NDEBUG",)), **kw):
        """compile and load driver units in parallel; yields modules"""
        jobs = [(d, tuple(c)) for d in drivers for c in defs]
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            futs = [(j, ex.submit(build.compile_driver, j[0], defs=j[1], **kw)) for j in jobs]
            out = []
            for j, f in futs:
                m = f.result()
                m.config = " ".join("-D" + x for x in j[1]) or "default"
                out.append(m)
                u = "drivers/%s [%s, %s]" % (j[0], build.STD, m.config)
                self.units.append(u)
                self.count("functions analysed", len(m.fns))
                self.count("IR instructions analysed", sum(len(f.insts) for f in m.fns.values()))
        return out

    def parallel(self, tasks, workers=8):
        """runs functions of a context in processes of their own and merges what they found"""
        import multiprocessing
        global _TASKS
        _TASKS = (self, tasks)
        with multiprocessing.get_context("fork").Pool(workers) as pool:
            for err, viol, counts, samples, floors in pool.imap(_one, range(len(tasks)), 1):
                if err:
                    from .ir import AnalysisError
                    raise AnalysisError(err)
                for k, v in viol.items():
                    self.violations.setdefault(k, v)
                for k, n in counts.items():
                    self.count(k, n)
                for x in samples:
                    self.sample(x)
                self.floors += floors

    # ---- result -------------------------------------------------------
    def known(self):
        r = {}
        p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith("finding: "):
                    parts = line[len("finding: "):].split(" ", 2)
                    if parts[0] == "property=" + self.prop:
                        r[parts[1][len("key="):]] = parts[2] if len(parts) > 2 else ""
        return r

    def finish(self):
        known = self.known()
        new = [v for k, v in self.violations.items() if k not in known]
        old = [v for k, v in self.violations.items() if k in known]
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": "Static analysis of the current sources; rules applied: "
                               + " | ".join(self.rules),
                "units": self.units,
                "counts": self.counts,
                "samples": self.samples,
            },
            "violations": len(new),
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
        }
        d = os.environ.get("VP_EVIDENCE", os.path.join(VERIF, "evidence"))
        os.makedirs(d, exist_ok=True)
        if self.floors:
            ev["coverage"]["missing"] = self.floors
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for v in old:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, v["where"], known[v["key"]]))
        if new:
            rep = os.path.join(d, self.prop + ".report.txt")
            with open(rep, "w") as f:
                for v in new:
                    f.write("%s\n  key: %s\n  %s\n" % (v["where"], v["key"], v["message"]))
                    for t in v["trace"]:
                        f.write("    %s\n" % t)
            for v in new[:20]:
                print("%s: %s [%s]" % (v["where"], v["message"], v["key"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rep))
            return 1
        if self.floors:
            for x in self.floors:
                print("ERROR: analysis anchor missing: %s" % x, file=sys.stderr)
            return 2
        print("OK property=%s units=%d %s" % (
            self.prop, len(self.units), " ".join("%s=%d" % (k.replace(" ", "_"), v)
                                                 for k, v in sorted(self.counts.items()))))
        return 0


_TASKS = None


def _one(i):
    from .ir import AnalysisError
    ctx, tasks = _TASKS
    ctx.violations, ctx.counts, ctx.samples, ctx.floors = {}, {}, [], []
    err = None
    try:
        tasks[i](ctx)
    except AnalysisError as e:
        err = None if ctx.violations else str(e)
    return err, ctx.violations, ctx.counts, ctx.samples, ctx.floors
