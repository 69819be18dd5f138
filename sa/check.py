"""Entry point: python3 -m sa.check <property> """
import importlib
import os
import pkgutil
import sys
import traceback

from . import build
from .ctx import Ctx
from .ir import AnalysisError
from . import rules

REGISTRY = {}


def load():
    for m in pkgutil.iter_modules(rules.__path__):
        mod = importlib.import_module("sa.rules." + m.name)
        for k, f in getattr(mod, "CHECKS", {}).items():
            assert k not in REGISTRY, k
            REGISTRY[k] = f


def main(argv):
    load()
    props = argv or sorted(REGISTRY)
    rc = 0
    for p in props:
        if p not in REGISTRY:
            print("no check for %s" % p, file=sys.stderr)
            return 2
        ctx = Ctx(p, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")))
        try:
            for std in ("c++14", "c++17") if ctx.tier == "thorough" else ("c++14",):
                build.STD = std
                REGISTRY[p](ctx)
            r = ctx.finish()
        except (AnalysisError, build.CompileError) as e:
            if ctx.violations:
                r = ctx.finish()
            else:
                r = 2
            if r != 1:
                print("ERROR property=%s: %s" % (p, e), file=sys.stderr)
                r = 2
        except Exception:
            traceback.print_exc()
            r = 2
        rc = max(rc, r) if rc != 1 else 1
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
