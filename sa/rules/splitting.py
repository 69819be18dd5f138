"""C23: splitting sequences at delimiters."""
import itertools
import re

from ..flow import Flow, split
from ..ir import AnalysisError
from .lockfree import bad, entry
from .monitor import fname

A0 = ("arg", 0)


class Client:
    exact, maxdepth = True, 400

    def __init__(self, ctx, fn, n, size):
        self.ctx, self.fn, self.n, self.size = ctx, fn, n, size
        self.exits = []

    def private(self, fl, st, base):
        return True

    def place(self, a):
        """the index of the element at an address"""
        if not isinstance(a, tuple):
            return None
        b, o = split(a)
        return o // self.size if b == A0 and isinstance(o, int) and o % self.size == 0 else None

    def event(self, fl, st, kind, inst, info):
        if kind in ("load", "store") and split(info[0])[0] == A0:
            bad(self.ctx, self.fn, fl, st, inst, "an element is accessed other than by the functions given")
        if kind not in ("call", "throw"):
            return
        name, args = info
        if name == "vp_piece":
            st.auto += ((self.place(args[0]), self.place(args[1]), inst.id),)
            if len(st.auto) > self.n + 1:
                bad(self.ctx, self.fn, fl, st, inst, "more pieces are announced than there are")
                return []
        elif name == "vp_delimiter":
            k = self.place(args[0])
            if k is None or not 0 <= k < self.n:
                bad(self.ctx, self.fn, fl, st, inst, "an element which does not exist is tested")
                return []
        elif not name.startswith("llvm."):
            raise AnalysisError("%s: a call of %s is not understood" % (self.fn.name, name))

    def havoc(self, fl, st, inst, name, args):
        if name == "vp_delimiter":      # the same answer for the same element
            st.vals[inst.id] = ("intr", "delimiter", self.place(args[0]))
        return True

    def exit(self, fl, st, kind, inst):
        self.exits.append((kind, inst, st))


def pieces(n, delims, empty):
    out = []
    s = 0
    for k in sorted(delims) + [n]:
        if empty or k > s:
            out.append((s, k))
        s = k + 1
    return out


def check(ctx, fn, n, size, empty):
    c = Client(ctx, fn, n, size)
    fl = Flow(fn, c, init=())
    ctx.count("functions explored path by path")
    ctx.count("abstract states", fl.nodes)
    seen = set()
    for kind, inst, st in c.exits:
        if kind == "noreturn" and inst.callee() == "__assert_fail":
            bad(ctx, fn, fl, st, inst, "an assertion may fail")
        if kind != "ret":
            continue
        ctx.count("paths compared with the specification")
        known = [fl.known(st, ("intr", "delimiter", k)) for k in range(n)]
        got = [x[:2] for x in st.auto]
        for ds in itertools.product((0, 1), repeat=n):
            if any(k is not None and bool(k) != bool(d) for k, d in zip(known, ds)):
                continue
            seen.add(ds)
            want = pieces(n, [k for k in range(n) if ds[k]], empty)
            if got != want:
                w = st.auto[next((i for i, x in enumerate(got) if i >= len(want) or x != want[i]), -1)][2] if got else None
                bad(ctx, fn, fl, st, fn.insts[w] if w is not None else inst,
                    "the pieces are not those between the delimiters: of %s, %s are announced and not %s" % (
                        "".join("," if d else "x" for d in ds) or "nothing",
                        [("x" * (b - a) if a is not None and b is not None and b >= a else "?") for a, b in got],
                        ["x" * (b - a) for a, b in want]))
                break
    if len(seen) != 2 ** n and not ctx.violations:
        ds = next(d for d in itertools.product((0, 1), repeat=n) if d not in seen)
        ctx.violate("endless@" + fn.name, fname(fn), "%s does not return for a text such as %s" % (
            fname(fn), "".join("," if d else "x" for d in ds) or "the empty one"))
    ctx.count("texts decided", len(seen))


def c23(ctx):
    ctx.rule("split() announces what is between two delimiters, before the first and after the last one, once each and in order; "
             "splitNoAllowEmpty() the same without empty pieces; only elements which exist are tested")
    done = 0
    for m in ctx.modules(["split.cpp"]):
        for name in sorted(m.fns):
            x = re.match(r"vp_e_(split|nonempty)_([cw])_(\d)$", name)
            if x:
                done += 1
                check(ctx, entry(m, name[5:]), int(x.group(3)), 1 if x.group(2) == "c" else 24, x.group(1) == "split")
    ctx.floor("functions splitting texts", done, 28)
    ctx.sample("texts of 0 to 6 elements, of which each may be a delimiter or not")


CHECKS = {"C23": c23}
