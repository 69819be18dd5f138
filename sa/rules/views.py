"""C16: string views: bounds, slices, comparisons, and searches."""
import re
from collections import namedtuple

from ..flow import Flow, addr, mentions, split
from ..invar import Inductive, ids
from ..ir import AnalysisError
from ..lin import L as Form
from .ints import leaves, outcomes
from .lockfree import bad, entry
from .registry import fresh, only

A0, A1, A2, A3, A4, A5 = [("arg", n) for n in range(6)]
MAX = (1 << 64) - 1
HALF = (1 << 63) - 1
V = namedtuple("V", "passed last res hit cmps finds copies lens thrown")
START = V(frozenset(), None, None, (), (), (), (), (), None)


def sub(a, b):
    return ("sub", 64, a, b)


def inc(a, d=1):
    return ("add", 64, a, d)


class Spec:
    """what a search has to do
       text: (start, size) of the text which is searched
       legs: list of (first index as a function of lin -> list of alternatives (condition forms, form), step, last index)"""


class View(Inductive):
    def __init__(self, ctx, fn, text, lengths=(), want=None, unit=1):
        Inductive.__init__(self)
        self.ctx, self.fn = ctx, fn
        self.start, self.size = text
        self.lengths = lengths
        self.want = want
        self.unit = unit            # how many characters a test looks at
        self.found = []
        self.exits = []
        self.bits = {i.id: int(i["ty"][1:]) for b in fn.blocks for i in b.phis + b.insts
                     if re.match(r"i\d+$", i.get("ty") or "")}

    def width(self, a):
        return self.bits.get(a[1]) if a[0] in ("ret", "was") else None

    def reset(self):
        self.exits, self.found = [], []

    def small(self, a):
        return False

    def base(self, fl, st):
        r = [("ule", x, HALF) for x in (self.size,) + tuple(self.lengths)]
        r.append(("ule", self.start, sub(MAX - 1, self.size)))      # the text lies in memory
        for p, n, res in st.auto.finds:
            # a pointer found lies within what was searched
            if fl.known(st, ("icmp", "eq", res, 0)) == 0:
                i = self.index(fl, st, p)
                if i is None:
                    continue
                p = ("add", 64, self.start, i)
                r += [("ule", p, res), ("ult", res, ("add", 64, p, n))]
        return r

    def bad(self, fl, st, inst, what):
        self.found.append((what, st.copy(), inst))

    def index(self, fl, st, p):
        """the index of a place in the text, as an expression"""
        if p == self.start:
            return 0
        if isinstance(p, tuple) and p[0] == "addr" and isinstance(p[2], int):
            i = self.index(fl, st, p[1])
            return None if i is None else (i + p[2] if isinstance(i, int) else inc(i, p[2] & MAX))
        if isinstance(p, tuple) and p[0] == "gep" and len(p) == 4:
            i = self.index(fl, st, p[1])
            if i is None:
                return None
            d = p[2] or 0
            e = None
            for x, s in p[3]:
                if s != 1:
                    return None
                e = x if e is None else ("add", 64, e, x)
            if isinstance(i, tuple):
                e = ("add", 64, i, e)
            else:
                d += i
            return e if not d else inc(e, d & MAX)
        # another pointer into the text, which is known by its bounds
        if isinstance(p, tuple) and p[0] == "phi" and self.implied(fl, st, "uge", p, self.start) and \
                self.implied(fl, st, "ule", sub(p, self.start), self.size):
            return sub(p, self.start)
        return None

    # ---- the search
    def match(self, fl, st):
        """what the last test said: True, False or None"""
        how, res = st.auto.res
        if how == "const":
            return res
        k = fl.known(st, res)
        if how == "eq":
            if k is None:
                k = fl.known(st, ("and", 8, res, 1))
            return None if k is None else bool(k & 1)
        if k is None:
            z = fl.known(st, ("icmp", "eq", res, 0))
            return None if z is None else (bool(z) if how == "cmp" else not z)
        return (k == 0) if how == "cmp" else (k != 0)

    def test(self, fl, st, inst, idx, how, n=1):
        """a place of the text is tested"""
        if not self.feasible(fl, st):
            return []
        if idx is None:
            self.bad(fl, st, inst, "the place in the text which is tested is not recognised")
            return []
        self.tested += 1
        a = st.auto
        if not self.implied(fl, st, "ule", idx, self.size) or \
                not self.implied(fl, st, "ule", n, sub(self.size, idx)):
            self.bad(fl, st, inst, "characters outside of the text are looked at")
        w = self.want
        leg = len(a.hit)
        out = []
        if w is None or leg >= len(w):
            self.bad(fl, st, inst, "the text is searched further than it should be")
            return []
        first, step, end, positive = w[leg]
        if a.last is not None:
            m = self.match(fl, st)
            if m is None:
                self.bad(fl, st, inst, "the result of a test is not looked at")
                return []
            if m == positive:
                # found: the next leg
                leg += 1
                a = st.auto = a._replace(hit=a.hit + (a.last,), last=None, res=None)
                if leg >= len(w):
                    self.bad(fl, st, inst, "the search goes on after something was found")
                    return []
                first, step, end, positive = w[leg]
            elif not self.implied(fl, st, "eq", idx, inc(a.last, step & MAX)):
                self.bad(fl, st, inst, "the places of the text are not tested one after the other")
        if a.last is None:
            L = self.lin(fl, st)
            x = L.value(idx)
            if not first(L, x):
                self.bad(fl, st, inst, "the search begins at another place than it should")
        # the same place gives the same answer
        if a.hit and how == "eq" or a.hit and how == "find":
            h = a.hit[0]
            s2 = st.copy()
            hp = w[0][3]
            if fl.learn(st, ("icmp", "eq", idx, h), 1):
                st.vals[inst.id] = (1 if hp else 0) if how == "eq" else (0 if not hp else None)
                if st.vals[inst.id] is None:
                    raise AnalysisError("%s: repeated test" % self.fn.name)
                st.auto = a._replace(last=idx, res=("const", hp))
                if self.feasible(fl, st):
                    out.append(st)
            if fl.learn(s2, ("icmp", "eq", idx, h), 0):
                s2.auto = a._replace(last=idx, res=(how, ("R", inst.id)))
                if self.feasible(fl, s2):
                    out.append(s2)
            return out
        st.auto = a._replace(last=idx, res=(how, ("R", inst.id)))

    def event(self, fl, st, kind, inst, info):
        if kind == "memcpy" or kind not in ("call", "throw"):
            return
        name, args = info
        a = st.auto
        if name.startswith("vp_sv_") and kind == "throw":
            return []
        if name == "vp_sv_eq":
            i, j = self.index(fl, st, args[0]), self.index(fl, st, args[1])
            return self.test(fl, st, inst, i if i is not None else j, "eq")
        if name == "vp_sv_find":
            i = self.index(fl, st, args[0])
            if i is None:
                if args[0] not in self.sets or not self.same(fl, st, args[1], self.sets[args[0]]):
                    self.bad(fl, st, inst, "other characters are looked for than the ones passed")
                return self.test(fl, st, inst, self.index(fl, st, args[2]), "find")
            self.tested += 1
            if not self.implied(fl, st, "ule", i, self.size) or not self.implied(fl, st, "ule", args[1], sub(self.size, i)):
                self.bad(fl, st, inst, "characters outside of the text are looked at")
            st.auto = a._replace(finds=a.finds + ((args[0], args[1], ("R", inst.id)),))
        elif name == "vp_sv_compare":
            if self.want is not None:
                i, o = self.index(fl, st, args[0]), args[1]
                if i is None:
                    i, o = self.index(fl, st, args[1]), args[0]
                if o not in self.sets or not self.same(fl, st, args[2], self.sets[o]):
                    self.bad(fl, st, inst, "another text is looked for than the one passed")
                return self.test(fl, st, inst, i, "cmp", args[2])
            st.auto = a._replace(cmps=a.cmps + ((args[0], args[1], args[2], ("R", inst.id)),))
        elif name == "vp_sv_copy":
            st.auto = a._replace(copies=a.copies + (tuple(args[:3]),))
        elif name == "vp_sv_length":
            st.auto = a._replace(lens=a.lens + ((args[0], ("R", inst.id)),))
        elif name == "__cxa_throw":
            st.auto = a._replace(thrown=args[1][1] if isinstance(args[1], tuple) else str(args[1]))

    def same(self, fl, st, x, y):
        return x == y or self.implied(fl, st, "eq", x, y)

    def havoc(self, fl, st, inst, name, args):
        st.auto = fresh(st.auto)
        if name == "vp_sv_length":
            n = ("ret", inst.id)
            self.sets[args[0]] = n
            self.lengths = tuple(x for x in self.lengths if x != n) + (n,)
            return True
        return True if name.startswith("vp_sv_") else None

    def exit(self, fl, st, kind, inst):
        if self.feasible(fl, st):
            self.exits.append((kind, inst, st))

    # ---- loops
    def ghosts(self, fl, st):
        a = st.auto
        g = {} if a.last is None else {"last": a.last}
        for n, h in enumerate(a.hit):
            g["hit%d" % n] = h
        return g

    def set_ghosts(self, fl, st, g):
        a = st.auto
        st.auto = a._replace(last=g.get("last"), hit=tuple(g["hit%d" % n] for n in range(len(a.hit))))

    def mode_of(self, fl, st, g):
        return tuple(sorted(g)) + (st.auto.res,)

    def params(self, fl, st):
        return [self.size] + [sub(self.size, x) for x in self.lengths]

    def templates(self, fl, st, dst, atoms, params):
        g = [x for x in atoms if x[0] == "hdr"]
        loc = {i.id for b in fl.loop[dst] for i in fl.fn.blocks[b].insts} | {-1 - dst}

        def index(x, ty):
            return x if ty == "i64" else sub(x, self.start)
        ph = [(("phi", p.id), index(("phi", p.id), p.get("ty"))) for p in fl.fn.blocks[dst].phis if p.get("ty") in ("i64", "ptr")]
        # the places of the loops around this one
        around = []
        for b in fl.headers:
            if b != dst and dst in fl.loop[b]:
                around += [index(("phi", p.id), p.get("ty")) for p in fl.fn.blocks[b].phis if p.get("ty") in ("i64", "ptr")]
        for i in sorted(fl.live[dst]):
            for x in sorted(ids(st.vals.get(i), set()) - loc):
                if x >= 0 and fl.fn.insts[x].op == "phi":
                    v = index(("phi", x), fl.fn.insts[x].get("ty"))
                    if v not in around:
                        around.append(v)
        for k, cs in self.inv.items():
            if k[0] == dst:         # what holds in other modes may hold in this one
                yield from [c for c in cs if not any(y[:2] == ("hdr", dst) and y not in atoms for y in c[1:] if isinstance(y, tuple))]
        bounds = list(params)
        for x in atoms:
            v = atoms[x]
            if isinstance(v, int) or not ids(v, set()) & loc:
                yield ("eq", x, v)
                if isinstance(v, tuple) and v[0] in ("sub", "add", "phi"):
                    bounds.append(v)
        for x, i in ph:
            if i != x:
                yield ("uge", x, self.start)
                yield ("eq", x, self.start)
            for p in bounds:
                yield ("ule", i, p)
                yield ("ult", i, p)
                yield ("eq", i, p)
            yield ("uge", i, 1)
            for y in g:
                for d in (0, 1, -1):
                    yield ("eq", i, inc(y, d) if d else y)
                    for w in around:
                        yield ("eq", ("add", 64, i, w), inc(y, d) if d else y)
                yield ("uge", i, y)
                yield ("ugt", i, y)
            for w in around:
                yield ("uge", i, w)
                yield ("ule", i, w)
                for p in bounds:
                    yield ("ule", i, sub(p, w))
            for y, j in ph:
                if y != x:
                    yield ("eq", i, j)
                    yield ("eq", i, inc(j))
                    yield ("ule", i, j)
        for x in g:
            for p in bounds:
                yield ("ult", x, p)
                yield ("ule", x, p)
            yield ("uge", x, 1)
            for y in g:
                if x != y:
                    yield ("uge", x, y)
                    yield ("ugt", x, y)
            for w in around:
                yield ("uge", x, w)
                yield ("ule", x, w)

    def header(self, fl, st, src, dst):
        a = st.auto
        if a.last is not None:
            m = self.match(fl, st)
            leg = len(a.hit)
            if m is not None and self.want is not None and leg < len(self.want) and m == self.want[leg][3]:
                st.auto = a._replace(hit=a.hit + (a.last,), last=None, res=None)
            elif m is not None:
                st.auto = a._replace(res=("const", m))
        Inductive.header(self, fl, st, src, dst)


def run(ctx, fn, text, **kw):
    want, sets = kw.pop("want", None), kw.pop("sets", {})
    c = View(ctx, fn, text, want=want, **kw)
    lengths = c.lengths

    def make(c):
        c.tested = 0
        c.sets, c.lengths = dict(sets), lengths
        return Flow(fn, c, init=START)
    fl = c.solve(fn, make)
    ctx.count("functions explored path by path")
    ctx.count("abstract states", fl.nodes)
    ctx.count("places of texts tested, in the code", c.tested)
    ctx.count("linear entailment queries", c.queries)
    ctx.count("inductive loop invariants", sum(len(v) for v in c.inv.values()))
    for what, st, inst in c.found:
        bad(ctx, fn, fl, st, inst, what)
    if not c.exits:
        raise AnalysisError("%s has no exit" % fn.name)
    return c, fl


class Lay:
    pass


def layout(m):
    L = Lay()
    for k, n in (("data", "SV_data"), ("size", "SV_size")):
        _, _, _, _, v = only(m, n, "member")
        if not (isinstance(v, tuple) and v[0] == "mem" and split(v[1])[0] == A0):
            raise AnalysisError("%s is not a member" % n)
        setattr(L, k, split(v[1])[1])
    return L


def view(L, a):
    return ("mem", addr(a, L.data), 8, 0), ("mem", addr(a, L.size), 8, 0)


class At:
    """an exit, with the linear relations which hold there"""

    def __init__(self, ctx, fn, c, fl, kind, inst, st):
        self.ctx, self.fn, self.c, self.fl, self.kind, self.inst, self.st = ctx, fn, c, fl, kind, inst, st
        self.lin = c.lin(fl, st)
        self.a = st.auto

    def v(self, e, w=64, s=False):
        return e if isinstance(e, Form) else self.lin.value(e, w, s)

    def same(self, x, y):
        x, y = self.v(x), self.v(y)
        return self.lin.infeasible([x - y - 1]) and self.lin.infeasible([y - x - 1])

    def never(self, *f):
        return self.lin.infeasible(list(f))

    def least(self, r, *xs):
        """r is the least of xs"""
        r, xs = self.v(r), [self.v(x) for x in xs]
        return all(self.never(r - x - 1) for x in xs) and self.never(*[x - r - 1 for x in xs])

    def no(self, what):
        bad(self.ctx, self.fn, self.fl, self.st, self.inst, what)

    def ret(self):
        return self.fl.val(self.st, self.inst["ops"][0])


def exits(ctx, c, fl, fn):
    for kind, inst, st in c.exits:
        if kind in ("ret", "throw"):
            ctx.count("results compared with the specification")
            yield At(ctx, fn, c, fl, kind, inst, st)


def results(p, e, d=0):
    """(value, exit) for every way the comparisons which e is made of may come out"""
    v = p.fl.known(p.st, e)
    rest = [] if v is not None or d > 6 else [x for x in leaves(e) if x[0] == "icmp" and p.fl.known(p.st, x) is None]
    if not rest:
        yield (e if v is None else v), p
        return
    for b in (0, 1):
        s = p.st.copy()
        if p.fl.learn(s, rest[0], b):
            if p.fl.known(s, rest[0]) is None:
                s.facts[rest[0]] = ("eq", b)
            q = At(p.ctx, p.fn, p.c, p.fl, p.kind, p.inst, s)
            if not q.lin.infeasible():
                yield from results(q, e, d + 1)


def truths(p):
    for r, s in outcomes(p.fl, p.st, p.ret()):
        q = At(p.ctx, p.fn, p.c, p.fl, p.kind, p.inst, s)
        if not q.lin.infeasible():
            yield bool(r), q


def accessors(ctx, m, L):
    text = view(L, A0)
    D, N = text
    for n, e in (("data", D), ("begin", D), ("rend", D), ("size", N), ("length", N)):
        fn = entry(m, "SV_" + n)
        c, fl = run(ctx, fn, text)
        for p in exits(ctx, c, fl, fn):
            if p.kind != "ret" or p.ret() != e:
                p.no("not the %s of the text is reported" % n)
    for n in ("end", "rbegin", "at", "index", "front", "back"):
        fn = entry(m, "SV_" + n)
        c, fl = run(ctx, fn, text)
        seen = set()
        for p in exits(ctx, c, fl, fn):
            seen.add(p.kind)
            if p.kind == "throw":
                if n != "at":
                    p.no("an exception is thrown")
                elif not p.never(p.v(N) - p.v(A1) - 1):
                    p.no("an index within the text is refused")
                continue
            i = c.index(fl, p.st, p.ret())
            want = {"end": N, "rbegin": N, "at": A1, "index": A1, "front": 0, "back": sub(N, 1)}[n]
            if i is None or not p.same(i, p.v(N) - 1 if False else want):
                if n == "back" and i is not None and p.never(p.v(N) - 1):
                    continue
                p.no("another place of the text is reported")
            if n == "at" and not p.never(p.v(A1) - p.v(N)):
                p.no("an index outside of the text is accepted")
        if n == "at" and not ctx.violations and seen != {"ret", "throw"}:
            raise AnalysisError("at(): outcomes %s" % seen)
    fn = entry(m, "SV_empty")
    c, fl = run(ctx, fn, text)
    for p in exits(ctx, c, fl, fn):
        for r, q in truths(p):
            if not q.never(q.v(N) - 1 if r else -q.v(N)):
                q.no("whether the text is empty is not reported")


def slices(ctx, m, L):
    D, N = text = view(L, A1)
    O, n, k = A0, A2, A3
    spec = {    # what must hold of the arguments; start; size (the least of)
        "substr": (lambda p: [p.v(N) - p.v(n)], lambda p: p.v(n), lambda p: [k, p.v(N) - p.v(n)]),
        "left": (lambda p: [p.v(N) - p.v(n)], lambda p: Form(), lambda p: [n]),
        "right": (lambda p: [p.v(N) - p.v(n)], lambda p: p.v(N) - p.v(n), lambda p: [n]),
        "leftClipped": (lambda p: [p.v(N) - p.v(n)], lambda p: p.v(n), lambda p: [p.v(N) - p.v(n)]),
        "rightClipped": (lambda p: [p.v(N) - p.v(n)], lambda p: Form(), lambda p: [p.v(N) - p.v(n)]),
        "clipped": (lambda p: [p.v(N) - p.v(n) - p.v(k)], lambda p: p.v(n), lambda p: [p.v(N) - p.v(n) - p.v(k)])}
    for name, (ok, at, size) in spec.items():
        fn = entry(m, "SV_" + name)
        c, fl = run(ctx, fn, text)
        seen = set()
        for p in exits(ctx, c, fl, fn):
            seen.add(p.kind)
            if p.kind == "throw":
                if "out_of_range" not in (p.a.thrown or "out_of_range"):   # (or else making it has failed)
                    p.no("an unexpected exception is thrown")
                if not p.never(*ok(p)):
                    p.no("arguments within the text are refused")
                continue
            if not all(p.never(-x - 1) for x in ok(p)):
                p.no("arguments outside of the text are accepted")
                continue
            i = c.index(fl, p.st, fl.load(p.st, addr(O, L.data), 8))
            s = fl.load(p.st, addr(O, L.size), 8)
            if i is None or not p.same(i, at(p)):
                p.no("the part of the text begins at another place")
            if not p.least(s, *size(p)):
                p.no("the part of the text has another length")
        if not ctx.violations and seen != {"ret", "throw"}:
            raise AnalysisError("%s(): outcomes %s" % (name, seen))
    # changes in place; the caller guarantees n <= size
    D, N = text = view(L, A0)
    for name in ("removePrefix", "removeSuffix"):
        fn = entry(m, "SV_" + name)
        c, fl = run(ctx, fn, text)
        for p in exits(ctx, c, fl, fn):
            i = c.index(fl, p.st, fl.load(p.st, addr(A0, L.data), 8))
            s = fl.load(p.st, addr(A0, L.size), 8)
            L2 = p.lin
            L2.assume("ule", A1, N)
            if p.kind != "ret" or i is None or not p.same(i, A1 if name == "removePrefix" else 0):
                p.no("the remaining text begins at another place")
            if not p.same(p.v(s), p.v(N) - p.v(A1)):
                p.no("the remaining text has another length")
    fn = entry(m, "SV_swap")
    c, fl = run(ctx, fn, text)
    for p in exits(ctx, c, fl, fn):
        def get(o):
            return tuple(fl.load(p.st, addr(o, x), 8) for x in (L.data, L.size))
        if p.kind != "ret" or get(A0) != view(L, A1) or get(A1) != view(L, A0):
            p.no("the texts are not exchanged")
    fn = entry(m, "SV_copy")
    c, fl = run(ctx, fn, text)
    seen = set()
    for p in exits(ctx, c, fl, fn):
        seen.add(p.kind)
        if p.kind == "throw":
            if not p.never(p.v(N) - p.v(A3)):
                p.no("arguments within the text are refused")
            continue
        if len(p.a.copies) != 1:
            p.no("the text is not copied once")
            continue
        d, s, k = p.a.copies[0]
        i = c.index(fl, p.st, s)
        if not p.never(p.v(A3) - p.v(N) - 1):
            p.no("arguments outside of the text are accepted")
        if d != A1 or i is None or not p.same(i, A3) or not p.least(k, A2, p.v(N) - p.v(A3)) or not p.same(p.ret(), k):
            p.no("not what was asked for is copied")
    if not ctx.violations and seen != {"ret", "throw"}:
        raise AnalysisError("copy(): outcomes %s" % seen)
    fn = entry(m, "SV_ctorC")
    c, fl = run(ctx, fn, view(L, A0))
    for p in exits(ctx, c, fl, fn):
        s = fl.load(p.st, addr(A0, L.size), 8)
        ok = fl.load(p.st, addr(A0, L.data), 8)
        if p.kind != "ret" or ok != A1 and not (ok == 0 and fl.known(p.st, A1) == 0):
            p.no("the view does not refer to the text")
        if not (s == 0 and fl.known(p.st, A1) == 0 or any(x[0] == A1 and p.same(s, x[1]) for x in p.a.lens)):
            p.no("the view has another length than the text")


def comparisons(ctx, m, L):
    """l, r: the texts to compare; need: what must hold of the arguments"""
    D, N = view(L, A0)

    def part(p, size, pos, n):
        """the lengths of which the part of a text is the least"""
        return [n, p.v(size) - p.v(pos)]
    E, K = view(L, A1)
    E3, K3 = view(L, A3)
    len_ = lambda o: (lambda p: next((x[1] for x in p.a.lens if x[0] == o), None))
    spec = {
        "cmp": (None, lambda p: [N], (E, None), lambda p: [K], []),
        "cmpN": (None, lambda p: [N], (A1, None), lambda p: [A2], []),
        "cmpC": (None, lambda p: [N], (A1, None), lambda p: [len_(A1)(p)], []),
        "cmpPN": (A1, lambda p: part(p, N, A1, A2), (E3, None), lambda p: [K3], [(N, A1)]),
        "cmpPNPN": (A1, lambda p: part(p, N, A1, A2), (E3, A4), lambda p: part(p, K3, A4, A5), [(N, A1), (K3, A4)]),
        "cmpPNC": (A1, lambda p: part(p, N, A1, A2), (A3, None), lambda p: [len_(A3)(p)], [(N, A1)]),
        "cmpPNCN": (A1, lambda p: part(p, N, A1, A2), (A3, None), lambda p: [A4], [(N, A1)]),
    }
    valid = {"cmpN": [A2], "cmp": [K], "cmpPN": [K3], "cmpPNPN": [K3], "cmpPNCN": [A4]}
    for op in ("eq", "ne", "lt", "le", "gt", "ge"):
        spec[op] = spec["cmp"]
        valid[op] = [K]
    for name, (pos, len1, (other, pos2), len2, need) in spec.items():
        fn = entry(m, "SV_" + name)
        c, fl = run(ctx, fn, (D, N), lengths=tuple(valid.get(name, ())))
        seen = set()
        for p0 in exits(ctx, c, fl, fn):
            seen.add(p0.kind)
            if p0.kind == "throw":
                if not need:
                    p0.no("an exception is thrown")
                elif not p0.never(*[p0.v(n) - p0.v(x) for n, x in need]):
                    p0.no("arguments within the text are refused")
                continue
            if not all(p0.never(p0.v(x) - p0.v(n) - 1) for n, x in need):
                p0.no("arguments outside of the text are accepted")
                continue
            if len(p0.a.cmps) != 1:
                p0.no("the texts are not compared once")
                continue
            a, b, k, r = p0.a.cmps[0]
            i = c.index(fl, p0.st, a)
            if i is None or not p0.same(i, pos if pos is not None else 0):
                p0.no("another part of the text is compared")
            oth = c.start
            c.start = other
            j = c.index(fl, p0.st, b)
            c.start = oth
            if j is None or not p0.same(j, pos2 if pos2 is not None else 0):
                p0.no("it is compared with another text")
            l1, l2 = len1(p0), len2(p0)
            if None in l2:
                p0.no("the length of the other text is not determined")
                continue
            if not p0.least(k, *(l1 + l2)):
                p0.no("not the common length of the texts is compared")
            sized(p0, name, r, l1, l2)
        if need and not ctx.violations and seen != {"ret", "throw"}:
            raise AnalysisError("%s(): outcomes %s" % (name, seen))


def sized(p, name, r, l1, l2):
    """the result agrees with the comparison's, and with the lengths if that is 0"""
    def cases(q):
        """(forms which hold, sign of the comparison as it should be)"""
        cr = q.v(r, 32, True)
        x, y = [q.v(z) for z in l1], [q.v(z) for z in l2]
        eq0 = [cr, -cr]
        # min(x) < min(y): some of x is below all of y
        for z in x:
            yield eq0 + [w - z - 1 for w in y], -1
        for z in y:
            yield eq0 + [w - z - 1 for w in x], 1
        for z in x:
            for t in y:
                yield eq0 + [z - t, t - z] + [w - z for w in x] + [w - t for w in y], 0
        yield [cr - 1], 1
        yield [-cr - 1], -1
    p.ctx.count("results of comparisons")
    if name.startswith("cmp"):
        for v, q in results(p, p.ret()):
            v = q.v(v, 32, True)
            for f, s in cases(q):
                wrong = {1: [[-v]], -1: [[v]], 0: [[v - 1], [-v - 1]]}[s]
                if not all(q.never(*(f + w)) for w in wrong):
                    q.no("the result does not have the sign it should")
        return
    for t, q in truths(p):
        for f, s in cases(q):
            want = {"eq": s == 0, "ne": s != 0, "lt": s < 0, "le": s <= 0, "gt": s > 0, "ge": s >= 0}[name]
            if want != t and not q.never(*f):
                q.no("the operator does not agree with the comparison")


def ends(ctx, m, L):
    D, N = view(L, A0)
    E, K = view(L, A1)
    for side in ("starts", "ends"):
        for suffix, (o, n) in (("", (E, lambda p: K)), ("N", (A1, lambda p: A2)),
                               ("C", (A1, lambda p: next((x[1] for x in p.a.lens if x[0] == A1), None)))):
            fn = entry(m, "SV_%sWith%s" % (side, suffix))
            c, fl = run(ctx, fn, (D, N), lengths={"": (K,), "N": (A2,), "C": ()}[suffix])
            for p0 in exits(ctx, c, fl, fn):
                if p0.kind != "ret":
                    p0.no("an exception is thrown")
                    continue
                for t, p in truths(p0):
                    k = n(p)
                    if k is None:
                        p.no("the length of the other text is not determined")
                        continue
                    if not p.a.cmps:
                        # without a look at the text: the other one is longer, or empty
                        if not (p.same(k, 0) if t else p.never(p.v(N) - p.v(k))):
                            p.no("the texts are not compared")
                        continue
                    a, b, l, r = p.a.cmps[0]
                    i = c.index(fl, p.st, a)
                    at = Form() if side == "starts" else p.v(N) - p.v(k)
                    if i is None or b != o or not p.same(l, k) or not p.same(i, at) or len(p.a.cmps) > 1:
                        p.no("something else is compared than the %s of the text" % ("start" if side == "starts" else "end"))
                    if not p.never(p.v(i) + p.v(l) - p.v(N) - 1):
                        p.no("characters outside of the text are looked at")
                    cr = p.v(r, 32, True)
                    wrong = [[cr - 1], [-cr - 1]] if t else [[cr, -cr]]
                    if not all(p.never(*w) for w in wrong):
                        p.no("the result does not agree with the comparison")
        fn = entry(m, "SV_%sWithc" % side)
        at = (lambda L_, x: same(L_, x, Form())) if side == "starts" else (lambda L_, x: same(L_, x, L_.value(N) - 1))
        c, fl = run(ctx, fn, (D, N), want=[(at, 1, None, True)])
        for p0 in exits(ctx, c, fl, fn):
            if p0.kind != "ret":
                p0.no("an exception is thrown")
                continue
            for t, p in truths(p0):
                if p.a.last is None:
                    if t or not p.never(p.v(N) - 1):
                        p.no("the character is not tested")
                elif c.match(fl, p.st) != t:
                    p.no("the result does not agree with the test")


def same(L, x, y):
    return L.infeasible([x - y - 1]) and L.infeasible([y - x - 1])


def least(L, r, *xs):
    return all(L.infeasible([r - x - 1]) for x in xs) and L.infeasible([x - r - 1 for x in xs])


SEARCHES = {    # backward?, looks for what does not match?, whole text rather than one of the characters?
    "find": (False, False, True), "rfind": (True, False, True), "findFirstOf": (False, False, False),
    "findFirstNotOf": (False, True, False), "findLastOf": (True, False, False), "findLastNotOf": (True, True, False)}


def searches(ctx, m, L):
    D, N = view(L, A0)
    E, K = view(L, A1)
    for name, (back, neg, whole) in SEARCHES.items():
        for form in ("c", "c0", "n", "v", "v0", "s", "s0"):
            fn = entry(m, "SV_%s_%s" % (name, form))
            pos = (MAX if back else 0) if form.endswith("0") else A2
            sets = {"n": {A1: A3}, "v": {E: K}, "v0": {E: K}}.get(form, {})
            char = form[0] == "c"
            block = whole and not char

            def count(a):
                """how many characters are looked at together"""
                if not block:
                    return 1
                if sets:
                    return next(iter(sets.values()))
                return next((x[1] for x in a.lens if x[0] == A1), None)

            def end(L_, st_auto):
                k = count(st_auto)
                return None if k is None else L_.value(N) - L_.value(k)
            box = {}

            def first(L_, x):
                k = next(iter(sets.values())) if block and sets else box.get("k") if block else 1
                k = k if k is not None else next(iter(box["c"].sets.values()), None)
                if k is None:
                    return False
                last = L_.value(N) - L_.value(k)
                p = L_.value(pos)
                return least(L_, x, p, last) if back else same(L_, x, p)
            want = [(first, -1 if back else 1, None, not neg)]
            lengths = tuple(sets.values())
            c = searching(ctx, fn, (D, N), want, sets, lengths, box)
            fl = c.fl
            seen = set()
            for p in exits(ctx, c, fl, fn):
                if p.kind != "ret":
                    p.no("an exception is thrown")
                    continue
                k = count(p.a)
                if k is None and block:
                    p.no("the length of the text looked for is not determined")
                    continue
                r = p.ret()
                none = p.same(r, MAX)
                size, k, ps = p.v(N), p.v(k), p.v(pos)
                if p.a.finds:
                    # the traits search
                    a, n, res = p.a.finds[0]
                    i = c.index(fl, p.st, a)
                    if not char or back or neg or len(p.a.finds) > 1 or not p.same(i, pos) or not p.same(n, size - ps):
                        p.no("not what remains of the text is searched")
                        continue
                    null = fl.known(p.st, ("icmp", "eq", res, 0))
                    if null is None:
                        p.no("the result of the search is not looked at")
                    elif null:
                        if not none:
                            p.no("something is reported which was not found")
                    elif not p.same(p.v(r), p.v(res) - p.v(D)):
                        p.no("another place is reported than the one found")
                    seen.add("none" if null else "found")
                    continue
                if p.a.last is None:
                    # nothing tested: an empty text is found everywhere
                    if none and r in (-1, MAX):
                        seen.add("none")
                        if back:
                            ok = p.never(size - k)
                        else:
                            ok = p.never(size - k - ps)
                        if not ok:
                            p.no("nothing is found although the text was not searched")
                    else:
                        seen.add("found")
                        want_ = least(p.lin, p.v(r), ps, size) if back else p.same(r, ps) and p.never(ps - size - 1)
                        if not (block and p.same(k, 0) and want_):
                            p.no("something is found although nothing was tested")
                    continue
                m_ = c.match(fl, p.st)
                if m_ is None:
                    p.no("the result of a test is not looked at")
                elif m_ == (not neg):
                    seen.add("found")
                    if not p.same(r, p.a.last):
                        p.no("another place is reported than the one found")
                else:
                    seen.add("none")
                    if r not in (-1, MAX):
                        p.no("something is reported which was not found")
                    final = p.v(p.a.last)
                    if not (p.same(final, Form()) if back else p.same(final, size - k)):
                        p.no("the search ends before all places were tested")
            if not ctx.violations and seen != {"found", "none"}:
                raise AnalysisError("%s: outcomes %s" % (fn.name, seen))


def searching(ctx, fn, text, want, sets, lengths, box):
    c = View(ctx, fn, text, lengths=lengths, want=want)
    box["c"] = c

    def make(c):
        c.tested = 0
        c.sets, c.lengths = dict(sets), tuple(lengths)
        return Flow(fn, c, init=START)
    c.fl = c.solve(fn, make)
    ctx.count("functions explored path by path")
    ctx.count("abstract states", c.fl.nodes)
    ctx.count("places of texts tested, in the code", c.tested)
    ctx.count("linear entailment queries", c.queries)
    ctx.count("inductive loop invariants", sum(len(v) for v in c.inv.values()))
    for what, st, inst in c.found:
        bad(ctx, fn, c.fl, st, inst, what)
    if not c.exits:
        raise AnalysisError("%s has no exit" % fn.name)
    return c


def trims(ctx, m, L):
    D, N = view(L, A1)
    E, K = view(L, A2)
    fwd = lambda L_, x: same(L_, x, Form())
    bwd = lambda L_, x: same(L_, x, L_.value(N) - 1)
    for name in ("leftTrimmed", "rightTrimmed", "trimmed"):
        for form in ("c", "n", "v", "s"):
            fn = entry(m, "SV_%s_%s" % (name, form))
            sets = {"n": {A2: A3}, "v": {E: K}}.get(form, {})
            legs = {"leftTrimmed": [(fwd, 1, None, False)], "rightTrimmed": [(bwd, -1, None, False)],
                    "trimmed": [(fwd, 1, None, False), (bwd, -1, None, False)]}[name]
            c = searching(ctx, fn, (D, N), legs, sets, tuple(sets.values()), {})
            fl = c.fl
            seen = set()
            for p in exits(ctx, c, fl, fn):
                if p.kind != "ret":
                    p.no("an exception is thrown")
                    continue
                data, n = fl.load(p.st, addr(A0, L.data), 8), fl.load(p.st, addr(A0, L.size), 8)
                hits = p.a.hit
                if p.a.last is not None and c.match(fl, p.st) is False:
                    hits = hits + (p.a.last,)
                size = p.v(N)
                if len(hits) < len(legs):
                    seen.add("empty")
                    if not p.same(n, 0):
                        p.no("something remains although everything should be trimmed")
                    last = p.a.last
                    if last is None:
                        if hits or not p.never(size - 1):
                            p.no("the text is given up without having been searched")
                    elif hits or not p.same(last, 0 if name == "rightTrimmed" else sub(N, 1)):
                        p.no("the text is given up before all of it was searched")
                    continue
                seen.add("rest")
                i = c.index(fl, p.st, data)
                b = p.v(hits[0]) if name != "rightTrimmed" else Form()
                e = p.v(hits[-1]) + 1 if name != "leftTrimmed" else size
                if i is None or not p.same(i, b):
                    p.no("what remains begins at another place")
                if not p.same(p.v(n), e - b):
                    p.no("what remains has another length")
            if not ctx.violations and seen != {"empty", "rest"}:
                raise AnalysisError("%s: outcomes %s" % (fn.name, seen))


def c16(ctx):
    ctx.rule("no character outside of the text is looked at; parts of a text lie in it, and out_of_range is thrown exactly for arguments outside of it")
    ctx.rule("searches test the places of the text one after the other from the right one on, stop at the first hit, report it, and report npos only after the last place was tested (inductive loop invariants)")
    ctx.rule("comparisons compare the common length once, and then the lengths")
    ctx.assume("no text is longer than half of the address space; the character traits do what they are specified to do")
    for m in ctx.modules(["views.cpp"], [("NDEBUG",)]):
        L = layout(m)
        accessors(ctx, m, L)
        slices(ctx, m, L)
        comparisons(ctx, m, L)
        ends(ctx, m, L)
        searches(ctx, m, L)
        trims(ctx, m, L)
    ctx.floor("operations of string views", ctx.counts.get("functions explored path by path", 0), 90)


CHECKS = {"C16": c16}
