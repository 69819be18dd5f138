"""C24: integers of several blocks: bits, shifts, comparisons, sums, differences and conversions."""
import re

from ..flow import Flow, addr
from ..ir import AnalysisError
from ..flow import split
from ..lin import INV, L, Lin
from .bits import P, Q, ONE, ZERO, WIDTH, S, Bits, Client, neg, no_ret, op2, same
from .ints import outcomes
from .lockfree import bad
from .packed import A0, A1, A2

NAME = re.compile(r"^vp_e_(u\d+|x128)_([a-z0-9]+)_(\d+)(?:_(\d+))?$")
SUMS = {"add": (1, 1, 0, 0), "add2": (1, 1, 0, 0), "sub": (1, -1, 0, 0), "sub2": (1, -1, 0, 0), "minus": (-1, 0, 0, 0),
        "inc": (1, 0, 1, 0), "pinced": (1, 0, 1, 0), "dec": (1, 0, -1, 0), "pdeced": (1, 0, -1, 0), "pinc": (1, 0, 0, 0), "pdec": (1, 0, 0, 0)}
ORDER = {"lt": lambda d: [d - 1, -d], "gt": lambda d: [-d - 1, d], "le": lambda d: [d, -d - 1], "ge": lambda d: [-d, d - 1]}


_simple = {}


def simple(e):
    """a piece of several loads put together is the load"""
    if not isinstance(e, tuple):
        return e
    if e not in _simple:
        r = e if e[0] in ("mem", "arg") else tuple(simple(x) for x in e)
        if r[0] == "piece" and len(r) == 4 and isinstance(r[1], tuple) and r[1][0] == "mix":
            for o, n, v in r[1][4]:
                if (o, n) == (r[2], r[3]):
                    r = v
                    break
        elif r[0] == "piece" and len(r) == 4 and isinstance(r[1], tuple) and r[1][0] == "mem" and isinstance(r[1][2], int):
            r = ("cast", "trunc", (8 * r[1][2], 8 * r[3]), ("lshr", 8 * r[1][2], r[1], 8 * r[2]) if r[2] else r[1])
        _simple[e] = r
    return _simple[e]


def truth(e):
    """is made of comparisons"""
    if not isinstance(e, tuple):
        return False
    if e[0] in ("and", "or", "xor"):
        return e[1] == 1
    return e[0] == "icmp" or e[0] == "cast" and e[1] == "trunc" and e[2][1] == 1 and isinstance(e[3], tuple) and e[3][0] == "cast" and e[3][2][0] == 1


class Words(Lin):
    """comparisons are numbers 0 or 1; quotients by powers of two which can be 0 or 1 only are told apart"""

    def __init__(self, facts):
        super().__init__({simple(e): f for e, f in facts.items()}, small=lambda a: False)

    def fact(self, e, f):
        if not truth(e):
            return super().fact(e, f)
        v = f[1] if f[0] == "eq" else 0 if f == ("ne", frozenset({1})) else 1 if f == ("ne", frozenset({0})) else None
        if v is not None:
            v &= 1
            if e[0] == "icmp":
                p, q = self.ways(e)
                alts = p if v else q
                if len(alts) == 1:
                    self.cons += alts[0]
                else:
                    self.splits.append(alts)
            self.eq(self.raw(e, 1), L({}, v))

    def ways(self, e):
        x, y = self.forms(*e[1:4])
        return self.rel(e[1], x, y), self.rel(INV[e[1]], x, y)

    def raw(self, e, w=64):
        return super().raw(simple(e), w)

    def _raw(self, e, w):
        if w == 1 and truth(e):
            if e[0] == "cast":
                return self.raw(e[3][3], 1)
            if e[0] == "icmp":
                p, q = self.ways(e)
                r = self.new(0, 1)
                self.splits.append([a + [r - 1] for a in p] + [a + [-r] for a in q])
                return r
            a, b = self.raw(e[2], 1), self.raw(e[3], 1)
            if isinstance(e[3], int):
                b = L({}, e[3] & 1)
            if isinstance(e[2], int):
                a = L({}, e[2] & 1)
            if e[0] == "xor" and not (a.t and b.t):
                x, c = (a, b.c) if a.t else (b, a.c)
                return -x + 1 if c else x
            r = self.new(0, 1)
            if e[0] == "and":
                self.cons += [a - r, b - r, r - a - b + 1]
            elif e[0] == "or":
                self.cons += [r - a, r - b, a + b - r]
            else:
                self.splits.append([[-a, r - b, b - r], [a - 1, r + b - 1, -r - b + 1]])
            return r
        if isinstance(e, tuple) and e[0] == "and" and e[1] == w and isinstance(e[3], int) and e[3] > 0 and e[3] & (e[3] + 1) == 0 and e[3].bit_length() < w:
            m = e[3] + 1
            v = self.value(e[2], w)
            if self.holds(-v + (m - 1)):
                return v
            r = self.new(0, m - 1)
            if self.holds(-v + (2 * m - 1)):
                self.splits.append([[v - r, r - v], [v - r - m, r + m - v]])
            else:
                q = self.new(0)
                self.eq(v, q * m + r)
                t = ((1 << w) - 1) // m
                if t <= 1 << 8:     # few of them: each in turn at the ends, the rest between
                    self.splits.append([[v - r - m * i, r + m * i - v] for i in (0, 1, t)] + [[q - 2, -q + (t - 1)]])
                else:
                    self.splits.append([[v - r, r - v], [v - r - m, r + m - v], [v - r - m * t, r + m * t - v], [q - 2, -q + (t - 1)]])
            return r
        return super()._raw(e, w)


def expected(op, n, k):
    p, q = [P(i) for i in range(n)], [Q(i) for i in range(n)]
    if op in ("copy", "move", "assign", "massign"):
        return p
    if op == "zero":
        return [ZERO] * n
    if op == "not":
        return [neg(f) for f in p]
    if op in ("and", "or", "xor", "and2", "or2", "xor2"):
        return [op2(op.rstrip("2"), f, g) for f, g in zip(p, q)]
    if op in ("shl", "shl2", "shln", "shln2"):
        return [ZERO] * k + p[:n - k]
    if op in ("shr", "shr2", "shrn", "shrn2"):
        return p[k:] + [ZERO] * k
    if op == "put":
        return p[:k] + [Q(0)] + p[k + 1:]
    if op == "rflip":
        return p[:k] + [neg(P(k))] + p[k + 1:]
    f = {"ror": ("or", Q(0)), "rand": ("and", Q(0)), "rxor": ("xor", Q(0)), "rsub": ("and", neg(Q(0)))}.get(op)
    if f:
        return p[:k] + [op2(f[0], P(k), f[1])] + p[k + 1:]
    m = re.match(r"(?:from|set)u?(\d+)(x?)$", op)
    if m:
        s = k if m.group(2) else int(m.group(1))
        return [P(i) if i < s else ZERO for i in range(n)]
    return None


def impossible(st):
    """the path compares places in one object the wrong way round"""
    for e, f in st.facts.items():
        if isinstance(e, tuple) and e[0] == "icmp" and f[0] == "eq":
            (a, x), (b, y) = split(e[2]), split(e[3])
            if a == b and isinstance(a, tuple) and a[0] in ("alloca", "arg") and isinstance(x, int) and isinstance(y, int):
                r = {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}[e[1][-2:]]
                if r != bool(f[1]):
                    return True
    return False


def needs(f, d):
    """the function is true only where some of d is"""
    for g in d if f is not None else ():
        if f == ZERO:
            break
        if set(g[0]) <= set(f[0]):
            f = op2("and", f, neg(g))
    return f == ZERO


def number(L_, fl, st, a, n, w):
    r = L({}, 0)
    for j in range((n + w - 1) // w):
        r = r + L_.value(fl.load(st.copy(), addr(a, j * w // 8), w // 8), w) * (1 << (w * j))
    return r


def one(ctx, m, name):
    fn = m.fns[name]
    t, op, n, k = NAME.match(name).groups()
    w, n, k = WIDTH.get(t, 64), int(n), int(k) if k is not None else None
    c = Client(fn)
    fl = Flow(fn, c, init=S(0), limit=20000)
    ctx.count("functions explored path by path")
    ctx.count("abstract states", fl.nodes)
    no = lambda st, inst, what: bad(ctx, fn, fl, st, inst, what)
    B = Bits()
    blocks = (n + w - 1) // w
    rets = 0
    for kind, inst, st in c.exits:
        if impossible(st):
            continue
        if kind != "ret":
            no(st, inst, "an exception is thrown" if kind == "throw" else "a block which does not exist is used, or an assertion fails")
            continue
        if op in SUMS or op in ORDER:
            if fl.load(st.copy(), addr(A2, blocks * w // 8), w // 8) != 1:
                continue            # not a number of this width
            rets += 1
            if op in ORDER:
                v = fl.load(st.copy(), addr(A2, 0), w // 8)
                for b, s in [(v, st)] if isinstance(v, int) else outcomes(fl, st, v):
                    Z = Words(s.facts)
                    d = number(Z, fl, s, A1, n, w) - number(Z, fl, s, A0, n, w)
                    ctx.count("comparisons decided")
                    # the opposite of what is said must not be possible
                    if not Z.infeasible([ORDER[op](d)[1 if b else 0]], depth=40):
                        no(s, inst, "the comparison does not give the order of the numbers")
                continue
            a, b, e, _ = SUMS[op]
            Z = Words(st.facts)
            R = number(Z, fl, st, A2, n, w)
            d = number(Z, fl, st, A0, n, w) * a + number(Z, fl, st, A1, n, w) * b + e - R
            M = 1 << n
            ctx.count("results compared")
            if not Z.infeasible([R - M], depth=40):
                no(st, inst, "bits beyond the last one are set")
                continue
            # d is a multiple of M: anything between must be impossible
            at = [x * M for x in range(-2, 3)]
            gaps = [[d * -1 + (at[0] - 1)]] + [[d - (x + 1), d * -1 + (y - 1)] for x, y in zip(at, at[1:])] + [[d - (at[-1] + 1)]]
            if not all(Z.infeasible(g, depth=40) for g in gaps):
                no(st, inst, "the result is not the one of the operation, reduced to the width of the numbers")
            continue
        rets += 1
        if op in ("eq", "ne", "null"):
            v = fl.val(st, inst["ops"][0])
            for b, s in outcomes(fl, st, v):
                true, some = B.facts(s.facts)
                ctx.count("comparisons decided")
                d = [op2("xor", P(i), Q(i)) if op != "null" else P(i) for i in range(n)]
                if bool(b) == (op != "ne"):
                    for i, f in enumerate(d):
                        if not same(f, ZERO, true):
                            no(st, inst, "the result does not depend on a bit of the numbers")
                            break
                elif not any(needs(f, d) for f in true) and not any(all(needs(f, d) for f in l) for l in some):
                    no(st, inst, "the result does not depend on the bits of the numbers only")
            continue
        true, some = B.facts(st.facts)
        v = None
        if op in ("get", "ref", "nref"):
            v, want = fl.val(st, inst["ops"][0]), [neg(P(k)) if op == "nref" else P(k)]
        elif op.startswith(("to", "du")):
            s = int(op[2:])
            v, want = fl.val(st, inst["ops"][0]), [P(i) if i < n else ZERO for i in range(s)]
        if v is not None:
            got = B.of(v, len(want))
        else:
            want = expected(op, n, k)
            if want is None:
                raise AnalysisError("%s: unknown operation" % name)
            want = want + [ZERO] * (blocks * w - n)
            got = []
            for j in range(blocks):
                got += B.of(fl.load(st.copy(), addr(A2, j * w // 8), w // 8), w)
        ctx.count("bits of results compared", len(want))
        for i, (f, g) in enumerate(zip(got, want)):
            if not same(f, g, true):
                no(st, inst, "a bit of the result is not what it should be" if i < n else "bits beyond the last one are set")
                break
    if not rets:
        no_ret(ctx, fn, name, c)


def c24(ctx):
    ctx.rule("each bit of the result of ~ & | ^ << >>, of assignments, conversions and references is, as a boolean function of the bits of the operands, the one the operation stands for; bits beyond the last one are zero")
    ctx.rule("the blocks of a sum, difference, successor or predecessor add up to the result modulo two to the power of the width, on each path, by linear arithmetic over the blocks; comparisons likewise")
    ctx.assume("the widths in drivers/wide.cpp (5 to 200 bits in blocks of 8 to 64 bits)")
    for m in ctx.modules(["wide.cpp"], [("NDEBUG",), ()]):
        names = [n for n in m.fns if NAME.match(n)]
        step = 20
        ctx.parallel([lambda c, l=names[i::len(names) // step + 1], m=m: [one(c, m, n) for n in l] for i in range(len(names) // step + 1)])
        ctx.floor("operations", len(names), 1000)


CHECKS = {"C24": c24}
