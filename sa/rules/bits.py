"""C22: vectors of bits: every bit of a result is the right function of the bits given."""
import re
from collections import namedtuple

from ..flow import Flow, addr, split
from ..ir import AnalysisError
from ..lin import Lin
from .ints import outcomes
from .lockfree import bad, entry
from .packed import A0, A1, A2, num, lin

OUT_SIZE, OUT_OK, OUT_DATA = 0, 8, 16
WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64}
S = namedtuple("S", "n")

# ---- boolean functions of a few bits: (variables, table)

ZERO, ONE = ((), 0), ((), 1)
_memo = {}


def var(v):
    return ((v,), 0b10)


def widen(f, vs):
    """the table of f over more variables"""
    if f[0] == vs:
        return f[1]
    k = (f, vs)
    if k not in _memo:
        at = [vs.index(v) for v in f[0]]
        t = 0
        for x in range(1 << len(vs)):
            y = 0
            for j, p in enumerate(at):
                y |= (x >> p & 1) << j
            t |= (f[1] >> y & 1) << x
        _memo[k] = t
    return _memo[k]


def reduce(vs, t):
    """without variables which do not matter"""
    i = 0
    while i < len(vs):
        n = len(vs)
        lo = hi = 0
        j = 0
        for x in range(1 << n):
            if not x >> i & 1:
                lo |= (t >> x & 1) << j
                hi |= (t >> (x | 1 << i) & 1) << j
                j += 1
        if lo == hi:
            vs, t = vs[:i] + vs[i + 1:], lo
        else:
            i += 1
    return (vs, t)


_ops = {}


def op2(k, f, g):
    if f is None or g is None:
        if k == "and" and ZERO in (f, g):
            return ZERO
        if k == "or" and ONE in (f, g):
            return ONE
        return None
    if (k, f, g) not in _ops:
        vs = tuple(sorted(set(f[0]) | set(g[0])))
        if len(vs) > 8:
            r = None
        else:
            a, b = widen(f, vs), widen(g, vs)
            r = reduce(vs, a & b if k == "and" else a | b if k == "or" else a ^ b)
        _ops[k, f, g] = r
    return _ops[k, f, g]


def neg(f):
    return None if f is None else (f[0], f[1] ^ ((1 << (1 << len(f[0]))) - 1))


def any_of(l):
    r = ZERO
    for f in l:
        r = op2("or", r, f)
    return r


class Bits:
    """the bits of an expression as functions of the bits of the inputs"""

    def __init__(self, boolean=()):
        self.boolean = boolean      # inputs whose bytes are 0 or 1
        self.memo = {}

    def of(self, e, w):
        k = (e, w)
        if k not in self.memo:
            r = self._of(e, w)
            assert len(r) == w
            self.memo[k] = r
        return self.memo[k]

    def _of(self, e, w):
        if isinstance(e, int):
            return [ONE if e >> i & 1 else ZERO for i in range(w)]
        if not isinstance(e, tuple):
            return [None] * w
        k = e[0]
        if k == "mem" and e[2] * 8 == w or k == "mem" and w < 8:
            b, o = split(e[1])
            if b in (A0, A1) and o is not None:
                if b in self.boolean:
                    return [var((b[1], 8 * (o + i // 8))) if i % 8 == 0 else ZERO for i in range(w)]
                return [var((b[1], 8 * o + i)) for i in range(w)]
        elif k == "cast" and e[1] in ("zext", "sext", "trunc"):
            s = e[2][0]
            x = self.of(e[3], s) if s else [None] * w
            return x[:w] if e[1] == "trunc" else x + [ZERO if e[1] == "zext" else x[-1]] * (w - s)
        elif k in ("and", "or", "xor") and e[1] == w:
            return [op2(k, f, g) for f, g in zip(self.of(e[2], w), self.of(e[3], w))]
        elif k in ("shl", "lshr", "ashr") and e[1] == w and isinstance(e[3], int) and 0 <= e[3] < w:
            x, n = self.of(e[2], w), e[3]
            return [ZERO] * n + x[:w - n] if k == "shl" else x[n:] + [ZERO if k == "lshr" else x[-1]] * n
        elif k == "sub" and e[2] == 0 and e[1] == w:
            x = self.of(e[3], w)
            if all(f == ZERO for f in x[1:]):
                return [x[0]] * w
        elif k in ("add", "sub") and e[1] == w:
            x, y = self.of(e[2], w), self.of(e[3], w)
            if k == "add" and all(op2("and", f, g) == ZERO for f, g in zip(x, y)):
                return [op2("or", f, g) for f, g in zip(x, y)]
            c, r = (ZERO, []) if k == "add" else (ONE, [])
            for f, g in zip(x, y if k == "add" else [neg(g) for g in y]):
                p = op2("xor", f, g)
                r.append(op2("xor", p, c))
                c = op2("or", op2("and", f, g), op2("and", p, c))
            return r
        elif k == "mul" and isinstance(e[3], int) and e[1] == w:
            x = self.of(e[2], w)
            if all(f == ZERO for f in x[1:]):
                return [x[0] if e[3] >> i & 1 else ZERO for i in range(w)]
        elif k == "piece" and len(e) == 4 and e[3] * 8 == w:
            n = wide(e[1])
            if n:
                return self.of(e[1], n)[8 * e[2]:8 * e[2] + w]
        elif k == "mix" and 8 * e[2] == w:
            r = [None] * w
            for o, n, v in e[4]:
                r[8 * o:8 * (o + n)] = self.of(v, 8 * n)
            return r
        elif k == "icmp" and w == 1:
            f = self.cmp(e)
            if f is not None:
                return [f]
        elif k == "intr" and e[1].startswith(("llvm.fshl", "llvm.fshr")) and isinstance(e[4], int):
            x, y, n = self.of(e[2], w), self.of(e[3], w), e[4] % w
            z = y + x
            return (z[w - n:2 * w - n] if "fshl" in e[1] else z[n:n + w])
        elif k == "intr" and e[1].startswith("llvm.bitreverse"):
            return self.of(e[2], w)[::-1]
        return [None] * w

    def cmp(self, e):
        """a comparison as a function"""
        z = self.zero(e)
        if z is not None:
            bits, equal = z
            f = any_of(bits)
            return neg(f) if equal else f
        p, a, b = e[1:4]
        w = wide(a) or wide(b)
        if not w:
            return None
        if isinstance(b, int):
            m = (1 << w) - 1
            x = self.of(a, w)
            if p in ("slt", "sgt") and b & m == (0 if p == "slt" else m):
                return x[-1] if p == "slt" else neg(x[-1])
            if p in ("ult", "ugt"):
                c = (b if p == "ult" else b + 1) & m        # a < c, or not
                if c and c & (c - 1) == 0:
                    f = neg(any_of(x[c.bit_length() - 1:]))
                    return f if p == "ult" else neg(f)
        return None

    def zero(self, e):
        """(bits, whether the comparison says that they all are zero)"""
        if e[1] not in ("eq", "ne"):
            return None
        w = wide(e[2]) or wide(e[3])
        if not w:
            return None
        return [op2("xor", f, g) for f, g in zip(self.of(e[2], w), self.of(e[3], w))], e[1] == "eq"

    def facts(self, facts):
        """what is known: functions which are true, and lists of functions of which one is true"""
        true, some = [], []

        def zeros(bits, all_zero):
            bits = [f for f in bits if f != ZERO]
            if all_zero:
                true.extend(neg(f) for f in bits if f is not None)
            elif len(bits) == 1:
                true.extend(f for f in bits if f is not None)
            else:
                some.append(bits)
        for e, f in facts.items():
            if isinstance(e, tuple) and e[0] == "icmp":
                v = f[1] if f[0] == "eq" else 0 if f == ("ne", frozenset({1})) else 1 if f == ("ne", frozenset({0})) else None
                z = self.zero(e)
                if v is None:
                    continue
                if z:
                    zeros(z[0], z[1] == bool(v))
                else:
                    g = self.cmp(e)
                    if g is not None:
                        true.append(g if v else neg(g))
                continue
            w = wide(e)
            if not w:
                continue
            if f[0] == "eq":
                zeros([op2("xor", x, ONE if f[1] >> i & 1 else ZERO) for i, x in enumerate(self.of(e, w))], True)
            elif f[0] == "ne":
                for v in f[1]:
                    zeros([op2("xor", x, ONE if v >> i & 1 else ZERO) for i, x in enumerate(self.of(e, w))], False)
        return true, some


def wide(e):
    """how many bits an expression has"""
    if not isinstance(e, tuple):
        return None
    k = e[0]
    if k == "mem":
        return 8 * e[2]
    if k == "mix":
        return 8 * e[2]
    if k == "cast":
        return e[2][1]
    if k == "icmp":
        return 1
    if k in ("and", "or", "xor", "shl", "lshr", "ashr", "add", "sub", "mul"):
        return e[1]
    if k == "piece":
        return 8 * e[3]
    if k == "intr":
        m = re.search(r"\.i(\d+)$", e[1])
        return int(m.group(1)) if m else None
    return None


def same(f, g, true):
    """two functions give the same on this path"""
    if f is None or g is None:
        return False
    h = op2("xor", f, g)
    if h == ZERO:
        return True
    if h is None:
        return False
    for t in true:
        if set(t[0]) & set(h[0]):
            x = op2("and", h, t)
            if x is not None:
                h = x
            if h == ZERO:
                return True
    return False


class Client:
    counted, exact, maxdepth = 64, True, 40

    def __init__(self, fn):
        self.fn, self.exits = fn, []

    def event(self, fl, st, kind, inst, info):
        if kind in ("call", "throw"):
            name = info[0]
            if name == "__cxa_throw" or name.startswith("_ZSt") and "throw" in name:
                return [] if kind == "call" else None
            if not name.startswith(("__cxa_", "_ZNSt12out_of_range", "_ZNSt11logic", "llvm.", "__assert_fail", "_Unwind", "bcmp")):
                raise AnalysisError("%s: a call of %s is not understood" % (self.fn.name, name))

    def havoc(self, fl, st, inst, name, args):
        if name == "bcmp" and isinstance(args[2], int):
            a, b = (("mix", x, args[2], 0, tuple((k, 1, fl.load(st, addr(x, k), 1)) for k in range(args[2]))) for x in args[:2])
            st.vals[inst.id] = ("cast", "zext", (1, 32), ("icmp", "ne", a, b)) if a[4] != b[4] else 0
            return True
        return None

    def exit(self, fl, st, kind, inst):
        self.exits.append((kind, inst, st))


P = lambda i: var((0, i))
Q = lambda i: var((1, i))
Q8 = lambda i: var((1, 8 * i))


def expected(op, n, k, w):
    """the bits of the result; None: of any value. k: another size, or the place"""
    p, q = [P(i) for i in range(n)], [Q(i) for i in range(max(n, k or 0, 3))]
    if op in ("copy", "copied", "move", "massign", "swap", "ser"):
        return p
    if op in ("moved", "massigned", "clear", "release"):
        return []
    if op == "swapped":
        return p
    if op == "cleared":
        return [Q(0)]
    if op == "repush":
        return p[:-1] + [Q(0)]
    if op == "push":
        return p + [Q(0)]
    if op == "push2":
        return p + [Q(0), Q(1), Q(2)]
    if op in ("set", "ones", "fill1"):
        return [ONE] * n
    if op in ("reset", "zeros", "fill0"):
        return [ZERO] * n
    if op == "flip":
        return [neg(f) for f in p]
    if op == "grow":
        return p + [None] * 11
    if op in ("iter", "iassign"):
        return [Q8(i) for i in range(n)]
    if op == "bassign":
        return q[:n]
    if op in ("and", "or", "xor", "and2", "or2", "xor2"):
        return [op2(op.rstrip("2"), a, b) for a, b in zip(p, q)]
    if op == "append":
        return p + q[:k]
    if op == "appendpush":
        return p + q[:k] + [Q(0)]
    if op == "twice":
        return p + p
    if op == "pop":
        return p[:-1]
    if op in ("put", "putat", "putref"):
        return p[:k] + [Q(0)] + p[k + 1:]
    if op == "rflip":
        return p[:k] + [neg(P(k))] + p[k + 1:]
    f = {"ror": ("or", Q(0)), "rand": ("and", Q(0)), "rxor": ("xor", Q(0)), "rsub": ("and", neg(Q(0)))}.get(op)
    if f:
        return p[:k] + [op2(f[0], P(k), f[1])] + p[k + 1:]
    return None


def value(op, n, k):
    """the bit which is the result"""
    if op in ("get", "ref", "at"):
        return P(k)
    if op == "nref":
        return neg(P(k))
    if op == "back":
        return P(n - 1)
    if op == "front":
        return P(0)
    return None


NAME = re.compile(r"^vp_e_(u\d+)_([a-z]+\d?)_(\d+)(?:_(\d+))?$")


def one(ctx, m, name):
    fn = m.fns[name]
    t, op, n, k = NAME.match(name).groups()
    w, n, k = WIDTH[t], int(n), int(k) if k is not None else None
    c = Client(fn)
    fl = Flow(fn, c, init=S(0), limit=20000)
    ctx.count("functions explored path by path")
    ctx.count("abstract states", fl.nodes)
    B = Bits((A1,) if op in ("iter", "iassign") else ())
    no = lambda st, inst, what: bad(ctx, fn, fl, st, inst, what)
    rets = 0
    for kind, inst, st in c.exits:
        if kind == "throw":
            no(st, inst, "an exception is thrown")
            continue
        if kind != "ret":
            no(st, inst, "a block which does not exist is used, or an assertion fails")
            continue
        rets += 1
        true, some = B.facts(st.facts)
        if op in ("eq", "ne", "eqsize", "dec", "decs"):
            v = fl.val(st, inst["ops"][0])
            for b, s in outcomes(fl, st, v):
                true, some = B.facts(s.facts)
                ctx.count("comparisons decided")
                if op == "eqsize" or op == "decs":
                    if b:
                        no(st, inst, "vectors of different sizes are said to be equal" if op == "eqsize" else "reading succeeds although the message has ended")
                    continue
                if op == "dec":
                    d = [op2("xor", P(i), ONE if n >> i & 1 else ZERO) for i in range(64)]
                else:
                    d = [op2("xor", P(i), Q(i)) for i in range(n)]
                if bool(b) == (op != "ne"):
                    for i, f in enumerate(d):
                        if not same(f, ZERO, true):
                            no(st, inst, "the result does not depend on bit %d" % i if op != "dec" else "a message with another number of bits is read")
                            break
                    if op == "dec":
                        final(ctx, no, fl, s, inst, B, true, [P(64 + i) for i in range(n)], w)
                elif not any(f in true for f in d) and not any(all(f in d for f in l) for l in some):
                    no(st, inst, "the result does not depend on the bits of the vectors only" if op != "dec" else "reading fails although the number of bits is right")
            continue
        if op == "enc":
            words = [n] + [None] * ((n + 63) // 64)
            for j in range(len(words)):
                e = fl.load(st.copy(), addr(A2, 8 * j), 8)
                if j == 0:
                    if e != n:
                        no(st, inst, "the message does not start with the number of bits")
                    continue
                x = B.of(e, 64)
                for i in range(min(64, n - 64 * (j - 1))):
                    ctx.count("bits of results compared")
                    if not same(x[i], P(64 * (j - 1) + i), true):
                        no(st, inst, "the message does not have the bits in order")
                        break
            continue
        if op == "ser":
            e = fl.load(st.copy(), addr(A2, OUT_OK), 8)
            if e != 1:
                no(st, inst, "what was written can not be read")
        f = value(op, n, k)
        if f is not None:
            v = fl.val(st, inst["ops"][0])
            ctx.count("bits of results compared")
            if not same(B.of(v, 1)[0] if not isinstance(v, int) else (ONE if v & 1 else ZERO), f, true):
                no(st, inst, "the result is not the bit asked for")
            continue
        want = expected(op, n, k, w)
        if want is None:
            raise AnalysisError("%s: unknown operation" % name)
        final(ctx, no, fl, st, inst, B, true, want, w)
    if not rets:
        no_ret(ctx, fn, name, c)


def no_ret(ctx, fn, name, c):
    if not ctx.violations:
        raise AnalysisError("%s never returns" % name)


def final(ctx, no, fl, st, inst, B, true, want, w):
    n = fl.load(st.copy(), addr(A2, OUT_SIZE), 8)
    if n != len(want):
        no(st, inst, "the vector does not have the number of bits it should have")
        return
    for j in range((len(want) + w - 1) // w):
        x = B.of(fl.load(st.copy(), addr(A2, OUT_DATA + j * w // 8), w // 8), w)
        for i in range(min(w, len(want) - j * w)):
            f = want[j * w + i]
            if f is None:
                continue
            ctx.count("bits of results compared")
            if not same(x[i], f, true):
                no(st, inst, "bit %d is not what it should be" % (j * w + i) if ctx.verbose else "a bit is not what it should be")
                return


def ranges(ctx, m):
    """at() throws exactly if there is no such bit"""
    c = Client(entry(m, "nbits"))
    fl = Flow(c.fn, c, init=S(0))
    size = {fl.val(st, inst["ops"][0]) for kind, inst, st in c.exits}
    if len(size) != 1:
        raise AnalysisError("size() is no member")
    size = size.pop()
    c = Client(entry(m, "none"))
    fl = Flow(c.fn, c, init=S(0))
    for kind, inst, st in c.exits:
        for b, s in outcomes(fl, st, fl.val(st, inst["ops"][0])):
            if bool(b) != (fl.known(s, ("icmp", "eq", size, 0)) == 1):
                bad(ctx, c.fn, fl, st, inst, "the result is not whether there are no bits")
    for x in ("out_of_range", "out_of_range2"):
        c = Client(entry(m, x))
        fl = Flow(c.fn, c, init=S(0))
        seen = set()
        for kind, inst, st in c.exits:
            L = Lin(st.facts)
            ctx.count("ends of functions compared")
            if kind == "throw":
                seen.add(kind)
                if not L.implies("uge", A1, size):
                    bad(ctx, c.fn, fl, st, inst, "an exception is thrown although there is such a bit")
            elif kind == "ret":
                seen.add(kind)
                if not L.implies("ult", A1, size):
                    bad(ctx, c.fn, fl, st, inst, "a bit beyond the last one is looked at")
        if seen != {"throw", "ret"}:
            bad(ctx, c.fn, fl, c.exits[0][2], c.exits[0][1], "no exception is thrown for a bit beyond the last one")


def c22(ctx):
    ctx.rule("each bit of a result is, as a boolean function of the bits of the operands, the one the operation stands for; bits beyond the last one never matter")
    ctx.rule("at() throws exactly for bits beyond the last one; equality is decided by the bits which exist, and all of them")
    ctx.assume("the vectors have the sizes in drivers/bits.cpp (0 to 130 bits, around the boundaries of blocks of 8 to 64 bits); blocks beyond 8 are not needed")
    ctx.verbose = False
    for m in ctx.modules(["bits.cpp"], [("NDEBUG",), ()]):
        names = [n for n in m.fns if NAME.match(n)]
        ranges(ctx, m)
        step = 20
        ctx.parallel([lambda c, l=names[i::len(names) // step + 1], m=m: [one(c, m, n) for n in l] for i in range(len(names) // step + 1)])
        ctx.floor("operations", len(names), 1300)


CHECKS = {"C22": c22}
