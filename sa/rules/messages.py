"""C15: messages are read and written within their bounds, and exactly."""
from collections import namedtuple

from ..flow import Flow, addr, split
from ..ir import AnalysisError
from ..lin import L as Form, Lin
from .ints import outcomes
from .lockfree import bad, entry
from .registry import demangle, fresh, only

A0, A1, A2 = [("arg", n) for n in range(3)]
KEEP = (r"(^|[ ])std::(__cxx11::)?basic_string<.*>::(assign|clear|resize|_M_assign|_M_replace|replace)(<.*>)?[(]",)
T = namedtuple("T", "reads writes copies allocs thrown lens assigned freed")
START = T((), (), (), (), None, (), (), ())
MAX = (1 << 64) - 1


class Msg:
    def __init__(self, ctx, fn, D):
        self.ctx, self.fn, self.D = ctx, fn, D
        self.exits = []

    def root(self, e, auto):
        while isinstance(e, tuple):
            if e == self.D or any(e == x[0] for x in auto.allocs):
                return e
            if e[0] not in ("addr", "gep"):
                return None
            e = e[1]
        return None

    def bad(self, fl, st, inst, what):
        bad(self.ctx, self.fn, fl, st, inst, what)

    def event(self, fl, st, kind, inst, info):
        a = st.auto
        if kind == "load":
            if self.root(info[0], a) is not None:
                st.auto = a._replace(reads=a.reads + ((info[0], info[1], info[2]),))
        elif kind == "store":
            if self.root(info[0], a) is not None:
                st.auto = a._replace(writes=a.writes + (("v", info[0], info[1], info[2]),))
        elif kind in ("memcpy", "memset"):
            dst, src, n = info[:3]
            if kind == "memset" and self.root(dst, a) is not None:
                return self.bad(fl, st, inst, "the message is filled with something")
            if kind == "memset":
                return
            if self.root(src, a) is not None:
                st.auto = a = a._replace(reads=a.reads + ((src, n, None),), copies=a.copies + ((dst, src, n),))
            if self.root(dst, a) is not None:
                st.auto = a._replace(writes=a.writes + (("b", dst, n, src),))
        elif kind in ("call", "throw"):
            name, args = info
            if name == "realloc":
                if kind == "throw":
                    return []
                st.auto = a._replace(allocs=a.allocs + ((("R", inst.id), args[0], args[1]),))
            elif name in ("malloc", "calloc", "reallocarray"):
                raise AnalysisError("%s: %s() is not understood" % (self.fn.name, name))
            elif name == "__cxa_throw":
                t = args[1][1] if isinstance(args[1], tuple) else str(args[1])
                st.auto = a._replace(thrown=t)
            elif name in ("__cxa_throw_bad_array_new_length", "_ZSt28__throw_bad_array_new_lengthv"):
                st.auto = a._replace(thrown="bad_array_new_length")
            elif name == "free":
                st.auto = a._replace(freed=a.freed + (args[0],))
            elif name == "strlen":
                st.auto = a._replace(lens=a.lens + ((args[0], ("R", inst.id)),))
            elif "basic_string" in name:
                d = demangle(name)
                if kind == "throw":
                    return
                if "::clear(" in d:
                    st.auto = a._replace(assigned=a.assigned + ((args[0], None, 0),))
                elif "::assign" in d or "_M_replace" in d:
                    if "::assign<char const*, void>" in d or "::assign<char*, void>" in d:
                        what = ("range", args[1], args[2])
                    elif d.endswith("::assign(char const*, unsigned long)"):
                        what = ("len", args[1], args[2])
                    else:
                        raise AnalysisError("%s: %s is not understood" % (self.fn.name, d))
                    st.auto = a._replace(assigned=a.assigned + ((args[0],) + what,))
                elif "basic_string(" not in d and "~basic_string" not in d and "_M_dispose" not in d:
                    raise AnalysisError("%s: %s is not understood" % (self.fn.name, d))

    def havoc(self, fl, st, inst, name, args):
        r = name in ("realloc", "strlen")
        if "basic_string" in name:
            fl.havoc_base(st, split(args[0])[0], inst.id)
            r = True
        st.auto = fresh(st.auto)
        return r or None

    def exit(self, fl, st, kind, inst):
        self.exits.append((kind, inst, st))


class Lay:
    pass


class Path:
    """one way through a function, with the linear relations which hold on it"""

    def __init__(self, ctx, fn, c, fl, kind, inst, st, L, end=False):
        self.ctx, self.fn, self.c, self.fl, self.kind, self.inst, self.st = ctx, fn, c, fl, kind, inst, st
        self.a = st.auto

        def width(x):
            if x[0] == "arg":
                return int(fn.arg_list[x[1]]["ty"][1:]) if fn.arg_list[x[1]]["ty"][0] == "i" else 64
            return 64
        self.off0, self.size0 = ("mem", addr(A0, L.off), 8, 0), ("mem", addr(A0, L.size), 8, 0)
        self.width = width
        # no object is larger than half of the address space
        self.lin = Lin(st.facts, small=lambda x: False, width=width,
                       extra=[("ule", self.size0, (1 << 63) - 1), ("eq" if end else "ule", self.off0, self.size0)])
        self.o0, self.s0 = self.v(self.off0), self.v(self.size0)
        self.o1, self.s1 = self.v(fl.load(st, addr(A0, L.off), 8)), self.v(fl.load(st, addr(A0, L.size), 8))
        self.d1 = fl.load(st, addr(A0, L.data), 8)

    def v(self, e, w=64):
        if isinstance(e, Form):
            return e
        return self.lin.value(e, w)

    def arg(self, n):
        return self.lin.value(("arg", n), self.width(("arg", n)))

    def no(self, what):
        bad(self.ctx, self.fn, self.fl, self.st, self.inst, what)

    def same(self, x, y):
        return self.lin.infeasible([x - y - 1]) and self.lin.infeasible([y - x - 1])

    def never(self, *forms):
        return self.lin.infeasible(list(forms))

    def dist(self, e):
        """(root, bytes behind it) of an address in the message"""
        if e == self.c.D or any(e == x[0] for x in self.a.allocs):
            return e, Form()
        if isinstance(e, tuple) and e[0] in ("addr", "gep") and not (e[0] == "gep" and len(e) != 4):
            r, d = self.dist(e[1])
            if r is None:
                return None, None
            if not isinstance(e[2], int) and e[2] is not None:
                return None, None
            d = d + (e[2] or 0)
            if e[0] == "gep":
                for x, s in e[3]:
                    d = d + self.v(x) * s
            return r, d
        return None, None

    def at(self, e, pos):
        r, d = self.dist(e)
        return r is not None and self.same(d, pos)


def paths(ctx, m, name, L, end=False):
    fn = entry(m, name)
    D = ("mem", addr(A0, L.data), 8, 0)
    S = ("mem", addr(A0, L.size), 8, 0)
    n = 0
    for facts in ({D: ("ne", frozenset({0}))}, {D: ("eq", 0), S: ("eq", 0)}):
        c = Msg(ctx, fn, D)
        facts = dict(facts)
        if end:     # what is to be written exists
            facts.update({A1: ("ne", frozenset({0})), ("mem", addr(A1, L.data), 8, 0): ("ne", frozenset({0})),
                          ("mem", addr(A1, L.chars), 8, 0): ("ne", frozenset({0}))}
                         if fn.arg_list[1]["ty"] == "ptr" else {})
        fl = Flow(fn, c, init=START, facts=facts)
        ctx.count("functions explored path by path")
        ctx.count("abstract states", fl.nodes)
        for kind, inst, st in c.exits:
            p = Path(ctx, fn, c, fl, kind, inst, st, L, end)
            if p.lin.infeasible():
                continue
            if kind == "noreturn":
                if inst.callee() == "__assert_fail":
                    p.no("an assertion may fail in valid use")
                elif inst.callee() not in ("__cxa_throw", "__cxa_rethrow") and not (inst.callee() or "").startswith("_ZSt"):
                    p.no("the operation does not return")
                continue
            if kind not in ("ret", "throw"):
                continue
            n += 1
            ctx.count("paths compared with the specification")
            yield p
    if not n:
        raise AnalysisError("%s has no exit" % name)


def results(p):
    """the ways the result may come out, as paths of their own"""
    for r, s in outcomes(p.fl, p.st, p.fl.val(p.st, p.inst["ops"][0])):
        L = Lay()
        L.off, L.size, L.data = p.off0[1][2], p.size0[1][2], p.c.D[1][2]
        q = Path(p.ctx, p.fn, p.c, p.fl, p.kind, p.inst, s, L)
        if not q.lin.infeasible():
            yield bool(r), q


def truth(p, e, V, b):
    """the value of e when what is read, V, is b"""
    if isinstance(e, int):
        return e
    if isinstance(e, tuple) and e[0] == "cast" and e[1] in ("zext", "trunc"):
        x = truth(p, e[3], V, b)
        return None if x is None else x & ((1 << e[2][1]) - 1)
    if isinstance(e, tuple) and e[0] == "icmp":
        x, y = truth(p, e[2], V, b), truth(p, e[3], V, b)
        if x is None or y is None:
            return None
        f = {"eq": x == y, "ne": x != y, "ult": x < y, "ugt": x > y, "ule": x <= y, "uge": x >= y}.get(e[1])
        return None if f is None else int(f)
    if isinstance(e, tuple) and len(e) == 4 and e[0] in ("xor", "and", "or"):
        x, y = truth(p, e[2], V, b), truth(p, e[3], V, b)
        if x is None or y is None:
            return None
        return (x ^ y if e[0] == "xor" else x & y if e[0] == "and" else x | y) & ((1 << e[1]) - 1)
    if isinstance(e, tuple) and e[0] == "mem" and p.same(p.lin.value(e, 8 * e[2]), V):
        return b
    return None


READ = {    # number of bytes: a constant, or (argument, size of an element); how the result is delivered
    "bytes": ((2, 1), "copy"), "u8": (1, "copy"), "u32": (4, "copy"), "u64": (8, "copy"), "blob": (24, "copy"), "bool": (1, "bool"),
    "string": (8, "string"), "size": (8, (8, 64)), "size32": (8, (4, 64)), "size32x": (8, (4, 64)), "ssize32": (4, (8, 32)),
    "ssize16": (2, (1, 16)), "array8": ((2, 1), "copy"), "array32": ((2, 4), "copy"), "array24": ((2, 24), "copy"),
    "array8_16": ((2, 8), "copy")}


def reading(ctx, m, L, name, spec):
    n, how = spec
    seen = set()

    def bounds(p):
        for src, k, e in p.a.reads:
            r, d = p.dist(src)
            k = p.v(k)
            if r is None:
                p.no("the place which is read is not recognised")
            elif not (p.never(p.o0 - d - 1) and p.never(d + k - p.s0 - 1)):
                p.no("memory is read outside of what remains of the message")
        if not (p.same(p.s0, p.s1) and p.d1 == p.c.D or p.d1 == 0 and p.fl.known(p.st, p.c.D) == 0):
            p.no("the message itself is changed by reading")
        if p.a.writes:
            p.no("the message is written to by reading")

    def value(p):
        e = next((x for x in p.a.reads if x[2] is not None and p.at(x[0], p.o0)), None)
        return None if e is None else p.lin.value(e[2], 8 * e[1])

    for p0 in paths(ctx, m, "IN_" + name, L):
        if p0.kind == "throw":
            p = p0
            bounds(p)
            seen.add("throw")
            if not p.same(p.o0, p.o1):
                p.no("the position has changed although reading threw")
            if isinstance(how, tuple):
                V = value(p)
                if V is None or not p.never(Form({}, (1 << 8 * how[0]) - 1) - V):
                    p.no("a size which can be represented is refused")
            elif how != "string":
                p.no("reading throws")
            continue
        for r, p in results(p0):
            bounds(p)
            need = p.arg(n[0]) * n[1] if isinstance(n, tuple) else Form({}, n)
            V = value(p)
            rem = p.s0 - p.o0
            if not r:
                seen.add("false")
                if not p.same(p.o0, p.o1):
                    p.no("the position has changed although reading failed")
                ok = p.never(rem - need)
                if not ok and V is not None:
                    if how == "bool":
                        ok = p.never(Form({}, 1) - V)
                    elif how == "string":
                        ok = p.never(rem - need - V)
                if not ok:
                    p.no("reading fails although the message has what was asked for")
                continue
            seen.add("true")
            if how == "string":
                if V is None:
                    p.no("the length of the string is not read")
                    continue
                got = [x for x in p.a.assigned if x[0] == A1]
                if len(got) != 1 or len(p.a.assigned) != 1:
                    p.no("the string is not assigned once")
                elif got[0][1] is None:
                    if not p.same(V, Form()):
                        p.no("a string which is not empty is read as an empty one")
                else:
                    _, k, x, y = got[0]
                    if not p.at(x, p.o0 + 8):
                        p.no("the string is read from another place than where it is")
                    if k == "range":
                        ry, dy = p.dist(y)
                        if ry is None or not p.same(dy - p.o0 - 8, V):
                            p.no("not as many characters are read as the string has")
                    elif not p.same(p.v(y), V):
                        p.no("not as many characters are read as the string has")
                    ry, dy = p.dist(x)
                    if ry is None or not p.never(dy + V - p.s0 - 1):
                        p.no("memory is read outside of what remains of the message")
                need = need + V
            elif how == "bool":
                got = p.lin.value(p.fl.load(p.st, A1, 1), 8)
                e = p.fl.load(p.st, A1, 1)
                if V is None or not p.never(V - 2) or not (p.same(got, V) or all(
                        p.same(V, Form() + 1 - b) or truth(p, e, V, b) == b for b in (0, 1))):
                    p.no("the value read is not the one in the message")
            elif isinstance(how, tuple):
                got = p.lin.value(p.fl.load(p.st, A1, how[0]), 8 * how[0])
                if V is None or not p.same(got, V):
                    p.no("the size read is not the one in the message")
            else:
                whole = None
                if isinstance(n, int):
                    whole = p.fl.load(p.st, A1, n)
                if not (isinstance(whole, tuple) and whole[0] == "mem" and whole[2] == n and p.at(whole[1], p.o0)):
                    cs = [x for x in p.a.copies if not p.same(p.v(x[2]), Form())]
                    if p.same(need, Form()):
                        if cs:
                            p.no("something is copied although nothing was asked for")
                    elif len(cs) != 1 or cs[0][0] != A1 or not p.at(cs[0][1], p.o0) or not p.same(p.v(cs[0][2]), need):
                        p.no("what is delivered is not what comes next in the message")
            if not p.same(p.o1, p.o0 + need):
                p.no("the position does not advance by what was read")
            ctx.count("successful reads compared with the message")
    want = {"true", "false"} | ({"throw"} if how == "string" or isinstance(how, tuple) and 8 * how[0] < how[1] else set())
    if not ctx.violations and seen != want:
        raise AnalysisError("IN_%s: outcomes %s" % (name, sorted(seen)))


def val(e, size):
    return ("v", e, size)


def raw(e, n):
    return ("b", e, n)


def writing(ctx, m, L, name, pieces):
    """pieces(p): what is to be appended, in order"""
    seen = set()
    # everything was written before: the position is at the end
    for p in paths(ctx, m, "OUT_" + name, L, end=True):
        want = pieces(p)
        total = Form()
        for w in want:
            total = total + w[2]
        done = [x for x in p.a.allocs if p.fl.known(p.st, x[0]) != 0]
        if p.kind == "throw":
            seen.add("throw")
            if not (p.same(p.o1, p.o0) and p.same(p.s1, p.s0) and p.d1 == p.c.D):
                p.no("the message is changed although writing threw")
            if done:
                p.no("the memory of the message was replaced although writing threw")
            t = p.a.thrown or ""
            if "MessageLengthError" in t:
                if not p.never(Form({}, MAX) - p.o0 - total):
                    p.no("a message which is not too long is refused")
            elif "bad_alloc" in t:
                if len(p.a.allocs) == len(done):
                    p.no("out of memory is reported although it is not")
            else:
                p.no("an unexpected exception is thrown")
            continue
        seen.add("ret")
        if len(done) != len(p.a.allocs):
            p.no("writing returns although it ran out of memory")
        cur, size = p.c.D, p.s0
        for ret, old, n in done:
            if old != cur and not (old == 0 and p.fl.known(p.st, cur) == 0):
                p.no("not the memory of the message is enlarged")
            nv = p.v(n)
            if p.fl.known(p.st, n) == 0 or not p.never(size - nv - 1):
                p.no("the memory of the message is made smaller")
            cur, size = ret, nv
        if p.d1 != cur and not (p.d1 == 0 and p.fl.known(p.st, cur) == 0):
            p.no("the message does not refer to its memory")
        pos = p.s0
        ws = list(p.a.writes)
        for w in want:
            if p.same(w[2], Form()):
                continue
            if not ws:
                p.no("not everything is written")
                break
            x = ws.pop(0)
            r, d = p.dist(x[1])
            k = p.v(x[2])
            if r is None or not p.same(d, pos):
                p.no("something is written to another place than the end of the message")
            if not p.same(k, w[2]):
                p.no("not as much is written as there is")
            if w[0] == "v" and not isinstance(x[2], int):
                ok = False
            elif w[0] == "v":
                if x[0] == "v":
                    ok = p.same(p.lin.value(x[3], 8 * x[2]), w[1])
                else:
                    y = p.fl.load(p.st, x[3], x[2])
                    ok = p.same(p.lin.value(y, 8 * x[2]), w[1])
            elif x[0] == "v":
                y = x[3]
                ok = isinstance(y, tuple) and y[0] == "mem" and y[1] == w[1] and y[2] == x[2]
            else:
                ok = x[3] == w[1] or isinstance(x[3], tuple) and split(x[3]) == split(w[1])
            if not ok:
                p.no("something else is written than what was passed")
            pos = pos + w[2]
            ctx.count("writes compared with what was passed")
        if ws:
            p.no("more is written than what was passed")
        if not p.never(pos - size - 1):
            p.no("something is written beyond the memory of the message")
        if not (p.same(p.s1, pos) and p.same(size, p.s1)):
            p.no("the size of the message is not what was written to it")
        if not p.same(p.o1, pos):
            p.no("the position is not at the end of what was written")
    if not ctx.violations and seen != {"ret", "throw"}:
        raise AnalysisError("OUT_%s: outcomes %s" % (name, sorted(seen)))


def one(m, name, want):
    return only(m, name, want)


def layout(ctx, m):
    L = Lay()
    for k, n in (("size", "NM_size"), ("off", "NM_offset"), ("data", "NM_data")):
        _, _, _, _, v = only(m, n, "member")
        if not (isinstance(v, tuple) and v[0] == "mem" and split(v[1])[0] == A0):
            raise AnalysisError("%s is not a member" % n)
        setattr(L, k, split(v[1])[1])
    S = Lay()
    for k, n in (("data", "STR_data"), ("size", "STR_size")):
        _, _, _, _, v = only(m, n, "member")
        setattr(S, k, split(v[1])[1])
    L.chars = S.data
    return L, S


def positions(ctx, m, L):
    for p0 in paths(ctx, m, "NM_seek", L):
        for r, p in results(p0):
            if not (p.same(p.s0, p.s1)):
                p.no("seeking changes the message")
            if r and not (p.same(p.o1, p.arg(1)) and p.never(p.arg(1) - p.s0 - 1)):
                p.no("the position is outside of the message, or another one than asked for")
            if not r and not p.same(p.o1, p.o0):
                p.no("the position has changed although seeking failed")
            if not r and not p.never(p.s0 - p.arg(1) - 1):
                p.no("seeking within the message fails")
    for p in paths(ctx, m, "NM_remaining", L):
        if not p.same(p.v(p.fl.val(p.st, p.inst["ops"][0])), p.s0 - p.o0):
            p.no("not what remains of the message is reported")
    for p in paths(ctx, m, "NM_ptr", L):
        e = p.fl.val(p.st, p.inst["ops"][0])
        if not p.at(e, p.o0) and not (p.fl.known(p.st, p.c.D) == 0):
            p.no("not the place of the next read is reported")
    for p in paths(ctx, m, "OUT_rewind", L):
        if not p.same(p.o1, Form()):
            p.no("the position is not the start of the message")


def lifetime(ctx, m, L):
    for p in paths(ctx, m, "OUT_ctor", L):
        if p.kind != "ret" or p.d1 != 0 or not p.same(p.s1, Form()) or not p.same(p.o1, Form()):
            p.no("a new message is not empty")
    for p in paths(ctx, m, "OUT_dtor", L):
        if p.kind != "ret" or p.a.freed != (p.c.D,) and not (p.a.freed in ((), (0,)) and p.fl.known(p.st, p.c.D) == 0):
            p.no("the memory of the message is not freed once")


def c15(ctx):
    ctx.rule("reading: for every path, what is read lies between the position and the end of the message; success means that exactly the bytes asked for were delivered and the position advanced by as much; "
             "failure or an exception means that they were not there (or no value of the type), and that the position is unchanged")
    ctx.rule("writing: what is passed is appended byte for byte, in order, within the memory allocated; position and size grow by exactly as much; exceptions leave everything unchanged")
    ctx.assume("no object is larger than half of the address space; outgoing messages are written to at their end (asserted by the code)")
    for m in ctx.modules(["messages.cpp"], keep=KEEP):
        check(ctx, m)
    ctx.floor("operations of messages", ctx.counts.get("functions explored path by path", 0), 120)


def check(ctx, m):
    L, S = layout(ctx, m)
    for n, spec in READ.items():
        reading(ctx, m, L, n, spec)
    positions(ctx, m, L)
    lifetime(ctx, m, L)

    def strn(p):
        n = p.v(("mem", addr(A1, S.size), 8, 0))
        return [val(n, Form({}, 8)), raw(("mem", addr(A1, S.data), 8, 0), n)]

    def cstr(p):
        if len(p.a.lens) != 1 or p.a.lens[0][0] != A1:
            p.no("the length of the text is not determined")
            return []
        n = p.v(p.a.lens[0][1])
        return [val(n, Form({}, 8)), raw(A1, n)]

    def arr(sz, pre=0):
        def f(p):
            n = p.arg(2)
            return ([val(n, Form({}, pre))] if pre else []) + [raw(A1, n * sz)]
        return f

    def msg(p):
        return [raw(("mem", addr(A1, L.data), 8, 0), p.v(("mem", addr(A1, L.size), 8, 0)))]

    def const(n):
        return lambda p: [raw(A1, Form({}, n))]
    spec = {"bytes": arr(1), "bool": lambda p: [val(p.arg(1), Form({}, 1))], "u8": const(1), "u64": const(8), "blob": const(24),
            "cstr": cstr, "mcstr": cstr, "cstrn": arr(1, 8), "string": strn, "mstring": strn, "rstring": strn, "msg": msg, "mmsg": msg,
            "size": lambda p: [val(p.arg(1), Form({}, 8))], "ssize32": lambda p: [val(p.arg(1), Form({}, 4))],
            "array8": arr(1), "array32": arr(4), "array24": arr(24), "array8_16": arr(8), "sarray8": arr(1, 8), "sarray24": arr(24, 8),
            "s32array8": arr(8, 4)}
    for n, f in spec.items():
        writing(ctx, m, L, n, f)


CHECKS = {"C15": c15}
