"""C19: packed structures: each field has its own bytes, one after another."""
from collections import namedtuple

from .. import witness
from ..flow import Flow, addr, split
from ..ir import AnalysisError
from ..lin import Lin
from .ints import outcomes
from .lockfree import bad, entry
from .registry import fresh

A0, A1, A2, A3 = [("arg", n) for n in range(4)]
M64 = (1 << 64) - 1
S = namedtuple("S", "allocs freed writes reads cmps")


def lin(e):
    """a pointer or 64-bit number as a sum: {term: factor}, the constant under None; modulo 2^64"""
    r = {}

    def add(t, k):
        r[t] = (r.get(t, 0) + k) & M64
        if not r[t]:
            del r[t]

    def go(x, k):
        if isinstance(x, int):
            if x:
                add(None, x * k)
            return
        if x[0] == "null":
            return
        if x[0] in ("add", "sub") and x[1] == 64:
            go(x[2], k)
            go(x[3], k if x[0] == "add" else -k)
        elif x[0] == "or" and x[1] == 64 and any(isinstance(y, int) for y in x[2:]):
            y, n = (x[2], x[3]) if isinstance(x[3], int) else (x[3], x[2])
            f = lin(y)
            if all(c & ((1 << n.bit_length()) - 1) == 0 for c in f.values()):     # no bit in common: a sum
                go(y, k)
                add(None, n * k)
            else:
                add(x, k)
        elif x[0] == "mul" and x[1] == 64 and isinstance(x[3], int):
            go(x[2], k * x[3])
        elif x[0] == "mul" and x[1] == 64 and isinstance(x[2], int):
            go(x[3], k * x[2])
        elif x[0] == "shl" and x[1] == 64 and isinstance(x[3], int):
            go(x[2], k << x[3])
        elif x[0] == "gep" and len(x) == 4:
            go(x[1], k)
            go(x[2], k)
            for v, s in x[3]:
                go(v, k * s)
        else:
            b, o = split(x)
            if o:
                go(b, k)
                go(o, k)
            else:
                add(x, k)
    go(e, 1)
    return r


def plus(a, b, k=1):
    r = dict(a)
    for t, c in b.items():
        r[t] = (r.get(t, 0) + c * k) & M64
        if not r[t]:
            del r[t]
    return r


def num(n):
    return {None: n & M64} if n else {}


class Mem:
    """what is written, read, allocated and freed"""
    counted = 64        # loops over the bytes of a value are followed to their end

    def __init__(self, ctx, fn):
        self.ctx, self.fn, self.exits = ctx, fn, []

    def own(self, a):
        while isinstance(a, tuple) and a[0] in ("addr", "gep"):
            a = a[1]
        return isinstance(a, tuple) and a[0] == "alloca"

    def event(self, fl, st, kind, inst, info):
        a = st.auto
        al = inst["align"] if inst.get("align") else 1
        if kind == "store" and not self.own(info[0]):
            st.auto = a._replace(writes=a.writes + ((info[0], info[1], info[2], al, inst.id),))
        elif kind == "load" and not self.own(info[0]):
            st.auto = a._replace(reads=a.reads + ((info[0], info[1], al, inst.id),))
        elif kind == "memcpy":
            if not self.own(info[0]):
                v = ("copy", info[1])
                if self.own(info[1]) and isinstance(info[2], int):
                    v = ("bytes",) + tuple(fl.load(st, addr(info[1], k), 1) for k in range(info[2]))
                st.auto = a._replace(writes=a.writes + ((info[0], info[2], v, 1, inst.id),))
        elif kind == "memset":
            if not self.own(info[0]):
                st.auto = a._replace(writes=a.writes + ((info[0], info[2], ("fill", info[1]), 1, inst.id),))
        elif kind in ("call", "throw"):
            name, args = info
            if name.startswith(("_Znwm", "_Znam")):
                if kind == "call":
                    st.auto = a._replace(allocs=a.allocs + ((("R", inst.id), args[0]),))
            elif name.startswith(("_Zdl", "_Zda")):
                st.auto = a._replace(freed=a.freed + (args[0],))
            elif name in ("memcmp", "bcmp"):
                st.auto = a._replace(cmps=a.cmps + ((("R", inst.id),) + tuple(args[:3]),))
            elif not name.startswith(("__cxa_", "_Unwind", "llvm.")):
                raise AnalysisError("%s: a call of %s is not understood" % (self.fn.name, name))

    def havoc(self, fl, st, inst, name, args):
        a = st.auto
        st.auto = fresh(a._replace(allocs=tuple((("new", t[1]) if t[0] == "R" else t, n) for t, n in a.allocs)))
        return True if name.startswith(("_Zn", "_Zd", "memcmp", "bcmp")) else None

    def exit(self, fl, st, kind, inst):
        self.exits.append((kind, inst, st))


class Run:
    def __init__(self, ctx, m, name, facts=None):
        self.fn = entry(m, name)
        self.ctx = ctx
        c = Mem(ctx, self.fn)
        self.fl = Flow(self.fn, c, init=S((), (), (), (), ()), facts=facts or {}, limit=20000)
        ctx.count("functions explored path by path")
        ctx.count("abstract states", self.fl.nodes)
        if not c.exits:
            raise AnalysisError("%s has no exit" % name)
        self.exits = c.exits

    def no(self, st, inst, what):
        bad(self.ctx, self.fn, self.fl, st, inst, what)

    def rets(self):
        """(state, returned value) of the only way to end"""
        for kind, inst, st in self.exits:
            if kind != "ret":
                self.no(st, inst, "an exception is thrown" if kind == "throw" else "the operation does not return")
            else:
                yield inst, st, (self.fl.val(st, inst["ops"][0]) if inst["ops"] else None)

    def value(self, want):
        for inst, st, v in self.rets():
            self.ctx.count("results compared")
            if isinstance(v, tuple) and v[0] in ("select",):
                raise AnalysisError("%s: result %r" % (self.fn.name, v))
            if lin(v) != want:
                self.no(st, inst, "the result is not %s" % show(want))

    def moved(self, dst, src, size, packed=(), why="the field"):
        """exactly size bytes at dst are written, with those at src"""
        for inst, st, _ in self.rets():
            self.ctx.count("accesses to fields compared")
            got = {}
            for p, n, v, al, iid in st.auto.writes:
                d = plus(lin(p), dst, -1)
                if not isinstance(n, int) or set(d) - {None}:
                    self.no(st, inst, "something else than %s is written" % why)
                    return
                d = d.get(None, 0)
                for k in range(n):
                    got[(d + k) & M64] = source(self.fl, v, n, k)
            if set(got) != set(range(size)):
                self.no(st, inst, "not exactly the bytes of %s are written" % why)
            elif any(g is None or plus(g, src, -1) != num(k) for k, g in got.items()):
                self.no(st, inst, "not the bytes of %s are read" % why)
            for acc in st.auto.reads + st.auto.writes:
                p, n, al = acc[0], acc[1], acc[-2]
                if isinstance(n, int) and al > 1 and any(t in lin(p) for t in packed):
                    self.no(st, inst, "%s is accessed as if it were aligned" % why)


def source(fl, v, n, k):
    """where byte k of a value comes from"""
    if isinstance(v, tuple) and v[0] == "copy":
        return plus(lin(v[1]), num(k))
    p = v[1 + k] if isinstance(v, tuple) and v[0] == "bytes" else fl.piece(v, n, k, 1)
    if isinstance(p, tuple) and p[0] == "mem" and p[2] == 1:
        return lin(p[1])
    return None


def show(f):
    def t(x):
        if x is None:
            return ""
        if isinstance(x, tuple) and x[0] == "arg":
            return "argument %d" % x[1]
        return "the value at %s+%s" % tuple(split(x[1])) if x[0] == "mem" else str(x)
    return " + ".join("%s%s" % (c if k is None or c != 1 else "", (" * " if c != 1 and k is not None else "") + t(k))
                      for k, c in f.items()) or "0"


# ---- fields of fixed sizes --------------------------------------------------

FIELDS = [1, 4, 12, 2, 8]          # as in drivers/packed.cpp


def static_fields(ctx, m):
    off = 0
    for i, n in enumerate(FIELDS):
        at0, at1 = plus(lin(A0), num(off)), plus(lin(A1), num(off))
        for g in ("get", "cref", "crefN", "refget", "ptrget", "cptrget", "iget", "aget", "acget", "rget", "rcget"):
            Run(ctx, m, "P_%s_%d" % (g, i)).moved(lin(A0), at1, n, (A1,))
        for g in ("set", "refset", "ptrset", "iset", "arefset", "aset", "rset", "tmpset"):
            Run(ctx, m, "P_%s_%d" % (g, i)).moved(at0, lin(A1), n, (A0,))
        for g in ("refref", "refcref"):
            Run(ctx, m, "P_%s_%d" % (g, i)).moved(at0, at1, n, (A0, A1))
        for g in ("vp", "cvp", "cvp2", "avp", "ptr", "cptr"):
            Run(ctx, m, "P_%s_%d" % (g, i)).value(at0)
        Run(ctx, m, "P_off_%d" % i).value(num(off))
        off += n
    for g in ("end", "cend", "cend2", "iend", "aend"):
        Run(ctx, m, "P_" + g).value(plus(lin(A0), num(off)))
    for g in ("data", "cdata", "udata"):
        Run(ctx, m, "P_" + g).value(lin(A0))
    for g in ("size", "sizeof", "bytes", "min", "max"):
        Run(ctx, m, "P_" + g).value(num(off))
    for g in ("eq", "ne", "aeq", "ane"):
        same_bytes(Run(ctx, m, "P_" + g), lin(A0), lin(A1), num(off), g.endswith("eq"))
    # values of other types are converted, not reinterpreted
    for g, at, n, op in (("wide", off - FIELDS[-1], 8, "sext"), ("narrow", off - FIELDS[-1] - FIELDS[-2], 2, "trunc")):
        r = Run(ctx, m, "P_" + g)
        for inst, st, _ in r.rets():
            ctx.count("accesses to fields compared")
            got = {}
            for p, k, v, al, iid in st.auto.writes:
                d = plus(lin(p), plus(lin(A0), num(at)), -1)
                for b in range(k if isinstance(k, int) else 0):
                    got[(d.get(None, 0) + b) & M64] = r.fl.piece(v, k, b, 1) if not (isinstance(v, tuple) and v[0] == "bytes") else v[1 + b]
                if not isinstance(k, int) or set(d) - {None}:
                    got[None] = None
            sw = {"sext": 32, "trunc": 64}[op]
            want = ("cast", op, (sw, 8 * n), A1)
            if set(got) != set(range(n)):
                r.no(st, inst, "not exactly the bytes of the field are written")
            elif any(got[b] != r.fl.piece(want, n, b, 1) for b in got):
                r.no(st, inst, "the value is not converted to the type of the field")


def same_bytes(r, p, q, n, eq, sizes=None):
    """the result is whether the n bytes at p are those at q (and the sizes are the same)"""
    for inst, st, v in r.rets():
        r.ctx.count("results compared")
        for b, s in outcomes(r.fl, st, v):
            hit = [c for c in s.auto.cmps if {key(lin(c[1])), key(lin(c[2]))} == {key(p), key(q)} and lin(c[3]) in (n if isinstance(n, list) else [n])]
            if sizes is not None:
                L = Lin(s.facts)
                x, y = (L.value(e) for e in sizes)
                if L.infeasible([x - y - 1]) and L.infeasible([y - x - 1]):
                    equal = True
                elif bool(b) == eq:
                    r.no(st, inst, "structures of different sizes are said to be equal")
                    continue
                elif not hit:
                    if not Lin(s.facts, extra=[("eq", sizes[0], sizes[1])]).infeasible():
                        r.no(st, inst, "structures of the same size are said to differ without a look at their bytes")
                    continue
            if not hit:
                r.no(st, inst, "the bytes of the structures are not compared")
                continue
            k = r.fl.known(s, ("icmp", "eq", hit[-1][0], 0))
            if k is None:
                f = s.facts.get(hit[-1][0])
                k = None if f is None else int(f == ("eq", 0)) if f[0] in ("eq", "ne") else None
            if k is None or bool(k) == (bool(b) != eq):
                r.no(st, inst, "the result is not that of comparing the bytes")


def key(d):
    return frozenset(d.items())


# ---- pointers ---------------------------------------------------------------

PRED = {"eq": "eq", "ne": "ne", "lt": "ult", "le": "ule", "gt": "ugt", "ge": "uge"}


def pointers(ctx, m):
    for n in (8, 12, 2):
        def r(x):
            return Run(ctx, m, "U_%d_%s" % (n, x))
        step = {A1: n}
        for x in ("add", "radd", "addA"):
            r(x).value(plus(lin(A0), step))
        for x in ("sub", "subA"):
            r(x).value(plus(lin(A0), step, -1))
        for x, k in (("inc", n), ("dec", -n), ("incP", n), ("decP", -n)):
            q = r(x)
            q.value(plus(lin(A0), num(k)))
            if x.endswith("P"):
                for inst, st, _ in q.rets():
                    if [(lin(w[0]), lin(w[2])) for w in st.auto.writes] != [(lin(A1), lin(A0))]:
                        q.no(st, inst, "the result is not the old place")
        r("star").moved(lin(A0), lin(A1), n, (A1,))
        r("cstar").moved(lin(A0), lin(A1), n, (A1,))
        r("at").moved(lin(A0), plus(lin(A1), num(3 * n)), n, (A1,))
        r("put").moved(plus(lin(A0), num(3 * n)), lin(A1), n, (A0,))
        for x in ("diff", "diffC"):
            q = r(x)
            for inst, st, v in q.rets():
                ctx.count("results compared")
                ok = isinstance(v, tuple) and lin(v[2] if len(v) > 2 else v) == plus(lin(A0), lin(A1), -1) and \
                    (v[0] == "sdiv" and v[3] == n or v[0] == "ashr" and isinstance(v[3], int) and 1 << v[3] == n)
                if not ok:
                    q.no(st, inst, "the result is not the number of values between the places")
        for x, p in PRED.items():
            q = r(x)
            for inst, st, v in q.rets():
                ctx.count("results compared")
                if not all(bool(b) == (q.fl.known(s, ("icmp", p, A0, A1)) == 1) for b, s in outcomes(q.fl, st, v)):
                    q.no(st, inst, "the places are not compared")
        q = r("bool")
        for inst, st, v in q.rets():
            if not all(bool(b) == (q.fl.known(s, ("icmp", "ne", A0, 0)) == 1) for b, s in outcomes(q.fl, st, v)):
                q.no(st, inst, "the result is not whether there is a place")


# ---- fields of sizes only known at run time ----------------------------------

# as in drivers/packed.cpp: constant part and factors of the two sizes of each field; which are of fixed size
DYN = {"D": ([(1, 0, 0), (0, 2, 0), (4, 0, 0), (0, 0, 1), (8, 0, 0)], ((2, 9), (1, 7))),
       "E": ([(0, 2, 0), (0, 0, 2), (12, 0, 0), (2, 0, 0)], ((2, 9), (2, 9)))}


def size(c, a, b):
    r = num(c[0])
    r = plus(r, {a: 1}, c[1]) if c[1] else r
    return plus(r, {b: 1}, c[2]) if c[2] else r


def dynamic(ctx, m, N):
    fields, bounds = DYN[N]
    offs = []
    o = {}, {}
    tot = (0, 0, 0)
    for f in fields:
        offs.append(tot)
        tot = tuple(x + y for x, y in zip(tot, f))

    def run(x, facts=None):
        return Run(ctx, m, "%s_%s" % (N, x), facts)
    for x in ("bytes", "bytes2", "bytes3"):
        run(x).value(size(tot, A0, A1))
    for x in ("end", "cend"):
        run(x).value(plus(size(tot, A0, A1), lin(A2)))
    for i, off in enumerate(offs):
        for x in ("off", "off2", "off3"):
            run("%s_%d" % (x, i)).value(size(off, A0, A1))
        for x in ("vp", "cvp", "ptr", "cptr"):
            run("%s_%d" % (x, i)).value(plus(size(off, A0, A1), lin(A2)))
    q = run("valid")
    for inst, st, v in q.rets():
        ctx.count("results compared")
        for b, s in outcomes(q.fl, st, v):
            L = Lin(s.facts)
            if L.infeasible():
                continue
            inside = [g for a, (lo, hi) in zip((A0, A1), bounds) for g in (L.value(a) - lo, L.value(a) * -1 + hi)]
            ok = all(L.infeasible([g * -1 - 1]) for g in inside) if b else L.infeasible(inside)
            if not ok:
                q.no(st, inst, "the result is not whether the sizes are within their bounds")
    # objects
    data = one(run("data"))
    b, at = split(data[1]) if isinstance(data, tuple) and data[0] == "mem" else (None, None)
    if b != A0 or at is None:
        raise AnalysisError("the data of the structure is not a member")
    parts = [lin(one(run("size")))] + [lin(one(run("ooff_%d" % i))) for i in range(len(fields))]

    def obj(fl, st, base):
        """the data, size and offsets an object has"""
        def now(f):
            r = {}
            for t, c in f.items():
                if t is None:
                    r = plus(r, num(c))
                else:
                    if t[0] != "mem" or split(t[1])[0] != A0:
                        raise AnalysisError("the size of the structure is not a member")
                    a = addr(base, split(t[1])[1])
                    r = plus(r, lin(fl.load(st, a, t[2]) if st is not None else ("mem", a, t[2], 0)), c)
            return r
        a = addr(base, at)
        return [lin(fl.load(st, a, 8) if st is not None else ("mem", a, 8, 0))] + [now(f) for f in parts]
    d0, d1 = ("mem", addr(A0, at), 8, 0), ("mem", addr(A1, at), 8, 0)
    run("cdata").value(lin(d0))
    run("oend").value(plus(lin(d0), parts[0]))
    for i, c in enumerate(fields):
        for x in ("ovp", "optr"):
            run("%s_%d" % (x, i)).value(plus(lin(d0), parts[1 + i]))
        if c[1] or c[2]:
            continue
        run("get_%d" % i).moved(lin(A0), plus(lin(A3), size(offs[i], A1, A2)), c[0], (A3,))
        run("set_%d" % i).moved(plus(lin(A0), size(offs[i], A1, A2)), lin(A3), c[0], (A0,))
        old = obj(None, None, A1)
        run("oget_%d" % i).moved(lin(A0), plus(lin(d1), old[2 + i]), c[0], (d1,))
        for x in ("oset", "oref"):
            run("%s_%d" % (x, i)).moved(plus(lin(d0), parts[1 + i]), lin(A1), c[0], (d0,))
    same_bytes(run("eq"), lin(d0), lin(d1), [parts[0], obj(None, None, A1)[1]], True, sizes(run("size"), A0, A1))
    same_bytes(run("ne"), lin(d0), lin(d1), [parts[0], obj(None, None, A1)[1]], False, sizes(run("size"), A0, A1))

    def null(fl, st, p):
        f = fl.known(st, ("icmp", "eq", p, 0))
        return None if f is None else bool(f)

    def ends(x, new, check, src=None):
        q = run(x)
        for kind, inst, st in q.exits:
            ctx.count("operations on objects compared")
            a = st.auto
            for f in a.freed:
                if a.freed.count(f) > 1:
                    q.no(st, inst, "memory is freed twice")
            if any(set(lin(w[0])) <= {None} or w[2][0] == "copy" and (set(lin(w[2][1])) <= {None} or null(q.fl, st, w[2][1]))
                   for w in a.writes if w[1] != 0 and isinstance(w[2], tuple)):
                q.no(st, inst, "data is copied although there is none")
            if kind not in ("ret", "throw"):
                q.no(st, inst, "the operation does not return")
                continue
            mine = [t for t, n in a.allocs if t not in a.freed]
            gone = [f for f in a.freed if f not in [t for t, n in a.allocs]]
            now = None if (new and kind == "throw") or x == "dtor" else obj(q.fl, st, A0)
            if kind == "throw":
                if mine:
                    q.no(st, inst, "memory is lost when an exception is thrown")
                if gone or (not new and now != obj(None, None, A0)):
                    q.no(st, inst, "the structure is changed although an exception is thrown")
                if src is not None and obj(q.fl, st, src) != obj(None, None, src):
                    q.no(st, inst, "the other structure is changed although an exception is thrown")
                continue
            if [t for t in mine if now is None or lin(t) != now[0]]:
                q.no(st, inst, "memory is lost")
            check(q, inst, st, a, now, gone)
        return q

    def allocated(a, d, want):
        return any(lin(t) == d and lin(n) == want for t, n in a.allocs)

    def filled(a, d, frm, n):
        w = [x for x in a.writes if plus(lin(x[0]), d, -1).keys() <= {None} and lin(x[0]) != {}]
        return len(w) == 1 and lin(w[0][0]) == d and w[0][2] == ("copy", frm) and (lin(w[0][1]) in n)

    def ctor(q, inst, st, a, now, gone):
        if [plus(x, y, -1) for x, y in zip(now[1:], [size(t, A1, A2) for t in [tot] + offs])] != [{}] * len(now[1:]):
            q.no(st, inst, "the sizes are not those given")
        elif not allocated(a, now[0], now[1]):
            q.no(st, inst, "there is not as much memory as the fields take")
        if gone:
            q.no(st, inst, "memory of others is freed")
    ends("ctor", True, ctor)

    def emptied(q, inst, st, a, now, gone):
        z = null(q.fl, st, d0)
        if gone != ([] if z else [d0]):
            q.no(st, inst, "the memory of the structure is not freed exactly once")
    ends("dtor", False, emptied)

    def copied(assign):
        def f(q, inst, st, a, now, gone):
            old, src = obj(None, None, A0), obj(None, None, A1)
            if now[1:] != src[1:]:
                q.no(st, inst, "the sizes are not those of the other structure")
            if obj(q.fl, st, A1) != src:
                q.no(st, inst, "the structure copied is changed")
            had = assign and null(q.fl, st, d0) is not True
            z = null(q.fl, st, d1)
            if z is None:
                return q.no(st, inst, "it is not asked whether there is something to copy")
            if z:
                if now[0] != {}:
                    q.no(st, inst, "there is data although there is nothing to copy")
                if gone != ([d0] if had else []):
                    q.no(st, inst, "the memory of the structure is not freed exactly once")
                return
            if assign and now[0] == lin(d0):
                L = Lin(st.facts)
                x, y = (L.value(e) for e in sizes(run("size"), A0, A1))
                if gone or null(q.fl, st, d0) is not False or not (L.infeasible([x - y - 1]) and L.infeasible([y - x - 1])):
                    q.no(st, inst, "memory is used for the copy which is not of the right size")
            else:
                if not allocated(a, now[0], src[1]):
                    q.no(st, inst, "there is not as much memory as the fields take")
                if gone != ([d0] if had else []):
                    q.no(st, inst, "the memory of the structure is not freed exactly once")
            if not filled(a, now[0], d1, [src[1], old[1]] if now[0] == lin(d0) else [src[1]]):
                q.no(st, inst, "not all bytes are copied")
        return f
    ends("copy", True, copied(False), A1)
    ends("copyN", True, copied(False), A1)
    ends("asgC", False, copied(True), A1)

    def moved(assign):
        def f(q, inst, st, a, now, gone):
            src = obj(None, None, A1)
            if now != src:
                q.no(st, inst, "the structure is not what the other one was")
            if obj(q.fl, st, A1)[0] != {}:
                q.no(st, inst, "the other structure still has the data")
            had = assign and null(q.fl, st, d0) is not True
            if gone != ([d0] if had else []):
                q.no(st, inst, "the memory of the structure is not freed exactly once")
        return f
    ends("move", True, moved(False))
    ends("asgM", False, moved(True))

    def kept(q, inst, st, a, now, gone):
        if now != obj(None, None, A0) or gone:
            q.no(st, inst, "assigning a structure to itself changes it")
    ends("asgSelf", False, kept)

    def released(q, inst, st, a, now, gone):
        if gone or now[0] != {} or lin(q.fl.val(st, inst["ops"][0])) != lin(d0):
            q.no(st, inst, "not exactly the memory of the structure is given away")
    ends("release", False, released)


def one(q):
    vs = {v for _, _, v in q.rets()}
    if len(vs) != 1:
        raise AnalysisError("%s has several results" % q.fn.name)
    return vs.pop()


def sizes(q, *bases):
    """the size of objects, as expressions"""
    e = one(q)

    def sub(x, b):
        if isinstance(x, tuple):
            if x[0] == "mem" and split(x[1])[0] == A0:
                return ("mem", addr(b, split(x[1])[1])) + x[2:]
            return tuple(sub(y, b) for y in x)
        return x
    return [sub(e, b) for b in bases]


PRO = """#include <cstdint>
#include <limits>
#include <type_traits>
#include <utility>
#include <sharemind/DynamicPackedStruct.h>
#include <sharemind/PackedStruct.h>
#include <sharemind/PackedStructAccessor.h>
#include <sharemind/UnalignedPointer.h>
#include <sharemind/UnalignedReference.h>
using namespace sharemind;
using U8 = std::uint8_t; using U16 = std::uint16_t; using U32 = std::uint32_t; using U64 = std::uint64_t;
using P = PackedStruct<U8, U32, U16>; using PA = PackedStructAccessor<U8, U32, U16>; using PC = ConstPackedStructAccessor<U8, U32, U16>;
using V = DynamicVectorFieldPlaceholder<U16, 2u, 9u>; using W = DynamicFieldPlaceholder<1u, 7u>;
using D = DynamicPackedStruct<U8, V, U32, W, U64>; using DI = DynamicPackingInfo<U8, V, U32, W, U64>;
constexpr std::size_t M = std::numeric_limits<std::size_t>::max();
template <typename T> T & l(); template <typename T> T const & c();
"""


def types():
    T = lambda what, e: (what, "static_assert(%s, \"\");" % e)
    same = lambda what, a, b: T(what, "std::is_same<%s, %s >::value" % (a, b))
    pos = []
    for s in ("P", "PA"):
        for f in ("ref<1>()", "ptr<1>()", "voidPtr<1>()", "endVoidPtr()", "data()"):
            pos.append(("%s of %s" % (f.split("<")[0], s), "auto x_%s_%s(%s & p) -> decltype(p.%s) { return p.%s; }" % (s, f.split("<")[0].split("(")[0], s, f, f)))
    for s in ("P const", "PA const", "PC const"):
        for f in ("cref<1>()", "constPtr<1>()", "constVoidPtr<1>()", "endConstVoidPtr()", "constData()", "get<1>()", "size()", "minSizeInBytes()", "maxSizeInBytes()", "numFields()"):
            n = f.split("<")[0].split("(")[0]
            pos.append(("%s of %s" % (n, s), "auto y_%s_%s(%s & p) -> decltype(p.%s) { return p.%s; }" % (s[:2].strip(), n, s, f, f)))
    pos += [T("a packed structure takes no more than its fields and needs no alignment", "sizeof(P) == 7 && alignof(P) == 1 && sizeof(PackedStruct<U64>) == 8"),
            T("fields are counted", "P::numFields() == 3 && DI::numFields() == 5 && DI::numDynamicFields() == 2 && DI::hasDynamicFields() && !DynamicPackingInfo<U8>::hasDynamicFields()"),
            T("sizes of fields which are fixed", "P::minSizeInBytes() == 7 && P::maxSizeInBytes() == 7"),
            T("the smallest and largest sizes", "DI::minSizeInBytes() == 13 + 4 + 1 && DI::maxSizeInBytes() == 13 + 18 + 7"),
            T("sizes which do not fit do not wrap around", "DynamicPackingInfo<U8, DynamicFieldPlaceholder<> >::maxSizeInBytes() == M && DynamicPackingInfo<DynamicFieldPlaceholder<>, U64, DynamicFieldPlaceholder<> >::maxSizeInBytes() == M && DynamicPackingInfo<DynamicVectorFieldPlaceholder<U64> >::maxSizeInBytes() == M && DynamicPackingInfo<U8, DynamicVectorFieldPlaceholder<U16, 0u, M / 2> >::maxSizeInBytes() == M"),
            same("placeholders are their own type", "V::type", "V"), same("placeholders are their own type", "W::type", "W"),
            T("bounds", "V::min() == 2 && V::max() == 9 && V::minBytes() == 4 && V::maxBytes() == 18 && W::min() == 1 && W::max() == 7 && W::minBytes() == 1 && W::maxBytes() == 7"),
            same("types of fields", "P::ElemType<1>", "U32"), same("types of fields", "DI::ElemType<2>", "U32"),
            same("values are returned as what they are", "decltype(c<P>().get<2>())", "U16"),
            same("the fields before one", "P::PrefixType<2>", "PackedStruct<U8, U32>"), same("the last fields", "P::SuffixType<2>", "PackedStruct<U32, U16>"),
            same("the fields before one", "PA::PrefixType<2>", "PackedStructAccessor<U8, U32>"), same("the last fields", "PA::SuffixType<2>", "PackedStructAccessor<U32, U16>"),
            same("the fields of fixed places", "DI::StaticPrefixType", "PackingInfo<U8>"),
            ("the difference of places", "std::ptrdiff_t d1(UnalignedPointer<U32> a, UnalignedPointer<U32> b) { static_assert(std::is_same<decltype(a - b), std::ptrdiff_t>::value, \"\"); return a - b; }"),
            ("copying by assignment", "void d4(D & a, D const & b) { a = b; }"),
            ("moving by assignment", "void d5(D & a, D & b) { a = std::move(b); }"),
            ("copies and moves", "D d6(D const & a) { D b(a); D e(std::move(b)); return e; }"),
            T("copying by assignment returns the structure", "std::is_same<decltype(l<D>() = c<D>()), D &>::value"),
            T("moving by assignment returns the structure", "std::is_same<decltype(l<D>() = std::declval<D>()), D &>::value"),
            ("accessors are compared", "bool d7(PA const & a, PA const & b) { return a == b || a != b; }"),
            ("references are copied", "void d8(P & a, P & b) { a.ref<1>() = b.ref<1>(); UnalignedReference<U32> r(a.ref<1>()); r = 5u; }")]
    neg = [("a volatile value is referred to", "void n1(void * p) { UnalignedReference<U32 volatile> r(p); }", None),
           ("a constant field is written", "void n2(P const & p) { p.set<1>(5u); }", None),
           ("a constant field is written by reference", "void n3(P const & p) { p.ref<1>() = 5u; }", None),
           ("a constant field is written by reference", "void n4(PC & p) { p.ref<1>() = 5u; }", None),
           ("a pointer to const becomes a pointer", "UnalignedPointer<U32> n5(UnalignedPointer<U32 const> a) { return a; }", None),
           ("a reference to const becomes a reference", "UnalignedReference<U32> n6(ConstUnalignedReference<U32> a) { return a; }", None),
           ("pointers to values of different types are subtracted", "std::ptrdiff_t n7(UnalignedPointer<U32> a, UnalignedPointer<U16> b) { return a - b; }", None),
           ("a field which does not exist is used", "U32 n8(P const & p) { return p.get<3>(); }", None),
           ("too few sizes are given", "std::size_t n9() { return DI::sizeInBytes(1u); }", None),
           ("too many sizes are given", "std::size_t n10() { return DI::sizeInBytes(1u, 2u, 3u); }", None)]
    return ("packed", PRO, pos, neg)


def c19(ctx):
    ctx.rule("(at compile time) fields, places and structures have the operations, types and bounds they should have, and writing what is constant is rejected")
    ctx.rule("the place of a field is the sum of the sizes of those before it (modulo nothing: as an expression in the sizes given at run time)")
    ctx.rule("reading or writing a field touches exactly its bytes, with the bytes of the value, and does not assume alignment")
    ctx.rule("a structure with sizes given at run time has as much memory as its fields take, owned by one object and freed once on all paths")
    ctx.assume("the sizes of all fields together fit into size_t; different objects do not overlap")
    witness.check(ctx, [types()])
    for m in ctx.modules(["packed.cpp"], [("NDEBUG",)]):
        static_fields(ctx, m)
        pointers(ctx, m)
        for n in DYN:
            dynamic(ctx, m, n)
        Run(ctx, m, "N_size").value(num(6))
        Run(ctx, m, "N_size2").value(num(6))
    ctx.floor("functions", ctx.counts.get("functions explored path by path", 0), 300)


CHECKS = {"C19": c19}
