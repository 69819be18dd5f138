"""C11 circular buffer."""
from collections import namedtuple

from ..flow import Flow, addr, place, split
from ..invar import Inductive
from ..ir import AnalysisError
from .lockfree import bad, entry

A0, A1, A2 = ("arg", 0), ("arg", 1), ("arg", 2)
# done: elements handed over; pend: copied, not yet announced; pos: where the
# next element goes; last: elements known to be in the buffer; offered/took:
# what the user's function was last offered and took
CB = namedtuple("CB", "passed done pend pos last user locked")


def plus(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    return ("add", 64, a, b)


def minus(a, b):
    return a if b == 0 else ("sub", 64, a, b)


def times(a, n):
    return a if n == 1 else a * n if isinstance(a, int) else ("mul", 64, a, n)


class Layout:
    pass


def accessor(ctx, m, name):
    fn = entry(m, name)
    out = []

    class C:
        def exit(self, fl, st, kind, inst):
            if kind == "ret":
                out.append(fl.val(st, inst["ops"][0]))
    Flow(fn, C())
    ctx.count("functions explored path by path")
    if len(set(out)) != 1 or not (isinstance(out[0], tuple) and out[0][0] == "mem" and split(out[0][1])[0] == A0):
        ctx.violate("accessor@" + name, fn.name, "%s does not report a member of the buffer" % name)
        return None
    return split(out[0][1])[1]


def layout(ctx, m, locked):
    L = Layout()
    L.bs = accessor(ctx, m, "CB_bufferSize")
    L.buf = accessor(ctx, m, "CB_arrayStart")
    L.w = accessor(ctx, m, "CB_writeOffset")
    L.r = accessor(ctx, m, "CB_readOffset")
    fn = entry(m, "CB_dataAvailable")
    out = []

    class C:
        def event(self, fl, st, kind, inst, info):
            if kind == "call" and info[0] == "vp_x_lock":
                L.lock = info[1][0]

        def exit(self, fl, st, kind, inst):
            if kind == "ret":
                out.append(fl.val(st, inst["ops"][0]))
    L.lock = None
    Flow(fn, C())
    if len(set(out)) != 1 or not (isinstance(out[0], tuple) and out[0][0] == "mem" and split(out[0][1])[0] == A0):
        ctx.violate("accessor@dataAvailable", fn.name, "dataAvailable() does not report a member of the buffer")
        return None
    L.av = split(out[0][1])[1]
    if locked and L.lock is None:
        ctx.violate("accessor@dataAvailable", fn.name, "dataAvailable() reads the number of elements without the lock")
        return None
    offs = [L.bs, L.buf, L.w, L.r, L.av]
    if None in offs:
        return None
    if len(set(offs)) != 5:
        ctx.violate("accessors@CircBuffer", fn.name, "two accessors report the same member")
        return None
    return L


class Op(Inductive):
    maxdepth = 14
    """one operation: side is 'w' (producer) or 'r' (consumer) or None"""

    def __init__(self, ctx, fn, L, side, sz, mode):
        super().__init__()
        self.ctx, self.fn, self.L, self.side, self.sz, self.mode = ctx, fn, L, side, sz, mode
        self.own = None if side is None else L.w if side == "w" else L.r
        self.bs = ("mem", addr(A0, L.bs), 8, 0)
        self.buf = ("mem", addr(A0, L.buf), 8, 0)
        self.av = addr(A0, L.av)
        self.final = False
        self.reset()

    def reset(self):
        self.viol = []
        self.exits = []
        self.n_copies = 0
        self.n_pub = 0

    def bad(self, fl, st, inst, what):
        if what not in [v[0] for v in self.viol]:
            self.viol.append((what, fl, st.copy(), inst))

    # ---- abstraction at loop headers
    def initial(self, o):
        return ("mem", addr(A0, o), 8, 0)

    def base(self, fl, st):
        L = self.L
        r = [("uge", self.bs, 1), ("ult", self.initial(L.w), self.bs), ("ult", self.initial(L.r), self.bs)]
        if self.L.lock is None:
            r.append(("ule", self.initial(L.av), self.bs))
            r += self.pre(self.initial(L.av))
        return r

    def pre(self, av):
        if self.mode == "have":
            return [("ule", A1, minus(self.bs, av) if self.side == "w" else av)]
        return []

    def ghosts(self, fl, st):
        a = st.auto
        g = {"done": a.done, "pos": a.pos}
        if self.own is not None:
            g["own"] = fl.load(st, addr(A0, self.own), 8)
        if a.last is not None:
            g["last"] = a.last
        if a.pend:
            g["pend"] = a.pend
        if a.user is not None:
            g["offered"], g["took"] = a.user[:2]
        return g

    def set_ghosts(self, fl, st, g):
        st.auto = st.auto._replace(done=g["done"], pos=g["pos"], last=g.get("last"), pend=g.get("pend", 0),
                                   user=(g["offered"], g["took"], st.auto.user[2]) if "took" in g else None)
        if "own" in g:
            st.cells[addr(A0, self.own)] = (8, g["own"])
        # what is announced is read again under the lock
        if (self.L.lock is None or st.auto.locked) and "last" in g:
            st.cells[self.av] = (8, g["last"])
        else:
            st.cells.pop(self.av, None)

    def params(self, fl, st):
        p = [self.bs]
        if self.mode == "data":
            p += [A1, A2]
        return p

    def templates(self, fl, st, dst, atoms, params):
        ints, ptrs = [], []
        for k in atoms:
            if k[0] == "phi":
                if fl.fn.insts[k[1]]["ty"] == "ptr":
                    ptrs.append(k)
                elif fl.fn.insts[k[1]]["ty"] == "i64":
                    ints.append(k)
            else:
                ints.append(k)
        n = A2 if self.mode == "data" else None
        out = []
        for x, u in enumerate(ints):
            out += [("uge", u, 1), ("ult", u, self.bs), ("ule", u, self.bs)]
            if n:
                out += [("ule", u, n), ("ult", u, n), ("eq", u, n)]
            for v in ints[x + 1:]:
                out += [("eq", u, v), ("ule", u, v), ("ule", v, u), ("ule", plus(u, v), self.bs)]
                if n:
                    out += [("eq", plus(u, v), n)]
                else:
                    out += [("eq", plus(u, v), -1)]
        if ("hdr", dst, "last") in atoms and self.side is not None:
            last = ("hdr", dst, "last")
            room = minus(self.bs, last) if self.side == "w" else last
            for u in ints:
                if u[0] == "phi":
                    out.append(("eq", u, ("intr", "llvm.umin.i64", room, minus(self.bs, ("hdr", dst, "pos")))))
        for p in ptrs:
            for q in ([A1] if n else []) + [self.buf]:
                for u in ints:
                    out.append(("eq", p, plus(q, times(u, self.sz))))
        return out

    def small(self, a):
        return not (isinstance(a, tuple) and a[0] == "phi")

    def private(self, fl, st, base):
        return base[0] == "alloca"

    # ---- events
    def space(self, a):
        """(upper bound for) what this side may take now, as (left, right): x + left <= right"""
        if a.last is None:
            return None
        return (a.last, self.bs) if self.side == "w" else (0, a.last)

    def fits(self, fl, st, n):
        a = st.auto
        s = self.space(a)
        return s is not None and self.implied(fl, st, "ule", plus(n, s[0]), s[1])

    def atring(self, fl, st, p, at):
        return self.implied(fl, st, "eq", p, plus(self.buf, times(at, self.sz)))

    def transfer(self, fl, st, inst, ring, other, nbytes, n=None):
        """elements are copied between the ring and the user's memory"""
        a = st.auto
        if n is None:
            if isinstance(nbytes, int):
                if nbytes % self.sz:
                    return self.bad(fl, st, inst, "part of an element is copied")
                n = nbytes // self.sz
            elif self.sz == 1:
                n = nbytes
            elif nbytes[0] == "shl" and isinstance(nbytes[3], int) and 1 << nbytes[3] == self.sz:
                n = nbytes[2]
            elif nbytes[0] == "mul" and nbytes[3] == self.sz:
                n = nbytes[2]
            else:
                n = ("lshr", 64, nbytes, self.sz.bit_length() - 1)
                if not self.implied(fl, st, "eq", times(n, self.sz), nbytes):
                    return self.bad(fl, st, inst, "something else than whole elements is copied")
        self.n_copies += 1
        at = plus(a.pos, a.pend)
        if not self.atring(fl, st, ring, at):
            self.bad(fl, st, inst, "elements are copied %s another place than the next one of the buffer" %
                     ("to" if self.side == "w" else "from"))
        if not self.implied(fl, st, "ule", plus(at, n), self.bs):
            self.bad(fl, st, inst, "elements are copied beyond the end of the buffer")
        if not self.fits(fl, st, plus(a.pend, n)):
            self.bad(fl, st, inst, "elements are written over ones which were not yet read" if self.side == "w"
                     else "elements are read which were not yet written")
        if other is not None:
            if not self.implied(fl, st, "eq", other, plus(A1, times(plus(a.done, a.pend), self.sz))):
                self.bad(fl, st, inst, "other elements of the user's memory are copied than the next ones")
            if not self.implied(fl, st, "ule", plus(plus(a.done, a.pend), n), A2):
                self.bad(fl, st, inst, "more elements are copied than asked for")
        st.auto = st.auto._replace(pend=plus(a.pend, n))

    def in_ring(self, fl, st, p):
        from ..flow import mentions
        return isinstance(p, tuple) and mentions(p, {self.buf})

    def event(self, fl, st, kind, inst, info):
        a = st.auto
        if kind == "memcpy":
            d, s, n = info[:3]
            rd, rs = self.in_ring(fl, st, d), self.in_ring(fl, st, s)
            if self.mode == "data" and (rd or rs):
                if rd != (self.side == "w") or rs == (self.side == "w"):
                    self.bad(fl, st, inst, "elements are copied in the wrong direction")
                    return
                self.transfer(fl, st, inst, d if rd else s, s if rd else d, n)
            elif rd:
                self.bad(fl, st, inst, "the buffer's elements are written")
            return
        if kind == "memset":
            if self.in_ring(fl, st, info[0]):
                self.bad(fl, st, inst, "the buffer's elements are overwritten")
            return
        if kind == "store":
            ad, size, v = info
            b, o = split(ad)
            if ad == self.av:
                self.publish(fl, st, inst, v)
                # whoever holds the lock sees it
                return [st] if not isinstance(st.auto.pos, tuple) or st.auto.pos[0] != "fork" else self.fork(fl, st)
            if b == A0 and o is not None:
                if o != self.own:
                    if o in (self.L.bs, self.L.buf, self.L.w, self.L.r):
                        self.bad(fl, st, inst, "the operation changes a part of the buffer which is not its own")
                return
            if b[0] == "alloca":
                return
            if self.mode == "query":
                return
            rd = self.in_ring(fl, st, ad)
            src = v[1] if isinstance(v, tuple) and v[0] == "mem" else None
            if self.mode == "data" and size == self.sz and src is not None and rd == (self.side == "w"):
                self.transfer(fl, st, inst, ad if rd else src, src if rd else ad, size)
                return
            self.bad(fl, st, inst, "something else than the next elements is written")
            return
        if kind not in ("call", "throw"):
            return
        name, args = info
        if name == "vp_x_lock":
            if args[0] != self.L.lock:
                self.bad(fl, st, inst, "another lock is taken")
            st.auto = a._replace(locked=True)
        elif name == "vp_x_unlock":
            st.auto = a._replace(locked=False)
        elif name == "vp_x_user_count":
            n = args[1]
            at = plus(a.pos, a.pend)
            if a.user is not None and not self.implied(fl, st, "eq", a.user[0], a.user[1]):
                self.bad(fl, st, inst, "the user's function is called again although it took less than offered")
            if a.user is not None and not a.user[2]:
                self.bad(fl, st, inst, "the user's function is called before the last elements were announced")
            if not self.atring(fl, st, args[0], at):
                self.bad(fl, st, inst, "the user's function is given another place than the next one of the buffer")
            if not self.implied(fl, st, "ule", plus(at, n), self.bs):
                self.bad(fl, st, inst, "the user's function is given more than there is before the end of the buffer")
            if not self.fits(fl, st, n):
                self.bad(fl, st, inst, "the user's function is given elements which are not available")
            if not self.implied(fl, st, "uge", n, 1):
                self.bad(fl, st, inst, "the user's function is called for no elements")
            self.n_copies += 1
            self.offered = n
            st.vals[inst.id] = ("ret", inst.id)

    def publish(self, fl, st, inst, v):
        a = st.auto
        if self.L.lock is not None and not a.locked:
            self.bad(fl, st, inst, "the number of elements is changed without the lock")
        self.n_pub += 1
        n = a.pend
        if self.mode == "have":
            n = A1
        if self.mode == "user":
            n = a.user[1] if a.user is not None and not a.user[2] else 0
        cur = a.last
        if cur is None:
            self.bad(fl, st, inst, "the number of elements is changed without the lock")
            return
        want = plus(cur, n) if self.side == "w" else minus(cur, n)
        if self.side is None or self.mode == "query":
            self.bad(fl, st, inst, "a query changes the number of elements")
            return
        if not self.implied(fl, st, "eq", v, want):
            self.bad(fl, st, inst, "another number of elements is announced than the one transferred")
        u = a.user
        if self.mode == "user" and u is not None:
            u = (u[0], u[1], True)
        st.auto = a._replace(done=plus(a.done, n), pend=0, last=v, user=u, pos=("fork", plus(a.pos, n)))

    def fork(self, fl, st):
        """the next position wraps at the end of the buffer"""
        p = st.auto.pos[1]
        out = []
        c = ("icmp", "ult", p, self.bs)
        for v in (1, 0):
            s = st.copy()
            if fl.learn(s, c, v):
                s.auto = s.auto._replace(pos=p if v else minus(p, self.bs))
                out.append(s)
        return out

    def havoc(self, fl, st, inst, name, args):
        a = st.auto
        if name in ("vp_x_lock", "vp_x_cv_wait", "vp_x_cv_timedwait"):
            new = ("val", inst.id)
            if name != "vp_x_lock":
                new = ("val", inst.id) if inst.get("ty") == "void" else ("xw", inst.id)
            for k in [k for k in st.facts if _has(k, new)]:
                del st.facts[k]
            st.cells[self.av] = (8, new)
            st.facts[("icmp", "ule", new, self.bs)] = ("eq", 1)
            if a.last is not None and not _has(a.last, new):
                # the other side only makes room, or adds
                if self.side is not None:
                    st.facts[("icmp", "ule" if self.side == "w" else "uge", new, a.last)] = ("eq", 1)
            for p, x, y in self.pre(new) if a.done == 0 and a.last is None else ():
                st.facts[("icmp", p, x, y)] = ("eq", 1)
            st.auto = a._replace(last=new)
            return True
        if name == "vp_x_user_count":
            r = ("ret", inst.id)
            st.vals[inst.id] = r
            st.facts[("icmp", "ule", r, args[1])] = ("eq", 1)
            st.auto = st.auto._replace(user=(args[1], r, False))
            return True
        if name.startswith(("vp_x_unlock", "vp_x_cv_notify", "vp_xt_user_call", "vp_x_user", "__")):
            return True
        if name.startswith("_ZNSt6chrono") or "clock" in name:
            return True
        return None

    def exit(self, fl, st, kind, inst):
        self.exits.append((kind, inst, st))


def _has(e, x):
    if e == x:
        return True
    return isinstance(e, tuple) and any(_has(y, x) for y in e)


def drive(ctx, m, name, L, side, sz, mode):
    fn = entry(m, name)
    c = Op(ctx, fn, L, side, sz, mode)
    pos = 0 if side is None else ("mem", addr(A0, c.own), 8, 0)
    last = ("mem", c.av, 8, 0) if L.lock is None else None

    def make(c):
        return Flow(fn, c, init=CB(frozenset(), 0, 0, pos, last, None, False),
                    cells={addr(A0, o): (8, ("mem", addr(A0, o), 8, 0)) for o in (L.bs, L.buf, L.w, L.r)})
    fl = c.solve(fn, make)
    ctx.count("functions explored path by path")
    ctx.count("abstract states", fl.nodes)
    ctx.count("loop invariants", sum(len(v) for v in c.inv.values()))
    n = 0
    for kind, inst, st in c.exits:
        if kind not in ("ret", "throw"):
            continue
        if not c.feasible(fl, st):
            continue
        n += kind == "ret"
        check_exit(ctx, c, fl, st, kind, inst, name)
    for what, fl_, st, inst in c.viol:
        if c.feasible(fl_, st):
            bad(ctx, fn, fl_, st, inst, what)
    if not n and not ctx.violations:
        raise AnalysisError("%s has no exit" % name)
    ctx.count("outcomes of operations", n)
    ctx.count("relations decided", c.queries)
    return c


def check_exit(ctx, c, fl, st, kind, inst, name):
    L, a, fn = c.L, st.auto, c.fn

    def b(what):
        bad(ctx, fn, fl, st, inst, what)
    for o in (L.bs, L.buf, L.w, L.r):
        if o != c.own and fl.load(st, addr(A0, o), 8) != c.initial(o):
            b("the operation changes a part of the buffer which is not its own")
    if kind == "throw":
        if c.mode != "query":
            b("the operation throws")
        return
    if c.own is not None and c.mode != "query":
        if not c.implied(fl, st, "eq", fl.load(st, addr(A0, c.own), 8), a.pos):
            b("the next position is not behind the elements transferred")
        if a.pend != 0 and not c.implied(fl, st, "eq", a.pend, 0):
            b("elements which were transferred are not announced")
        if a.user is not None and not a.user[2]:
            b("elements which were transferred are not announced")
    ret = fl.val(st, inst["ops"][0]) if inst.get("ops") else None
    c.ret(fl, st, inst, ret, b) if hasattr(c, "ret") else None
    own = fl.load(st, addr(A0, c.own), 8) if c.own is not None else None
    last = a.last
    avail = None
    if last is not None:
        avail = minus(c.bs, last) if c.side == "w" else last
    if c.mode == "have":
        if not c.n_pub:
            b("the elements are not announced")
        if not c.implied(fl, st, "eq", a.done, A1):
            b("another number of elements is announced than the one given")
        if name.endswith("Ube"):
            isum(c, fl, st, ret, avail, minus(c.bs, own), b)
        elif not name.endswith("NoRet"):
            if not c.implied(fl, st, "eq", ret, avail):
                b("another number of available elements is returned")
    elif c.mode in ("data", "user"):
        if not c.implied(fl, st, "eq", ret, a.done):
            b("another number is returned than that of the elements transferred")
        s = c.space(a)
        if c.side == "w":
            more = [("ult", s[0], c.bs)]
        else:
            more = [("uge", s[1], 1)]
        if c.mode == "data":
            if not c.implied(fl, st, "eq", a.done, A2, extra=more):
                b("the operation ends although more could be transferred")
        elif not (c.implied(fl, st, "eq", 0, 1, extra=more) if a.user is None
                  else c.implied(fl, st, "ult", a.user[1], a.user[0], extra=more)):
            b("the operation ends although more could be transferred")
    elif c.mode == "query":
        what = name[3:]
        if what == "full":
            boolean(c, fl, st, ret, "eq", last, c.bs, b)
        elif what == "empty":
            boolean(c, fl, st, ret, "eq", last, 0, b)
        elif what.endswith("Ube"):
            isum(c, fl, st, ret, avail, minus(c.bs, own), b)
        else:
            if not c.implied(fl, st, "eq", ret, avail):
                b("another number of available elements is returned")
            if what.endswith("1"):
                isum(c, fl, st, fl.load(st, A1, 8), avail, minus(c.bs, own), b)
            if what.startswith("wait") and not c.implied(fl, st, "uge", avail, 1):
                b("waiting ends although nothing is available")


def isum(c, fl, st, ret, x, y, b):
    """ret is the smaller one of x and y"""
    if not (c.implied(fl, st, "ule", ret, x) and c.implied(fl, st, "ule", ret, y)):
        b("more elements are reported than there are before the end of the buffer")
    elif not (c.implied(fl, st, "eq", ret, x, extra=[("ult", x, y)])
              and c.implied(fl, st, "eq", ret, y, extra=[("ule", y, x)])):
        b("fewer elements are reported than there are before the end of the buffer")


def boolean(c, fl, st, ret, p, x, y, b):
    for v in (1, 0):
        s = st.copy()
        if isinstance(ret, int):
            if ret != v:
                continue
        elif not fl.learn(s, ret, v):
            continue
        if not c.implied(fl, s, p if v else "ne", x, y):
            b("the state of the buffer is reported wrongly")


def create(ctx, m, L, sz):
    fn = entry(m, "CB_create")
    n = 0

    class C:
        exits = []

        def private(self, fl, st, base):
            return base[0] in ("alloca", "new") or base == A0

        def exit(self, fl, st, kind, inst):
            self.exits.append((kind, inst, st))

        def event(self, fl, st, kind, inst, info):
            if kind == "call" and info[0].startswith(("_Zna", "_Znw")):
                st.auto = info[1][0]
    c = C()
    c.exits = []
    fl = Flow(fn, c)
    ctx.count("functions explored path by path")
    for kind, inst, st in c.exits:
        if kind != "ret":
            continue
        n += 1
        ld = lambda o: fl.known(st, fl.load(st, addr(A0, o), 8))
        if not all(ld(o) == 0 for o in (L.w, L.r, L.av)):
            bad(ctx, fn, fl, st, inst, "a new buffer is not empty or has other offsets than zero")
        if fl.load(st, addr(A0, L.bs), 8) != A1:
            bad(ctx, fn, fl, st, inst, "a new buffer has another size than asked for")
        bf = fl.load(st, addr(A0, L.buf), 8)
        if not (isinstance(bf, tuple) and bf[0] == "new"):
            bad(ctx, fn, fl, st, inst, "a new buffer has no memory of its own")
        v = st.auto
        want = [A1] if sz == 1 else [("mul", 64, A1, sz), ("shl", 64, A1, sz.bit_length() - 1)]
        if v not in want and fl.known(st, v) != -1:
            bad(ctx, fn, fl, st, inst, "the memory of a new buffer has another size than its elements")
    if not n:
        raise AnalysisError("the buffer is never created")


OPS = [("CB_write", "w", "data"), ("CB_read", "r", "data"), ("CB_writeActor", "w", "user"), ("CB_readActor", "r", "user"),
       ("CB_haveWritten", "w", "have"), ("CB_haveRead", "r", "have"),
       ("CB_haveWrittenRetUbe", "w", "have"), ("CB_haveReadRetUbe", "r", "have"),
       ("CB_haveWrittenNoRet", "w", "have"), ("CB_haveReadNoRet", "r", "have"),
       ("CB_spaceAvailable", "w", "query"), ("CB_spaceAvailable1", "w", "query"), ("CB_spaceUbe", "w", "query"),
       ("CB_dataAvailable", "r", "query"), ("CB_dataAvailable1", "r", "query"), ("CB_dataUbe", "r", "query"),
       ("CB_full", "w", "query"), ("CB_empty", "r", "query")]
WAIT = [("CB_waitSpace", "w", "query"), ("CB_waitData", "r", "query"),
        ("CB_waitSpaceStop", "w", "query"), ("CB_waitDataStop", "r", "query")]


def c11(ctx):
    ctx.rule("every copy between the buffer and the user's memory starts at the next position, stays within the buffer and within what "
             "is free or filled, and takes the next elements of the user's memory")
    ctx.rule("the number of elements changes under the lock by exactly the number copied before, and the position moves on by as many, "
             "wrapping at the end")
    ctx.rule("what an operation returns is the number transferred or available, and it ends only when all was transferred or nothing is available")
    ctx.rule("no operation changes the other side's position, the memory or its size")
    ctx.assume("one producer and one consumer, as documented; the amounts given to haveWritten and haveRead, and returned by the user's "
               "functions, do not exceed what is available; sizes of arrays are below 2^60")
    tasks = []
    for defs, sz, locked in CONFIGS:
        m = ctx.modules(["circbuf.cpp"], defs=(defs,))[0]
        L = layout(ctx, m, locked)
        if L is None:
            continue
        create(ctx, m, L, sz)
        for name, side, mode in OPS + (WAIT if locked else []):
            tasks.append(((mode != "user"), lambda c, m=m, name=name, L=L, side=side, sz=sz, mode=mode:
                          drive(c, m, name, L, side, sz, mode)))
    tasks.sort(key=lambda t: t[0])
    ctx.parallel([t[1] for t in tasks])


CONFIGS = [(("NDEBUG",), 1, True), ((), 1, True), (("NDEBUG", "VP_CB_T=long"), 8, True),
           (("NDEBUG", "VP_CB_L=CircBufferNoLocking"), 1, False)]


CHECKS = {"C11": c11}
