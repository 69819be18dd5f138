"""C12 file descriptors, C13 system calls and the event loop."""
import re
from collections import namedtuple

from ..flow import Flow, addr, place, split
from ..ir import AnalysisError
from ..invar import Inductive
from .future import same
from .lockfree import bad, entry

A0, A1, A2, A3 = [("arg", n) for n in range(4)]
ERRNO = ("errno",)
EINTR, EAGAIN, EEXIST, ENOENT = 4, 11, 17, 2
TRANSIENT = {EINTR, EAGAIN}
ADD, DEL, MOD = 1, 2, 3
ONESHOT = 1 << 30
NAMES = {"epoll_ctl", "epoll_create1", "epoll_create", "epoll_wait", "pipe2", "pipe", "fcntl", "fcntl64", "read", "write", "vp_x_syscall",
         "dup", "dup2", "dup3", "socket", "eventfd"}
CLOBBER = NAMES | {"close", "strerror_r", "__xpg_strerror_r"}

S = namedtuple("S", "calls closes thrown okres atomics again")
Call = namedtuple("Call", "name args ret err id")


class Sys:
    """records system calls, closed descriptors, exceptions thrown"""

    def __init__(self, ctx, fn, erroff):
        self.ctx, self.fn, self.erroff = ctx, fn, erroff
        self.exits = []
        self.retries = 0
        self.solo = None        # the object nobody else knows yet

    def private(self, fl, st, base):
        return base[0] in ("alloca", "errno") or base[0] == "ret" and self.is_exc(fl, base)

    def is_exc(self, fl, base):
        i = fl.fn.insts.get(base[1])
        return i is not None and (i.callee() or "") == "__cxa_allocate_exception"

    def bad(self, fl, st, inst, what):
        bad(self.ctx, self.fn, fl, st, inst, what)

    def call(self, fl, st, inst, name, args):
        a = list(args)
        if name == "epoll_ctl" and isinstance(a[3], tuple):
            b, o = split(a[3])
            a[3] = ("ev", fl.load(st, addr(b, (o or 0)), 4), fl.load(st, addr(b, (o or 0) + 4), 8))
        if name == "pipe2" or name == "pipe":
            a[0] = a[0]
        return Call(name, tuple(a), ("ret", inst.id), ("mem", ERRNO, 4, inst.id), inst.id)

    def event(self, fl, st, kind, inst, info):
        a = st.auto
        self.kind = kind
        if kind == "atomic":
            # the result is named by what the engine calls it afterwards
            st.auto = a._replace(atomics=a.atomics + ((inst.get("rmw") or inst.op, info[0], info[2], ("ret", inst.id)),)[:8])
            return
        if kind not in ("call", "throw"):
            return
        name, args = info
        if name == "__errno_location":
            st.vals[inst.id] = ERRNO
        elif name in NAMES:
            if kind == "throw":
                return []       # C functions throw nothing
            c = self.call(fl, st, inst, name, args)
            prev = a.calls[-1] if a.calls else None
            again = prev is not None and self.retry(fl, st, inst, prev, c)
            self.retries += again
            st.auto = a._replace(again=again)
        elif name == "close":
            if kind != "throw":
                if a.closes.count(args[0]) < 2:
                    st.auto = a._replace(closes=a.closes + (args[0],))
        elif name == "vp_x_ok" and kind == "throw":
            return []
        elif name == "__cxa_throw":
            if kind == "throw":
                t = args[1][1] if isinstance(args[1], tuple) and args[1][0] == "global" else "?"
                e = fl.load(st, addr(args[0], self.erroff), 4) if "ErrnoException" in t else None
                st.auto = a._replace(thrown=a.thrown + ((t, e),))

    def retry(self, fl, st, inst, prev, c):
        if prev.name != c.name or prev.args != c.args and unwas_args(prev.args) != unwas_args(c.args):
            return False
        o = outcome(fl, st, prev)
        if o != "fail" or not errnos(fl, st, prev.err) <= TRANSIENT:
            self.bad(fl, st, inst, "a system call is repeated although it did not fail for a passing reason")
        return True

    def havoc(self, fl, st, inst, name, args):
        if self.kind == "throw" and name in NAMES | {"vp_x_ok"}:
            return True
        a = st.auto
        if name in NAMES:
            c = self.call(fl, st, inst, name, args)
            st.auto = a._replace(calls=(a.calls[:-1] if a.again else a.calls) + (c,), again=False)
            if len(st.auto.calls) > 12:
                raise AnalysisError("%s: too many system calls on a path" % fl.fn.name)
        elif name == "vp_x_ok":
            st.auto = a._replace(okres=(args[0], ("ret", inst.id)))
        if name in CLOBBER:
            st.epochs[ERRNO] = inst.id
            for k in [k for k in st.cells if k != ERRNO and split(k)[0] == ERRNO or k == ERRNO]:
                del st.cells[k]
            if name in ("pipe2", "pipe"):
                b, o = split(args[0])
                fl.kill(st, b, o, 8)
                st.epochs[b] = inst.id
                fl.learn(st, ("icmp", "eq", fl.load(st, addr(b, o), 4), fl.load(st, addr(b, o + 4), 4)), 0)
            elif name in ("read", "strerror_r") and isinstance(args[1], tuple):
                b, o = split(args[1])
                fl.kill(st, b, o, 1024)
                st.epochs[b] = inst.id
            elif name == "epoll_wait":
                b, o = split(args[1])
                fl.kill(st, b, o, 1 << 20)
                st.epochs[b] = inst.id
            return True
        if name in ("vp_x_ok", "__errno_location", "close") or name.startswith(("pthread_", "vp_x_lock", "vp_x_unlock")):
            return True
        return None

    def exit(self, fl, st, kind, inst):
        self.exits.append((kind, inst, st))


def unwas_args(a):
    from ..flow import unwas
    return tuple(unwas(x) for x in a)


def outcome(fl, st, c):
    """ok / fail / None"""
    if c.name == "vp_x_syscall":
        if st.auto.okres is None or st.auto.okres[0] != c.ret:
            return None
        k = fl.known(st, st.auto.okres[1])
        if k is None:
            k = fl.known(st, ("cast", "trunc", (8, 1), st.auto.okres[1]))
        return None if k is None else "ok" if k & 1 else "fail"
    for v in (0, -1):
        if fl.known(st, ("icmp", "eq", c.ret, v)) == 1:
            return "ok" if v == 0 else "fail"
    if c.name in ("epoll_ctl", "pipe2", "pipe") or c.name.startswith("fcntl") and c.args[1] in (2, 4):
        if fl.known(st, ("icmp", "eq", c.ret, 0)) == 0:
            return "fail"
        if fl.known(st, ("icmp", "eq", c.ret, -1)) == 0 or fl.known(st, ("icmp", "slt", c.ret, 0)) == 0:
            return "ok"
        return None
    if fl.known(st, ("icmp", "eq", c.ret, -1)) == 0:
        return "ok"
    for p, v, r in (("slt", 0, ("fail", "ok")), ("sgt", -1, ("ok", "fail")), ("sle", -1, ("fail", "ok")), ("sgt", 0, ("ok", None)),
                    ("slt", 1, (None, "ok")), ("sge", 0, ("ok", "fail"))):
        k = fl.known(st, ("icmp", p, c.ret, v))
        if k is not None and r[0 if k else 1]:
            return r[0 if k else 1]
    if fl.known(st, ("icmp", "eq", c.ret, 0)) == 0 and (fl.known(st, ("icmp", "slt", c.ret, 1)) == 1
                                                       or fl.known(st, ("icmp", "sgt", c.ret, 0)) == 0):
        return "fail"
    return None


def mentions_(e, x):
    if e == x:
        return True
    return isinstance(e, tuple) and any(mentions_(y, x) for y in e)


def errnos(fl, st, E):
    """the error numbers which are possible on this path"""
    out = set()
    rel = [(k, f) for k, f in st.facts.items() if mentions_(k, E)]
    for v in range(1, 134):
        s = st.copy()
        s.facts = {k: f for k, f in s.facts.items() if not mentions_(k, E)}
        s.facts[E] = ("eq", v)
        ok = True
        for k, f in rel:
            if k == E:
                x = v
            else:
                x = fl.known(s, k)
            if x is None:
                continue
            if f[0] == "eq" and x != f[1] or f[0] == "ne" and x in f[1]:
                ok = False
                break
        if ok:
            out.add(v)
    return out


def explore(ctx, fn, erroff, solo=None, cells=None):
    c = Sys(ctx, fn, erroff)
    c.solo = solo
    fl = Flow(fn, c, init=S((), (), (), None, (), False), cells=cells)
    ctx.count("functions explored path by path")
    ctx.count("abstract states", fl.nodes)
    ctx.count("retries of system calls", c.retries)
    exits = [(k, i, s) for k, i, s in c.exits if k in ("ret", "throw")]
    if not exits:
        raise AnalysisError("%s has no exit" % fn.name)
    return fl, c, exits


def errno_offset(ctx, m):
    fn = entry(m, "EX_errno")
    out = []

    class C:
        def exit(self, fl, st, kind, inst):
            out.append(fl.val(st, inst["ops"][0]))
    Flow(fn, C())
    e = out[0] if out else None
    if not (isinstance(e, tuple) and e[0] == "mem" and split(e[1])[0] == A0):
        raise AnalysisError("errorNumber() is no member")
    return split(e[1])[1]


def surfaced(ctx, c, fl, st, inst, call, exc, transient=True):
    def bad(ctx, fn, *a):
        if isinstance(ctx, Sys):
            ctx.bad(*a)
        else:
            globals()["bad"](ctx, fn, *a)
    """the exception which leaves tells what failed"""
    if outcome(fl, st, call) != "fail":
        bad(ctx, fl.fn, fl, st, inst, "an exception is thrown although the last system call did not fail")
        return
    if transient and errnos(fl, st, call.err) & TRANSIENT:
        bad(ctx, fl.fn, fl, st, inst, "a system call which was interrupted is not repeated")
    th = st.auto.thrown
    if not th or not any(exc in t for t, e in th[-1:]):
        bad(ctx, fl.fn, fl, st, inst, "another exception is thrown than the one which tells what failed")
    es = [e for t, e in th if e is not None]
    if not es or es[-1] != call.err and not (isinstance(es[-1], int) and {es[-1]} == errnos(fl, st, call.err)):
        bad(ctx, fl.fn, fl, st, inst, "the exception does not carry the error of the system call")


# ---- C12 -------------------------------------------------------------------

def fd_ops(ctx, m, erroff):
    M0 = ("mem", A0, 4, 0)
    M1 = ("mem", A1, 4, 0)
    fn = entry(m, "FD_native")
    fl, c, ex = explore(ctx, fn, erroff)
    off = None
    for kind, inst, st in ex:
        v = fl.val(st, inst["ops"][0])
        if not (isinstance(v, tuple) and v[0] == "mem" and split(v[1])[0] == A0):
            bad(ctx, fn, fl, st, inst, "nativeHandle() does not report the descriptor")
            return
        off = split(v[1])[1]
    M0, M1 = ("mem", addr(A0, off), 4, 0), ("mem", addr(A1, off), 4, 0)
    # entry: (descriptors owned before, final owner: this, other), expected new value of this / other, result
    NO = -1
    spec = {
        "FD_ctor": ([A1], ("this",), A1, None, None),
        "FD_default": ([], ("this",), NO, None, None),
        "FD_move": ([M1], ("this", "other"), M1, NO, None),
        "FD_assign": ([M0, M1], ("this", "other"), M1, NO, None),
        "FD_selfassign": ([M0], ("this",), M0, None, None),
        "FD_reset": ([M0, A1], ("this",), A1, None, None),
        "FD_reset same": ([A1], ("this",), A1, None, None),      # given the descriptor it holds already
        "FD_release": ([M0], ("this",), NO, None, M0),
        "FD_close": ([M0], ("this",), NO, None, None),
        "FD_dtor": ([M0], (), None, None, None),
    }
    for e, (owned, hold, this, other, res) in spec.items():
        fn = entry(m, e.split()[0])
        fl, c, ex = explore(ctx, fn, erroff, cells={addr(A0, off): (4, A1)} if " " in e else None)
        for kind, inst, st in ex:
            if kind == "throw":
                bad(ctx, fn, fl, st, inst, "the operation throws")
                continue
            t = fl.load(st, addr(A0, off), 4)
            o = fl.load(st, addr(A1, off), 4) if "other" in hold else None
            held = ([t] if "this" in hold else []) + ([o] if o is not None else [])
            r = fl.val(st, inst["ops"][0]) if inst.get("ops") else None
            if res is not None and not same(fl, st, r, res):
                bad(ctx, fn, fl, st, inst, "another descriptor is returned than the one held")
            if this is not None and not same(fl, st, t, this):
                bad(ctx, fn, fl, st, inst, "the object holds another descriptor afterwards than it should")
            if other is not None and not same(fl, st, o, other):
                bad(ctx, fn, fl, st, inst, "the object moved from still holds a descriptor")
            for x in st.auto.closes:
                if fl.known(st, x) is not None or not any(same(fl, st, x, y) for y in owned):
                    bad(ctx, fn, fl, st, inst, "a descriptor is closed which the object does not own")
            for n, x in enumerate(owned):
                if fl.known(st, x) == NO:
                    continue
                if any(same(fl, st, x, y) for y in owned[:n]):
                    continue        # the same descriptor, given once more
                u = sum(same(fl, st, x, y) for y in st.auto.closes) + sum(same(fl, st, x, y) for y in held) \
                    + (res is not None and same(fl, st, r, x))
                if u == 0:
                    bad(ctx, fn, fl, st, inst, "a descriptor is neither closed nor held any more")
                elif u > 1:
                    bad(ctx, fn, fl, st, inst, "a descriptor is closed and still held, closed twice, or held twice")
                ctx.count("descriptors followed")
    fn = entry(m, "FD_valid")
    fl, c, ex = explore(ctx, fn, erroff)
    for kind, inst, st in ex:
        r = fl.val(st, inst["ops"][0])
        for v in (1, 0):
            s = st.copy()
            if isinstance(r, int):
                if r != v:
                    continue
            elif not fl.learn(s, r, v):
                continue
            if not any(fl.known(s, ("icmp", p, M0, k)) == (v if w else 1 - v)
                       for p, k, w in (("sgt", -1, 1), ("slt", 0, 0), ("sge", 0, 1), ("sle", -1, 0))):
                bad(ctx, fn, fl, st, inst, "validity is not reported as the descriptor being non-negative")
    # duplicate()
    fn = entry(m, "FD_dup")
    fl, c, ex = explore(ctx, fn, erroff)
    for kind, inst, st in ex:
        cs = st.auto.calls
        src = ("mem", addr(A1, off), 4, 0)
        if len(cs) != 1 or not cs[0].name.startswith("fcntl") or cs[0].args[0] != src:
            bad(ctx, fn, fl, st, inst, "duplicating does not duplicate the descriptor once")
            continue
        if cs[0].args[1] != 1030:
            bad(ctx, fn, fl, st, inst, "the duplicate is not closed on exec from the beginning")
        if kind == "ret":
            if outcome(fl, st, cs[0]) != "ok":
                bad(ctx, fn, fl, st, inst, "a descriptor is returned although duplicating failed")
            if not same(fl, st, fl.load(st, addr(A0, off), 4), cs[0].ret):
                bad(ctx, fn, fl, st, inst, "the duplicate is not what is returned")
            if st.auto.closes:
                bad(ctx, fn, fl, st, inst, "a descriptor is closed which the object does not own")
        else:
            surfaced(ctx, c, fl, st, inst, cs[0], "FailedToDuplicate")
            if st.auto.closes:
                bad(ctx, fn, fl, st, inst, "a descriptor is closed which the object does not own")
        ctx.count("descriptors followed")
    # nobody but the object sets its descriptor: entries above


class Loop:
    """where the event loop keeps its descriptors, found from the constructor"""


def loop_ctor(ctx, m, erroff, name="EL_ctor", report=True):
    def bad(*a):
        if report:
            globals()["bad"](*a)
    fn = entry(m, name)
    fl, c, ex = explore(ctx, fn, erroff, solo=A0)
    L = None
    for kind, inst, st in ex:
        a = st.auto
        by = {}
        for x in a.calls:
            by.setdefault(x.name, []).append(x)
        fds = []        # descriptors open so far
        for x in a.calls:
            if x.name == "epoll_create1":
                if x.args[0] & 0o2000000 == 0:
                    bad(ctx, fn, fl, st, inst, "a descriptor is created which is not closed on exec")
                if outcome(fl, st, x) == "ok":
                    fds.append(("epoll", x.ret))
            elif x.name in ("pipe2",):
                if not isinstance(x.args[1], int) or x.args[1] & 0o2000000 == 0:
                    bad(ctx, fn, fl, st, inst, "a descriptor is created which is not closed on exec")
                if outcome(fl, st, x) == "ok":
                    b, o = split(x.args[0])
                    fds.append(("read", ("mem", addr(b, o), 4, x.id)))
                    fds.append(("write", ("mem", addr(b, o + 4), 4, x.id)))
            elif x.name in ("pipe", "epoll_create", "eventfd", "socket", "dup"):
                bad(ctx, fn, fl, st, inst, "a descriptor is created which is not closed on exec")
        cl = list(a.closes)
        ctx.count("descriptors followed", len(fds))
        if kind == "throw":
            for what, f in fds:
                n = sum(same(fl, st, f, y) for y in cl)
                if n != 1:
                    bad(ctx, fn, fl, st, inst, "the %s descriptor is %s when the constructor fails" % (
                        what, "not closed" if n == 0 else "closed twice"))
            if len(cl) > len(fds):
                bad(ctx, fn, fl, st, inst, "a descriptor is closed which was not opened")
            continue
        if cl:
            bad(ctx, fn, fl, st, inst, "the constructor closes a descriptor")
        if len(fds) != 3:
            bad(ctx, fn, fl, st, inst, "the event loop is constructed without its descriptors")
            continue
        here = {}
        for what, f in fds:
            at = [k for k, v in st.cells.items() if k[0] != "range" and split(k)[0] == A0 and same(fl, st, v[1], f)]
            if len(at) != 1:
                bad(ctx, fn, fl, st, inst, "the %s descriptor is not held in one place" % what)
            else:
                here[what] = split(at[0])[1]
        if len(here) == 3:
            L = Loop()
            L.epoll, L.read, L.write = here["epoll"], here["read"], here["write"]
            L.calls = a.calls
    if L is None and not ctx.violations:
        raise AnalysisError("the event loop is never constructed")
    return L


def loop_end(ctx, m, L, erroff, name="EL_dtor"):
    """the destructor closes each descriptor once; stopping closes the write end once"""
    R, W, E = [addr(A0, o) for o in (L.read, L.write, L.epoll)]
    r, e = ("mem", R, 4, 0), ("mem", E, 4, 0)
    for n in (name, "EL_stopAsync", "EL_stop"):
        fn = entry(m, n)
        fl, c, ex = explore(ctx, fn, erroff, cells={R: (4, r), E: (4, e)})
        for kind, inst, st in ex:
            if kind == "throw":
                bad(ctx, fn, fl, st, inst, "stopping throws")
                continue
            at = [x for x in st.auto.atomics if x[1] == W]
            cl = list(st.auto.closes)
            for x in at:
                if x[0] not in ("xchg",) or not same(fl, st, x[2], r):
                    bad(ctx, fn, fl, st, inst, "the write end is not taken by exchanging it for the mark of a closed one")
                k = fl.known(st, ("icmp", "eq", x[3], r))
                n1 = sum(same(fl, st, x[3], y) for y in cl)
                cl = [y for y in cl if not same(fl, st, x[3], y)] if k != 1 else cl
                if k is None:
                    bad(ctx, fn, fl, st, inst, "the write end is closed without looking whether it was closed before")
                elif k == 0 and n1 != 1:
                    bad(ctx, fn, fl, st, inst, "the write end is %s" % ("not closed" if n1 == 0 else "closed twice"))
                elif k == 1 and n == "EL_stopAsync" and n1:
                    bad(ctx, fn, fl, st, inst, "the read end is closed by stopping")
            if not at:
                bad(ctx, fn, fl, st, inst, "the write end is not closed")
            if n == name:
                for what, f in (("read", r), ("epoll", e)):
                    k = sum(same(fl, st, f, y) for y in cl)
                    if k != 1:
                        bad(ctx, fn, fl, st, inst, "the %s descriptor is %s" % (what, "not closed" if k == 0 else "closed twice"))
                if len(cl) > 2:
                    bad(ctx, fn, fl, st, inst, "a descriptor is closed which the event loop does not own")
            elif cl:
                bad(ctx, fn, fl, st, inst, "another descriptor than the write end is closed by stopping")
            ctx.count("descriptors followed", 3)


def loop_keeps(ctx, m, L, erroff):
    """nothing else closes a descriptor or puts another one in the place of one the loop owns"""
    slots = [addr(A0, o) for o in (L.read, L.write, L.epoll)]
    for n in ("EL_run", "EL_insertDisabled", "EL_modify", "EL_disable", "EL_insert", "EL_insertOrModify",
              "EL_insertDisabledOrDisable", "EL_remove", "EL_spin", "EL_yield"):
        fn = entry(m, n)

        class K:
            def event(self, fl, st, kind, inst, info):
                if kind == "call" and info[0] == "close":
                    bad(ctx, fn, fl, st, inst, "a descriptor is closed by an operation which is not to close any")
                elif kind in ("store", "atomic") and info[0] in slots and inst.op != "load":
                    if kind == "store" or inst.op in ("cmpxchg", "xchg", "rmw", "atomicrmw", "store"):
                        bad(ctx, fn, fl, st, inst, "a descriptor the event loop owns is forgotten")

            def havoc(self, fl, st, inst, name, args):
                return True

            def exit(self, fl, st, kind, inst):
                pass
        c = K()
        c.find = {}
        Flow(fn, c, init=namedtuple("Nil", "z")(0))
        ctx.count("functions explored path by path")


# ---- C13 -------------------------------------------------------------------

H = "the_null_handler"


def is_or(fl, st, e, a, k):
    """e is a | k (a may be None)"""
    if a is None:
        return fl.known(st, e) == k
    if e in (("or", 32, a, k), ("or", 32, k, a)):
        return True
    for v in [0, 0xffffffff] + [1 << n for n in range(32)]:
        s = st.copy()
        s.facts = dict(s.facts)
        s.facts[a] = ("eq", v)
        x = fl.known(s, e)
        if x is None or x & 0xffffffff != v | k:
            return False
    return True


def fits(fl, st, E, call, want):
    """the recorded call is the one expected"""
    op, events, handler = want
    x = call.args
    if call.name != "epoll_ctl" or not same(fl, st, x[0], E) or x[1] != op or not same(fl, st, x[2], A1):
        return "another system call is made than the operation stands for"
    if op == DEL:
        return None
    if not isinstance(x[3], tuple) or x[3][0] != "ev":
        return "no events are given"
    _, ev, h = x[3]
    if not is_or(fl, st, ev, events, ONESHOT):
        return "other events are registered than those given, once"
    if handler is None:
        if h == 0 or not (isinstance(h, tuple) and h[0] == "global"):
            return "a disabled descriptor does not get the handler which does nothing"
    elif not same(fl, st, h, handler):
        return "another handler is registered than the one given"
    return None


def outcomes(ctx, m, name, erroff, E, spec, exc="EpollCtl"):
    """spec: list of (calls, result); calls: ((want, "ok" | "fail" | set of errors), ...), result: value, None (nothing) or "throw" """
    fn = entry(m, name)
    fl, c, ex = explore(ctx, fn, erroff)
    met = set()
    for kind, inst, st in ex:
        calls = st.auto.calls
        ctx.count("outcomes of system calls", len(calls))
        if not calls:
            bad(ctx, fn, fl, st, inst, "no system call is made")
            continue
        shape = []
        for x in calls:
            o = outcome(fl, st, x)
            es = errnos(fl, st, x.err) if o == "fail" else set()
            shape.append((x, o, es))
        if kind == "throw":
            surfaced(ctx, c, fl, st, inst, calls[-1], exc)
        why = "the operation ends in a way it should not"
        for n, (cs, res) in enumerate(spec):
            if len(cs) != len(shape) or (kind == "throw") != (res == "throw"):
                continue
            for (want, o), (x, got, es) in zip(cs, shape):
                w = want(fl, st, x) if callable(want) else fits(fl, st, E, x, want)
                if w:
                    why = w
                    break
                if got is None:
                    why = "the operation goes on without knowing whether a system call failed"
                    break
                if o == "ok" and got != "ok" or o != "ok" and got != "fail":
                    why = "a failed system call is taken for a successful one, or the other way round"
                    break
                if isinstance(o, frozenset) and es != o:
                    why = "an error is taken for a result (%s)" % sorted(es)[:4]
                    break
                if o == "fail" and any(es & s for s in [y[-1][1] for y, r in spec if r != "throw" and len(y) == len(cs)
                                                      and isinstance(y[-1][1], frozenset)]):
                    why = "an error which is a result is thrown"
                    break
            else:
                if res is None or res == "throw":
                    met.add(n)
                    why = None
                    break
                v = fl.val(st, inst["ops"][0])
                k = fl.known(st, v)
                if callable(res):
                    if res(fl, st, v):
                        met.add(n)
                        why = None
                        break
                    why = "another result is returned"
                elif k is not None and k & 1 == res:
                    met.add(n)
                    why = None
                    break
                else:
                    why = "the result does not tell what happened"
        if why:
            bad(ctx, fn, fl, st, inst, why)
    if not ctx.violations and len(met) != len(spec):
        bad(ctx, fn, fl, ex[0][2], ex[0][1], "an outcome of the operation is missing")
    return fl


def ctl(ctx, m, L, erroff):
    E = ("mem", addr(A0, L.epoll), 4, 0)
    X, N = frozenset([EEXIST]), frozenset([ENOENT])

    def plain(w):
        return [(((w, "ok"),), None), (((w, "fail"),), "throw")]

    def ins_(w, X):
        return [(((w, "ok"),), 1), (((w, X),), 0), (((w, "fail"),), "throw")]

    def insmod(ev, h):
        a, b = (ADD, ev, h), (MOD, ev, h)
        return [(((a, "ok"),), 1), (((a, X), (b, "ok")), 0), (((a, "fail"),), "throw"), (((a, X), (b, "fail")), "throw")]
    for n, spec in (
            ("insertDisabled", plain((ADD, None, None))), ("disable", plain((MOD, None, None))),
            ("modify", plain((MOD, A2, A3))), ("insert", ins_((ADD, A2, A3), X)),
            ("insertOrModify", insmod(A2, A3)), ("insertDisabledOrDisable", insmod(None, None)),
            ("remove", ins_((DEL, None, None), N))):
        outcomes(ctx, m, "EL_" + n, erroff, E, spec)


def flags(ctx, m, erroff):
    for n, get, put in (("P_addFd", 1, 2), ("P_addFl", 3, 4)):
        def g(fl, st, x, get=get):
            ok = x.name.startswith("fcntl") and x.args[0] == A0 and x.args[1] == get
            return None if ok else "the flags of the descriptor are not read"

        def s(fl, st, x, put=put):
            if not (x.name.startswith("fcntl") and x.args[0] == A0 and x.args[1] == put):
                return "the flags of the descriptor are not set"
            r = st.auto.calls[0].ret
            if x.args[2] not in (("or", 32, r, A1), ("or", 32, A1, r)):
                return "the flags are not those the descriptor had, and the ones given"
            return None
        outcomes(ctx, m, n, erroff, None, [(((g, "ok"), (s, "ok")), None), (((g, "ok"), (s, "fail")), "throw"), (((g, "fail"),), "throw")],
                 exc="Exception")
        fn = entry(m, n)
        fl, c, ex = explore(ctx, fn, erroff)
        for kind, inst, st in ex:
            if kind == "throw" and not any(("VpGet" if len(st.auto.calls) == 1 else "VpSet") in t for t, e in st.auto.thrown[-1:]):
                bad(ctx, fn, fl, st, inst, "another exception is thrown than the one which tells what failed")

    def call(fl, st, x):
        return None if x.args == (A0, A1) else "the system call does not get the arguments given"
    outcomes(ctx, m, "P_loop", erroff, None, [(((call, "ok"),), lambda fl, st, v: v == st.auto.calls[-1].ret), (((call, "fail"),), "throw")],
             exc="VpGet")
    # ErrnoException(e).errorNumber() is e, also of a copy
    for n in ("EX_ctor", "EX_copy"):
        fn = entry(m, n)
        fl, c, ex = explore(ctx, fn, erroff)
        for kind, inst, st in ex:
            e = A1 if n == "EX_ctor" else ("mem", addr(A1, erroff), 4, 0)
            v = fl.load(st, addr(A0, erroff), 4)
            if kind != "ret" or not same(fl, st, v, e):
                bad(ctx, fn, fl, st, inst, "the exception does not carry the error number given")
            ctx.count("outcomes of system calls")


def construction(ctx, m, L, erroff):
    fn = entry(m, "EL_ctor")
    fl, c, ex = explore(ctx, fn, erroff, solo=A0)
    exc = {"epoll_create1": "EpollCreate", "pipe2": "PipeCreate", "epoll_ctl": "EpollCtl"}
    for kind, inst, st in ex:
        cs = st.auto.calls
        for x in cs[:-1]:
            if outcome(fl, st, x) != "ok":
                bad(ctx, fn, fl, st, inst, "a system call fails unnoticed")
        if kind == "throw":
            surfaced(ctx, c, fl, st, inst, cs[-1], exc.get(cs[-1].name, "?"), cs[-1].name != "epoll_create1")
            continue
        if outcome(fl, st, cs[-1]) != "ok":
            bad(ctx, fn, fl, st, inst, "a system call fails unnoticed")
        for x in cs:
            if x.name == "pipe2" and (not isinstance(x.args[1], int) or x.args[1] & 0o4000 == 0):
                bad(ctx, fn, fl, st, inst, "the pipe which wakes the loop blocks")
        ct = [x for x in cs if x.name == "epoll_ctl"]
        e = fl.load(st, addr(A0, L.epoll), 4)
        r = fl.load(st, addr(A0, L.read), 4)
        if len(ct) != 1 or ct[0].args[1] != ADD or not same(fl, st, ct[0].args[0], e) or not same(fl, st, ct[0].args[2], r):
            bad(ctx, fn, fl, st, inst, "the pipe which stops the loop is not watched")
            continue
        _, ev, h = ct[0].args[3]
        if fl.known(st, h) != 0:
            bad(ctx, fn, fl, st, inst, "the pipe which stops the loop is not marked by a missing handler")
        if not isinstance(ev, int) or not ev & 1 or ev & (ONESHOT | 1 << 31):
            bad(ctx, fn, fl, st, inst, "the pipe which stops the loop is not watched for input for good")
        ctx.count("outcomes of system calls", len(cs))


R = namedtuple("R", "passed calls closes thrown okres atomics again n cnt sig incs locked seen")
V = namedtuple("V", "wait errs complete sig pipe perr")     # what became of the last epoll_wait()
FATAL = 0x2000 | 0x10 | 8
HUP = 0x10
ESZ = 12


class Run(Inductive, Sys):
    def __init__(self, ctx, fn, erroff, L, slot):
        Inductive.__init__(self)
        Sys.__init__(self, ctx, fn, erroff)
        self.L, self.slot = L, slot
        self.E = ("mem", addr(A0, L.epoll), 4, 0)
        self.rd = ("mem", addr(A0, L.read), 4, 0)
        self.A = None
        self.found = []

    def reset(self):
        self.exits, self.found = [], []

    def small(self, a):
        return a[0] != "ret"        # results of system calls may be negative

    def bad(self, fl, st, inst, what):
        self.found.append((what, st.copy(), inst))

    # the number of events reported
    def num(self, st):
        return None if st.auto.n is None else ("cast", "zext", (32, 64), st.auto.n)

    def base(self, fl, st):
        if st.auto.n is None or not st.auto.calls or outcome(fl, st, st.auto.calls[0]) != "ok":
            return ()
        r = st.auto.n
        return (("ule", ("cast", "zext", (32, 64), r), 128), ("eq", ("cast", "sext", (32, 64), r), ("cast", "zext", (32, 64), r)))

    def at(self, st, d=0):
        return ("gep", self.A, d, ((st.auto.cnt, ESZ),))

    def params(self, fl, st):
        return []

    def ghosts(self, fl, st):
        return {"cnt": st.auto.cnt} if st.auto.n is not None else {}

    def set_ghosts(self, fl, st, g):
        if "cnt" in g:
            st.auto = st.auto._replace(cnt=g["cnt"])

    def templates(self, fl, st, dst, atoms, params):
        if st.auto.n is None:
            return
        g = ("hdr", dst, "cnt")
        n = self.num(st)
        yield ("ule", g, n)
        yield ("eq", g, n)
        if st.auto.sig is not None:
            yield ("uge", g, 1)
        for p in fl.fn.blocks[dst].phis:
            x = ("phi", p.id)
            t = p.get("ty")
            if t == "ptr":
                for d in (0, -ESZ, ESZ):
                    yield ("eq", x, ("gep", self.A, d, ((g, ESZ),)))
            elif t in ("i64", "i32"):
                if t == "i32":
                    x = ("cast", "zext", (32, 64), x)
                for d in (0, -1, 1):
                    yield ("eq", x, ("add", 64, g, d) if d else g)

    def header(self, fl, st, src, dst):
        a = st.auto
        inside = {i.id for b in fl.loop[dst] for i in fl.fn.blocks[b].insts}
        if a.calls and a.calls[0].id in inside:
            # the next wait gets the same name: remember what became of this one
            v = self.judge(fl, st)
            st.auto = st.auto._replace(seen=v, calls=(), n=None, cnt=None, sig=None)
        elif len(a.calls) > 1 and isinstance(a.calls[1], Call) and a.calls[1].id in inside:
            st.auto = a._replace(calls=a.calls[:1] + (self.pipe_state(fl, st),))
        elif a.n is not None and outcome(fl, st, a.calls[0]) != "ok":
            st.auto = a._replace(n=None)
        self.skip(fl, st)
        Inductive.header(self, fl, st, src, dst)

    def pipe_state(self, fl, st):
        p = self.pipe(st)
        if not isinstance(p, Call):
            return p
        if outcome(fl, st, p) == "fail":
            return ("failed", frozenset(errnos(fl, st, p.err)) if errnos(fl, st, p.err) <= TRANSIENT
                    else "error" if not errnos(fl, st, p.err) & TRANSIENT else "?")
        if self.positive(fl, st, p):
            return ("more", None)
        if fl.known(st, p.ret) == 0 or fl.known(st, ("icmp", "eq", p.ret, 0)) == 1:
            return ("end", None)
        return ("?", None)

    def judge(self, fl, st):
        if st.auto.seen is not None:
            return st.auto.seen
        w = st.auto.calls[0]
        o = outcome(fl, st, w)
        if o != "ok":
            e = errnos(fl, st, w.err) if o else set()
            return V(o, "transient" if e <= TRANSIENT else "error" if not e & TRANSIENT else "?", True, None, None, None)
        self.skip(fl, st)
        a = st.auto
        done = self.implied(fl, st, "eq", a.cnt, self.num(st))
        sig = None
        if a.sig is not None:
            sig = "stop" if any(k & ~FATAL == 0 for k in self.evmask(fl, st, False)) else \
                "go" if any(k & HUP for k in self.evmask(fl, st, True)) else "?"
        p = self.pipe_state(fl, st) or (None, None)
        return V(o, None, done, sig, *p)

    def skip(self, fl, st):
        """the next event is the one of the pipe: it is put off"""
        a = st.auto
        if a.n is None or a.sig is not None or a.cnt is None:
            return
        for k, f in st.facts.items():
            e = k
            if k[0] == "mem" and k[2] == 8 and f == ("eq", 0):
                pass
            elif k[0] == "icmp" and k[1] == "eq" and k[3] == 0 and f == ("eq", 1):
                e = k[2]
            else:
                continue
            if e[0] == "mem" and e[2] == 8 and mentions_(e[1], self.A) or e[0] == "mem" and e[2] == 8 and e[1][0] != "errno":
                if e[1] == addr(self.at(st), 4) or self.implied(fl, st, "eq", e[1], self.at(st, 4)):
                    st.auto = a._replace(sig=addr(e[1], -4), cnt=self.plus(a.cnt))
                    return

    @staticmethod
    def plus(c):
        if isinstance(c, int):
            return c + 1
        if c[0] == "add" and isinstance(c[3], int):
            return ("add", 64, c[2], c[3] + 1)
        return ("add", 64, c, 1)

    def complete(self, fl, st, inst, what):
        if not self.judge(fl, st).complete:
            self.bad(fl, st, inst, "not every event reported is handled before " + what)

    def evmask(self, fl, st, zero):
        """masks which the events of the pipe are known to have no bit in common with (zero), or some"""
        out = []
        for k, f in st.facts.items():
            if k[0] == "icmp" and k[1] == "eq" and k[3] == 0 and isinstance(k[2], tuple) and k[2][0] == "and":
                e, z = k[2], f == ("eq", 1)
            elif k[0] == "and" and f[0] in ("eq", "ne") and (f[0] == "eq" and f[1] == 0 or f[0] == "ne" and 0 in f[1]):
                e, z = k, f[0] == "eq"
            else:
                continue
            if z != zero or e[1] != 32 or not isinstance(e[3], int):
                continue
            x = e[2]
            if x[0] == "mem" and (x[1] == st.auto.sig or self.implied(fl, st, "eq", x[1], st.auto.sig)):
                out.append(e[3])
        return out

    def pipe(self, st):
        return st.auto.calls[1] if len(st.auto.calls) > 1 else None

    def event(self, fl, st, kind, inst, info):
        a = st.auto
        self.kind = kind
        if kind == "atomic":
            if info[0] == addr(A0, self.L.counter):
                self.count(fl, st, inst, inst.get("ord"))
            return
        if kind == "store" and info[0] == addr(A0, self.L.counter):
            self.bad(fl, st, inst, "the number of iterations is not counted by an atomic operation")
        if kind not in ("call", "throw"):
            return
        name, args = info
        if name == "__errno_location":
            st.vals[inst.id] = ERRNO
            return
        if name == "vp_x_lock":
            self.L.lock = args[0]
            st.auto = a._replace(locked=True)
            return
        if name == "vp_x_unlock":
            if not a.locked:
                self.bad(fl, st, inst, "the lock which stop() waits for is released twice")
            st.auto = a._replace(locked=False)
            return
        if name in ("epoll_wait", "read", "write", "close", "") or name in NAMES:
            if not a.locked:
                self.bad(fl, st, inst, "the event loop runs without the lock which stop() waits for")
        if name == "" and inst.get("fnptr") is not None:
            t = fl.val(st, inst["fnptr"])
            if isinstance(t, tuple) and t[0] == "global":
                if kind == "throw":
                    return []
                for op, where, order in self.effects(t[1]):
                    w = where
                    if mentions_(where, ("mem", A0, 8, 0)):
                        w = replace(where, ("mem", A0, 8, 0), fl.load(st, args[0], 8))
                    if w == addr(A0, self.L.counter):
                        self.count(fl, st, inst, order)
                return
            if kind == "throw":
                return []       # handlers throw nothing
            self.dispatch(fl, st, inst, t, args)
            return
        if name in NAMES:
            if kind == "throw":
                return []
            if name == "epoll_wait":
                if a.calls or a.seen is not None:
                    self.again(fl, st, inst)
                if not same(fl, st, args[0], self.E):
                    self.bad(fl, st, inst, "another descriptor is waited for")
                b, o = split(args[1])
                if b[0] != "alloca" or o != 0:
                    raise AnalysisError("events are not received in a local array")
                self.A = b
                i = fl.fn.insts[b[1]]
                if not isinstance(args[2], int) or not 0 < args[2] <= 128 or args[2] * ESZ > (i.get("size") or 0):
                    self.bad(fl, st, inst, "more events may be reported than there is room for")
                if not isinstance(args[3], int):
                    raise AnalysisError("timeout of epoll_wait")
                self.maxevents = args[2]
            elif name == "read":
                v = self.judge(fl, st) if st.auto.calls else None
                if v is None or v.wait != "ok" or v.sig is None or not same(fl, st, args[0], self.rd):
                    self.bad(fl, st, inst, "the pipe is read although it was not reported")
                elif not v.complete:
                    self.bad(fl, st, inst, "not every event reported is handled before the pipe is read")
                elif v.sig == "stop":
                    self.bad(fl, st, inst, "the loop goes on although it was told to stop")
                elif v.pipe not in (None, "more") and not (v.pipe == "failed" and isinstance(v.perr, frozenset)):
                    self.bad(fl, st, inst, "the pipe is read again after its end or an error")
                b, o = split(args[1])
                sz = fl.fn.insts[b[1]].get("size") if b[0] == "alloca" and b[1] in fl.fn.insts else None
                if o is None or sz is None or not isinstance(args[2], int) or o + args[2] > sz:
                    self.bad(fl, st, inst, "more is read than there is room for")
            elif name not in ("epoll_wait", "read"):
                self.bad(fl, st, inst, "the event loop makes the system call " + name)
        elif name == "close":
            self.bad(fl, st, inst, "the event loop closes a descriptor while it runs")
        elif name == "__cxa_throw":
            Sys.event(self, fl, st, kind, inst, info)

    def positive(self, fl, st, p):
        return fl.known(st, ("icmp", "sgt", p.ret, 0)) == 1 or fl.known(st, ("icmp", "slt", p.ret, 1)) == 0 \
            or self.implied(fl, st, "uge", p.ret, 1) and outcome(fl, st, p) == "ok"

    def again(self, fl, st, inst):
        """epoll_wait() is about to be called once more"""
        v = self.judge(fl, st)
        if v.wait is None:
            self.bad(fl, st, inst, "the loop goes on without knowing whether waiting failed")
        elif v.wait == "fail":
            if v.errs != "transient":
                self.bad(fl, st, inst, "the loop goes on although waiting failed")
            return
        if not v.complete:
            self.bad(fl, st, inst, "not every event reported is handled before waiting for the next ones")
        n = st.auto.incs
        if n != 1:
            self.bad(fl, st, inst, "an iteration of the loop is counted %s" % ("not at all" if n == 0 else "twice"))
        if v.sig is not None:
            if v.sig != "go":
                self.bad(fl, st, inst, "the loop goes on although it was told to stop")
            elif v.pipe is None:
                self.bad(fl, st, inst, "the loop goes on without emptying the pipe")
            elif v.pipe == "failed" and isinstance(v.perr, frozenset):
                if EINTR in v.perr:
                    self.bad(fl, st, inst, "reading the pipe is not repeated when interrupted")
            elif v.pipe != "more":
                self.bad(fl, st, inst, "the loop goes on although the pipe was closed or failed")

    def count(self, fl, st, inst, order):
        if order not in ("release", "acq_rel", "seq_cst"):
            self.bad(fl, st, inst, "the end of an iteration is not published with release")
        if not st.auto.locked:
            self.bad(fl, st, inst, "the event loop runs without the lock which stop() waits for")
        if st.auto.calls or st.auto.seen is not None:
            self.complete(fl, st, inst, "the iteration is counted")
        st.auto = st.auto._replace(incs=min(2, st.auto.incs + 1))

    def effects(self, name):
        fn = self.ctx_module.fns.get(name)
        if fn is None:
            return []
        out = []

        class C:
            def event(self, fl, st, kind, inst, info):
                if kind == "atomic":
                    out.append((inst.get("rmw"), info[0], inst.get("ord")))
        Flow(fn, C())
        return sorted(set(out), key=repr)

    def dispatch(self, fl, st, inst, t, args):
        self.skip(fl, st)
        a = st.auto
        if a.n is None or a.cnt is None or outcome(fl, st, a.calls[0]) != "ok":
            self.bad(fl, st, inst, "a handler is called before any event is reported")
            return
        if self.pipe(st) is not None:
            self.bad(fl, st, inst, "a handler is called after the pipe was read over the events")
        h, ev = args[0], args[1] if len(args) > 1 else None
        want = self.at(st)
        if not (isinstance(h, tuple) and h[0] == "mem" and h[2] == 8 and self.implied(fl, st, "eq", h[1], addr_(want, 4))):
            self.bad(fl, st, inst, "another handler is called than the one of the next event")
        if not (isinstance(ev, tuple) and ev[0] == "mem" and ev[2] == 4 and self.implied(fl, st, "eq", ev[1], want)):
            self.bad(fl, st, inst, "the handler is not told the events reported for it")
        if not (isinstance(t, tuple) and t[0] == "mem" and same(fl, st, t[1], addr(("mem", h, 8, t[1][3] if len(t[1]) > 3 else None), 0))
                or self.slotok(t, h)):
            self.bad(fl, st, inst, "another function of the handler is called than handleEvents()")
        if not self.implied(fl, st, "ult", a.cnt, self.num(st)):
            self.bad(fl, st, inst, "a handler is called for an event which was not reported")
        if a.sig is None and fl.known(st, h) == 0:
            self.bad(fl, st, inst, "the mark of the pipe is called as a handler")
        self.ctx.count("calls of handlers")
        st.auto = a._replace(cnt=self.plus(a.cnt))

    def slotok(self, t, h):
        if not (isinstance(t, tuple) and t[0] == "mem" and t[2] == 8):
            return False
        b, o = split(t[1])
        return o == self.slot and b[0] == "mem" and b[1] == h and b[2] == 8

    def havoc(self, fl, st, inst, name, args):
        if name == "" and inst.get("fnptr") is not None:
            return True
        if name == "epoll_wait" and self.kind == "call":
            c = self.call(fl, st, inst, name, args)
            st.auto = st.auto._replace(calls=(c,), n=c.ret, cnt=0, sig=None, incs=0, seen=None)
            st.epochs[ERRNO] = inst.id
            self.forget(st, ERRNO)
            self.forget(st, self.A)
            st.epochs[self.A] = inst.id
            st.facts[("icmp", "slt", c.ret, self.maxevents + 1)] = ("eq", 1)
            return True
        if name == "read" and self.kind == "call":
            c = self.call(fl, st, inst, name, args)
            st.auto = st.auto._replace(calls=st.auto.calls[:1] + (c,))
            st.epochs[ERRNO] = inst.id
            self.forget(st, ERRNO)
            b = split(args[1])[0]
            self.forget(st, b)
            st.epochs[b] = inst.id
            return True
        return Sys.havoc(self, fl, st, inst, name, args)

    def forget(self, st, b):
        for k in [k for k in st.cells if (k[1] if k[0] == "range" else split(k)[0]) == b]:
            del st.cells[k]

    def exit(self, fl, st, kind, inst):
        self.exits.append((kind, inst, st))
        a = st.auto
        if kind not in ("ret", "throw"):
            return
        if a.locked:
            self.bad(fl, st, inst, "the lock which stop() waits for is never released")
        if not a.calls and a.seen is None:
            self.bad(fl, st, inst, "the loop ends without waiting for events")
            return
        v = self.judge(fl, st)
        if kind == "throw":
            if len(a.calls) != 1:
                self.bad(fl, st, inst, "the loop throws for another reason than waiting having failed")
            else:
                surfaced(self, self, fl, st, inst, a.calls[0], "EpollWait")
            return
        if v.wait != "ok":
            self.bad(fl, st, inst, "the loop ends without being told to")
            return
        if not v.complete:
            self.bad(fl, st, inst, "not every event reported is handled before the loop ends")
        if v.sig is None or v.pipe is None and v.sig != "stop":
            self.bad(fl, st, inst, "the loop ends without being told to")
        elif v.pipe == "failed" and v.perr != "error":
            self.bad(fl, st, inst, "the loop ends because reading the pipe was interrupted or found nothing")
        elif v.pipe not in (None, "failed", "end"):
            self.bad(fl, st, inst, "the loop ends without being told to")


def addr_(e, d):
    return ("gep", e[1], e[2] + d, e[3])


def replace(e, a, b):
    if e == a:
        return b
    if isinstance(e, tuple):
        r = tuple(replace(x, a, b) for x in e)
        return addr(r[1], r[2]) if r and r[0] == "addr" else r
    return e


T = namedtuple("T", "last first calls closes thrown okres atomics again")


class Spin(Sys):
    """waiting for the end of an iteration"""

    def __init__(self, ctx, fn, L, off):
        Sys.__init__(self, ctx, fn, 0)
        self.L, self.off = L, off

    def event(self, fl, st, kind, inst, info):
        a = st.auto
        self.kind = kind
        if kind == "load" and inst.get("ord") and info[0] != addr(A0, self.L.write):
            self.off.add(info[0])
            if inst.get("ord") not in ("acquire", "seq_cst"):
                self.bad(fl, st, inst, "the end of an iteration is not read with acquire")
            e = ("val", inst.id)
            for k in [k for k in st.facts if mentions_(k, e)]:
                del st.facts[k]
            st.vals[inst.id] = e
            st.auto = a._replace(last=("load", e), first=a.first or e)
            return
        if kind not in ("call", "throw"):
            return
        name, args = info
        if name == "__errno_location":
            st.vals[inst.id] = ERRNO
        elif name in NAMES and kind == "throw":
            return []
        elif name == "vp_x_unlock":
            if a.last is None or a.last[0] != "try" or fl.known(st, a.last[1]) != 0:
                self.bad(fl, st, inst, "the lock of the running loop is released by somebody else")
            else:
                st.auto = a._replace(last=("free",))
        elif name == "vp_x_trylock":
            if a.first is None:
                self.bad(fl, st, inst, "the lock is tried before the iterations are looked at")

    def havoc(self, fl, st, inst, name, args):
        if name == "vp_x_trylock" and self.kind == "call":
            st.auto = st.auto._replace(last=("try", ("ret", inst.id)))
        if name in NAMES:
            st.epochs[ERRNO] = inst.id
            for k in [k for k in st.cells if k == ERRNO]:
                del st.cells[k]
        return True

    def exit(self, fl, st, kind, inst):
        self.exits.append((kind, inst, st))
        if kind != "ret":
            if kind == "throw":
                self.bad(fl, st, inst, "waiting for the end of an iteration throws")
            return
        a = st.auto
        if a.last is None:
            self.bad(fl, st, inst, "waiting ends without looking at the loop")
        elif a.last[0] == "free":
            pass
        elif a.last[0] == "try":
            self.bad(fl, st, inst, "the lock which stop() waits for is kept" if fl.known(st, a.last[1]) == 0
                     else "waiting ends although the loop runs")
        elif fl.known(st, ("icmp", "eq", a.last[1], a.first)) != 0 and fl.known(st, ("icmp", "eq", a.first, a.last[1])) != 0:
            self.bad(fl, st, inst, "waiting ends although no iteration did")


def spinning(ctx, m, L):
    off = set()
    for n in ("EL_spin", "EL_yield"):
        fn = entry(m, n)
        c = Spin(ctx, fn, L, off)
        fl = Flow(fn, c, init=T(None, None, (), (), (), None, (), False))
        ctx.count("functions explored path by path")
        ctx.count("abstract states", fl.nodes)
    if len(off) != 1 or split(list(off)[0])[0] != A0:
        raise AnalysisError("where the iterations are counted is not known")
    L.counter = split(off.pop())[1]


def stopping(ctx, m, L):
    """stop() returns when run() has ended"""
    fn = entry(m, "EL_stop")
    Q = namedtuple("Q", "ev")

    class C:
        def event(self, fl, st, kind, inst, info):
            if kind == "atomic" and info[0] == addr(A0, L.write):
                st.auto = Q(st.auto.ev + ("told",))
            elif kind == "call" and info[0] in ("vp_x_lock", "vp_x_unlock"):
                st.auto = Q(st.auto.ev + ((info[0][5:], info[1][0]),))

        def havoc(self, fl, st, inst, name, args):
            return True

        def exit(self, fl, st, kind, inst):
            ev = st.auto.ev
            if kind != "ret":
                return
            if ev[:1] != ("told",):
                bad(ctx, fn, fl, st, inst, "the loop is waited for without being told to stop")
            elif ev[1:] != (("lock", L.lock), ("unlock", L.lock)):
                bad(ctx, fn, fl, st, inst, "stopping does not wait for the running loop")
    Flow(fn, C(), init=Q(()))
    ctx.count("functions explored path by path")


def running(ctx, m, L, erroff):
    fn = entry(m, "EL_run")
    L.lock = None
    hfn = entry(m, "EL_handle")
    slot = []

    class V:
        def event(self, fl, st, kind, inst, info):
            if kind == "call" and info[0] == "" and inst.get("fnptr") is not None:
                t = fl.val(st, inst["fnptr"])
                if isinstance(t, tuple) and t[0] == "mem" and split(t[1])[0][0] == "mem" and split(t[1])[0][1] == A0:
                    slot.append(split(t[1])[1])
    Flow(hfn, V())
    if len(set(slot)) != 1:
        raise AnalysisError("the virtual function handleEvents() is not found")
    c = Run(ctx, fn, erroff, L, slot[0])
    c.ctx_module = m

    def make(c):
        return Flow(fn, c, init=R(frozenset(), (), (), (), None, (), False, None, None, None, 0, False, None))
    fl = c.solve(fn, make)
    ctx.count("functions explored path by path")
    ctx.count("abstract states", fl.nodes)
    ctx.count("loop invariants", sum(len(v) for v in c.inv.values()))
    ctx.count("relations decided", c.queries)
    for what, st, inst in c.found:
        if c.feasible(fl, st):
            bad(ctx, fn, fl, st, inst, what)
    kinds = [k for k, i, s in c.exits if c.feasible(fl, s)]
    if not ctx.violations and ("ret" not in kinds or "throw" not in kinds):
        raise AnalysisError("run() has no way to end")
    ctx.count("outcomes of system calls", len(kinds))


def c13(ctx):
    ctx.rule("along every path of every operation: which system calls are made, with which arguments, how often they are repeated, and what becomes of their results and errors")
    ctx.rule("run(): inductive invariants tie the position in the received events to the number of handlers called")
    ctx.rule("stop() and waiting for the end of an iteration: what was observed last before returning")
    ctx.assume("the kernel reports at most as many events as there is room for; at most one of them is for the pipe; handlers throw nothing and leave the loop's own array alone")
    mf = ctx.modules(["fd.cpp"])
    me = ctx.modules(["eventloop.cpp"])
    for m, e in zip(mf, me):
        off = errno_offset(ctx, m)
        flags(ctx, m, off)
        L = loop_ctor(ctx, e, off, report=False)
        construction(ctx, e, L, off)
        ctl(ctx, e, L, off)
        spinning(ctx, e, L)
        running(ctx, e, L, off)
        stopping(ctx, e, L)


def c12(ctx):
    ctx.rule("along every path, each descriptor a FileDescriptor owns or is given is afterwards held by exactly one object, closed exactly once, or returned")
    ctx.rule("every descriptor which is created is close-on-exec from the beginning")
    ctx.rule("a failing constructor of the event loop closes exactly what was opened; its destructor and stop() close every descriptor once")
    ctx.assume("descriptors held by different objects differ; close() releases the descriptor whatever it returns")
    mf = ctx.modules(["fd.cpp"])
    me = ctx.modules(["eventloop.cpp"])
    for m, e in zip(mf, me):
        off = errno_offset(ctx, m)
        fd_ops(ctx, m, off)
        L = loop_ctor(ctx, e, off)
        if L is not None:
            loop_end(ctx, e, L, off)
            loop_keeps(ctx, e, L, off)


CHECKS = {"C12": c12, "C13": c13}
