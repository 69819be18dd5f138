"""C10 tasks are handed over exactly once and in order."""
import re
from collections import namedtuple

from ..flow import TooMany, Flow, addr, place, split, unwas
from ..ir import AnalysisError
from .future import cell, explore, mems, same
from .lockfree import bad, entry
from .monitor import fname

A0, A1 = ("arg", 0), ("arg", 1)


def icalls(st):
    return [e for e in st.auto if e[0] == "icall"]


class PoolLayout:
    pass


def link_shape(ctx, fn, fl, st, inst, own, K, lay=None):
    """checks that a path appended the wrapper K behind the tail kept in the
    object `own`; returns the layout (tail, value, next)"""
    tails = [e for e in st.auto if e[0] == "st" and split(e[1])[0] == own and same(fl, st, e[2], K)]
    if len(tails) != 1:
        bad(ctx, fn, fl, st, inst, "a submitted task does not become the last one of the queue")
        return None
    ta = tails[0][1]
    olds = {split(e[1])[0] for e in st.auto if e[0] == "st" and same(fl, st, e[2], K)
            and split(e[1])[0] != own}
    olds = {o for o in olds if isinstance(o, tuple) and o[0] == "mem" and o[1] == ta}
    if len(olds) != 1:
        bad(ctx, fn, fl, st, inst, "a submitted task is not linked behind the previous last one")
        return None
    old = olds.pop()
    nx = [e for e in st.auto if e[0] == "st" and split(e[1])[0] == old and same(fl, st, e[2], K)]
    noff = split(nx[-1][1])[1]
    vals = [e for e in st.auto if e[0] == "st" and split(e[1])[0] == old and e not in nx and e[2] != 0]
    vals = [e for e in vals if isinstance(e[2], tuple) and e[2][0] == "mem" and split(e[2][1])[0] == K]
    if len(vals) != 1:
        bad(ctx, fn, fl, st, inst, "the function of a submitted task is not moved into the queue")
        return None
    voff = split(vals[0][1])[1]
    if vals[0][2][1] != addr(K, voff):
        bad(ctx, fn, fl, st, inst, "something else than the function of the task is moved into the queue")
        return None
    for off, v in ((noff, K), (voff, vals[0][2])):
        if not same(fl, st, cell(fl, st, addr(old, off)), v):
            bad(ctx, fn, fl, st, inst, "the previous last element of the queue is overwritten again")
    # (the last element is empty: checked for every element which becomes it)
    kv = cell(fl, st, addr(K, voff))
    if fl.known(st, kv) != 0 and not (isinstance(kv, tuple) and kv[0] == "mem" and kv[1] == addr(old, voff)):
        bad(ctx, fn, fl, st, inst, "the function of a submitted task is kept twice")
    nk = cell(fl, st, addr(K, noff))
    if fl.known(st, nk) != 0 and not (isinstance(nk, tuple) and nk[0] == "mem"
                                       and nk[1] in (addr(K, noff), addr(old, noff))):
        bad(ctx, fn, fl, st, inst, "the new last element of the queue has a successor")
    # one critical section
    ev = st.auto
    idx = [n for n, e in enumerate(ev) if e in tails or e in nx or e in vals]
    lk = [n for n, e in enumerate(ev) if e[0] == "vp_x_lock"]
    un = [n for n, e in enumerate(ev) if e[0] == "vp_x_unlock"]
    start = max([n for n in lk if n < min(idx)], default=None)
    if start is None or [n for n in un if start < n < max(idx) and ev[n][1] == ev[start][1]]:
        bad(ctx, fn, fl, st, inst, "a task is not appended in one critical section")
    L = PoolLayout()
    L.tail, L.next, L.value = split(ta)[1], noff, voff
    L.tailmutex = split(ev[start][1])[1] if start is not None else None
    if lay is not None and (lay.next, lay.value) != (L.next, L.value):
        bad(ctx, fn, fl, st, inst, "tasks are linked through different members")
    return L


class Quiet:
    """mixin: destructors of task objects do not change the queue"""

    def havoc(self, fl, st, inst, name, args):
        if name == "" and len(args) == 1:
            return True
        if "default_delete" in name or "unique_ptr" in name:
            for a in args:
                if isinstance(a, tuple) and split(a)[0][0] == "alloca":
                    fl.havoc_base(st, split(a)[0], inst.id)
            return True
        return None


class Rec2(Quiet):
    def __init__(self):
        from .future import Rec
        self.r = Rec()
        self.exits = self.r.exits

    def private(self, fl, st, base):
        return base[0] in ("arg", "alloca", "new")

    def event(self, fl, st, kind, inst, info):
        return self.r.event(fl, st, kind, inst, info)

    def exit(self, fl, st, kind, inst):
        self.r.exit(fl, st, kind, inst)


def run(ctx, fn, facts=None):
    c = Rec2()
    fl = Flow(fn, c, init=(), facts=facts)
    ctx.count("functions explored path by path")
    ctx.count("abstract states", fl.nodes)
    if not c.exits:
        raise AnalysisError("no exit of %s was reached" % fn.name)
    return fl, c


class Until(Quiet):
    """does a call return only when what it waited for holds? The automaton's
    state is whether it did when the lock was released last."""

    def __init__(self, off, size, zero):
        self.off, self.size, self.zero = off, size, zero
        self.exact, self.maxnodes = True, 5000
        self.exits = []

    def private(self, fl, st, base):
        return base[0] in ("arg", "alloca", "new")

    def event(self, fl, st, kind, inst, info):
        if kind in ("call", "throw") and info[1] and isinstance(info[1][0], tuple) and split(info[1][0])[0] == A0:
            name, args = info
            if name == "vp_x_unlock":
                v = cell(fl, st, addr(A0, self.off), self.size)
                k = fl.known(st, v)
                st.auto = k == 0 if self.zero else \
                    (k is not None and k != 0) or v in st.facts and nonzero(st.facts[v])
            elif name in ("vp_x_lock", "vp_x_cv_wait", "vp_x_cv_timedwait"):
                st.auto = False

    def havoc(self, fl, st, inst, name, args):
        if name in ("vp_x_unlock", "vp_x_cv_notify_one", "vp_x_cv_notify_all", "vp_x_user_call"):
            return True
        return Quiet.havoc(self, fl, st, inst, name, args)

    def exit(self, fl, st, kind, inst):
        self.exits.append((kind, inst, st))


def waits_end(ctx):
    """untimed waits return only with the predicate established"""
    def change(m, e, want):
        fl, r = run(ctx, entry(m, e))
        for kind, inst, st in r.exits:
            for x in st.auto:
                if x[0] == "st" and split(x[1])[0] == A0 and want(x[1], x[2]):
                    v = x[2]
                    c = st.cells.get(x[1])
                    return split(x[1])[1], (c[0] if c else v[1] if isinstance(v, tuple) and v[0] in ("add", "sub") else 8)
        raise AnalysisError("%s does not change what is waited for" % e)

    def less(a, v):
        return isinstance(v, tuple) and len(v) == 4 and v[0] in ("add", "sub") and \
            any(isinstance(x, tuple) and x[0] == "mem" and x[1] == a for x in v[2:])

    for driver, src, want, zero, es in (
            ("latch.cpp", "Latch_countDown", less, True, ("Latch_wait", "Latch_countDownAndWait")),
            ("simplewait.cpp", "SimpleWait_notifyReady", lambda a, v: isinstance(v, int) and v != 0, False,
             ("SimpleWait_wait", "SimpleWait_waitOrStop")),
            ("threadpool.cpp", "PTP_participateOnce", less, True, ("PTP_join", "PTP_stopAndJoin"))):
        for m in ctx.modules([driver], vtables=True):
            off, size = change(m, src, want)
            for e in es:
                fn = entry(m, e)
                c = Until(off, 1 if src == "SimpleWait_notifyReady" else size // 8 if size > 8 else size, zero)
                try:
                    fl = Flow(fn, c, init=False)
                except TooMany:     # the loop counts something
                    ctx.sample("%s: what holds at its return was not decided" % e)
                    continue
                n = 0
                for kind, inst, st in c.exits:
                    if kind != "ret":
                        continue
                    n += 1
                    if st.auto is not True:
                        bad(ctx, fn, fl, st, inst, "returns although what it waits for may not hold")
                if not n:
                    raise AnalysisError("%s has no exit" % e)
                ctx.count("ways of returning from an untimed wait", n)


W = namedtuple("W", "held popped ran timed")


class Worker(Quiet):
    """a thread taking tasks from the pool"""

    def __init__(self, ctx, fn, L):
        self.ctx, self.fn, self.L = ctx, fn, L
        self.exits = []
        self.pops = 0
        self.calls = 0

    def private(self, fl, st, base):
        return base[0] in ("alloca",)

    def bad(self, fl, st, inst, what):
        bad(self.ctx, self.fn, fl, st, inst, what)

    def havoc(self, fl, st, inst, name, args):
        L = self.L
        if name in ("vp_x_lock", "vp_x_cv_wait", "vp_x_cv_timedwait"):
            # what is guarded by a lock which is kept does not change
            b = split(args[0])[0]
            keep = None
            ha = addr(b, L.head)
            if L.headmutex is not None and addr(b, L.headmutex) in st.auto.held and \
                    args[-1] != addr(b, L.headmutex):
                keep = st.cells.get(ha) or (8, fl.load(st, ha, 8))
            facts = dict(st.facts)
            fl.havoc_base(st, b, inst.id)
            if keep is not None:
                st.cells[ha] = keep
                for k, v in facts.items():
                    if k == keep[1]:
                        st.facts[k] = v
            return True
        return Quiet.havoc(self, fl, st, inst, name, args)

    def event(self, fl, st, kind, inst, info):
        L = self.L
        a = st.auto
        if kind == "store":
            ad, size, v = info
            if ad == addr(A0, L.tail):
                self.bad(fl, st, inst, "a worker changes the end of the queue")
            elif ad == addr(A0, L.stop):
                self.bad(fl, st, inst, "a worker changes whether the pool is stopped")
            elif ad == addr(A0, L.head) and v != 0:
                if L.headmutex is not None and addr(A0, L.headmutex) not in a.held:
                    self.bad(fl, st, inst, "a task is taken without the lock of the queue's head")
                H = None
                if isinstance(v, tuple) and v[0] == "mem":
                    b, o = split(v[1])
                    if o == L.next and isinstance(b, tuple) and b[0] == "mem" and b[1] == ad:
                        H = b
                if H is None:
                    if isinstance(v, tuple) and v[0] == "mem" and v[1] == ad:
                        return      # put back unchanged
                    self.bad(fl, st, inst, "the queue's head is not replaced by its successor")
                    return
                if a.popped is not None:
                    self.bad(fl, st, inst, "a task is taken from the queue and dropped")
                T = [f for f, x in st.facts.items() if f[0] == "icmp" and f[1] in ("eq", "ne")
                     and H in f[2:] and (f[1] == "eq") != bool(x[1])
                     and any(isinstance(y, tuple) and y[0] == "mem" and y[1] == addr(A0, L.tail) for y in f[2:])]
                if not T:
                    self.bad(fl, st, inst, "a task is taken from a queue which was not seen to be non-empty")
                if fl.known(st, cell(fl, st, addr(A0, L.stop), 1)) != 0:
                    self.bad(fl, st, inst, "a task is taken although the pool may have been stopped")
                if H not in st.facts:       # it has just been dereferenced
                    st.facts[H] = ("ne", frozenset([0]))
                self.pops += 1
                st.auto = a._replace(popped=H)
        elif kind in ("call", "throw"):
            name, args = info
            if name == "vp_x_lock":
                st.auto = a._replace(held=a.held | {args[0]})
            elif name == "vp_x_unlock":
                if L.headmutex is not None and args[0] == addr(A0, L.headmutex) and \
                        fl.known(st, cell(fl, st, addr(A0, L.head))) == 0:
                    self.bad(fl, st, inst, "the queue is left without a head")
                st.auto = a._replace(held=a.held - {args[0]})
            elif name == "vp_x_cv_timedwait":
                st.auto = a._replace(timed=("ret", inst.id))
            elif name == "" and len(args) == 2:
                H = a.popped
                if H is None:
                    self.bad(fl, st, inst, "something is run which was not taken from the queue")
                    return
                if not same(fl, st, args[0], cell(fl, st, addr(H, L.value))):
                    self.bad(fl, st, inst, "another task is run than the one taken from the queue")
                if not same(fl, st, cell(fl, st, args[1]), H):
                    self.bad(fl, st, inst, "the task is not given itself when it is run")
                self.calls += 1
                st.auto = a._replace(popped=None, ran=True)

    def exit(self, fl, st, kind, inst):
        self.exits.append((kind, inst, st))


def nonzero(f):
    return f[0] == "eq" and f[1] != 0 or f[0] == "ne" and 0 in f[1]


def discover(ctx, m):
    fn = entry(m, "TP_submit")
    K = ("mem", A1, 8, 0)
    fl, r = run(ctx, fn)
    L = None
    for kind, inst, st in r.exits:
        if kind == "throw":
            bad(ctx, fn, fl, st, inst, "submit() throws")
        if kind != "ret":
            continue
        x = link_shape(ctx, fn, fl, st, inst, A0, K, L)
        L = L or x
        ctx.count("submissions")
    if L is None:
        return None
    fn = entry(m, "TP_notifyStop")
    fl, r = run(ctx, fn)
    L.stop = None
    idle = []
    for kind, inst, st in r.exits:
        if kind == "throw":
            bad(ctx, fn, fl, st, inst, "notifyStop() throws")
        if kind != "ret":
            continue
        s = [e for e in st.auto if e[0] == "st" and split(e[1])[0] == A0]
        if not s:
            idle.append((inst, st))
            continue
        if len(s) != 1 or not isinstance(s[0][2], int) or not s[0][2]:
            bad(ctx, fn, fl, st, inst, "notifyStop() does not set exactly one flag")
            return None
        if L.stop not in (None, split(s[0][1])[1]):
            bad(ctx, fn, fl, st, inst, "notifyStop() sets different flags")
            return None
        L.stop = split(s[0][1])[1]
    if L.stop is None:
        ctx.violate("pool-stop-flag", fname(fn), "notifyStop() does not set a flag")
        return None
    for inst, st in idle:
        # nothing to do when the flag was seen to be set already
        if not any(isinstance(k, tuple) and k[0] == "mem" and k[1] == addr(A0, L.stop) and k[2] == 1 and nonzero(f)
                   for k, f in st.facts.items()):
            bad(ctx, fn, fl, st, inst, "notifyStop() does not set the stop flag")
    fn = entry(m, "TP_stopNotified")
    fl, r = run(ctx, fn)
    for kind, inst, st in r.exits:
        if kind != "ret":
            continue
        rv = fl.val(st, inst["ops"][0])
        c = cell(fl, st, addr(A0, L.stop), 1)
        k = fl.known(st, c)
        ok = rv == ("icmp", "ne", c, 0) or c in mems(rv) and ("icmp", "eq", c, 0) != rv or \
            k is not None and fl.known(st, rv) is not None and bool(fl.known(st, rv) & 1) == bool(k)
        if not ok:
            bad(ctx, fn, fl, st, inst, "stopNotified() does not report the stop flag")
    # the head: the other pointer to the dummy element of a new pool
    fn = entry(m, "PTP_ctor")
    fl, r = run(ctx, fn)
    L.head = None
    for kind, inst, st in r.exits:
        if kind != "ret":
            continue
        t = cell(fl, st, addr(A0, L.tail))
        hs = [a for a, c in st.cells.items() if a[0] != "range" and split(a)[0] == A0
              and split(a)[1] != L.tail and c[1] == t]
        if not (isinstance(t, tuple) and t[0] == "new") or len(hs) != 1:
            bad(ctx, fn, fl, st, inst, "a new pool does not start with one dummy element")
            return None
        L.head = split(hs[0])[1]
        if fl.known(st, cell(fl, st, addr(t, L.next))) != 0 or fl.known(st, cell(fl, st, addr(t, L.value))) != 0:
            bad(ctx, fn, fl, st, inst, "the dummy element of a new pool is not empty")
        if fl.known(st, cell(fl, st, addr(A0, L.stop), 1)) != 0:
            bad(ctx, fn, fl, st, inst, "a new pool is already stopped")
    if L.head is None:
        raise AnalysisError("pool constructor has no exit")
    # the lock held at every store to the head
    L.headmutex = None
    held = None
    fl, r = run(ctx, entry(m, "TP_oneTask"))
    for kind, inst, st in r.exits:
        h = []
        for e in st.auto:
            if e[0] == "vp_x_lock":
                h.append(split(e[1])[1])
            elif e[0] == "vp_x_unlock" and split(e[1])[1] in h:
                h.remove(split(e[1])[1])
            elif e[0] == "st" and e[1] == addr(A0, L.head):
                held = set(h) if held is None else held & set(h)
    if held:
        L.headmutex = sorted(held, key=lambda x: x == L.tailmutex)[0]
    elif held is not None:
        ctx.violate("pool-head-lock", fname(fn), "tasks are taken from the pool's queue without a lock")
    return L


# entry -> kind of result: v none, b whether a task was run, s status after one
# task, l status of a loop which runs tasks until it stops
WORKERS = {"TP_workerThread": "v", "TP_workerThreadUntil": "l", "TP_oneTask": "b", "TP_oneTaskUntil": "s",
           "PTP_participate": "v", "PTP_participateUntil": "l", "PTP_participateFor": "l",
           "PTP_participateOnce": "b", "PTP_participateOnceUntil": "s", "PTP_participateOnceFor": "s"}
OK, TIMEOUT, STOPPED = 0, 1, 2


def workers(ctx, m, L):
    for e, kind_ in WORKERS.items():
        fn = entry(m, e)
        w = Worker(ctx, fn, L)
        fl = Flow(fn, w, init=W(frozenset(), None, False, None))
        ctx.count("functions explored path by path")
        ctx.count("abstract states", fl.nodes)
        n = 0
        for kind, inst, st in w.exits:
            a = st.auto
            if kind in ("noreturn", "unreachable"):
                continue
            if a.popped is not None:
                bad(ctx, fn, fl, st, inst, "a task is taken from the queue and not run")
            if kind != "ret":
                if not a.ran:
                    bad(ctx, fn, fl, st, inst, "throws although no task was run")
                continue
            n += 1
            stopped = any(nonzero(f) for k, f in st.facts.items()
                          if isinstance(k, tuple) and k[0] == "mem" and k[1] == addr(A0, L.stop))
            timed = a.timed is not None and not stopped
            rv = fl.known(st, fl.val(st, inst["ops"][0])) if inst.get("ops") else None
            if kind_ == "v":
                if not stopped:
                    bad(ctx, fn, fl, st, inst, "a worker leaves although the pool was not stopped")
            elif rv is None:
                bad(ctx, fn, fl, st, inst, "it is not clear what is returned")
            elif kind_ == "b":
                if bool(rv & 1) != a.ran:
                    bad(ctx, fn, fl, st, inst, "the result does not tell whether a task was run")
                if not a.ran and not stopped:
                    bad(ctx, fn, fl, st, inst, "returns without a task although the pool was not stopped")
            else:
                if kind_ == "s" and (rv == OK) != a.ran or kind_ == "l" and rv == OK:
                    bad(ctx, fn, fl, st, inst, "the status does not tell whether a task was run")
                if rv == STOPPED and not stopped:
                    bad(ctx, fn, fl, st, inst, "reports a stop which was not seen")
                if rv == TIMEOUT and not timed:
                    bad(ctx, fn, fl, st, inst, "reports a time-out which did not happen")
                if rv not in (OK, TIMEOUT, STOPPED):
                    bad(ctx, fn, fl, st, inst, "returns an unknown status")
        if not n or not w.pops or not w.calls:
            raise AnalysisError("%s: %d exits, %d tasks taken, %d run" % (e, n, w.pops, w.calls))
        ctx.count("ways of taking a task", w.pops)
        ctx.count("worker functions")


# ---- strands --------------------------------------------------------------

def strand_submit(ctx, m, L):
    """returns the layout of the strand's internal state"""
    fn = entry(m, "Strand_submit")
    K = ("mem", A1, 8, 0)
    S = ("mem", A0, 8, 0)
    fl, r = run(ctx, fn)
    X = PoolLayout()
    X.tail = None
    paths = []
    for kind, inst, st in r.exits:
        if kind == "throw":
            bad(ctx, fn, fl, st, inst, "submit() throws")
        if kind != "ret":
            continue
        x = link_shape(ctx, fn, fl, st, inst, S, K, L)
        if x is None:
            return None
        X.tail, X.mutex = x.tail, x.tailmutex
        paths.append((inst, st))
        ctx.count("submissions")
    X.pool = X.slice = None
    for inst, st in paths:
        for e in st.auto:
            if e[0] == "st":
                b, o = split(e[1])
                if o == L.tail and isinstance(b, tuple) and b[0] == "mem" and split(b[1])[0] == S \
                        and isinstance(e[2], tuple) and e[2][0] == "mem" and split(e[2][1])[0] == S:
                    X.pool = split(b[1])[1]
                    X.slice = split(e[2][1])[1]
    if X.pool is None:
        bad(ctx, fn, fl, paths[0][1], paths[0][0], "submit() never makes the thread pool run the strand")
        return None
    n = {True: 0, False: 0}
    for inst, st in paths:
        p = [e for e in st.auto if e[0] == "st" and split(e[1])[1] == L.tail
             and isinstance(split(e[1])[0], tuple) and split(e[1])[0][0] == "mem"
             and split(e[1])[0][1] == addr(S, X.pool)]
        sl = cell(fl, st, addr(S, X.slice))
        if not p:
            if not (fl.known(st, sl) == 0 or any(
                    f == ("eq", 0) and isinstance(k, tuple) and k[0] == "mem" and k[1] == addr(S, X.pool)
                    for k, f in st.facts.items())):
                bad(ctx, fn, fl, st, inst, "an idle strand is not handed to the thread pool when a task arrives")
            n[False] += 1
            continue
        n[True] += 1
        P, SK = split(p[-1][1])[0], p[-1][2]
        link_shape(ctx, fn, fl, st, inst, P, SK, L)
        if not fl.nonnull(st, SK):
            bad(ctx, fn, fl, st, inst, "the strand is handed to the thread pool although it is not idle")
        if fl.known(st, sl) != 0:
            bad(ctx, fn, fl, st, inst, "the strand is handed to the thread pool but still marked idle")
        if not held(st.auto, st.auto.index(p[-1]), addr(S, X.mutex)):
            bad(ctx, fn, fl, st, inst, "the strand is handed to the thread pool outside its critical section")
    if not min(n.values()):
        raise AnalysisError("Strand::submit: paths %s" % n)
    return X


def held(evs, n, mutex):
    h = False
    for e in evs[:n]:
        if e[0] == "vp_x_lock" and e[1] == mutex:
            h = True
        elif e[0] == "vp_x_unlock" and e[1] == mutex:
            h = False
    return h


SW = namedtuple("SW", "popped calls resub stored notified")


class Slice(Quiet):
    """the task by which a strand runs in its pool"""

    def __init__(self, ctx, fn, L, X, S):
        self.ctx, self.fn, self.L, self.X, self.S = ctx, fn, L, X, S
        self.exits = []
        self.n = 0
        self.tls = set()

    def inside(self, fl, st, v):
        """v is a record of this strand on the thread's stack, linked before the previous ones"""
        if not (isinstance(v, tuple) and split(v)[0][0] == "alloca"):
            return False
        vs = [c[1] for a, c in st.cells.items() if a[0] != "range" and split(a)[0] == split(v)[0]]
        return self.S in vs and any(("mem", x, 8, 0) in vs for x in self.tls)

    def private(self, fl, st, base):
        return base[0] in ("alloca", "arg")

    def bad(self, fl, st, inst, what):
        bad(self.ctx, self.fn, fl, st, inst, what)

    def havoc(self, fl, st, inst, name, args):
        if name == "" and len(args) == 2:
            keep = [(x, st.cells[x]) for x in self.tls if x in st.cells]
            fl.havoc_all(st, inst.id)
            for a in args:
                if split(a)[0][0] == "alloca":
                    fl.havoc_base(st, split(a)[0], inst.id)
            for x, c in keep:       # what others record they also remove
                st.cells[x] = c
            return True
        return Quiet.havoc(self, fl, st, inst, name, args)

    def exit_tls(self, fl, st, inst):
        for x in self.tls:
            if x in st.cells and not same(fl, st, st.cells[x][1], ("mem", x, 8, 0)):
                self.bad(fl, st, inst, "the thread still counts as running a task of the strand afterwards")

    def event(self, fl, st, kind, inst, info):
        L, X, a = self.L, self.X, st.auto
        K = ("mem", A1, 8, 0)
        S = self.S
        if kind == "store":
            ad, size, v = info
            b, o = split(ad)
            if b == S and v != 0 and o == X.head:
                H = None
                if isinstance(v, tuple) and v[0] == "mem":
                    hb, ho = split(v[1])
                    if ho == L.next and isinstance(hb, tuple) and hb[0] == "mem" and hb[1] == ad:
                        H = hb
                if H is None:
                    self.bad(fl, st, inst, "the strand's queue is not advanced to its successor")
                    return
                if a.popped is not None:
                    self.bad(fl, st, inst, "a task is taken from the strand and dropped")
                if a.calls:
                    self.bad(fl, st, inst, "a second task is taken in the same run")
                if not fl.nonnull(st, cell(fl, st, addr(S, X.pool))):
                    self.bad(fl, st, inst, "a task is taken from a strand which was stopped")
                st.facts.setdefault(H, ("ne", frozenset([0])))
                self.n += 1
                st.auto = a._replace(popped=H)
            elif b == S and o == X.slice and v != 0:
                if v != K:
                    self.bad(fl, st, inst, "something else than the strand's own task is stored to mark it idle")
                if a.stored or a.resub:
                    self.bad(fl, st, inst, "the strand is marked idle twice or while it is queued")
                st.auto = a._replace(stored=True)
            elif b == S and o == X.tail:
                self.bad(fl, st, inst, "running a task changes the end of the strand's queue")
            elif isinstance(b, tuple) and b[0] == "mem" and b[1] == addr(S, X.pool) and o == L.tail:
                if v != K:
                    self.bad(fl, st, inst, "something else than the strand's own task is handed to the pool")
                if a.stored or a.resub:
                    self.bad(fl, st, inst, "the strand is handed to the pool twice or while it is idle")
                if not a.calls:
                    self.bad(fl, st, inst, "the strand is handed to the pool again before its task has run")
                he, ta = cell(fl, st, addr(S, X.head)), cell(fl, st, addr(S, X.tail))
                if fl.known(st, ("icmp", "eq", he, ta)) != 0:
                    self.bad(fl, st, inst, "the strand is handed to the pool although it may have no task")
                st.auto = a._replace(resub=True)
        elif kind in ("call", "throw"):
            name, args = info
            if name == "" and len(args) == 2:
                H = a.popped
                if H is None:
                    self.bad(fl, st, inst, "something is run which was not taken from the strand")
                    return
                if a.stored or a.resub:
                    self.bad(fl, st, inst, "a task is run after the strand was released to others")
                if not same(fl, st, args[0], cell(fl, st, addr(H, L.value))) \
                        or not same(fl, st, cell(fl, st, args[1]), H):
                    self.bad(fl, st, inst, "another task is run than the one taken from the strand")
                self.tls |= {x for x in st.cells if "m_topContext" in repr(x)}
                if not any(self.inside(fl, st, c[1]) for x, c in st.cells.items() if x in self.tls):
                    self.bad(fl, st, inst, "a task is run without being known as a task of its strand")
                st.auto = a._replace(popped=None, calls=True)
            elif name == "vp_x_cv_notify_all":
                st.auto = a._replace(notified=a.stored)

    def exit(self, fl, st, kind, inst):
        if kind == "ret":
            self.exit_tls(fl, st, inst)
        self.exits.append((kind, inst, st))


def strand_run(ctx, m, L, X):
    fns = [f for n, f in m.fns.items() if f.d.get("virt") and len(f.arg_list) == 2
           and any(i.is_call() and "_M_add_ref_lock" in (i.callee() or "") for i in f.all_insts())]
    if len(fns) != 1:
        raise AnalysisError("%d functions look like the strand's own task" % len(fns))
    fn = fns[0]
    rec = run(ctx, fn)
    bases = set()
    for kind, inst, st in rec[1].exits:
        for e in st.auto:
            if e[0] == "vp_x_lock" and split(e[1])[1] == X.mutex:
                bases.add(split(e[1])[0])
    bases = {b for b in bases if isinstance(b, tuple) and b[0] == "mem" and split(b[1])[0] == A0}
    if len(bases) != 1:
        raise AnalysisError("the strand's own task does not lock the strand")
    S = bases.pop()
    K = ("mem", A1, 8, 0)
    c = Slice(ctx, fn, L, X, S)
    fl = Flow(fn, c, init=SW(None, False, False, False, False), facts={K: ("ne", frozenset([0]))})
    ctx.count("functions explored path by path")
    ctx.count("abstract states", fl.nodes)
    n = {"gone": 0, "stopped": 0, "again": 0, "idle": 0}
    for kind, inst, st in c.exits:
        a = st.auto
        if kind in ("noreturn", "unreachable"):
            continue
        gone = any(f == ("eq", 0) and isinstance(k, tuple) and (
            k[0] == "mem" and split(k[1])[0] == A0
            or k[0] == "ret" and "_Sp_counted_base" in (fn.insts[k[1]].callee() or ""))
            for k, f in st.facts.items())
        if kind == "throw":
            bad(ctx, fn, fl, st, inst, "an exception of a task leaves the strand blocked")
            continue
        if a.popped is not None:
            bad(ctx, fn, fl, st, inst, "a task is taken from the strand and not run")
        if gone:
            n["gone"] += 1
            if a.calls or a.stored or a.resub:
                bad(ctx, fn, fl, st, inst, "something is done for a strand which is gone")
            continue
        if a.stored == a.resub:
            bad(ctx, fn, fl, st, inst, "the strand is neither queued nor idle afterwards")
        if a.stored and not a.notified:
            bad(ctx, fn, fl, st, inst, "the threads waiting for the strand to become idle are not notified")
        if a.resub:
            n["again"] += 1
        else:
            n["idle" if a.calls else "stopped"] += 1
        if fl.known(st, cell(fl, st, A1)) != 0:
            bad(ctx, fn, fl, st, inst, "the strand's own task is kept twice")
        if a.stored and a.calls:
            empty = any(isinstance(k, tuple) and k[0] == "icmp" and k[1] in ("eq", "ne")
                        and bool(f[1]) == (k[1] == "eq") and {t[1] for t in k[2:] if isinstance(t, tuple)
                                                              and t[0] == "mem"}
                        == {addr(S, X.head), addr(S, X.tail)} for k, f in st.facts.items() if f[0] == "eq")
            nopool = any(isinstance(k, tuple) and k[0] == "mem" and k[1] == addr(S, X.pool)
                         and f == ("eq", 0) for k, f in st.facts.items())
            if not empty and not nopool:
                bad(ctx, fn, fl, st, inst, "the strand becomes idle although it has tasks")
        ctx.sample("strand run: %s" % (a,))
    for k in n:
        if not n[k] and not ctx.violations:
            raise AnalysisError("strand run: no path on which it is %s" % k)
    ctx.count("strand outcomes", sum(n.values()))


def strand_rest(ctx, m, L):
    """constructor; gives the offset of the head"""
    fn = entry(m, "Strand_ctor")
    fl, r = run(ctx, fn)
    out = None
    for kind, inst, st in r.exits:
        if kind != "ret":
            continue
        s = cell(fl, st, A0)
        b, o = split(s)
        if not isinstance(b, tuple) or b[0] != "new":
            raise AnalysisError("a new strand has no state")
        news = {}
        for a, c in st.cells.items():
            if a[0] != "range" and split(a)[0] == b and split(a)[1] is not None and split(a)[1] >= o \
                    and isinstance(c[1], tuple) and c[1][0] == "new" and c[1] != b:
                news.setdefault(c[1], []).append(split(a)[1] - o)
        two = [(k, v) for k, v in news.items() if len(v) == 2]
        if len(two) != 1:
            bad(ctx, fn, fl, st, inst, "a new strand does not start with one dummy element")
            return None
        k, v = two[0]
        if fl.known(st, cell(fl, st, addr(k, L.next))) != 0 or fl.known(st, cell(fl, st, addr(k, L.value))) != 0:
            bad(ctx, fn, fl, st, inst, "the dummy element of a new strand is not empty")
        out = (v, {x for kk, vv in news.items() if len(vv) == 1 for x in vv})
    if out is None:
        raise AnalysisError("strand constructor has no exit")
    return out


def strand_stop(ctx, m, X):
    S = ("mem", A0, 8, 0)
    for e in ("Strand_stopAndJoin", "Strand_stopAndMaybeJoin", "Strand_dtor"):
        fn = entry(m, e)
        fl, r = run(ctx, fn)
        n = 0
        for kind, inst, st in r.exits:
            if kind != "ret":
                continue
            n += 1
            z = [x for x in st.auto if x[0] == "st" and x[1] == addr(S, X.pool) and x[2] == 0]
            if not z:
                bad(ctx, fn, fl, st, inst, "the strand is not stopped")
            idle = any(isinstance(k, tuple) and k[0] == "mem" and k[1] == addr(S, X.slice) and nonzero(f)
                       for k, f in st.facts.items())
            if not idle and e != "Strand_stopAndMaybeJoin":
                bad(ctx, fn, fl, st, inst, "returns although the strand may still be running")
            if e == "Strand_stopAndMaybeJoin":
                found = any(isinstance(k, tuple) and k[0] == "icmp" and k[1] in ("eq", "ne") and S in k[2:]
                            and not any(isinstance(x, int) for x in k[2:]) and
                            bool(fl.known(st, k)) == (k[1] == "eq") and fl.known(st, k) is not None for k in st.facts)
                end = any(isinstance(k, tuple) and k[0] == "mem" and f == ("eq", 0) and
                          ("m_topContext" in repr(k) or k[1][0] == "phi") for k, f in st.facts.items())
                if found and idle:
                    bad(ctx, fn, fl, st, inst, "waits for the strand to become idle in one of the strand's own tasks")
                if not found and not idle:
                    bad(ctx, fn, fl, st, inst, "does not wait for the strand although not called by one of its tasks")
                if not found and not end:
                    bad(ctx, fn, fl, st, inst, "does not look at all the tasks which the thread is running")
            if e != "Strand_dtor":
                o = cell(fl, st, A1)
                if not (isinstance(o, tuple) and o[0] == "mem" and o[1] == addr(S, X.pool)):
                    bad(ctx, fn, fl, st, inst, "does not return the strand's pool")
        if not n:
            raise AnalysisError("%s has no exit" % e)
        ctx.count("ways of stopping a strand", n)


def strand(ctx, m, L):
    X = strand_submit(ctx, m, L)
    if X is None:
        return
    h = strand_rest(ctx, m, L)
    if h is None:
        return
    both, single = h
    if X.tail not in both or X.slice not in single:
        bad_fn = entry(m, "Strand_ctor")
        ctx.violate("strand-ctor-layout", fname(bad_fn), "a new strand is not idle or its queue has no end")
        return
    X.head = [x for x in both if x != X.tail][0]
    strand_run(ctx, m, L, X)
    strand_stop(ctx, m, X)


# ---- timeouts thread -------------------------------------------------------

TREE = (r"^boost::intrusive::.*(rbtree|bstree)_algorithms<",
        r"boost::intrusive::(rbtree|bstree)_algorithms(_base)?<.*::(insert_equal|insert_equal_upper_bound|"
        r"insert_equal_lower_bound|insert_unique|insert_before|push_back|push_front|erase|unlink|next_node|prev_node|"
        r"init_header|clear_and_dispose)[<(]")


def tree_call(name):
    """the tree operation a kept call stands for"""
    if "bstree_algorithms" in name or "rbtree_algorithms" in name:
        for w in ("insert_equal_upper_bound", "insert_equal_lower_bound", "insert_equal", "insert_unique", "insert_before",
                  "push_back", "push_front", "clear_and_dispose", "next_node", "prev_node", "init_header", "unlink", "erase"):
            if re.search(r"\d%s" % w, name):
                return w
    return None


class TRec(Rec2):
    def event(self, fl, st, kind, inst, info):
        if kind in ("call", "throw"):
            name, args = info
            t = tree_call(name)
            if t:
                st.auto += ((t,) + tuple(args) + (inst.id,),)
                return
        self.r.event(fl, st, kind, inst, info)


def trun(ctx, fn):
    c = TRec()
    fl = Flow(fn, c, init=())
    ctx.count("functions explored path by path")
    ctx.count("abstract states", fl.nodes)
    if not c.exits:
        raise AnalysisError("no exit of %s was reached" % fn.name)
    return fl, c


HOOK = 8        # a task's node follows its virtual table pointer


def timeouts_add(ctx, m):
    L = PoolLayout()
    L.time = L.own = L.mutex = L.tree = None
    K = ("mem", ("arg", 2), 8, 0)
    for e in ("TT_addTask", "TT_addTimeoutTask"):
        fn = entry(m, e)
        fl, r = trun(ctx, fn)
        n = 0
        for kind, inst, st in r.exits:
            if kind == "throw":
                bad(ctx, fn, fl, st, inst, "adding a task throws")
            if kind != "ret":
                continue
            n += 1
            ins = [(x, y) for x, y in enumerate(st.auto) if y[0].startswith("insert")]
            if len(ins) != 1 or ins[0][1][0] != "insert_equal_upper_bound":
                bad(ctx, fn, fl, st, inst, "a task is not queued exactly once, behind the tasks of the same time")
                return None
            at, ev = ins[0]
            if addr(K, HOOK) not in ev[1:]:
                bad(ctx, fn, fl, st, inst, "something else than the given task is queued")
                return None
            L.tree = split(ev[1])[1]
            st_ = [(x, y) for x, y in enumerate(st.auto) if y[0] == "st" and split(y[1])[0] == K]
            own = [(x, y) for x, y in st_ if same(fl, st, y[2], K)]
            tm = [(x, y) for x, y in st_ if (x, y) not in own]
            if len(own) != 1 or own[0][0] > at:
                bad(ctx, fn, fl, st, inst, "a queued task is not owned by the queue")
                return None
            if len(tm) != 1 or tm[0][0] > at:
                bad(ctx, fn, fl, st, inst, "the time of a task is not set before the task is queued")
                return None
            v = tm[0][1][2]
            arg = ("mem", ("arg", 1), 8, 0)
            want = v == arg if e == "TT_addTask" else \
                isinstance(v, tuple) and v[0] == "add" and len(v) == 4 and arg in v[2:] and any(
                    isinstance(x, tuple) and x[0] == "ret" and "3now" in (fn.insts[x[1]].callee() or "") for x in v[2:])
            if not want:
                bad(ctx, fn, fl, st, inst, "a task is queued for another time than the one asked for")
            L.own, L.time = split(own[0][1][1])[1], split(tm[0][1][1])[1]
            lk = [x for x, y in enumerate(st.auto) if y[0] == "vp_x_lock" and x < at]
            un = [x for x, y in enumerate(st.auto) if y[0] == "vp_x_unlock" and x < at]
            if len(lk) != len(un) + 1:
                bad(ctx, fn, fl, st, inst, "a task is queued without the lock")
            elif lk:
                L.mutex = split(st.auto[lk[-1]][1])[1]
        if not n:
            raise AnalysisError("%s has no exit" % e)
        ctx.count("submissions", n)
    return L


TW = namedtuple("TW", "locked taken node own ran thrown")


class Timer(Quiet):
    """the timeouts thread"""

    def __init__(self, ctx, fn, L):
        self.ctx, self.fn, self.L = ctx, fn, L
        self.exits = []
        self.n = 0

    def private(self, fl, st, base):
        return base[0] == "alloca"

    def bad(self, fl, st, inst, what):
        bad(self.ctx, self.fn, fl, st, inst, what)

    def event(self, fl, st, kind, inst, info):
        L, a = self.L, st.auto
        if kind not in ("call", "throw"):
            if kind == "load" or not a.taken:
                return
            ad, size, v = info
            if split(ad)[0][0] != "alloca" and ad == addr(a.node, L.own - HOOK) and v == 0:
                st.auto = a._replace(own=True)
            return
        name, args = info
        t = tree_call(name)
        if name == "vp_x_lock":
            st.auto = a._replace(locked=True)
        elif name == "vp_x_unlock":
            if a.taken and not a.own:
                self.bad(fl, st, inst, "a task taken from the queue is still owned by it")
            st.auto = a._replace(locked=False)
        elif t in ("erase", "unlink"):
            N = [x for x in args if isinstance(x, tuple) and x[0] == "mem" and split(x[1])[0] == A0]
            if not a.locked:
                self.bad(fl, st, inst, "a task is taken from the queue without the lock")
            if a.taken:
                self.bad(fl, st, inst, "a task is taken from the queue and dropped")
            if not N or split(N[0][1])[1] != L.tree + 8:
                self.bad(fl, st, inst, "another task than the earliest is taken")
                return
            N = N[0]
            if not any(nonzero(f) and isinstance(k, tuple) and k[0] == "mem" and split(k[1])[0] == A0
                       and L.tree <= (split(k[1])[1] or 0) < L.tree + 32 for k, f in st.facts.items()):
                self.bad(fl, st, inst, "a task is taken from a queue which may be empty")
            due = False
            for k, f in st.facts.items():
                if not (isinstance(k, tuple) and k[0] == "icmp" and f[0] == "eq"):
                    continue
                op, x, y = k[1], unwas(k[2]), unwas(k[3])
                if not f[1]:
                    op = {"slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}.get(op)
                if op in ("sle", "slt"):
                    op, x, y = {"sle": "sge", "slt": "sgt"}[op], y, x
                if op not in ("sge", "sgt"):
                    continue
                if isinstance(x, tuple) and x[0] == "ret" and "3now" in (self.fn.insts[x[1]].callee() or "") \
                        and isinstance(unwas(y), tuple) and unwas(y)[0] == "mem":
                    # only this thread takes tasks, so the earliest one has not got later since
                    b, o = split(unwas(y)[1])
                    if o == L.time - HOOK and isinstance(b, tuple) and b[0] == "mem" and b[1] == N[1]:
                        due = True
            if not due:
                self.bad(fl, st, inst, "a task is taken before its time")
            self.n += 1
            st.facts[N] = ("ne", frozenset([0]))
            st.auto = TW(a.locked, True, N, False, a.ran, a.thrown)
        elif name == "" and len(args) == 2:
            if not a.taken:
                self.bad(fl, st, inst, "something is run which was not taken from the queue")
                return
            own = [x for x in (args[0], cell(fl, st, args[1]))]
            for x in own:
                b, o = split(x)
                if not (b == a.node and o == -HOOK or isinstance(x, tuple) and x[0] == "mem"
                        and x[1] == addr(a.node, L.own - HOOK)):
                    self.bad(fl, st, inst, "another task is run than the one taken from the queue")
            st.auto = TW(a.locked, False, None, False, True, kind == "throw")

    def exit(self, fl, st, kind, inst):
        self.exits.append((kind, inst, st))


def timeouts(ctx, m):
    L = timeouts_add(ctx, m)
    if L is None:
        return
    fn = entry(m, "TT_less")
    fl, r = run(ctx, fn)
    x, y = (("mem", addr(("arg", n), L.time), 8, 0) for n in (0, 1))
    for kind, inst, st in r.exits:
        if kind != "ret":
            continue
        v = fl.val(st, inst["ops"][0])
        while isinstance(v, tuple) and v[0] == "cast":
            v = v[3]
        k = fl.known(st, v)
        if v not in (("icmp", "slt", x, y), ("icmp", "sgt", y, x)) and k is None or \
                k is not None and k != (fl.known(st, ("icmp", "slt", x, y)) or 0):
            bad(ctx, fn, fl, st, inst, "tasks are not ordered by their times alone")
    fn = entry(m, "TT_run")
    c = Timer(ctx, fn, L)
    fl = Flow(fn, c, init=TW(False, False, None, False, False, False))
    ctx.count("functions explored path by path")
    ctx.count("abstract states", fl.nodes)
    n = 0
    for kind, inst, st in c.exits:
        if kind == "ret":
            n += 1
            if not st.auto.thrown:
                bad(ctx, fn, fl, st, inst, "the timeouts thread ends although it was not stopped")
        if kind in ("ret", "throw") and st.auto.taken:
            bad(ctx, fn, fl, st, inst, "a task is taken from the queue and not run")
    if not (n and c.n) and not ctx.violations:
        raise AnalysisError("timeouts thread: %d exits, %d tasks taken" % (n, c.n))
    ctx.count("worker functions")
    ctx.count("ways of taking a task", c.n)


# ---- tasks made from user functions ----------------------------------------

def tag_of(inst):
    o = inst["ops"][0]
    return o.get("v") if isinstance(o, dict) else o


def wrapper(ctx, m, name, tag, passes_task, reusable=False):
    """the object made by the entry stores the function and its call operator
    calls the stored function once"""
    fn = entry(m, name)
    fl, r = run(ctx, fn)
    off = None
    for kind, inst, st in r.exits:
        if kind != "ret":
            continue
        p = [e for e in st.auto if e[0] == "st" and e[2] == ("mem", A1, 8, 0)]
        objs = {split(e[1])[0] for e in p}
        if len(p) != 1 or objs.pop()[0] != "new":
            bad(ctx, fn, fl, st, inst, "the function of a task is not stored in the task")
            return
        off = split(p[0][1])[1]
    fns = []
    for n, f in m.fns.items():
        if f.d.get("virt") and len(f.arg_list) == 2 and any(
                i.is_call() and i.callee() == "vp_x_mark" and tag_of(i) == tag for i in f.all_insts()):
            fns.append(f)
    if off is None or len(fns) != 1:
        if off is not None and not fns:
            ctx.violate("%s-%d" % (name, tag), fname(fn), "the task made from a function does not call the function")
            return
        raise AnalysisError("%s: %d call operators" % (name, len(fns)))
    f = fns[0]
    fl, r = run(ctx, f)
    n = 0
    for kind, inst, st in r.exits:
        if kind != "ret":
            if kind == "throw":
                bad(ctx, f, fl, st, inst, "running a task throws although its function does not")
            continue
        n += 1
        marks = [x for x, e in enumerate(st.auto) if e[0] == "vp_x_mark"]
        calls = [e for e in st.auto if e[0] == "vp_x_user_call"]
        if len(marks) != 1 or len(calls) != 1:
            bad(ctx, f, fl, st, inst, "running a task does not call its function exactly once")
            continue
        if not same(fl, st, calls[0][1], addr(A0, off)):
            bad(ctx, f, fl, st, inst, "running a task calls another function than the one stored in it")
        uses = [e[1] for e in st.auto if e[0] == "vp_x_use"]
        if passes_task and (len(uses) != 1 or not same(fl, st, uses[0], A1)):
            bad(ctx, f, fl, st, inst, "the function of a task is not given the task")
        if reusable:
            back = [e for e in st.auto[:marks[0]] if e[0] == "st" and same(fl, st, e[2], ("mem", A1, 8, 0))
                    and isinstance(split(e[1])[0], tuple) and split(e[1])[0][0] == "mem"]
            if not back:
                bad(ctx, f, fl, st, inst, "a reusable task is not put back before its function is called")
    if not n:
        raise AnalysisError("%s: call operator has no exit" % name)
    ctx.count("task wrappers")


# ---- threads which start later ----------------------------------------------

def nostart(ctx, m):
    S = ("mem", A0, 8, 0)
    sets = {}
    for e in ("N_start", "N_stop"):
        fn = entry(m, e)
        fl, r = run(ctx, fn)
        for kind, inst, st in r.exits:
            if kind != "ret":
                if kind == "throw":
                    bad(ctx, fn, fl, st, inst, "throws")
                continue
            v = {split(x[1])[1]: x[2] for x in st.auto if x[0] == "st" and split(x[1])[0] == S
                 and isinstance(x[2], int)}
            if not v:
                if e == "N_stop" and any(f == ("eq", 0) and isinstance(k, tuple) and k[0] == "mem"
                                         and split(k[1])[0] == A0 for k, f in st.facts.items()):
                    continue        # already told
                bad(ctx, fn, fl, st, inst, "the thread is not told whether to run")
                return
            sets.setdefault(e, []).append((fn, fl, inst, st, v))
    if len(sets) != 2:
        raise AnalysisError("start and stop of a delayed thread: %d" % len(sets))
    offs = None
    for e, want in (("N_start", 1), ("N_stop", 0)):
        for *_, v in sets[e]:
            o = {k for k, x in v.items() if bool(x) == bool(want)}
            offs = o if offs is None else offs & o
    # the word which tells start from stop
    offs = {o for o in offs if all(v.get(o) == 1 for *_, v in sets["N_start"])
            and all(v.get(o) == 0 for *_, v in sets["N_stop"])}
    fn = entry(m, "N_run")
    if not offs:
        ctx.violate("nostart-values", fname(fn), "start() and stop() tell the waiting thread the same")
        return
    fl, r = run(ctx, fn)
    n = {True: 0, False: 0}
    for kind, inst, st in r.exits:
        if kind not in ("ret", "throw"):
            continue
        calls = [e for e in st.auto if e[0] == "icall" and isinstance(e[2], tuple) and split(e[2])[0] == A0]
        told = None
        for k, f in st.facts.items():
            if isinstance(k, tuple) and k[0] == "mem" and split(k[1])[1] in offs and k[2] == 1 \
                    and isinstance(split(k[1])[0], tuple) and split(k[1])[0][0] == "mem":
                told = nonzero(f)
        if told is None:
            bad(ctx, fn, fl, st, inst, "runs or ends without knowing whether it was started")
            continue
        empty = any(f == ("eq", 0) and isinstance(k, tuple) and k[0] == "mem" and split(k[1])[0] == A0
                    for k, f in st.facts.items() if split(k[1])[1] not in (None,)) if told and not calls else False
        n[bool(calls)] += 1
        if len(calls) > 1:
            bad(ctx, fn, fl, st, inst, "the function is called more than once")
        elif calls and not told:
            bad(ctx, fn, fl, st, inst, "the function is called although the thread was stopped before it was started")
        elif not calls and told and not empty:
            bad(ctx, fn, fl, st, inst, "the function is not called although the thread was started")
    if not min(n.values()) and not ctx.violations:
        raise AnalysisError("delayed thread: paths %s" % n)
    ctx.count("worker functions")


def c10(ctx):
    ctx.rule("submit() moves the function into the last element, links the given element behind it and makes "
             "it the last one, all in one critical section")
    ctx.rule("a worker takes an element only under the lock of the head, having seen that it is not the last one "
             "and that the pool is not stopped, makes its successor the head, and runs exactly this element's function once")
    ctx.rule("a strand is either idle or queued in the pool once; its own task takes at most one task, runs it, and only then "
             "queues itself again or marks the strand idle")
    ctx.rule("a timeout task is owned by the queue, has its time set before it is queued, and is taken when it is the first, "
             "under the lock and after its time was reached, and run once")
    ctx.rule("task objects store the user's function and call exactly the stored function")
    for m in ctx.modules(["threadpool.cpp"], vtables=True):
        L = discover(ctx, m)
        if L is None:
            continue
        workers(ctx, m, L)
        strand(ctx, m, L)
        wrapper(ctx, m, "TP_createSimpleTask", 11, False)
        wrapper(ctx, m, "TP_createTask", 12, True)
        wrapper(ctx, m, "TP_ReusableTask", 13, False, reusable=True)
    for m in ctx.modules(["timeouts.cpp"], vtables=True, keep=TREE):
        timeouts(ctx, m)
        wrapper(ctx, m, "TT_createOneShotTask", 21, False)
        wrapper(ctx, m, "TT_createReusableTask", 22, True)
    for m in ctx.modules(["nostart.cpp"]):
        nostart(ctx, m)


CHECKS = {"C10": c10}
