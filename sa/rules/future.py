"""C07 results of promises, C08 continuations."""
import re

from ..flow import Flow, addr, mentions, place, split
from ..ir import AnalysisError, is_id
from .monitor import fname

DRV = "future.cpp"
SS = re.compile(r"^sharemind::Detail::Future::SharedState<")
OBJ = {"vp_xt_obj_ctor": 0, "vp_xt_obj_copy": 0, "vp_x_obj_move": 0}
BROKEN = "BrokenPromiseException"


def mems(e, out=None):
    """names of memory contents mentioned in an expression, outermost first"""
    out = [] if out is None else out
    if isinstance(e, tuple):
        if e[0] == "mem":
            out.append(e)
        for x in e[1:]:
            mems(x, out)
    return out


class Rec:
    """records the events of each path"""

    def __init__(self):
        self.exits = []

    def add(self, st, ev):
        if not st.auto or st.auto[-1] != ev:
            st.auto = st.auto + (ev,)

    def private(self, fl, st, base):
        # user code which is called does not modify the objects operated on
        return base[0] in ("arg", "alloca")

    def event(self, fl, st, kind, inst, info):
        if kind == "store":
            a, size, v = info
            b, o = split(a)
            if b[0] == "alloca":
                return
            self.add(st, ("st", a, v, inst.id))
        elif kind in ("memcpy", "memset"):
            self.add(st, (kind, info[0], info[1], info[2], inst.id))
        elif kind in ("call", "throw"):
            name, args = info
            if name == "":
                e = fl.val(st, inst["fnptr"]) if "fnptr" in inst.d else None
                slot = None
                if isinstance(e, tuple) and e[0] == "mem":
                    vt, off = split(e[1])
                    if isinstance(vt, tuple) and vt[0] == "mem" and args and vt[1] == args[0]:
                        slot = off // 8 if off is not None else None
                    elif vt[0] == "global" and off is not None and vt[1].startswith("_ZTV"):
                        slot = off // 8 - 2
                self.add(st, ("icall", slot, args[0] if args else None, inst.id, kind))
            elif name == "vp_x_unlock":
                snap = frozenset((k, v[1]) for k, v in st.cells.items() if k[0] != "range"
                                 and split(k)[0] == split(args[0])[0])
                self.add(st, ("vp_x_unlock", args[0], snap, inst.id))
            elif name.startswith(("vp_x", "_ZSt25__throw_bad_function_call", "__cxa_init_primary", "__cxa_throw", "_ZSt17rethrow", "_ZSt17current_exc",
                                  "__cxa_rethrow", "_ZdlPv")):
                self.add(st, (name + ("!" if kind == "throw" else ""), *args, inst.id))

    def exit(self, fl, st, kind, inst):
        self.exits.append((kind, inst, st))


def explore(ctx, fn, facts=None):
    r = Rec()
    fl = Flow(fn, r, init=(), facts=facts)
    ctx.count("functions explored path by path")
    ctx.count("abstract states", fl.nodes)
    ctx.count("exit states", len(r.exits))
    return fl, r


class Layout:
    """Where the state keeps its result flag, exception and continuation; all
    derived from what the public operations do."""


def layout(ctx, m, v):
    """v: '' for Future<T>, 'V' for Future<void>"""
    L = Layout()
    L.v = v
    fn = m.fns.get("vp_e_F%s_isReady" % v)
    vf = m.fns.get("vp_e_P_isValid")
    if fn is None or vf is None:
        raise AnalysisError("entry isReady or isValid missing")
    fl, r = explore(ctx, fn)
    cand = set()
    for k, inst, st in r.exits:
        if k == "ret":
            for x in mems(fl.val(st, inst["ops"][0])):
                b, o = split(x[1])
                if isinstance(b, tuple) and b[0] == "mem" and o is not None:
                    cand.add((b, o, x[2]))
    cand = {c for c in cand if split(c[0][1])[0] == ("arg", 0)}
    if len(cand) != 1:
        raise AnalysisError("cannot tell which member isReady() reports")
    b, L.flag, L.fsize = cand.pop()
    L.fut = split(b[1])[1]
    locks = {a[1] for k, i, st in r.exits for a in st.auto if a[0] == "vp_x_lock"}
    if len(locks) != 1:
        raise AnalysisError("isReady() does not lock the state once")
    lb, L.mutex = split(locks.pop())
    if lb != b:
        raise AnalysisError("isReady() locks something else than the state")
    fl, r = explore(ctx, vf)
    c = {x[1] for k, i, st in r.exits if k == "ret" for x in mems(fl.val(st, i["ops"][0]))}
    if len(c) != 1:
        raise AnalysisError("cannot tell what isValid() reports")
    L.prom = split(c.pop())[1]
    # exception member, by type
    L.exc = None
    T = m.types
    want = "SharedState<void>" if v else None
    for t in T.t:
        q = t.get("qname") or ""
        if SS.match(q) and not t.get("decl") and (("<void>" in q) == bool(v)):
            for e in T.elems(t["id"]):
                if T.name(e["t"]).endswith("exception_ptr"):
                    L.exc = e["off"]
            L.size = T.size(t["id"])
    if L.exc is None:
        raise AnalysisError("no exception member in the future state")
    # continuation member: where then() puts the new object
    th = m.fns.get("vp_e_F%s_then" % v)
    if th is None:
        raise AnalysisError("entry then missing")
    fl, r = explore(ctx, th)
    S = ("mem", addr(("arg", 0), L.fut), 8, 0)
    c = set()
    for k, i, st in r.exits:
        for e in st.auto:
            if e[0] == "st" and split(e[1])[0] == S and isinstance(e[2], tuple) and e[2][0] == "new":
                c.add(split(e[1])[1])
    if len(c) != 1:
        raise AnalysisError("then() does not keep the continuation in the state")
    L.cont = c.pop()
    return L


def held_at(evs, n, mutex):
    h = False
    for e in evs[:n]:
        if e[0] == "vp_x_lock" and e[1] == mutex:
            h = True
        elif e[0] == "vp_x_unlock" and e[1] == mutex:
            h = False
    return h


def is_true(fl, st, v):
    return isinstance(v, int) and v != 0


def outcome(fl, st, L, S):
    """what a path did with the state at S: (number of times the flag was
    raised, kind of result, list of complaints)"""
    evs = st.auto
    bad = []
    mtx = addr(S, L.mutex)
    flag = addr(S, L.flag)
    exc = addr(S, L.exc)
    sets = [n for n, e in enumerate(evs) if e[0] == "st" and e[1] == flag and is_true(fl, st, e[2])]
    values = []
    excs = []
    for n, e in enumerate(evs):
        if e[0] in OBJ:
            b, o = split(e[1])
            sb, so = split(S)
            if b == sb and o is not None and so is not None and so <= o < so + L.size:
                values.append(n)
        elif e[0] == "st" and e[1] == exc and e[2] != 0:
            excs.append(n)
    cleared = [n for n, e in enumerate(evs) if e[0] == "st" and e[1] == flag and not is_true(fl, st, e[2])
               and S[0] == "mem"]
    if cleared:
        bad.append("the result flag is changed to something else than true")
    kind = None
    if sets:
        n = sets[0]
        fresh = split(S)[0][0] == "new"
        if len(sets) == 1 and not fresh or held_any(evs, mtx):
            if not held_at(evs, n, mtx):
                bad.append("the result is announced without holding the lock of the state")
        # the critical section which raises the flag
        start = max([k for k, e in enumerate(evs[:n]) if e[0] == "vp_x_lock" and e[1] == mtx], default=0)
        end = min([k for k, e in enumerate(evs) if k > n and e[0] == "vp_x_unlock" and e[1] == mtx],
                  default=len(evs))
        v = [k for k in values if start <= k < end]
        x = [k for k in excs if start <= k < end]
        if [k for k in values + excs if not start <= k < end]:
            bad.append("a result is stored outside the critical section which announces it")
        if v and x:
            kind = "both"
        elif v:
            kind = "value"
            if len(v) > 1:
                bad.append("the value is constructed more than once")
        elif x:
            kind = "exception"
            last = [e for e in evs[:x[-1]] if e[0].startswith(("__cxa_init_primary", "__cxa_throw"))
                    or e[0].startswith("vp_x") and e[0].endswith("!")]
            if last and any(BROKEN in str(a) for a in last[-1][1:]):
                kind = "broken"
        else:
            kind = "none"
    else:
        if excs:
            bad.append("an exception is stored but never announced")
    return len(sets), kind, bad


def held_any(evs, mtx):
    return any(e[0] == "vp_x_lock" and e[1] == mtx for e in evs)


def cell(fl, st, a, size=8):
    return fl.load(st, a, size)


ARG0 = ("arg", 0)
ARG1 = ("arg", 1)


def report(ctx, prop, fn, st, fl, inst, msg):
    ctx.violate("%s@%s" % (re.sub(r"[^A-Za-z]+", "-", msg)[:60], fname(fn)),
                place(fl, st, inst), "%s: %s" % (fname(fn), msg),
                fl.where(st)[-14:])


# entry -> result kinds allowed when it returns
SETTERS = {
    "P_abandon": {"broken"}, "PV_abandon": {"broken"},
    "P_setException": {"exception"}, "PV_setException": {"exception"},
    "P_setValueMove": {"value"}, "P_setValueCopy": {"value"}, "P_emplaceValue": {"value"},
    "PV_setReady": {"none"}, "PV_setValue": {"none"},
    "P_dtor": {"broken"}, "PV_dtor": {"broken"},
    "PT_call": {"value", "exception"}, "PT_dtor": {"broken"},
}
MAKERS = {"makeReadyFutureV": ("V", {"none"}), "makeReadyFuture": ("", {"value"}),
          "makeExceptionalFuture": ("", {"exception"}), "makeBrokenFuture": ("", {"broken"})}


def modules(ctx):
    return ctx.modules([DRV], vtables=True)


def c07(ctx):
    ctx.rule("on every path through each operation that fulfils a promise, the result flag of its state is "
             "raised exactly once, under the state's lock and after exactly the intended kind of result "
             "was stored in the same critical section; afterwards the promise is invalid; on exceptional "
             "exits nothing is announced and the promise still owns its state")
    ctx.rule("move operations transfer the state pointer, leave the source empty, and break the promise "
             "which is overwritten; continuations and packaged tasks fulfil their promise on every path")
    ctx.rule("takeValue reads the value only under the lock with the flag seen true and no exception "
             "stored, rethrows otherwise, and leaves the future invalid")
    ctx.assume("two promises or futures passed to one operation are distinct objects")
    n = 0
    for m in modules(ctx):
        for v in ("", "V"):
            L = layout(ctx, m, v)
            for e, kinds in SETTERS.items():
                if e.startswith("PV") != bool(v):
                    continue
                n += setter(ctx, m, L, e, kinds)
            for e, (vv, kinds) in MAKERS.items():
                if vv == v:
                    n += maker(ctx, m, L, e, kinds)
            n += moves(ctx, m, L)
            n += takes(ctx, m, L)
            n += waits(ctx, m, L)
            n += runs_(ctx, m, L)
    ctx.floor("operations on promises and futures", n, 60)


def entry(m, name):
    f = m.fns.get("vp_e_" + name)
    if f is None:
        raise AnalysisError("entry %s missing" % name)
    return f


def setter(ctx, m, L, e, kinds):
    fn = entry(m, e)
    pa = addr(ARG0, L.prom)
    S = ("mem", pa, 8, 0)
    dtor = e.endswith("_dtor")
    for valid in ((True, False) if dtor else (True,)):
        fl, r = explore(ctx, fn, {S: ("ne", frozenset([0])) if valid else ("eq", 0)})
        n = 0
        for kind, inst, st in r.exits:
            if kind in ("noreturn", "unreachable"):
                continue
            n += 1
            sets, k, bad = outcome(fl, st, L, S)
            for b in bad:
                report(ctx, "C07", fn, st, fl, inst, b)
            if not valid:
                if sets:
                    report(ctx, "C07", fn, st, fl, inst, "announces a result for a promise without state")
                continue
            if kind == "throw":
                if sets:
                    report(ctx, "C07", fn, st, fl, inst, "announces a result and then throws")
                if cell(fl, st, pa) != S:
                    report(ctx, "C07", fn, st, fl, inst,
                           "throws after giving up the state, so that the promise can no longer be fulfilled")
                continue
            if sets != 1:
                report(ctx, "C07", fn, st, fl, inst,
                       "announces the result %s" % ("more than once" if sets else "on no path that reaches here: never"))
            elif k not in kinds:
                report(ctx, "C07", fn, st, fl, inst, "stores the wrong kind of result (%s instead of %s)"
                       % (k, "/".join(sorted(kinds))))
            if e == "PT_call":
                thr = [x for x in st.auto if x[0] == "icall" and x[4] == "throw"
                       or x[0].startswith("_ZSt25__throw_bad_function_call")]
                if bool(thr) != (k == "exception"):
                    report(ctx, "C07", fn, st, fl, inst, "a task which %s results in a %s" % (
                        "throws" if thr else "returns", k))
            if not dtor and fl.known(st, cell(fl, st, pa)) != 0:
                report(ctx, "C07", fn, st, fl, inst, "the promise is still valid after it was fulfilled")
            ctx.sample("%s: %s exit, result %s" % (e, kind, k))
        if not n:
            raise AnalysisError("no exit of %s was reached" % e)
    return 1


def maker(ctx, m, L, e, kinds):
    fn = entry(m, e)
    fl, r = explore(ctx, fn)
    n = 0
    for kind, inst, st in r.exits:
        if kind != "ret":
            continue
        n += 1
        S = cell(fl, st, addr(ARG0, L.fut))
        if fl.known(st, S) == 0 or not isinstance(S, tuple):
            report(ctx, "C07", fn, st, fl, inst, "returns a future without state")
            continue
        sets, k, bad = outcome(fl, st, L, S)
        for b in bad:
            report(ctx, "C07", fn, st, fl, inst, b)
        if sets != 1 or k not in kinds:
            report(ctx, "C07", fn, st, fl, inst, "returns a future with %s result(s) of kind %s" % (sets, k))
    if not n:
        raise AnalysisError("no exit of %s was reached" % e)
    return 1


def moves(ctx, m, L):
    P = "P" + L.v
    n = 0
    pa, pb = addr(ARG0, L.prom), addr(ARG1, L.prom)
    A, B = ("mem", pa, 8, 0), ("mem", pb, 8, 0)
    if not L.v:
        # construction
        for e in ("P_moveCtor", "PT_moveCtor"):
            fn = entry(m, e)
            fl, r = explore(ctx, fn)
            for kind, inst, st in r.exits:
                if kind != "ret":
                    continue
                if cell(fl, st, pa) != B and not same(fl, st, cell(fl, st, pa), B):
                    report(ctx, "C07", fn, st, fl, inst, "the moved-to promise does not take over the state")
                if fl.known(st, cell(fl, st, pb)) != 0:
                    report(ctx, "C07", fn, st, fl, inst, "the moved-from promise keeps its state")
                if outcome(fl, st, L, B)[0]:
                    report(ctx, "C07", fn, st, fl, inst, "moving a promise announces a result")
            n += 1
        fn = entry(m, "P_swap")
        fl, r = explore(ctx, fn)
        for kind, inst, st in r.exits:
            if kind == "ret" and not (same(fl, st, cell(fl, st, pa), B) and same(fl, st, cell(fl, st, pb), A)):
                report(ctx, "C07", fn, st, fl, inst, "swap does not exchange the states")
        n += 1
    for e in ((P + "_moveAssign",) if L.v else ("P_moveAssign", "PT_moveAssign")):
        fn = entry(m, e)
        for av in (True, False):
            fl, r = explore(ctx, fn, {A: ("ne", frozenset([0])) if av else ("eq", 0)})
            c = 0
            for kind, inst, st in r.exits:
                if kind != "ret":
                    continue
                c += 1
                sets, k, bad = outcome(fl, st, L, A)
                for b in bad:
                    report(ctx, "C07", fn, st, fl, inst, b)
                if av and (sets != 1 or k != "broken"):
                    report(ctx, "C07", fn, st, fl, inst, "the promise which is overwritten is not broken exactly once")
                if outcome(fl, st, L, B)[0]:
                    report(ctx, "C07", fn, st, fl, inst, "the assigned promise is announced")
                if not same(fl, st, cell(fl, st, pa), B):
                    report(ctx, "C07", fn, st, fl, inst, "the moved-to promise does not take over the state")
                if fl.known(st, cell(fl, st, pb)) != 0:
                    report(ctx, "C07", fn, st, fl, inst, "the moved-from promise keeps its state")
            if not c:
                raise AnalysisError("no exit of %s was reached" % e)
        n += 1
    for e in ((P + "_takeFuture",) if L.v else ("P_takeFuture", "PT_takeFuture")):
        fn = entry(m, e)
        fl, r = explore(ctx, fn)
        for kind, inst, st in r.exits:
            if kind != "ret":
                continue
            f = cell(fl, st, addr(ARG1, L.fut))
            ms = mems(f)
            if not ms or split(ms[0][1])[0] != ARG0 or split(ms[0][1])[1] == L.prom:
                report(ctx, "C07", fn, st, fl, inst, "the future does not take over the promise's future state")
            elif fl.known(st, cell(fl, st, ms[0][1])) != 0:
                report(ctx, "C07", fn, st, fl, inst, "the future can be taken twice")
            if not same(fl, st, cell(fl, st, pa), A):
                report(ctx, "C07", fn, st, fl, inst, "taking the future invalidates the promise")
        n += 1
    fn = entry(m, P + "_ctor")
    fl, r = explore(ctx, fn)
    for kind, inst, st in r.exits:
        if kind != "ret":
            continue
        s = cell(fl, st, pa)
        if not fl.nonnull(st, s):
            report(ctx, "C07", fn, st, fl, inst, "a new promise has no state")
        else:
            fv = [a for a, c in st.cells.items() if a[0] != "range" and split(a)[0] == ARG0 and a != pa
                  and c[1] == s]
            if not fv:
                report(ctx, "C07", fn, st, fl, inst, "a new promise does not share its state with its future")
            if fl.known(st, cell(fl, st, addr(s, L.flag), L.fsize)) != 0:
                report(ctx, "C07", fn, st, fl, inst, "a new promise is already fulfilled")
            if fl.known(st, cell(fl, st, addr(s, L.exc))) != 0 or fl.known(st, cell(fl, st, addr(s, L.cont))) != 0:
                report(ctx, "C07", fn, st, fl, inst, "a new promise holds an exception or continuation")
    return n + 1


def same(fl, st, a, b):
    if a == b:
        return True
    ka, kb = fl.known(st, a), fl.known(st, b)
    if ka is not None and ka == kb:
        return True
    return fl.known(st, ("icmp", "eq", a, b)) == 1


def takes(ctx, m, L):
    fn = entry(m, "F%s_takeValue" % L.v)
    fa = addr(ARG0, L.fut)
    S = ("mem", fa, 8, 0)
    fl, r = explore(ctx, fn, {S: ("ne", frozenset([0]))})
    mtx = addr(S, L.mutex)
    c = {"ret": 0, "throw": 0}
    for kind, inst, st in r.exits:
        if kind in ("noreturn", "unreachable"):
            continue
        c[kind] += 1
        evs = st.auto
        if fl.known(st, cell(fl, st, fa)) != 0:
            report(ctx, "C07", fn, st, fl, inst, "the future is still valid after its value was taken")
        reads = []
        for n, e in enumerate(evs):
            if e[0].rstrip("!") in ("vp_x_obj_move", "vp_xt_obj_copy"):
                b, o = split(e[2])
                if b == S:
                    reads.append(n)
        rethrown = [n for n, e in enumerate(evs) if e[0].startswith("_ZSt17rethrow")]
        ready = flag_seen(fl, st, L, S)
        exc = exc_seen(fl, st, L, S)
        if kind == "ret":
            if not L.v and len(reads) != 1:
                report(ctx, "C07", fn, st, fl, inst, "takes the value %d times" % len(reads))
            if ready is not True:
                report(ctx, "C07", fn, st, fl, inst, "returns without having seen the result announced")
            if exc is not False:
                report(ctx, "C07", fn, st, fl, inst, "returns a value although an exception may be stored")
            if any(not held_at(evs, n, mtx) for n in reads):
                report(ctx, "C07", fn, st, fl, inst, "reads the value without the lock")
        else:
            if not rethrown:
                report(ctx, "C07", fn, st, fl, inst, "throws something else than the stored exception")
            elif exc is not True or ready is not True:
                report(ctx, "C07", fn, st, fl, inst, "rethrows an exception which is not known to be stored")
            if reads:
                report(ctx, "C07", fn, st, fl, inst, "takes the value and throws")
    if not c["ret"] or not c["throw"]:
        ctx.violate("outcomes@" + fname(fn), fname(fn),
                    "%s never %s" % (fname(fn), "returns" if not c["ret"] else "rethrows the stored exception"))
    return 1


def latest(fl, st, a, size):
    e = fl.load(st.copy(), a, size)
    return e


def flag_seen(fl, st, L, S):
    """truth of the newest value of the flag seen on the path"""
    r = None
    for k, f in st.facts.items():
        for x in mems(k):
            if x[1] == addr(S, L.flag):
                z = fl.known(st, ("icmp", "eq", x, 0))
                if z is not None:
                    ep = x[3]
                    cur = latest(fl, st, addr(S, L.flag), L.fsize)
                    if cur == x:
                        return not z
                    r = (not z) if r is None else (r and not z)
    cur = latest(fl, st, addr(S, L.flag), L.fsize)
    z = fl.known(st, ("icmp", "eq", cur, 0))
    if z is not None:
        return not z
    return r


def exc_seen(fl, st, L, S):
    cur = latest(fl, st, addr(S, L.exc), 8)
    z = fl.known(st, ("icmp", "eq", cur, 0))
    if z is not None:
        return not z
    for k in st.facts:
        for x in mems(k):
            if x[1] == addr(S, L.exc):
                z = fl.known(st, ("icmp", "eq", x, 0))
                if z is not None:
                    return not z
    return None


def waits(ctx, m, L):
    """timed waits report what they saw"""
    n = 0
    for w in ("isReady", "waitFor", "waitUntil"):
        fn = entry(m, "F%s_%s" % (L.v, w))
        S = ("mem", addr(ARG0, L.fut), 8, 0)
        fl, r = explore(ctx, fn, {S: ("ne", frozenset([0]))})
        mtx = addr(S, L.mutex)
        k = 0
        for kind, inst, st in r.exits:
            if kind != "ret":
                continue
            k += 1
            rv = fl.val(st, inst["ops"][0])
            seen = flag_seen(fl, st, L, S)
            kv = fl.known(st, rv)
            if kv is None:
                ok = any(x[1] == addr(S, L.flag) for x in mems(rv)) and not negated(rv)
            else:
                ok = seen is not None and bool(kv) == seen
            if not ok:
                report(ctx, "C07", fn, st, fl, inst, "does not report whether the result is present")
        if not k:
            raise AnalysisError("no exit of %s was reached" % fn.name)
        n += 1
    return n


def negated(e):
    if e[0] == "icmp":
        return e[1] == "eq" and e[3] == 0
    if e[0] == "xor":
        return not negated(e[2]) if isinstance(e[2], tuple) else True
    if e[0] == "cast":
        return isinstance(e[3], tuple) and negated(e[3])
    return False


def runs_(ctx, m, L):
    """continuations: whatever the user's function does, the promise which is
    part of the continuation is fulfilled exactly once"""
    n = 0
    for name, fn in m.fns.items():
        if not re.search(r"Continuation<.*>::run\(\)", fn.dem):
            continue
        void = bool(re.search(r"VCont", fn.dem))
        if void != bool(L.v):
            continue
        n += 1
        r = Rec()
        # the promise: the state whose flag is raised
        fl = Flow(fn, r, init=())
        prom = set()
        for kind, inst, st in r.exits:
            for e in st.auto:
                if e[0] == "st" and split(e[1])[1] == L.flag and is_true(fl, st, e[2]):
                    prom.add(split(e[1])[0])
        prom = {p for p in prom if p[0] == "mem" and split(p[1])[0] == ARG0}
        if len(prom) != 1:
            ctx.violate("continuation@" + fname(fn), fname(fn),
                        "the continuation never fulfils its promise" if not prom else
                        "the continuation fulfils more than one promise")
            continue
        S = prom.pop()
        fl, r = explore(ctx, fn, {S: ("ne", frozenset([0]))})
        c = 0
        kinds = set()
        for kind, inst, st in r.exits:
            if kind in ("noreturn", "unreachable"):
                continue
            c += 1
            sets, k, bad = outcome(fl, st, L, S)
            for b in bad:
                report(ctx, "C07", fn, st, fl, inst, b)
            threw = any(e[0] == "vp_xt_user_call!" for e in st.auto)
            called = sum(1 for e in st.auto if e[0] == "vp_xt_user_call")
            kinds.add(k)
            if kind == "throw":
                report(ctx, "C07", fn, st, fl, inst, "an exception escapes from the continuation")
            elif sets != 1:
                report(ctx, "C07", fn, st, fl, inst, "the promise of the continuation is fulfilled %d times" % sets)
            elif k == "exception" and not any(x[0].endswith("!") or x[0].startswith("_ZSt17rethrow") or
                                              x[0] == "icall" and x[4] == "throw" for x in st.auto):
                report(ctx, "C07", fn, st, fl, inst, "a continuation which returns results in an exception")
            elif k not in ("exception", "broken") and threw:
                report(ctx, "C07", fn, st, fl, inst, "a throwing continuation does not pass on its exception")
            if called + threw != 1:
                report(ctx, "C07", fn, st, fl, inst, "the function of the continuation is called %d times" % (called + threw))
        if not c:
            raise AnalysisError("no exit of %s was reached" % fn.name)
        if not ("exception" in kinds and (("value" in kinds) or ("none" in kinds))):
            ctx.violate("kinds@" + fname(fn), fname(fn), "the continuation passes on only results of kind %s"
                        % ", ".join(sorted(str(k) for k in kinds)))
    if n < 2:
        raise AnalysisError("continuation classes not found")
    return n


def c08(ctx):
    ctx.rule("then(): on every path the new continuation is either kept in the state, under its lock and with "
             "the result flag seen false in the same critical section, or run once and destroyed, with the "
             "flag seen true; the future becomes invalid")
    ctx.rule("operations which announce a result take the continuation out of the state in the critical section "
             "which raises the flag, and after it run it exactly once and then destroy it, if there is one")
    n = 0
    for m in modules(ctx):
        for v in ("", "V"):
            L = layout(ctx, m, v)
            for e in ("F%s_then" % v, "F%s_thenF" % v):
                n += then(ctx, m, L, e)
            for e in SETTERS:
                if e.startswith("PV") == bool(v):
                    n += fires(ctx, m, L, e, ARG0)
            for e in ((("PV_moveAssign",) if v else ("P_moveAssign", "PT_moveAssign"))):
                n += fires(ctx, m, L, e, ARG0)
    ctx.floor("operations which take or run continuations", n, 36)


def then(ctx, m, L, e):
    fn = entry(m, e)
    fa = addr(ARG0, L.fut)
    S = ("mem", fa, 8, 0)
    mtx = addr(S, L.mutex)
    ca = addr(S, L.cont)
    fl, r = explore(ctx, fn, {S: ("ne", frozenset([0]))})
    seen = set()
    for kind, inst, st in r.exits:
        if kind in ("noreturn", "unreachable"):
            continue
        evs = st.auto
        stored = [(n, ev) for n, ev in enumerate(evs) if ev[0] == "st" and ev[1] == ca and ev[2] != 0]
        runs = [(n, ev) for n, ev in enumerate(evs) if ev[0] == "icall" and ev[1] == 2]
        if kind == "throw":
            if stored or runs:
                report(ctx, "C08", fn, st, fl, inst, "throws after the continuation was registered or run")
            if not same(fl, st, cell(fl, st, fa), S):
                report(ctx, "C08", fn, st, fl, inst, "throws after giving up the state of the future")
            continue
        flag = flag_seen(fl, st, L, S)
        if stored and not runs:
            seen.add("kept")
            n, ev = stored[-1]
            if len(stored) != 1 or not held_at(evs, n, mtx):
                report(ctx, "C08", fn, st, fl, inst, "the continuation is not registered exactly once under the lock")
            if flag is not False or sections(evs, mtx) != 1:
                report(ctx, "C08", fn, st, fl, inst,
                       "a continuation is registered although the result may already be announced")
            if any(x[0] == "icall" and x[1] in (0, 1) and x[2] == ev[2] for x in evs):
                report(ctx, "C08", fn, st, fl, inst, "a registered continuation is destroyed")
        elif runs and not stored:
            seen.add("run")
            dele = [(k, x) for k, x in enumerate(evs) if x[0] == "icall" and x[1] == 1 and x[2] == runs[0][1][2]]
            if len(runs) != 1:
                report(ctx, "C08", fn, st, fl, inst, "the continuation is run more than once")
            if flag is not True:
                report(ctx, "C08", fn, st, fl, inst, "the continuation is run before the result is announced")
            if len(dele) != 1 or dele[0][0] < runs[0][0]:
                report(ctx, "C08", fn, st, fl, inst, "the continuation is not destroyed exactly once after it ran")
        else:
            report(ctx, "C08", fn, st, fl, inst, "the continuation is %s"
                   % ("both registered and run" if runs else "neither registered nor run"))
        if fl.known(st, cell(fl, st, fa)) != 0:
            report(ctx, "C08", fn, st, fl, inst, "the future is still valid after then()")
        out = cell(fl, st, addr(ARG1, L.fut))
        if fl.known(st, ("icmp", "eq", out, 0)) != 0 and not mems(out):
            report(ctx, "C08", fn, st, fl, inst, "then() returns a future without state")
    if seen != {"kept", "run"}:
        ctx.violate("then@" + fname(fn), fname(fn), "continuations are only ever %s" % "/".join(sorted(seen)))
    return 1


def epoch_of(evs, mtx):
    e = 0
    for x in evs:
        if x[0] == "vp_x_lock" and x[1] == mtx:
            e = x[-1]
    return e


def named(st, a, epoch):
    """the name of what was loaded from a since the given lock operation"""
    for e in list(st.facts) + list(st.auto):
        for x in mems(e):
            if x[1] == a and (x[3] == epoch or isinstance(x[3], tuple) and epoch in x[3]):
                return x
    return ("mem", a, 8, epoch)


def sections(evs, mtx):
    return sum(1 for x in evs if x[0] == "vp_x_lock" and x[1] == mtx)


def fires(ctx, m, L, e, root):
    fn = entry(m, e)
    S = ("mem", addr(root, L.prom), 8, 0)
    mtx = addr(S, L.mutex)
    ca = addr(S, L.cont)
    flag = addr(S, L.flag)
    fl, r = explore(ctx, fn, {S: ("ne", frozenset([0]))})
    c = 0
    for kind, inst, st in r.exits:
        if kind in ("noreturn", "unreachable"):
            continue
        evs = st.auto
        sets = [n for n, ev in enumerate(evs) if ev[0] == "st" and ev[1] == flag and is_true(fl, st, ev[2])]
        runs = [(n, ev) for n, ev in enumerate(evs) if ev[0] == "icall" and ev[1] == 2]
        if not sets:
            if runs:
                report(ctx, "C08", fn, st, fl, inst, "runs a continuation without announcing a result")
            continue
        c += 1
        n = sets[0]
        end = [(k, x) for k, x in enumerate(evs) if k > n and x[0] == "vp_x_unlock" and x[1] == mtx]
        if not end:
            report(ctx, "C08", fn, st, fl, inst, "announces the result without a critical section")
            continue
        endn, un = end[0]
        C = named(st, ca, epoch_of(evs[:n], mtx))
        null = fl.known(st, ("icmp", "eq", C, 0))
        left = dict(un[2]).get(ca, C)
        if null != 1 and fl.known(st, left) != 0 and not (left == C and null == 1):
            report(ctx, "C08", fn, st, fl, inst, "the continuation stays registered after the result was announced")
        if null is None:
            report(ctx, "C08", fn, st, fl, inst, "does not look for a registered continuation")
        elif null:
            if runs:
                report(ctx, "C08", fn, st, fl, inst, "runs a continuation which does not exist")
        else:
            mine = [k for k, x in runs if x[2] == C]
            dele = [k for k, x in enumerate(evs) if x[0] == "icall" and x[1] == 1 and x[2] == C]
            if len(mine) != 1 or len(runs) != 1:
                report(ctx, "C08", fn, st, fl, inst, "the registered continuation is run %d times" % len(mine))
            elif mine[0] < endn:
                report(ctx, "C08", fn, st, fl, inst, "the continuation is run inside the critical section")
            elif len(dele) != 1 or dele[0] < mine[0]:
                report(ctx, "C08", fn, st, fl, inst, "the continuation is not destroyed exactly once after it ran")
    if not c:
        ctx.violate("fires@" + fname(fn), fname(fn), "no path of %s announces a result" % fname(fn))
    return 1


CHECKS = {"C07": c07, "C08": c08}
