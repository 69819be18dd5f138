"""C09 hand-over through the lock-free primitives."""
from ..flow import Flow, addr, place, split
from ..ir import AnalysisError
from .future import cell, mems, same
from .monitor import fname

ACQ = {"acquire", "acq_rel", "seq_cst"}
REL = {"release", "acq_rel", "seq_cst"}
BOTH = {"acq_rel", "seq_cst"}


class Rec:
    """records memory accesses in order, with what memory contains at each"""

    def __init__(self, privates=("alloca",)):
        self.exits = []
        self.privates = privates

    def private(self, fl, st, base):
        return base[0] in self.privates

    def add(self, st, ev):
        if ev in st.auto:       # the same event in another round of a loop
            return
        st.auto = st.auto + (ev,)
        if len(st.auto) > 80:
            raise AnalysisError("path too long")

    def event(self, fl, st, kind, inst, info):
        if kind in ("load", "store"):
            a, size, v = info
            if split(a)[0][0] == "alloca" and split(a)[0][1] not in fl.escaped:
                return
            ev = (kind, a, v, inst.get("ord"), inst.id)
            if kind == "load":
                # an atomic load may see a different value each time
                if inst.get("ord"):
                    v = ("aload", a, inst.id)
                    for k in [k for k in st.facts if _has(k, v)]:
                        del st.facts[k]
                    st.vals[inst.id] = v
                    ev = (kind, a, v, inst.get("ord"), inst.id)
            self.add(st, ev)
        elif kind == "atomic":
            a, size, v = info
            self.add(st, ("rmw:" + str(inst.get("rmw") or inst.op), a, v, inst.get("ord"),
                          fl.val(st, inst["cmp"]) if inst.op == "cmpxchg" else None, inst.id))
        elif kind in ("memcpy", "memset"):
            self.add(st, (kind, info[0], info[1], info[2], inst.id))
        elif kind in ("call", "throw"):
            name, args = info
            if inst.get("asm"):
                return
            self.add(st, (name + ("!" if kind == "throw" else ""), *args, inst.id))
        elif kind == "fence":
            self.add(st, ("fence", inst.get("ord"), inst.id))

    def exit(self, fl, st, kind, inst):
        self.exits.append((kind, inst, st))


def _has(e, v):
    return isinstance(e, tuple) and (e == v or any(_has(x, v) for x in e))


def explore(ctx, fn, rec=None, facts=None):
    r = rec or Rec()
    fl = Flow(fn, r, init=(), facts=facts)
    ctx.count("functions explored path by path")
    ctx.count("abstract states", fl.nodes)
    if not r.exits:
        raise AnalysisError("no exit of %s was reached" % fn.name)
    return fl, r


def bad(ctx, fn, fl, st, inst, what):
    import re
    ctx.violate("%s@%s" % (re.sub(r"[^A-Za-z]+", "-", what)[:60], fname(fn)),
                place(fl, st, inst), "%s: %s" % (fname(fn), what),
                fl.where(st)[-14:])


def entry(m, n):
    f = m.fns.get("vp_e_" + n)
    if f is None:
        raise AnalysisError("entry %s missing" % n)
    return f


def ticket(ctx, m):
    A0 = ("arg", 0)
    fn = entry(m, "TSL_lock")
    fl, r = explore(ctx, fn)
    serving = nxt = None
    for kind, inst, st in r.exits:
        if kind != "ret":
            bad(ctx, fn, fl, st, inst, "lock() does not return normally")
            continue
        ev = st.auto
        rm = [e for e in ev if e[0].startswith("rmw:") and split(e[1])[0] == A0]
        ld = [e for e in ev if e[0] == "load" and split(e[1])[0] == A0]
        if [e for e in ev if e[0] in ("store", "memcpy", "memset")]:
            bad(ctx, fn, fl, st, inst, "lock() writes with something else than an atomic read-modify-write")
        if len(rm) != 1 or rm[0][0] != "rmw:add" or rm[0][2] != 1:
            bad(ctx, fn, fl, st, inst, "lock() does not draw exactly one ticket")
            continue
        nxt = rm[0][1]
        ticket = ("ret", rm[0][-1])
        ok = [e for e in ld if e[1] != nxt and e[3] in ACQ and same(fl, st, e[2], ticket)]
        if not ok:
            weak = [e for e in ld if e[1] != nxt and same(fl, st, e[2], ticket)]
            bad(ctx, fn, fl, st, inst, "lock() returns without an acquiring load which saw its ticket being served"
                + (" (the load is %s)" % weak[0][3] if weak else ""))
            continue
        serving = ok[0][1]
        ctx.count("returns of lock() under the ticket test")
    if nxt is None:
        if not ctx.violations:
            raise AnalysisError("lock() draws no ticket")
    if nxt is None or serving is None:
        return
    fn = entry(m, "TSL_unlock")
    fl, r = explore(ctx, fn)
    for kind, inst, st in r.exits:
        ev = [e for e in st.auto if e[0] in ("store", "memcpy", "memset", "fence") or e[0].startswith("rmw:")]
        if len(ev) != 1 or ev[0][1] != serving:
            bad(ctx, fn, fl, st, inst, "unlock() does not write exactly the counter being served")
            continue
        e = ev[0]
        if e[3] not in REL:
            bad(ctx, fn, fl, st, inst, "unlock() does not release what was written under the lock (%s)" % e[3])
        ld = [x for x in st.auto if x[0] == "load" and x[1] == serving]
        inc = e[0] == "rmw:add" and e[2] == 1 or e[0] == "store" and ld and isinstance(e[2], tuple) \
            and e[2][0] == "add" and e[2][2] == ld[-1][2] and e[2][3] == 1
        if not inc:
            bad(ctx, fn, fl, st, inst, "unlock() does not serve the next ticket")
        ctx.count("unlock paths")
    fn = entry(m, "TSL_ctor")
    fl, r = explore(ctx, fn)
    for kind, inst, st in r.exits:
        if kind != "ret":
            continue
        a, b = cell(fl, st, serving), cell(fl, st, nxt)
        if not same(fl, st, a, b):
            bad(ctx, fn, fl, st, inst, "a new lock does not serve the first ticket it hands out")
        ctx.count("constructor paths")


def queue(ctx, m):
    A0, A1 = ("arg", 0), ("arg", 1)
    # --- push
    fn = entry(m, "Q_push")
    fl, r = explore(ctx, fn)
    tail = noff = None
    for kind, inst, st in r.exits:
        if kind in ("noreturn", "unreachable"):
            continue
        ev = st.auto
        w = [e for e in ev if e[0] in ("store", "memcpy", "memset", "fence") or e[0].startswith("rmw:")
             or e[0] == "cmpxchg"]
        x = [n for n, e in enumerate(ev) if e[0] == "rmw:xchg" and split(e[1])[0] == A0]
        if len(x) != 1 or ev[x[0]][2] != A1:
            bad(ctx, fn, fl, st, inst, "push() does not swap the new node in for the tail exactly once")
            continue
        n = x[0]
        old = ("ret", ev[n][-1])
        if ev[n][3] not in BOTH:
            bad(ctx, fn, fl, st, inst, "the exchange of the tail is %s: the initialisation of the nodes is not "
                "ordered between producers" % ev[n][3])
        tail = ev[n][1]
        links = [(k, e) for k, e in enumerate(ev) if e[0] == "store" and split(e[1])[0] == old]
        if len(links) != 1 or links[0][1][2] != A1 or links[0][0] < n:
            bad(ctx, fn, fl, st, inst, "push() does not link the new node behind the previous tail")
            continue
        noff = split(links[0][1][1])[1]
        if links[0][1][3] not in REL:
            bad(ctx, fn, fl, st, inst, "the new node is linked by a %s store: its contents are not published"
                % (links[0][1][3] or "non-atomic"))
        for k, e in enumerate(ev):
            if k > n and e[0] in ("load", "store", "memcpy", "memset") and split(e[1])[0] == A1:
                bad(ctx, fn, fl, st, inst, "push() still uses the node after handing it over")
            if e[0].startswith(("free", "_Zd", "vp_x_obj")):
                bad(ctx, fn, fl, st, inst, "push() destroys a node or an element")
        if kind == "throw":
            bad(ctx, fn, fl, st, inst, "push() throws")
        for e in ev:
            if e[0] == "store" and split(e[1])[0] == A0:
                bad(ctx, fn, fl, st, inst, "push() writes to the queue besides the tail")
        # the node's own link has to be null
        nx = [e for e in ev[:n] if e[0] == "store" and e[1] == addr(A1, noff)]
        if nx and nx[-1][2] != 0:
            bad(ctx, fn, fl, st, inst, "push() appends a node which is already linked")
        ctx.count("push paths")
    if tail is None or noff is None:
        return
    # --- constructor
    fn = entry(m, "Q_ctor")
    fl, r = explore(ctx, fn, Rec(("arg", "alloca", "mem", "new", "ret")))
    head = None
    for kind, inst, st in r.exits:
        if kind != "ret":
            continue
        t = cell(fl, st, tail)
        same_ = [a for a, c in st.cells.items() if a[0] != "range" and split(a)[0] == A0 and a != tail
                 and c[1] == t]
        if len(same_) != 1 or not isinstance(t, tuple):
            bad(ctx, fn, fl, st, inst, "head and tail of a new queue are not the same node")
            continue
        head = same_[0]
        if fl.known(st, cell(fl, st, addr(t, noff))) != 0:
            bad(ctx, fn, fl, st, inst, "the dummy node of a new queue has a successor")
        ctx.count("constructor paths")
    if head is None:
        return
    # --- pop
    fn = entry(m, "Q_pop")
    fl, r = explore(ctx, fn)
    data = None
    some = {"null": 0, "node": 0}
    for kind, inst, st in r.exits:
        if kind in ("noreturn", "unreachable"):
            continue
        if kind != "ret":
            bad(ctx, fn, fl, st, inst, "pop() throws")
            continue
        ev = st.auto
        hl = [e for e in ev if e[0] == "load" and e[1] == head]
        if not hl:
            bad(ctx, fn, fl, st, inst, "pop() does not look at the head")
            continue
        h = hl[0][2]
        nl = [e for e in ev if e[0] == "load" and e[1] == addr(h, noff)]
        w = [e for e in ev if e[0] in ("store", "memcpy", "memset") or e[0].startswith("rmw:")]
        if not nl:
            bad(ctx, fn, fl, st, inst, "pop() does not look at the successor of the head")
            continue
        nx = nl[-1][2]
        rv = fl.val(st, inst["ops"][0])
        if fl.known(st, rv) == 0:
            some["null"] += 1
            if not any(fl.known(st, e[2]) == 0 for e in nl):
                bad(ctx, fn, fl, st, inst, "pop() reports an empty queue without having seen that the head has no successor")
            if w or [e for e in ev if e[0].startswith("vp_x_obj")]:
                bad(ctx, fn, fl, st, inst, "pop() changes a queue which it reports as empty")
            continue
        some["node"] += 1
        if not same(fl, st, rv, h):
            bad(ctx, fn, fl, st, inst, "pop() does not return the old head")
        if not fl.nonnull(st, nx):
            bad(ctx, fn, fl, st, inst, "pop() removes a head without successor")
        acq = [e for e in nl if e[3] in ACQ and e[2] == nx]
        if not acq:
            bad(ctx, fn, fl, st, inst, "the successor is read by a %s load: the contents of the node are not acquired"
                % (nl[-1][3] or "non-atomic"))
        mv = [(k, e) for k, e in enumerate(ev) if e[0].startswith(("vp_x_obj", "vp_xt_obj"))]
        good = [k for k, e in mv if e[0] in ("vp_x_obj_move_assign",) and split(e[1])[0] == h
                and split(e[2])[0] == nx and split(e[1])[1] == split(e[2])[1]]
        if len(good) != 1 or len(mv) != 1:
            bad(ctx, fn, fl, st, inst, "the element of the successor is not moved into the node that is returned")
        hs = [e for e in ev if e[0] == "store" and split(e[1])[0] == A0]
        if len(hs) != 1 or hs[0][1] != head or hs[0][2] != nx:
            bad(ctx, fn, fl, st, inst, "pop() does not make the successor the new head")
        ns = [e for e in ev if e[0] == "store" and e[1] == addr(h, noff)]
        if len(ns) != 1 or ns[0][2] != 0:
            bad(ctx, fn, fl, st, inst, "the node returned by pop() is still linked")
        for e in w:
            if split(e[1])[0] not in (A0, h):
                bad(ctx, fn, fl, st, inst, "pop() writes to a node which it does not return")
        ctx.count("pop paths")
    if min(some.values()) < 1:
        raise AnalysisError("pop() has no path which returns %s" % [k for k in some if not some[k]])
    # --- empty
    fn = entry(m, "Q_empty")
    fl, r = explore(ctx, fn)
    for kind, inst, st in r.exits:
        if kind != "ret":
            continue
        ev = st.auto
        rv = fl.val(st, inst["ops"][0])
        hl = [e for e in ev if e[0] == "load" and e[1] == head]
        nl = [e for e in ev if hl and e[0] == "load" and e[1] == addr(hl[0][2], noff)]
        if [e for e in ev if e[0] == "store" or e[0].startswith("rmw:")]:
            bad(ctx, fn, fl, st, inst, "empty() writes")
        k = fl.known(st, rv)
        ok = nl and (rv == ("icmp", "eq", nl[-1][2], 0)
                     or k is not None and fl.known(st, ("icmp", "eq", nl[-1][2], 0)) == k & 1)
        if not ok:
            bad(ctx, fn, fl, st, inst, "empty() does not report whether the head has a successor")
        ctx.count("empty paths")
    # --- destructor
    fn = entry(m, "Q_dtor")
    fl, r = explore(ctx, fn)
    for kind, inst, st in r.exits:
        if kind != "ret":
            continue
        ev = st.auto
        hl = [e for e in ev if e[0] == "load" and e[1] == head]
        fr = [e[1] for e in ev if e[0] == "free"]
        last = hl[-1][2] if hl else None
        if last is None or last not in fr or fl.known(st, last) == 0:
            if not (last is not None and fl.known(st, last) == 0):
                bad(ctx, fn, fl, st, inst, "the destructor does not free the last node")
        nl = [e for e in ev if e[0] == "load" and split(e[1])[1] == noff and fl.known(st, e[2]) == 0]
        if not nl:
            bad(ctx, fn, fl, st, inst, "the destructor stops before the queue is empty")
        for e in ev:
            if e[0] == "free" and not [x for x in ev if x[0] == "vp_x_obj_dtor" and split(x[1])[0] == e[1]]:
                bad(ctx, fn, fl, st, inst, "a node is freed without destroying its element")
        ctx.count("destructor paths")


RMW = {"exchange": ("rmw:xchg", "m"), "fetchSetAll": ("rmw:xchg", -1), "fetchUnsetAll": ("rmw:xchg", 0),
       "fetchSet": ("rmw:or", "m"), "fetchUnset": ("rmw:and", "~m"), "fetchToggle": ("rmw:xor", "m")}
LLORD = {"relaxed": "monotonic", "": "seq_cst"}


def flags(ctx, m):
    A0 = ("arg", 0)
    n = 0
    for name, fn in sorted(m.fns.items()):
        if not name.startswith("vp_e_"):
            continue
        op, _, order = name[5:].partition("_")
        order = LLORD.get(order, order)
        fl, r = explore(ctx, fn)
        n += 1
        for kind, inst, st in r.exits:
            if kind != "ret":
                bad(ctx, fn, fl, st, inst, "does not return")
                continue
            ev = [e for e in st.auto if split(e[1])[0] == A0]
            if len(ev) != 1 or ev[0][3] is None:
                bad(ctx, fn, fl, st, inst, "does not access the flags in exactly one atomic step")
                continue
            e = ev[0]
            if e[3] != order:
                bad(ctx, fn, fl, st, inst, "uses memory order %s instead of %s" % (e[3], order))
            rv = fl.val(st, inst["ops"][0]) if inst.get("ops") else None
            M = ("arg", 1)
            if op == "load":
                ok = e[0] == "load" and rv == e[2]
            elif op in ("any", "none", "all"):
                w = 32
                a = {("and", w, e[2], M), ("and", w, M, e[2])}
                want = set()
                for x in a:
                    for q in ((x, 0) if op != "all" else (x, M), (0, x) if op != "all" else (M, x)):
                        want.add(("icmp", "ne" if op == "any" else "eq", *q))
                k = fl.known(st, rv)
                ok = e[0] == "load" and (rv in want or k is not None and any(
                    fl.known(st, x) == (k & 1) for x in want))
            elif op in ("store", "setAll", "unsetAll"):
                ok = e[0] == "store" and e[2] == {"store": M, "setAll": -1, "unsetAll": 0}[op]
            elif op in RMW:
                o, v = RMW[op]
                v = {"m": {M}, "~m": {("xor", 32, M, -1)}}.get(v, {v})
                ok = e[0] == o and e[2] in v and rv == ("ret", e[-1])
            else:   # compare and exchange
                i = fn.insts[e[-1]]
                ok = e[0] == "rmw:cmpxchg" and e[2] == ("arg", 2)
                if ok:
                    cmp_ = [x for x in st.auto if x[0] == "load" and x[1] == ("arg", 1)]
                    ok = bool(cmp_) and e[4] == cmp_[0][2]
                    weak = op.startswith("casW")
                    if bool(i.get("weak")) and not weak:
                        bad(ctx, fn, fl, st, inst, "the strong compare-and-exchange may fail spuriously")
                    if "2" in op and i.get("ordf") != "monotonic":
                        bad(ctx, fn, fl, st, inst, "ignores the memory order for failure")
                    suc = ("xv", 1, ("ret", e[-1]))
                    old = ("xv", 0, ("ret", e[-1]))
                    w = [x for x in st.auto if x[0] == "store" and split(x[1])[0] == ("arg", 1)]
                    k = fl.known(st, suc)
                    if k is None:
                        ok = False
                    elif k:
                        ok = ok and not [x for x in w if x[2] != (cmp_[0][2] if cmp_ else None)] \
                            and (fl.known(st, rv) or 0) & 1 == 1
                    else:
                        ok = ok and len(w) == 1 and w[0][2] == old and fl.known(st, rv) == 0
            if not ok:
                bad(ctx, fn, fl, st, inst, "does not do what %s is for in one atomic step" % op)
    ctx.count("operations on atomic flags", n)
    ctx.floor("operations on atomic flags", n, 100)


def c09(ctx):
    ctx.rule("lock() returns only after an acquire load which saw the ticket it drew with one atomic "
             "increment; unlock() publishes the next ticket with release order")
    ctx.rule("push() publishes the node by exactly one acq_rel exchange of the tail and one release store "
             "of the link and does not touch it afterwards; pop() takes a node only through an acquire load "
             "of the link, moves its element out, unlinks it and leaves the queue unchanged otherwise")
    ctx.rule("every operation on atomic flags is one atomic access with the requested memory order")
    ctx.assume("at most one thread at a time consumes from the queue")
    for m in ctx.modules(["lockfree.cpp"]):
        ticket(ctx, m)
        queue(ctx, m)
    for m in ctx.modules(["atomicflags.cpp"], defs=(("NDEBUG",),)):
        flags(ctx, m)
    for k, f in (("returns of lock() under the ticket test", 2), ("unlock paths", 2), ("push paths", 2),
                 ("pop paths", 2), ("destructor paths", 2), ("empty paths", 2)):
        if not ctx.violations:
            ctx.floor(k, ctx.counts.get(k, 0), f)


CHECKS = {"C09": c09}
