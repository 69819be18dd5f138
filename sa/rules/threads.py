"""C04 callbacks and locks, C05 thread life cycle, C06 destruction after a wait."""
import re
from collections import defaultdict

from .. import conc
from ..ir import Sim, is_id
from .monitor import base, fname, runs

DESTROY = re.compile(r"default_delete|_M_dispose|_M_destroy|_M_release|::~|^~")
CALLBACK_DRIVERS = ["threadpool.cpp", "timeouts.cpp", "future.cpp", "nostart.cpp"]
USER = ("vp_xt_user_call", "vp_x_user_call")


def destroying(inst):
    return any(DESTROY.search(s) for _, _, s in inst.locs()[:4])


def c04(ctx):
    ctx.rule("lockset at every call of user code (call of a user functor, or indirect call which is not "
             "the destruction of an object) in the thread pools, strands, timeout threads, futures, "
             "promises, packaged tasks and delayed-start threads is empty on every path")
    n = defaultdict(int)
    for m, rs in runs(ctx, CALLBACK_DRIVERS):
        for r in rs:
            for ev in r.events.values():
                if ev.kind != "call" or ev.inst.get("intr"):
                    continue
                c = ev.inst.callee()
                if c not in USER and c is not None:
                    continue
                if c is None and destroying(ev.inst):
                    ctx.count("destructions not considered callbacks")
                    continue
                ctx.count("callback call states")
                n[m.driver] += 1
                ctx.sample("%s in %s" % (ev.where(), fname(r.fn)))
                if ev.held:
                    ctx.violate("callback@%s@%s" % (fname(r.fn), re.sub(r":\d+", "", ev.where())), ev.where(),
                                "%s calls user code while holding %s" % (
                                    fname(r.fn), ", ".join(sorted(r.fn.describe(p) for p in ev.held))))
    for d in CALLBACK_DRIVERS:
        ctx.floor("callbacks called in " + d, n[d], 1)


def scopes(inst):
    return [s for _, _, s in inst.locs()]


def join_scopes(fn, joins):
    """library functions which contain the joins"""
    r = set()
    for i in joins:
        for f, l, s in i.locs():
            if "/sharemind/" in f or "/repo/src/" in f:
                r.add(s)
                break
    return r


# (driver, function name regex, class, join primitive, signal kinds)
SIGNALS = conc.NOTIFY | {"close"}
DTORS = [
    ("timeouts.cpp", r"^vp_e_TT_dtor$", "TimeoutsThread", "vp_x_thread_join"),
    ("threadpool.cpp", r"^_ZN9sharemind16SimpleThreadPoolD2Ev$|^vp_e_STP_dtor$|SimpleThreadPoolD[12]Ev",
     "SimpleThreadPool", "vp_x_thread_join"),
    ("eventloop.cpp", r"^vp_e_STEL_dtor$", "SingleThreadEventLoop", "vp_x_thread_join"),
    ("nostart.cpp", r"^vp_e_N_dtor$", "NoStartThread", "vp_x_thread_join"),
    ("threadpool.cpp", r"ParticipatoryThreadPoolD[12]Ev$|^vp_e_PTP_dtor$", "ParticipatoryThreadPool",
     "vp_x_cv_wait"),
]
CTORS = [
    ("timeouts.cpp", r"^vp_e_TT_ctor$", "TimeoutsThread"),
    ("threadpool.cpp", r"^vp_e_STP_ctor$", "SimpleThreadPool"),
    ("eventloop.cpp", r"^vp_e_STEL_ctorH?$", "SingleThreadEventLoop"),
    ("nostart.cpp", r"^vp_e_N_ctorF?$", "NoStartThread"),
]


def c05(ctx):
    ctx.rule("destructors of thread-owning classes: a stop signal (notification or closing the stop pipe) "
             "precedes the join on some path and no first signal follows it; every member is still "
             "alive at the join; no path destroys a joinable std::thread")
    ctx.rule("constructors: after the thread has been started nothing but the thread handle is written "
             "without a lock, and no exceptional exit leaves the started thread unjoined")
    ctx.assume("a started thread terminates once it has been signalled (termination of user code is "
               "not analysed)")
    drivers = sorted({d[0] for d in DTORS} | {d[0] for d in CTORS})
    seen = defaultdict(int)
    for m in ctx.modules(drivers, vtables=True):
        for drv, rx, cls, prim in DTORS:
            if drv != m.driver:
                continue
            for f in m.fns.values():
                if not re.search(rx, f.name):
                    continue
                joins = [i for i in f.all_insts() if i.is_call() and i.callee() == prim]
                if not joins and len(f.insts) < 12:
                    continue  # forwards to the real one
                seen[cls] += 1
                ctx.count("destructors analysed")
                check_dtor(ctx, f, cls, prim, joins)
        for drv, rx, cls in CTORS:
            if drv != m.driver:
                continue
            for f in m.fns.values():
                if re.search(rx, f.name):
                    seen[cls + " ctor"] += 1
                    check_ctor(ctx, f, cls)
    for _, _, cls, _ in DTORS:
        ctx.floor("destructor of " + cls, seen[cls], 1)
    for _, _, cls in CTORS:
        ctx.floor("constructor of " + cls, seen[cls + " ctor"], 1)


def this_field(fn, ptr):
    """path with the object as root and no indirection"""
    p = fn.path(ptr)
    if fn.arg_list and p[0] == ("arg", fn.arg_list[0]["id"]) and len(p[1]) == 1:
        return p
    return None


def check_dtor(ctx, f, cls, prim, joins):
    where = next((i.where() for i in f.all_insts() if "sharemind" in i.where() or i.where().startswith("src/")), f.name)
    def kills(i):
        return i.is_call() and i.callee() == "_ZSt9terminatev" and any(
            "std::thread::~thread" in s or "std::thread::operator=" in s for s in scopes(i)) \
            and not any("std::_Destroy" in s for s in scopes(i))
    if not joins:
        ctx.violate("nojoin@%s" % cls, where, "the destructor of %s does not wait for its thread(s)" % cls)
        return
    sig = [i for i in f.all_insts() if i.is_call() and i.callee() in SIGNALS]
    R = f.reach

    def before(a, b):
        return a.block == b.block and a.pos < b.pos or b.block in R[a.block]
    ok = [s for s in sig if any(before(s, j) for j in joins)]
    ctx.count("stop signals before a join", len(ok))
    if not ok:
        ctx.violate("nosignal@%s" % cls, joins[0].where(),
                    "the destructor of %s waits for its thread(s) without having signalled them to stop" % cls)
    js = join_scopes(f, joins)

    # path-sensitive: members destroyed before the join
    def tr(inst, joined):
        if joined:
            return (joined,)
        if kills(inst):
            ctx.violate("joinable@%s" % cls, inst.where(),
                        "a path in the destructor of %s destroys a joinable thread" % cls)
        if any(s in js for s in scopes(inst)) and not all("::~" in s for s in js):
            if inst.is_call() and inst.callee() == prim:
                return (True,)
        if inst.is_call() and inst.callee() == prim:
            return (True,)
        bad = None
        if inst.op in ("load", "store"):
            p = this_field(f, inst["ptr"])
            bad = p
        elif inst.is_call() and not inst.get("intr") and inst.callee() not in conc.LOCKS:
            for o, _ in conc.call_ptr_args(inst):
                if o in f.insts and f.insts[o].get("ty") != "ptr":
                    continue
                bad = bad or this_field(f, o)
        if bad is not None and prim == "vp_x_thread_join":
            for s in scopes(inst):
                mm = re.search(r"::~(\w+)", s)
                if mm and not re.search(r"lock_guard|unique_lock|scoped_lock", s):
                    if mm.group(1) != cls:
                        return ("early", inst.id),
                    break
        return (joined,)
    early = []

    def ex(op, inst, st):
        pass

    def tr2(inst, st):
        if isinstance(st, tuple):
            if inst.is_call() and inst.callee() == prim:
                early.append((f.insts[st[1]], inst))
                return (True,)
            return (st,)
        return tr(inst, st)
    Sim(f, False, tr2, ex)
    for i, j in early:
        ctx.violate("early@%s@%s" % (cls, i.locs()[0][2] if i.locs() else ""), i.where(),
                    "the destructor of %s destroys a member before it waits for the thread at %s" % (
                        cls, j.where()))


def check_ctor(ctx, f, cls):
    starts = [i for i in f.all_insts() if i.is_call() and i.callee() == "vp_xt_thread_start"]
    if not starts:
        ctx.violate("nostart@%s" % cls, f.name, "the constructor of %s does not start a thread" % cls)
        return
    ctx.count("thread starts", len(starts))
    joins = [i for i in f.all_insts() if i.is_call() and i.callee() == "vp_x_thread_join"]
    js = join_scopes(f, joins)

    def tr(inst, st):
        running, held = st
        if inst.is_call():
            c = inst.callee()
            if c == "vp_xt_thread_start":
                return ((True, held),)
            if c == "vp_x_lock":
                return ((running, held + 1),)
            if c == "vp_x_unlock":
                return ((running, held - 1),)
            if c == "vp_x_thread_join":
                return ((False, held),)
        if running and js and any(s in js for s in scopes(inst)):
            return ((False, held),)
        if running and not held and inst.op == "store":
            p = this_field(f, inst["ptr"])
            if p is not None:
                ch = f.fields(p)
                tn = [f.types.name(c[2]) for c in ch]
                ctx.count("stores after a thread start")
                if not any("std::thread" in t for t in tn):
                    ctx.violate("late@%s@%s" % (cls, ch[0][1] if ch else p[1]), inst.where(),
                                "the constructor of %s writes %s after the thread which uses it has been "
                                "started" % (cls, f.describe(p)))
        return (st,)

    def unw(inst, st):
        # a failed start has not started anything
        if inst.callee() == "vp_xt_thread_start":
            return st
        r = tr(inst, st)
        return r[0]

    def ex(op, inst, st):
        ctx.count("constructor exits")
        if op == "resume" and st[0]:
            ctx.violate("leak@%s" % cls, inst.where(),
                        "the constructor of %s fails without waiting for a thread it has started" % cls)
    Sim(f, (False, 0), tr, ex, transfer_unwind=unw)


# classes whose objects may be destroyed as soon as a wait on them has returned
AFTER_WAIT = [("latch.cpp", r"^vp_e_", "Latch"), ("simplewait.cpp", r"^vp_e_", "SimpleWait"),
       ("threadpool.cpp", r".", "ParticipatoryThreadPool"), ("threadpool.cpp", r".", "Strand::Internal")]


def c06(ctx):
    ctx.rule("in every function which notifies a condition variable of a latch, wait object, "
             "participatory pool or strand: the notification happens with the object's lock held and "
             "nothing of the object is accessed after that lock has been released")
    n = defaultdict(int)
    for m, rs in runs(ctx, sorted({c[0] for c in AFTER_WAIT})):
        F = {}
        for drv, rx, cls in AFTER_WAIT:
            if drv != m.driver:
                continue
            for r in rs:
                f = r.fn
                if not re.search(rx, f.name) or conc.dtor_like(f):
                    continue
                sites = {}
                for ev in r.events.values():
                    if ev.kind == "notify":
                        ch = f.fields(ev.path)
                        if not any(base(c[0]) == cls for c in ch):
                            continue
                        n[cls] += 1
                        ctx.count("notifications analysed")
                        root, offs = ev.path
                        obj = (root, offs[:-1])
                        off = next((c[3] for c in ch if base(c[0]) == cls), None)
                        mine = [p for p in ev.held if (p[0], p[1][:-1]) == obj]
                        if not mine:
                            ctx.violate("unlocked-notify@%s@%s" % (cls, fname(f)), ev.where(),
                                        "%s notifies after releasing the lock: the waiting thread may "
                                        "already have destroyed the object" % fname(f))
                        sites[ev.inst.id] = (obj, frozenset(mine))
                if sites:
                    after(ctx, f, cls, sites)
    for _, _, cls in AFTER_WAIT:
        ctx.floor("notifications in " + cls, n[cls], 1)


def after(ctx, f, cls, sites):
    def acc(inst):
        if inst.op in ("load", "store", "atomicrmw", "cmpxchg"):
            yield f.path(inst["ptr"])
        elif inst.is_call() and not inst.get("intr"):
            for o, _ in conc.call_ptr_args(inst):
                if o in f.insts and f.insts[o].get("ty") != "ptr":
                    continue
                yield f.path(o)

    def tr(inst, st):
        phase, obj = st
        if inst.is_call():
            if inst.id in sites and phase != "released":
                return (("notified", sites[inst.id][0]),)
            if phase == "notified" and inst.callee() == "vp_x_unlock":
                p = f.path(inst["ops"][0])
                if (p[0], p[1][:-1]) == obj:
                    return (("released", obj),)
        if phase == "released":
            for p in acc(inst):
                # through any number of further indirections
                if p[0] == obj[0] and p[1][:len(obj[1])] == obj[1] and len(p[1]) > len(obj[1]):
                    ctx.violate("touch@%s@%s" % (cls, fname(f)), inst.where(),
                                "%s accesses %s after it has notified and released the lock: the "
                                "waiting thread may already have destroyed it" % (fname(f), f.describe(p)))
        return (st,)
    Sim(f, ("none", None), tr)


CHECKS = {"C04": c04, "C05": c05, "C06": c06}
