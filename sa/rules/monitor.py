"""C01-C05: lock-protected objects, wake-ups, callbacks, threads."""
import re
from collections import defaultdict

from .. import conc, wake
from ..ir import AnalysisError

MONITORS = ["latch.cpp", "simplewait.cpp", "idpool.cpp", "resmap.cpp", "future.cpp",
            "timeouts.cpp", "nostart.cpp", "threadpool.cpp", "eventloop.cpp", "objtree.cpp",
            "circbuf.cpp"]

_cache = {}


def runs(ctx, drivers=MONITORS):
    """[(module, [LockRun])] for both assertion configurations"""
    out = []
    for m in ctx.modules(drivers, vtables=True):
        rs = []
        for n, f in m.fns.items():
            rs.append(conc.LockRun(f))
        out.append((m, rs))
    return out


def short(cls):
    return re.sub(r"sharemind::", "", cls)


def base(cls):
    """class name without template arguments"""
    r = []
    d = 0
    for ch in short(cls):
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            r.append(ch)
    return "".join(r)


def fname(fn):
    return fn.name[5:] if fn.name.startswith("vp_e_") else re.sub(r"\(.*", "", fn.dem)[:120]


def c01(ctx):
    ctx.rule("lockset: for every class that owns a lock, each non-atomic member which any entry "
             "point writes after construction has one lock of the same object held at every access "
             "on every path (constructor, destructor and unpublished objects exempt)")
    guarded_classes = set()
    for m, rs in runs(ctx):
        G = defaultdict(list)
        for r in rs:
            for cls, mem, mt, kind, held, ev in conc.guarded_accesses(r, m.types):
                G[(cls, mem)].append((kind, held, r, ev))
                ctx.count("accesses to members of lock-owning classes")
        for (cls, mem), v in sorted(G.items()):
            if not any(x[0] == "w" for x in v):
                ctx.count("members only read after construction")
                continue
            common = frozenset.intersection(*[x[1] for x in v])
            if common:
                guarded_classes.add(base(cls))
                ctx.count("guarded members")
                ctx.sample("%s::%s guarded by %s at %d accesses in %d entry points" % (
                    base(cls), mem, "/".join(sorted(common)), len(v), len({x[2].fn.name for x in v})))
                continue
            locks = defaultdict(int)
            for x in v:
                for l in x[1]:
                    locks[l] += 1
            best = max(locks, key=lambda l: locks[l]) if locks else None
            for kind, held, r, ev in v:
                if best is None or best not in held:
                    ctx.violate("%s::%s@%s" % (base(cls), mem, fname(r.fn)), ev.where(),
                                "%s of %s::%s in %s without %s, while %s" % (
                                    "write" if kind == "w" else "read", base(cls), mem, fname(r.fn),
                                    best or "any lock",
                                    "%d of %d other accesses hold it" % (locks[best], len(v))
                                    if best else "the member is written after construction"))
        # container nodes reachable from guarded members
    for c in ("Latch", "SimpleWait", "IdentifierPool::State", "SharedResourceMap::Inner",
              "Detail::Future::SharedState", "TimeoutsThread", "ThreadPool",
              "ParticipatoryThreadPool", "Strand::Internal", "ObjectTree::ParentNode",
              "CircBufferScspLocking"):
        ctx.floor("lock-owning class with guarded members: " + c,
                  int(any(g.endswith(c) for g in guarded_classes)), 1)


PROBLEM_TEXT = {"relock": "self-deadlock", "unlock": "unlock of a lock not held",
                "wait": "wait without the lock", "leak": "lock leaked"}


def c02(ctx):
    ctx.rule("lock typestate on every path, exceptional ones included: no acquire of a held lock, "
             "no release of a lock not held, no wait without the lock, no exit with a lock held")
    n = 0
    per = defaultdict(int)
    for m, rs in runs(ctx):
        for r in rs:
            for ev in r.events.values():
                if ev.kind in ("lock", "wait"):
                    n += 1
                    per[m.driver] += 1
            for kind, inst, msg, trace in r.problems:
                ctx.violate("%s@%s@%s" % (kind, fname(r.fn), re.sub(r"^(arg|local|v)\d+", "", msg)),
                            inst.where(), "%s in %s: %s" % (PROBLEM_TEXT[kind], fname(r.fn), msg), trace)
    ctx.count("lock and wait events", n)
    for d in MONITORS:
        if d != "nostart.cpp":
            ctx.floor("lock events in " + d, per[d], 1)


def c03(ctx):
    ctx.rule("wait predicates are discovered from what every path tests before waiting on a condition "
             "variable; then on every path (a) a store which can make such a predicate true is followed "
             "or preceded in the same critical section by a notification of that condition variable "
             "(notify_all unless each waiter consumes what it waited for), (b) a wait is preceded by a "
             "test under the lock, (c) followed by another test, and (d) the critical section is left "
             "after a wait only with the predicate established")
    waits = defaultdict(int)
    needs = defaultdict(int)
    mods = ctx.modules(MONITORS, vtables=True)
    events = defaultdict(set)
    for m in mods:
        for f in m.fns.values():
            for i in f.all_insts():
                if i.is_call() and (i.callee() in conc.WAITS or i.callee() in conc.NOTIFY):
                    events[(m.driver, m.config == "default")].add((i.callee(), i.where()))
    for d in MONITORS:
        for c, w in sorted(events[(d, True)] - events[(d, False)]):
            ctx.violate("assert-only@%s@%s" % (c, w), w, "%s happens only when assertions are enabled" % c)
    # paths on which an assertion fails are not paths of the program
    for m in mods:
        if m.config == "default":
            first = [wake.WakeRun(f, m.types) for f in m.fns.values()]
            spec = wake.discover(first)
            tested = defaultdict(dict)
            for r in first:
                for (iid, k, fm, names), inst in r.waits.items():
                    if k:
                        tested[k].setdefault((fname(r.fn), inst.where()), []).append(
                            {x.split(".")[0] for n in names for x in n.split("|")})
            for r in first:
                for iid, (k, mems) in r.announced.items():
                    ws = tested.get(k)
                    if not ws or not mems:
                        continue
                    seen = set.union(*[x for l in ws.values() for x in l]) & mems
                    ctx.count("state changes announced by notify_all")
                    if not seen:
                        inst = r.fn.insts[iid]
                        ctx.violate("announce@%s@%s" % (base(k[0]), fname(r.fn)), inst.where(),
                                    "%s changes %s and wakes all threads waiting on %s, but none of them "
                                    "tests it" % (fname(r.fn), ", ".join(sorted(mems)), k[1]))
                    for (wf, ww), l in ws.items():
                        for x in l:
                            for mem in seen - x:
                                ctx.violate("announce@%s::%s@%s" % (base(k[0]), mem, wf), ww,
                                            "%s waits on %s without testing %s, which is announced to all "
                                            "waiting threads in %s" % (wf, k[1], mem, fname(r.fn)))
            for (cls, cv), preds in sorted(spec.items()):
                for n, (u, mode) in preds.items():
                    ctx.count("discovered wait predicates")
                    ctx.sample("%s::%s waits on %s while it is %s, needs notify_%s()" % (
                        base(cls), cv, n, {"z": "zero", "nz": "non-zero", "eq": "equal"}.get(u, "unready"),
                        mode))
            for f in m.fns.values():
                r = wake.WakeRun(f, m.types, spec)
                for (iid, k, fm, names) in r.waits:
                    waits[base(k[0]) if k else m.driver] += 1
                    ctx.count("wait states analysed")
                for inst, cv, mem, mode in r.needs:
                    needs[base(cv[0])] += 1
                    ctx.count("predicate-enabling stores and calls")
                for (kind, where, msg), (inst, trace) in r.problems.items():
                    ctx.violate("%s@%s@%s" % (kind, fname(f), msg[:80]), where,
                                "%s: in %s %s" % (kind, fname(f), msg), trace)
    from .tasks import waits_end
    ctx.rule("latches, simple waits and the joining of participants: at each return the value last seen under the "
             "lock says that what was waited for holds")
    waits_end(ctx)
    for c in ("Latch", "SimpleWait", "SharedResourceMap::Inner", "Detail::Future::SharedState",
              "TimeoutsThread", "ThreadPool", "ParticipatoryThreadPool", "Strand::Internal",
              "CircBufferScspLocking"):
        ctx.floor("waits in " + c, waits.get(c, 0), 1)
        ctx.floor("predicate-enabling stores in " + c, needs.get(c, 0), 1)


CHECKS = {"C01": c01, "C02": c02, "C03": c03}
