"""Wake-up discipline of condition variables.

One path-sensitive pass per function which tracks, for the members of objects
that own a lock: the value last seen or stored and what branches have proved
about it (zero / non-zero), notifications, and waits."""
import re

from . import conc
from .ir import AnalysisError, Assume, Sim, is_id, operands, _w

NEG = {"z": "nz", "nz": "z", "eq": "ne", "ne": "eq"}


def value_of(fn, v):
    """Look through casts which keep zero/non-zero (bool loads included)."""
    for _ in range(12):
        if not is_id(v) or v not in fn.insts:
            return v
        i = fn.insts[v]
        if i.op in ("zext", "sext", "trunc", "freeze", "ptrtoint", "inttoptr", "bitcast"):
            v = i["ops"][0]
            continue
        if i.op == "and" and isinstance(i["ops"][1], dict) and i["ops"][1].get("v") in (1, -1):
            v = i["ops"][0]
            continue
        return v
    return v


def is_zero(v):
    return isinstance(v, dict) and (v["k"] == "null" or v["k"] == "int" and v["v"] == 0)


def facts(fn, cond, val, out=None, depth=0):
    """[(value, 'z'|'nz')] and [((a, b), 'eq'|'ne')] implied by cond == val"""
    out = [] if out is None else out
    if depth > 10 or not is_id(cond) or cond not in fn.insts:
        if is_id(cond):
            out.append((cond, "nz" if val else "z"))
        return out
    i = fn.insts[cond]
    if i.op == "icmp":
        a, b = i["ops"]
        p = i["pred"]
        if is_zero(a) and not is_zero(b):
            a, b = b, a
            p = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(p, p)
        if is_zero(b):
            if p in ("eq", "ule"):
                facts(fn, a, not val, out, depth + 1)
            elif p in ("ne", "ugt"):
                facts(fn, a, val, out, depth + 1)
            return out
        if isinstance(b, dict) and b["k"] == "int" and b["v"] == 1 and p in ("ult", "uge"):
            facts(fn, a, (p == "uge") == bool(val), out, depth + 1)
            return out
        if p in ("eq", "ne"):
            eq = (p == "eq") == bool(val)
            a, b = value_of(fn, a), value_of(fn, b)
            if is_id(a) and is_id(b):
                out.append(((min(a, b), max(a, b)), "eq" if eq else "ne"))
            elif is_id(a) and isinstance(b, dict) and b["k"] == "int":
                if eq:
                    out.append((a, "nz"))
                out.append((a, ("eq:%d" if eq else "ne:%d") % b["v"]))
        elif p in ("ugt", "uge", "ult", "ule"):
            # x > y implies x != 0; x < y implies y != 0
            t = {"ugt": 0, "ult": 1, "ule": None, "uge": None}[p] if val else \
                {"ule": 0, "uge": 1, "ugt": None, "ult": None}[p]
            if t is not None:
                x = value_of(fn, (a, b)[t])
                if is_id(x):
                    out.append((x, "nz"))
            if isinstance(b, dict) and b["k"] == "int":
                x = value_of(fn, a)
                if is_id(x):
                    q, c = p, b["v"]
                    if q in ("ule", "ugt"):
                        q, c = {"ule": "ult", "ugt": "uge"}[q], c + 1
                    if not val:
                        q = {"ult": "uge", "uge": "ult"}[q]
                    out.append((x, "%s:%d" % (q, c)))
        return out
    if i.op == "xor" and _w(i["ty"]) == 1:
        b = i["ops"][1]
        if isinstance(b, dict) and b["k"] == "int":
            return facts(fn, i["ops"][0], bool(val) ^ bool(b["v"] & 1), out, depth + 1)
    if i.op == "and" and _w(i["ty"]) == 1 and val:
        for o in i["ops"]:
            facts(fn, o, True, out, depth + 1)
        return out
    if i.op == "or" and _w(i["ty"]) == 1 and not val:
        for o in i["ops"]:
            facts(fn, o, False, out, depth + 1)
        return out
    if i.op == "select" and _w(i["ty"]) == 1:
        c, t, f = i["ops"]
        if is_zero(f) and val:
            facts(fn, c, True, out, depth + 1)
            facts(fn, t, True, out, depth + 1)
            return out
        if isinstance(t, dict) and t["k"] == "int" and t["v"] & 1 and not val:
            facts(fn, c, False, out, depth + 1)
            facts(fn, f, False, out, depth + 1)
            return out
        return out
    v = value_of(fn, cond)
    if v != cond:
        return facts(fn, v, val, out, depth + 1)
    out.append((cond, "nz" if val else "z"))
    return out


def slice_loads(fn, v, seen):
    if not is_id(v) or v in seen or v not in fn.insts:
        return
    seen.add(v)
    i = fn.insts[v]
    if i.is_call():
        return
    for o in operands(i):
        slice_loads(fn, o, seen)


class Field:
    """classifies addresses: (object path, class, member name, lock paths, cv names)"""

    def __init__(self, fn, types):
        self.fn = fn
        self.types = types
        self.memo = {}

    def get(self, path):
        if path not in self.memo:
            self.memo[path] = self._get(path)
        return self.memo[path]

    def _get(self, path):
        fn, T = self.fn, self.types
        root, offs = path
        if offs[-1] is None:
            return None
        chain = fn.fields(path)
        best = None
        for n, (cls, mem, mt, coff) in enumerate(chain):
            cid = conc.run_class(T, cls)
            if cid is None or not conc.sync_members(T, cid):
                continue
            if conc.SYNC_TYPES.match(T.name(mt)):
                return ("sync", (root, offs[:-1] + (coff,)), cls, mem)
            name = mem
            for k in range(n + 1, len(chain)):
                name += "." + (chain[k][1] or "?")
            best = ("field", (root, offs[:-1] + (coff,)), cls, name)
        return best


class WakeRun:
    """collects:
       waits:  [(inst, cv (class, member), object, facts {member: fact}, tested members)]
       stores: members stored in this function
    and, in the second pass (spec given), problems."""

    def __init__(self, fn, types, spec=None):
        self.fn = fn
        self.types = types
        self.F = Field(fn, types)
        self.spec = spec
        self.waits = {}
        self.tests = {}       # cv -> set of members tested before waiting
        self.wfields = set()  # (class, member) stored to
        self.notifies = []
        self.needs = []
        self.problems = {}
        self.exit_facts = []
        self.ctor = conc.ctor_like(fn)
        self.dtor = conc.dtor_like(fn)
        self.has_wait = {self.cvkey(i["ops"][0]) for i in fn.all_insts()
                         if i.is_call() and i.callee() in conc.WAITS}
        self._slices = {}
        self.announced = {}   # notify_all -> (cv, {members stored before it in the critical section})
        self.retested = set()
        self.untested_timed = {}
        force = [i.id for i in fn.all_insts() if i.is_call() and i.callee() in
                 ("vp_x_trylock", "vp_x_cv_timedwait")]
        # state: (held, cur, pend, notif, awaiting, tested, waited, unwinding)
        # cur: (address, value, facts); notif also records members grown in
        # the current critical section
        init = (frozenset(), frozenset(), frozenset(), frozenset(), None, frozenset(),
                frozenset(), False)
        self.sim = Sim(fn, init, self._tr, self._exit, on_branch=self._br, force=force,
                       bind=lambda s: setattr(self, "sim", s), on_phis=self._phis,
                       transfer_unwind=self._unwind)
        for i, (inst, k) in self.untested_timed.items():
            if spec is not None and i not in self.retested:
                self.problem("no-retest", inst,
                             "never tests the awaited state again after a timed wait on %s (a spurious "
                             "wake-up goes through)" % (k[1] if k else "a condition"))

    def cvkey(self, v):
        f = self.F.get(self.fn.path(v))
        if f is None or f[0] != "sync":
            return None
        return f[2], f[3].split(".")[0]

    def problem(self, kind, inst, msg):
        self.problems.setdefault((kind, inst.where(), msg), (inst, self.sim.trace()))

    # -- transfer ------------------------------------------------------
    def _unwind(self, inst, st):
        r = self._tr(inst, st)
        st = r[0]
        if isinstance(st, Assume):
            st = st.state
        return st[:7] + (True,)

    def _tr(self, inst, st):
        fn = self.fn
        held, cur, pend, notif, awaiting, tested, waited, unw = st
        if inst.is_call():
            c = inst.callee()
            if c == "vp_x_lock":
                p = fn.path(inst["ops"][0])
                cur = frozenset(x for x in cur if not self._guards(p, x[0]))
                return ((held | {p}, cur, pend, notif, awaiting, frozenset(), waited, unw),)
            if c == "vp_x_unlock":
                p = fn.path(inst["ops"][0])
                self._leave(inst, st)
                held = held - {p}
                return ((held, cur, pend, notif if held else frozenset(), None, frozenset(),
                         frozenset(), unw),)
            if c == "vp_x_trylock":
                p = fn.path(inst["ops"][0])
                return (Assume((held | {p}, frozenset(), pend, notif, awaiting, frozenset(), waited,
                                unw), {inst.id: 0}), Assume(st, {inst.id: 1}))
            if c in conc.WAITS:
                return self._wait(inst, st)
            if c == "__cxa_end_catch":
                return (st[:7] + (False,),)
            if c in conc.NOTIFY:
                k = self.cvkey(inst["ops"][0])
                kind = "all" if c.endswith("all") else "one"
                self.notifies.append((inst, k, kind))
                if k is not None and kind == "all":
                    st_m = {n[2] for n in notif if n[0] == "st" and n[1] == k[0]}
                    if inst.id in self.announced:
                        st_m &= self.announced[inst.id][1]
                    self.announced[inst.id] = (k, st_m)
                if k is not None:
                    pend = frozenset(x for x in pend if not (
                        x[2] == k and (kind == "all" or x[3] == "one")))
                    notif = notif | {(k, kind)}
                return ((held, cur, pend, notif, awaiting, tested, waited, unw),)
            for o, kk in conc.call_ptr_args(inst):
                if kk != "w" or (is_id(o) and o in fn.insts and fn.insts[o].get("ty") != "ptr"):
                    continue
                p = fn.path(o)
                f = self.F.get(p)
                member = None
                if f is not None and f[0] == "field" and p[1][-1] != f[1][1][-1]:
                    member = f[3].split(".")[0]
                keep = set()
                for x in cur:
                    if x[0][0] == p[0] and x[0][1][:-1] == p[1][:-1]:
                        g = self.F.get(x[0])
                        if member is None or g is None or g[3].split(".")[0] == member:
                            continue
                    keep.add(x)
                cur = frozenset(keep)
                if f is not None and f[0] == "field" and not inst.get("intr"):
                    pend, notif = self._store(inst, f, None, cur, pend, notif, call=True)
            return ((held, cur, pend, notif, awaiting, tested, waited, unw),)
        if inst.op == "load":
            p = fn.path(inst["ptr"])
            f = self.F.get(p)
            if f is not None and f[0] == "field":
                old = [x for x in cur if x[0] == p]
                fact = old[0][2] if old else frozenset()
                cur = frozenset(x for x in cur if x[0] != p and x[1] != inst.id) | {(p, inst.id, fact)}
            else:
                cur = frozenset(x for x in cur if x[1] != inst.id)
            return ((held, cur, pend, notif, awaiting, tested, waited, unw),)
        if inst.op == "store":
            p = fn.path(inst["ptr"])
            f = self.F.get(p)
            if f is not None and f[0] == "field":
                v = inst["val"]
                fact = frozenset()
                vid = None
                if isinstance(v, dict) and v["k"] in ("int", "null"):
                    fact = frozenset(["z" if is_zero(v) else "nz"])
                elif is_id(v):
                    vid = value_of(fn, v)
                    fact = next((x[2] for x in cur if x[1] == vid), frozenset())
                self.wfields.add((f[2], f[3]))
                cur = frozenset(x for x in cur if x[0] != p) | {(p, vid, fact)}
                pend, notif = self._store(inst, f, v, cur, pend, notif, fact=fact)
            return ((held, cur, pend, notif, awaiting, tested, waited, unw),)
        return (st,)

    def _phis(self, phis, st):
        cur = st[1]
        new = None
        for pid, x in phis:
            if is_id(x):
                vx = value_of(self.fn, x)
                for e in cur:
                    if e[1] == vx:
                        new = (cur if new is None else new) - {e} | {(e[0], pid, e[2])}
        if new is None:
            return st
        return (st[0], new) + st[2:]

    def _guards(self, lockpath, fieldpath):
        return lockpath[0] == fieldpath[0] and lockpath[1][:-1] == fieldpath[1][:-1]

    def _store(self, inst, f, v, cur, pend, notif, fact=frozenset(), call=False):
        notif = notif | {("st", f[2], f[3].split(".")[0])}
        if self.spec is None or self.ctor:
            return pend, notif
        if conc.fresh(self.fn, f[1][0]):
            return pend, notif
        cls, mem = f[2], f[3]
        for (scls, scv), fields in self.spec.items():
            if scls != cls:
                continue
            for fm, (unready, mode) in fields.items():
                hit = fm == mem or call and fm.startswith(mem + ".") or "|" in fm and mem in fm.split("|")
                if not hit:
                    continue
                cv = (scls, scv)
                need = True
                grown = ("grown", f[1], fm)
                if "|" in fm or call or unready not in ("z", "nz"):
                    need = cv not in self.has_wait and not self.dtor
                elif fact & {"z", "nz"}:
                    need = unready not in fact
                elif unready == "nz" and is_id(v):
                    d = self.fn.insts.get(value_of(self.fn, v))
                    # counting up never reaches zero; other operations might
                    if d is not None and d.op == "add" and isinstance(d["ops"][1], dict):
                        if d["ops"][1].get("v", -1) > 0:
                            need = False
                            notif = notif | {grown}
                        elif grown in notif:
                            # takes back what this critical section added
                            need = False
                            notif = notif - {grown}
                if not need:
                    continue
                self.needs.append((inst, cv, mem, mode))
                if any(n[0] == cv and (n[1] == "all" or mode == "one") for n in notif):
                    continue
                pend = pend | {(self.fn.path(inst["ptr"]) if inst.op == "store" else None,
                                (unready, mem), cv, mode, inst.id)}
        return pend, notif

    def _wait(self, inst, st):
        held, cur, pend, notif, awaiting, tested, waited, unw = st
        k = self.cvkey(inst["ops"][0])
        fm = set()
        cv = self.F.get(self.fn.path(inst["ops"][0]))
        if cv is not None:
            for p, vid, fact in cur:
                f = self.F.get(p)
                if f is not None and f[0] == "field" and f[2] == cv[2]:
                    fm |= {(f[3], x) for x in fact}
            fm |= {(t[1], t[2]) for t in tested if isinstance(t, tuple)}
        fm = frozenset(fm)
        names = frozenset(t if not isinstance(t, tuple) else t[1] for t in tested)
        self.waits.setdefault((inst.id, k, fm, names), inst)
        if self.spec is not None:
            for x in pend:
                if x[2] == k:
                    self._lost(x)
            if not tested:
                self.problem("untested-wait", inst,
                             "waits on %s without having tested any shared state since the lock was "
                             "taken or since the previous wait" % (k[1] if k else "a condition"))
        self.tests.setdefault(k, set()).update(names)
        if inst.callee() == "vp_x_cv_timedwait":
            n = (held, frozenset(), pend, frozenset(), (k, inst.id, True), frozenset(), waited, unw)
            return (Assume(n, {inst.id: 0}), Assume(n, {inst.id: 1}))
        return ((held, frozenset(), pend, frozenset(), (k, "", False), frozenset(),
                 waited | {(k, frozenset(x for x in fm if x[0] in names))}, unw),)

    def _br(self, t, val, st, known):
        fn = self.fn
        held, cur, pend, notif, awaiting, tested, waited, unw = st
        cond = t.get("cond")
        if not is_id(cond):
            return st
        fs = []
        if t.op == "br":
            fs = facts(fn, cond, val)
        elif t.op == "switch" and val is not None:
            fs = [(value_of(fn, cond), "nz" if val else "z")]
        if cond not in self._slices:
            s = set()
            slice_loads(fn, cond, s)
            self._slices[cond] = s
        sl = self._slices[cond]
        ids = {x[1]: x for x in cur}
        names = set()
        for x in cur:
            if x[1] in sl:
                f = self.F.get(x[0])
                if f is not None:
                    names.add(f[3])
        # calls whose result is tested (container queries)
        for s in sl:
            i = fn.insts[s]
            if i.is_call() and i.callee() not in conc.WAITS:
                for o, _ in conc.call_ptr_args(i):
                    f = self.F.get(fn.path(o))
                    if f is not None and f[0] == "field":
                        names.add(f[3])
        if names:
            tested = tested | frozenset(names)
            if awaiting is not None and awaiting[2]:
                self.retested.add(awaiting[1])
            awaiting = None
        for v, fact in fs:
            if isinstance(v, tuple):
                a, b = v
                if a in ids and b in ids:
                    fa, fb = self.F.get(ids[a][0]), self.F.get(ids[b][0])
                    if fa and fb and fa[1] == fb[1]:
                        nm = "|".join(sorted((fa[3], fb[3])))
                        tested = frozenset(x for x in tested if not (
                            isinstance(x, tuple) and x[1] == nm)) | {("pair", nm, fact)}
                continue
            for x in list(cur):
                if x[1] == v:
                    if complement(fact) in x[2]:
                        return None  # contradiction: infeasible
                    cur = (cur - {x}) | {(x[0], x[1], x[2] | {fact})}
                    f = self.F.get(x[0])
                    pend = frozenset(q for q in pend if not (
                        q[0] == x[0] and q[1] == (fact, f[3] if f else None)))
        if waited:
            have = self._have(cur, tested)
            waited = frozenset(w for w in waited if not any(
                complement(x) in have.get(mem, ()) for mem, x in w[1]))
        return (held, cur, pend, notif, awaiting, tested, waited, unw)

    def _leave(self, inst, st):
        held, cur, pend, notif, awaiting, tested, waited, unw = st
        if self.spec is None or unw:
            return
        if awaiting is not None and awaiting[2]:
            self.untested_timed[awaiting[1]] = (inst, awaiting[0])
        elif awaiting is not None:
            self.problem("no-retest", inst,
                         "leaves the critical section after a wait on %s without testing the awaited "
                         "state again (a spurious wake-up goes through)"
                         % (awaiting[0][1] if awaiting[0] else "a condition"))
            return
        have = self._have(cur, tested)
        for k, fm in waited:
            if not fm:
                continue
            if not any(complement(fact) in have.get(mem, ()) for mem, fact in fm):
                self.problem("not-ready", inst, "leaves the critical section after a wait on %s although "
                             "the awaited condition has not been established"
                             % (k[1] if k else "a condition"))

    def _have(self, cur, tested):
        have = {}
        for p, vid, fact in cur:
            f = self.F.get(p)
            if f:
                have.setdefault(f[3], set()).update(fact)
        for x in tested:
            if isinstance(x, tuple):
                have.setdefault(x[1], set()).add(x[2])
        return have

    def _lost(self, x):
        inst = self.fn.insts[x[4]]
        self.problem("lost-wakeup", inst,
                     "changes %s, for which threads wait on %s, but a path continues without "
                     "notify_%s()" % (x[1][1], x[2][1], x[3]))

    def _exit(self, op, inst, st):
        if self.spec is None or op == "unreachable":
            return
        for x in st[2]:
            self._lost(x)


def complement(fact):
    if ":" in fact:
        k, c = fact.split(":")
        return {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult"}[k] + ":" + c
    return NEG[fact]


# at most one thread waits at a time, by the contract of the class
SINGLE_WAITER = ("CircBufferScspLocking",)


def discover(wakeruns):
    """cv -> {member or pair: (fact while waiting, notify kind needed)}"""
    facts_at = {}
    for r in wakeruns:
        for (iid, k, fm, names), inst in r.waits.items():
            if k is None:
                continue
            d = facts_at.setdefault(k, {})
            for n in names:
                d.setdefault(n, []).append(({x for m, x in fm if m == n}, r))
    spec = {}
    for k, d in facts_at.items():
        pairs = {m for n in d if "|" in n for m in n.split("|")}
        for n, l in d.items():
            if n in pairs:
                continue
            common = set.intersection(*[f for f, _ in l])
            unready = None
            for c in ("z", "nz", "eq", "ne"):
                if c in common:
                    unready = c
            # does every waiter consume what it waited for?
            ms = n.split("|")
            consumed = all(any((k[0], m) in r.wfields for m in ms) for _, r in l)
            if any(x in k[0] for x in SINGLE_WAITER):
                consumed = True
            spec.setdefault(k, {})[n] = (unready, "one" if consumed else "all")
    return spec
