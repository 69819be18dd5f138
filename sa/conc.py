"""Lock, wait, notify and callback analyses over normalised entry points."""
import re

from .ir import AnalysisError, Assume, Sim, is_id

SYNC_TYPES = re.compile(r"^(std::(_V2::)?(mutex|recursive_mutex|condition_variable|"
                        r"condition_variable_any)|sharemind::TicketSpinLock|sharemind::VpRealTicketSpinLock)$")
LOCK_TYPES = re.compile(r"^(std::(recursive_)?mutex|sharemind::TicketSpinLock)$")
ATOMIC = re.compile(r"^std::(atomic|__atomic_base|atomic_flag)")

LOCKS = {"vp_x_lock", "vp_x_unlock", "vp_x_trylock"}
WAITS = {"vp_x_cv_wait", "vp_x_cv_timedwait"}
NOTIFY = {"vp_x_cv_notify_one", "vp_x_cv_notify_all"}


class Event:
    __slots__ = ("fn", "inst", "kind", "path", "held", "extra")

    def __init__(self, fn, inst, kind, path, held, extra=None):
        self.fn = fn
        self.inst = inst
        self.kind = kind
        self.path = path
        self.held = held
        self.extra = extra

    def where(self):
        return self.inst.where()


def sync_members(types, cls_id):
    """names of direct lock members of a class type"""
    r = []
    for e in types.elems(cls_id):
        if not e["inh"] and LOCK_TYPES.match(types.name(e["t"])):
            r.append((e["name"], e["off"]))
    return r


class LockRun:
    """Path-sensitive lockset computation for one function."""

    def __init__(self, fn, ignore=None, limit=400000):
        self.fn = fn
        self.ignore = ignore
        self.events = {}     # (inst id, held) -> Event
        self.problems = []   # (kind, inst, message, trace)
        self._seen = set()
        force = [i.id for i in fn.all_insts() if i.is_call() and i.callee() in
                 ("vp_x_trylock", "vp_x_cv_timedwait")]
        self.sim = Sim(fn, frozenset(), self._transfer, self._exit, limit=limit, force=force)

    def _problem(self, kind, inst, msg):
        k = (kind, inst.id, msg)
        if k in self._seen:
            return
        self._seen.add(k)
        self.problems.append((kind, inst, msg, self._trace()))

    def _trace(self):
        try:
            return self.sim.trace()
        except AttributeError:
            return []

    def _transfer(self, inst, held):
        fn = self.fn
        if inst.is_call():
            c = inst.callee()
            if c in LOCKS:
                p = fn.path(inst["ops"][0])
                if c == "vp_x_lock":
                    if p in held:
                        self._problem("relock", inst, "acquires %s, which is already held"
                                      % fn.describe(p))
                    self.events[(inst.id, held)] = Event(fn, inst, "lock", p, held)
                    return (held | {p},)
                if c == "vp_x_unlock":
                    if p not in held:
                        self._problem("unlock", inst, "releases %s, which is not held"
                                      % fn.describe(p))
                    self.events[(inst.id, held)] = Event(fn, inst, "unlock", p, held)
                    return (held - {p},)
                if c == "vp_x_trylock":
                    # std::mutex::try_lock: 0 means acquired
                    return (Assume(held | {p}, {inst.id: 0}), Assume(held, {inst.id: 1}))
            if c in WAITS:
                m = fn.path(inst["ops"][1])
                if m not in held:
                    self._problem("wait", inst, "waits with %s, which is not held" % fn.describe(m))
                self.events[(inst.id, held)] = Event(fn, inst, "wait", fn.path(inst["ops"][0]), held, m)
                if c == "vp_x_cv_timedwait":
                    return (Assume(held, {inst.id: 0}), Assume(held, {inst.id: 1}))
                return (held,)
            if c in NOTIFY:
                self.events[(inst.id, held)] = Event(fn, inst, "notify", fn.path(inst["ops"][0]), held)
                return (held,)
            self.events[(inst.id, held)] = Event(fn, inst, "call", None, held)
            return (held,)
        if inst.op in ("load", "store", "atomicrmw", "cmpxchg"):
            self.events[(inst.id, held)] = Event(fn, inst, "r" if inst.op == "load" else "w",
                                                 fn.path(inst["ptr"]), held)
        return (held,)

    def _exit(self, op, inst, held):
        if op == "unreachable":
            return
        for p in held:
            self._problem("leak", inst, "leaves (%s) with %s still held"
                          % ("by exception" if op == "resume" else "by return",
                             self.fn.describe(p)))


def call_ptr_args(inst):
    c = inst.callee() or ""
    if inst.get("intr"):
        if c.startswith(("llvm.memcpy", "llvm.memmove")):
            return [(inst["ops"][0], "w"), (inst["ops"][1], "r")]
        if c.startswith("llvm.memset"):
            return [(inst["ops"][0], "w")]
        return []
    return [(o, "w") for o in inst.get("ops", []) if is_id(o) or isinstance(o, dict) and o["k"] == "cgep"]


def accesses(ev):
    """(kind, path) memory accesses of an event"""
    if ev.kind in ("r", "w"):
        yield ev.kind, ev.path, False
    elif ev.kind == "call":
        for o, k in call_ptr_args(ev.inst):
            if is_id(o) and o in ev.fn.insts and ev.fn.insts[o].get("ty") != "ptr":
                continue
            yield k, ev.fn.path(o), not ev.inst.get("intr")


def fresh(fn, root):
    if root[0] == "alloca":
        return True
    if root[0] == "val":
        i = fn.insts.get(root[1])
        if i is not None and i.is_call() and (i.callee() or "").startswith(("_Znw", "_Zna")):
            return True
    return False


def dtor_like(fn):
    return (fn.name.endswith("_dtor") or "::~" in fn.dem
            or re.search(r"_Sp_counted_ptr(_inplace)?<.*>::_M_dispose\(\)", fn.dem) is not None)


def ctor_like(fn):
    return re.search(r"_ctor[A-Z]?$", fn.name) is not None


def guarded_accesses(run, types):
    """Accesses to members of classes that own a lock:
    yields (class, member, member type, kind, held lock members of the same object, event)"""
    fn = run.fn
    ctor = ctor_like(fn)
    dtor = dtor_like(fn)
    a0 = ("arg", fn.arg_list[0]["id"]) if fn.arg_list else None
    for ev in run.events.values():
        for kind, path, viacall in accesses(ev):
            root, offs = path
            if fresh(fn, root):
                continue
            if ctor and root == a0:
                continue
            if dtor and root == a0 and len(offs) == 1:
                continue
            chain = fn.fields(path)
            if any(ATOMIC.match(types.name(c[2])) for c in chain):
                continue
            for n, (cls, mem, mt, coff) in enumerate(chain):
                if viacall and offs[-1] == coff:
                    continue
                if mem.startswith("_vptr"):
                    continue
                # data members of the library's own nested structures count separately
                t = mt
                for k in range(n + 1, len(chain)):
                    if not types.name(t).startswith("sharemind::") or not chain[k][1]:
                        break
                    mem += "." + chain[k][1]
                    t = chain[k][2]
                cid = run_class(types, cls)
                if cid is None:
                    continue
                sm = sync_members(types, cid)
                if not sm:
                    continue
                mn = types.name(mt)
                if SYNC_TYPES.match(mn) or ATOMIC.match(mn):
                    continue
                held = frozenset(n for n, o in sm
                                 if (root, offs[:-1] + (coff + o,)) in ev.held)
                yield cls, mem, mt, kind, held, ev


_cls_cache = {}


def run_class(types, qname):
    key = (id(types), qname)
    if key not in _cls_cache:
        _cls_cache[key] = None
        for t in types.t:
            if t.get("qname") == qname and not t.get("decl"):
                _cls_cache[key] = t["id"]
                break
    return _cls_cache[key]
