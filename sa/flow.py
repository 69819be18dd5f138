"""Path-sensitive value-flow analysis over one normalised function.

The abstract state maps memory cells to symbolic values (value numbering: a
value is named by where it came from), remembers the outcomes of the branches
taken on such values, and carries the state of a client automaton.  Paths with
equal states are merged; values which change in loops are widened to one name
per loop header.  No solver is involved: a branch is pruned only if its
condition has a known constant value."""
import re
from collections import deque

from .ir import AnalysisError, is_id, operands, _w

M64 = (1 << 64) - 1
MAXDEPTH = 8


def depth(e):
    if not isinstance(e, tuple):
        return 0
    return 1 + max((depth(x) for x in e[1:]), default=0)


def mentions(e, atoms):
    if isinstance(e, tuple):
        if e in atoms:
            return True
        return any(mentions(x, atoms) for x in e)
    return False


def addr(base, off=0):
    """normal form of an address"""
    if off == 0:
        return base
    if isinstance(base, tuple) and base[0] == "addr":
        if base[2] is None or off is None:
            return ("addr", base[1], None)
        return addr(base[1], base[2] + off)
    return ("addr", base, off)


def split(a):
    """(base, offset) of an address expression"""
    if isinstance(a, tuple) and a[0] == "addr":
        return a[1], a[2]
    return a, 0


def _shift(a, d):
    b, o = split(a)
    return b, (None if o is None else o + d)


def unwas(e):
    """an earlier result of a place, as if it were the current one"""
    while isinstance(e, tuple) and e and e[0] == "was":
        e = e[1]
    if isinstance(e, tuple):
        return tuple(unwas(x) if isinstance(x, tuple) else x for x in e)
    return e


def old_any(x, old):
    if isinstance(x, tuple):
        if x and isinstance(x[0], str):
            return old(x) or any(old_any(y, old) for y in x if isinstance(y, frozenset))
        return any(old_any(y, old) for y in x)
    if isinstance(x, frozenset):
        return any(old_any(y, old) for y in x)
    return False


class State:
    __slots__ = ("vals", "cells", "epochs", "facts", "auto", "trace")

    def __init__(self, vals=None, cells=None, epochs=None, facts=None, auto=None, trace=()):
        self.vals = vals or {}
        self.cells = cells or {}
        self.epochs = epochs or {}
        self.facts = facts or {}
        self.auto = auto
        self.trace = trace

    def copy(self):
        return State(dict(self.vals), dict(self.cells), dict(self.epochs), dict(self.facts),
                     self.auto, self.trace)

    def key(self):
        return (frozenset(self.vals.items()), frozenset(self.cells.items()),
                frozenset(self.epochs.items()), frozenset(self.facts.items()), self.auto)


NO_EFFECT = ("vp_x_mark", "vp_x_use", "vp_x_check", "_Znwm", "_Znam", "_ZdlPv", "_ZdaPv", "_ZdlPvm",
             "_ZdaPvm", "__cxa_", "vp_x_unlock", "vp_x_cv_notify", "__clang_call_terminate",
             "_ZSt9terminatev", "free", "malloc", "calloc", "abort", "_ZnwmRKSt9nothrow", "_ZnamRKSt9nothrow",
             "_ZNSt9exceptionD2Ev", "strlen", "memcmp", "__errno_location")


# calls which write only the object(s) they are given, with its size
OBJ_SIZE = {"vp_xt_obj_": 16, "vp_x_obj_": 16, "_ZNSt18condition_variable": 48,
            "_ZNSt15__exception_ptr13exception_ptr": 8, "_ZNKSt15__exception_ptr13exception_ptr": 8,
            "_ZNSt16_Sp_counted_base": 16}
OBJ_CALL = re.compile("|".join(OBJ_SIZE))


class TooMany(AnalysisError):
    """the exploration does not end soon enough"""


class Flow:
    """client: object with optional methods
         event(flow, st, kind, inst, info) -> None (st.auto updated in place) or list of states
         exit(flow, st, kind, inst)   kind in ret / throw
         havoc(flow, st, inst, name, args) -> None for the default, or True if handled
    """

    def __init__(self, fn, client, init=None, facts=None, cells=None, limit=300000, keep_facts=None):
        self.fn = fn
        self.c = client
        self.limit = limit
        self.steps = 0
        self.cur = None
        self.keep_facts = keep_facts
        self.maxdepth = getattr(client, "maxdepth", MAXDEPTH)
        self._live()
        self._loops()
        self._escaped()
        st = State(auto=init, facts=dict(facts or {}), cells=dict(cells or {}))
        self._run(st)

    # ---- preparation --------------------------------------------------
    def _live(self):
        fn = self.fn
        use = {b.id: set() for b in fn.blocks}
        dfn = {b.id: set() for b in fn.blocks}
        phiuse = {b.id: set() for b in fn.blocks}
        for b in fn.blocks:
            for i in b.insts:
                if i.op == "phi":
                    dfn[b.id].add(i.id)
                    for x, pb in i["in"]:
                        if is_id(x):
                            phiuse[pb].add(x)
                    continue
                for o in operands(i):
                    if is_id(o) and o not in dfn[b.id]:
                        use[b.id].add(o)
                dfn[b.id].add(i.id)
        live = {b.id: set() for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.blocks):
                out = set(phiuse[b.id])
                for s in b.succs:
                    out |= live[s] - {p.id for p in fn.blocks[s].phis}
                n = use[b.id] | (out - dfn[b.id])
                if n != live[b.id]:
                    live[b.id] = n
                    ch = True
        for b in fn.blocks:
            live[b.id] = live[b.id] | {p.id for p in b.phis}
        self.live = live

    def _loops(self):
        fn = self.fn
        self.back = set()
        for b in fn.blocks:
            for s in b.succs:
                if b.id in fn.idom and s in fn.idom and fn.block_dom(s, b.id):
                    self.back.add((b.id, s))
        self.headers = {s for _, s in self.back}
        self.loop = {}
        for b, h in self.back:
            body = self.loop.setdefault(h, {h})
            work = [b]
            while work:
                x = work.pop()
                if x not in body:
                    body.add(x)
                    work.extend(p.id for p in fn.blocks if x in p.succs)

    def _escaped(self):
        fn = self.fn
        esc = set()
        # addresses derived from allocas
        root = {}
        for i in fn.all_insts():
            if i.op == "alloca":
                root[i.id] = i.id
            elif i.op in ("getelementptr", "bitcast", "select", "phi"):
                pass
        ch = True
        while ch:
            ch = False
            for i in fn.all_insts():
                if i.id in root:
                    continue
                src = []
                if i.op == "getelementptr":
                    src = [i["base"]]
                elif i.op == "phi":
                    src = [x[0] for x in i["in"]]
                elif i.op == "select":
                    src = i["ops"][1:]
                for s in src:
                    if is_id(s) and s in root:
                        root[i.id] = root[s]
                        ch = True
                        break
        for i in fn.all_insts():
            if i.is_call():
                if i.get("intr"):
                    continue
                for o in i.get("ops", ()):
                    if is_id(o) and o in root:
                        esc.add(root[o])
            elif i.op == "store" and is_id(i["val"]) and i["val"] in root:
                esc.add(root[i["val"]])
        self.escaped = esc

    # ---- expressions --------------------------------------------------
    def val(self, st, v):
        if isinstance(v, bool):
            return int(v)
        if is_id(v):
            if v in st.vals:
                return st.vals[v]
            if v in self.fn.args:
                return ("arg", self.fn.arg_list.index(self.fn.args[v]))
            return ("val", v)
        k = v["k"]
        if k == "int":
            return v["v"]
        if k == "null":
            return 0
        if k == "global":
            return ("global", v["n"])
        if k == "cgep":
            return addr(self.val(st, v["base"]), v["off"])
        return ("const", k)

    def known(self, st, e, d=0):
        """constant value of an expression or None"""
        if isinstance(e, int):
            return e
        f = st.facts.get(e)
        if f is not None and f[0] == "eq":
            return f[1]
        if d > 10 or not isinstance(e, tuple):
            return None
        k = e[0]
        if k == "icmp":
            return self._icmp(st, e[1], e[2], e[3], d)
        if k in ("and", "or", "xor", "add", "sub", "mul", "shl", "lshr", "ashr"):
            a, b = self.known(st, e[2], d + 1), self.known(st, e[3], d + 1)
            w = e[1]
            if k == "and" and (a == 0 or b == 0):
                return 0
            if k == "or" and w == 1 and (a == 1 or b == 1):
                return 1
            if a is None or b is None:
                return None
            return self._arith(k, w, a, b)
        if k == "cast":
            a = self.known(st, e[3], d + 1)
            if a is None:
                return None
            return self._cast(e[1], e[2], a)
        return None

    @staticmethod
    def norm(v, w):
        if w is None:
            return v
        v &= (1 << w) - 1
        if w > 1 and v >> (w - 1):
            v -= 1 << w
        return v

    def _arith(self, k, w, a, b):
        m = (1 << w) - 1
        ua, ub = a & m, b & m
        if k == "and":
            r = ua & ub
        elif k == "or":
            r = ua | ub
        elif k == "xor":
            r = ua ^ ub
        elif k == "add":
            r = ua + ub
        elif k == "sub":
            r = ua - ub
        elif k == "mul":
            r = ua * ub
        elif k == "shl":
            r = ua << ub if ub < w else 0
        elif k == "lshr":
            r = ua >> ub if ub < w else 0
        else:
            r = a >> min(ub, w - 1)
        return self.norm(r, w)

    def _cast(self, op, ws, a):
        src, dst = ws
        if op == "zext":
            return a & ((1 << src) - 1) if src else a
        if op == "trunc":
            return self.norm(a, dst)
        if op == "sext" and src == 1:
            return -(a & 1)
        return a

    def nonnull(self, st, e):
        b, o = split(e)
        if isinstance(b, tuple):
            if b[0] in ("alloca", "new", "global"):
                return True
            f = st.facts.get(b)
            if f is not None and (f[0] == "ne" and 0 in f[1] or f[0] == "eq" and f[1] != 0):
                return True
            if o not in (0, None):
                return True
        return False

    def _icmp(self, st, p, a, b, d):
        ka, kb = self.known(st, a, d + 1), self.known(st, b, d + 1)
        if ka is not None and kb is not None:
            ua, ub = ka & M64, kb & M64
            return int({"eq": ua == ub, "ne": ua != ub, "slt": ka < kb, "sle": ka <= kb,
                        "sgt": ka > kb, "sge": ka >= kb, "ult": ua < ub, "ule": ua <= ub,
                        "ugt": ua > ub, "uge": ua >= ub}[p])
        if a == b:
            return int(p in ("eq", "sle", "sge", "ule", "uge"))
        if p in ("eq", "ne"):
            if kb is None and ka is not None:
                a, b, ka, kb = b, a, kb, ka
            eq = None
            if kb is not None:
                f = st.facts.get(a)
                if f is not None and f[0] == "ne" and kb in f[1]:
                    eq = False
                elif kb == 0 and self.nonnull(st, a):
                    eq = False
            else:
                ba, oa = split(a)
                bb, ob = split(b)
                fresh = ("alloca", "new", "global")
                if ba == bb and oa is not None and ob is not None and oa != ob:
                    eq = False
                elif isinstance(ba, tuple) and isinstance(bb, tuple) and ba != bb \
                        and (ba[0] in fresh and bb[0] in fresh
                             or ba[0] == "arg" and bb[0] in fresh + ("arg",)
                             or bb[0] == "arg" and ba[0] in fresh) \
                        and all(self.fn.arg_list[z[1]]["ty"] == "ptr" for z in (ba, bb) if z[0] == "arg"):
                    # pointer arguments of an entry point denote distinct objects
                    eq = False
            if eq is not None:
                return int(eq == (p == "eq"))
            f = st.facts.get(("icmp", "eq", a, b)) or st.facts.get(("icmp", "eq", b, a))
            if f is not None and f[0] == "eq":
                return int(bool(f[1]) == (p == "eq"))
        inv = {"ult": "uge", "ule": "ugt", "ugt": "ule", "uge": "ult",
               "slt": "sge", "sle": "sgt", "sgt": "sle", "sge": "slt", "eq": "ne", "ne": "eq"}
        swp = {"ult": "ugt", "ule": "uge", "ugt": "ult", "uge": "ule", "slt": "sgt", "sle": "sge",
               "sgt": "slt", "sge": "sle", "eq": "eq", "ne": "ne"}
        for q, x, y, n in ((p, a, b, 0), (inv[p], a, b, 1), (swp[p], b, a, 0), (inv[swp[p]], b, a, 1)):
            f = st.facts.get(("icmp", q, x, y))
            if f is not None and f[0] == "eq":
                return int(bool(f[1]) != bool(n))
        # strict order known the other way
        if p in ("ult", "ugt", "slt", "sgt"):
            q = swp[p]
            f = st.facts.get(("icmp", q, a, b)) or st.facts.get(("icmp", p, b, a))
            if f is not None and f[0] == "eq" and f[1]:
                return 0
            if kb == 0 and p == "ult" or ka == 0 and p == "ugt":
                return 0
        return None

    def learn(self, st, e, v, d=0):
        """record e == v; returns False on contradiction"""
        k = self.known(st, e)
        if k is not None:
            return bool(k) == bool(v) if isinstance(e, tuple) and e[0] == "icmp" else k == v
        if not isinstance(e, tuple) or d > 10:
            return True
        if e[0] == "icmp":
            p, a, b = e[1:]
            st.facts[e] = ("eq", v)
            eq = (p == "eq") == bool(v) if p in ("eq", "ne") else None
            if eq is not None:
                ka, kb = self.known(st, a), self.known(st, b)
                if ka is not None and kb is None:
                    a, b, ka, kb = b, a, kb, ka
                if kb is not None:
                    del st.facts[e]
                    if eq:
                        return self.learn(st, a, kb, d + 1)
                    f = st.facts.get(a)
                    s = f[1] if f is not None and f[0] == "ne" else frozenset()
                    st.facts[a] = ("ne", s | {kb})
                    if isinstance(a, tuple) and self._boolish(a) and kb in (0, 1):
                        st.facts[a] = ("eq", 1 - kb)
                        return self.learn2(st, a, 1 - kb, d + 1)
            else:
                kb = self.known(st, b)
                if kb == 0 and (p == "ugt" and v or p == "ule" and not v):
                    f = st.facts.get(a)
                    s = f[1] if f is not None and f[0] == "ne" else frozenset()
                    if not (f is not None and f[0] == "eq"):
                        st.facts[a] = ("ne", s | {0})
            return True
        st.facts[e] = ("eq", v)
        return self.learn2(st, e, v, d)

    def learn2(self, st, e, v, d):
        if e[0] == "and" and e[1] == 1 and v:
            return self.learn(st, e[2], 1, d + 1) and self.learn(st, e[3], 1, d + 1)
        if e[0] == "or" and e[1] == 1 and not v:
            return self.learn(st, e[2], 0, d + 1) and self.learn(st, e[3], 0, d + 1)
        if e[0] == "or" and e[1] == 1 and v:
            for x, y in ((e[2], e[3]), (e[3], e[2])):
                if self.known(st, x) == 0:
                    return self.learn(st, y, 1, d + 1)
        if e[0] == "and" and e[1] == 1 and not v:
            for x, y in ((e[2], e[3]), (e[3], e[2])):
                if self.known(st, x) == 1:
                    return self.learn(st, y, 0, d + 1)
        if e[0] == "xor" and isinstance(e[3], int):
            return self.learn(st, e[2], self._arith("xor", e[1], v, e[3]), d + 1)
        if e[0] == "cast" and e[1] == "zext":
            return self.learn(st, e[3], self.norm(v, e[2][0]) if e[2][0] else v, d + 1)
        if e[0] == "cast" and e[1] == "trunc" and e[2][1] == 1 and isinstance(e[3], tuple) \
                and e[3][0] == "mem":
            st.facts[e[3]] = ("eq", v)     # bool objects hold 0 or 1
        return True

    def _boolish(self, e):
        if e[0] == "icmp":
            return True
        if e[0] == "cast" and e[1] in ("zext",) and e[2][0] == 1:
            return True
        if e[0] in ("and", "or", "xor") and e[1] == 1:
            return True
        return False

    # ---- memory -------------------------------------------------------
    def epoch(self, st, base):
        r = st.epochs.get(base, 0)
        if isinstance(base, tuple) and (base[0] == "alloca" and base[1] not in self.escaped
                                        or self.is_private(st, base)):
            return r
        return (st.epochs.get("*", 0), r) if st.epochs.get("*", 0) else r

    def load(self, st, a, size, ty=None):
        base, off = split(a)
        if off is not None:
            c = st.cells.get(a)
            if c is not None and c[0] == size:
                return c[1]
        if off is not None and getattr(self.c, "exact", False):
            parts, covered = [], set()
            for k, (n, v) in ((k, v) for k, v in st.cells.items() if k[0] != "range"):
                b2, o2 = split(k)
                if b2 == base and o2 is not None and o2 < off + size and off < o2 + n and v != ("mem", k, n, self.epoch(st, base)):
                    if o2 <= off and off + size <= o2 + n:
                        return self.piece(v, n, off - o2, size)
                    parts.append((o2 - off, n, v))
                    covered.update(range(max(0, o2 - off), min(size, o2 - off + n)))
            if parts and len(covered) == size:
                return ("mix", a, size, self.epoch(st, base), tuple(sorted(parts, key=repr)))
        # a byte range which was filled or copied
        if off is not None:
            for k, v in st.cells.items():
                if k[0] == "range" and k[1] == base and k[2] <= off and off + size <= k[2] + k[3]:
                    if v[0] == "fill":
                        if v[1] == 0:
                            return 0
                        if isinstance(v[1], tuple):
                            return ("mem", a, size, v[1][1])
                        break
                    sb, so = split(v[1])
                    if so is None:
                        break
                    return ("mem", addr(sb, so + off - k[2]), size, v[2])
            # a part of something written as a whole, or a whole written in parts
            parts = []
            for k, (n, v) in ((k, v) for k, v in st.cells.items() if k[0] != "range"):
                b2, o2 = split(k)
                if b2 == base and o2 is not None and o2 < off + size and off < o2 + n:
                    if o2 <= off and off + size <= o2 + n:
                        return self.piece(v, n, off - o2, size)
                    if v != ("mem", k, n, self.epoch(st, base)):
                        parts.append((o2 - off, n, v))
            if parts:
                return ("mix", a, size, self.epoch(st, base), tuple(sorted(parts, key=repr)))
        e = ("mem", a, size, self.epoch(st, base))
        if off is not None and a not in st.cells:
            st.cells[a] = (size, e)
        return e

    def piece(self, v, n, at, size):
        """some bytes of a value which takes n bytes in memory"""
        if at == 0 and size == n:
            return v
        if isinstance(v, int):
            return self.norm(v >> (8 * at), 8 * size)
        k = v[0] if isinstance(v, tuple) else None
        if k == "mem" and v[2] == n:
            return ("mem", addr(v[1], at), size, v[3])
        if k == "piece" and len(v) == 4 and v[3] == n:
            return ("piece", v[1], v[2] + at, size)
        if k == "cast" and v[1] == "zext" and v[2][0] % 8 == 0:
            inner = v[2][0] // 8
            if at >= inner:
                return 0
            if at + size <= inner:
                return self.piece(v[3], inner, at, size)
        if k in ("and", "or"):
            a, b = self.piece(v[2], n, at, size), self.piece(v[3], n, at, size)
            for x, y in ((a, b), (b, a)):
                if x == 0:
                    return 0 if k == "and" else y
                if x == -1:
                    return y if k == "and" else -1
            return (k, 8 * size, a, b)
        return ("piece", v, at, size)

    def kill(self, st, base, off, size):
        """forget what overlaps a written range"""
        for k in list(st.cells):
            if k[0] == "range":
                if k[1] == base and (off is None or (k[2] < off + size and off < k[2] + k[3])):
                    v = st.cells.pop(k)
                    if v[0] == "fill" and off is not None and getattr(self.c, "exact", False):
                        # what is left of it
                        if k[2] < off:
                            st.cells["range", base, k[2], off - k[2]] = v
                        if off + size < k[2] + k[3]:
                            st.cells["range", base, off + size, k[2] + k[3] - off - size] = v
                continue
            b2, o2 = split(k)
            if b2 == base and (off is None or (o2 is not None and o2 < off + size
                                               and off < o2 + st.cells[k][0])):
                n, v = st.cells.pop(k)
                if isinstance(v, int) and off is not None and n > 1 and getattr(self.c, "exact", False):
                    for j in range(n):
                        if not off <= o2 + j < off + size:
                            st.cells[addr(base, o2 + j)] = (1, v >> 8 * j & 255)
                elif off is not None and n > 1 and getattr(self.c, "exact", False) and v != ("mem", k, n, self.epoch(st, base)):
                    for lo, hi in ((o2, off), (off + size, o2 + n)):
                        lo, hi = max(lo, o2), min(hi, o2 + n)
                        if lo < hi:
                            st.cells[addr(base, lo)] = (hi - lo, self.piece(v, n, lo - o2, hi - lo))

    def store(self, st, a, size, v):
        if not isinstance(a, tuple):
            return      # a null pointer
        base, off = split(a)
        self.kill(st, base, off, size)
        if off is None:
            st.epochs[base] = self.cur_id
            return
        st.cells[a] = (size, v)

    def havoc_base(self, st, base, iid):
        self._renew(st, iid)
        st.epochs[base] = iid
        for k in list(st.cells):
            b2 = k[1] if k[0] == "range" else split(k)[0]
            if b2 == base:
                del st.cells[k]

    def havoc_all(self, st, iid):
        self._renew(st, iid)
        st.epochs["*"] = iid
        for k in list(st.cells):
            b2 = k[1] if k[0] == "range" else split(k)[0]
            if b2[0] == "alloca" and b2[1] not in self.escaped:
                continue
            if self.is_private(st, b2):
                continue
            del st.cells[k]

    def is_private(self, st, base):
        p = getattr(self.c, "private", None)
        return p is not None and p(self, st, base)

    def _renew(self, st, iid):
        """an instruction that names values is executed again: forget old facts,
        and keep what still refers to its previous results apart"""
        def named(e):
            if e[0] == "mem" and len(e) == 4:
                ep = e[3]
                return ep == iid or isinstance(ep, tuple) and iid in ep
            return e[0] in ("ret", "new", "phi", "val", "lp") and len(e) > 1 and e[1] == iid

        def old(e):
            if isinstance(e, tuple) and e:
                if e[0] == "was":
                    return False
                if named(e):
                    return True
                return any(old(x) for x in e[1:] if isinstance(x, tuple))
            return False

        def was(e):
            if isinstance(e, tuple) and e:
                if e[0] == "was":
                    return True
                return any(was(x) for x in e[1:] if isinstance(x, tuple))
            return False

        def sub(e):
            if isinstance(e, tuple) and e and e[0] != "was":
                if named(e):
                    return ("was", e)
                return tuple(sub(x) if isinstance(x, tuple) else x for x in e)
            return e
        def deep(x):
            if isinstance(x, tuple):
                if hasattr(x, "_fields"):
                    return type(x)(*[deep(y) for y in x])
                if x and isinstance(x[0], str) and (x[0] == "was" or named(x) if len(x) > 1 else False):
                    return x if x[0] == "was" else ("was", x)
                return tuple(deep(y) for y in x)
            if isinstance(x, frozenset):
                return frozenset(deep(y) for y in x)
            return x
        if old_any(st.auto, old):
            st.auto = deep(st.auto)
        for k in [k for k in st.facts if old(k)]:
            del st.facts[k]
        for k, v in list(st.vals.items()):
            if isinstance(v, tuple) and k != iid and old(v):
                if was(v):
                    v = ("was", ("val", k))
                    st.facts.pop(v, None)
                    st.vals[k] = v
                else:
                    st.vals[k] = sub(v)
        for k, c in list(st.cells.items()):
            if k[0] == "range":
                continue
            v = c[1]
            if old(k):
                # an address which named an earlier result
                del st.cells[k]
                if not was(k):
                    st.cells[sub(k)] = (c[0], sub(v) if old(v) and not was(v) else v)
            elif isinstance(v, tuple) and old(v):
                st.cells[k] = (c[0], ("was", ("cell", k)) if was(v) else sub(v))

    # ---- exploration --------------------------------------------------
    def _run(self, st):
        start = (0, st)
        seen = {(0, st.key())}
        work = deque([start])
        self.nodes = 1
        while work:
            b, st = work.pop()
            for dst, s in self._block(b, st):
                s.vals = {k: v for k, v in s.vals.items() if k in self.live[dst]}
                if self.keep_facts is not None:
                    s.facts = {k: v for k, v in s.facts.items() if self.keep_facts(k)}
                k = (dst, s.key())
                if k not in seen:
                    seen.add(k)
                    self.nodes += 1
                    if self.nodes > getattr(self.c, "maxnodes", 200000):
                        raise TooMany("%s: more than %d abstract states" % (self.fn.name, self.nodes - 1))
                    work.append((dst, s))

    def where(self, st):
        out = []
        t = st.trace
        while t:
            t, i = t
            w = i.where()
            if not out or out[-1] != w:
                out.append(w)
        out.reverse()
        return out

    def _block(self, b, st):
        fn = self.fn
        blk = fn.blocks[b]
        sts = [st.copy()]
        for inst in blk.insts[:-1]:
            if inst.op == "phi":
                continue
            nxt = []
            for s in sts:
                self.steps += 1
                if self.steps > self.limit:
                    raise AnalysisError("value flow: limit exceeded in %s" % fn.name)
                r = self._inst(inst, s)
                nxt.extend([s] if r is None else r)
            sts = nxt
        t = blk.insts[-1]
        out = []
        for s in sts:
            s.trace = (s.trace, t)
            out.extend(self._term(t, s, b))
        return out

    def _edge(self, src, dst, st):
        """assign the phis of dst"""
        fn = self.fn
        new = {}
        back = (src, dst) in self.back
        own = getattr(self.c, "header", None)
        if own is not None and dst in self.headers:
            # the client abstracts the state at loop headers
            for p in fn.blocks[dst].phis:
                for x, pb in p["in"]:
                    if pb == src:
                        new[p.id] = self.val(st, x)
            st.vals.update(new)
            own(self, st, src, dst)
            return (dst, st)
        for p in fn.blocks[dst].phis:
            for x, pb in p["in"]:
                if pb == src:
                    v = self.val(st, x)
                    if back and getattr(self.c, "exact", False):
                        pass            # the loop is followed as it runs
                    elif back and v != st.vals.get(p.id) and isinstance(v, tuple) and v[0] in ("ret", "arg", "alloca", "global"):
                        pass            # one of finitely many names
                    elif back and v != st.vals.get(p.id) and not isinstance(v, int):
                        self._renew(st, p.id)
                        v = ("phi", p.id)
                    elif back and isinstance(v, int) and v != st.vals.get(p.id):
                        # constants carried around a loop: keep small ones only
                        if not -2 <= v <= getattr(self.c, "counted", 2):
                            self._renew(st, p.id)
                            v = ("phi", p.id)
                    new[p.id] = v
        st.vals.update(new)
        return (dst, st)

    def _term(self, t, st, b):
        fn = self.fn
        if t.op == "ret":
            self._exit(st, "ret", t)
            return []
        if t.op == "resume":
            self._exit(st, "throw", t)
            return []
        if t.op == "unreachable":
            self._exit(st, "unreachable", t)
            return []
        if t.op == "br":
            if "cond" not in t.d:
                return [self._edge(b, t["t"], st)]
            c = self.val(st, t["cond"])
            k = self.known(st, c)
            out = []
            for v, dst in ((1, t["t"]), (0, t["f"])):
                if k is not None and bool(k) != bool(v):
                    continue
                s = st.copy()
                if k is None and not self.learn(s, c, v):
                    continue
                out.append(self._edge(b, dst, s))
            return out
        if t.op == "switch":
            c = self.val(st, t["cond"])
            k = self.known(st, c)
            out = []
            hit = False
            for cv, dst in t["cases"]:
                if k is not None and k != cv["v"]:
                    continue
                f = st.facts.get(c) if not isinstance(c, int) else None
                if f is not None and f[0] == "ne" and cv["v"] in f[1]:
                    continue
                hit = True
                s = st.copy()
                if k is None and not self.learn(s, c, cv["v"]):
                    continue
                out.append(self._edge(b, dst, s))
            if not (k is not None and hit):
                s = st.copy()
                if k is None and isinstance(c, tuple):
                    f = s.facts.get(c)
                    o = f[1] if f is not None and f[0] == "ne" else frozenset()
                    s.facts[c] = ("ne", o | {cv["v"] for cv, _ in t["cases"]})
                out.append(self._edge(b, t["def"], s))
            return out
        if t.op == "invoke":
            out = []
            un = st.copy()
            r = self._call(t, st, False)
            for s in ([st] if r is None else r):
                out.append(self._edge(b, t["normal"], s))
            r = self._call(t, un, True)
            for s in ([un] if r is None else r):
                out.append(self._edge(b, t["unwind"], s))
            return out
        raise AnalysisError("value flow: terminator %s" % t.op)

    def _exit(self, st, kind, inst):
        f = getattr(self.c, "exit", None)
        if f:
            f(self, st, kind, inst)

    def _event(self, st, kind, inst, info):
        f = getattr(self.c, "event", None)
        if f:
            return f(self, st, kind, inst, info)

    def cap(self, e, inst):
        return ("val", inst.id) if depth(e) > self.maxdepth else e

    def _inst(self, i, st):
        op = i.op
        self.cur_id = i.id
        if op == "load":
            a = self.val(st, i["ptr"])
            e = self.load(st, a, i["size"])
            st.vals[i.id] = self.cap(e, i)
            return self._event(st, "load", i, (a, i["size"], e))
        if op == "store":
            a = self.val(st, i["ptr"])
            v = self.val(st, i["val"])
            if not isinstance(a, tuple):
                return []       # through a null pointer: not a path of a valid program
            self.store(st, a, i["size"], v)
            return self._event(st, "store", i, (a, i["size"], v))
        if op in ("call",):
            un = None
            if not i.get("nounwind") and not i.get("intr"):
                un = st.copy()
                r = self._call(i, un, True)
                for s in ([un] if r is None else r):
                    s.trace = (s.trace, i)
                    self._exit(s, "throw", i)
            r = self._call(i, st, False)
            if i.get("noreturn"):
                for s in ([st] if r is None else r):
                    s.trace = (s.trace, i)
                    self._exit(s, "noreturn", i)
                return []
            return r
        if op == "getelementptr":
            a = self.val(st, i["base"])
            off = i.get("off")
            if i.get("var"):
                tot = off
                for vv, sc in i["var"]:
                    k = self.known(st, self.val(st, vv))
                    if k is None or tot is None:
                        tot = None
                        break
                    tot += k * sc
                if tot is None:
                    st.vals[i.id] = self.cap(("gep", a, off, tuple(
                        (self.val(st, vv), sc) for vv, sc in i["var"])), i)
                    return
                off = tot
            st.vals[i.id] = self.cap(addr(a, off), i) if off is not None else ("gep", a, i.id)
            return
        if op == "alloca":
            st.vals[i.id] = ("alloca", i.id)
            return
        if op == "icmp":
            a, b = self.val(st, i["ops"][0]), self.val(st, i["ops"][1])
            e = ("icmp", i["pred"], a, b)
            k = self.known(st, e)
            st.vals[i.id] = k if k is not None else self.cap(e, i)
            return
        if op in ("and", "or", "xor", "add", "sub", "mul", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            a, b = self.val(st, i["ops"][0]), self.val(st, i["ops"][1])
            w = _w(i["ty"])
            if w is None:
                st.vals[i.id] = ("val", i.id)
                return
            e = (op, w, a, b)
            k = self.known(st, e)
            if k is None and op in ("add", "sub") and b == 0:
                k = a
            if k is None and op == "sub" and a == b:
                k = 0
            if k is None and op == "sub" and w == 64 and isinstance(a, tuple) and isinstance(b, tuple) \
                    and "addr" in (a[0], b[0]) and split(a)[0] == split(b)[0] and None not in (split(a)[1], split(b)[1]):
                k = self.norm(split(a)[1] - split(b)[1], w)     # places in the same object
            if k is None and op == "add" and isinstance(a, tuple) and a[0] == "add" and a[1] == w \
                    and isinstance(b, int) and isinstance(a[3], int):
                e = ("add", w, a[2], self.norm(a[3] + b, w))
                if e[3] == 0:
                    k = a[2]
            st.vals[i.id] = k if k is not None else self.cap(e, i)
            return
        if op in ("zext", "sext", "trunc"):
            a = self.val(st, i["ops"][0])
            sw = None
            o = i["ops"][0]
            if is_id(o) and o in self.fn.insts:
                sw = _w(self.fn.insts[o].get("ty"))
            elif is_id(o) and o in self.fn.args:
                sw = _w(self.fn.args[o].get("ty"))
            e = ("cast", op, (sw, _w(i["ty"])), a)
            k = self.known(st, e)
            st.vals[i.id] = k if k is not None else self.cap(e, i)
            return
        if op in ("freeze", "bitcast", "inttoptr", "ptrtoint", "addrspacecast"):
            st.vals[i.id] = self.val(st, i["ops"][0])
            return
        if op == "select":
            c = self.val(st, i["ops"][0])
            k = self.known(st, c)
            if k is not None:
                st.vals[i.id] = self.val(st, i["ops"][1 if k else 2])
                return
            a, b = self.val(st, i["ops"][1]), self.val(st, i["ops"][2])
            if a == b:
                st.vals[i.id] = a
                return
            s2 = st.copy()
            out = []
            if self.learn(st, c, 1):
                st.vals[i.id] = a
                out.append(st)
            if self.learn(s2, c, 0):
                s2.vals[i.id] = b
                out.append(s2)
            return out
        if op == "landingpad":
            self._renew(st, i.id)
            st.vals[i.id] = ("lp", i.id)
            return self._event(st, "catch", i, None)
        if op in ("atomicrmw", "cmpxchg"):
            a = self.val(st, i["ptr"])
            self._renew(st, i.id)
            base, off = split(a)
            solo = i.get("rmw") == "xchg" and a in st.cells and getattr(self.c, "solo", None) == base
            was = self.load(st, a, i["size"]) if solo else None
            self.kill(st, base, off, i["size"])
            st.vals[i.id] = ("ret", i.id) if was is None else was
            if solo:
                self.store(st, a, i["size"], self.val(st, i["val"]))
            return self._event(st, "atomic", i, (a, i["size"], self.val(st, i["val"])))
        if op == "extractvalue":
            a = self.val(st, i["ops"][0])
            x = i.get("idx")
            x = x[0] if isinstance(x, (list, tuple)) and len(x) == 1 else x
            if isinstance(a, tuple) and a[0] == "ovf" and (a[1] != "mul" or isinstance(a[4], int) and a[4] > 0):
                _, k, w, l, r = a
                e = (k, w, l, r)
                v = e if x == 0 else ("icmp", "ugt", l, ((1 << w) - 1) // r) if k == "mul" else \
                    ("icmp", "ult", l, r) if k == "sub" else ("icmp", "ult", e, l)
                n = self.known(st, v)
                st.vals[i.id] = self.cap(v, i) if n is None else n
                return
            st.vals[i.id] = self.cap(("xv", i.get("idx"), a), i)
            return
        if op == "fence":
            return self._event(st, "fence", i, None)
        self._renew(st, i.id)
        st.vals[i.id] = ("val", i.id)

    def _call(self, i, st, unwinding):
        self.cur_id = i.id
        name = i.callee() or ""
        args = [self.val(st, o) for o in i.get("ops", ())]
        if i.get("intr"):
            if name.startswith(("llvm.umul.with.overflow.i", "llvm.uadd.with.overflow.i", "llvm.usub.with.overflow.i")):
                st.vals[i.id] = ("ovf", name[6:9], int(name.rsplit(".i", 1)[1])) + tuple(args[:2])
                return
            if name.startswith(("llvm.memcpy", "llvm.memmove")):
                n = args[2] if len(args) > 2 else None
                db, do = split(args[0])
                if isinstance(n, int) and do is not None:
                    src = {}
                    sb, so = split(args[1])
                    if so is not None:
                        for k in list(st.cells):
                            if k[0] == "range":
                                continue
                            b2, o2 = split(k)
                            if b2 == sb and o2 is not None and so <= o2 and o2 + st.cells[k][0] <= so + n:
                                src[o2 - so] = st.cells[k]
                            elif getattr(self.c, "exact", False) and b2 == sb and o2 is not None and so < o2 + st.cells[k][0] and o2 < so + n:
                                z, v = st.cells[k]
                                lo, hi = max(so, o2), min(so + n, o2 + z)
                                for x in range(lo, hi):
                                    src[x - so] = (1, self.piece(v, z, x - o2, 1))
                    rng = [(k, v) for k, v in st.cells.items()
                           if k[0] == "range" and k[1] == sb and so is not None
                           and k[2] <= so and so + n <= k[2] + k[3]]
                    part = [] if rng or so is None or not getattr(self.c, "exact", False) else [
                        (k, v) for k, v in st.cells.items() if k[0] == "range" and k[1] == sb and k[2] < so + n and so < k[2] + k[3]]
                    ep = self.epoch(st, sb)
                    self.kill(st, db, do, n)
                    if so is None:
                        self._renew(st, i.id)
                        st.epochs[db] = i.id
                    else:
                        r = ("range", db, do, n)
                        if rng and rng[0][1][0] == "fill":
                            st.cells[r] = rng[0][1]
                        elif rng:
                            k, v = rng[0]
                            st.cells[r] = ("copy", addr(*_shift(v[1], so - k[2])), v[2])
                        elif part:
                            at = so
                            for (_, _, o2, z), v in sorted(part, key=lambda x: x[0][2]):
                                if at < o2:
                                    st.cells["range", db, do + at - so, o2 - at] = ("copy", addr(sb, at), ep)
                                at = max(at, o2 + z)
                            if at < so + n:
                                st.cells["range", db, do + at - so, so + n - at] = ("copy", addr(sb, at), ep)
                        else:
                            st.cells[r] = ("copy", args[1], ep)
                        for (_, _, o2, z), v in part:
                            lo, hi = max(so, o2), min(so + n, o2 + z)
                            if v[0] == "copy":
                                v = ("copy", addr(*_shift(v[1], lo - o2)), v[2])
                            st.cells["range", db, do + lo - so, hi - lo] = v
                        for o2, c in src.items():
                            st.cells[addr(db, do + o2)] = c
                else:
                    self.havoc_base(st, db, i.id)
                return self._event(st, "memcpy", i, args)
            if name.startswith("llvm.memset"):
                db, do = split(args[0])
                if isinstance(args[2], int) and do is not None:
                    self.kill(st, db, do, args[2])
                    st.cells[("range", db, do, args[2])] = ("fill", args[1])
                else:
                    self.havoc_base(st, db, i.id)
                return self._event(st, "memset", i, args)
            if name.startswith("llvm.expect"):
                st.vals[i.id] = args[0]
                return
            if name.startswith(("llvm.lifetime.end", "llvm.lifetime.start")):
                return
            self._renew(st, i.id)
            if len(args) and i.get("ty") != "void":
                e = ("intr", name) + tuple(args)
                st.vals[i.id] = e if depth(e) <= self.maxdepth else ("val", i.id)
            if name.startswith("llvm.assume") and args:
                self.learn(st, args[0], 1)
            return
        r = self._event(st, "throw" if unwinding else "call", i, (name, args))
        sts = [st] if r is None else r
        for s in sts:
            given = s.vals.get(i.id) if i.id in s.vals else None
            self._renew(s, i.id)
            if given is not None:
                s.vals[i.id] = given
            if i.get("ty") != "void" and not unwinding:
                if i.id not in s.vals or s.vals[i.id] is None:
                    s.vals[i.id] = ("new", i.id) if name.startswith(("_Znw", "_Zna")) else ("ret", i.id)
            h = getattr(self.c, "havoc", None)
            if h is not None and h(self, s, i, name, args):
                continue
            self.default_havoc(s, i, name, args)
        for s in sts:
            s.vals = dict(s.vals)
        return r

    def default_havoc(self, st, i, name, args):
        if name == "vp_x_lock":
            self.havoc_base(st, split(args[0])[0], i.id)
            return
        if name in ("vp_x_cv_wait", "vp_x_cv_timedwait"):
            self.havoc_base(st, split(args[1])[0], i.id)
            return
        if name.startswith(NO_EFFECT):
            return
        m = OBJ_CALL.match(name)
        if m:
            n = OBJ_SIZE[next(k for k in OBJ_SIZE if name.startswith(k))]
            for a in args[:2]:
                if isinstance(a, tuple):
                    b, o = split(a)
                    self._renew(st, i.id)
                    self.kill(st, b, o, n)
                    if o is not None:
                        st.cells[("range", b, o, n)] = ("fill", ("ret", i.id))
                    else:
                        st.epochs[b] = i.id
            return
        if name == "" or name in ("vp_xt_user_call", "vp_x_user_call"):
            self.havoc_all(st, i.id)
            return
        for a in args:
            if isinstance(a, tuple):
                b, o = split(a)
                if b[0] in ("arg", "mem", "alloca", "new", "ret", "phi", "val", "global"):
                    if b[0] == "mem" and False:
                        continue
                    self.havoc_base(st, b, i.id)

    # ---- types of addresses -------------------------------------------
    def base_type(self, st, base, d=0):
        T = self.fn.types
        if d > 8 or not isinstance(base, tuple):
            return -1
        if base[0] == "arg":
            return T.pointee(self.fn.arg_list[base[1]]["t"])
        if base[0] == "alloca":
            return self.fn.insts[base[1]].get("t", -1)
        if base[0] == "mem":
            return T.pointee(self.member_type(st, base[1], d + 1))
        return -1

    def member_type(self, st, a, d=0):
        base, off = split(a)
        t = self.base_type(st, base, d)
        if t < 0 or off is None:
            return -1
        _, ty, rest = self.fn.resolve_cast(t, off)
        return ty if rest == 0 else -1

    def fields(self, st, a):
        base, off = split(a)
        t = self.base_type(st, base)
        if t < 0 or off is None:
            return []
        chain, _, _ = self.fn.resolve_cast(t, off)
        return chain


def place(fl, st, inst):
    """location in the analysed repository which is closest to an exit"""
    if inst is not None and inst.where().startswith("src/"):
        return inst.where()
    for w in reversed(fl.where(st)):
        if w.startswith("src/"):
            return w
    for e in reversed(st.auto if isinstance(st.auto, tuple) else ()):
        if isinstance(e, tuple) and e and is_id(e[-1]) and e[-1] in fl.fn.insts:
            w = fl.fn.insts[e[-1]].where()
            if w.startswith("src/"):
                return w
    for i in fl.fn.all_insts():
        if i.where().startswith("src/"):
            return i.where()
    return inst.where() if inst is not None else fl.fn.name
