"""Model of the normalised program exported by irx: functions, control flow,
access paths with debug-type resolution, and a path-sensitive (property
simulation) exploration engine."""
import functools
import os
import re
from collections import deque


class AnalysisError(Exception):
    """The analysis itself cannot decide (vanished anchor, blow-up, ...)."""


def is_id(v):
    return isinstance(v, int)


class Types:
    def __init__(self, types):
        self.t = types
        self.derived = {}
        for t in types:
            for e in t.get("elems", ()):
                if e["inh"] and e["off"] == 0:
                    self.derived.setdefault(self.strip(e["t"]), []).append(t["id"])

    def strip(self, i):
        """Strip typedefs and cv qualifiers."""
        n = 0
        while i >= 0 and self.t[i]["kind"] in (
                "DW_TAG_typedef", "DW_TAG_const_type", "DW_TAG_volatile_type",
                "DW_TAG_restrict_type", "DW_TAG_atomic_type"):
            i = self.t[i]["base"]
            n += 1
            if n > 60:
                return -1
        return i

    def is_const(self, i):
        while i >= 0 and self.t[i]["kind"] in ("DW_TAG_typedef", "DW_TAG_const_type"):
            if self.t[i]["kind"] == "DW_TAG_const_type":
                return True
            i = self.t[i]["base"]
        return False

    def kind(self, i):
        return self.t[i]["kind"] if i >= 0 else None

    def pointee(self, i):
        i = self.strip(i)
        if i >= 0 and self.t[i]["kind"] in (
                "DW_TAG_pointer_type", "DW_TAG_reference_type",
                "DW_TAG_rvalue_reference_type"):
            return self.t[i]["base"]
        return -1

    def name(self, i):
        i = self.strip(i)
        if i < 0:
            return ""
        return self.t[i].get("qname") or self.t[i]["name"]

    def size(self, i):
        i = self.strip(i)
        return self.t[i]["size"] if i >= 0 else -1

    def elems(self, i):
        i = self.strip(i)
        return self.t[i].get("elems", []) if i >= 0 else []

    def resolve(self, i, off):
        """Chain of (class qname, member name, member type, offset of the class
        within the object) entered at byte offset off, and the innermost type."""
        chain = []
        base = 0
        for _ in range(64):
            i = self.strip(i)
            if i < 0:
                return chain, -1, off
            k = self.t[i]["kind"]
            if k == "DW_TAG_array_type":
                el = self.t[i]["base"]
                es = self.size(el)
                if es <= 0:
                    return chain, i, off
                base += (off // es) * es
                off %= es
                i = el
                continue
            if k not in ("DW_TAG_structure_type", "DW_TAG_class_type", "DW_TAG_union_type"):
                return chain, i, off
            best = None
            for e in self.t[i].get("elems", []):
                sz = self.size(e["t"])
                if e["off"] <= off and (off < e["off"] + max(sz, 1)):
                    # prefer non-empty members over empty bases
                    if e["inh"] and not self.elems(e["t"]):
                        if best is None:
                            pass
                        continue
                    if best is None or k == "DW_TAG_union_type" and best["inh"]:
                        best = e
            if best is None:
                return chain, i, off
            if not best["inh"]:
                chain.append((self.name(i), best["name"], best["t"], base))
            base += best["off"]
            off -= best["off"]
            i = best["t"]
        return chain, i, off


class Inst:
    __slots__ = ("d", "id", "op", "block", "pos", "fn")

    def __init__(self, d, block, pos, fn):
        self.d = d
        self.id = d["id"]
        self.op = d["op"]
        self.block = block
        self.pos = pos
        self.fn = fn

    def get(self, k, default=None):
        return self.d.get(k, default)

    def __getitem__(self, k):
        return self.d[k]

    def is_call(self):
        return self.op in ("call", "invoke")

    def callee(self):
        return self.d.get("callee")

    def locs(self):
        return self.d.get("loc", [])

    def where(self):
        """Innermost /repo location, for reports."""
        for f, l, s in self.locs():
            if "/sharemind/" in f or "/repo/src/" in f:
                return "src/%s:%d (%s)" % (re.sub(r".*/(?:include/)?sharemind/|.*/repo/src/", "", f), l, s)
        for f, l, s in self.locs():
            return "%s:%d (%s)" % (os.path.basename(f), l, s)
        return "?"

    def chain_str(self):
        r = []
        for f, l, s in self.locs():
            r.append("%s:%d %s" % (os.path.basename(f), l, s))
        return " <- ".join(r[:8])

    def within(self, pattern):
        return any(re.search(pattern, s) for _, _, s in self.locs())


class Block:
    __slots__ = ("id", "insts", "succs", "preds", "phis")


class Fn:
    def __init__(self, d, types):
        self.d = d
        self.name = d["name"]
        self.dem = d["dem"]
        self.types = types
        self.args = {a["id"]: a for a in d["args"]}
        self.arg_list = d["args"]
        self.insts = {}
        self.blocks = []
        for b in d["blocks"]:
            B = Block()
            B.id = b["id"]
            B.insts = [Inst(i, B.id, n, self) for n, i in enumerate(b["insts"])]
            B.succs = b["succs"]
            B.preds = []
            B.phis = [i for i in B.insts if i.op == "phi"]
            for i in B.insts:
                self.insts[i.id] = i
            self.blocks.append(B)
        for B in self.blocks:
            for s in B.succs:
                self.blocks[s].preds.append(B.id)
        self._paths = {}
        self._users = None

    def all_insts(self):
        for b in self.blocks:
            for i in b.insts:
                yield i

    @property
    def users(self):
        if self._users is None:
            self._users = {}
            for i in self.all_insts():
                for o in operands(i):
                    if is_id(o):
                        self._users.setdefault(o, []).append(i)
        return self._users

    # ---- access paths -------------------------------------------------
    def path(self, v, depth=0):
        """(root, offs): address obtained from root by adding offs[0], loading a
        pointer, adding offs[1], ...  An offset of None is unknown."""
        if not is_id(v):
            if isinstance(v, dict):
                if v["k"] == "global":
                    return (("global", v["n"]), (0,))
                if v["k"] == "cgep":
                    r, o = self.path(v["base"])
                    return (r, o[:-1] + (None if o[-1] is None else o[-1] + v["off"],))
                if v["k"] == "null":
                    return (("null",), (0,))
            return (("const", str(v)), (0,))
        if v in self._paths:
            return self._paths[v]
        self._paths[v] = (("val", v), (0,))  # recursion guard
        r = self._path(v, depth)
        self._paths[v] = r
        return r

    def _path(self, v, depth):
        if depth > 80:
            return (("val", v), (0,))
        if v in self.args:
            return (("arg", v), (0,))
        i = self.insts[v]
        if i.op == "getelementptr":
            r, o = self.path(i["base"], depth + 1)
            off = i.get("off")
            if off is None or i.get("var"):
                return (r, o[:-1] + (None,))
            return (r, o[:-1] + (None if o[-1] is None else o[-1] + off,))
        if i.op == "load" and i["ty"] == "ptr":
            r, o = self.path(i["ptr"], depth + 1)
            if r[0] == "alloca" or r[0] == "val" and False:
                # Contents of local memory change: not a stable path.
                return (("val", v), (0,))
            return (r, o + (0,))
        if i.op == "alloca":
            return (("alloca", v), (0,))
        if i.op in ("phi", "select"):
            ins = [x[0] for x in i["in"]] if i.op == "phi" else i["ops"][1:]
            ps = set()
            for x in ins:
                if isinstance(x, dict) and x["k"] in ("undef", "poison", "null"):
                    continue
                if x == v:
                    continue
                ps.add(self.path(x, depth + 1))
            if len(ps) == 1:
                return ps.pop()
            return (("val", v), (0,))
        if i.op in ("inttoptr", "ptrtoint", "bitcast", "freeze", "addrspacecast"):
            return self.path(i["ops"][0], depth + 1)
        return (("val", v), (0,))

    def root_type(self, root, depth=0):
        """DI type of the object that the root address points to."""
        if root[0] == "arg":
            return self.types.pointee(self.args[root[1]]["t"])
        if root[0] == "alloca":
            return self.insts[root[1]].get("t", -1)
        if root[0] == "val" and depth < 6:
            i = self.insts.get(root[1])
            if i is not None and i.op in ("phi", "select"):
                ins = [x[0] for x in i["in"]] if i.op == "phi" else i["ops"][1:]
                ts = set()
                for x in ins:
                    if isinstance(x, dict) or x == root[1]:
                        continue
                    p = self.path(x)
                    if p[0] == root:
                        continue
                    t = self.obj_type(p, depth + 1)
                    ts.add(self.types.strip(t))
                ts.discard(-1)
                if len(ts) == 1:
                    return ts.pop()
            if i is not None and i.op == "load":
                p = self.path(i["ptr"])
                t = self.member_type(p, depth + 1)
                return self.types.pointee(t)
        return -1

    def member_type(self, path, depth=0):
        """DI type of the innermost scalar at the address."""
        root, offs = path
        t = self.seg_type(path, len(offs) - 1, depth)
        if t < 0 or offs[-1] is None:
            return -1
        _, ty, rest = self.resolve_cast(t, offs[-1])
        return ty if rest == 0 else -1

    def obj_type(self, path, depth=0):
        """DI type of the object at exactly this address (outermost)."""
        root, offs = path
        t = self.seg_type(path, len(offs) - 1, depth)
        if t >= 0 and offs[-1] == 0:
            return t
        return -1

    def resolve_cast(self, t, off):
        T = self.types
        sz = T.size(t)
        n = 0
        while sz >= 0 and off >= max(sz, 1) and n < 4:
            ds = T.derived.get(T.strip(t), [])
            if len(ds) != 1:
                break
            t = ds[0]
            sz = T.size(t)
            n += 1
        return T.resolve(t, off)

    @functools.lru_cache(maxsize=None)
    def seg_type(self, path, seg, depth=0):
        root, offs = path
        t = self.root_type(root, depth)
        for k in range(seg):
            if t < 0 or offs[k] is None:
                return -1
            _, ty, rest = self.resolve_cast(t, offs[k])
            t = self.types.pointee(ty)
        return t

    @functools.lru_cache(maxsize=None)
    def fields(self, path):
        """Members of the accessed object on the way to the address:
        [(class, member, member type, offset of class in segment)]"""
        root, offs = path
        t = self.seg_type(path, len(offs) - 1)
        if t < 0 or offs[-1] is None:
            return ()
        chain, _, _ = self.resolve_cast(t, offs[-1])
        return tuple(chain)

    @functools.lru_cache(maxsize=None)
    def describe(self, path):
        root, offs = path
        s = {"arg": "arg%s", "alloca": "local%s", "val": "v%s", "global": "%s"}.get(root[0], "%s")
        s = s % (root[1] if len(root) > 1 else root[0])
        for k in range(len(offs)):
            t = self.seg_type(path, k)
            names = []
            if t >= 0 and offs[k] is not None:
                chain, _, rest = self.resolve_cast(t, offs[k])
                names = [c[1] or "?" for c in chain]
            if k:
                s += "->"
            if names:
                s += ("" if k else ".") + ".".join(names)
            elif offs[k] != 0 or k:
                s += "+%s" % (offs[k],)
        return s

    # ---- dominators ---------------------------------------------------
    @functools.cached_property
    def idom(self):
        order = []
        seen = set()
        stack = [(0, iter(self.blocks[0].succs))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.blocks[s].succs)))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        num = {b: n for n, b in enumerate(order)}
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in self.blocks[b].preds:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True
        return idom

    def dominates(self, a, b):
        """instruction a dominates instruction b"""
        if a.block == b.block:
            return a.pos < b.pos
        return self.block_dom(a.block, b.block)

    def block_dom(self, a, b):
        idom = self.idom
        if b not in idom:
            return True
        while True:
            if a == b:
                return True
            n = idom[b]
            if n == b:
                return False
            b = n

    @functools.cached_property
    def reach(self):
        """block -> set of blocks reachable by at least one edge"""
        r = {}
        for b in self.blocks:
            seen = set()
            dq = deque(b.succs)
            while dq:
                x = dq.popleft()
                if x in seen:
                    continue
                seen.add(x)
                dq.extend(self.blocks[x].succs)
            r[b.id] = seen
        return r


def operands(i):
    for k in ("ops", "var"):
        for o in i.get(k, ()) or ():
            if k == "var":
                yield o[0]
            else:
                yield o
    for k in ("ptr", "val", "cmp", "base", "cond", "fnptr"):
        if k in i.d:
            yield i.d[k]
    for x in i.get("in", ()) or ():
        yield x[0]


class Module:
    def __init__(self, j):
        self.types = Types(j["types"])
        self.fns = {f["name"]: Fn(f, self.types) for f in j["functions"]}
        self.decls = set(j.get("decls", []))

    def entries(self, pattern):
        r = [f for n, f in sorted(self.fns.items()) if re.search(pattern, n)]
        return r


# ---------------------------------------------------------------------------
# Path exploration (property simulation): user states are explored per block
# together with the branch conditions known on the path.

M64 = (1 << 64) - 1


def _w(ty):
    m = re.match(r"i(\d+)$", ty or "")
    return int(m.group(1)) if m else None


def _sx(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


class Assume:
    """A successor state together with values known in it."""
    __slots__ = ("state", "facts")

    def __init__(self, state, facts):
        self.state = state
        self.facts = facts


class Sim:
    """transfer(inst, ustate) -> iterable of new ustates (or None = path ends).
    edge(fn, inst, kind, ustate): optional hook.
    exits: list of (kind, inst, ustate, trace) with kind in ret/resume/unreachable."""

    def __init__(self, fn, init, transfer, on_exit=None, limit=400000, on_branch=None,
                 follow_unwind=True, force=(), transfer_unwind=None, bind=None, on_phis=None):
        self.fn = fn
        self.force = set(force)
        self.transfer_unwind = transfer_unwind
        self.transfer = transfer
        self.on_exit = on_exit
        self.on_branch = on_branch
        self.limit = limit
        self.steps = 0
        self.follow_unwind = follow_unwind
        self.on_phis = on_phis
        if bind:
            bind(self)
        self.parent = {}
        self._relevant()
        self._run(init)

    def _relevant(self):
        fn = self.fn
        uses = {}
        condops = set()
        stack = []
        for b in fn.blocks:
            t = b.insts[-1]
            if t.op in ("br", "switch") and is_id(t.get("cond")):
                stack.append(t["cond"])
        seen = set()
        while stack:
            v = stack.pop()
            condops.add(v)
            if v in seen or v not in fn.insts:
                continue
            seen.add(v)
            i = fn.insts[v]
            if i.op in ("icmp", "and", "or", "xor", "zext", "sext", "trunc", "select", "freeze", "phi", "add", "sub"):
                for o in operands(i):
                    if is_id(o):
                        stack.append(o)
        # a value is worth tracking if it is a phi or feeds more than one use
        # in the closure of conditions
        cnt = {}
        for b in fn.blocks:
            t = b.insts[-1]
            if t.op in ("br", "switch") and is_id(t.get("cond")):
                cnt[t["cond"]] = cnt.get(t["cond"], 0) + 1
        for v in condops:
            if v in fn.insts:
                for o in operands(fn.insts[v]):
                    if is_id(o):
                        cnt[o] = cnt.get(o, 0) + 1
        self.track = {v for v in condops
                      if cnt.get(v, 0) > 1 or (v in fn.insts and fn.insts[v].op == "phi")}
        self.track |= self.force
        # blocks where a tracked value is still useful
        self.useblocks = {}
        for b in fn.blocks:
            t = b.insts[-1]
            if t.op in ("br", "switch") and is_id(t.get("cond")):
                st = [t["cond"]]
                sn = set()
                while st:
                    v = st.pop()
                    if v in sn:
                        continue
                    sn.add(v)
                    if v in self.track:
                        self.useblocks.setdefault(v, set()).add(b.id)
                    if v in fn.insts:
                        i = fn.insts[v]
                        if i.op == "phi":
                            continue
                        if i.op in ("icmp", "and", "or", "xor", "zext", "sext", "trunc", "select", "freeze", "add", "sub"):
                            st.extend(o for o in operands(i) if is_id(o))
        # phi inputs: needed at the predecessor block end
        for b in fn.blocks:
            for p in b.phis:
                if p.id in self.track:
                    for x, pb in p["in"]:
                        if is_id(x) and x in self.track:
                            self.useblocks.setdefault(x, set()).add(pb)
        self._useful = {}

    def useful(self, v, b):
        k = (v, b)
        r = self._useful.get(k)
        if r is None:
            ub = self.useblocks.get(v, ())
            r = b in ub
            if not r and ub:
                d = self.fn.insts[v].block if v in self.fn.insts else None
                # reachable use without passing the definition again
                seen = set()
                dq = deque([b])
                while dq and not r:
                    x = dq.popleft()
                    for s in self.fn.blocks[x].succs:
                        if s in seen or s == d:
                            continue
                        seen.add(s)
                        if s in ub:
                            r = True
                            break
                        dq.append(s)
            self._useful[k] = r
        return r

    def ev(self, v, known, depth=0):
        if isinstance(v, dict):
            if v["k"] == "int":
                return v["v"]
            if v["k"] == "null":
                return 0
            return None
        if isinstance(v, bool):
            return int(v)
        if v in known:
            return known[v]
        if depth > 12 or v not in self.fn.insts:
            return None
        i = self.fn.insts[v]
        if i.op == "icmp":
            a = self.ev(i["ops"][0], known, depth + 1)
            b = self.ev(i["ops"][1], known, depth + 1)
            if a is None or b is None:
                return None
            p = i["pred"]
            ua, ub = a & M64, b & M64
            return int({"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b,
                        "sge": a >= b, "ult": ua < ub, "ule": ua <= ub, "ugt": ua > ub,
                        "uge": ua >= ub}[p])
        if i.op in ("and", "or", "xor", "add", "sub"):
            a = self.ev(i["ops"][0], known, depth + 1)
            b = self.ev(i["ops"][1], known, depth + 1)
            w = _w(i["ty"])
            if i.op == "and" and (a == 0 or b == 0):
                return 0
            if i.op == "or" and w == 1 and (a in (1, -1) or b in (1, -1)):
                return 1
            if a is None or b is None or w is None:
                return None
            r = {"and": a & b, "or": a | b, "xor": a ^ b, "add": a + b, "sub": a - b}[i.op]
            return (r & 1) if w == 1 else _sx(r, w)
        if i.op in ("zext", "trunc", "sext", "freeze"):
            a = self.ev(i["ops"][0], known, depth + 1)
            if a is None:
                return None
            w = _w(i["ty"])
            if w is None:
                return a
            if i.op == "zext":
                src = self.fn.insts.get(i["ops"][0])
                sw = _w(src["ty"]) if src is not None else None
                if sw:
                    a &= (1 << sw) - 1
                return a
            if i.op == "trunc":
                return (a & 1) if w == 1 else _sx(a, w)
            if i.op == "sext":
                src = self.fn.insts.get(i["ops"][0])
                if src is not None and _w(src["ty"]) == 1:
                    return -(a & 1)
            return a
        if i.op == "select":
            c = self.ev(i["ops"][0], known, depth + 1)
            if c is None:
                a = self.ev(i["ops"][1], known, depth + 1)
                b = self.ev(i["ops"][2], known, depth + 1)
                return a if a == b else None
            return self.ev(i["ops"][1] if c else i["ops"][2], known, depth + 1)
        return None

    def learn(self, v, val, known, depth=0):
        """record that value v equals val (constant) and its consequences"""
        if not is_id(v) or depth > 8:
            return
        if v in self.track:
            known[v] = val
        if v not in self.fn.insts:
            return
        i = self.fn.insts[v]
        if i.op == "icmp":
            a, b = i["ops"]
            if (i["pred"] == "eq" and val) or (i["pred"] == "ne" and not val):
                cb = self.ev(b, known)
                if cb is not None:
                    self.learn(a, cb, known, depth + 1)
                ca = self.ev(a, known)
                if ca is not None:
                    self.learn(b, ca, known, depth + 1)
            elif i["pred"] in ("eq", "ne"):
                # x != 0 for a boolean-like value
                cb = self.ev(b, known)
                if cb == 0 and is_id(a) and a in self.fn.insts:
                    j = self.fn.insts[a]
                    if _w(j.get("ty")) == 1 or j.op == "zext" and _w(
                            self.fn.insts[j["ops"][0]]["ty"] if j["ops"][0] in self.fn.insts else "") == 1:
                        self.learn(a, 1, known, depth + 1)
        elif i.op == "xor" and _w(i["ty"]) == 1:
            b = self.ev(i["ops"][1], known)
            if b is not None:
                self.learn(i["ops"][0], (val ^ b) & 1, known, depth + 1)
        elif i.op == "and" and _w(i["ty"]) == 1 and val:
            self.learn(i["ops"][0], 1, known, depth + 1)
            self.learn(i["ops"][1], 1, known, depth + 1)
        elif i.op == "or" and _w(i["ty"]) == 1 and not val:
            self.learn(i["ops"][0], 0, known, depth + 1)
            self.learn(i["ops"][1], 0, known, depth + 1)
        elif i.op == "select" and _w(i["ty"]) == 1:
            t = self.ev(i["ops"][1], known)
            f = self.ev(i["ops"][2], known)
            if f is not None and f != val:
                self.learn(i["ops"][0], 1, known, depth + 1)
                self.learn(i["ops"][1], val, known, depth + 1)
            elif t is not None and t != val:
                self.learn(i["ops"][0], 0, known, depth + 1)
                self.learn(i["ops"][2], val, known, depth + 1)
        elif i.op in ("zext", "freeze"):
            self.learn(i["ops"][0], val, known, depth + 1)

    def _run(self, init):
        fn = self.fn
        start = (0, init, frozenset())
        self.parent[start] = None
        seen = {start}
        work = [start]
        while work:
            node = work.pop()
            b, ustate, kn = node
            blk = fn.blocks[b]
            known = dict(kn)
            states = [(ustate, known)]
            for inst in blk.insts:
                if inst.op == "phi":
                    continue
                nxt = []
                for us, k in states:
                    self.steps += 1
                    if self.steps > self.limit:
                        raise AnalysisError("path exploration limit exceeded in %s" % fn.name)
                    self.cur_node = node
                    self.cur_known = k
                    if inst.id in k:
                        k = dict(k)
                        del k[inst.id]
                    if inst.op in ("br", "switch", "ret", "resume", "unreachable", "invoke"):
                        nxt.append((us, k))
                        continue
                    res = self.transfer(inst, us)
                    if res is None:
                        continue
                    for r in res:
                        if isinstance(r, Assume):
                            k2 = dict(k)
                            k2.update(r.facts)
                            nxt.append((r.state, k2))
                        else:
                            nxt.append((r, k))
                states = nxt
            t = blk.insts[-1]
            for us, k in states:
                self.cur_node = node
                self.cur_known = k
                if t.op in ("ret", "resume", "unreachable"):
                    if self.on_exit:
                        self.on_exit(t.op, t, us)
                    continue
                succs = []
                if t.op == "br":
                    if "cond" not in t.d:
                        succs.append((t["t"], us, k))
                    else:
                        c = self.ev(t["cond"], k)
                        for val, dst in ((1, t["t"]), (0, t["f"])):
                            if c is not None and bool(c) != bool(val):
                                continue
                            k2 = dict(k)
                            if c is None:
                                self.learn(t["cond"], val, k2)
                            us2 = us
                            if self.on_branch:
                                us2 = self.on_branch(t, val, us, k)
                                if us2 is None:
                                    continue
                            succs.append((dst, us2, k2))
                elif t.op == "switch":
                    c = self.ev(t["cond"], k)
                    done = set()
                    hit = False
                    for cv, dst in t["cases"]:
                        if c is not None and c != cv["v"]:
                            continue
                        hit = True
                        k2 = dict(k)
                        self.learn(t["cond"], cv["v"], k2)
                        us2 = us
                        if self.on_branch:
                            us2 = self.on_branch(t, cv["v"], us, k)
                            if us2 is None:
                                continue
                        succs.append((dst, us2, k2))
                    if not (c is not None and hit):
                        us2 = us
                        if self.on_branch:
                            us2 = self.on_branch(t, None, us, k)
                        if us2 is not None:
                            succs.append((t["def"], us2, k))
                elif t.op == "invoke":
                    res = self.transfer(t, us)
                    if res is not None:
                        for r in res:
                            if isinstance(r, Assume):
                                k2 = dict(k)
                                k2.update(r.facts)
                                succs.append((t["normal"], r.state, k2))
                            else:
                                succs.append((t["normal"], r, k))
                    if self.follow_unwind:
                        tu = self.transfer_unwind
                        us2 = us if tu is None else tu(t, us)
                        if us2 is not None:
                            succs.append((t["unwind"], us2, k))
                else:
                    raise AnalysisError("unknown terminator %s in %s" % (t.op, fn.name))
                for dst, us2, k2 in succs:
                    kk = dict(k2)
                    newphi = {}
                    if self.on_phis and fn.blocks[dst].phis:
                        us2 = self.on_phis(
                            [(p.id, next((x for x, pb in p["in"] if pb == b), None))
                             for p in fn.blocks[dst].phis], us2)
                    for p in fn.blocks[dst].phis:
                        val = None
                        for x, pb in p["in"]:
                            if pb == b:
                                val = self.ev(x, k2)
                        newphi[p.id] = val
                    for pid, val in newphi.items():
                        if val is not None and pid in self.track:
                            kk[pid] = val
                        else:
                            kk.pop(pid, None)
                    kk = frozenset((v, c) for v, c in kk.items() if self.useful(v, dst))
                    n2 = (dst, us2, kk)
                    if n2 not in seen:
                        seen.add(n2)
                        self.parent[n2] = node
                        work.append(n2)
        self.nodes = seen

    def trace(self, node=None):
        """Block path (with source lines) leading to a node."""
        node = node or self.cur_node
        bl = []
        while node is not None:
            bl.append(node[0])
            node = self.parent[node]
        bl.reverse()
        out = []
        for b in bl:
            for i in self.fn.blocks[b].insts[-1:]:
                out.append(i.where())
        r = []
        for o in out:
            if not r or r[-1] != o:
                r.append(o)
        return r
