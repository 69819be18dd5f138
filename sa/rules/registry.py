"""C18: identifier pools and shared resource maps."""
import re
import subprocess
from collections import namedtuple

from ..flow import Flow, addr, split
from ..ir import AnalysisError
from .future import same
from .lockfree import bad, entry

A0, A1, A2, A3 = [("arg", n) for n in range(4)]
KEEP = [r"(^|[ ])std::(set|map)<.*>::(find|count|insert|emplace|try_emplace|erase|end|begin|size|empty|lower_bound)"
        r"(\[abi:cxx11\])?(<.*>)?\("]
_names = {}


def demangle(n):
    if n not in _names:
        _names[n] = subprocess.run(["c++filt", n], stdout=subprocess.PIPE, text=True).stdout.strip()
    return _names[n]


OP = re.compile(r"(?:^|\s)std::(set|map)<.*>::(\w+)(\[abi:cxx11\])?(<.*>)?\((.*)\)( const)?$")
_ops = {}


def coll_op(name):
    """(method, takes an iterator) of a call on a standard set or map, or None"""
    if name not in _ops:
        m = OP.search(demangle(name)) if "St3set" in name or "St3map" in name else None
        _ops[name] = None if m is None else (m.group(2), "_iterator" in m.group(5))
    return _ops[name]


P = namedtuple("P", "lock looks adds erased refs first thrown pend gone")
START = P(None, (), (), (), (), None, None, None, ())


class Pool:
    """records lookups in and changes of the set of reserved identifiers, and references to pools"""

    def __init__(self, ctx, fn):
        self.ctx, self.fn = ctx, fn
        self.exits = []

    def present(self, fl, st, l):
        """whether a lookup found its key: True, False or None"""
        how, coll, key, ret = l
        if how == "find":
            k = fl.known(st, ("icmp", "eq", ret, ("end", coll)))
            return None if k is None else not k
        if how == "count":
            k = fl.known(st, ("icmp", "eq", ret, 0))
            return None if k is None else not k
        for e, f in list(st.facts.items()):
            b = e
            while isinstance(b, tuple) and b[0] in ("cast", "and"):
                b = next((x for x in b[2:] if isinstance(x, tuple)), None)
            if isinstance(b, tuple) and len(b) == 3 and b[0] == "xv" and b[2] == ret and b[1] in (1, (1,)):
                if f[0] == "eq":
                    return not f[1] & 1
                if 0 in f[1]:
                    return False
        return None

    def absent(self, fl, st, coll, key):
        return any(l[1] == coll and same(fl, st, l[2], key) and self.present(fl, st, l) is False for l in st.auto.looks)

    def locked(self, fl, st, inst, coll):
        a = st.auto
        if a.lock is None or split(a.lock)[0] != split(coll)[0]:
            bad(self.ctx, self.fn, fl, st, inst, "the reserved identifiers are used without holding the lock of the pool")
        if any(same(fl, st, split(coll)[0], s) for s in a.gone):
            bad(self.ctx, self.fn, fl, st, inst, "the pool is used after the reference to it was given up")

    def event(self, fl, st, kind, inst, info):
        if kind not in ("call", "throw"):
            return
        name, args = info
        a = st.auto
        if name == "vp_x_lock":
            st.auto = a._replace(lock=args[0])
        elif name == "vp_x_unlock":
            st.auto = a._replace(lock=None, looks=(), first=None)
        elif name == "__cxa_throw":
            t = args[1][1] if isinstance(args[1], tuple) else str(args[1])
            if "ReserveException" in t and kind == "throw":
                self.exhausted(fl, st, inst)
            st.auto = a._replace(thrown=t)
        elif "_M_add_ref_copy" in name:
            if kind == "throw":
                return []
            st.auto = a._replace(refs=a.refs + ((args[0], 1),))
        elif "_Sp_counted_base" in name and "_M_release" in name:
            if kind == "throw":
                return []
            st.auto = a._replace(refs=a.refs + ((args[0], -1),),
                                 gone=a.gone + tuple(s for s, c in self.owners if same(fl, st, c, args[0])))
        else:
            op = coll_op(name)
            if op is None:
                return
            op, it = op
            coll = args[0]
            if op == "end":
                st.vals[inst.id] = ("end", coll)
                return
            self.ctx.count("operations on reserved identifiers")
            if len(a.adds) + len(a.erased) > 4:
                bad(self.ctx, self.fn, fl, st, inst, "the reserved identifiers are changed again and again")
                return []
            self.locked(fl, st, inst, coll)
            # what was already there was not added
            st.auto = a = a._replace(adds=tuple(x for x in a.adds if x[3] or self.present(fl, st, ("insert", None, x[1], x[2])) is not True))
            if op in ("find", "count", "insert", "emplace") and not it:
                key = fl.load(st, args[1], 4)
                if kind == "throw":
                    return              # nothing is added
                if op in ("insert", "emplace"):
                    if not a.looks or not self.absent(fl, st, coll, key) and not same(fl, st, a.looks[-1][2], key):
                        self.next(fl, st, inst, key)
                    known = self.absent(fl, st, coll, key)
                    a = st.auto
                    st.auto = a._replace(pend=("insert", coll, key, args[1], known))
                else:
                    self.next(fl, st, inst, key)
                    st.auto = st.auto._replace(pend=(op, coll, key, args[1], None))
            elif op == "erase":
                key = None
                if it:
                    key = next((l[2] for l in a.looks if l[3] == args[1]), None)
                else:
                    key = fl.load(st, args[1], 4)
                if kind == "throw":
                    st.auto = a._replace(thrown="erase")
                    return
                st.auto = a._replace(erased=a.erased + ((split(coll)[0], key),), looks=())
            elif op not in ("size", "empty"):
                raise AnalysisError("%s: operation %s on the reserved identifiers is not understood" % (self.fn.name, op))

    def next(self, fl, st, inst, key):
        """another candidate is looked up"""
        a = st.auto
        if not a.looks:
            st.auto = a._replace(first=key)
            return
        l = a.looks[-1]
        if same(fl, st, l[2], key):
            return
        if self.present(fl, st, l) is not True:
            bad(self.ctx, self.fn, fl, st, inst, "an identifier is passed over although it was not found to be reserved")
        if not same(fl, st, key, ("add", 32, l[2], 1)):
            bad(self.ctx, self.fn, fl, st, inst, "the identifiers are not tried one after the other")

    def exhausted(self, fl, st, inst):
        a = st.auto
        l = a.looks[-1] if a.looks else None
        if l is None or self.present(fl, st, l) is not True \
                or not same(fl, st, ("add", 32, l[2], 1), a.first):
            bad(self.ctx, self.fn, fl, st, inst, "the pool is reported as exhausted although not every identifier was found reserved")
        self.ctx.count("reports of exhaustion")

    def havoc(self, fl, st, inst, name, args):
        op = coll_op(name)
        if op is None:
            return None
        p = st.auto.pend
        if p is not None:
            how, coll, key, ka, known = p
            ret = ("ret", inst.id)
            fl.havoc_base(st, split(ka)[0], inst.id)
            k = fl.load(st, ka, 4)          # the same value: lookups change nothing
            fl.learn(st, ("icmp", "eq", k, key), 1)
            a = st.auto._replace(pend=None)
            if how == "insert":
                a = a._replace(adds=a.adds + ((split(coll)[0], k, ret, known),), looks=((how, coll, k, ret),))
            else:
                a = a._replace(looks=((how, coll, k, ret),) if how != "count" else ((how, coll, k, ret),))
            st.auto = a
        return True

    def exit(self, fl, st, kind, inst):
        self.exits.append((kind, inst, st))


def explore(ctx, fn, owners=()):
    c = Pool(ctx, fn)
    c.owners = owners
    fl = Flow(fn, c, init=START)
    ctx.count("functions explored path by path")
    ctx.count("abstract states", fl.nodes)
    ex = [(k, i, s) for k, i, s in c.exits if k in ("ret", "throw")]
    if not ex:
        raise AnalysisError("%s has no exit" % fn.name)
    return fl, c, ex


def only(m, n, what):
    fn = entry(m, n)
    fl = Flow(fn, Pool(None, fn), init=START)
    ex = [(i, s) for k, i, s in fl.c.exits if k == "ret"]
    vs = {fl.val(s, i["ops"][0]) for i, s in ex}
    if len(vs) != 1:
        raise AnalysisError("%s: %s not recognised" % (n, what))
    return fn, fl, ex[0][1], ex[0][0], vs.pop()


def holders(ctx, m, pre):
    fn, fl, st, inst, v = only(m, pre + "ID_id", "identifier")
    if not (isinstance(v, tuple) and v[0] == "mem" and split(v[1])[0] == A0):
        bad(ctx, fn, fl, st, inst, "id() does not report the identifier held")
        return
    ioff = split(v[1])[1]
    soff = None
    for n in ("ID_valid", "ID_bool"):
        fn, fl, st, inst, v = only(m, pre + n, "validity")
        while isinstance(v, tuple) and v[0] == "cast":
            v = v[3]
        if not (isinstance(v, tuple) and v[0] == "icmp" and v[1] == "ne" and v[3] == 0
                and isinstance(v[2], tuple) and v[2][0] == "mem" and split(v[2][1])[0] == A0):
            bad(ctx, fn, fl, st, inst, "validity is not reported as holding a reference to a pool")
            return
        soff = split(v[2][1])[1]
    if not pre:
        fn, fl, st, inst, v = only(m, "ID_ref", "identifier")
        if v != ("mem", addr(A0, ioff), 4, 0):
            bad(ctx, fn, fl, st, inst, "idRef() does not report the identifier held")

    def tok(a):
        return (("mem", addr(a, soff), 8, 0), ("mem", addr(a, ioff), 4, 0), ("mem", addr(a, soff + 8), 8, 0))

    T0, T1 = tok(A0), tok(A1)
    spec = {    # tokens owned before; objects which may hold afterwards; what this / the other must hold
        "ID_default": ([], (A0,), None, None),
        "ID_move": ([T1], (A0, A1), T1, None),
        "ID_assign": ([T0, T1], (A0, A1), T1, None),
        "ID_selfassign": ([T0], (A0,), T0, None),
        "ID_release": ([T0], (A0,), None, None),
        "ID_dtor": ([T0], (), None, None),
    }
    for e, (owned, hold, this, other) in spec.items():
        fn = entry(m, pre + e)
        fl, c, ex = explore(ctx, fn, [(t[0], t[2]) for t in owned])
        for kind, inst, st in ex:
            if kind == "throw":
                bad(ctx, fn, fl, st, inst, "the operation throws")
                continue
            a = st.auto
            if a.adds:
                bad(ctx, fn, fl, st, inst, "an identifier is reserved by an operation of its holder")
            if a.lock is not None:
                bad(ctx, fn, fl, st, inst, "the lock of the pool is kept")
            held = []
            for h in hold:
                t = tuple(fl.load(st, addr(h, o), s) for o, s in ((soff, 8), (ioff, 4), (soff + 8, 8)))
                held.append(t)
                want = this if h == A0 else other
                null = fl.known(st, t[0]) == 0
                if want is None:
                    if not null:
                        bad(ctx, fn, fl, st, inst, "the holder still holds an identifier")
                elif not (same(fl, st, t[0], want[0]) and same(fl, st, t[1], want[1])):
                    if not (null and fl.known(st, want[0]) == 0):
                        bad(ctx, fn, fl, st, inst, "the holder does not hold the identifier it should")
            for s, k in a.erased:
                if not any(same(fl, st, s, t[0]) and k is not None and same(fl, st, k, t[1]) for t in owned):
                    bad(ctx, fn, fl, st, inst, "an identifier is given back which the holder does not hold")
            for t in owned:
                ctx.count("identifiers followed")
                if fl.known(st, t[0]) != 0:
                    n = sum(same(fl, st, s, t[0]) and k is not None and same(fl, st, k, t[1]) for s, k in a.erased) \
                        + sum(same(fl, st, h[0], t[0]) and same(fl, st, h[1], t[1]) for h in held)
                    if n == 0:
                        bad(ctx, fn, fl, st, inst, "an identifier is neither given back nor held any more")
                    elif n > 1:
                        bad(ctx, fn, fl, st, inst, "an identifier is given back and still held, given back twice, or held twice")
                if fl.known(st, t[2]) != 0:
                    n = sum(-d for r, d in a.refs if same(fl, st, r, t[2])) + sum(same(fl, st, h[2], t[2]) for h in held)
                    if n != 1:
                        bad(ctx, fn, fl, st, inst, "a reference to the pool is lost or given up more than once")
    # reserving
    fn = entry(m, pre + "ID_reserve")
    S, C = ("mem", A0, 8, 0), ("mem", addr(A0, 8), 8, 0)
    fl, c, ex = explore(ctx, fn, [])
    kinds = set()
    for kind, inst, st in ex:
        a = st.auto
        ref = sum(d for r, d in a.refs if same(fl, st, r, C))
        if a.lock is not None:
            bad(ctx, fn, fl, st, inst, "the lock of the pool is kept")
        if a.erased:
            bad(ctx, fn, fl, st, inst, "an identifier is given back while reserving")
        if kind == "throw":
            if any(x[3] or c.present(fl, st, ("insert", None, x[1], x[2])) is not True for x in a.adds):
                bad(ctx, fn, fl, st, inst, "an identifier remains reserved although nobody holds it")
            if ref != 0 and fl.known(st, C) != 0:
                bad(ctx, fn, fl, st, inst, "a reference to the pool is lost")
            kinds.add("exhausted" if a.thrown and "ReserveException" in a.thrown else "throw")
            continue
        kinds.add("ret")
        t = tuple(fl.load(st, addr(A1, o), s) for o, s in ((soff, 8), (ioff, 4), (soff + 8, 8)))
        fresh = [x for x in a.adds if x[3] or c.present(fl, st, ("insert", None, x[1], x[2])) is False]
        unknown = [x for x in a.adds if not x[3] and c.present(fl, st, ("insert", None, x[1], x[2])) is None]
        if unknown:
            bad(ctx, fn, fl, st, inst, "an identifier is handed out without having been found unreserved under the same lock")
        elif len(fresh) != 1:
            bad(ctx, fn, fl, st, inst, "not exactly one identifier is reserved")
        elif not same(fl, st, t[1], fresh[0][1]):
            bad(ctx, fn, fl, st, inst, "another identifier is handed out than the one reserved")
        elif not (same(fl, st, t[0], S) and same(fl, st, fresh[0][0], S)):
            bad(ctx, fn, fl, st, inst, "the holder refers to another pool than the one the identifier is reserved in")
        if fl.known(st, C) != 0 and (not same(fl, st, t[2], C) or ref != 1):
            bad(ctx, fn, fl, st, inst, "the holder has no reference of its own to the pool")
        ctx.count("identifiers followed")
    if not ctx.violations and kinds != {"ret", "throw", "exhausted"}:
        raise AnalysisError("reserve(): outcomes %s" % sorted(kinds))


# ---- shared resource maps ---------------------------------------------------
Q = namedtuple("Q", "lock alive looks made emplaced erased refs pushed visited notes cur")
QSTART = Q(None, (), (), (), (), (), (), (), (), (), None)
VEC = re.compile(r"(?:^|\s)std::vector<std::shared_ptr<.*>::(push_back|emplace_back|reserve|~vector)(<.*>)?\(")
_vec = {}


def vec_op(name):
    if name not in _vec:
        m = VEC.search(demangle(name)) if "St6vector" in name else None
        _vec[name] = m and m.group(1)
    return _vec[name]


MKEEP = tuple(KEEP) + (r"(^|[ ])std::vector<std::shared_ptr<.*>::(push_back|emplace_back|reserve|~vector)(<.*>)?\(",)
DELETER = r"std::_Sp_counted_(deleter|ptr_inplace)<.*sharemind.*>::_M_dispose"


class Layout:
    pass


def fresh(x):
    """the result of the call just made, under its name from now on"""
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "R":
            return ("ret", x[1])
        return type(x)(*[fresh(y) for y in x]) if hasattr(x, "_fields") else tuple(fresh(y) for y in x)
    return x


class Reg:
    """records what happens to the map of resources and to the references to them"""

    def __init__(self, ctx, fn, L):
        self.ctx, self.fn, self.L = ctx, fn, L
        self.exits = []

    def bad(self, fl, st, inst, what):
        bad(self.ctx, self.fn, fl, st, inst, what)

    def private(self, fl, st, base):
        return base[0] == "new"

    def found(self, fl, st, l):
        k = fl.known(st, ("icmp", "eq", l[2], ("end", l[0])))
        return None if k is None else not k

    def record(self, fl, st, node):
        return fl.load(st, addr(node, self.L.second), 8)

    def dead(self, fl, st, o):
        """whether the resource of a record was found expired (True), alive (False), or neither"""
        c = [x for x in st.auto.alive if x[0] == o]
        if not c:
            return None
        o, ctl, how, ret = c[-1]
        if fl.known(st, ctl) == 0:
            return True
        if how == "weak":
            return None
        k = fl.known(st, ("icmp", "eq", ret, 0))
        if k is None:
            return None
        if k:
            return True
        if how == "lock":
            p = ("mem", addr(o, self.L.weak), 8)
            for e in st.facts:
                if isinstance(e, tuple) and e[:3] == p and fl.known(st, e) == 0:
                    return True
                if isinstance(e, tuple) and e[0] == "ret" and fl.known(st, e) == 0 and ("uses", ctl, e) in st.auto.notes:
                    return True
        return False

    def ctl_of(self, fl, st, c):
        """the record whose weak reference has this control block"""
        if isinstance(c, tuple) and c[0] == "mem":
            b, off = split(c[1])
            if off == self.L.weak + 8:
                return b
        return None

    def net(self, fl, st, c):
        return sum(d for r, d in st.auto.refs if same(fl, st, r, c))

    def event(self, fl, st, kind, inst, info):
        a = st.auto
        if kind == "load":
            # a control block which is read in order to test for null
            o = self.ctl_of(fl, st, info[2])
            if o is not None and a.lock is not None and not any(x[0] == o for x in a.alive):
                st.auto = a._replace(alive=a.alive + ((o, info[2], "weak", None),))
            return
        if kind not in ("call", "throw"):
            return
        name, args = info
        if name == "vp_x_lock":
            if a.lock is not None:
                self.bad(fl, st, inst, "the lock of the map is acquired while it is held")
                return []
            st.auto = a._replace(lock=args[0])
        elif name == "vp_x_unlock":
            st.auto = a._replace(lock=None)
        elif "_Sp_counted_base" in name:
            if kind == "throw":
                return []
            if "_M_add_ref_lock" in name:
                o = self.ctl_of(fl, st, args[0])
                st.auto = a._replace(alive=a.alive + ((o, args[0], "lock", ("R", inst.id)),))
            elif "_M_get_use_count" in name:
                o = self.ctl_of(fl, st, args[0])
                if any(x[1] == args[0] and x[2] == "lock" for x in a.alive):
                    st.auto = a._replace(notes=a.notes + (("uses", args[0], ("R", inst.id)),))
                else:
                    st.auto = a._replace(alive=a.alive + ((o, args[0], "count", ("R", inst.id)),))
            elif "_M_add_ref_copy" in name:
                st.auto = a._replace(refs=a.refs + ((args[0], 1),))
            elif "_M_release" in name:
                if a.lock is not None and self.ctl_of(fl, st, args[0]) is not None:
                    got = any(x[1] == args[0] and x[2] == "lock" for x in a.alive)
                    o = self.ctl_of(fl, st, args[0])
                    if got and self.dead(fl, st, o) is False and self.net(fl, st, args[0]) < 1:
                        self.bad(fl, st, inst, "a resource may be given up, and deleted, while the lock of the map is held")
                st.auto = a._replace(refs=a.refs + ((args[0], -1),))
        elif name == "vp_xt_make":
            if kind != "throw":
                st.auto = a._replace(made=a.made + ((args[0], fl.load(st, args[1], 4), a.lock),))
        elif name == "vp_xt_visit":
            st.auto = a._replace(visited=a.visited + ((args[1], fl.load(st, args[0], 4), a.lock),))
        elif name == "_ZN1VC1Ev":
            if kind != "throw":
                st.auto = a._replace(made=a.made + ((args[0], None, a.lock),))
        elif "_Rb_tree_increment" in name:
            self.step(fl, st, inst)
            st.auto = st.auto._replace(cur=None, visited=(), pushed=(), alive=(), refs=(), notes=())
        elif vec_op(name):
            v = vec_op(name)
            if v == "reserve":
                st.auto = a._replace(notes=a.notes + (("reserved",),)) if kind != "throw" else a
            elif v in ("push_back", "emplace_back"):
                if kind == "throw":
                    return []               # room was reserved: see the rule
                c = fl.load(st, addr(args[1], 8), 8)
                st.auto = a._replace(refs=a.refs + ((c, 1),), pushed=a.pushed + (c,))
            elif v == "~vector":
                if kind == "throw":
                    return []
                if a.lock is not None:
                    self.bad(fl, st, inst, "resources are given up, and may be deleted, while the lock of the map is held")
        else:
            op = coll_op(name)
            if op is None:
                return
            op, it = op
            coll = args[0]
            if op == "end":
                st.vals[inst.id] = ("end", coll)
                return
            self.ctx.count("operations on the map of resources")
            if a.lock is None or split(a.lock)[0] != split(coll)[0]:
                self.bad(fl, st, inst, "the map of resources is used without holding its lock")
            if op == "find":
                if kind != "throw":
                    st.auto = a._replace(looks=a.looks + ((coll, fl.load(st, args[1], 4), ("R", inst.id), args[1]),))
            elif op in ("emplace", "insert", "try_emplace"):
                if kind != "throw":
                    st.auto = a._replace(emplaced=a.emplaced + ((coll, fl.load(st, args[1], 4), ("R", inst.id)),))
            elif op == "erase":
                if it:
                    if kind == "throw":
                        return []
                    self.erase(fl, st, inst, coll, args[1])
                    st.auto = st.auto._replace(erased=st.auto.erased + (args[1],))
                else:
                    raise AnalysisError("%s: erasing by key is not understood" % self.fn.name)
            elif op == "begin":
                st.auto = a._replace(notes=a.notes + (("begin", ("R", inst.id)),))
            elif op not in ("size", "empty"):
                raise AnalysisError("%s: operation %s on the map is not understood" % (self.fn.name, op))

    def erase(self, fl, st, inst, coll, it):
        pass

    def step(self, fl, st, inst):
        pass

    def havoc(self, fl, st, inst, name, args):
        op = coll_op(name)
        if op is not None and op[0] in ("emplace", "insert", "try_emplace") and "&&" in OP.search(demangle(name)).group(5):
            fl.havoc_base(st, split(args[1])[0], inst.id)   # what is passed may have been moved away
        st.auto = fresh(st.auto)
        if op is not None:
            return True
        if "_Sp_counted_base" in name:
            # reference counts are kept apart; what is destroyed is not looked at again
            return True
        if vec_op(name):
            return True
        if "_Rb_tree_increment" in name:
            return True
        if name == "vp_xt_visit":
            return True
        if name == "_ZN1VC1Ev":
            return True
        if name == "vp_xt_make":
            b, o = split(args[0])
            fl.kill(st, b, o, 16)
            st.cells[addr(b, o)] = (8, ("made", inst.id))
            st.cells[addr(b, o + 8)] = (8, ("madectl", inst.id))
            return True
        return None

    def exit(self, fl, st, kind, inst):
        self.exits.append((kind, inst, st))


class Deleter(Reg):
    def erase(self, fl, st, inst, coll, it):
        l = [x for x in st.auto.looks if x[2] == it and x[0] == coll]
        if not l or self.found(fl, st, l[0]) is not True:
            self.bad(fl, st, inst, "an entry is removed which was not looked up and found under the same lock")
            return
        if self.dead(fl, st, self.record(fl, st, it)) is not True:
            self.bad(fl, st, inst, "the entry of a resource which is in use again is removed")


class Visit(Reg):
    def step(self, fl, st, inst):
        a = st.auto
        node = fl.val(st, inst["ops"][0])
        o = self.record(fl, st, node)
        self.node(fl, st, inst, node, o)

    def node(self, fl, st, inst, node, o):
        a = st.auto
        d = self.dead(fl, st, o)
        if d is None:
            self.bad(fl, st, inst, "a resource is passed over without having been tried")
        elif d and a.visited:
            self.bad(fl, st, inst, "a resource is visited which has expired")
        elif not d:
            if len(a.visited) != 1:
                self.bad(fl, st, inst, "a resource in use is not visited once")
            else:
                p, k, lock = a.visited[0]
                b, off = split(p[1]) if isinstance(p, tuple) and p[0] == "mem" else (None, None)
                if b != o or off not in (self.L.weak, self.L.real):
                    self.bad(fl, st, inst, "another resource is visited than the one of the entry")
                if not (isinstance(k, tuple) and k[0] == "mem" and
                        (k[1] == addr(node, self.L.first) or k[1] == addr(o, self.L.key))):
                    self.bad(fl, st, inst, "a resource is visited with the key of another")
                if lock is None:
                    self.bad(fl, st, inst, "resources are visited without holding the lock of the map")
        self.ctx.count("visits of an entry")


def offset(m, n):
    fn, fl, st, inst, v = only(m, n, "member")
    b, o = split(v)
    if b == A0:
        return o
    if isinstance(v, tuple) and v[0] == "mem" and split(v[1])[0] == A0:
        return split(v[1])[1]
    raise AnalysisError("%s is no member" % n)


def layout(m):
    L = Layout()
    for n in ("real", "weak", "key", "data", "mutex", "cond", "cont", "second", "first", "inner"):
        setattr(L, n, offset(m, "M_" + n))
    return L


def reg(ctx, fn, L, cls=Reg):
    c = cls(ctx, fn, L)
    c.maxdepth = 14
    fl = Flow(fn, c, init=QSTART)
    ctx.count("functions explored path by path")
    ctx.count("abstract states", fl.nodes)
    ex = [(k, i, s) for k, i, s in c.exits if k in ("ret", "throw")]
    if not ex:
        raise AnalysisError("%s has no exit" % fn.name)
    return fl, c, ex


def get(ctx, m, L, name, A1=A1):
    fn = entry(m, name)
    fl, c, ex = reg(ctx, fn, L)
    I = ("mem", addr(A0, L.inner), 8, 0)
    coll = addr(I, L.data)
    kinds = set()
    for kind, inst, st in ex:
        a = st.auto

        def no(what):
            bad(ctx, fn, fl, st, inst, what)
        if a.lock is not None:
            no("the lock of the map is kept")
        if any(x[2] is None for x in a.made):
            no("a resource is constructed without holding the lock of the map")
        look = [l for l in a.looks if l[0] == coll and l[1] == A1]
        its = [("xv", 0, x[2]) for x in a.emplaced]
        for e in a.erased:
            if not any(is_xv(e, x[2]) for x in a.emplaced):
                no("an entry is removed which was not added")
        if kind == "throw":
            if len(a.erased) != len(a.emplaced):
                no("an entry without a resource is left behind")
            kinds.add("throw")
            continue
        P, C = fl.load(st, A2, 8), fl.load(st, addr(A2, 8), 8)
        ctx.count("results of getResource()")
        if a.erased:
            no("the entry of the resource returned is removed")
        if not look or c.found(fl, st, look[0]) is None:
            no("no entry was looked for under the key asked for")
            continue
        if c.found(fl, st, look[0]):
            o = c.record(fl, st, look[0][2])
            if a.emplaced or a.made:
                no("a resource is constructed although the key has one")
            d = c.dead(fl, st, o)
            wp, wc = fl.load(st, addr(o, L.weak), 8), fl.load(st, addr(o, L.weak + 8), 8)
            if d is None:
                no("a resource is returned without having been tried")
            elif not d:
                kinds.add("alive")
                if not (isinstance(P, tuple) and P[0] == "mem" and split(P[1]) == (o, L.weak)) or not same(fl, st, C, wc) \
                        or not any(x[1] == C and x[2] == "lock" for x in a.alive):
                    no("not the resource in use is returned")
                if c.net(fl, st, C) != 0:
                    no("the count of references to the resource is wrong")
            else:
                kinds.add("expired")
                if P != fl.load(st, addr(o, L.real), 8):
                    no("not the object of the entry is returned")
                if not same(fl, st, wp, P) or not same(fl, st, wc, C) or C == 0:
                    no("the entry does not refer to the resource handed out")
                if not (isinstance(C, tuple) and C[0] == "new"):
                    no("an expired resource is handed out without a new owner")
        else:
            kinds.add("new")
            if len(a.emplaced) != 1 or a.emplaced[0][0] != coll or not same(fl, st, a.emplaced[0][1], A1):
                no("not exactly one entry is added under the key asked for")
                continue
            if len(a.made) != 1:
                no("the resource is not constructed exactly once")
                continue
            node = [e for e in st.cells if isinstance(e, tuple) and any(is_xv(split(e)[0], x[2]) for x in a.emplaced)]
            o = next((st.cells[e][1] for e in node if split(e)[1] == L.second), None)
            if not isinstance(o, tuple):
                no("the entry added has no resource")
                continue
            if a.made[0][1] is not None and a.made[0][1] != A1:
                no("the resource is constructed for another key")
            if not same(fl, st, fl.load(st, addr(o, L.key), 4), A1):
                no("the entry remembers another key")
            if P != fl.load(st, addr(o, L.real), 8):
                no("not the object of the entry is returned")
            if a.made[0][1] is not None and not (isinstance(P, tuple) and P[0] == "made") \
                    or a.made[0][1] is None and P != a.made[0][0]:
                no("not the object constructed is returned")
            wp, wc = fl.load(st, addr(o, L.weak), 8), fl.load(st, addr(o, L.weak + 8), 8)
            if not same(fl, st, wp, P) or not same(fl, st, wc, C) or C == 0:
                no("the entry does not refer to the resource handed out")
            if fl.load(st, addr(o, L.cont), 8) != I:
                no("the entry does not refer to the map")
    if not ctx.violations and kinds != {"throw", "alive", "expired", "new"}:
        raise AnalysisError("getResource(): outcomes %s" % sorted(kinds))


def is_xv(e, ret):
    return isinstance(e, tuple) and e[0] == "xv" and e[2] == ret and e[1] in (0, [0], (0,), "0")


def deleters(ctx, m, L):
    n = 0
    for name, fn in sorted(m.fns.items()):
        if "_M_dispose" not in name or not any(i.is_call() and i.callee() == "vp_x_lock" for i in fn.all_insts()):
            continue
        n += 1
        fl, c, ex = reg(ctx, fn, L, Deleter)
        for kind, inst, st in ex:
            a = st.auto

            def no(what):
                bad(ctx, fn, fl, st, inst, what)
            if kind == "throw":
                no("giving up a resource throws")
                continue
            if a.lock is not None:
                no("the lock of the map is kept")
            ctx.count("ways of giving up a resource")
            if len(a.looks) > 1:
                no("the map is searched more than once")
            if not a.looks:
                if not any(isinstance(e, tuple) and e[0] in ("mem", "ret") and fl.known(st, e) == 0 for e in st.facts):
                    no("the map is not searched although it may still exist")
                continue
            coll, key, ret, ka = a.looks[0]
            o = split(ka)[0]
            if isinstance(o, tuple) and o[0] == "alloca" and isinstance(key, tuple) and key[0] == "mem":
                o = split(key[1])[0]
            inner = split(coll)[0]
            if not (isinstance(inner, tuple) and inner[0] == "mem" and split(inner[1]) == (o, L.cont)):
                no("another map is searched than the one of the resource")
            if key is None or not (isinstance(key, tuple) and key[0] == "mem" and split(key[1]) == (o, L.key)):
                no("the map is searched for another key than the one of the resource")
            f = c.found(fl, st, a.looks[0])
            rec = c.record(fl, st, ret)
            d = None
            for x in a.alive:
                if x[0] is not None and split(x[1][1])[0] == x[0] and isinstance(x[0], tuple) and x[0][0] == "mem" \
                        and split(x[0][1]) == (ret, L.second):
                    d = c.dead(fl, st, x[0])
            if f is None:
                no("what the search found is not looked at")
            elif f:
                if d is None and not a.erased:
                    no("it is not tested whether the resource is in use again")
                elif d and len(a.erased) != 1:
                    no("the entry of an expired resource is not removed")
            # the deleter lives as long as the record refers to it
            own = o[1] if isinstance(o, tuple) and o[0] == "mem" else None
            if own is None:
                no("the owner of the record is not recognised")
                continue
            if fl.load(st, addr(own, 8), 8) != 0:
                no("the deleter keeps its reference to the record, which refers to the deleter")
            cc = [e for e in st.facts if isinstance(e, tuple) and e[0] == "mem" and e[1] == addr(own, 8)]
            for e in cc:
                if fl.known(st, e) != 0 and c.net(fl, st, e) != -1:
                    no("the reference to the record is not given up once")
    ctx.floor("functions giving up a resource", n, 2)


def visiting(ctx, m, L):
    fn = entry(m, "M_forEach")
    fl, c, ex = reg(ctx, fn, L, Visit)
    for kind, inst, st in ex:
        if st.auto.lock is not None:
            bad(ctx, fn, fl, st, inst, "the lock of the map is kept")
        if kind == "ret" and not any(e[0] == "icmp" and fl.known(st, e) == 1 and
                                     any(isinstance(x, tuple) and x[0] == "end" for x in e[2:]) for e in st.facts if isinstance(e, tuple)):
            bad(ctx, fn, fl, st, inst, "the visit ends before the last entry")
    if not any(k == "ret" for k, i, s in ex):
        raise AnalysisError("forEach() does not return")


def counting(ctx, m, L):
    for n, want in (("M_size", "size"), ("M_empty", "empty")):
        fn = entry(m, n)
        fl, _, ex = reg(ctx, fn, L)
        kind, inst, st = ex[0]
        v = fl.val(st, inst["ops"][0]) if kind == "ret" and len(ex) == 1 else None
        c = [i for i in fn.all_insts() if i.is_call() and (coll_op(i.callee() or "") or ("",))[0] == want]
        if len(c) != 1 or v != ("ret", c[0].id):
            bad(ctx, fn, fl, st, inst, "%s() does not report the %s of the map" % (want, want))


def c18(ctx):
    ctx.rule("pool: along every path, an identifier is added to the reserved ones only after a lookup under the same lock hold did not find it; the one handed out is the one added; candidates follow each other, and exhaustion is reported only when the next would be the first again")
    ctx.rule("holder: an identifier (pool, number) is afterwards held by exactly one holder or given back exactly once, and so is the reference to the pool")
    ctx.assume("std::set and std::map do what they are specified to do")
    for m in ctx.modules(["ids.cpp"], keep=tuple(KEEP)):
        for pre in ("", "S"):
            holders(ctx, m, pre)
    for m in ctx.modules(["maps.cpp"], keep=MKEEP, entries=(r"^vp_e_", DELETER)):
        L = layout(m)
        get(ctx, m, L, "M_get")
        get(ctx, m, L, "M_getDefault")
        get(ctx, m, L, "M_getMoved", ("mem", A1, 4, 0))
        deleters(ctx, m, L)
        visiting(ctx, m, L)
        counting(ctx, m, L)


CHECKS = {"C18": c18}
