"""C21: memory which is allocated, held, filled from files and given back."""
import re
from collections import namedtuple

from .. import witness
from ..flow import Flow, addr, split
from ..invar import Inductive
from ..ir import AnalysisError
from ..lin import Lin
from .ints import outcomes
from .lockfree import bad, entry
from .packed import A0, A1, A2, M64, key, lin, num, plus, show

MAX = M64
S = namedtuple("S", "allocs freed writes calls thrown")
NEW = re.compile(r"^_Zn[wa]m(St11align_val_t)?(RKSt9nothrow_t)?$")


THROWS = re.compile(r"^(_ZSt\d+__throw_|__cxa_throw_|__cxa_rethrow)")
BAD_ALLOC = re.compile(r"9bad_alloc|20bad_array_new_length|__throw_bad_alloc|__throw_bad_array_new_length|throw_bad_array")


class Mem:
    counted = 4

    def __init__(self, ctx, fn):
        self.ctx, self.fn, self.exits = ctx, fn, []

    def private(self, fl, st, base):
        return isinstance(base, tuple) and base[0] == "new"

    def own(self, a):
        while isinstance(a, tuple) and a[0] in ("addr", "gep"):
            a = a[1]
        return isinstance(a, tuple) and a[0] == "alloca"

    def event(self, fl, st, kind, inst, info):
        a = st.auto
        if kind == "store" and not self.own(info[0]):
            st.auto = a._replace(writes=a.writes + ((info[0], info[1], info[2]),))
        elif kind == "memcpy" and not self.own(info[0]):
            st.auto = a._replace(writes=a.writes + ((info[0], info[2], ("copy", info[1])),))
        elif kind == "memset" and not self.own(info[0]):
            st.auto = a._replace(writes=a.writes + ((info[0], info[2], ("fill", info[1])),))
        elif kind in ("call", "throw"):
            name, args = info
            if name == "__cxa_throw" or THROWS.match(name):
                if kind == "call":
                    return []
                st.auto = a._replace(thrown=args[1][1] if name == "__cxa_throw" and isinstance(args[1], tuple) else name)
                return None
            if name == "posix_memalign" or name in ("aligned_alloc", "memalign", "malloc") or NEW.match(name):
                if kind == "throw":
                    st.auto = a._replace(thrown="bad_alloc of " + name)
                    return None
                al, size = (args[1], args[2]) if name == "posix_memalign" else (args[0], args[1]) if name in ("aligned_alloc", "memalign") else \
                    (args[1] if "align_val" in name else 16, args[0])
                if isinstance(size, int) and size & M64 > M64 >> 1:
                    return []           # never succeeds
                st.auto = a._replace(allocs=a.allocs + ((name, inst.id, al, size, args[0]),))
            elif name == "free" or name.startswith(("_Zdl", "_Zda")):
                k = fl.known(st, ("icmp", "eq", args[0], 0))
                if k == 1:
                    return None
                o = st.copy()
                o.auto = a._replace(freed=a.freed + ((args[0], name),))
                if k == 0:
                    return [o]
                out = []
                if fl.learn(o, ("icmp", "eq", args[0], 0), 0) is not False:
                    out.append(o)
                if fl.learn(st, ("icmp", "eq", args[0], 0), 1) is not False:
                    out.append(st)
                return out
            elif name.startswith("vp_"):
                st.auto = a._replace(calls=a.calls + ((name, tuple(args)),))
            elif not name.startswith(("__cxa_", "_Unwind", "llvm.", "_ZNSt6locale", "_ZSt", "_ZNKSt9type_info", "_ZNSt9bad_alloc")):
                raise AnalysisError("%s: a call of %s is not understood" % (self.fn.name, name))

    def havoc(self, fl, st, inst, name, args):
        if name == "posix_memalign":
            fl.havoc_base(st, split(args[0])[0], inst.id)
            fl.store(st, args[0], 8, ("new", inst.id))
            return True
        if NEW.match(name) and "nothrow" not in name:
            st.vals[inst.id] = ("new", inst.id)
            return True
        if name == "free" or name.startswith(("_Zd", "_ZNSt6locale")):
            return True

    def exit(self, fl, st, kind, inst):
        self.exits.append((kind, inst, st))


class Run:
    def __init__(self, ctx, m, name, client=Mem, facts=None):
        self.fn = entry(m, name)
        self.ctx = ctx
        c = client(ctx, self.fn)
        self.fl = Flow(self.fn, c, init=S((), (), (), (), None), facts=facts or {}, limit=20000)
        ctx.count("functions explored path by path")
        ctx.count("abstract states", self.fl.nodes)
        if not c.exits:
            raise AnalysisError("%s has no exit" % name)
        self.exits = c.exits

    def no(self, st, inst, what):
        bad(self.ctx, self.fn, self.fl, st, inst, what)

    def ends(self, throws=False):
        for kind, inst, st in self.exits:
            self.ctx.count("ends of functions compared")
            if kind == "ret":
                yield inst, st, (self.fl.val(st, inst["ops"][0]) if inst["ops"] else None)
            elif not throws:
                self.no(st, inst, "an exception is thrown" if kind == "throw" else "the operation does not return")

    def value(self, want):
        for inst, st, v in self.ends():
            if lin(v) != want:
                self.no(st, inst, "the result is not %s" % show(want))

    def const(self):
        r = {lin(v).get(None, 0) if not set(lin(v)) - {None} else None for _, _, v in self.ends()}
        if len(r) != 1 or None in r:
            raise AnalysisError("%s is not constant" % self.fn.name)
        return r.pop()


def got(fl, st, al):
    """whether an allocation succeeded; None: unknown"""
    name, iid = al[0], al[1]
    if name == "posix_memalign":
        return fl.known(st, ("icmp", "eq", ("ret", iid), 0))
    if NEW.match(name) and "nothrow" not in name:
        return 1
    return fl.known(st, ("icmp", "ne", ("ret", iid), 0))


def memory(al):
    return ("new", al[1]) if al[0] == "posix_memalign" or NEW.match(al[0]) and "nothrow" not in al[0] else ("ret", al[1])


def allocation(ctx, m, name, size, align, throws, pow2=True):
    """memory of at least `size` (factor of the argument) bytes, aligned to `align`, is allocated; or it fails as it has to"""
    r = Run(ctx, m, name)
    fl = r.fl
    for kind, inst, st in r.exits:
        ctx.count("ends of functions compared")
        L = Lin(st.facts)
        if L.infeasible():
            continue
        A = st.auto
        n = L.value(A0)
        fits = n * size - (MAX + 1)        # >= 0 if it does not fit
        for al in A.allocs:
            f = lin(al[3])
            c = f.get(None, 0)
            if set(f) - {None, A0} or f.get(A0, 0) < size or c >> 63:
                r.no(st, inst, "not as many bytes are allocated as asked for")
                return
            if not L.infeasible([n * f[A0] + c - (MAX + 1)]):
                r.no(st, inst, "the number of bytes to allocate wraps around")
                return
            if not isinstance(al[2], int) or al[2] <= 0 or al[2] & (al[2] - 1) or al[2] % align or al[2] % 8 and al[0] == "posix_memalign":
                r.no(st, inst, "the memory is not allocated with the alignment it needs")
                return
        ok = [al for al in A.allocs if got(fl, st, al) != 0]
        v = fl.val(st, inst["ops"][0]) if kind == "ret" and inst["ops"] else None
        mine = [al for al in ok if v == memory(al)]
        freed = [p for p, _ in A.freed]
        if kind == "ret" and mine:
            if got(fl, st, mine[-1]) != 1 and not (memory(mine[-1])[0] == "ret" and not throws):
                r.no(st, inst, "memory is returned although its allocation failed")
            if memory(mine[-1]) in freed:
                r.no(st, inst, "memory is returned which has been freed")
            ok.remove(mine[-1])
        elif kind == "ret":
            if throws or fl.known(st, ("icmp", "eq", v, 0)) != 1:
                r.no(st, inst, "something else is returned than the memory allocated")
                continue
        elif kind == "throw" and not throws:
            r.no(st, inst, "an exception is thrown")
        elif kind == "throw" and not BAD_ALLOC.search(A.thrown or "bad_alloc"):
            r.no(st, inst, "something else is thrown than std::bad_alloc")
        elif kind not in ("ret", "throw"):
            r.no(st, inst, "the operation does not return")
        if not mine:
            failed = [al for al in A.allocs if got(fl, st, al) == 0 or fl.known(st, ("icmp", "eq", memory(al), 0)) == 1]
            if not failed and not L.infeasible([-fits - 1]):
                r.no(st, inst, "it fails although memory was not asked for" if not A.allocs else "it fails although memory was allocated")
        for al in ok:
            if memory(al) not in freed and fl.known(st, ("icmp", "eq", memory(al), 0)) != 1:
                r.no(st, inst, "memory is allocated and lost")


def freeing(ctx, m, name):
    r = Run(ctx, m, name)
    for inst, st, _ in r.ends():
        null = r.fl.known(st, ("icmp", "eq", A0, 0)) == 1
        f = [p for p, _ in st.auto.freed]
        if f not in ([A0],) and not (null and not f):
            r.no(st, inst, "the memory is not freed exactly once" if all(p == A0 for p in f) else "other memory is freed")
        elif any(n != "free" for _, n in st.auto.freed):
            r.no(st, inst, "the memory is not freed by the function which belongs to its allocation")
        elif st.auto.writes or st.auto.allocs:
            r.no(st, inst, "memory is written or allocated when freeing")


TYPES = ("char", "T3", "int", "T12", "T24", "ld", "A64", "A4096")


def aligned(ctx, m):
    for t in TYPES:
        size, align = (Run(ctx, m, "%s_%s" % (x, t)).const() for x in ("szof", "alof"))
        allocation(ctx, m, "alloc_" + t, size, align, True)
        allocation(ctx, m, "allocT_" + t, size, align, True)
        freeing(ctx, m, "dealloc_" + t)
    for n in (1, 2, 4, 8, 16, 64, 4096):
        allocation(ctx, m, "st_%d" % n, 1, n, True)
        allocation(ctx, m, "stn_%d" % n, 1, n, False)
    freeing(ctx, m, "free")
    Run(ctx, m, "al_eq").value(num(1))
    Run(ctx, m, "al_ne").value({})
    for n in (1, 4, 64):
        for x in ("new", "newa", "newn", "newan"):
            allocation(ctx, m, "m_%s_%d" % (x, n), 1, n, not x.endswith("n"))
        for x in ("del", "dela", "deln", "delan"):
            freeing(ctx, m, "m_%s_%d" % (x, n))


# ---- arrays -------------------------------------------------------------------

ARRAYS = {"c": 1, "T12": 12, "NT": 20}


def member(r):
    """the place of the member which an accessor gives"""
    for _, _, v in r.ends():
        if isinstance(v, tuple) and v[0] == "mem":
            f = plus(lin(v[1]), lin(A0), -1)
            if not set(f) - {None}:
                return f.get(None, 0)
    raise AnalysisError("%s does not give a member" % r.fn.name)


def final(fl, st, base, off, size=8):
    return fl.load(st.copy(), addr(base, off), size)


def arrays(ctx, m, t, n):
    def r(x):
        return Run(ctx, m, "u_%s_%s" % (x, t))
    so, do = member(r("size")), member(r("data"))

    def mem(a, o):
        return ("mem", addr(a, o), 8, 0)
    size, data = mem(A0, so), mem(A0, do)
    for x in ("datan", "begin", "beginn", "cbegin"):
        r(x).value(lin(data))
    for x in ("end", "endn", "cend"):
        r(x).value(plus(lin(data), {size: n}))
    for x in ("at", "atn", "datai", "datain"):
        r(x).value(plus(lin(data), {A1: n}))
    q = r("empty")
    for inst, st, v in q.ends():
        if not all(bool(b) == (q.fl.known(s, ("icmp", "eq", size, 0)) == 1) for b, s in outcomes(q.fl, st, v)):
            q.no(st, inst, "the result is not whether the array is empty")

    def elements(q, st, inst):
        """elements themselves are neither made nor read"""
        if any(c.startswith("vp_") for c, _ in st.auto.calls):
            q.no(st, inst, "elements are constructed or destroyed")

    # made with a size
    q = r("make")
    for kind, inst, st in q.exits:
        ctx.count("ends of functions compared")
        L = Lin(st.facts)
        if L.infeasible():
            continue
        if kind == "throw":
            if not st.auto.allocs and not (st.auto.thrown or "").startswith("bad_alloc of") and not L.infeasible([-(L.value(A1) * n - (MAX >> 1)) - 1]):
                q.no(st, inst, "the size is refused although it would fit")
            if st.auto.allocs and [memory(a) for a in st.auto.allocs] != [p for p, _ in st.auto.freed]:
                q.no(st, inst, "memory is lost")
            continue
        if kind != "ret":
            if not st.auto.allocs and not L.infeasible([-(L.value(A1) * n - (MAX >> 1)) - 1]):
                q.no(st, inst, "the operation does not return")
            continue
        d, s = final(q.fl, st, A0, do), final(q.fl, st, A0, so)
        al = [a for a in st.auto.allocs if memory(a) == d]
        if lin(s) != lin(A1):
            q.no(st, inst, "the size is not the one given")
        if len(st.auto.allocs) != 1 or not al:
            if not (len(st.auto.allocs) == 0 and L.infeasible([L.value(A1) - 1])):
                q.no(st, inst, "the array does not hold the memory allocated")
            continue
        f = lin(al[0][3])
        c = f.pop(None, 0)
        if set(f) - {A1} or f.get(A1, 0) < n:
            k = L.value(al[0][3])
            if not L.infeasible([L.value(A1) * n - k - 1]):
                q.no(st, inst, "less memory is allocated than the elements take")
        elif not L.infeasible([L.value(A1) * f[A1] + c - (MAX + 1)]):
            q.no(st, inst, "the number of bytes to allocate wraps around")
        for p, k, v in st.auto.writes:
            b = lin(p)
            if d in b:
                o = plus(b, lin(d), -1)
                if not isinstance(v, tuple) or v[0] != "fill" or o or lin(k) != lin(al[0][3]):
                    q.no(st, inst, "memory beyond that of the elements may be written")
            elif set(plus(b, lin(A0), -1)) - {None}:
                q.no(st, inst, "something else than the array is written")
        elements(q, st, inst)
    q = r("def")
    for inst, st, _ in q.ends():
        if lin(final(q.fl, st, A0, so)) or lin(final(q.fl, st, A0, do)):
            q.no(st, inst, "an array made without a size is not empty")
    # moved
    for x in ("move", "assign"):
        q = r(x)
        for inst, st, v in q.ends():
            d, s = (lin(final(q.fl, st, A0, o)) for o in (do, so))
            d2, s2 = (lin(final(q.fl, st, A1, o)) for o in (do, so))
            if x == "assign" and q.fl.known(st, ("icmp", "eq", A0, A1)) == 1:
                continue
            if d != lin(mem(A1, do)) and not (q.fl.known(st, ("icmp", "eq", mem(A1, do), 0)) == 1 and not d) or s != lin(mem(A1, so)):
                q.no(st, inst, "the array does not have the elements of the one moved from")
            if d2 or s2:
                q.no(st, inst, "the array moved from still has elements")
            f = [p for p, _ in st.auto.freed]
            if x == "move" and f:
                q.no(st, inst, "memory is freed when moving")
            if x == "assign":
                if f != [data] and not (q.fl.known(st, ("icmp", "eq", data, 0)) == 1 and not f):
                    q.no(st, inst, "the memory held before is not freed exactly once")
                if lin(v) != lin(A0):
                    q.no(st, inst, "the result is not the array assigned to")
            elements(q, st, inst)
    q = r("self")
    for inst, st, v in q.ends():
        if st.auto.freed or (lin(final(q.fl, st, A0, do)), lin(final(q.fl, st, A0, so))) != (lin(data), lin(size)):
            # moving from itself may also leave it empty
            if not (not lin(final(q.fl, st, A0, do)) and not lin(final(q.fl, st, A0, so)) and [p for p, _ in st.auto.freed] == [data]):
                if not (q.fl.known(st, ("icmp", "eq", data, 0)) == 1 and not lin(final(q.fl, st, A0, do)) and lin(final(q.fl, st, A0, so)) in ({}, lin(size))):
                    q.no(st, inst, "an array assigned to itself does not keep its memory and its size together")
        if lin(v) != lin(A0):
            q.no(st, inst, "the result is not the array assigned to")
    q = r("dtor")
    for inst, st, _ in q.ends():
        f = [p for p, _ in st.auto.freed]
        if f != [data] and not (q.fl.known(st, ("icmp", "eq", data, 0)) == 1 and not f):
            q.no(st, inst, "the memory is not freed exactly once")
        elements(q, st, inst)


# ---- leaving scopes -------------------------------------------------------------

def scopes(ctx, m):
    body, ex = "vp_t_body", "vp_t_exit"
    for x, want in (("scope", [A0]), ("scope2", [A0]), ("scope_made", [A0]), ("scope_moved", [A0]), ("scope_nested", [A1, A0])):
        r = Run(ctx, m, x, Scope)
        seen = 0
        for kind, inst, st in r.exits:
            ctx.count("ends of functions compared")
            c = [(n, a[0]) for n, a in st.auto.calls]
            if kind in ("unreachable", "noreturn"):
                # an exception while another one is being handled ends the program
                if c[:1] == [(body, A0)] and c[1:] and ("threw", body) in [(n, "vp_t_body") for n, _ in st.auto.calls]:
                    pass
                continue
            if (body, A0) not in c:
                if kind == "ret":
                    r.no(st, inst, "the scope is left without having been entered")
                elif not st.auto.allocs and False:
                    pass
                continue
            seen += 1
            after = c[c.index((body, A0)) + 1:]
            if after != [(ex, w) for w in want] or c[0] != (body, A0):
                r.no(st, inst, "the function is not called exactly once when the scope is left"
                     if len(want) == 1 else "the functions are not called exactly once each, the last one first, when the scope is left")
        if seen < 2:
            raise AnalysisError("%s: too few ways out" % x)


class Scope(Mem):
    counted = 2

    def event(self, fl, st, kind, inst, info):
        if kind in ("call", "throw"):
            name, args = info
            a = st.auto
            if name.startswith("vp_t_"):
                st.auto = a._replace(calls=a.calls + ((name, tuple(args)),))
                return None
            if name.startswith(("__clang_call_terminate", "_ZSt9terminate", "_ZSt25__throw_bad_function_call")):
                return None
        elif kind in ("load", "store", "memcpy", "memset"):
            return None
        return Mem.event(self, fl, st, kind, inst, info)


# ---- streams ---------------------------------------------------------------------

def buffers(ctx, m):
    for x, k in (("c", 1), ("w", 4)):
        r = Run(ctx, m, "buf_" + x)
        for kind, inst, st in r.exits:
            ctx.count("ends of functions compared")
            if kind != "ret":
                continue
            v = [lin(final(r.fl, st, A0, 8 * i)) for i in range(5)]
            if v[0] != lin(A1) or v[1] != lin(A1) or v[2] != plus(lin(A1), {A2: k}):
                r.no(st, inst, "the stream does not read exactly the characters given")
            if v[3] or v[4]:
                r.no(st, inst, "the characters may be written")


WIT = ("memory", """#include <sharemind/InputMemoryStream.h>
#include <sharemind/ScopeExit.h>
#include <sharemind/AlignedAllocator.h>
#include <sharemind/UninitializedDynamicArray.h>
#include <vector>
#include <utility>
#include <type_traits>
using namespace sharemind;
struct A { SHAREMIND_ALIGNEDALLOCATION_MEMBERS(64) int x; };
template <typename T> T & l(); template <typename T> T const & c();
""", [
    ("streams of wide characters", "void w1(wchar_t const * p) { BasicInputMemoryStream<wchar_t> s(p, 2u); int i; s >> i; }"),
    ("streams", "void w2(char const * p) { InputMemoryStream s(p, 2u); int i; s >> i; std::istream & t = s; (void) t; }"),
    ("containers with aligned memory", "void w3() { std::vector<int, AlignedAllocator<int> > v(3u); v.push_back(4); auto w(std::move(v)); }"),
    ("objects in aligned memory", "void w4() { delete new A; delete[] new A[3u]; delete new (std::nothrow) A; }"),
    ("functions to call later can be made", "void w5() { auto s = makeScopeExit([]{}); (void) s; }"),
    ("moving does not throw", "static_assert(std::is_nothrow_move_constructible<UninitializedDynamicArray<int> >::value && std::is_nothrow_move_assignable<UninitializedDynamicArray<int> >::value && std::is_nothrow_default_constructible<UninitializedDynamicArray<int> >::value, \"\");"),
    ("arrays are not copied", "static_assert(!std::is_copy_constructible<UninitializedDynamicArray<int> >::value && !std::is_copy_assignable<UninitializedDynamicArray<int> >::value, \"\");"),
    ("elements of constant arrays are constant", "static_assert(std::is_same<decltype(c<UninitializedDynamicArray<int> >()[0]), int const &>::value && std::is_same<decltype(c<UninitializedDynamicArray<int> >().begin()), int const *>::value && std::is_same<decltype(c<UninitializedDynamicArray<int> >().data()), int const *>::value && std::is_same<decltype(l<UninitializedDynamicArray<int> >()[0]), int &>::value, \"\");"),
    ("functions to call later are not copied", "static_assert(!std::is_copy_assignable<ScopeExit>::value, \"\");"),
], [
    ("a function to call later is copied", "void n1(ScopeExit const & s) { ScopeExit t(s); }", None),
    ("streams are copied", "void n2(InputMemoryStream & s) { InputMemoryStream t(s); }", None),
])


# ---- files ------------------------------------------------------------------------

D = namedtuple("D", "passed fd path closes stat allocs freed done last failed errs thrown bound")
ERRNO = ("errno",)
EINTR = 4
SIZE_AT, MODE_AT, IFMT, IFREG, CLOEXEC = 48, 24, 0o170000, 0o100000, 0o2000000
OPAQUE = re.compile(r"^_ZN9sharemind6concatI|LoadException[CD]\d|FileTypeNotSupportedException[CD]\d|FileSizeChangedException[CD]\d|ErrnoException[CD]\d"
                    r"|^_ZSt17throw_with_nestedI|^_ZNK?9sharemind.*Exception|^_ZNSt9exception[CD]|^_ZNSt16nested_exception")
KEEP = [r"6concatI", r"LoadExceptionC", r"LoadExceptionD", r"FileTypeNotSupportedExceptionC", r"FileSizeChangedExceptionC", r"ErrnoExceptionC", r"^_ZSt17throw_with_nestedI"]


def sub(a, b):
    return ("sub", 64, a, b)


def add(a, b):
    return b if a == 0 else ("add", 64, a, b)


class Load(Inductive):
    """a file is opened, its size is asked for, it is read into memory and closed"""

    def __init__(self, ctx, fn, d):
        Inductive.__init__(self)
        self.ctx, self.fn, self.d = ctx, fn, d
        self.reset()

    def reset(self):
        self.exits, self.found, self.reads = [], [], 0

    def small(self, a):
        return False

    def private(self, fl, st, base):
        return isinstance(base, tuple) and base[0] in ("new", "errno")

    def bad(self, fl, st, inst, what):
        self.found.append((what, st.copy(), inst))

    def size(self, fl, st):
        """the size of the file, as it was told"""
        return fl.load(st, addr(st.auto.stat[1], SIZE_AT), 8) if st.auto.stat else None

    def base(self, fl, st):
        a, r = st.auto, []
        for p, n in a.allocs:
            r.append(("ule", p, sub(MAX - 1, n)))
        if a.bound:
            r.append(("ule",) + a.bound)
        return r

    def ghosts(self, fl, st):
        self.settle(fl, st)
        f = st.auto.failed
        if f and not (f[0] == "read" and self.errs(fl, st, f[2]) <= {EINTR, 11}) and self.feasible(fl, st):
            self.bad(fl, st, self.at, "reading is repeated although it did not fail for a passing reason")
        st.auto = st.auto._replace(last=None, failed=None)
        return {"done": st.auto.done, "size": st.auto.allocs[-1][1] if st.auto.allocs else 0}

    def set_ghosts(self, fl, st, g):
        st.auto = st.auto._replace(done=g["done"], bound=None)

    def mode_of(self, fl, st, g):
        return tuple(p for p, _ in st.auto.allocs)

    def params(self, fl, st):
        return []

    def templates(self, fl, st, dst, atoms, params):
        al = st.auto.allocs
        if not al:
            return []
        base, n = al[-1]
        dn = ("hdr", dst, "done")
        r = [("ule", dn, n), ("ult", dn, n)]
        for p in fl.fn.blocks[dst].phis:
            x = ("phi", p.id)
            if p["ty"] == "ptr":
                r += [("eq", sub(x, base), dn)]
            elif p["ty"] == "i64":
                r += [("eq", x, sub(n, dn)), ("eq", x, dn), ("eq", x, add(base, dn))]
        return r

    def settle(self, fl, st):
        """what the last read() did"""
        a = st.auto
        if not a.last:
            return
        r, n, err = a.last
        neg = fl.known(st, ("icmp", "slt", r, 0))
        if neg is None:
            neg = fl.known(st, ("icmp", "eq", r, -1))
            if neg is None and fl.known(st, ("icmp", "sgt", r, 0)) == 1:
                neg = 0
        if neg is None:
            L = self.lin(fl, st)
            neg = 0 if L.infeasible([-L.value(r, 64, True) - 1]) else None
        if neg == 0:
            st.auto = a._replace(done=add(a.done, r), last=None, bound=(r, n))
        elif neg == 1:
            st.auto = a._replace(last=None, failed=("read", r, err))
        else:
            st.auto = a._replace(last=None, failed=("?", r, err))

    def event(self, fl, st, kind, inst, info):
        if kind not in ("call", "throw"):
            return None
        self.kind, self.at = kind, inst
        name, args = info
        a = st.auto
        if name in ("__errno_location",):
            st.vals[inst.id] = ERRNO
        elif name in ("open", "open64", "fstat", "fstat64", "read", "close"):
            if kind == "throw":
                return []
            if name.startswith("open"):
                if a.fd is not None:
                    self.bad(fl, st, inst, "a file is opened again")
                    return []
                if not isinstance(args[1], int) or args[1] & 3 or not args[1] & CLOEXEC or args[1] & 0o1100:
                    self.bad(fl, st, inst, "the file is not opened for reading only, with close-on-exec")
                if not isinstance(args[0], tuple) or args[0][:3] != ("mem", A1, 8):
                    self.bad(fl, st, inst, "another file is opened than the one named")
                return None
            if a.fd is not None and args[0] == a.fd and fl.known(st, ("icmp", "slt", a.fd, 0)) == 1 and fl.known(st, ("icmp", "eq", a.fd, -1)) == 0:
                return []           # open() fails with -1
            if a.fd is None or args[0] != a.fd or fl.known(st, ("icmp", "slt", a.fd, 0)) == 1 or a.fd in a.closes:
                self.bad(fl, st, inst, "%s() is called with something else than the open file" % name)
                return []
            if fl.known(st, ("icmp", "slt", a.fd, 0)) is None and fl.known(st, ("icmp", "eq", a.fd, 0xffffffff)) is None and \
                    fl.known(st, ("icmp", "eq", a.fd, -1)) is None:
                self.bad(fl, st, inst, "%s() is called without knowing that the file is open" % name)
                return []
            if name == "close":
                st.auto = a._replace(closes=a.closes + (args[0],))
            elif name == "read":
                self.settle(fl, st)
                a = st.auto
                if a.failed:
                    if a.failed[0] == "?" or not self.errs(fl, st, a.failed[2]) <= {EINTR, 11}:
                        self.bad(fl, st, inst, "reading is repeated although it did not fail for a passing reason")
                        return []
                if not self.feasible(fl, st):
                    return []
                self.reads += 1
                if not a.allocs:
                    self.bad(fl, st, inst, "the file is not read into the memory allocated for it")
                    return []
                base, n = a.allocs[-1]
                at = sub(args[1], base)
                if not self.implied(fl, st, "eq", at, a.done):
                    self.bad(fl, st, inst, "what is read does not follow what was read before")
                elif not self.implied(fl, st, "ule", args[2], sub(n, a.done)) or not self.implied(fl, st, "ule", a.done, n):
                    self.bad(fl, st, inst, "more is read than there is memory for")
                elif not self.implied(fl, st, "ult", 0, args[2]):
                    self.bad(fl, st, inst, "nothing is read, which can not be told from the end of the file")
                st.auto = a._replace(failed=None)
        elif name.startswith("_Znw") or name.startswith("_Zna"):
            if kind == "throw":
                st.auto = a._replace(thrown=a.thrown + ("bad_alloc",))
        elif name.startswith("_Zd"):
            k = fl.known(st, ("icmp", "eq", args[0], 0))
            if k != 1:
                st.auto = a._replace(freed=a.freed + (args[0],))
        elif name == "__cxa_throw" or THROWS.match(name):
            if kind == "call":
                return []
            t = args[1][1] if name == "__cxa_throw" and isinstance(args[1], tuple) else name
            self.why(fl, st, inst, t)
            st.auto = st.auto._replace(thrown=a.thrown + (t,))
        elif name == "__assert_fail":
            if kind == "throw":
                return []
            one = lambda x, w: any(fl.known(st, ("icmp", "eq", x, v)) == 0 for v in (-1, (1 << w) - 1))
            rs = [(x, w) for x, w in ((a.fd, 32), (a.stat and a.stat[0], 32), (a.last and a.last[0], 64)) if x]
            # system calls which fail return -1, and sizes are not negative
            ok = any(one(x, w) and (fl.known(st, ("icmp", "slt", x, 0)) == 1 or a.stat and x == a.stat[0] and fl.known(st, ("icmp", "eq", x, 0)) == 0) for x, w in rs)
            ok = ok or a.stat and (fl.known(st, ("icmp", "slt", self.size(fl, st), 0)) == 1 or fl.known(st, ("icmp", "sgt", self.size(fl, st), -1)) == 0)
            if not ok:
                self.settle(fl, st)
                if self.feasible(fl, st):
                    self.bad(fl, st, inst, "an assertion may fail")
            return []
        elif "ErrnoExceptionC" in name:
            st.auto = a._replace(errs=(args[1],))
        elif OPAQUE.search(name):
            if kind == "throw":
                st.auto = a._replace(thrown=a.thrown + (name,))
            elif "throw_with_nested" in name:
                return []
        elif not name.startswith(("__cxa_", "_Unwind", "llvm.", "_ZSt9terminate", "__clang_call_terminate")):
            raise AnalysisError("%s: a call of %s is not understood" % (self.fn.name, name))

    def errs(self, fl, st, E):
        from .posix import errnos
        return errnos(fl, st, E)

    def why(self, fl, st, inst, t):
        """an exception is thrown: for a reason"""
        a = st.auto
        if "ErrnoException" in t:
            self.settle(fl, st)
            a = st.auto
            if a.fd is None:
                self.bad(fl, st, inst, "an error is reported although nothing failed")
                return
            openfail = fl.known(st, ("icmp", "slt", a.fd, 0)) == 1 or fl.known(st, ("icmp", "eq", a.fd, -1)) == 1
            if openfail:
                E = ("mem", ERRNO, 4, a.path)
            elif a.stat and not a.failed:
                if fl.known(st, ("icmp", "eq", a.stat[0], 0)) != 0 or a.done != 0:
                    self.bad(fl, st, inst, "an error is reported although nothing failed")
                E = ("mem", ERRNO, 4, a.stat[2])
            elif a.failed and a.failed[0] == "read":
                E = a.failed[2]
                if EINTR in self.errs(fl, st, E):
                    self.bad(fl, st, inst, "a read which was interrupted is not repeated")
            else:
                self.bad(fl, st, inst, "an error is reported although nothing failed")
                return
            if a.errs != (E,):
                self.bad(fl, st, inst, "the exception does not carry the error of the system call")
        elif "FileTypeNotSupported" in t:
            m = fl.load(st, addr(a.stat[1], MODE_AT), 4) if a.stat else None
            if m is None or fl.known(st, ("icmp", "eq", ("and", 32, m, IFMT), IFREG)) != 0:
                self.bad(fl, st, inst, "a regular file is not loaded")
        elif "FileSizeChanged" in t:
            if not a.last or fl.known(st, ("icmp", "eq", a.last[0], 0)) != 1:
                self.bad(fl, st, inst, "a file is said to have changed although reading went on")

    def havoc(self, fl, st, inst, name, args):
        a = st.auto
        if self.kind == "throw" and name in ("open", "fstat", "read", "close"):
            return True
        R = ("ret", inst.id)
        if name in ("open", "open64", "fstat", "fstat64", "read", "close"):
            fl._renew(st, inst.id)
            a = st.auto
            if name != "close":
                st.epochs[ERRNO] = inst.id
                for k in [k for k in st.cells if k == ERRNO or split(k)[0] == ERRNO]:
                    del st.cells[k]
            if name.startswith("open"):
                st.auto = a._replace(fd=R, path=inst.id)
            elif name.startswith("fstat"):
                fl.havoc_base(st, split(args[1])[0], inst.id)
                st.auto = st.auto._replace(stat=(R, args[1], inst.id))
            elif name == "read":
                st.auto = a._replace(last=(R, args[2], ("mem", ERRNO, 4, inst.id)), failed=None)
            return True
        if name.startswith(("_Znw", "_Zna")):
            if self.kind == "call":
                st.vals[inst.id] = ("new", inst.id)
                st.auto = a._replace(allocs=a.allocs + ((("new", inst.id), args[0]),))
            return True
        if name.startswith(("_Zd", "__cxa_")) or OPAQUE.search(name):
            return True if not name.startswith("_ZN9sharemind6concat") else None

    def exit(self, fl, st, kind, inst):
        self.exits.append((kind, inst, st))


def loading(ctx, m, name, fresh_object):
    fn = entry(m, name)
    c = Load(ctx, fn, None)

    def make(c):
        return Flow(fn, c, init=D(frozenset(), None, None, (), None, (), (), 0, None, None, (), (), None), limit=60000)
    fl = c.solve(fn, make)
    ctx.count("functions explored path by path")
    ctx.count("abstract states", fl.nodes)
    ctx.count("relations decided by linear arithmetic", c.queries)
    for what, st, inst in c.found:
        bad(ctx, fn, fl, st, inst, what)
    rets = 0
    for kind, inst, st in c.exits:
        a = st.auto
        if kind not in ("ret", "throw"):
            continue
        c.settle(fl, st)
        if not c.feasible(fl, st):
            continue
        a = st.auto
        ctx.count("ends of functions compared")
        opened = a.fd is not None and (fl.known(st, ("icmp", "slt", a.fd, 0)) == 0 or fl.known(st, ("icmp", "eq", a.fd, -1)) == 0)
        if a.closes != ((a.fd,) if opened else ()):
            bad(ctx, fn, fl, st, inst, "the file is not closed exactly once")
        now = [fl.load(st.copy(), addr(A0, o), 8) for o in (0, 8, 16)]
        held = [p for p, _ in a.allocs if p not in a.freed and p[0] == "new"]
        if len(set(a.freed)) != len(a.freed):
            bad(ctx, fn, fl, st, inst, "memory is freed twice")
        if kind == "ret":
            rets += 1
            if not opened or not a.stat or fl.known(st, ("icmp", "eq", a.stat[0], 0)) != 1:
                bad(ctx, fn, fl, st, inst, "loading succeeds although opening the file failed")
                continue
            n = c.size(fl, st)
            mode = fl.load(st, addr(a.stat[1], MODE_AT), 4)
            if fl.known(st, ("icmp", "eq", ("and", 32, mode, IFMT), IFREG)) != 1:
                bad(ctx, fn, fl, st, inst, "something else than a regular file is loaded")
            if not c.implied(fl, st, "eq", a.done, n):
                bad(ctx, fn, fl, st, inst, "loading succeeds although not the whole file was read")
            if not c.implied(fl, st, "eq", sub(now[1], now[0]), n):
                bad(ctx, fn, fl, st, inst, "what is held is not as large as the file")
            if held and now[0] != held[-1] or not held and c.implied(fl, st, "ult", 0, n):
                bad(ctx, fn, fl, st, inst, "what is held is not what was read")
            if len(held) > 1:
                bad(ctx, fn, fl, st, inst, "memory is lost")
        else:
            if held:
                bad(ctx, fn, fl, st, inst, "memory is lost")
            if not fresh_object and now != [("mem", addr(A0, o), 8, 0) for o in (0, 8, 16)]:
                bad(ctx, fn, fl, st, inst, "what was held before is gone although loading failed")
            if not a.thrown:
                bad(ctx, fn, fl, st, inst, "an exception leaves which nobody threw")
    if not rets or not c.reads:
        raise AnalysisError("%s: no way to load a file was found" % name)


def datum(ctx, m):
    b, e = ("mem", A0, 8, 0), ("mem", addr(A0, 8), 8, 0)
    for x in ("data", "cdata"):
        Run(ctx, m, x).value(lin(b))
    for x in ("end", "cend"):
        Run(ctx, m, x).value(lin(e))
    Run(ctx, m, "size").value(plus(lin(e), lin(b), -1))
    q = Run(ctx, m, "empty")
    for inst, st, v in q.ends():
        if not all(bool(k) == (q.fl.known(t, ("icmp", "eq", b, e)) == 1) for k, t in outcomes(q.fl, st, v)):
            q.no(st, inst, "the result is not whether nothing is held")
    q = Run(ctx, m, "clear")
    for inst, st, v in q.ends():
        if lin(final(q.fl, st, A0, 0)) != lin(final(q.fl, st, A0, 8)) and q.fl.known(st, ("icmp", "eq", final(q.fl, st, A0, 0), final(q.fl, st, A0, 8))) != 1:
            q.no(st, inst, "something is still held")
    # filled with what is given
    for x in ("ctor", "assign"):
        q = Run(ctx, m, x)
        fl, good = q.fl, 0
        for kind, inst, st in q.exits:
            L = Lin(st.facts, extra=[("ule", A2, MAX >> 1)])
            if kind not in ("ret", "throw") or L.infeasible():
                continue
            ctx.count("ends of functions compared")
            A = st.auto
            held = [memory(al) for al in A.allocs if memory(al) not in [p for p, _ in A.freed]]
            if kind == "throw":
                if held:
                    q.no(st, inst, "memory is lost")
                continue
            good += 1
            d, n = final(fl, st, A0, 0), final(fl, st, A0, 8)
            if plus(lin(n), lin(d), -1) != lin(A2):
                # or in words
                k = plus(lin(n), lin(d), -1)
                if not (len(set(k) - {None}) <= 3 and L.implies("eq", sub(n, d), A2)):
                    q.no(st, inst, "what is held has another size than what was given")
            if held and held != [d]:
                q.no(st, inst, "memory is lost")
            if L.infeasible([L.value(A2) - 1]):
                continue
            w = [(p, k, v) for p, k, v in A.writes if set(plus(lin(p), lin(d), -1)) <= {None, A2} and lin(p) and p != A0 or lin(p) == lin(d)]
            p, k, v = w[-1] if w else (None, None, None)
            one = k == 1 and isinstance(v, tuple) and v[0] == "mem" and lin(v[1]) == lin(A1) and L.implies("eq", A2, 1)
            many = isinstance(v, tuple) and v[0] == "copy" and lin(v[1]) == lin(A1) and (lin(k) == lin(A2) or L.implies("eq", k, A2))
            if p is None or lin(p) != lin(d) or not (one or many):
                q.no(st, inst, "not exactly the bytes given are held")
        if not good:
            raise AnalysisError("%s never returns" % x)


def c21(ctx):
    ctx.rule("every allocation asks for as many bytes as the elements take (no wrap-around) at an alignment which is valid and sufficient; it fails only if that fails, and never loses memory")
    ctx.rule("memory held by arrays has one owner through moves, assignments and destruction; places of elements lie at multiples of their size")
    ctx.rule("functions to call when a scope is left are called exactly once, on all paths, last first")
    witness.check(ctx, [WIT])
    for m in ctx.modules(["memory.cpp"], [("NDEBUG",), ()]):
        aligned(ctx, m)
        for t, n in ARRAYS.items():
            arrays(ctx, m, t, n)
        scopes(ctx, m)
        buffers(ctx, m)
    for m in ctx.modules(["datum.cpp"], [("NDEBUG",), ()], keep=KEEP):
        loading(ctx, m, "load", False)
        loading(ctx, m, "ctor_load", True)
        datum(ctx, m)
    ctx.floor("functions", ctx.counts.get("functions explored path by path", 0), 150)


CHECKS = {"C21": c21}
