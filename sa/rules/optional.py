"""C17: values in storage managed by hand exist exactly when they should."""
import itertools
from collections import namedtuple

from .. import witness
from ..flow import Flow, addr, split
from ..ir import AnalysisError
from .ints import outcomes
from .lockfree import bad, entry
from .registry import fresh, only

A0, A1, A2 = [("arg", n) for n in range(3)]
CMP = ("eq", "ne", "lt", "le", "gt", "ge")
S = namedtuple("S", "live cmps thrown")
# what may be built from what: name -> (moves?, whose value)
BUILD = {"vp_t_vcopy": False, "vp_t_vmove": True, "vp_t_vconv": False, "vp_t_vmconv": True}
ASSIGN = {"vp_t_vassign": False, "vp_t_vmassign": True, "vp_t_vcassign": False, "vp_t_vmcassign": True}


class Life:
    """which value lives where"""

    def __init__(self, ctx, fn, trivial=False):
        self.ctx, self.fn, self.trivial = ctx, fn, trivial
        self.exits, self.found, self.ops = [], [], 0

    def no(self, fl, st, inst, what):
        bad(self.ctx, self.fn, fl, st, inst, what)

    def event(self, fl, st, kind, inst, info):
        if kind not in ("call", "throw"):
            return
        name, args = info
        a = st.auto
        if name.startswith(("__clang_call_terminate", "_ZSt9terminate", "std::terminate")):
            self.no(fl, st, inst, "the program is terminated")
            return
        if not name.startswith(("vp_t_v", "vp_vdestroy")):
            return
        live = dict(a.live)
        self.ops += 1

        def need(p, what="a value which does not exist is used"):
            if p not in live:
                self.no(fl, st, inst, what)
                return False
            return True
        ok = True
        if name in ("vp_t_vmake", "vp_t_vlist") or name in BUILD:
            if args[0] in live and not self.trivial:
                self.no(fl, st, inst, "a value is overwritten without having been destroyed")
            if name in BUILD:
                ok = need(args[1])
            if kind == "call" and ok:
                if name in BUILD:
                    live[args[0]] = live[args[1]]
                    if BUILD[name]:
                        live[args[1]] = ("moved", live[args[1]])
                else:
                    live[args[0]] = (name[6:],) + tuple(args[1:])
            elif kind == "throw":
                live.pop(args[0], None)
        elif name in ASSIGN:
            ok = need(args[0], "a value which does not exist is assigned to") and need(args[1])
            if ok and kind == "call":
                if args[0] != args[1]:
                    live[args[0]] = live[args[1]]
                    if ASSIGN[name]:
                        live[args[1]] = ("moved", live[args[1]])
            elif ok:
                live[args[0]] = ("?",)
        elif name == "vp_vdestroy":
            if need(args[0], "a value which does not exist is destroyed"):
                del live[args[0]]
        else:
            ok = need(args[0]) and need(args[1])
            if ok and kind == "call":
                st.auto = a = a._replace(cmps=a.cmps + ((name[6:], args[0], args[1], ("R", inst.id)),))
        if not ok:
            return []
        st.auto = a._replace(live=tuple(sorted(live.items(), key=repr)))

    def havoc(self, fl, st, inst, name, args):
        st.auto = fresh(st.auto)
        return True if name.startswith("vp_") else None

    def exit(self, fl, st, kind, inst):
        self.exits.append((kind, inst, st))


class Case:
    """one way of using an operation: which of the optionals have values"""

    def __init__(self, ctx, fn, lay, objs, has, facts, init, trivial):
        self.ctx, self.fn, self.lay, self.objs, self.had = ctx, fn, lay, objs, has
        self.c = Life(ctx, fn, trivial)
        self.trivial = trivial
        self.fl = Flow(fn, self.c, init=S(tuple(sorted(init.items(), key=repr)), (), None), facts=facts)
        ctx.count("functions explored path by path")
        ctx.count("abstract states", self.fl.nodes)
        ctx.count("operations on values, on paths", self.c.ops)
        if not self.c.exits:
            raise AnalysisError("%s has no exit" % fn.name)


def flag(lay, a):
    return addr(a, lay["flag"])


def data(lay, a):
    return addr(a, lay["data"])


def layout(m, x):
    """where the value is, and where it is said whether there is one"""
    _, _, _, _, v = only(m, "O_%s_has" % x, "member")
    while isinstance(v, tuple) and v[0] in ("cast", "and", "icmp"):
        v = next((y for y in v[1:] if isinstance(y, tuple) and y[0] in ("cast", "and", "icmp", "mem")), None)
    if not (isinstance(v, tuple) and v[0] == "mem" and split(v[1])[0] == A0):
        raise AnalysisError("whether there is a value is not a member")
    fn = entry(m, "O_%s_data" % x)
    c = Life(None, fn)
    fl = Flow(fn, c, init=S((), (), None))
    kind, inst, st = c.exits[-1]
    p = fl.val(st, inst["ops"][0])
    if split(p)[0] != A0:
        raise AnalysisError("the value is not a member")
    return {"flag": split(v[1])[1], "data": split(p)[1], "flagv": v}


def flag_fact(lay, a, b):
    v = lay["flagv"]
    return {("mem", flag(lay, a)) + v[2:]: ("eq", b)}


# ---- the specification -------------------------------------------------------
# name -> (optionals among the arguments, values among them, function of (has, values) ->
#          {argument: value or None}, result); "v0" is the initial value of argument 0
def mv(v):
    return ("moved", v)


def spec():
    V = lambda n: ("val", ("arg", n))       # the value argument n has, or the optional n contains
    R = {}

    def op(name, objs, vals, f, new=(), res=None):
        R[name] = (objs, vals, f, new, res)
    op("def", (), (), lambda h: {0: None}, new=(0,))
    op("null", (), (), lambda h: {0: None}, new=(0,))
    op("copy", (1,), (), lambda h: {0: V(1) if h[1] else None}, new=(0,))
    op("move", (1,), (), lambda h: {0: V(1), 1: mv(V(1))} if h[1] else {0: None}, new=(0,))
    for n in ("valc", "makec"):
        op(n, (), (1,), lambda h: {0: V(1)}, new=(0,))
    for n in ("valm", "makem"):
        op(n, (), (1,), lambda h: {0: V(1), 1: mv(V(1))}, new=(0,))
    op("dtor", (0,), (), lambda h: {0: "dead"})
    for n in ("reset", "asgNull"):
        op(n, (0,), (), lambda h: {0: None})
    for n in ("asgC", "asgCU"):
        op(n, (0, 1), (), lambda h: {0: V(1) if h[1] else None})
    for n in ("asgM", "asgMU"):
        op(n, (0, 1), (), lambda h: {0: V(1), 1: mv(V(1))} if h[1] else {0: None})
    op("asgSelf", (0,), (), lambda h: {})
    op("asgV", (0,), (1,), lambda h: {0: V(1)})
    for n in ("swap", "swapF"):
        op(n, (0, 1), (), lambda h: {0: V(1) if h[1] else None, 1: V(0) if h[0] else None})
    op("valueOrCC", (1,), (2,), lambda h: {0: V(1) if h[1] else V(2)}, new=(0,))
    op("valueOrCM", (1,), (2,), lambda h: {0: V(1)} if h[1] else {0: V(2), 2: mv(V(2))}, new=(0,))
    op("valueOrMC", (1,), (2,), lambda h: {0: V(1), 1: mv(V(1))} if h[1] else {0: V(2)}, new=(0,))
    op("valueOrMM", (1,), (2,), lambda h: {0: V(1), 1: mv(V(1))} if h[1] else {0: V(2), 2: mv(V(2))}, new=(0,))
    op("emplaceC", (0,), (1,), lambda h: {0: V(1)}, res="data")
    op("emplaceM", (0,), (1,), lambda h: {0: V(1), 1: mv(V(1))}, res="data")
    for n in ("has", "bool"):
        op(n, (0,), (), lambda h: {}, res="has")
    for n in ("data", "dataN", "deref", "derefC", "derefM", "derefCM"):
        op(n, (0,), (), lambda h: {}, res="data")
    for c in CMP:
        op(c + "OO", (0, 1), (), lambda h: {}, res=(c, 0, 1))
        op(c + "ON", (0,), (), lambda h: {}, res=(c, 0, None))
        op(c + "NO", (0,), (), lambda h: {}, res=(c, None, 0))
        op(c + "OV", (0,), (1,), lambda h: {}, res=(c, 0, 1))
        op(c + "VO", (1,), (0,), lambda h: {}, res=(c, 0, 1))
    make = ("make", ("arg", 1))
    for n in ("inplace", "makei", "vali"):
        op(n, (), (), lambda h: {0: make}, new=(0,))
    op("convC", (1,), (), lambda h: {0: V(1) if h[1] else None}, new=(0,))
    op("convM", (1,), (), lambda h: {0: V(1), 1: mv(V(1))} if h[1] else {0: None}, new=(0,))
    op("valueOrConC", (1,), (), lambda h: {0: V(1) if h[1] else ("make", A2)}, new=(0,))
    op("valueOrConM", (1,), (), lambda h: {0: V(1), 1: mv(V(1))} if h[1] else {0: ("make", A2)}, new=(0,))
    op("emplace", (0,), (), lambda h: {0: make}, res="data")
    op("emplaceL", (0,), (), lambda h: {0: ("list",)}, res="data")
    return R


PLAIN_RESULT = ("valueOrCC", "valueOrCM", "valueOrMC", "valueOrMM", "valueOrConC", "valueOrConM")
SOURCE_W = ("convC", "convM", "asgCU", "asgMU")


def truth(c, l, r):
    """the result of comparing, if it follows from which values exist"""
    if l and r:
        return None
    return {"eq": l == r, "ne": l != r, "lt": not l and r, "le": not l, "gt": l and not r, "ge": not r}[c]


def opaque(ctx, m, x, trivial):
    lay, layw = layout(m, x), layout(m, "W")
    for name, (objs, vals, f, new, res) in spec().items():
        fn = entry(m, "O_%s_%s" % (x, name))
        plain = name in PLAIN_RESULT

        def where(n):
            """the storage of the value in argument n"""
            if n in vals or (n == 0 and plain):
                return ("arg", n)
            return data(layw if n == 1 and name in SOURCE_W else lay, ("arg", n))

        def fl_of(n):
            return layw if n == 1 and name in SOURCE_W else lay
        for hs in itertools.product((0, 1), repeat=len(objs)):
            h = dict(zip(objs, hs))
            if res == "data" and name[:7] != "emplace" and not h[0]:
                continue        # the caller guarantees that there is a value
            facts, init = {}, {}
            for n in objs:
                facts.update(flag_fact(fl_of(n), ("arg", n), h[n]))
                if h[n]:
                    init[where(n)] = ("val", ("arg", n))
            for n in vals:
                init[where(n)] = ("val", ("arg", n))
            case = Case(ctx, fn, lay, objs, h, facts, init, trivial)
            want = {n: (("val", ("arg", n)) if h.get(n, 1) else None) for n in objs + vals}
            want.update(f(h))
            returned = 0
            for kind, inst, st in case.c.exits:
                if kind not in ("ret", "throw"):
                    continue
                ctx.count("outcomes compared with the specification")
                live = dict(st.auto.live)

                def no(what):
                    bad(ctx, fn, case.fl, st, inst, what)
                for n, w in want.items():
                    p = where(n)
                    at = live.pop(p, None)
                    opt = (n in objs or n in new) and not (n == 0 and plain)
                    gone = w == "dead" or (kind == "throw" and n in new)
                    if opt and not gone:
                        says = case.fl.known(st, case.fl.load(st, flag(fl_of(n), ("arg", n)), 1))
                        if says is None or bool(says & 1) != (at is not None) and not (trivial and not says):
                            no("whether there is a value is not what is reported")
                            continue
                        if trivial and not says:
                            at = None
                    if gone:
                        if at is not None and not trivial:
                            no("a value is left behind in an object which exists no more")
                    elif kind == "ret":
                        if at is None or w is None:
                            if at is not w:
                                no("there is a value although there should be none" if w is None else
                                   "there is no value although there should be one")
                        elif at != w and not (w[0] == "list" and at[0] == "list") \
                                and not (n in objs and w == ("moved",)):
                            no("the value is not the one it should be")
                if live and not trivial:
                    no("a value is never destroyed")
                if kind != "ret":
                    continue
                returned += 1
                if res == "data":
                    if case.fl.val(st, inst["ops"][0]) != where(0):
                        no("not the place of the value is reported")
                elif res == "has":
                    if case.fl.known(st, case.fl.val(st, inst["ops"][0])) not in ((1, -1) if h[0] else (0,)):
                        no("whether there is a value is not what is reported")
                elif res is not None:
                    compared(ctx, case, kind, inst, st, res, h, where, no)
            if not returned:
                bad(ctx, fn, case.fl, case.c.exits[0][2], case.c.exits[0][1], "the operation never succeeds")


def compared(ctx, case, kind, inst, st, res, h, where, no):
    c, l, r = res
    hl, hr = (n is not None and bool(h.get(n, 1)) for n in (l, r))
    t = truth(c, hl, hr)
    ctx.count("results of comparisons")
    if t is None and not st.auto.cmps:
        no("the values are not compared")
        return
    for b, s in outcomes(case.fl, st, case.fl.val(st, inst["ops"][0])):
        if t is not None:
            if bool(b) != bool(t):
                no("the comparison has another result than which values exist gives")
            continue
        o, p, q, ret = st.auto.cmps[-1]
        neg = {"eq": "ne", "ne": "eq"}.get(c)
        if o not in (c, neg) or (p, q) != (where(l), where(r)) and not (c in ("eq", "ne") and (q, p) == (where(l), where(r))):
            no("something else is compared than the two values")
            continue
        k = case.fl.known(s, ret)
        if k is None or (bool(k & 1) == (o == c)) != bool(b):
            no("the comparison has another result than that of the values")


def plain(ctx, m, x, size):
    """values which are just memory"""
    lay = layout(m, x)
    for name, (objs, vals, f, new, res) in spec().items():
        if "O_%s_%s" % (x, name) not in {n[5:] for n in m.fns}:
            continue
        fn = entry(m, "O_%s_%s" % (x, name))
        isplain = name in PLAIN_RESULT

        def where(n):
            return ("arg", n) if n in vals or (n == 0 and isplain) else data(lay, ("arg", n))

        def val0(n):
            return ("mem", where(n), size, 0)
        for hs in itertools.product((0, 1), repeat=len(objs)):
            h = dict(zip(objs, hs))
            if res == "data" and name[:7] != "emplace" and not h[0]:
                continue
            facts = {}
            for n in objs:
                facts.update(flag_fact(lay, ("arg", n), h[n]))
            case = Case(ctx, fn, lay, objs, h, facts, {}, True)
            want = {n: (("val", ("arg", n)) if h.get(n, 1) else None) for n in objs + vals}
            want.update(f(h))
            for kind, inst, st in case.c.exits:
                def no(what):
                    bad(ctx, fn, case.fl, st, inst, what)
                if kind != "ret":
                    no("an exception is thrown")
                    continue
                ctx.count("outcomes compared with the specification")
                for n, w in want.items():
                    if w == "dead":
                        continue
                    if (n in objs or n in new) and not (n == 0 and isplain):
                        says = case.fl.known(st, case.fl.load(st, flag(lay, ("arg", n)), 1))
                        if says is None or bool(says & 1) != (w is not None):
                            no("whether there is a value is not what is reported")
                            continue
                    if w is None:
                        continue
                    while w[0] == "moved":
                        w = w[1]
                    got = case.fl.load(st, where(n), size)
                    if strip(got) != val0(w[1][1]):
                        no("the value is not the one it should be")
                r = case.fl.val(st, inst["ops"][0]) if inst["ops"] else None
                if res == "data" and r != where(0):
                    no("not the place of the value is reported")
                elif res == "has" and case.fl.known(st, r) not in ((1, -1) if h[0] else (0,)):
                    no("whether there is a value is not what is reported")
                elif isinstance(res, tuple):
                    c, l, rr = res
                    t = truth(c, *(k is not None and bool(h.get(k, 1)) for k in (l, rr)))
                    if t is not None and case.fl.known(st, r) not in ((1, -1) if t else (0,)):
                        no("the comparison has another result than which values exist gives")


def strip(v):
    """an expression without conversions which keep a truth value"""
    while isinstance(v, tuple) and (v[0] == "cast" or v[0] == "and" and v[3] == 1):
        v = v[3] if v[0] == "cast" else v[2]
    return v


PRO = """
#include <sharemind/Optional.h>
#include <string>
#include <type_traits>
#include <utility>
using sharemind::Optional;
struct MO { MO(int); MO(MO &&); MO & operator=(MO &&); ~MO(); };                                  // only moves
struct CO { CO(int); CO(CO const &); CO & operator=(CO const &) = delete; ~CO(); };               // is not assigned to
struct NO { NO(int); NO(NO const &) = delete; NO & operator=(NO const &) = delete; ~NO(); };      // stays where it is
struct SW { SW(SW &&) noexcept; SW & operator=(SW &&) = delete; ~SW(); };
void swap(SW &, SW &) noexcept;
struct W { W(int); W(W const &); W(W &&); ~W(); };
struct X { X(int); X(X const &); X(X &&); X(W const &); X(W &&); X & operator=(X const &); X & operator=(X &&); X & operator=(W const &); X & operator=(W &&); ~X(); };
bool operator==(X const &, X const &); bool operator!=(X const &, X const &); bool operator<(X const &, X const &);
bool operator<=(X const &, X const &); bool operator>(X const &, X const &); bool operator>=(X const &, X const &);
struct L { L(L const &) noexcept; L(std::initializer_list<int> &, int) noexcept(false); L(int) noexcept; L(int, int) noexcept; ~L(); };
"""


def types():
    T = lambda what, e: (what, "static_assert(%s, \"\");" % e)
    tr = {"is_copy_constructible": "copied", "is_move_constructible": "moved", "is_copy_assignable": "copied by assignment", "is_move_assignable": "moved by assignment"}
    want = {"int": (1, 1, 1, 1), "std::string": (1, 1, 1, 1), "X": (1, 1, 1, 1), "MO": (0, 1, 0, 1), "NO": (0, 0, 0, 0)}
    pos = [T("an optional %s can %sbe %s" % (t, "" if w else "not ", tr[k]), "std::%s<Optional<%s> >::value == %s" % (k, t, "true" if w else "false"))
           for t, ws in want.items() for k, w in zip(tr, ws)]
    pos += [T("an optional CO can be copied", "std::is_copy_constructible<Optional<CO> >::value"),
            T("an optional CO can not be copied by assignment", "!std::is_copy_assignable<Optional<CO> >::value"),
            T("an optional int is destroyed without effect", "std::is_trivially_destructible<Optional<int> >::value"),
            T("copying is noexcept exactly when that of the value is", "std::is_nothrow_copy_constructible<Optional<int> >::value && !std::is_nothrow_copy_constructible<Optional<X> >::value && !std::is_nothrow_move_constructible<Optional<X> >::value"),
            T("assigning is noexcept exactly when that of the value is", "std::is_nothrow_copy_assignable<Optional<int> >::value && !std::is_nothrow_copy_assignable<Optional<X> >::value && !std::is_nothrow_move_assignable<Optional<X> >::value")]
    for op in ("==", "!=", "<", "<=", ">", ">="):
        x, o = "std::declval<X const &>()", "std::declval<Optional<X> const &>()"
        for a, b in ((x, o), (o, x), (o, o)):
            pos.append(T("comparing with %s is noexcept only when that of the values is" % op, "!noexcept(%s %s %s)" % (a, op, b)))
    em = "noexcept(std::declval<Optional<L> &>().emplace("
    pos += [T("emplace() is noexcept exactly when the constructor it calls is", em + "1, 2))"),
            T("emplace() from a list is noexcept exactly when the constructor it calls is", "!" + em + "std::declval<std::initializer_list<int> >(), 2))"),
            ("an optional of another type is assigned", "void a1(Optional<X> & a, Optional<W> const & b) { a = b; }"),
            ("an optional of another type is moved by assignment", "void a2(Optional<X> & a, Optional<W> & b) { a = std::move(b); }"),
            ("an optional of another type is converted", "void a3(Optional<W> const & b) { Optional<X> a(b); Optional<X> c(static_cast<Optional<W> const &&>(b)); (void) a; (void) c; }"),
            ("optionals are swapped", "void a4(Optional<X> & a, Optional<X> & b) { swap(a, b); a.swap(b); }"),
            ("optionals are swapped with the swap() of their values", "void a5(Optional<SW> & a, Optional<SW> & b) { a.swap(b); }"),
            ("an optional contains what can not be moved", "void a6() { Optional<NO> a; a.emplace(1); a.reset(); Optional<NO> b(sharemind::inPlace, 1); }"),
            ("an optional contains what is only moved", "void a7() { Optional<MO> a(1); Optional<MO> b(std::move(a)); b = std::move(a); a = MO(1); }"),
            ("an optional is tested at compile time", "constexpr Optional<int> c1(4); static_assert(c1 && *c1 == 4 && c1 == 4 && c1 != sharemind::nullOption, \"\"); constexpr Optional<int> c2; static_assert(!c2 && c2 < c1, \"\");"),
            ("an optional bool says what it was made of", "constexpr Optional<bool> d1(false), d2 = sharemind::makeOptional(false); static_assert(d1 && d2 && !*d1 && !*d2, \"\");")]
    neg = [("the value of an optional is copied out of nothing", "void n1() { sharemind::NullOption n; }", None),
           ("an optional which is only moved is copied", "void n2(Optional<MO> const & o) { Optional<MO> c(o); }", None),
           ("an optional is a number", "int n3(Optional<int> const & o) { return o; }", None)]
    return ("optional", PRO, pos, neg)


def c17(ctx):
    ctx.rule("(at compile time) optionals can be copied, moved, assigned, swapped and compared exactly when, and as noexcept as, their values can")
    ctx.rule("a value is constructed only where there is none, used, assigned to and destroyed only where there is one, on all paths including those on which an operation of the value throws")
    ctx.rule("an optional says that there is a value exactly when there is one; results are the values they should be, by provenance")
    ctx.rule("comparisons order 'no value' before all values and otherwise compare the values")
    ctx.assume("operations of the values do not use the optional which contains them; destructors do not throw")
    witness.check(ctx, [types()])
    for m in ctx.modules(["optional.cpp"], [("NDEBUG",)]):
        opaque(ctx, m, "X", False)
        opaque(ctx, m, "Y", True)
        plain(ctx, m, "I", 4)
        plain(ctx, m, "B", 1)
    ctx.floor("operations of optionals", ctx.counts.get("functions explored path by path", 0), 300)


CHECKS = {"C17": c17}
