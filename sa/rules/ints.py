"""C14 integer comparisons, conversions and literals."""
import itertools

from ..flow import Flow
from ..ir import AnalysisError
from ..lin import Lin
from .. import witness
from .lockfree import bad

TYPES = {"i8": (8, True), "i16": (16, True), "i32": (32, True), "i64": (64, True), "u8": (8, False), "u16": (16, False),
         "u32": (32, False), "u64": (64, False), "ill": (64, True), "ull": (64, False), "ch": (8, True), "bool": (1, False)}
LESS = lambda a, b: [[b - a - 1]]
LEQ = lambda a, b: [[b - a]]
REL = {"LT": (LESS, lambda a, b: LEQ(b, a)), "LE": (LEQ, lambda a, b: LESS(b, a)),
       "EQ": (lambda a, b: [[a - b, b - a]], lambda a, b: LESS(a, b) + LESS(b, a))}
REL["LTT"] = REL["LT"]
REL["NE"] = REL["EQ"][::-1]
REL["GE"] = REL["LT"][::-1]
REL["GT"] = REL["GTT"] = REL["LE"][::-1]
SIGN = {"P": "GT", "N": "LT", "NN": "GE", "NP": "LE", "Z": "EQ", "NZ": "NE"}


class Ends:
    def __init__(self):
        self.exits = []

    def exit(self, fl, st, kind, inst):
        self.exits.append((kind, inst, st))


def leaves(e, truth=True):
    """the comparisons and unknown truth values a boolean expression is made of"""
    if isinstance(e, tuple):
        if e[0] == "icmp":
            yield from (x for y in e[2:] for x in leaves(y, False) if isinstance(y, tuple))
            yield e
        elif e[0] == "ret":
            if truth:
                yield e
        elif e[0] in ("arg", "mem"):
            return
        else:
            for x in e[1:]:
                yield from leaves(x, truth)


def outcomes(fl, st, e, d=0):
    """(value, state) for every way the boolean expression may come out"""
    v = fl.known(st, e)
    if isinstance(v, int):
        yield v & 1, st
        return
    rest = [x for x in leaves(e) if fl.known(st, x) is None and x != e]
    if d > 8:
        raise AnalysisError("cannot follow the result %r" % (e,))
    pick = rest[0] if rest else e
    if not rest and e[0] not in ("icmp", "ret"):
        raise AnalysisError("cannot follow the result %r" % (e,))
    for b in (0, 1):
        s = st.copy()
        if fl.learn(s, pick, b):
            if fl.known(s, pick) is None:
                s.facts[pick] = ("eq", b)
            yield from outcomes(fl, s, e, d + 1)


def explore(fn, types):
    """paths of the function, with every combination of values of its bool arguments"""
    bools = [i for i, t in enumerate(types) if t == "bool"]
    for vs in itertools.product((0, 1), repeat=len(bools)):
        c = Ends()
        facts = {("arg", i): ("eq", v) for i, v in zip(bools, vs)}
        fl = Flow(fn, c, facts=facts)
        for kind, inst, st in c.exits:
            yield fl, kind, inst, st


def lin(st, types):
    def width(a):
        return TYPES[types[a[1]]][0] if a[0] == "arg" and a[1] < len(types) else None
    L = Lin(st.facts, small=lambda a: False, width=width)
    vals = []
    for i, t in enumerate(types):
        w, s = TYPES[t]
        f = st.facts.get(("arg", i))
        vals.append(L.value(f[1] & ((1 << w) - 1) if f and f[0] == "eq" else ("arg", i), w, s))
    return L, vals


def boolean(ctx, fn, types, rel, zero=False):
    ctx.count("functions explored path by path")
    for fl, kind, inst, st in explore(fn, types):
        if kind != "ret":
            bad(ctx, fn, fl, st, inst, "a comparison does not return")
            continue
        for r, s in outcomes(fl, st, fl.val(st, inst["ops"][0])):
            L, v = lin(s, types)
            if zero:
                v.append(L.value(0))
            ctx.count("outcomes compared with the relation of the numbers")
            wrong = REL[rel][1 if r else 0](*v)
            if not all(L.infeasible(a) for a in wrong):
                bad(ctx, fn, fl, s, inst, "returns %s where the relation of the numbers is the opposite" % bool(r))


def minmax(ctx, fn, t, n, big):
    ctx.count("functions explored path by path")
    types = [t] * n
    w, sg = TYPES[t]
    for fl, kind, inst, st in explore(fn, types):
        if kind != "ret":
            bad(ctx, fn, fl, st, inst, "does not return")
            continue
        L, v = lin(st, types)
        r = L.value(fl.val(st, inst["ops"][0]), w, sg)
        ctx.count("results compared with the arguments")
        if not all(L.infeasible([x - r - 1] if big else [r - x - 1]) for x in v):
            bad(ctx, fn, fl, st, inst, "the result is not the %s of the arguments" % ("greatest" if big else "least"))
        # one of them: r = the first or the second or ...
        for cut in itertools.product((0, 1), repeat=n):
            if not L.infeasible([(r - x - 1) if c else (x - r - 1) for c, x in zip(cut, v)]):
                bad(ctx, fn, fl, st, inst, "the result is none of the arguments")


def plain(fl, st, e, w):
    """strips casts which keep the low w bits"""
    while isinstance(e, tuple) and e[0] == "cast":
        sw, dw = e[2]
        if e[1] in ("zext", "sext", "trunc", "bitcast") and (not sw or sw >= w) and (not dw or dw >= w):
            e = e[3]
        else:
            break
    return e


def identical(ctx, fn, w, swap):
    ctx.count("functions explored path by path")
    c = Ends()
    fl = Flow(fn, c)
    for kind, inst, st in c.exits:
        if kind != "ret":
            bad(ctx, fn, fl, st, inst, "does not return")
            continue
        e = plain(fl, st, fl.val(st, inst["ops"][0]), w)
        n = 0
        while isinstance(e, tuple) and e[0] == "intr" and e[1] == "llvm.bswap.i%d" % w:
            e = plain(fl, st, e[2], w)
            n += 1
        ctx.count("conversions traced back to the argument")
        if e != ("arg", 0):
            if rotates(e):
                n += 1
            else:
                bad(ctx, fn, fl, st, inst, "the result is not the argument's bits")
                continue
        if w > 8 and n % 2 != (1 if swap else 0):
            bad(ctx, fn, fl, st, inst, "the result's bytes are %sreversed" % ("not " if swap else ""))


def rotates(e):
    """a 16-bit value with its bytes exchanged: clang turns it into a funnel shift by 8"""
    return isinstance(e, tuple) and e[0] == "intr" and e[1] in ("llvm.fshl.i16", "llvm.fshr.i16") \
        and e[2] == e[3] == ("arg", 0) and e[4] == 8


SIGNED = ["int8", "int16", "int32", "int64", "intFast8", "intFast16", "intFast32", "intFast64", "intLeast8", "intLeast16",
          "intLeast32", "intLeast64", "intMax", "intPtr"]
BITS = {"int8": 7, "int16": 15, "int32": 31, "int64": 63, "intFast8": 7, "intFast16": 63, "intFast32": 63, "intFast64": 63,
        "intLeast8": 7, "intLeast16": 15, "intLeast32": 31, "intLeast64": 63, "intMax": 63, "intPtr": 63}
STD = {"intFast8": "int_fast8_t", "intFast16": "int_fast16_t", "intFast32": "int_fast32_t", "intFast64": "int_fast64_t",
       "intLeast8": "int_least8_t", "intLeast16": "int_least16_t", "intLeast32": "int_least32_t",
       "intLeast64": "int_least64_t", "intMax": "intmax_t", "intPtr": "intptr_t"}


def literals():
    pro = """#include <cstdint>
#include <cstddef>
#include <type_traits>
#include <sharemind/CstdintLiterals.h>
#include <sharemind/CstddefLiterals.h>
using namespace sharemind;
template <class T, class U> constexpr bool is(T, U) { return std::is_same<T, U>::value; }
"""
    pos, neg = [], []
    rej = "Overflow in|Unsupported form|Integer|literal"
    forms = (("%d", "decimal"), ("0%o", "octal"), ("0x%x", "hexadecimal"), ("0X%X", "hexadecimal"), ("0x00%X", "hexadecimal"), ("00%o", "octal"))
    digits = ["9", "1", "10", "1234567890", "98", "255", "01234567", "00", "0xabcdef", "0XABCDEF9", "0x10203", "0x789"]
    for s in SIGNED:
        for unsigned in (False, True):
            name = "u" + s if unsigned else s
            t = STD.get(s, s + "_t")
            t = "std::" + ("u" + t if unsigned else t)
            top = (1 << (BITS[s] + unsigned)) - 1
            strict = "_" + name + ("_no_overflow" if unsigned else "")
            loose = "_" + name + ("" if unsigned else "_overflow")
            for f, fn in forms:
                for v in (0, 1, top - 1, top, top // 2 + 1, top // 10 * 9):
                    lit = f % v if v or f[-1] != "o" else "00"
                    for suf in (strict, loose):
                        pos.append(("%s%s" % (lit, suf), "static_assert(%s%s == static_cast<%s>(%dull) && is(%s%s, %s()), \"\");"
                                    % (lit, suf, t, v, lit, suf, t)))
                for v in (top + 1, top + 2, top * 2 + 1, (top + 1) * 16, (top + 1) * 10, 10 ** 24, 10 ** 25, 10 ** 38, 1 << 64,
                          (1 << 64) + 1, 1 << 67, 1 << 128):
                    neg.append(("%s%s" % (f % v, strict), "auto x = %s%s;" % (f % v, strict), None))
                    w = v % (1 << 64) % (top + 1 if unsigned else 2 * top + 2)
                    if not unsigned and w > top:
                        w -= 2 * top + 2
                    pos.append(("%s%s" % (f % v, loose), "static_assert(%s%s == static_cast<%s>(%dll), \"\");"
                                % (f % v, loose, t, w if w < 1 << 63 else w - (1 << 64))))
            for d in digits:
                v = int(d, 0) if not d.startswith("0") or d[1] in "xX" else int(d, 8)
                if v <= top:
                    pos.append((d + strict, "static_assert(%s%s == %d, \"\");" % (d, strict, v)))
                else:
                    neg.append((d + strict, "auto x = %s%s;" % (d, strict), None))
            for d in ("0b11", "1.5", "1e1", "1'0", "08", "0x1p1", "019"):
                for suf in (strict, loose):
                    neg.append((d + suf, "auto x = %s%s;" % (d, suf), None))
    for f, fn in forms:
        for v in (0, 1, (1 << 64) - 1, 1 << 63):
            lit = f % v if v or f[-1] != "o" else "00"
            for suf in ("_sizeT", "_sizeT_no_overflow"):
                pos.append((lit + suf, "static_assert(%s%s == %dull && is(%s%s, std::size_t()), \"\");" % (lit, suf, v, lit, suf)))
        for v in (1 << 64, (1 << 64) + 7, 10 ** 24, 1 << 70):
            neg.append((f % v + "_sizeT_no_overflow", "auto x = %s_sizeT_no_overflow;" % (f % v), None))
    return ("literals", pro, pos, neg)


def conversions():
    pro = """#include <cstdint>
#include <type_traits>
#include <sharemind/ToSigned.h>
#include <sharemind/ToUnsigned.h>
#include <sharemind/SignedToUnsigned.h>
#include <sharemind/EnumToUnderlying.h>
#include <sharemind/MaybeEnumToUnderlying.h>
#include <sharemind/IntegralComparisons.h>
#include <sharemind/EnumConstant.h>
#include <sharemind/Max.h>
#include <sharemind/Min.h>
using namespace sharemind;
template <class T> using D = std::decay_t<T>;
enum class ES: signed char { A = -1 }; enum class EU: unsigned long { A = 1 }; enum Plain { PA };
"""
    pos, neg = [], []
    for t in ("signed char", "short", "int", "long", "long long", "unsigned char", "unsigned short", "unsigned int",
              "unsigned long", "unsigned long long"):
        pos.append(("toSigned(%s)" % t, "static_assert(std::is_same<D<decltype(toSigned(std::declval<%s>()))>, std::make_signed_t<%s> >::value, \"\");" % (t, t)))
        pos.append(("toUnsigned(%s)" % t, "static_assert(std::is_same<D<decltype(toUnsigned(std::declval<%s>()))>, std::make_unsigned_t<%s> >::value, \"\");" % (t, t)))
        if not t.startswith("u"):
            pos.append(("signedToUnsigned(%s)" % t, "static_assert(std::is_same<D<decltype(signedToUnsigned(std::declval<%s>()))>, std::make_unsigned_t<%s> >::value, \"\");" % (t, t)))
    for e, u in (("ES", "signed char"), ("EU", "unsigned long"), ("Plain", "std::underlying_type_t<Plain>")):
        pos.append(("enumToUnderlying(%s)" % e, "static_assert(std::is_same<D<decltype(enumToUnderlying(std::declval<%s>()))>, %s>::value, \"\");" % (e, u)))
        pos.append(("maybeEnumToUnderlying(%s)" % e, "static_assert(std::is_same<D<decltype(maybeEnumToUnderlying(std::declval<%s>()))>, %s>::value, \"\");" % (e, u)))
    # everything may be used in constant expressions
    for a, b, r in ((-1, "1u", "true"), ("-1ll", "0ull", "true"), ("0u", -1, "false"), ("5", "5ul", "false")):
        pos.append(("integralLess(%s, %s)" % (a, b), "static_assert(integralLess(%s, %s) == %s, \"\");" % (a, b, r)))
    return ("conversions", pro, pos, neg)


def c14(ctx):
    ctx.rule("comparisons: on every path, each result implies the relation of the numbers which the arguments stand for (linear "
             "inequalities over unbounded integers, wrap-around of the machine operations taken into account), for every pair of types")
    ctx.rule("min/max: the result is one of the arguments and none is beyond it")
    ctx.rule("conversions: the result has the argument's bits, byte order conversions reverse the bytes exactly where the orders differ")
    ctx.rule("literals and result types: compile-time witnesses which have to compile, and ones which the compiler has to reject")
    ctx.assume("the analysed target is the little-endian x86-64 one of this build")
    tasks = []
    mods = ctx.modules(["ints.cpp"])
    n = {}
    for m in mods:
        for name, fn in sorted(m.fns.items()):
            if not name.startswith("vp_e_") or not fn.blocks:
                continue
            k, *rest = name[5:].split("_")
            n[k] = n.get(k, 0) + 1
            if k == "IC":
                a, b, op = rest
                tasks.append(lambda c, fn=fn, a=a, b=b, op=op: boolean(c, fn, [a, b], op))
            elif k == "IS":
                tasks.append(lambda c, fn=fn, r=rest: boolean(c, fn, [r[0]], SIGN[r[1]], True))
            elif k == "MM":
                tasks.append(lambda c, fn=fn, r=rest: minmax(c, fn, r[0], int(r[1][3:]), r[1].startswith("max")))
            elif k == "CV":
                tasks.append(lambda c, fn=fn, r=rest: identical(c, fn, TYPES[r[0]][0], False))
            elif k == "EN":
                tasks.append(lambda c, fn=fn, r=rest: identical(c, fn, TYPES[r[0]][0], r[1] == "swap"))
    for k, need in (("IC", 2304), ("IS", 144), ("MM", 128), ("CV", 96), ("EN", 192)):
        ctx.floor("entries " + k, n.get(k, 0), need)
    chunk = 40
    ctx.parallel([lambda c, ts=tasks[i:i + chunk]: [t(c) for t in ts] for i in range(0, len(tasks), chunk)])
    witness.check(ctx, [literals(), conversions()])


CHECKS = {"C14": c14}
