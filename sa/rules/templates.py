"""C20: templates over lists and properties of types, decided by the compiler for all small cases."""
import itertools

from .. import witness

N = 5                   # lists up to this length: all of them, up to renaming


def sa(what, e):
    return (what, "static_assert(%s, \"\");" % e)


def same(what, a, b):
    return (what, "static_assert(std::is_same<%s, %s >::value, \"\");" % (a, b))


LISTS_PRO = """#include <cstddef>
#include <tuple>
#include <type_traits>
""" + "".join("#include <sharemind/%s.h>\n" % h for h in (
    "AlwaysFalse AlwaysFalsePred AlwaysFalseType AlwaysFalseTypePred AlwaysTrue AlwaysTruePred AlwaysTrueType AlwaysTrueTypePred "
    "TemplateAll TemplateAny TemplateNone TemplateAppend TemplateAppendTypes TemplateCommonPrefixTypes TemplateCondAppend TemplateCondAppendType "
    "TemplateCopyParams TemplateCountTypes TemplateContainsType TemplateFilter TemplateFilterTypes TemplateFirstType TemplateGetParam TemplateGetTypeParam "
    "TemplateInstantiateWithTypeParams TemplateInverseCondAppend TemplateInverseCondAppendType TemplateInverseFilter TemplateInverseTypeFilter "
    "TemplateLastType TemplateList TemplatePrefixTypes TemplatePrepend TemplatePrependTypes TemplateSubTypes TemplateSuffixTypes TemplateTypeList SizeOfTypes").split()) + """
using namespace sharemind;
template <int I> struct A; template <int I> struct B;          // types for which the predicate is true and false
template <typename T> struct Is : std::false_type {}; template <int I> struct Is<A<I> > : std::true_type {};
template <int I> struct Odd : std::integral_constant<bool, I % 2 != 0> {};
template <typename ... Ts> struct L; template <typename ... Ts> struct M; template <typename ... Ts> using TL = TemplateTypeList<Ts...>;
template <int ... Is> struct VL; template <int ... Is> struct VM; template <int ... Is> using TVL = TemplateList<int, Is...>;
template <int I> struct S { char c[I + 1]; };
"""


def inst(t, l):
    return "%s<%s>" % (t, ", ".join(map(str, l)))


def args(*ls):
    return "".join(", %s" % x for l in ls for x in l)


def lists():
    pos = []
    for n in range(N + 1):
        ts = ["A<%d>" % i for i in range(n)]
        vs = list(range(n))
        pos.append(sa("TemplateTypeList: size", "%s::size() == %d" % (inst("TL", ts), n)))
        pos.append(sa("TemplateList: size", "%s::size() == %d" % (inst("TVL", vs), n)))
        pos.append(sa("SizeOfTypes", "%s::value == %d && %s() == %d" % (inst("SizeOfTypes", ["S<%d>" % v for v in vs]), sum(v + 1 for v in vs), inst("sizeOfTypes", ["S<%d>" % v for v in vs]), sum(v + 1 for v in vs))))
        pos.append(same("TemplateCopyParams", "TemplateCopyParams_t<int, %s, VM>" % inst("VL", vs), inst("VM", vs)))
        for i in range(n):
            pos.append(same("TemplateTypeList: type", "%s::type<%d>" % (inst("TL", ts), i), ts[i]))
            pos.append(same("TemplateGetTypeParam", "TemplateGetTypeParam_t<%d%s>" % (i, args(ts)), ts[i]))
            pos.append(sa("TemplateGetParam", "TemplateGetParam<int, %d%s>::value == %d" % (i, args([10 * v for v in vs]), 10 * i)))
        if n:
            pos.append(same("TemplateFirstType", inst("TemplateFirstType", ts), ts[0]))
            pos.append(same("TemplateLastType", inst("TemplateLastType", ts), ts[-1]))
        for s in range(n + 1):
            pos.append(same("TemplatePrefixTypes", "TemplatePrefixTypes_t<%d%s>" % (s, args(ts)), inst("TL", ts[:s])))
            pos.append(same("TemplateSuffixTypes", "TemplateSuffixTypes_t<%d%s>" % (s, args(ts)), inst("TL", ts[n - s:])))
            for k in range(n - s + 1):
                pos.append(same("TemplateSubTypes", "TemplateSubTypes_t<%d, %d%s>" % (s, k, args(ts)), inst("TL", ts[s:s + k])))
            for t in ("L", "TL", "std::tuple"):
                pos.append(same("TemplateAppendTypes", "TemplateAppendTypes_t<%s%s>" % (inst(t, ts[:s]), args(ts[s:])), inst(t, ts)))
                pos.append(same("TemplatePrependTypes", "TemplatePrependTypes_t<%s%s>" % (inst(t, ts[s:]), args(ts[:s])), inst(t, ts)))
            pos.append(same("TemplateAppend", "TemplateAppend_t<int, %s%s>" % (inst("VL", vs[:s]), args(vs[s:])), inst("VL", vs)))
            pos.append(same("TemplatePrepend", "TemplatePrepend_t<int, %s%s>" % (inst("VL", vs[s:]), args(vs[:s])), inst("VL", vs)))
            pos.append(same("TemplateInstantiateWithTypeParams", "TemplateInstantiateWithTypeParams_t<M, %s, %s>" % (inst("L", ts[:s]), inst("TL", ts[s:])), inst("M", ts)))
            for e in range(s, n + 1):
                pos.append(same("TemplateInstantiateWithTypeParams", "TemplateInstantiateWithTypeParams_t<M, %s, %s, %s>" % (inst("L", ts[:s]), inst("std::tuple", ts[s:e]), inst("L", ts[e:])), inst("M", ts)))
                pos.append(same("TemplateInstantiateWithTypeParams", "TemplateInstantiateWithTypeParams_t<M, %s, L<>, %s, %s>" % (inst("L", ts[:s]), inst("L", ts[s:e]), inst("L", ts[e:])), inst("M", ts)))
        pos.append(same("TemplateInstantiateWithTypeParams", "TemplateInstantiateWithTypeParams_t<M, %s>" % inst("L", ts), inst("M", ts)))
        for p in itertools.product((0, 1), repeat=n):
            xs = [("A<%d>" if b else "B<%d>") % i for i, b in enumerate(p)]
            yes, no = [x for x, b in zip(xs, p) if b], [x for x, b in zip(xs, p) if not b]
            pos.append(same("TemplateFilterTypes", "TemplateFilterTypes_t<Is%s>" % args(xs), inst("TL", yes)))
            pos.append(same("TemplateInverseTypeFilter", "TemplateInverseTypeFilter_t<Is%s>" % args(xs), inst("TL", no)))
            ws = [2 * i + b for i, b in enumerate(p)]
            wy, wn = [w for w in ws if w % 2], [w for w in ws if not w % 2]
            pos.append(same("TemplateFilter", "TemplateFilter_t<int, Odd%s>" % args(ws), inst("TVL", wy)))
            pos.append(same("TemplateInverseFilter", "TemplateInverseFilter_t<int, Odd%s>" % args(ws), inst("TVL", wn)))
            for pre in ([], ["B<9>"], ["A<8>", "B<9>"]):
                pos.append(same("TemplateCondAppendType", "TemplateCondAppendType_t<Is, %s%s>" % (inst("L", pre), args(xs)), inst("L", pre + yes)))
                pos.append(same("TemplateInverseCondAppendType", "TemplateInverseCondAppendType_t<Is, %s%s>" % (inst("L", pre), args(xs)), inst("L", pre + no)))
            for pre in ([], [20], [21, 20]):
                pos.append(same("TemplateCondAppend", "TemplateCondAppend_t<int, Odd, %s%s>" % (inst("VL", pre), args(ws)), inst("VL", pre + wy)))
                pos.append(same("TemplateInverseCondAppend", "TemplateInverseCondAppend_t<int, Odd, %s%s>" % (inst("VL", pre), args(ws)), inst("VL", pre + wn)))
            bs = ["true" if b else "false" for b in p]
            for t, f in (("All", all), ("Any", any), ("None", lambda q: not any(q))):
                pos.append(sa("Template" + t, "%s::value == %s" % (inst("Template" + t, bs), str(f(p)).lower())))
        if n <= 4:
            for w in itertools.product(("int", "int const", "int &"), repeat=n):
                c = w.count("int")
                pos.append(sa("TemplateCountTypes", "TemplateCountTypes<int%s>::value == %d" % (args(w), c)))
                pos.append(sa("TemplateContainsType", "TemplateContainsType<int%s>::value == %s" % (args(w), str(c > 0).lower())))
        pos.append(sa("AlwaysTrue", "AlwaysTrue<int%s>::value && !AlwaysFalse<int%s>::value" % (args(vs), args(vs))))
        pos.append(sa("AlwaysTrueType", "%s::value && !%s::value" % (inst("AlwaysTrueType", ts), inst("AlwaysFalseType", ts))))
    pos.append(sa("AlwaysTruePred", "AlwaysTruePred<int, 0>::value && AlwaysTruePred<bool, false>::value && !AlwaysFalsePred<int, 1>::value && !AlwaysFalsePred<bool, true>::value"))
    pos.append(sa("AlwaysTrueTypePred", "AlwaysTrueTypePred<int>::value && AlwaysTrueTypePred<void>::value && !AlwaysFalseTypePred<int>::value && !AlwaysFalseTypePred<void>::value"))
    words = [w for n in range(5) for w in itertools.product(("A<0>", "B<0>"), repeat=n)]

    def common(*ws):
        r = []
        for xs in zip(*ws):
            if len(set(xs)) > 1:
                break
            r.append(xs[0])
        return r
    for a, b in itertools.product(words, words):
        pos.append(same("TemplateCommonPrefixTypes", "TemplateCommonPrefixTypes_t<%s, %s>" % (inst("L", a), inst("std::tuple", b)), inst("TL", common(a, b))))
    for ws in itertools.product([w for w in words if len(w) in (0, 1, 3)], repeat=3):
        pos.append(same("TemplateCommonPrefixTypes", "TemplateCommonPrefixTypes_t<%s>" % ", ".join(inst(t, w) for t, w in zip(("TL", "L", "M"), ws)), inst("TL", common(*ws))))
    # longer lists of all kinds at once
    for n in (8, 13, 21, 34):
        ts = ["A<%d>" % i if i % 3 else "B<%d>" % i for i in range(n)]
        yes = [t for t in ts if t[0] == "A"]
        no = [t for t in ts if t[0] == "B"]
        yes_, no_ = ([t for t in ts[:9] if t[0] == k] for k in "AB")       # (compile times double with each element)
        vs = [i * 7 % 31 for i in range(n)]
        pos += [same("TemplateFilterTypes", "TemplateFilterTypes_t<Is%s>" % args(ts), inst("TL", yes)),
                same("TemplateInverseTypeFilter", "TemplateInverseTypeFilter_t<Is%s>" % args(ts), inst("TL", no)),
                same("TemplateCondAppendType", "TemplateCondAppendType_t<Is, L<>%s>" % args(ts[:9]), inst("L", yes_)),
                same("TemplateInverseCondAppendType", "TemplateInverseCondAppendType_t<Is, L<>%s>" % args(ts[:9]), inst("L", no_)),
                same("TemplateFilter", "TemplateFilter_t<int, Odd%s>" % args(vs), inst("TVL", [v for v in vs if v % 2])),
                same("TemplateInverseFilter", "TemplateInverseFilter_t<int, Odd%s>" % args(vs), inst("TVL", [v for v in vs if not v % 2])),
                same("TemplateCondAppend", "TemplateCondAppend_t<int, Odd, VL<>%s>" % args(vs[:9]), inst("VL", [v for v in vs[:9] if v % 2])),
                same("TemplateInverseCondAppend", "TemplateInverseCondAppend_t<int, Odd, VL<>%s>" % args(vs[:9]), inst("VL", [v for v in vs[:9] if not v % 2])),
                same("TemplateFirstType", inst("TemplateFirstType", ts), ts[0]), same("TemplateLastType", inst("TemplateLastType", ts), ts[-1]),
                same("TemplateCommonPrefixTypes", "TemplateCommonPrefixTypes_t<%s, %s>" % (inst("L", ts), inst("L", ts[:-1] + ["int"])), inst("TL", ts[:-1])),
                sa("TemplateCountTypes", "TemplateCountTypes<B<3>%s>::value == 2" % args(ts, ["B<3>"])),
                sa("TemplateAll", "%s::value && !%s::value" % (inst("TemplateAll", ["true"] * n), inst("TemplateAll", ["true"] * (n - 1) + ["false"]))),
                sa("TemplateAny", "!%s::value && %s::value" % (inst("TemplateAny", ["false"] * n), inst("TemplateAny", ["false"] * (n - 1) + ["true"]))),
                sa("TemplateNone", "%s::value && !%s::value" % (inst("TemplateNone", ["false"] * n), inst("TemplateNone", ["false"] * (n - 1) + ["true"])))]
        for i in (0, 1, n // 2, n - 1):
            pos += [same("TemplateGetTypeParam", "TemplateGetTypeParam_t<%d%s>" % (i, args(ts)), ts[i]),
                    sa("TemplateGetParam", "TemplateGetParam<int, %d%s>::value == %d" % (i, args(vs), vs[i])),
                    same("TemplatePrefixTypes", "TemplatePrefixTypes_t<%d%s>" % (i, args(ts)), inst("TL", ts[:i])),
                    same("TemplateSuffixTypes", "TemplateSuffixTypes_t<%d%s>" % (i, args(ts)), inst("TL", ts[n - i:])),
                    same("TemplateSubTypes", "TemplateSubTypes_t<%d, %d%s>" % (i, (n - i) // 2, args(ts)), inst("TL", ts[i:i + (n - i) // 2]))]
    neg = [("a type after the last one is asked for", "using X = TemplateGetTypeParam_t<2, int, char>;", None),
           ("a value after the last one is asked for", "int x = TemplateGetParam<int, 2, 5, 6>::value;", None),
           ("the first of no types is asked for", "using X = TemplateFirstType<>;", None),
           ("the last of no types is asked for", "using X = TemplateLastType<>;", None),
           ("more types are asked for than there are", "using X = TemplatePrefixTypes_t<3, int, char>;", None),
           ("more types are asked for than there are", "using X = TemplateSuffixTypes_t<3, int, char>;", None),
           ("more types are asked for than there are", "using X = TemplateSubTypes_t<1, 2, int, char>;", None)]
    return ("lists", LISTS_PRO, pos, neg)


TRAITS_PRO = """#include <array>
#include <cstdint>
#include <functional>
#include <limits>
#include <memory>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
""" + "".join("#include <sharemind/%s.h>\n" % h for h in (
    "CopyConst CopyCv CopyVolatile DecayTupleSize Detected FunctionTraits integer_demotion IsPowerOfTwo IsReferenceable IsSwappable "
    "RemoveCvref Size StripAndDecay StripReferenceWrapper TemplateTypeList TypeIdentity Void").split()) + """
using namespace sharemind;
template <typename T> using RW = std::reference_wrapper<T>;
template <typename T> using Nested = typename T::Nested;
template <typename T, typename U> using Sum = decltype(std::declval<T>() + std::declval<U>());
struct HasNested { using Nested = long; }; enum En0 { en0 }; struct HasEn { using Nested = En0; }; struct E {}; enum En { en };
using Fn = int (char, long &);
struct C { int f(char, long &); int fc(char, long &) const; int fv(char, long &) volatile; int fcv(char, long &) const volatile; };
struct F0 { int operator()(char, long &); }; struct F1 { int operator()(char, long &) const; }; struct F2 { int operator()(char, long &) volatile; }; struct F3 { int operator()(char, long &) const volatile; };
namespace s1 { struct Sw { Sw(Sw const &) = delete; Sw & operator=(Sw const &) = delete; }; void swap(Sw &, Sw &); }
namespace s2 { struct Sw { Sw(Sw const &) = delete; Sw & operator=(Sw const &) = delete; }; void swap(Sw &, Sw &) noexcept; }
namespace s3 { struct Sw { Sw(Sw &&) = delete; Sw & operator=(Sw &&) = delete; }; }
namespace s4 { struct P {}; struct Q {}; void swap(P &, Q &) noexcept; void swap(Q &, P &); struct R {}; void swap(P &, R &); }
namespace s5 { struct P {}; struct Q {}; void swap(P &, Q &) noexcept; void swap(Q &, P &) noexcept; }
struct Th { Th(Th &&); Th & operator=(Th &&) noexcept; }; struct Nt { Nt(Nt &&) noexcept; Nt & operator=(Nt &&) noexcept; };
struct Sz { unsigned char size() const; }; struct SzN { long size() const noexcept; };
"""
CV = [(0, 0), (1, 0), (0, 1), (1, 1)]


def cv(t, q):
    return t + (" const" if q[0] else "") + (" volatile" if q[1] else "")


def traits():
    pos = []
    bases = ["int", "int *", "E", "void"]
    froms = ["char", "E *", "void", "En"]
    for (b, q), (f, p) in itertools.product(itertools.product(bases, CV), itertools.product(froms, CV)):
        to, fr = cv(b, q), cv(f, p)
        pos += [same("CopyCv", "CopyCv_t<%s, %s>" % (to, fr), cv(b, p)), same("OrCv", "OrCv_t<%s, %s>" % (to, fr), cv(b, (p[0] | q[0], p[1] | q[1]))),
                same("CopyConst", "CopyConst_t<%s, %s>" % (to, fr), cv(b, (p[0], q[1]))), same("OrConst", "OrConst_t<%s, %s>" % (to, fr), cv(b, (p[0] | q[0], q[1]))),
                same("CopyVolatile", "CopyVolatile_t<%s, %s>" % (to, fr), cv(b, (q[0], p[1]))), same("OrVolatile", "OrVolatile_t<%s, %s>" % (to, fr), cv(b, (q[0], p[1] | q[1])))]
    for q in CV:        # references have no qualifiers of their own
        pos += [same("CopyCv", "CopyCv_t<%s, int &>" % cv("char", q), "char"), same("CopyCv", "CopyCv_t<char &, %s>" % cv("int", q), "char &"), same("OrCv", "OrCv_t<%s, int const &>" % cv("char", q), cv("char", q))]
    for b, q, r in itertools.product(["int", "int *", "E", "En"], CV, ("", " &", " &&")):
        t = cv(b, q) + r
        pos += [same("RemoveCvref", "RemoveCvref<%s>::type" % t, b), same("RemoveCvrefT", "RemoveCvrefT<%s>" % t, b), same("StripAndDecay", "StripAndDecay_t<%s>" % t, b),
                same("TypeIdentity", "TypeIdentity<%s>::type" % t, t), same("TypeIdentityT", "TypeIdentityT<%s>" % t, t), same("StripReferenceWrapper", "StripReferenceWrapper_t<%s>" % t, t)]
        w = cv("RW<%s>" % b, q) + r
        pos += [same("StripAndDecay", "StripAndDecay_t<%s>" % w, b + " &"), same("StripReferenceWrapper", "StripReferenceWrapper_t<%s>" % w, (b + " &") if not r and q == (0, 0) else w)]
        for k, tt in ((0, "std::tuple<>"), (2, "std::pair<int, char>"), (3, "std::tuple<int, char, E>"), (4, "std::array<int, 4>")):
            pos.append(sa("DecayTupleSize", "DecayTupleSize<%s>::value == %d" % (cv(tt, q) + r, k)))
    pos += [same("RemoveCvref", "RemoveCvref<int const (&)[3]>::type", "int [3]"), same("RemoveCvref", "RemoveCvref<Fn &>::type", "Fn"), same("StripAndDecay", "StripAndDecay_t<int const (&)[3]>", "int const *"),
            same("StripAndDecay", "StripAndDecay_t<Fn>", "int (*)(char, long &)"), same("StripReferenceWrapper", "StripReferenceWrapper_t<RW<int const> >", "int const &")]
    for t, v in (("int", 1), ("int &", 1), ("int &&", 1), ("int const volatile", 1), ("int [3]", 1), ("int []", 1), ("Fn", 1), ("Fn *", 1), ("void", 0), ("void const", 0), ("void volatile", 0),
                 ("void const volatile", 0), ("int (char) const", 0), ("int (char) volatile", 0), ("int (char) &", 0), ("int (char) const &&", 0), ("void *", 1), ("E", 1)):
        pos.append(sa("IsReferenceable", "IsReferenceable<%s>::value == %s" % (t, str(bool(v)).lower())))
    for t, s, n in (("int", 1, 1), ("int *", 1, 1), ("int const", 0, 0), ("int &", 1, 1), ("int const &", 0, 0), ("void", 0, 0), ("void const", 0, 0), ("Fn", 0, 0), ("int (char) const", 0, 0),
                    ("s1::Sw", 1, 0), ("s2::Sw", 1, 1), ("s3::Sw", 0, 0), ("Th", 1, 0), ("Nt", 1, 1), ("Th const", 0, 0), ("Nt &", 1, 1), ("Th &", 1, 0), ("s1::Sw &", 1, 0), ("E", 1, 1)):
        pos += [sa("IsSwappable", "IsSwappable<%s>::value == %s" % (t, str(bool(s)).lower())), sa("IsNothrowSwappable", "IsNothrowSwappable<%s>::value == %s" % (t, str(bool(n)).lower()))]
    for a, b, s, n in (("int &", "int &", 1, 1), ("int", "int", 0, 0), ("int &", "long &", 0, 0), ("int &", "int", 0, 0), ("void", "void", 0, 0), ("int &", "void", 0, 0), ("void", "int &", 0, 0),
                       ("s4::P &", "s4::Q &", 1, 0), ("s4::Q &", "s4::P &", 1, 0), ("s4::P &", "s4::R &", 0, 0), ("s4::R &", "s4::P &", 0, 0), ("s5::P &", "s5::Q &", 1, 1), ("s5::P", "s5::Q &", 0, 0), ("s5::P &", "s5::Q const &", 0, 0)):
        pos += [sa("IsSwappableWith", "IsSwappableWith<%s, %s>::value == %s" % (a, b, str(bool(s)).lower())), sa("IsNothrowSwappableWith", "IsNothrowSwappableWith<%s, %s>::value == %s" % (a, b, str(bool(n)).lower()))]
    # functions
    def fn(t, want):
        for r in ("", " &", " &&"):
            x = "FunctionTraits<%s>" % (t + r)
            pos.append(sa("FunctionTraits", "std::is_same<%s::return_type, int>::value && std::is_same<%s::arguments, TemplateTypeList<%s> >::value && %s::arity() == %d" % (x, x, ", ".join(want), x, len(want))))
            for i, w in enumerate(want):
                pos.append(same("FunctionTraits: argument", "%s::argument<%d>" % (x, i), w))
    fn("TypeIdentityT<Fn>", ["char", "long &"])
    fn("TypeIdentityT<Fn *>", ["char", "long &"])
    fn("TypeIdentityT<int ()>", [])
    fn("TypeIdentityT<int (*)(int, int, int)>", ["int"] * 3)
    for m, q in (("f", ""), ("fc", " const"), ("fv", " volatile"), ("fcv", " const volatile")):
        fn("decltype(&C::%s)" % m, ["C%s *" % q, "char", "long &"])
    for i, q in enumerate(CV):
        fn("F%d" % i, ["F%d%s *" % (i, cv("", q)), "char", "long &"])
        for p in CV:
            if p <= q and p[0] <= q[0] and p[1] <= q[1] and p != (0, 0):
                fn(cv("F%d" % i, p), ["F%d%s *" % (i, cv("", q)), "char", "long &"])
    # detection
    for a, d in (("Nested, HasNested", "long"), ("Nested, E", None), ("Nested, int", None), ("Sum, int, long", "long"), ("Sum, int, E", None), ("Sum, char, char", "int")):
        pos += [sa("IsDetected", "IsDetected<%s>::value == %s" % (a, "true" if d else "false")), same("DetectedOrT", "DetectedOrT<En, %s>" % a, d or "En"),
                same("DetectedOr", "DetectedOr<En, %s>::Type" % a, d or "En"), sa("IsDetectedExact", "IsDetectedExact<%s, %s>::value == %s" % (d or "int", a, "true" if d else "false")),
                sa("IsDetectedExact", "!IsDetectedExact<short, %s>::value" % a), sa("IsDetectedConvertible", "IsDetectedConvertible<short, %s>::value == %s" % (a, "true" if d else "false")),
                sa("IsDetectedConvertible", "!IsDetectedConvertible<E, %s>::value" % a)]
        if d:
            pos.append(same("DetectedT", "DetectedT<%s>" % a, d))
        else:
            pos.append(sa("DetectedT", "!std::is_constructible<DetectedT<%s> >::value && !std::is_destructible<DetectedT<%s> >::value && !std::is_copy_constructible<DetectedT<%s> >::value" % (a, a, a)))
    pos.append(sa("IsDetectedConvertible", "IsDetectedConvertible<int, Nested, HasEn>::value && !IsDetectedConvertible<En0, Nested, HasNested>::value"))
    pos += [same("Void", "Void_t<int, E &, void>", "void"), same("Void", "Void_t<>", "void")]
    # sizes and bits
    pos += [("size: array", "int const ar_[7] = {}; static_assert(sharemind::size(ar_) == 7 && noexcept(sharemind::size(ar_)), \"\");"),
            ("size: range", "static_assert(!noexcept(sharemind::size(std::declval<Sz const &>())) && std::is_same<decltype(sharemind::size(std::declval<Sz const &>())), unsigned char>::value, \"\");"),
            ("size: range", "static_assert(noexcept(sharemind::size(std::declval<SzN const &>())) && std::is_same<decltype(sharemind::size(std::declval<SzN const &>())), long>::value, \"\");"),
            ("isPowerOfTwo: numbers of 16 bits", "constexpr bool p2(long v, int k) { return k < 62 && ((1L << k) == v || p2(v, k + 1)); }\n"
             "constexpr bool p2s(int lo, int hi) { return hi - lo == 1 ? isPowerOfTwo(static_cast<std::uint16_t>(lo)) == p2(lo, 0) && isPowerOfTwo(static_cast<std::int16_t>(lo)) == (static_cast<std::int16_t>(lo) > 0 && p2(static_cast<std::int16_t>(lo), 0)) : p2s(lo, lo + (hi - lo) / 2) && p2s(lo + (hi - lo) / 2, hi); }\n"
             "" + "".join("static_assert(p2s(%d, %d), \"\");\n" % (i, i + 1024) for i in (*range(0, 4096, 1024), 31744, 32768, *range(61440, 65536, 1024))))]
    for t, w in (("std::uint8_t", 8), ("std::int8_t", 7), ("std::uint32_t", 32), ("std::int32_t", 31), ("std::uint64_t", 64), ("std::int64_t", 63), ("char", 7)):
        for k in range(w):
            pos.append(sa("isPowerOfTwo", "isPowerOfTwo(static_cast<%s>(static_cast<%s>(1) << %d))" % (t, t, k)))
            if 1 < k:
                pos.append(sa("isPowerOfTwo", "!isPowerOfTwo(static_cast<%s>((static_cast<%s>(1) << %d) + 1)) && !isPowerOfTwo(static_cast<%s>((static_cast<%s>(1) << %d) - 1))" % (t, t, k, t, t, k)))
        pos.append(sa("isPowerOfTwo", "!isPowerOfTwo(static_cast<%s>(0)) && !isPowerOfTwo(std::numeric_limits<%s>::max())" % (t, t)))
        if t.startswith("std::int"):
            pos.append(sa("isPowerOfTwo", "!isPowerOfTwo(std::numeric_limits<%s>::min()) && !isPowerOfTwo(static_cast<%s>(-1)) && !isPowerOfTwo(static_cast<%s>(-2))" % (t, t, t)))
    ints = [("bool", 1), ("std::uint8_t", 8), ("std::int8_t", 8), ("std::uint16_t", 16), ("std::int32_t", 32), ("std::uint64_t", 64)]
    for (a, n), (b, m) in itertools.product(ints, ints):
        e = "template <typename T, typename U, typename = decltype(demote_integer<T>(std::declval<U>(), nullptr))> constexpr bool"
        pos.append(sa("demote_integer", "impl::can_demote<%s, %s>::value == %s" % (a, b, str(n < m).lower())))
    neg = [("a power of two is asked for of what is not an integer", "bool x = isPowerOfTwo(1.0);", None),
           ("what was not detected is used", "DetectedT<Nested, E> x;", None),
           ("arguments after the last one are asked for", "using X = FunctionTraits<Fn>::argument<2>;", None),
           ("an integer is demoted to a wider one", "long x = demote_integer<long>(static_cast<short>(5));", None)]
    return ("traits", TRAITS_PRO, pos, neg)


CONCEPTS_PRO = """#include <cstddef>
#include <functional>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <sharemind/Concepts.h>
using namespace sharemind;
struct Ba {}; struct De : Ba {}; struct Un {}; struct NoD { NoD(int); }; struct NoC { NoC(NoC const &) = delete; NoC & operator=(NoC const &) = delete; NoC(); };
struct Mo { Mo(Mo &&) noexcept; Mo & operator=(Mo &&) noexcept; }; struct Th { Th(); Th(Th const &); Th & operator=(Th const &); ~Th() noexcept(false); };
struct Priv { private: ~Priv(); };
struct Eq { bool operator==(Eq const &) const; }; struct EqM { bool operator==(EqM const &); }; struct EqV { void operator==(EqV const &) const; };
struct Lt { bool operator<(Lt const &) const; };
struct H { std::size_t operator()(std::string const &) const; }; struct HI { int operator()(std::string const &) const; }; struct HM { std::size_t operator()(std::string const &); };
struct P1 { bool operator()(int) const; }; struct P2 { int operator()(int, long); }; struct P3 { void operator()(int); }; struct P4 { Un operator()(int); }; struct P5 { bool operator()(int, int, int); };
namespace sw { struct X { X(X const &) = delete; X & operator=(X const &) = delete; }; struct Y {}; struct Z {}; void swap(X &, X &); void swap(Y &, Z &); void swap(Z &, Y &); void swap(X &, Y &); }
template <typename T, SHAREMIND_REQUIRES_CONCEPTS(Integral(T))> constexpr int over(T) { return 1; }
template <typename T, SHAREMIND_REQUIRES_CONCEPTS(Not(Integral(T)))> constexpr int over(T) { return 2; }
template <typename T> constexpr auto over2(T) -> SHAREMIND_REQUIRE_CONCEPTS_R(int, Signed(T)) { return 1; }
template <typename T> constexpr auto over2(T) -> SHAREMIND_REQUIRE_CONCEPTS_R(int, Unsigned(T)) { return 2; }
"""


def concepts():
    pos = []

    def t(c, v):
        pos.append(sa("concept " + c.split("(")[0], "%sModels<%s>::value" % ("" if v else "!", c)))
    T, F = "Same(int, int)", "Same(int, char)"
    for n in range(4):
        for p in itertools.product((0, 1), repeat=n):
            cs = [T if b else F for b in p]
            pos.append(sa("Models", "%sModels<%s>::value" % ("" if all(p) else "!", ", ".join(cs))))
            t("All(%s)" % ", ".join(cs), all(p))
            t("Any(%s)" % ", ".join(cs), any(p))
            t("None(%s)" % ", ".join(cs), not any(p))
            if n == 2:
                t("Not(All(%s))" % ", ".join(cs), not all(p))
                t("Any(None(%s), All(%s))" % (cs[0], ", ".join(cs)), not p[0] or all(p))
    t("Not(%s)" % T, 0)
    t("Not(%s)" % F, 1)
    for c, v in (("Same(int &, int)", 0), ("Same(int &, int &)", 1), ("BaseOf(Ba, De)", 1), ("BaseOf(De, Ba)", 0), ("BaseOf(Ba, Un)", 0), ("DerivedFrom(De, Ba)", 1), ("DerivedFrom(Ba, De)", 0), ("DerivedFrom(Un, Ba)", 0),
                 ("ConvertibleTo(int, long)", 1), ("ConvertibleTo(De *, Ba *)", 1), ("ConvertibleTo(Ba *, De *)", 0), ("ConvertibleTo(Un, int)", 0), ("ConvertibleTo(int, NoD)", 1), ("ConvertibleTo(NoD, int)", 0),
                 ("DecaysTo(int const &, int)", 1), ("DecaysTo(int const &, long)", 0), ("DecaysTo(int, int)", 1),
                 ("Callable(P1, int)", 1), ("Callable(P1, Un)", 0), ("Callable(P1)", 0), ("Callable(P2, int, long)", 1), ("Callable(P3, int)", 1), ("Callable(int (*)(Un), Un)", 1), ("Callable(int (*)(Un), int)", 0), ("Callable(P2 const, int, long)", 1),
                 ("Predicate(P1, int)", 1), ("Predicate(P2, int, long)", 1), ("Predicate(P3, int)", 0), ("Predicate(P4, int)", 0), ("Predicate(P1, Un)", 0), ("Predicate(P5, int, int, int)", 1),
                 ("UnaryPredicate(P1, int)", 1), ("UnaryPredicate(P3, int)", 0), ("UnaryPredicate(P2, int)", 0), ("BinaryPredicate(P2, int, long)", 1), ("BinaryPredicate(P1, int, long)", 0), ("BinaryPredicate(P2, int, Un)", 0),
                 ("TrinaryPredicate(P5, int, int, int)", 1), ("TrinaryPredicate(P2, int, long, int)", 0),
                 ("Constructible(NoD, int)", 1), ("Constructible(NoD)", 0), ("Constructible(std::string, char const *)", 1), ("Constructible(std::string, Un)", 0),
                 ("NothrowConstructible(int, int)", 1), ("NothrowConstructible(NoD, int)", 0), ("DefaultConstructible(int)", 1), ("DefaultConstructible(NoD)", 0), ("NothrowDefaultConstructible(int)", 1), ("NothrowDefaultConstructible(Th)", 0),
                 ("MoveConstructible(Mo)", 1), ("MoveConstructible(NoC)", 0), ("NothrowMoveConstructible(Mo)", 1), ("NothrowMoveConstructible(Th)", 0), ("MoveAssignable(Mo)", 1), ("MoveAssignable(NoC)", 0), ("NothrowMoveAssignable(Mo)", 1), ("NothrowMoveAssignable(Th)", 0),
                 ("CopyConstructible(Th)", 1), ("CopyConstructible(Mo)", 0), ("NothrowCopyConstructible(Th)", 0), ("NothrowCopyConstructible(int)", 1), ("CopyAssignable(Th)", 1), ("CopyAssignable(Mo)", 0), ("NothrowCopyAssignable(Th)", 0), ("NothrowCopyAssignable(int)", 1),
                 ("Destructible(int)", 1), ("Destructible(Th)", 1), ("Destructible(Priv)", 0),
                 ("Swappable(int &)", 1), ("Swappable(sw::X &)", 1), ("Swappable(sw::Y &, sw::Z &)", 1), ("Swappable(sw::X &, sw::Y &)", 0), ("Swappable(sw::Y &, sw::X &)", 0), ("Swappable(NoC &)", 0),
                 ("EqualityComparable(Eq)", 1), ("EqualityComparable(Eq, Eq)", 1), ("EqualityComparable(EqM)", 0), ("EqualityComparable(EqV)", 0), ("EqualityComparable(Un)", 0), ("EqualityComparable(int, long)", 1), ("EqualityComparable(int, Un)", 0),
                 ("InequalityComparable(int)", 1), ("InequalityComparable(Lt)", 0), ("LessThanComparable(Lt)", 1), ("LessThanComparable(Eq)", 0), ("GreaterThanComparable(Lt)", 0), ("LessOrEqualComparable(Lt)", 0), ("GreaterOrEqualComparable(Lt)", 0),
                 ("GreaterThanComparable(int)", 1), ("LessOrEqualComparable(int)", 1), ("GreaterOrEqualComparable(int)", 1),
                 ("Integral(int)", 1), ("Integral(float)", 0), ("Integral(bool)", 1), ("Signed(int)", 1), ("Signed(unsigned)", 0), ("Signed(double)", 1), ("Unsigned(unsigned)", 1), ("Unsigned(int)", 0), ("Unsigned(bool)", 1),
                 ("SignedIntegral(int)", 1), ("SignedIntegral(double)", 0), ("SignedIntegral(unsigned)", 0), ("UnsignedIntegral(unsigned)", 1), ("UnsignedIntegral(int)", 0), ("UnsignedIntegral(double)", 0),
                 ("NullablePointer(int *)", 1), ("NullablePointer(std::nullptr_t)", 0), ("NullablePointer(int)", 0), ("NullablePointer(Un)", 0),
                 ("sharemind::Hash(H, std::string)", 1), ("sharemind::Hash(HI, std::string)", 0), ("sharemind::Hash(HM, std::string)", 0), ("sharemind::Hash(Un, std::string)", 0), ("sharemind::Hash(H, Un)", 0)):
        t(c, v)
    pos.append(sa("overloads are chosen by concepts", "over(5) == 1 && over(5.0) == 2 && over2(5) == 1 && over2(5u) == 2"))
    neg = [("an overload is used whose concept is not met", "int x = over2(Un());", None)]
    return ("concepts", CONCEPTS_PRO, pos, neg)


def c20(ctx):
    ctx.rule("(at compile time) the result of each template is that of its definition as a function of lists, for all lists up to %d elements (up to renaming, which the templates can not see), all predicates on them, and some longer ones" % N)
    ctx.rule("(at compile time) traits of types: for all qualifiers and references, each kind of function, and types with each combination of operations")
    gs = [lists(), traits(), concepts()]
    witness.check(ctx, gs)
    for std in ("c++17", "c++20"):      # (std::size() replaces size(), and is never noexcept)
        witness.check(ctx, [(n + " [" + std + "]", pro, [p for p in pos if not p[0].startswith("size")], []) for n, pro, pos, neg in gs], std)
    ctx.floor("witnesses", ctx.counts.get("witnesses compiled", 0), 2000)


CHECKS = {"C20": c20}
