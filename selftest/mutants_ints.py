I = "IntegralComparisons.h"
EM = "EndianMacros.h"
IL = "IntegerLiterals.h"


def m(name, props, f, *e):
    return (name, tuple(props.split()), [(f, a, b) for a, b in e])


NET = "".join("inline %s hostToSharemindNetOrder(%s const v) noexcept { return %s; } " % (t, t, "htobe16(v)" if t == "uint16_t" else "v")
              for u in ("", "u") for t in (u + "int8_t", u + "int16_t", u + "int32_t", u + "int64_t"))

MUTANTS = [
    m("ic-le-neg", "C14", I, ("DEFINE(LE, <=, true,  false)", "DEFINE(LE, <=, false,  false)")),
    m("ic-gt-us", "C14", I, ("DEFINE(GT, > , false, true)", "DEFINE(GT, > , false, false)")),
    m("ic-narrow", "C14", I, ("{ return (s < 0) ? suNegResult : signedToUnsigned(s) op u; }", "{ return (s < 0) ? suNegResult : s op static_cast<S>(u); }")),
    m("ic-cast", "C14", I, ("{ return (s < 0) ? usNegResult : u op signedToUnsigned(s); }", "{ return (s < 0) ? usNegResult : static_cast<std::make_unsigned_t<S>>(u) op signedToUnsigned(s); }")),
    m("ic-neg1", "C14", I, ("{ return (s < 0) ? suNegResult", "{ return (s < -1) ? suNegResult")),
    m("ic-np", "C14", I, ("return u <= 0u", "return u < 0u")),
    m("ic-nn", "C14", I, ("return s >= 0,", "return s > 0,")),
    m("max-int", "C14", "Max.h", ("constexpr T max(T a, T b, Ts ... vs) noexcept\n{ return (a > b)", "constexpr T max(T a, T b, Ts ... vs) noexcept\n{ return (static_cast<long long>(a) > static_cast<long long>(b))")),
    m("max-four", "C14", "Max.h", ("max(a, vs...) : max(b, vs...)", "max(a, vs...) : max(b)")),
    m("min-diff", "C14", "Min.h", ("(a < b)", "(static_cast<std::make_signed_t<T>>(a - b) < 0)"), ("namespace sharemind {", "#include <type_traits>\nnamespace sharemind {")),
    m("tou-sign", "C14", "ToUnsigned.h", ("static_cast<Detail::ToUnsigned_t<T> >(v)", "static_cast<Detail::ToUnsigned_t<T> >(v < 0 ? -v : v)")),
    m("en-32", "C14", EM, ("return htobe32(v)", "return htobe16(v)")),
    m("en-be", "C14", EM, ("return be64toh(v)", "return le64toh(v)")),
    m("en-net", "C14", EM, ("SHAREMIND_ENDIAN_ID_FUNS_ALLTYPES(hostToSharemindNetOrder)", NET)),
    m("lit-rank", "C14", IL, ("Head::value > (Max / (Tail::rank * base))", "Head::value > (Max / Tail::rank)")),
    m("lit-gt", "C14", IL, ("|| (Tail::value\n                        > (Max", "|| (Tail::value\n                        >= (Max")),
    m("lit-e", "C14", IL, ("HexLiteral<Max, 'E'>: HexDigit<Max, 14u>", "HexLiteral<Max, 'E'>: HexDigit<Max, 13u>")),
    m("lit-oct", "C14", IL, ("using OctDigit = LastDigit<8u, Max, Value>", "using OctDigit = LastDigit<10u, Max, Value>")),
    m("lit-tail", "C14", IL, ("            || Tail::overflow\n", "")),
    m("lit-unsigned", "C14", "CstdintLiterals.h", ("((Uint16,uint16,uint16))", "((Uint16,uint16,uint32))")),
]
EQUIV = [
    m("ic-eq1", "C14", I, ("{ return (s < 0) ? suNegResult : signedToUnsigned(s) op u; }", "{ if (s >= 0) return signedToUnsigned(s) op u; return suNegResult; }"),
      ("SHAREMIND_INTEGRALCOMPARISIONS_DEFINE(LE, <=, true,  false);", "SHAREMIND_INTEGRALCOMPARISIONS_DEFINE(LE, <=, true,  false); ")),
    m("ic-eq2", "C14", I, ("return u > 0u", "return u != 0u"), ("return s > 0,", "return !(s < 1),")),
    m("ic-eq3", "C14", I, ("{ return (s < 0) ? usNegResult : u op signedToUnsigned(s); }", "{ return (usNegResult && s < 0) || (s >= 0 && (u op signedToUnsigned(s))); }")),
    m("max-eq", "C14", "Max.h", ("(a > b) ? max(a, vs...) : max(b, vs...)", "max((b >= a) ? b : a, vs...)")),
    m("en-eq", "C14", EM, ("return htobe32(v)", "return ((v & 0xffu) << 24u) | ((v & 0xff00u) << 8u) | ((v >> 8u) & 0xff00u) | (v >> 24u)"), ("return be16toh(v)", "return static_cast<uint16_t>((v << 8u) | (v >> 8u))")),
    m("tou-eq", "C14", "ToUnsigned.h", ("{ return static_cast<Detail::ToUnsigned_t<T> >(v); }", "{ Detail::ToUnsigned_t<T> r = v; return r; }")),
    m("lit-eq", "C14", IL, ("(Head::value > (Max / (Tail::rank * base)))", "((Max / (Tail::rank * base)) < Head::value)")),
]
