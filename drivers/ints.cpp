#include "vp.h"
#include <cstdint>
#include <sharemind/EndianMacros.h>
#include <sharemind/EnumToUnderlying.h>
#include <sharemind/IntegralComparisons.h>
#include <sharemind/Max.h>
#include <sharemind/MaybeEnumToUnderlying.h>
#include <sharemind/Min.h>
#include <sharemind/SignedToUnsigned.h>
#include <sharemind/StrongType.h>
#include <sharemind/ToSigned.h>
#include <sharemind/ToUnsigned.h>
using namespace sharemind;
using i8 = std::int8_t; using i16 = std::int16_t; using i32 = std::int32_t; using i64 = std::int64_t;
using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
using ill = long long; using ull = unsigned long long; using ch = char; using wc = wchar_t; using c16 = char16_t;
#define OPS(A,B) \
    VP_ENTRY bool vp_e_IC_##A##_##B##_LT(A a, B b) { return integralLess(a, b); } \
    VP_ENTRY bool vp_e_IC_##A##_##B##_LTT(A a, B b) { return integralLessThan(a, b); } \
    VP_ENTRY bool vp_e_IC_##A##_##B##_LE(A a, B b) { return integralLessEqual(a, b); } \
    VP_ENTRY bool vp_e_IC_##A##_##B##_EQ(A a, B b) { return integralEqual(a, b); } \
    VP_ENTRY bool vp_e_IC_##A##_##B##_NE(A a, B b) { return integralNotEqual(a, b); } \
    VP_ENTRY bool vp_e_IC_##A##_##B##_GE(A a, B b) { return integralGreaterEqual(a, b); } \
    VP_ENTRY bool vp_e_IC_##A##_##B##_GT(A a, B b) { return integralGreater(a, b); } \
    VP_ENTRY bool vp_e_IC_##A##_##B##_GTT(A a, B b) { return integralGreaterThan(a, b); }
#define ROW(A) OPS(A,i8) OPS(A,i16) OPS(A,i32) OPS(A,i64) OPS(A,u8) OPS(A,u16) OPS(A,u32) OPS(A,u64) \
    OPS(A,ill) OPS(A,ull) OPS(A,ch) OPS(A,bool)
#define SIGNS(A) \
    VP_ENTRY bool vp_e_IS_##A##_P(A a) { return integralPositive(a); } \
    VP_ENTRY bool vp_e_IS_##A##_N(A a) { return integralNegative(a); } \
    VP_ENTRY bool vp_e_IS_##A##_NN(A a) { return integralNonNegative(a); } \
    VP_ENTRY bool vp_e_IS_##A##_NP(A a) { return integralNonPositive(a); } \
    VP_ENTRY bool vp_e_IS_##A##_Z(A a) { return integralZero(a); } \
    VP_ENTRY bool vp_e_IS_##A##_NZ(A a) { return integralNonZero(a); }
#define MINMAX(A) \
    VP_ENTRY A vp_e_MM_##A##_max1(A a) { return sharemind::max(a); } \
    VP_ENTRY A vp_e_MM_##A##_max2(A a, A b) { return sharemind::max(a, b); } \
    VP_ENTRY A vp_e_MM_##A##_max3(A a, A b, A c) { return sharemind::max(a, b, c); } \
    VP_ENTRY A vp_e_MM_##A##_max4(A a, A b, A c, A d) { return sharemind::max(a, b, c, d); } \
    VP_ENTRY A vp_e_MM_##A##_min1(A a) { return sharemind::min(a); } \
    VP_ENTRY A vp_e_MM_##A##_min2(A a, A b) { return sharemind::min(a, b); } \
    VP_ENTRY A vp_e_MM_##A##_min3(A a, A b, A c) { return sharemind::min(a, b, c); } \
    VP_ENTRY A vp_e_MM_##A##_min4(A a, A b, A c, A d) { return sharemind::min(a, b, c, d); }
struct Tag;
#define CONV(A) \
    VP_ENTRY auto vp_e_CV_##A##_signed(A a) { return toSigned(a); } \
    VP_ENTRY auto vp_e_CV_##A##_unsigned(A a) { return toUnsigned(a); } \
    static_assert(std::is_signed<std::decay_t<decltype(toSigned(A()))>>::value && sizeof(toSigned(A())) == sizeof(A), ""); \
    static_assert(std::is_unsigned<std::decay_t<decltype(toUnsigned(A()))>>::value && sizeof(toUnsigned(A())) == sizeof(A), ""); \
    static_assert(noexcept(toSigned(A())) && noexcept(toUnsigned(A())), ""); \
    enum class E##A: A {}; \
    VP_ENTRY A vp_e_CV_##A##_enum(E##A a) { return enumToUnderlying(a); } \
    VP_ENTRY A vp_e_CV_##A##_maybe(E##A a) { return maybeEnumToUnderlying(a); } \
    VP_ENTRY A vp_e_CV_##A##_maybeNot(A a) { return maybeEnumToUnderlying(a); }
#define SCONV(A) VP_ENTRY auto vp_e_CV_##A##_s2u(A a) { return signedToUnsigned(a); } \
    static_assert(std::is_same<std::make_unsigned_t<A>, decltype(signedToUnsigned(A()))>::value, "");
#define EN(A,F,K) VP_ENTRY A vp_e_EN_##A##_##K##_##F(A a) { return F(a); } \
    VP_ENTRY A vp_e_EN_##A##_##K##_##F##ST(StrongType<A, Tag> a) { return F(a).get(); }
#define ENDIAN(A) EN(A,hostToBigEndian,swap) EN(A,bigEndianToHost,swap) EN(A,hostToLittleEndian,id) EN(A,littleEndianToHost,id) \
    EN(A,hostToSharemindNetOrder,id) EN(A,sharemindNetToHostOrder,id)
ROW(i8) ROW(i16) ROW(i32) ROW(i64) ROW(u8) ROW(u16) ROW(u32) ROW(u64) ROW(ill) ROW(ull) ROW(ch) ROW(bool)
SIGNS(i8) SIGNS(i16) SIGNS(i32) SIGNS(i64) SIGNS(u8) SIGNS(u16) SIGNS(u32) SIGNS(u64) SIGNS(ill) SIGNS(ull) SIGNS(ch) SIGNS(bool)
MINMAX(i8) MINMAX(i16) MINMAX(i32) MINMAX(i64) MINMAX(u8) MINMAX(u16) MINMAX(u32) MINMAX(u64)
CONV(i8) CONV(i16) CONV(i32) CONV(i64) CONV(u8) CONV(u16) CONV(u32) CONV(u64) CONV(ill) CONV(ull)
SCONV(i8) SCONV(i16) SCONV(i32) SCONV(i64)
ENDIAN(i8) ENDIAN(i16) ENDIAN(i32) ENDIAN(i64) ENDIAN(u8) ENDIAN(u16) ENDIAN(u32) ENDIAN(u64)
