#include "vp.h"
#include <cstddef>
#include <cstdint>
#include <utility>
#include <sharemind/uint_t.h>
using namespace sharemind;
using sz = std::size_t;
using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
#define AI static inline __attribute__((always_inline))
constexpr sz blocks(sz n, sz w) { return (n + w - 1u) / w; }
template <typename T> constexpr T top(sz n) { return static_cast<T>(static_cast<T>(~static_cast<T>(0u)) >> (blocks(n, 8u * sizeof(T)) * 8u * sizeof(T) - n)); }
// a number with the blocks at p, where bits beyond the last one are ignored
template <typename T, unsigned N> AI uint_t<N, T> num(T const * p) {
    uint_t<N, T> x;
    constexpr sz n = blocks(N, 8u * sizeof(T));
    T * const d = x.begin();
    for (sz i = 0u; i < n; ++i) d[i] = p[i];
    d[n - 1u] = static_cast<T>(d[n - 1u] & top<T>(N));
    return x;
}
template <typename T, unsigned N> AI bool fits(T const * p) { return p[blocks(N, 8u * sizeof(T)) - 1u] <= top<T>(N); }
// the same for numbers which are known not to have such bits
template <typename T, unsigned N> AI uint_t<N, T> raw(T const * p) {
    uint_t<N, T> x;
    T * const d = x.begin();
    for (sz i = 0u; i < blocks(N, 8u * sizeof(T)); ++i) d[i] = p[i];
    return x;
}
template <unsigned N, typename T> AI void put(T * o, uint_t<N, T> const & x) {
    T const * const d = x.begin();
    for (sz i = 0u; i < blocks(N, 8u * sizeof(T)); ++i) o[i] = d[i];
}
#define OP(T, NAME, N, ...) VP_ENTRY void vp_e_##T##_##NAME##_##N(T const * p, T const * q, T * o) { auto a(num<T, N>(p)); auto const b(num<T, N>(q)); (void) a; (void) b; __VA_ARGS__; }
#define ASK(T, NAME, N, ...) VP_ENTRY bool vp_e_##T##_##NAME##_##N(T const * p, T const * q) { auto a(num<T, N>(p)); auto const b(num<T, N>(q)); (void) a; (void) b; __VA_ARGS__; }
#define LIN(T, NAME, N, ...) VP_ENTRY void vp_e_##T##_##NAME##_##N(T const * p, T const * q, T * o) { \
    if (!fits<T, N>(p) || !fits<T, N>(q)) return; auto a(raw<T, N>(p)); auto const b(raw<T, N>(q)); (void) a; (void) b; __VA_ARGS__; o[blocks(N, 8u * sizeof(T))] = 1u; }
#define BITS(T, N) \
    OP(T, copy, N, auto c(a); put(o, c)) \
    OP(T, move, N, auto c(std::move(a)); put(o, c)) \
    OP(T, assign, N, auto c(b); c = a; put(o, c)) \
    OP(T, massign, N, auto c(b); c = std::move(a); put(o, c)) \
    OP(T, zero, N, uint_t<N, T> c; put(o, c)) \
    OP(T, not, N, put(o, ~a)) \
    OP(T, and, N, put(o, a & b)) OP(T, or, N, put(o, a | b)) OP(T, xor, N, put(o, a ^ b)) \
    OP(T, and2, N, a &= b; put(o, a)) OP(T, or2, N, a |= b; put(o, a)) OP(T, xor2, N, a ^= b; put(o, a)) \
    OP(T, from8, N, uint_t<N, T> c(reinterpret_cast<u8 const *>(p)[0]); put(o, c)) \
    OP(T, from16, N, uint_t<N, T> c(reinterpret_cast<u16 const *>(p)[0]); put(o, c)) \
    OP(T, from32, N, uint_t<N, T> c(reinterpret_cast<u32 const *>(p)[0]); put(o, c)) \
    OP(T, from64, N, uint_t<N, T> c(reinterpret_cast<u64 const *>(p)[0]); put(o, c)) \
    OP(T, set64, N, auto c(b); c = reinterpret_cast<u64 const *>(p)[0]; put(o, c)) \
    VP_ENTRY u8 vp_e_##T##_to8_##N(T const * p) { return num<T, N>(p).template demote<u8>(); } \
    VP_ENTRY u16 vp_e_##T##_to16_##N(T const * p) { return num<T, N>(p).template demote<u16>(); } \
    VP_ENTRY u32 vp_e_##T##_to32_##N(T const * p) { return num<T, N>(p).template demote<u32>(); } \
    VP_ENTRY u64 vp_e_##T##_to64_##N(T const * p) { return num<T, N>(p).template demote<u64>(); } \
    ASK(T, eq, N, return a == b) ASK(T, ne, N, return a != b) ASK(T, null, N, return !a) \
    LIN(T, add, N, put(o, a + b)) LIN(T, sub, N, put(o, a - b)) LIN(T, minus, N, put(o, -a)) \
    LIN(T, add2, N, a += b; put(o, a)) LIN(T, sub2, N, a -= b; put(o, a)) \
    LIN(T, inc, N, ++a; put(o, a)) LIN(T, dec, N, --a; put(o, a)) \
    LIN(T, pinc, N, put(o, a++)) LIN(T, pdec, N, put(o, a--)) \
    LIN(T, pinced, N, a++; put(o, a)) LIN(T, pdeced, N, a--; put(o, a)) \
    LIN(T, lt, N, o[0] = a < b) LIN(T, gt, N, o[0] = a > b) LIN(T, le, N, o[0] = a <= b) LIN(T, ge, N, o[0] = a >= b)
#define OPK(T, NAME, N, K, ...) VP_ENTRY void vp_e_##T##_##NAME##_##N##_##K(T const * p, T const * q, T * o) { auto a(num<T, N>(p)); bool const x = q[0] & 1u; (void) x; __VA_ARGS__; put(o, a); }
#define AT(T, N, K) \
    OPK(T, shl, N, K, a = a << u64(K)) OPK(T, shr, N, K, a = a >> u64(K)) \
    OPK(T, shl2, N, K, a <<= u64(K)) OPK(T, shr2, N, K, a >>= u64(K)) \
    OPK(T, put, N, K, a[K] = x) OPK(T, rflip, N, K, a[K].flip()) \
    OPK(T, ror, N, K, a[K] |= x) OPK(T, rand, N, K, a[K] &= x) OPK(T, rxor, N, K, a[K] ^= x) OPK(T, rsub, N, K, a[K] -= x) \
    VP_ENTRY bool vp_e_##T##_get_##N##_##K(T const * p) { auto const a(num<T, N>(p)); return a[K]; } \
    VP_ENTRY bool vp_e_##T##_ref_##N##_##K(T const * p) { auto a(num<T, N>(p)); return a[K]; } \
    VP_ENTRY bool vp_e_##T##_nref_##N##_##K(T const * p) { auto a(num<T, N>(p)); return ~a[K]; }
// K: the width of the other number
#define OTHER(T, N, S, K) \
    VP_ENTRY void vp_e_##T##_from##S##x_##N##_##K(S const * p, T const *, T * o) { uint_t<N, T> c(num<S, K>(p)); put(o, c); } \
    VP_ENTRY void vp_e_##T##_set##S##x_##N##_##K(S const * p, T const * q, T * o) { auto c(num<T, N>(q)); c = num<S, K>(p); put(o, c); }

BITS(u64, 128) BITS(u64, 100) BITS(u64, 64) BITS(u64, 37) BITS(u64, 200)
BITS(u32, 64) BITS(u32, 33) BITS(u32, 96)
BITS(u16, 48) BITS(u16, 5)
BITS(u8, 7) BITS(u8, 16) BITS(u8, 20) BITS(u8, 8)
AT(u64, 128, 0) AT(u64, 128, 1) AT(u64, 128, 63) AT(u64, 128, 64) AT(u64, 128, 65) AT(u64, 128, 127)
AT(u64, 100, 0) AT(u64, 100, 1) AT(u64, 100, 64) AT(u64, 100, 70) AT(u64, 100, 99)
AT(u64, 37, 0) AT(u64, 37, 5) AT(u64, 37, 36)
AT(u64, 200, 3) AT(u64, 200, 64) AT(u64, 200, 100) AT(u64, 200, 128) AT(u64, 200, 199)
AT(u32, 96, 0) AT(u32, 96, 31) AT(u32, 96, 32) AT(u32, 96, 64) AT(u32, 96, 75) AT(u32, 96, 95)
AT(u32, 33, 1) AT(u32, 33, 31) AT(u32, 33, 32)
AT(u16, 48, 15) AT(u16, 48, 16) AT(u16, 48, 17) AT(u16, 48, 47)
AT(u8, 20, 0) AT(u8, 20, 3) AT(u8, 20, 7) AT(u8, 20, 8) AT(u8, 20, 9) AT(u8, 20, 16) AT(u8, 20, 19)
AT(u8, 7, 1) AT(u8, 7, 6)
OTHER(u64, 128, u64, 100) OTHER(u64, 100, u64, 128) OTHER(u64, 64, u64, 200) OTHER(u64, 200, u64, 64)
OTHER(u64, 128, u8, 20) OTHER(u8, 20, u64, 128) OTHER(u32, 33, u64, 64) OTHER(u8, 7, u32, 96) OTHER(u16, 48, u32, 96) OTHER(u32, 96, u16, 48)
AT(u8, 16, 8) AT(u8, 16, 15) AT(u32, 64, 32)
#define BY(T, N, K) OPK(T, shln, N, K, a = a << uint_t<N, T>(u8(K))) OPK(T, shrn, N, K, a = a >> uint_t<N, T>(u8(K))) \
    OPK(T, shln2, N, K, a <<= uint_t<N, T>(u8(K))) OPK(T, shrn2, N, K, a >>= uint_t<N, T>(u8(K)))
BY(u64, 128, 70) BY(u64, 37, 5) BY(u32, 96, 75) BY(u16, 48, 17) BY(u8, 20, 9) BY(u8, 7, 3)
// integers of 128 bits: the lower half is the first block
AI uint128_t wide(u64 const * p) { return uint128_t(p[1], p[0]); }
AI void put(u64 * o, uint128_t const & x) { o[0] = x.lower(); o[1] = x.upper(); }
#define XOP(NAME, ...) VP_ENTRY void vp_e_x128_##NAME##_128(u64 const * p, u64 const * q, u64 * o) { auto a(wide(p)); auto const b(wide(q)); (void) a; (void) b; __VA_ARGS__; o[2] = 1u; }
#define XASK(NAME, CODE) VP_ENTRY bool vp_e_x128_##NAME##_128(u64 const * p, u64 const * q) { auto a(wide(p)); auto const b(wide(q)); (void) a; (void) b; CODE; }
#define XAT(K) \
    VP_ENTRY void vp_e_x128_shl_128_##K(u64 const * p, u64 const *, u64 * o) { put(o, wide(p) << u64(K)); } \
    VP_ENTRY void vp_e_x128_shr_128_##K(u64 const * p, u64 const *, u64 * o) { put(o, wide(p) >> u64(K)); } \
    VP_ENTRY void vp_e_x128_shl2_128_##K(u64 const * p, u64 const *, u64 * o) { auto a(wide(p)); a <<= u64(K); put(o, a); } \
    VP_ENTRY void vp_e_x128_shr2_128_##K(u64 const * p, u64 const *, u64 * o) { auto a(wide(p)); a >>= u64(K); put(o, a); }
XAT(0) XAT(1) XAT(31) XAT(63) XAT(64) XAT(65) XAT(100) XAT(127)
XOP(copy, auto c(a); put(o, c)) XOP(assign, auto c(b); c = a; put(o, c))
XOP(not, put(o, ~a)) XOP(and, put(o, a & b)) XOP(or, put(o, a | b)) XOP(xor, put(o, a ^ b))
XOP(and2, a &= b; put(o, a)) XOP(or2, a |= b; put(o, a)) XOP(xor2, a ^= b; put(o, a))
XOP(from8, uint128_t c(reinterpret_cast<u8 const *>(p)[0]); put(o, c)) XOP(from32, uint128_t c(reinterpret_cast<u32 const *>(p)[0]); put(o, c))
XOP(from64, uint128_t c(p[0]); put(o, c)) XOP(set64, auto c(b); c = p[0]; put(o, c))
VP_ENTRY u64 vp_e_x128_to64_128(u64 const * p) { return demote_integer<u64>(wide(p)); }
VP_ENTRY u32 vp_e_x128_to32_128(u64 const * p) { return demote_integer<u32>(wide(p)); }
XASK(eq, return a == b) XASK(ne, return a != b) XASK(null, return !a)
XOP(add, put(o, a + b)) XOP(sub, put(o, a - b)) XOP(minus, put(o, -a)) XOP(add2, a += b; put(o, a)) XOP(sub2, a -= b; put(o, a))
XOP(inc, ++a; put(o, a)) XOP(dec, --a; put(o, a)) XOP(pinc, put(o, a++)) XOP(pdec, put(o, a--)) XOP(pinced, a++; put(o, a)) XOP(pdeced, a--; put(o, a))
XOP(lt, o[0] = a < b) XOP(gt, o[0] = a > b) XOP(le, o[0] = a <= b) XOP(ge, o[0] = a >= b)
#define DEM(T, N, S) VP_ENTRY S vp_e_##T##_d##S##_##N(T const * p) { return demote_integer<S>(num<T, N>(p)); }
DEM(u64, 128, u8) DEM(u64, 128, u32) DEM(u64, 128, u64) DEM(u64, 100, u64) DEM(u32, 96, u64) DEM(u32, 33, u32) DEM(u8, 20, u16) DEM(u8, 20, u8) DEM(u16, 48, u32)
