#include "vp.h"
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <iterator>
#include <memory>
#include <utility>
#include <sharemind/BitVector.h>
using namespace sharemind;
using sz = std::size_t;
// a store of blocks without allocation, so that each block is a known piece of memory
template <typename T, typename A = std::allocator<T> >
struct Fix {
    using allocator_type = A; using difference_type = std::ptrdiff_t; using reference = T &; using const_reference = T const &;
    using size_type = std::size_t; using value_type = T; using iterator = T *; using const_iterator = T const *;
    T d[16]; sz n;
    explicit Fix(A const & = A()) : n(0u) {}
    Fix(sz k, T v, A const & = A()) : n(k) { for (sz i = 0u; i < k; ++i) d[i] = v; }
    Fix(Fix const & o) : n(o.n) { for (sz i = 0u; i < n; ++i) d[i] = o.d[i]; }
    Fix(Fix && o) : n(o.n) { for (sz i = 0u; i < n; ++i) d[i] = o.d[i]; o.n = 0u; }
    Fix & operator=(Fix const & o) { n = o.n; for (sz i = 0u; i < n; ++i) d[i] = o.d[i]; return *this; }
    Fix & operator=(Fix && o) { if (this != &o) { n = o.n; for (sz i = 0u; i < n; ++i) d[i] = o.d[i]; o.n = 0u; } return *this; }
    void clear() { n = 0u; }
    void resize(sz k) { for (sz i = n; i < k; ++i) d[i] = 0u; n = k; }
    void push_back(T v) { if (n >= 16u) __builtin_trap(); d[n] = v; ++n; }
    void pop_back() { --n; }
    T & back() { return d[n - 1u]; }
    T const & back() const { return d[n - 1u]; }
    T & operator[](sz i) { if (i >= n) __builtin_trap(); return d[i]; }
    T const & operator[](sz i) const { if (i >= n) __builtin_trap(); return d[i]; }
    T * begin() { return d; } T * end() { return d + n; } T * data() { return d; }
    T const * begin() const { return d; } T const * end() const { return d + n; } T const * data() const { return d; }
    sz size() const { return n; } bool empty() const { return !n; }
    void swap(Fix & o) { Fix t(o); o = *this; *this = t; }
    Fix(sz k, A const &) : n(k) { for (sz i = 0u; i < k; ++i) d[i] = 0u; }
    template <typename I, typename = typename std::iterator_traits<I>::iterator_category> Fix(I f, I l, A const & = A()) : n(0u) { for (; f != l; ++f) push_back(*f); }
    void resize(sz k, T v) { for (sz i = n; i < k; ++i) d[i] = v; n = k; }
    template <typename ... X> T & emplace_back(X && ... x) { push_back(T(std::forward<X>(x)...)); return back(); }
    void assign(sz k, T v) { n = k; for (sz i = 0u; i < k; ++i) d[i] = v; }
    template <typename I, typename = typename std::iterator_traits<I>::iterator_category> void assign(I f, I l) { n = 0u; for (; f != l; ++f) push_back(*f); }
    template <typename I> T * insert(T const * at, I f, I l) { sz const k = static_cast<sz>(at - d); if (k != n) __builtin_trap(); for (; f != l; ++f) push_back(*f); return d + k; }
    T * insert(T const * at, T v) { sz const k = static_cast<sz>(at - d); if (k != n) __builtin_trap(); push_back(v); return d + k; }
    T & at(sz i) { return (*this)[i]; } T const & at(sz i) const { return (*this)[i]; }
    T & front() { return (*this)[0u]; } T const & front() const { return (*this)[0u]; }
    T const * cbegin() const { return d; } T const * cend() const { return d + n; }
    void reserve(sz) {} void shrink_to_fit() {} sz capacity() const { return 16u; } sz max_size() const { return 16u; }
    friend bool operator==(Fix const & a, Fix const & b) { if (a.n != b.n) return false; for (sz i = 0u; i < a.n; ++i) if (a.d[i] != b.d[i]) return false; return true; }
    friend bool operator!=(Fix const & a, Fix const & b) { return !(a == b); }
    friend void swap(Fix & a, Fix & b) { a.swap(b); }
    A get_allocator() const { return A(); }
};
template <typename T> using B = BitVec<T, std::allocator<T>, Fix<T> >;
// a vector of N bits with the blocks at p (also those of bits beyond the last)
template <typename T, sz N> static inline __attribute__((always_inline)) B<T> make(T const * p) {
    B<T> b(N, false);
    T * d = static_cast<T *>(b.data());
    for (sz i = 0u; i < (N + 8u * sizeof(T) - 1u) / (8u * sizeof(T)); ++i) d[i] = p[i];
    return b;
}
template <typename T> struct Out { sz size, blocks; T d[16]; };
template <typename T> static inline __attribute__((always_inline)) void put(Out<T> * o, B<T> const & b) {
    o->size = b.size();
    T const * d = static_cast<T const *>(b.data());
    sz const n = (b.size() + 8u * sizeof(T) - 1u) / (8u * sizeof(T));
    for (sz i = 0u; i < n; ++i) o->d[i] = d[i];
}
struct Msg { std::uint64_t * w; sz n, m; template <typename T> void write(T v) { if (sizeof(T) != 8u) __builtin_trap(); w[n++] = v; } bool read(std::uint64_t & v) { if (n == m) return false; v = w[n++]; return true; } };
// operations with one vector of N bits
#define ONE(T, N) \
    VP_ENTRY void vp_e_##T##_copy_##N(T const * p, T const *, Out<T> * o) { auto b(make<T, N>(p)); B<T> c(b); put(o, c); } \
    VP_ENTRY void vp_e_##T##_copied_##N(T const * p, T const *, Out<T> * o) { auto b(make<T, N>(p)); B<T> c; c = b; put(o, b); (void) c; } \
    VP_ENTRY void vp_e_##T##_move_##N(T const * p, T const *, Out<T> * o) { auto b(make<T, N>(p)); B<T> c(std::move(b)); put(o, c); } \
    VP_ENTRY void vp_e_##T##_moved_##N(T const * p, T const *, Out<T> * o) { auto b(make<T, N>(p)); B<T> c(std::move(b)); put(o, b); } \
    VP_ENTRY void vp_e_##T##_massign_##N(T const * p, T const * q, Out<T> * o) { auto b(make<T, N>(p)); auto c(make<T, 3>(q)); c = std::move(b); put(o, c); } \
    VP_ENTRY void vp_e_##T##_massigned_##N(T const * p, T const * q, Out<T> * o) { auto b(make<T, N>(p)); auto c(make<T, 3>(q)); c = std::move(b); put(o, b); } \
    VP_ENTRY void vp_e_##T##_swap_##N(T const * p, T const * q, Out<T> * o) { auto b(make<T, N>(p)); auto c(make<T, 3>(q)); c.swap(b); put(o, c); } \
    VP_ENTRY void vp_e_##T##_swapped_##N(T const * p, T const * q, Out<T> * o) { auto b(make<T, N>(p)); auto c(make<T, 3>(q)); b.swap(c); put(o, c); } \
    VP_ENTRY void vp_e_##T##_clear_##N(T const * p, T const *, Out<T> * o) { auto b(make<T, N>(p)); b.clear(); put(o, b); } \
    VP_ENTRY void vp_e_##T##_release_##N(T const * p, T const *, Out<T> * o) { auto b(make<T, N>(p)); b.clear_and_release(); put(o, b); } \
    VP_ENTRY void vp_e_##T##_cleared_##N(T const * p, T const * q, Out<T> * o) { auto b(make<T, N>(p)); b.clear(); b.push_back(q[0] & 1u); put(o, b); } \
    VP_ENTRY void vp_e_##T##_push_##N(T const * p, T const * q, Out<T> * o) { auto b(make<T, N>(p)); b.push_back(q[0] & 1u); put(o, b); } \
    VP_ENTRY void vp_e_##T##_push2_##N(T const * p, T const * q, Out<T> * o) { auto b(make<T, N>(p)); b.push_back(q[0] & 1u); b.push_back(q[0] & 2u); b.push_back(q[0] & 4u); put(o, b); } \
    VP_ENTRY void vp_e_##T##_set_##N(T const * p, T const *, Out<T> * o) { auto b(make<T, N>(p)); b.set(); put(o, b); } \
    VP_ENTRY void vp_e_##T##_reset_##N(T const * p, T const *, Out<T> * o) { auto b(make<T, N>(p)); b.reset(); put(o, b); } \
    VP_ENTRY void vp_e_##T##_flip_##N(T const * p, T const *, Out<T> * o) { auto b(make<T, N>(p)); b.flip(); put(o, b); } \
    VP_ENTRY void vp_e_##T##_ones_##N(T const *, T const *, Out<T> * o) { B<T> b(N, true); put(o, b); } \
    VP_ENTRY void vp_e_##T##_zeros_##N(T const *, T const *, Out<T> * o) { B<T> b(N); put(o, b); } \
    VP_ENTRY void vp_e_##T##_fill1_##N(T const * p, T const *, Out<T> * o) { auto b(make<T, 3>(p)); b.assign(N, true); put(o, b); } \
    VP_ENTRY void vp_e_##T##_fill0_##N(T const * p, T const *, Out<T> * o) { auto b(make<T, 3>(p)); b.assign(N, false); put(o, b); } \
    VP_ENTRY void vp_e_##T##_grow_##N(T const * p, T const *, Out<T> * o) { auto b(make<T, N>(p)); b.resize(N + 11u); put(o, b); } \
    VP_ENTRY void vp_e_##T##_bassign_##N(T const * p, T const * q, Out<T> * o) { auto b(make<T, N>(p)); b.assign(make<T, N>(q)); put(o, b); } \
    VP_ENTRY void vp_e_##T##_and_##N(T const * p, T const * q, Out<T> * o) { auto b(make<T, N>(p)); b &= make<T, N>(q); put(o, b); } \
    VP_ENTRY void vp_e_##T##_or_##N(T const * p, T const * q, Out<T> * o) { auto b(make<T, N>(p)); b |= make<T, N>(q); put(o, b); } \
    VP_ENTRY void vp_e_##T##_xor_##N(T const * p, T const * q, Out<T> * o) { auto b(make<T, N>(p)); b ^= make<T, N>(q); put(o, b); } \
    VP_ENTRY void vp_e_##T##_and2_##N(T const * p, T const * q, Out<T> * o) { auto b(make<T, N>(p)); auto c(make<T, N>(q)); put(o, b & c); } \
    VP_ENTRY void vp_e_##T##_or2_##N(T const * p, T const * q, Out<T> * o) { auto b(make<T, N>(p)); auto c(make<T, N>(q)); put(o, b | c); } \
    VP_ENTRY void vp_e_##T##_xor2_##N(T const * p, T const * q, Out<T> * o) { auto b(make<T, N>(p)); auto c(make<T, N>(q)); put(o, b ^ c); } \
    VP_ENTRY bool vp_e_##T##_eq_##N(T const * p, T const * q) { return make<T, N>(p) == make<T, N>(q); } \
    VP_ENTRY bool vp_e_##T##_ne_##N(T const * p, T const * q) { return make<T, N>(p) != make<T, N>(q); } \
    VP_ENTRY bool vp_e_##T##_eqsize_##N(T const * p, T const * q) { return make<T, N>(p) == make<T, N + 1>(q); } \
    VP_ENTRY void vp_e_##T##_ser_##N(T const * p, T const *, Out<T> * o) { std::uint64_t w[8]; Msg m{w, 0u, 8u}; make<T, N>(p).serialize(m); auto b(make<T, N>(p)); b.reset(); Msg r{w, 0u, m.n}; o->blocks = b.deserialize(r); put(o, b); } \
    VP_ENTRY bool vp_e_##T##_dec_##N(std::uint64_t * p, T const * q, Out<T> * o) { Msg r{p, 0u, 1u + (N + 63u) / 64u}; auto b(make<T, N>(q)); bool const k = b.deserialize(r); put(o, b); return k; } \
    VP_ENTRY bool vp_e_##T##_decs_##N(std::uint64_t * p, T const * q) { Msg r{p, 0u, (N + 63u) / 64u}; auto b(make<T, N>(q)); return b.deserialize(r); } \
    VP_ENTRY void vp_e_##T##_enc_##N(T const * p, T const *, std::uint64_t * o) { Msg m{o, 0u, 8u}; make<T, N>(p).serialize(m); }
#define ITER(T, N) \
    VP_ENTRY void vp_e_##T##_iter_##N(T const *, bool const * q, Out<T> * o) { B<T> b(q, q + N); put(o, b); } \
    VP_ENTRY void vp_e_##T##_iassign_##N(T const * p, bool const * q, Out<T> * o) { auto b(make<T, N>(p)); b.assign(q, q + N); put(o, b); }
// a place in a vector of N bits
#define AT(T, N, I) \
    VP_ENTRY void vp_e_##T##_pop_##N##_##I(T const * p, T const *, Out<T> * o) { auto b(make<T, N>(p)); b.pop_back(); b.push_back(false); b.pop_back(); put(o, b); } \
    VP_ENTRY void vp_e_##T##_repush_##N##_##I(T const * p, T const * q, Out<T> * o) { auto b(make<T, N>(p)); b.pop_back(); b.push_back(q[0] & 1u); put(o, b); } \
    VP_ENTRY bool vp_e_##T##_get_##N##_##I(T const * p, T const *) { auto const b(make<T, N>(p)); return b[I]; } \
    VP_ENTRY bool vp_e_##T##_ref_##N##_##I(T const * p, T const *) { auto b(make<T, N>(p)); return b[I]; } \
    VP_ENTRY bool vp_e_##T##_nref_##N##_##I(T const * p, T const *) { auto b(make<T, N>(p)); return ~b[I]; } \
    VP_ENTRY bool vp_e_##T##_at_##N##_##I(T const * p, T const *) { auto const b(make<T, N>(p)); return b.at(I); } \
    VP_ENTRY bool vp_e_##T##_back_##N##_##I(T const * p, T const *) { auto const b(make<T, N>(p)); return b.back(); } \
    VP_ENTRY bool vp_e_##T##_front_##N##_##I(T const * p, T const *) { auto const b(make<T, N>(p)); return b.front(); } \
    VP_ENTRY void vp_e_##T##_put_##N##_##I(T const * p, T const * q, Out<T> * o) { auto b(make<T, N>(p)); b[I] = static_cast<bool>(q[0] & 1u); put(o, b); } \
    VP_ENTRY void vp_e_##T##_putat_##N##_##I(T const * p, T const * q, Out<T> * o) { auto b(make<T, N>(p)); b.at(I) = static_cast<bool>(q[0] & 1u); put(o, b); } \
    VP_ENTRY void vp_e_##T##_putref_##N##_##I(T const * p, T const * q, Out<T> * o) { auto b(make<T, N>(p)); auto c(make<T, 1>(q)); b[I] = c[0]; put(o, b); } \
    VP_ENTRY void vp_e_##T##_rflip_##N##_##I(T const * p, T const *, Out<T> * o) { auto b(make<T, N>(p)); b[I].flip(); put(o, b); } \
    VP_ENTRY void vp_e_##T##_ror_##N##_##I(T const * p, T const * q, Out<T> * o) { auto b(make<T, N>(p)); b[I] |= static_cast<bool>(q[0] & 1u); put(o, b); } \
    VP_ENTRY void vp_e_##T##_rand_##N##_##I(T const * p, T const * q, Out<T> * o) { auto b(make<T, N>(p)); b[I] &= static_cast<bool>(q[0] & 1u); put(o, b); } \
    VP_ENTRY void vp_e_##T##_rxor_##N##_##I(T const * p, T const * q, Out<T> * o) { auto b(make<T, N>(p)); b[I] ^= static_cast<bool>(q[0] & 1u); put(o, b); } \
    VP_ENTRY void vp_e_##T##_rsub_##N##_##I(T const * p, T const * q, Out<T> * o) { auto b(make<T, N>(p)); b[I] -= static_cast<bool>(q[0] & 1u); put(o, b); }
#define APPEND(T, N, M) \
    VP_ENTRY void vp_e_##T##_append_##N##_##M(T const * p, T const * q, Out<T> * o) { auto b(make<T, N>(p)); b.append(make<T, M>(q)); put(o, b); } \
    VP_ENTRY void vp_e_##T##_appendpush_##N##_##M(T const * p, T const * q, Out<T> * o) { auto b(make<T, N>(p)); b.append(make<T, M>(q)); b.push_back(q[0] & 1u); put(o, b); }
#define TWICE(T, N) \
    VP_ENTRY void vp_e_##T##_twice_##N(T const * p, T const *, Out<T> * o) { auto b(make<T, N>(p)); b.append(b); put(o, b); }
using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
#define EACH(F, T) F(T, 0) F(T, 1) F(T, 5) F(T, 7) F(T, 8) F(T, 9) F(T, 15) F(T, 16) F(T, 17) F(T, 20) F(T, 24)
EACH(ONE, u8) ONE(u8, 40) ONE(u8, 64) ONE(u8, 71) ONE(u16, 50) ONE(u16, 0) ONE(u16, 15) ONE(u16, 16) ONE(u16, 21) ONE(u32, 31) ONE(u32, 33) ONE(u32, 70) ONE(u64, 63) ONE(u64, 64) ONE(u64, 65) ONE(u64, 130)
ITER(u8, 0) ITER(u8, 1) ITER(u8, 7) ITER(u8, 8) ITER(u8, 9) ITER(u16, 5) ITER(u32, 6) ITER(u64, 7)
#define ROW(T, N) APPEND(T, N, 0) APPEND(T, N, 1) APPEND(T, N, 3) APPEND(T, N, 7) APPEND(T, N, 8) APPEND(T, N, 9) APPEND(T, N, 16) APPEND(T, N, 18)
ROW(u8, 0) ROW(u8, 1) ROW(u8, 2) ROW(u8, 3) ROW(u8, 4) ROW(u8, 5) ROW(u8, 6) ROW(u8, 7) ROW(u8, 8) ROW(u8, 9) ROW(u8, 13) ROW(u8, 16) ROW(u8, 23)
ROW(u16, 5) ROW(u16, 16) ROW(u32, 31) ROW(u32, 33) ROW(u64, 0) ROW(u64, 63) ROW(u64, 64) ROW(u64, 65) APPEND(u64, 62, 65) APPEND(u64, 1, 130) APPEND(u32, 62, 65)
EACH(TWICE, u8) TWICE(u16, 21) TWICE(u32, 33) TWICE(u64, 65)
#define PLACES(T, N) AT(T, N, 0)
AT(u8, 1, 0) AT(u8, 8, 7) AT(u8, 9, 8) AT(u8, 9, 0) AT(u8, 20, 13) AT(u8, 24, 23) AT(u8, 71, 64) AT(u8, 65, 1) AT(u16, 33, 1) AT(u32, 33, 32) AT(u16, 16, 15) AT(u16, 21, 16) AT(u32, 70, 31) AT(u32, 70, 63) AT(u64, 64, 63) AT(u64, 65, 64) AT(u64, 130, 100)
VP_ENTRY bool vp_e_out_of_range(B<u8> const & b, sz i) { return b.at(i); }
VP_ENTRY bool vp_e_out_of_range2(B<u8> & b, sz i) { return b.at(i); }
VP_ENTRY sz vp_e_nbits(B<u8> const & b) { return b.size(); }
VP_ENTRY bool vp_e_none(B<u8> const & b) { return b.empty(); }
