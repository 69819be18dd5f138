#include "vp.h"
#include <cstdint>
#include <new>
#include <utility>
#include <sharemind/DynamicPackedStruct.h>
#include <sharemind/PackedStruct.h>
#include <sharemind/UnalignedPointer.h>
#include <sharemind/UnalignedReference.h>
using namespace sharemind;
struct T12 { std::uint32_t v[3]; };
using U8 = std::uint8_t;
using U16 = std::uint16_t;
using U32 = std::uint32_t;
using U64 = std::uint64_t;
// fields of fixed sizes; the rule has the same list
using P = PackedStruct<U8, U32, T12, U16, U64>;
using PI = PackingInfo<U8, U32, T12, U16, U64>;
using PA = PackedStructAccessor<U8, U32, T12, U16, U64>;
using PC = ConstPackedStructAccessor<U8, U32, T12, U16, U64>;
using sz = std::size_t;
#define F(I) \
    VP_ENTRY void vp_e_P_get_##I(void * r, P const & p) { new (r) P::ElemType<I>(p.get<I>()); } \
    VP_ENTRY void vp_e_P_cref_##I(void * r, P const & p) { new (r) P::ElemType<I>(p.cref<I>()); } \
    VP_ENTRY void vp_e_P_crefN_##I(void * r, P const & p) { new (r) P::ElemType<I>(p.ref<I>()); } \
    VP_ENTRY void vp_e_P_refget_##I(void * r, P & p) { new (r) P::ElemType<I>(p.ref<I>()); } \
    VP_ENTRY void vp_e_P_ptrget_##I(void * r, P & p) { new (r) P::ElemType<I>(*p.ptr<I>()); } \
    VP_ENTRY void vp_e_P_cptrget_##I(void * r, P const & p) { new (r) P::ElemType<I>(*p.constPtr<I>()); } \
    VP_ENTRY void vp_e_P_iget_##I(void * r, void const * p) { new (r) P::ElemType<I>(PI::get<I>(p)); } \
    VP_ENTRY void vp_e_P_aget_##I(void * r, void * p) { new (r) P::ElemType<I>(PA(p).get<I>()); } \
    VP_ENTRY void vp_e_P_acget_##I(void * r, void const * p) { new (r) P::ElemType<I>(PC(p).get<I>()); } \
    VP_ENTRY void vp_e_P_rget_##I(void * r, P & p) { new (r) P::ElemType<I>(p.refs().get<I>()); } \
    VP_ENTRY void vp_e_P_rcget_##I(void * r, P & p) { new (r) P::ElemType<I>(p.crefs().get<I>()); } \
    VP_ENTRY void vp_e_P_set_##I(P & p, P::ElemType<I> const & v) { p.set<I>(v); } \
    VP_ENTRY void vp_e_P_refset_##I(P & p, P::ElemType<I> const & v) { p.ref<I>() = v; } \
    VP_ENTRY void vp_e_P_ptrset_##I(P & p, P::ElemType<I> const & v) { *p.ptr<I>() = v; } \
    VP_ENTRY void vp_e_P_iset_##I(void * p, P::ElemType<I> const & v) { PI::set<I>(p, v); } \
    VP_ENTRY void vp_e_P_arefset_##I(void * p, P::ElemType<I> const & v) { PA(p).ref<I>() = v; } \
    VP_ENTRY void vp_e_P_aset_##I(void * p, P::ElemType<I> const & v) { PA(p).set<I>(v); } \
    VP_ENTRY void vp_e_P_rset_##I(P & p, P::ElemType<I> const & v) { p.refs().set<I>(v); } \
    VP_ENTRY void vp_e_P_tmpset_##I(P & p, P::ElemType<I> const & v) { P::ElemType<I> t(v); p.ref<I>() = std::move(t); } \
    VP_ENTRY void vp_e_P_refref_##I(P & p, P & q) { p.ref<I>() = q.ref<I>(); } \
    VP_ENTRY void vp_e_P_refcref_##I(P & p, P const & q) { p.ref<I>() = q.cref<I>(); } \
    VP_ENTRY void const * vp_e_P_vp_##I(P & p) { return p.voidPtr<I>(); } \
    VP_ENTRY void const * vp_e_P_cvp_##I(P const & p) { return p.voidPtr<I>(); } \
    VP_ENTRY void const * vp_e_P_cvp2_##I(P const & p) { return p.constVoidPtr<I>(); } \
    VP_ENTRY void const * vp_e_P_avp_##I(void * p) { return PA(p).voidPtr<I>(); } \
    VP_ENTRY void const * vp_e_P_ptr_##I(P & p) { return p.ptr<I>(); } \
    VP_ENTRY void const * vp_e_P_cptr_##I(P const & p) { return p.ptr<I>(); } \
    VP_ENTRY sz vp_e_P_off_##I() { return PI::ElemOffset<I>::value; }
F(0) F(1) F(2) F(3) F(4)
VP_ENTRY void const * vp_e_P_end(P & p) { return p.endVoidPtr(); }
VP_ENTRY void const * vp_e_P_cend(P const & p) { return p.endVoidPtr(); }
VP_ENTRY void const * vp_e_P_cend2(P const & p) { return p.endConstVoidPtr(); }
VP_ENTRY void const * vp_e_P_iend(void * p) { return PI::endVoidPtr(p); }
VP_ENTRY void const * vp_e_P_aend(void * p) { return PA(p).endVoidPtr(); }
VP_ENTRY void const * vp_e_P_data(P & p) { return p.data(); }
VP_ENTRY void const * vp_e_P_cdata(P const & p) { return p.constData(); }
VP_ENTRY void const * vp_e_P_udata(P & p) { return p.dataUint8(); }
VP_ENTRY sz vp_e_P_size() { return P::size(); }
VP_ENTRY sz vp_e_P_sizeof() { return sizeof(P); }
VP_ENTRY sz vp_e_P_bytes() { return PI::sizeInBytes(); }
VP_ENTRY sz vp_e_P_min() { return P::minSizeInBytes(); }
VP_ENTRY sz vp_e_P_max() { return P::maxSizeInBytes(); }
VP_ENTRY bool vp_e_P_eq(P const & p, P const & q) { return p == q; }
VP_ENTRY bool vp_e_P_ne(P const & p, P const & q) { return p != q; }
VP_ENTRY bool vp_e_P_aeq(void * p, void * q) { return PA(p) == PA(q); }
VP_ENTRY bool vp_e_P_ane(void * p, void * q) { return PA(p) != PA(q); }
VP_ENTRY void vp_e_P_wide(P & p, int v) { p.ref<4>() = v; }
VP_ENTRY void vp_e_P_narrow(P & p, U64 v) { p.ref<3>() = v; }

// pointers
#define UP(N, T) \
    VP_ENTRY void const * vp_e_U_##N##_add(void * p, sz n) { return UnalignedPointer<T>(p) + n; } \
    VP_ENTRY void const * vp_e_U_##N##_radd(void * p, sz n) { return n + UnalignedPointer<T>(p); } \
    VP_ENTRY void const * vp_e_U_##N##_sub(void * p, sz n) { return UnalignedPointer<T>(p) - n; } \
    VP_ENTRY void const * vp_e_U_##N##_addA(void * p, sz n) { UnalignedPointer<T> q(p); return q += n; } \
    VP_ENTRY void const * vp_e_U_##N##_subA(void * p, sz n) { UnalignedPointer<T> q(p); return q -= n; } \
    VP_ENTRY void const * vp_e_U_##N##_inc(void * p) { UnalignedPointer<T> q(p); return ++q; } \
    VP_ENTRY void const * vp_e_U_##N##_dec(void * p) { UnalignedPointer<T> q(p); return --q; } \
    VP_ENTRY void const * vp_e_U_##N##_incP(void * p, void ** old) { UnalignedPointer<T> q(p); *old = q++; return q; } \
    VP_ENTRY void const * vp_e_U_##N##_decP(void * p, void ** old) { UnalignedPointer<T> q(p); *old = q--; return q; } \
    VP_ENTRY void vp_e_U_##N##_star(void * r, void * p) { new (r) T(*UnalignedPointer<T>(p)); } \
    VP_ENTRY void vp_e_U_##N##_cstar(void * r, void const * p) { new (r) T(*UnalignedPointer<T const>(p)); } \
    VP_ENTRY void vp_e_U_##N##_at(void * r, void * p) { new (r) T(UnalignedPointer<T>(p)[3]); } \
    VP_ENTRY void vp_e_U_##N##_put(void * p, T const & v) { UnalignedPointer<T> q(p); q[3] = v; } \
    VP_ENTRY std::ptrdiff_t vp_e_U_##N##_diff(void * p, void * q) { return UnalignedPointer<T>(p) - UnalignedPointer<T>(q); } \
    VP_ENTRY std::ptrdiff_t vp_e_U_##N##_diffC(void * p, void * q) { return UnalignedPointer<T>(p) - UnalignedPointer<T const>(q); } \
    VP_ENTRY bool vp_e_U_##N##_bool(void * p) { return bool(UnalignedPointer<T>(p)); } \
    VP_ENTRY bool vp_e_U_##N##_eq(void * p, void * q) { return UnalignedPointer<T>(p) == UnalignedPointer<T>(q); } \
    VP_ENTRY bool vp_e_U_##N##_ne(void * p, void * q) { return UnalignedPointer<T>(p) != UnalignedPointer<T>(q); } \
    VP_ENTRY bool vp_e_U_##N##_lt(void * p, void * q) { return UnalignedPointer<T>(p) < UnalignedPointer<T>(q); } \
    VP_ENTRY bool vp_e_U_##N##_le(void * p, void * q) { return UnalignedPointer<T>(p) <= UnalignedPointer<T>(q); } \
    VP_ENTRY bool vp_e_U_##N##_gt(void * p, void * q) { return UnalignedPointer<T>(p) > UnalignedPointer<T>(q); } \
    VP_ENTRY bool vp_e_U_##N##_ge(void * p, void * q) { return UnalignedPointer<T>(p) >= UnalignedPointer<T>(q); }
UP(8, U64)
UP(12, T12)
UP(2, U16)

// fields of sizes which are only known at run time
using V = DynamicVectorFieldPlaceholder<U16, 2u, 9u>;
using W = DynamicFieldPlaceholder<1u, 7u>;
#define D_(N, ...) \
    using N = DynamicPackedStruct<__VA_ARGS__>; \
    using N##Info = DynamicPackingInfo<__VA_ARGS__>; \
    VP_ENTRY sz vp_e_##N##_bytes(sz a, sz b) { return N##Info::sizeInBytes(a, b); } \
    VP_ENTRY sz vp_e_##N##_bytes2(sz a, sz b) { return N##Info::AccumArrayType(a, b).structSizeInBytes(); } \
    VP_ENTRY sz vp_e_##N##_bytes3(sz a, sz b) { N##Info::AccumArrayType x(a, b); return N##Info::sizeFromAccum(x); } \
    VP_ENTRY void const * vp_e_##N##_end(sz a, sz b, void * d) { N##Info::AccumArrayType x(a, b); return N##Info::endVoidPtr(d, x); } \
    VP_ENTRY void const * vp_e_##N##_cend(sz a, sz b, void * d) { N##Info::AccumArrayType const x(a, b); return N##Info::endConstVoidPtr(d, x); } \
    VP_ENTRY bool vp_e_##N##_valid(sz a, sz b) { return N##Info::validSizes(a, b); } \
    VP_ENTRY void vp_e_##N##_ctor(void * o, sz a, sz b) { new (o) N(a, b); } \
    VP_ENTRY void vp_e_##N##_dtor(N & o) { o.~N(); } \
    VP_ENTRY void vp_e_##N##_copy(void * o, N const & s) { new (o) N(s); } \
    VP_ENTRY void vp_e_##N##_copyN(void * o, N & s) { new (o) N(s); } \
    VP_ENTRY void vp_e_##N##_move(void * o, N & s) { new (o) N(std::move(s)); } \
    VP_ENTRY void vp_e_##N##_asgC(N & o, N const & s) { o = s; } \
    VP_ENTRY void vp_e_##N##_asgM(N & o, N & s) { o = std::move(s); } \
    VP_ENTRY void vp_e_##N##_asgSelf(N & o) { o = static_cast<N const &>(o); } \
    VP_ENTRY void * vp_e_##N##_release(N & o) { return o.release().release(); } \
    VP_ENTRY bool vp_e_##N##_eq(N const & o, N const & s) { return o == s; } \
    VP_ENTRY bool vp_e_##N##_ne(N const & o, N const & s) { return o != s; } \
    VP_ENTRY void const * vp_e_##N##_data(N & o) { return o.data(); } \
    VP_ENTRY void const * vp_e_##N##_cdata(N const & o) { return o.constData(); } \
    VP_ENTRY sz vp_e_##N##_size(N const & o) { return o.size(); } \
    VP_ENTRY void const * vp_e_##N##_oend(N & o) { return o.endVoidPtr(); }
#define G(N, I) \
    VP_ENTRY sz vp_e_##N##_off_##I(sz a, sz b) { return N##Info::AccumArrayType(a, b).elemOffset<I>(); } \
    VP_ENTRY sz vp_e_##N##_off2_##I(sz a, sz b) { N##Info::AccumArrayType x(a, b); return N##Info::elemOffset<I>(x); } \
    VP_ENTRY sz vp_e_##N##_off3_##I(sz a, sz b) { sz x[2]; N##Info::populateAccumArray(x, a, b); N##Info::AccumArrayType y(0u, 0u); y[0] = x[0]; y[1] = x[1]; return N##Info::elemOffset<I>(y); } \
    VP_ENTRY void const * vp_e_##N##_vp_##I(sz a, sz b, void * d) { N##Info::AccumArrayType x(a, b); return N##Info::voidPtr<I>(d, x); } \
    VP_ENTRY void const * vp_e_##N##_cvp_##I(sz a, sz b, void const * d) { N##Info::AccumArrayType x(a, b); return N##Info::constVoidPtr<I>(d, x); } \
    VP_ENTRY void const * vp_e_##N##_ptr_##I(sz a, sz b, void * d) { N##Info::AccumArrayType x(a, b); return N##Info::ptr<I>(d, x); } \
    VP_ENTRY void const * vp_e_##N##_cptr_##I(sz a, sz b, void const * d) { N##Info::AccumArrayType x(a, b); return N##Info::constPtr<I>(d, x); } \
    VP_ENTRY sz vp_e_##N##_ooff_##I(N const & o) { return o.elemOffset<I>(); } \
    VP_ENTRY void const * vp_e_##N##_ovp_##I(N const & o) { return o.constVoidPtr<I>(); } \
    VP_ENTRY void const * vp_e_##N##_optr_##I(N const & o) { return o.ptr<I>(); }
#define H(N, I) \
    VP_ENTRY void vp_e_##N##_get_##I(void * r, sz a, sz b, void const * d) { N##Info::AccumArrayType x(a, b); new (r) N##Info::ElemType<I>(N##Info::get<I>(d, x)); } \
    VP_ENTRY void vp_e_##N##_set_##I(void * d, sz a, sz b, N##Info::ElemType<I> const & v) { N##Info::AccumArrayType x(a, b); N##Info::set<I>(d, x, v); } \
    VP_ENTRY void vp_e_##N##_oget_##I(void * r, N const & o) { new (r) N##Info::ElemType<I>(o.get<I>()); } \
    VP_ENTRY void vp_e_##N##_oset_##I(N & o, N##Info::ElemType<I> const & v) { o.set<I>(v); } \
    VP_ENTRY void vp_e_##N##_oref_##I(N & o, N##Info::ElemType<I> const & v) { o.ref<I>() = v; }
D_(D, U8, V, U32, W, U64)
G(D, 0) G(D, 1) G(D, 2) G(D, 3) G(D, 4) H(D, 0) H(D, 2) H(D, 4)
D_(E, V, V, T12, U16)
G(E, 0) G(E, 1) G(E, 2) G(E, 3) H(E, 2) H(E, 3)
using N0 = DynamicPackedStruct<U16, U32>;
VP_ENTRY sz vp_e_N_size(N0 const & o) { return o.size(); }
VP_ENTRY sz vp_e_N_size2() { DynamicPackingInfo<U16, U32>::AccumArrayType x; return DynamicPackingInfo<U16, U32>::sizeFromAccum(x); }
