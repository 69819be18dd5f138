#include "vp.h"
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <new>
#include <utility>
#include <sharemind/AlignedAllocator.h>
#include <sharemind/UninitializedDynamicArray.h>
#include <sharemind/ScopeExit.h>
#include <sharemind/InputMemoryStream.h>
using namespace sharemind;
using sz = std::size_t;
struct T3 { char v[3]; };
struct T12 { std::uint32_t v[3]; };
struct T24 { std::uint64_t v[3]; };
struct alignas(64) A64 { char v[192]; };
struct alignas(4096) A4096 { char v[4096]; };
#define ALLOC(N, ...) \
    VP_ENTRY void * vp_e_alloc_##N(sz n) { return AlignedAllocator<__VA_ARGS__>::allocate(n); } \
    VP_ENTRY void * vp_e_allocT_##N(sz n) { AlignedAllocator<__VA_ARGS__> a; return std::allocator_traits<AlignedAllocator<__VA_ARGS__> >::allocate(a, n); } \
    VP_ENTRY void vp_e_dealloc_##N(__VA_ARGS__ * p, sz n) { AlignedAllocator<__VA_ARGS__>::deallocate(p, n); } \
    VP_ENTRY sz vp_e_szof_##N() { return sizeof(__VA_ARGS__); } \
    VP_ENTRY sz vp_e_alof_##N() { return alignof(__VA_ARGS__); }
ALLOC(char, char) ALLOC(T3, T3) ALLOC(int, int) ALLOC(T12, T12) ALLOC(T24, T24) ALLOC(ld, long double) ALLOC(A64, A64) ALLOC(A4096, A4096)
#define ST(N) \
    VP_ENTRY void * vp_e_st_##N(sz n) { return allocateAlignedStorage<N>(n); } \
    VP_ENTRY void * vp_e_stn_##N(sz n) { return allocateAlignedStorage<N>(n, std::nothrow); }
ST(1) ST(2) ST(4) ST(8) ST(16) ST(64) ST(4096)
VP_ENTRY void vp_e_free(void * p) { freeAlignedStorage(p); }
VP_ENTRY bool vp_e_al_eq(AlignedAllocator<int> & a, AlignedAllocator<char> & b) { return a == b; }
VP_ENTRY bool vp_e_al_ne(AlignedAllocator<int> & a, AlignedAllocator<char> & b) { return a != b; }
#define MEM(N) \
struct M##N { SHAREMIND_ALIGNEDALLOCATION_MEMBERS(N) char c[40]; }; \
    VP_ENTRY void * vp_e_m_new_##N(sz n) { return M##N::operator new(n); } \
    VP_ENTRY void * vp_e_m_newa_##N(sz n) { return M##N::operator new[](n); } \
    VP_ENTRY void * vp_e_m_newn_##N(sz n) { return M##N::operator new(n, std::nothrow); } \
    VP_ENTRY void * vp_e_m_newan_##N(sz n) { return M##N::operator new[](n, std::nothrow); } \
    VP_ENTRY void vp_e_m_del_##N(void * p) { M##N::operator delete(p); } \
    VP_ENTRY void vp_e_m_dela_##N(void * p) { M##N::operator delete[](p); } \
    VP_ENTRY void vp_e_m_deln_##N(void * p) { M##N::operator delete(p, std::nothrow); } \
    VP_ENTRY void vp_e_m_delan_##N(void * p) { M##N::operator delete[](p, std::nothrow); }
MEM(1) MEM(4) MEM(64)

#define UDA(N, ...) \
using U##N = UninitializedDynamicArray<__VA_ARGS__>; \
    VP_ENTRY void vp_e_u_make_##N(void * r, sz n) { new (r) U##N(n); } \
    VP_ENTRY void vp_e_u_def_##N(void * r) { new (r) U##N(); } \
    VP_ENTRY void vp_e_u_move_##N(void * r, U##N & o) { new (r) U##N(std::move(o)); } \
    VP_ENTRY void * vp_e_u_assign_##N(U##N & r, U##N & o) { return &(r = std::move(o)); } \
    VP_ENTRY void * vp_e_u_self_##N(U##N & r) { return &(r = std::move(r)); } \
    VP_ENTRY void vp_e_u_dtor_##N(U##N & r) { r.U##N::~U##N(); } \
    VP_ENTRY sz vp_e_u_size_##N(U##N const & r) { return r.size(); } \
    VP_ENTRY bool vp_e_u_empty_##N(U##N const & r) { return r.empty(); } \
    VP_ENTRY void const * vp_e_u_data_##N(U##N const & r) { return r.data(); } \
    VP_ENTRY void * vp_e_u_datan_##N(U##N & r) { return r.data(); } \
    VP_ENTRY void const * vp_e_u_begin_##N(U##N const & r) { return r.begin(); } \
    VP_ENTRY void * vp_e_u_beginn_##N(U##N & r) { return r.begin(); } \
    VP_ENTRY void const * vp_e_u_cbegin_##N(U##N & r) { return r.cbegin(); } \
    VP_ENTRY void const * vp_e_u_end_##N(U##N const & r) { return r.end(); } \
    VP_ENTRY void * vp_e_u_endn_##N(U##N & r) { return r.end(); } \
    VP_ENTRY void const * vp_e_u_cend_##N(U##N & r) { return r.cend(); } \
    VP_ENTRY void const * vp_e_u_at_##N(U##N const & r, sz i) { return &r[i]; } \
    VP_ENTRY void * vp_e_u_atn_##N(U##N & r, sz i) { return &r[i]; } \
    VP_ENTRY void const * vp_e_u_datai_##N(U##N const & r, sz i) { return r.data(i); } \
    VP_ENTRY void * vp_e_u_datain_##N(U##N & r, sz i) { return r.data(i); }
struct NT { NT(); NT(NT const &); ~NT(); std::uint32_t v[5]; };
UDA(c, char) UDA(T12, T12) UDA(NT, NT)

extern "C" void vp_t_body(int) noexcept(false);
extern "C" void vp_t_exit(int) noexcept(false);
static void do_scope(int v) { SHAREMIND_SCOPE_EXIT(vp_t_exit(v)); vp_t_body(v); }
static void do_scope2(int v) { ScopeExit const s([v] { vp_t_exit(v); }); vp_t_body(v); }
static void do_scope_nested(int v, int w) {
    SHAREMIND_SCOPE_EXIT(vp_t_exit(v));
    SHAREMIND_SCOPE_EXIT(vp_t_exit(w));
    vp_t_body(v);
}
static void do_scope_made(int v) { auto const & s = makeScopeExit([v] { vp_t_exit(v); }); (void) s; vp_t_body(v); }
static void do_scope_moved(int v) { ScopeExit a([v] { vp_t_exit(v); }); ScopeExit b(std::move(a)); vp_t_body(v); }
VP_ENTRY void vp_e_scope(int v) { do_scope(v); }
VP_ENTRY void vp_e_scope2(int v) { do_scope2(v); }
VP_ENTRY void vp_e_scope_nested(int v, int w) { do_scope_nested(v, w); }
VP_ENTRY void vp_e_scope_made(int v) { do_scope_made(v); }
VP_ENTRY void vp_e_scope_moved(int v) { do_scope_moved(v); }
template <typename C> struct Buf: Detail::BasicMemoryBuffer<C> {
    using Detail::BasicMemoryBuffer<C>::BasicMemoryBuffer;
    C * b() { return this->eback(); } C * g() { return this->gptr(); } C * e() { return this->egptr(); }
    C * p() { return this->pbase(); } C * q() { return this->epptr(); }
};
#define BUF(N, C) \
    VP_ENTRY void vp_e_buf_##N(void ** r, C const * p, sz n) { Buf<C> b(p, n); r[0] = b.b(); r[1] = b.g(); r[2] = b.e(); r[3] = b.p(); r[4] = b.q(); }
BUF(c, char) BUF(w, wchar_t)
