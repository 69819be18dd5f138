#include "vp.h"
#include <sharemind/IdentifierPool.h>
using namespace sharemind;
template class sharemind::IdentifierPool<unsigned>;
using P = IdentifierPool<unsigned>;
using H = P::IdHolder;
VP_ENTRY void vp_e_pool_reserve(P & p, void * out) { new (out) H(p.reserve()); }
VP_ENTRY void vp_e_holder_moveCtor(void * out, H & a) { new (out) H(std::move(a)); }
VP_ENTRY void vp_e_holder_moveAssign(H & a, H & b) { a = std::move(b); }
VP_ENTRY void vp_e_holder_selfMoveAssign(H & a) { a = std::move(a); }
VP_ENTRY void vp_e_holder_dtor(H & a) { a.~H(); }
VP_ENTRY void vp_e_holder_release(H & a) { a.release(); }
VP_ENTRY bool vp_e_holder_valid(H & a) { return a.valid(); }
VP_ENTRY bool vp_e_holder_bool(H & a) { return bool(a); }
VP_ENTRY unsigned vp_e_holder_id(H & a) { return a.id(); }
VP_ENTRY void vp_e_holder_defaultCtor(void * out) { new (out) H(); }
VP_ENTRY void vp_e_pool_ctor(void * out) { new (out) P(); }
VP_ENTRY void vp_e_pool_dtor(P & p) { p.~P(); }

struct TestTag;
using ST = StrongType<unsigned, TestTag>;
using SP = IdentifierPool<ST>;
using SH = SP::IdHolder;
VP_ENTRY void vp_e_spool_reserve(SP & p, void * out) { new (out) SH(p.reserve()); }
VP_ENTRY void vp_e_sholder_moveCtor(void * out, SH & a) { new (out) SH(std::move(a)); }
VP_ENTRY void vp_e_sholder_moveAssign(SH & a, SH & b) { a = std::move(b); }
VP_ENTRY void vp_e_sholder_selfMoveAssign(SH & a) { a = std::move(a); }
VP_ENTRY void vp_e_sholder_dtor(SH & a) { a.~SH(); }
VP_ENTRY void vp_e_sholder_release(SH & a) { a.release(); }
VP_ENTRY bool vp_e_sholder_valid(SH & a) { return a.valid(); }
