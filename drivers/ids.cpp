#include "vp.h"
#include <sharemind/IdentifierPool.h>
using namespace sharemind;
using P = IdentifierPool<unsigned>;
using H = P::IdHolder;
VP_ENTRY void vp_e_ID_reserve(P & p, void * out) { new (out) H(p.reserve()); }
VP_ENTRY void vp_e_ID_default(void * p) { new (p) H(); }
VP_ENTRY void vp_e_ID_move(void * p, H & o) { new (p) H(std::move(o)); }
VP_ENTRY void vp_e_ID_assign(H & a, H & b) { a = std::move(b); }
VP_ENTRY void vp_e_ID_selfassign(H & a) { H & b = a; a = std::move(b); }
VP_ENTRY void vp_e_ID_release(H & a) { a.release(); }
VP_ENTRY void vp_e_ID_dtor(H & a) { a.~H(); }
VP_ENTRY bool vp_e_ID_valid(H const & a) { return a.valid(); }
VP_ENTRY bool vp_e_ID_bool(H const & a) { return bool(a); }
VP_ENTRY unsigned vp_e_ID_id(H const & a) { return a.id(); }
VP_ENTRY unsigned vp_e_ID_ref(H const & a) { return a.idRef(); }

struct TestTag;
using ST = StrongType<unsigned, TestTag>;
using SP = IdentifierPool<ST>;
using SH = SP::IdHolder;
VP_ENTRY void vp_e_SID_reserve(SP & p, void * out) { new (out) SH(p.reserve()); }
VP_ENTRY void vp_e_SID_default(void * p) { new (p) SH(); }
VP_ENTRY void vp_e_SID_move(void * p, SH & o) { new (p) SH(std::move(o)); }
VP_ENTRY void vp_e_SID_assign(SH & a, SH & b) { a = std::move(b); }
VP_ENTRY void vp_e_SID_selfassign(SH & a) { SH & b = a; a = std::move(b); }
VP_ENTRY void vp_e_SID_release(SH & a) { a.release(); }
VP_ENTRY void vp_e_SID_dtor(SH & a) { a.~SH(); }
VP_ENTRY bool vp_e_SID_valid(SH const & a) { return a.valid(); }
VP_ENTRY bool vp_e_SID_bool(SH const & a) { return bool(a); }
VP_ENTRY unsigned vp_e_SID_id(SH const & a) { return a.id().get(); }
