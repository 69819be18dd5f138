#include "vp.h"
#include <sharemind/SharedResourceMap.h>
using namespace sharemind;
struct V { V(); ~V() noexcept; int x; };
using M = SharedResourceMap<int, V>;
extern "C" void vp_xt_make(std::shared_ptr<V> *, int const *);
struct UserCtor {
    std::shared_ptr<V> operator()(int const & k) const
    { std::shared_ptr<V> r; vp_xt_make(&r, &k); return r; }
};
extern "C" void vp_xt_visit(int const *, V *);
struct Visitor {
    void operator()(int const & k, std::shared_ptr<V> p) const
    { vp_xt_visit(&k, p.get()); }
};
VP_ENTRY void vp_e_M_get(M & m, int k, void * out, UserCtor const & c)
{ new (out) std::shared_ptr<V>(m.getResource(k, c)); }
VP_ENTRY void vp_e_M_getDefault(M & m, int k, void * out)
{ new (out) std::shared_ptr<V>(m.getResource(k)); }
VP_ENTRY void vp_e_M_forEach(M & m, Visitor const & v) { m.forEach(v); }
VP_ENTRY bool vp_e_M_empty(M & m) { return m.empty(); }
VP_ENTRY std::size_t vp_e_M_size(M & m) { return m.size(); }
VP_ENTRY V * vp_e_M_real(M::ValueObj_ & o) { return o.realPtr.get(); }
VP_ENTRY V * vp_e_M_weak(M::ValueObj_ & o) { return o.weakPtr._M_ptr; }
VP_ENTRY int const * vp_e_M_key(M::ValueObj_ & o) { return &o.key; }
VP_ENTRY void * vp_e_M_data(M::Inner & i) { return &i.m_data; }
VP_ENTRY void * vp_e_M_mutex(M::Inner & i) { return &i.m_mutex; }
VP_ENTRY void * vp_e_M_cond(M::Inner & i) { return &i.m_cond; }
VP_ENTRY void * vp_e_M_cont(M::ValueObj_ & i) { return i.container._M_ptr; }
VP_ENTRY void * vp_e_M_second(M::Map_::iterator i) { return &i->second; }
VP_ENTRY void const * vp_e_M_first(M::Map_::iterator i) { return &i->first; }
VP_ENTRY void * vp_e_M_inner(M & m) { return m.m_inner.get(); }
// a key which is moved from where it may be
struct MK {
    int v;
    MK(MK const &) noexcept = default;
    MK(MK && o) noexcept : v(o.v) { o.v = -1; }
    bool operator<(MK const & o) const noexcept { return v < o.v; }
};
using MM = SharedResourceMap<MK, V>;
struct MovedCtor {
    std::shared_ptr<V> operator()(MK const & k) const
    { std::shared_ptr<V> r; vp_xt_make(&r, &k.v); return r; }
};
VP_ENTRY void vp_e_M_getMoved(MM & m, MK & k, void * out, MovedCtor const & c)
{ new (out) std::shared_ptr<V>(m.getResource(std::move(k), c)); }
