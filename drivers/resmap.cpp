#include "vp.h"
#include <sharemind/SharedResourceMap.h>
using namespace sharemind;
using V = VpObj;
using M = SharedResourceMap<int, V>;
struct UserCtor {
    std::shared_ptr<V> operator()(int const & k) const {
        vp_xt_user_call(&k);
        return std::make_shared<V>();
    }
};
struct Visitor {
    void operator()(int const & k, std::shared_ptr<V> p) const
    { vp_xt_user_call(p.get()); }
};
VP_ENTRY void vp_e_map_getResource(M & m, int k, void * out)
{ new (out) std::shared_ptr<V>(m.getResource(k)); }
VP_ENTRY void vp_e_map_getResource_ctor(M & m, int k, void * out, UserCtor const & c)
{ new (out) std::shared_ptr<V>(m.getResource(k, c)); }
VP_ENTRY void vp_e_map_forEach(M & m, Visitor const & v) { m.forEach(v); }
VP_ENTRY void vp_e_map_waitForEmpty(M & m) { m.waitForEmpty(); }
VP_ENTRY bool vp_e_map_empty(M & m) { return m.empty(); }
VP_ENTRY std::size_t vp_e_map_size(M & m) { return m.size(); }
VP_ENTRY void vp_e_map_ctor(void * out) { new (out) M(); }
VP_ENTRY void vp_e_map_dtor(M & m) { m.M::~SharedResourceMap(); }
