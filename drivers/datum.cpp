#include "vp.h"
#include <sharemind/Datum.h>
using namespace sharemind;
using sz = std::size_t;
VP_ENTRY void vp_e_load(Datum & d, std::string const & n) { d.loadFromFile(n); }
VP_ENTRY void vp_e_ctor_load(void * r, std::string const & n) { new (r) Datum(n); }
VP_ENTRY void vp_e_ctor(void * r, void const * p, sz n) { new (r) Datum(p, n); }
VP_ENTRY void vp_e_ctor_fill(void * r, sz n, char c) { new (r) Datum(n, c); }
VP_ENTRY void vp_e_assign(Datum & d, void const * p, sz n) { d.assign(p, n); }
VP_ENTRY void vp_e_clear(Datum & d) { d.clear(); }
VP_ENTRY sz vp_e_size(Datum & d) { return d.size(); }
VP_ENTRY bool vp_e_empty(Datum & d) { return d.empty(); }
VP_ENTRY void * vp_e_data(Datum & d) { return d.data(); }
VP_ENTRY void const * vp_e_cdata(Datum & d) { return d.constData(); }
VP_ENTRY void * vp_e_end(Datum & d) { return d.dataEnd(); }
VP_ENTRY void const * vp_e_cend(Datum & d) { return d.constDataEnd(); }
