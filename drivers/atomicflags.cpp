#include "vp.h"
#include <sharemind/Flags.h>
#include <sharemind/AtomicFlags.h>
using namespace sharemind;
enum class En : unsigned { A = 1u, B = 2u };
using U = unsigned;
using AF = AtomicFlags<En>;
using FL = Flags<En>;
#define MO(n) std::memory_order_ ## n
#define LD(n) \
    VP_ENTRY U vp_e_load_ ## n(AF & a) { return a.load(MO(n)); } \
    VP_ENTRY bool vp_e_any_ ## n(AF & a, U m) { return a.hasAnyOf(m, MO(n)); } \
    VP_ENTRY bool vp_e_all_ ## n(AF & a, U m) { return a.hasAllOf(m, MO(n)); } \
    VP_ENTRY bool vp_e_none_ ## n(AF & a, U m) { return a.hasNoneOf(m, MO(n)); }
#define ST(n) \
    VP_ENTRY void vp_e_store_ ## n(AF & a, U m) { a.store(m, MO(n)); } \
    VP_ENTRY void vp_e_setAll_ ## n(AF & a) { a.setFlags(MO(n)); } \
    VP_ENTRY void vp_e_unsetAll_ ## n(AF & a) { a.unsetFlags(MO(n)); }
#define RM(n) \
    VP_ENTRY U vp_e_exchange_ ## n(AF & a, U m) { return a.exchange(m, MO(n)); } \
    VP_ENTRY U vp_e_fetchSetAll_ ## n(AF & a) { return a.fetchSetFlags(MO(n)); } \
    VP_ENTRY U vp_e_fetchUnsetAll_ ## n(AF & a) { return a.fetchUnsetFlags(MO(n)); } \
    VP_ENTRY U vp_e_fetchSet_ ## n(AF & a, U m) { return a.fetchSetFlags(m, MO(n)); } \
    VP_ENTRY U vp_e_fetchUnset_ ## n(AF & a, U m) { return a.fetchUnsetFlags(m, MO(n)); } \
    VP_ENTRY U vp_e_fetchToggle_ ## n(AF & a, U m) { return a.fetchToggleFlags(m, MO(n)); } \
    VP_ENTRY bool vp_e_casS_ ## n(AF & a, U & e, U m) { return a.compareExchangeStrong(e, m, MO(n)); } \
    VP_ENTRY bool vp_e_casW_ ## n(AF & a, U & e, U m) { return a.compareExchangeWeak(e, m, MO(n)); } \
    VP_ENTRY bool vp_e_casSF_ ## n(AF & a, FL & e, U m) { return a.compareExchangeStrong(e, m, MO(n)); } \
    VP_ENTRY bool vp_e_casWF_ ## n(AF & a, FL & e, U m) { return a.compareExchangeWeak(e, m, MO(n)); } \
    VP_ENTRY bool vp_e_casS2_ ## n(AF & a, U & e, U m) { return a.compareExchangeStrong(e, m, MO(n), MO(relaxed)); } \
    VP_ENTRY bool vp_e_casW2_ ## n(AF & a, U & e, U m) { return a.compareExchangeWeak(e, m, MO(n), MO(relaxed)); } \
    VP_ENTRY bool vp_e_casSF2_ ## n(AF & a, FL & e, U m) { return a.compareExchangeStrong(e, m, MO(n), MO(relaxed)); } \
    VP_ENTRY bool vp_e_casWF2_ ## n(AF & a, FL & e, U m) { return a.compareExchangeWeak(e, m, MO(n), MO(relaxed)); }
LD(relaxed) LD(acquire) LD(seq_cst)
ST(relaxed) ST(release) ST(seq_cst)
RM(relaxed) RM(acquire) RM(release) RM(acq_rel) RM(seq_cst)
// default orders
VP_ENTRY U vp_e_load_(AF & a) { return a.load(); }
VP_ENTRY bool vp_e_any_(AF & a, U m) { return a.hasAnyOf(m); }
VP_ENTRY bool vp_e_all_(AF & a, U m) { return a.hasAllOf(m); }
VP_ENTRY bool vp_e_none_(AF & a, U m) { return a.hasNoneOf(m); }
VP_ENTRY void vp_e_store_(AF & a, U m) { a.store(m); }
VP_ENTRY void vp_e_setAll_(AF & a) { a.setFlags(); }
VP_ENTRY void vp_e_unsetAll_(AF & a) { a.unsetFlags(); }
VP_ENTRY U vp_e_exchange_(AF & a, U m) { return a.exchange(m); }
VP_ENTRY U vp_e_fetchSetAll_(AF & a) { return a.fetchSetFlags(); }
VP_ENTRY U vp_e_fetchUnsetAll_(AF & a) { return a.fetchUnsetFlags(); }
VP_ENTRY U vp_e_fetchSet_(AF & a, U m) { return a.fetchSetFlags(m); }
VP_ENTRY U vp_e_fetchUnset_(AF & a, U m) { return a.fetchUnsetFlags(m); }
VP_ENTRY U vp_e_fetchToggle_(AF & a, U m) { return a.fetchToggleFlags(m); }
VP_ENTRY bool vp_e_casS_(AF & a, U & e, U m) { return a.compareExchangeStrong(e, m); }
VP_ENTRY bool vp_e_casW_(AF & a, U & e, U m) { return a.compareExchangeWeak(e, m); }
VP_ENTRY bool vp_e_casSF_(AF & a, FL & e, U m) { return a.compareExchangeStrong(e, m); }
VP_ENTRY bool vp_e_casWF_(AF & a, FL & e, U m) { return a.compareExchangeWeak(e, m); }
