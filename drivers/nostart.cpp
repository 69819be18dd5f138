#include "vp.h"
#include <sharemind/NoStartThread.h>
using namespace sharemind;
using N = NoStartThread;
VP_ENTRY void vp_e_N_ctor(N * out) { new (out) N; }
VP_ENTRY void vp_e_N_ctorF(N * out, VpNFun & f) { new (out) N(std::move(f)); }
VP_ENTRY void vp_e_N_dtor(N & n) { n.~N(); }
VP_ENTRY void vp_e_N_start(N & n) { n.start(); }
VP_ENTRY void vp_e_N_stop(N & n) { n.stop(); }
VP_ENTRY void vp_e_N_join(N & n) { n.join(); }
VP_ENTRY void vp_e_N_run(N & n) { n.run_(); }
