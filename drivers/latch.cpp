#include "vp.h"
#include <sharemind/Latch.h>
using namespace sharemind;
using L = Latch<unsigned>;
VP_ENTRY bool vp_e_Latch_countDown(L & a) { return a.countDown(); }
VP_ENTRY void vp_e_Latch_countDownAndWait(L & a) { a.countDownAndWait(); }
VP_ENTRY bool vp_e_Latch_isReady(L & a) { return a.isReady(); }
VP_ENTRY void vp_e_Latch_wait(L & a) { a.wait(); }
