#include "vp.h"
#include <sharemind/SimpleWait.h>
using namespace sharemind;
VP_ENTRY void vp_e_SimpleWait_wait(SimpleWait & a) { a.wait(); }
VP_ENTRY void vp_e_SimpleWait_notifyReady(SimpleWait & a) { a.notifyReady(); }
VP_ENTRY void vp_e_SimpleWait_waitOrStop(SimpleWait & a, VpFun const & f)
{ a.waitOrStop(f); }
