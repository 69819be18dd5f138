#include "vp.h"
#include <sharemind/EventLoop.h>
#include <sharemind/SingleThreadEventLoop.h>
using namespace sharemind;
using E = EventLoop; using S = SingleThreadEventLoop; using H = E::EventHandler;
VP_ENTRY void vp_e_EL_ctor(E * out) { new (out) E; }
VP_ENTRY void vp_e_EL_dtor(E & e) { e.~E(); }
VP_ENTRY void vp_e_EL_run(E & e) { e.run(); }
VP_ENTRY void vp_e_EL_stop(E & e) { e.stop(); }
VP_ENTRY void vp_e_EL_stopAsync(E & e) { e.stopAsync(); }
VP_ENTRY void vp_e_EL_insertDisabled(E & e, int fd) { e.insertDisabled(fd); }
VP_ENTRY void vp_e_EL_modify(E & e, int fd, E::EventSet s, H & h) { e.modify(fd, s, h); }
VP_ENTRY void vp_e_EL_disable(E & e, int fd) { e.disable(fd); }
VP_ENTRY bool vp_e_EL_insert(E & e, int fd, E::EventSet s, H & h) { return e.insert(fd, s, h); }
VP_ENTRY bool vp_e_EL_insertOrModify(E & e, int fd, E::EventSet s, H & h) { return e.insertOrModify(fd, s, h); }
VP_ENTRY bool vp_e_EL_insertDisabledOrDisable(E & e, int fd) { return e.insertDisabledOrDisable(fd); }
VP_ENTRY bool vp_e_EL_remove(E & e, int fd) { return e.remove(fd); }
VP_ENTRY void vp_e_EL_spin(E & e) { e.spinUntilLoopIterationEnd(); }
VP_ENTRY void vp_e_EL_yield(E & e) { e.yieldUntilLoopIterationEnd(); }
struct EH { void operator()() noexcept { vp_x_user_call(this); } };
VP_ENTRY void vp_e_STEL_ctor(S * out) { new (out) S; }
VP_ENTRY void vp_e_STEL_ctorH(S * out, VpNFun const & f) { new (out) S(VpNFun(f)); }
VP_ENTRY void vp_e_STEL_dtor(S & s) { s.~S(); }
VP_ENTRY void vp_e_EL_handle(H & h, E::EventSet s) { h.handleEvents(s); }
