#include "vp.h"
#include <sharemind/TimeoutsThread.h>
using namespace sharemind;
using TT = TimeoutsThread;
struct RF {
    void operator()(std::unique_ptr<TT::Task> && t) noexcept { vp_x_mark(22); vp_x_use(&t); vp_x_user_call(this); }
    long p;
};
struct OF { void operator()() const noexcept { vp_x_mark(21); vp_x_user_call(this); } long payload; };
VP_ENTRY void vp_e_TT_ctor(TT * out) { new (out) TT; }
VP_ENTRY void vp_e_TT_dtor(TT & t) { t.~TT(); }
VP_ENTRY void vp_e_TT_stop(TT & t) { t.stop(); }
VP_ENTRY void vp_e_TT_run(TT & t) { t.run(); }
VP_ENTRY void vp_e_TT_addTask(TT & t, TT::Clock::time_point const & p, std::unique_ptr<TT::Task> & k)
{ t.addTask(p, std::move(k)); }
VP_ENTRY void vp_e_TT_addTimeoutTask(TT & t, TT::Clock::duration const & p, std::unique_ptr<TT::Task> & k)
{ t.addTimeoutTask(p, std::move(k)); }
VP_ENTRY bool vp_e_TT_less(TT::Task const & a, TT::Task const & b) { return a < b; }
VP_ENTRY void vp_e_TT_createOneShotTask(void * out, OF const & f)
{ new (out) std::unique_ptr<TT::Task>(TT::createOneShotTask(OF(f))); }
VP_ENTRY void vp_e_TT_createReusableTask(void * out, RF const & f)
{ new (out) std::unique_ptr<TT::Task>(TT::createReusableTask(RF(f))); }
