#define VP_SPINLOCK_MODEL
#include "vp.h"
#include <sharemind/ThreadPool.h>
#include <sharemind/SimpleThreadPool.h>
#include <sharemind/ParticipatoryThreadPool.h>
#include <sharemind/Strand.h>
using namespace sharemind;
using TP = ThreadPool; using STP = SimpleThreadPool; using PTP = ParticipatoryThreadPool;
using Time = std::chrono::steady_clock::time_point;
VP_ENTRY void vp_e_TP_submit(TP & t, TP::Task & k) { t.submit(std::move(k)); }
VP_ENTRY void vp_e_TP_notifyStop(TP & t) { t.notifyStop(); }
VP_ENTRY bool vp_e_TP_stopNotified(TP & t) { return t.stopNotified(); }
VP_ENTRY void vp_e_TP_workerThread(TP & t) { t.workerThread(); }
VP_ENTRY int vp_e_TP_workerThreadUntil(TP & t, Time const & p) { return t.workerThreadUntil(p); }
VP_ENTRY bool vp_e_TP_oneTask(TP & t) { return t.oneTaskWorkerThread(); }
VP_ENTRY int vp_e_TP_oneTaskUntil(TP & t, Time const & p) { return t.oneTaskWorkerThreadUntil(p); }
VP_ENTRY void vp_e_STP_ctor(STP * out, std::size_t n) { new (out) STP(n); }
VP_ENTRY void vp_e_STP_dtor(STP & t) { t.STP::~SimpleThreadPool(); }
VP_ENTRY void vp_e_STP_join(STP & t) { t.join(); }
VP_ENTRY void vp_e_STP_stopAndJoin(STP & t) { t.stopAndJoin(); }
VP_ENTRY void vp_e_PTP_ctor(PTP * out) { new (out) PTP; }
VP_ENTRY void vp_e_PTP_dtor(PTP & t) { t.PTP::~ParticipatoryThreadPool(); }
VP_ENTRY void vp_e_PTP_join(PTP & t) { t.join(); }
VP_ENTRY void vp_e_PTP_stopAndJoin(PTP & t) { t.stopAndJoin(); }
VP_ENTRY void vp_e_PTP_participate(PTP & t) { t.participate(); }
VP_ENTRY int vp_e_PTP_participateUntil(PTP & t, Time const & p) { return t.participateUntil(p); }
VP_ENTRY int vp_e_PTP_participateFor(PTP & t, std::chrono::milliseconds const & p) { return t.participateFor(p); }
VP_ENTRY bool vp_e_PTP_participateOnce(PTP & t) { return t.participateOnce(); }
VP_ENTRY int vp_e_PTP_participateOnceUntil(PTP & t, Time const & p) { return t.participateOnceUntil(p); }
VP_ENTRY int vp_e_PTP_participateOnceFor(PTP & t, std::chrono::milliseconds const & p) { return t.participateOnceFor(p); }
VP_ENTRY void vp_e_Strand_ctor(void * out, std::shared_ptr<TP> & p) { new (out) Strand(std::move(p)); }
VP_ENTRY void vp_e_Strand_dtor(Strand & s) { s.~Strand(); }
VP_ENTRY void vp_e_Strand_submit(Strand & s, TP::Task & t) { s.submit(std::move(t)); }
VP_ENTRY void vp_e_Strand_stopAndJoin(Strand & s, void * out) { new (out) std::shared_ptr<TP>(s.stopAndJoin()); }
VP_ENTRY void vp_e_Strand_stopAndMaybeJoin(Strand & s, void * out) { new (out) std::shared_ptr<TP>(s.stopAndMaybeJoin()); }
template <int N> struct VpTagFun {
    void operator()() const noexcept { vp_x_mark(N); vp_x_user_call(this); }
    long payload;
};
struct VpTaskFun {
    void operator()(TP::Task && t) const noexcept { vp_x_mark(12); vp_x_use(&t); vp_x_user_call(this); }
    long payload;
};
VP_ENTRY void vp_e_TP_createSimpleTask(void * out, VpTagFun<11> const & f) { new (out) TP::Task(TP::createSimpleTask(VpTagFun<11>(f))); }
VP_ENTRY void vp_e_TP_createTask(void * out, VpTaskFun const & f) { new (out) TP::Task(TP::createTask(VpTaskFun(f))); }
VP_ENTRY void vp_e_TP_ReusableTask(void * out, VpTagFun<13> const & f) { new (out) TP::ReusableTask(f); }
