#include "vp.h"
#include <sharemind/Future.h>
using namespace sharemind;
using T = VpObj;
using F = Future<T>; using P = Promise<T>;
using FV = Future<void>; using PV = Promise<void>;

VP_ENTRY void vp_e_F_takeValue(F & f, void * out) { new (out) T(f.takeValue()); }
VP_ENTRY void vp_e_FV_takeValue(FV & f) { f.takeValue(); }
VP_ENTRY bool vp_e_F_isReady(F const & f) { return f.isReady(); }
VP_ENTRY bool vp_e_FV_isReady(FV const & f) { return f.isReady(); }
VP_ENTRY void vp_e_F_wait(F const & f) { f.wait(); }
VP_ENTRY void vp_e_FV_wait(FV const & f) { f.wait(); }
VP_ENTRY bool vp_e_F_waitFor(F const & f, std::chrono::milliseconds const & d) { return f.waitFor(d); }
VP_ENTRY bool vp_e_FV_waitFor(FV const & f, std::chrono::milliseconds const & d) { return f.waitFor(d); }
VP_ENTRY bool vp_e_F_waitUntil(F const & f, std::chrono::steady_clock::time_point const & d) { return f.waitUntil(d); }
VP_ENTRY bool vp_e_FV_waitUntil(FV const & f, std::chrono::steady_clock::time_point const & d) { return f.waitUntil(d); }
VP_ENTRY void vp_e_F_dtor(F & f) { f.~F(); }

struct Cont { // continuation supplied by the user
    T operator()(F && f) const { vp_xt_user_call(&f); return T(); }
    long payload;
};
struct VCont {
    void operator()(FV && f) const { vp_xt_user_call(&f); }
    long payload;
};
struct FCont { // continuation returning a future
    F operator()(F && f) const { vp_xt_user_call(&f); return std::move(f); }
    long payload;
};
struct FVCont {
    FV operator()(FV && f) const { vp_xt_user_call(&f); return std::move(f); }
    long payload;
};
VP_ENTRY void vp_e_F_then(F & f, void * out, Cont const & c) { new (out) F(f.then(c)); }
VP_ENTRY void vp_e_FV_then(FV & f, void * out, VCont const & c) { new (out) FV(f.then(c)); }
VP_ENTRY void vp_e_F_thenF(F & f, void * out, FCont const & c) { new (out) F(f.then(c)); }
VP_ENTRY void vp_e_FV_thenF(FV & f, void * out, FVCont const & c) { new (out) FV(f.then(c)); }

VP_ENTRY void vp_e_P_ctor(void * out) { new (out) P(); }
VP_ENTRY void vp_e_PV_ctor(void * out) { new (out) PV(); }
VP_ENTRY void vp_e_P_dtor(P & p) { p.~P(); }
VP_ENTRY void vp_e_PV_dtor(PV & p) { p.~PV(); }
VP_ENTRY void vp_e_P_abandon(P & p) { p.abandon(); }
VP_ENTRY void vp_e_PV_abandon(PV & p) { p.abandon(); }
VP_ENTRY void vp_e_P_setException(P & p, std::exception_ptr & e) { p.setException(std::exception_ptr(e)); }
VP_ENTRY void vp_e_PV_setException(PV & p, std::exception_ptr & e) { p.setException(std::exception_ptr(e)); }
VP_ENTRY void vp_e_P_setValueMove(P & p, T & v) { p.setValue(std::move(v)); }
VP_ENTRY void vp_e_P_setValueCopy(P & p, T const & v) { p.setValue(v); }
VP_ENTRY void vp_e_P_emplaceValue(P & p) { p.emplaceValue(42); }
VP_ENTRY void vp_e_PV_setReady(PV & p) { p.setReady(); }
VP_ENTRY void vp_e_PV_setValue(PV & p) { p.setValue(); }
VP_ENTRY bool vp_e_P_isValid(P & p) { return p.isValid(); }
VP_ENTRY void vp_e_P_takeFuture(P & p, void * out) { new (out) F(p.takeFuture()); }
VP_ENTRY void vp_e_PV_takeFuture(PV & p, void * out) { new (out) FV(p.takeFuture()); }
VP_ENTRY void vp_e_P_moveCtor(void * out, P & p) { new (out) P(std::move(p)); }
VP_ENTRY void vp_e_P_moveAssign(P & a, P & b) { a = std::move(b); }
VP_ENTRY void vp_e_PV_moveAssign(PV & a, PV & b) { a = std::move(b); }
VP_ENTRY void vp_e_P_swap(P & a, P & b) { a.swap(b); }

using PT = PackagedTask<T(int)>;
VP_ENTRY void vp_e_PT_call(PT & t) { t(42); }
VP_ENTRY void vp_e_PT_dtor(PT & t) { t.~PT(); }
VP_ENTRY void vp_e_PT_moveCtor(void * out, PT & t) { new (out) PT(std::move(t)); }
VP_ENTRY void vp_e_PT_moveAssign(PT & a, PT & b) { a = std::move(b); }
VP_ENTRY void vp_e_PT_takeFuture(PT & t, void * out) { new (out) F(t.takeFuture()); }

VP_ENTRY void vp_e_makeReadyFutureV(void * out) { new (out) FV(makeReadyFuture()); }
VP_ENTRY void vp_e_makeReadyFuture(void * out, T & v) { new (out) F(makeReadyFuture(std::move(v))); }
VP_ENTRY void vp_e_makeExceptionalFuture(void * out, std::exception_ptr & e)
{ new (out) F(makeExceptionalFuture<T>(std::exception_ptr(e))); }
VP_ENTRY void vp_e_makeBrokenFuture(void * out) { new (out) F(makeBrokenFuture<T>()); }
