// Models of the primitives below which the analysis does not look, and helpers
// for driver translation units.  Nothing here is ever executed: the drivers are
// only compiled to LLVM IR and analysed.
#ifndef VP_H
#define VP_H
#include <pthread.h>
#include <atomic>
#include <chrono>
#include <memory>
#include <mutex>
#include <thread>
#define condition_variable_any vp_unused_condition_variable_any
#include <condition_variable>
#undef condition_variable_any

// Naming convention understood by irx:
//   vp_x_*   opaque: may read and write any memory that escaped, nothrow
//   vp_xt_*  opaque and may throw
//   vp_t_*   touches no program memory, may throw
//   vp_*     touches no program memory, nothrow
extern "C" {
void vp_x_lock(void *) noexcept;
void vp_x_unlock(void *) noexcept;
int vp_x_trylock(void *) noexcept;
void vp_x_cv_wait(void * cv, void * mutex) noexcept;
int vp_x_cv_timedwait(void * cv, void * mutex) noexcept;
void vp_x_cv_notify_one(void * cv) noexcept;
void vp_x_cv_notify_all(void * cv) noexcept;
void vp_xt_thread_start(void * thread, void * state);
void vp_x_thread_join(void * thread) noexcept;
void vp_x_thread_detach(void * thread) noexcept;
// Code supplied by the user of the library:
void vp_xt_user_call(void const *);
void vp_x_user_call(void const *) noexcept;
bool vp_x_user_pred(void const *) noexcept;
// Life cycle of objects of the opaque user types below:
void vp_xt_obj_ctor(void *);
void vp_xt_obj_copy(void *, void const *);
void vp_x_obj_move(void *, void *) noexcept;
void vp_xt_obj_copy_assign(void *, void const *);
void vp_x_obj_move_assign(void *, void *) noexcept;
void vp_x_obj_dtor(void *) noexcept;
void vp_x_use(void const *) noexcept;
int vp_nondet_int() noexcept;
// Event marker in drivers:
void vp_x_mark(int) noexcept;
}

#ifndef VP_NO_THREAD_MODELS
extern "C" {
int pthread_mutex_lock(pthread_mutex_t * m) noexcept { vp_x_lock(m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t * m) noexcept { vp_x_unlock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t * m) noexcept { return vp_x_trylock(m); }
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { vp_x_cv_wait(c, m); return 0; }
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const timespec *)
{ return vp_x_cv_timedwait(c, m) ? ETIMEDOUT : 0; }
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t, const timespec *)
{ return vp_x_cv_timedwait(c, m) ? ETIMEDOUT : 0; }
int pthread_cond_signal(pthread_cond_t * c) noexcept { vp_x_cv_notify_one(c); return 0; }
int pthread_cond_broadcast(pthread_cond_t * c) noexcept { vp_x_cv_notify_all(c); return 0; }
}
namespace std {
void condition_variable::wait(unique_lock<mutex> & l) { vp_x_cv_wait(this, l.mutex()); }
void condition_variable::notify_one() noexcept { vp_x_cv_notify_one(this); }
void condition_variable::notify_all() noexcept { vp_x_cv_notify_all(this); }
void thread::join() { vp_x_thread_join(this); _M_id = id(); }
void thread::detach() { vp_x_thread_detach(this); _M_id = id(); }
void thread::_M_start_thread(_State_ptr s, void (*)()) { vp_xt_thread_start(this, s.release()); }

// condition_variable_any with the same interface, without the internal mutex.
class condition_variable_any {
    alignas(16) char vp_storage[64];
    template <typename M> static void * vp_m(unique_lock<M> & l) { return l.mutex(); }
    template <typename M> static void * vp_m(M & l) { return &l; }
public:
    condition_variable_any() = default;
    ~condition_variable_any() = default;
    condition_variable_any(condition_variable_any const &) = delete;
    condition_variable_any & operator=(condition_variable_any const &) = delete;
    void notify_one() noexcept { vp_x_cv_notify_one(this); }
    void notify_all() noexcept { vp_x_cv_notify_all(this); }
    template <typename L> void wait(L & l) { vp_x_cv_wait(this, vp_m(l)); }
    template <typename L, typename P> void wait(L & l, P p) { while (!p()) wait(l); }
    template <typename L, typename C, typename D>
    cv_status wait_until(L & l, chrono::time_point<C, D> const &)
    { return vp_x_cv_timedwait(this, vp_m(l)) ? cv_status::timeout : cv_status::no_timeout; }
    template <typename L, typename C, typename D, typename P>
    bool wait_until(L & l, chrono::time_point<C, D> const & t, P p) {
        while (!p())
            if (wait_until(l, t) == cv_status::timeout)
                return p();
        return true;
    }
    template <typename L, typename R, typename D>
    cv_status wait_for(L & l, chrono::duration<R, D> const & d)
    { return wait_until(l, chrono::steady_clock::now() + d); }
    template <typename L, typename R, typename D, typename P>
    bool wait_for(L & l, chrono::duration<R, D> const & d, P p)
    { return wait_until(l, chrono::steady_clock::now() + d, p); }
};
}
#endif

#ifdef VP_SPINLOCK_MODEL
// Clients of the ticket lock are analysed with an abstract lock in its place;
// the ticket lock itself has its own driver.
#define TicketSpinLock VpRealTicketSpinLock
#include <sharemind/TicketSpinLock.h>
#undef TicketSpinLock
namespace sharemind {
class TicketSpinLock {
    alignas(8) char vp_storage[64];
public:
    TicketSpinLock() = default;
    void lock() noexcept { vp_x_lock(this); }
    void unlock() noexcept { vp_x_unlock(this); }
};
}
#endif

// Opaque user types.
struct VpObj { // everything but moving and destruction may throw
    VpObj() { vp_xt_obj_ctor(this); }
    explicit VpObj(int) { vp_xt_obj_ctor(this); }
    VpObj(VpObj const & o) { vp_xt_obj_copy(this, &o); }
    VpObj(VpObj && o) noexcept { vp_x_obj_move(this, &o); }
    VpObj & operator=(VpObj const & o) { vp_xt_obj_copy_assign(this, &o); return *this; }
    VpObj & operator=(VpObj && o) noexcept { vp_x_obj_move_assign(this, &o); return *this; }
    ~VpObj() noexcept { vp_x_obj_dtor(this); }
    long payload[2];
};
struct VpFun { // callable, may throw
    void operator()() const { vp_xt_user_call(this); }
    long payload;
};
struct VpNFun { // callable, nothrow
    void operator()() const noexcept { vp_x_user_call(this); }
    long payload;
};

#define VP_ENTRY extern "C" __attribute__((used))

#endif
