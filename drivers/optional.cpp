#include "vp.h"
#include <new>
#include <utility>
#include <sharemind/Optional.h>
// values of which nothing is known
extern "C" {
void vp_t_vmake(void *, int);
void vp_t_vlist(void *, int const *, std::size_t, int);
void vp_t_vcopy(void *, void const *);
void vp_t_vmove(void *, void *);
void vp_t_vassign(void *, void const *);
void vp_t_vmassign(void *, void *);
void vp_t_vconv(void *, void const *);
void vp_t_vmconv(void *, void *);
void vp_t_vcassign(void *, void const *);
void vp_t_vmcassign(void *, void *);
void vp_vdestroy(void *) noexcept;
bool vp_t_veq(void const *, void const *);
bool vp_t_vne(void const *, void const *);
bool vp_t_vlt(void const *, void const *);
bool vp_t_vle(void const *, void const *);
bool vp_t_vgt(void const *, void const *);
bool vp_t_vge(void const *, void const *);
}
struct W { int v[3]; W(int); W(W const &); W(W &&); ~W() noexcept; };
#define VALUE(X, DTOR) \
    struct X { \
        X(int i) { vp_t_vmake(this, i); } \
        X(std::initializer_list<int> & l, int i) { vp_t_vlist(this, l.begin(), l.size(), i); } \
        X(X const & o) { vp_t_vcopy(this, &o); } \
        X(X && o) { vp_t_vmove(this, &o); } \
        X(W const & o) { vp_t_vconv(this, &o); } \
        X(W && o) { vp_t_vmconv(this, &o); } \
        X & operator=(X const & o) { vp_t_vassign(this, &o); return *this; } \
        X & operator=(X && o) { vp_t_vmassign(this, &o); return *this; } \
        X & operator=(W const & o) { vp_t_vcassign(this, &o); return *this; } \
        X & operator=(W && o) { vp_t_vmcassign(this, &o); return *this; } \
        DTOR \
        int v[3]; \
    }; \
    inline bool operator==(X const & a, X const & b) { return vp_t_veq(&a, &b); } \
    inline bool operator!=(X const & a, X const & b) { return vp_t_vne(&a, &b); } \
    inline bool operator<(X const & a, X const & b) { return vp_t_vlt(&a, &b); } \
    inline bool operator<=(X const & a, X const & b) { return vp_t_vle(&a, &b); } \
    inline bool operator>(X const & a, X const & b) { return vp_t_vgt(&a, &b); } \
    inline bool operator>=(X const & a, X const & b) { return vp_t_vge(&a, &b); }
VALUE(X, ~X() noexcept { vp_vdestroy(this); })
VALUE(Y, )
using sharemind::Optional;
using I = int;
using B = bool;
using OW = Optional<W>;
VP_ENTRY bool vp_e_O_W_has(OW const & o) { return o.hasValue(); }
VP_ENTRY void const * vp_e_O_W_data(OW const & o) { return o.operator->(); }

// what works with all values
#define OPS(X, O) \
    VP_ENTRY bool vp_e_O_##X##_has(O const & o) { return o.hasValue(); } \
    VP_ENTRY bool vp_e_O_##X##_bool(O const & o) { return bool(o); } \
    VP_ENTRY void const * vp_e_O_##X##_data(O const & o) { return o.operator->(); } \
    VP_ENTRY void * vp_e_O_##X##_dataN(O & o) { return o.operator->(); } \
    VP_ENTRY void * vp_e_O_##X##_deref(O & o) { return &*o; } \
    VP_ENTRY void const * vp_e_O_##X##_derefC(O const & o) { return &*o; } \
    VP_ENTRY void const * vp_e_O_##X##_derefM(O & o) { X && x = *std::move(o); return &x; } \
    VP_ENTRY void const * vp_e_O_##X##_derefCM(O const & o) { X const && x = *std::move(o); return &x; } \
    VP_ENTRY void vp_e_O_##X##_def(void * o) { new (o) O; } \
    VP_ENTRY void vp_e_O_##X##_null(void * o) { new (o) O(sharemind::nullOption); } \
    VP_ENTRY void vp_e_O_##X##_copy(void * o, O const & s) { new (o) O(s); } \
    VP_ENTRY void vp_e_O_##X##_move(void * o, O & s) { new (o) O(std::move(s)); } \
    VP_ENTRY void vp_e_O_##X##_valc(void * o, X const & s) { new (o) O(s); } \
    VP_ENTRY void vp_e_O_##X##_valm(void * o, X & s) { new (o) O(std::move(s)); } \
    VP_ENTRY void vp_e_O_##X##_makec(void * o, X const & s) { new (o) O(sharemind::makeOptional(s)); } \
    VP_ENTRY void vp_e_O_##X##_makem(void * o, X & s) { new (o) O(sharemind::makeOptional(std::move(s))); } \
    VP_ENTRY void vp_e_O_##X##_dtor(O & o) { o.~O(); } \
    VP_ENTRY void vp_e_O_##X##_reset(O & o) { o.reset(); } \
    VP_ENTRY void vp_e_O_##X##_asgNull(O & o) { o = sharemind::nullOption; } \
    VP_ENTRY void vp_e_O_##X##_asgC(O & o, O const & s) { o = s; } \
    VP_ENTRY void vp_e_O_##X##_asgM(O & o, O & s) { o = std::move(s); } \
    VP_ENTRY void vp_e_O_##X##_asgSelf(O & o) { o = static_cast<O const &>(o); } \
    VP_ENTRY void vp_e_O_##X##_asgV(O & o, X const & s) { o = s; } \
    VP_ENTRY void vp_e_O_##X##_swap(O & o, O & s) { o.swap(s); } \
    VP_ENTRY void vp_e_O_##X##_swapF(O & o, O & s) { swap(o, s); } \
    VP_ENTRY void vp_e_O_##X##_valueOrCC(void * r, O const & o, X const & d) { new (r) X(o.valueOr(d)); } \
    VP_ENTRY void vp_e_O_##X##_valueOrCM(void * r, O const & o, X & d) { new (r) X(o.valueOr(std::move(d))); } \
    VP_ENTRY void vp_e_O_##X##_valueOrMC(void * r, O & o, X const & d) { new (r) X(std::move(o).valueOr(d)); } \
    VP_ENTRY void vp_e_O_##X##_valueOrMM(void * r, O & o, X & d) { new (r) X(std::move(o).valueOr(std::move(d))); } \
    VP_ENTRY void * vp_e_O_##X##_emplaceC(O & o, X const & s) { return &o.emplace(s); } \
    VP_ENTRY void * vp_e_O_##X##_emplaceM(O & o, X & s) { return &o.emplace(std::move(s)); } \
    CMP(X, O, eq, ==) CMP(X, O, ne, !=) CMP(X, O, lt, <) CMP(X, O, le, <=) CMP(X, O, gt, >) CMP(X, O, ge, >=)
#define CMP(X, O, name, op) \
    VP_ENTRY bool vp_e_O_##X##_##name##OO(O const & o, O const & s) { return o op s; } \
    VP_ENTRY bool vp_e_O_##X##_##name##ON(O const & o) { return o op sharemind::nullOption; } \
    VP_ENTRY bool vp_e_O_##X##_##name##NO(O const & o) { return sharemind::nullOption op o; } \
    VP_ENTRY bool vp_e_O_##X##_##name##OV(O const & o, X const & s) { return o op s; } \
    VP_ENTRY bool vp_e_O_##X##_##name##VO(X const & s, O const & o) { return s op o; }
// what needs user-defined values
#define MORE(X, O) \
    VP_ENTRY void vp_e_O_##X##_inplace(void * o, int i) { new (o) O(sharemind::inPlace, i); } \
    VP_ENTRY void vp_e_O_##X##_makei(void * o, int i) { new (o) O(sharemind::makeOptional<X>(i)); } \
    VP_ENTRY void vp_e_O_##X##_vali(void * o, int i) { new (o) O(i); } \
    VP_ENTRY void vp_e_O_##X##_convC(void * o, OW const & s) { new (o) O(s); } \
    VP_ENTRY void vp_e_O_##X##_convM(void * o, OW & s) { new (o) O(std::move(s)); } \
    VP_ENTRY void vp_e_O_##X##_asgCU(O & o, OW const & s) { o = s; } \
    VP_ENTRY void vp_e_O_##X##_asgMU(O & o, OW & s) { o = std::move(s); } \
    VP_ENTRY void vp_e_O_##X##_valueOrConC(void * r, O const & o, int i) { new (r) X(o.valueOrConstruct(i)); } \
    VP_ENTRY void vp_e_O_##X##_valueOrConM(void * r, O & o, int i) { new (r) X(std::move(o).valueOrConstruct(i)); } \
    VP_ENTRY void * vp_e_O_##X##_emplace(O & o, int i) { return &o.emplace(i); } \
    VP_ENTRY void * vp_e_O_##X##_emplaceL(O & o, std::initializer_list<int> const & l, int i) { return &o.emplace(l, i); }
OPS(X, Optional<X>)
MORE(X, Optional<X>)
OPS(Y, Optional<Y>)
MORE(Y, Optional<Y>)
OPS(I, Optional<I>)
OPS(B, Optional<B>)
