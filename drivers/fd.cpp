#include "vp.h"
#include <fcntl.h>
#include <new>
#include <sharemind/FileDescriptor.h>
#include <sharemind/Posix.h>
#include <sharemind/Exception.h>
using namespace sharemind;
extern "C" bool vp_x_ok(int r);
struct IsOk { bool operator()(int const r) const { return vp_x_ok(r); } };
using FD = FileDescriptor;
struct VpGetException: sharemind::Exception {};
struct VpSetException: sharemind::Exception {};
VP_ENTRY void vp_e_FD_ctor(void * p, int fd) { new (p) FD(fd); }
VP_ENTRY void vp_e_FD_default(void * p) { new (p) FD(); }
VP_ENTRY void vp_e_FD_move(void * p, FD & o) { new (p) FD(std::move(o)); }
VP_ENTRY void vp_e_FD_assign(FD & a, FD & b) { a = std::move(b); }
VP_ENTRY void vp_e_FD_selfassign(FD & a) { FD & b = a; a = std::move(b); }
VP_ENTRY void vp_e_FD_reset(FD & a, int fd) { a.reset(fd); }
VP_ENTRY int vp_e_FD_release(FD & a) { return a.release(); }
VP_ENTRY void vp_e_FD_close(FD & a) { a.close(); }
VP_ENTRY void vp_e_FD_dtor(FD & a) { a.~FD(); }
VP_ENTRY bool vp_e_FD_valid(FD & a) { return a.valid(); }
VP_ENTRY int vp_e_FD_native(FD & a) { return a.nativeHandle(); }
VP_ENTRY void vp_e_FD_dup(void * p, FD const & a) { new (p) FD(a.duplicate()); }
VP_ENTRY void vp_e_P_addFd(int fd, int f) { fcntlAddFd<VpGetException, VpSetException>(fd, f); }
VP_ENTRY void vp_e_P_addFl(int fd, int f) { fcntlAddFl<VpGetException, VpSetException>(fd, f); }
VP_ENTRY int vp_e_EX_errno(ErrnoException const & e) { return e.errorNumber(); }
VP_ENTRY void vp_e_EX_ctor(void * p, int e) { new (p) ErrnoException(e); }
VP_ENTRY char const * vp_e_EX_what(ErrnoException const & e) { return e.what(); }
VP_ENTRY void vp_e_EX_copy(void * p, ErrnoException const & e) { new (p) ErrnoException(e); }
extern "C" int vp_x_syscall(int a, long b);
VP_ENTRY int vp_e_P_loop(int a, long b)
{ return syscallLoop<VpGetException>(vp_x_syscall, IsOk(), a, b); }
