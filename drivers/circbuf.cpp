#include "vp.h"
#include <new>
#include <sharemind/CircBufferSCSP.h>
using namespace sharemind;
#ifndef VP_CB_T
#define VP_CB_T char
#endif
#ifndef VP_CB_L
#define VP_CB_L CircBufferScspLocking<>
#else
#define VP_CB_NOWAIT
#endif
using T = VP_CB_T;
using CB = CircBufferSCSP<T, VP_CB_L>;
extern "C" std::size_t vp_x_user_count(void const * p, std::size_t n) noexcept;
struct WActor { std::size_t operator()(T * p, std::size_t n) noexcept { return vp_x_user_count(p, n); } long l; };
struct RActor { std::size_t operator()(T const * p, std::size_t n) noexcept { return vp_x_user_count(p, n); } long l; };
VP_ENTRY std::size_t vp_e_CB_write(CB & c, T const * d, std::size_t n) { return c.write(d, n); }
VP_ENTRY std::size_t vp_e_CB_read(CB & c, T * d, std::size_t n) { return c.read(d, n); }
VP_ENTRY std::size_t vp_e_CB_writeActor(CB & c, WActor const & a) { return c.write(a); }
VP_ENTRY std::size_t vp_e_CB_readActor(CB & c, RActor const & a) { return c.read(a); }
VP_ENTRY std::size_t vp_e_CB_haveWritten(CB & c, std::size_t n) { return c.haveWritten(n); }
VP_ENTRY std::size_t vp_e_CB_haveRead(CB & c, std::size_t n) { return c.haveRead(n); }
VP_ENTRY std::size_t vp_e_CB_haveWrittenRetUbe(CB & c, std::size_t n) { return c.haveWrittenRetUbe(n); }
VP_ENTRY std::size_t vp_e_CB_haveReadRetUbe(CB & c, std::size_t n) { return c.haveReadRetUbe(n); }
VP_ENTRY void vp_e_CB_haveWrittenNoRet(CB & c, std::size_t n) { c.haveWrittenNoRet(n); }
VP_ENTRY void vp_e_CB_haveReadNoRet(CB & c, std::size_t n) { c.haveReadNoRet(n); }
VP_ENTRY std::size_t vp_e_CB_spaceAvailable(CB & c) { return c.spaceAvailable(); }
VP_ENTRY std::size_t vp_e_CB_spaceAvailable1(CB & c, std::size_t & u) { return c.spaceAvailable(u); }
VP_ENTRY std::size_t vp_e_CB_spaceUbe(CB & c) { return c.spaceAvailableUntilBufferEnd(); }
VP_ENTRY std::size_t vp_e_CB_dataAvailable(CB & c) { return c.dataAvailable(); }
VP_ENTRY std::size_t vp_e_CB_dataAvailable1(CB & c, std::size_t & u) { return c.dataAvailable(u); }
VP_ENTRY std::size_t vp_e_CB_dataUbe(CB & c) { return c.dataAvailableUntilBufferEnd(); }
VP_ENTRY bool vp_e_CB_full(CB & c) { return c.full(); }
VP_ENTRY bool vp_e_CB_empty(CB & c) { return c.empty(); }
VP_ENTRY std::size_t vp_e_CB_bufferSize(CB & c) { return c.bufferSize(); }
VP_ENTRY T * vp_e_CB_arrayStart(CB & c) { return c.arrayStart(); }
VP_ENTRY std::size_t vp_e_CB_writeOffset(CB & c) { return c.writeOffset(); }
VP_ENTRY std::size_t vp_e_CB_readOffset(CB & c) { return c.readOffset(); }
VP_ENTRY void vp_e_CB_create(void * where, std::size_t n) { new (where) CB(n); }
#ifndef VP_CB_NOWAIT
VP_ENTRY std::size_t vp_e_CB_waitSpace(CB & c) { return c.waitSpaceAvailable(); }
VP_ENTRY std::size_t vp_e_CB_waitData(CB & c) { return c.waitDataAvailable(); }
VP_ENTRY std::size_t vp_e_CB_waitSpaceStop(CB & c, VpFun const & f) { return c.waitSpaceAvailable(f, std::chrono::milliseconds(5)); }
VP_ENTRY std::size_t vp_e_CB_waitDataStop(CB & c, VpFun const & f) { return c.waitDataAvailable(f, std::chrono::milliseconds(5)); }
#endif
