#include "vp.h"
#include <sharemind/TicketSpinLock.h>
#include <sharemind/MpscWaitFreeSemiIntrusiveQueue.h>
using namespace sharemind;
using L = TicketSpinLock;
VP_ENTRY void vp_e_TSL_ctor(L * out) { new (out) L(); }
VP_ENTRY void vp_e_TSL_lock(L & l) { l.lock(); }
VP_ENTRY void vp_e_TSL_unlock(L & l) { l.unlock(); }
using Q = MpscWaitFreeSemiIntrusiveQueue<VpObj>;
VP_ENTRY void vp_e_Q_ctor(Q * out) { ::new (out) Q(); }
VP_ENTRY void vp_e_Q_dtor(Q & q) { q.~Q(); }
VP_ENTRY void vp_e_Q_push(Q & q, Q::Node * n) { q.push(std::unique_ptr<Q::Node>(n)); }
VP_ENTRY Q::Node * vp_e_Q_pop(Q & q) { return q.pop().release(); }
VP_ENTRY bool vp_e_Q_empty(Q & q) { return q.empty(); }
