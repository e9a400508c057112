// C14 with crowds and great depths: each message once, in order.
#include "crowd_mq.hpp"
PBT_SUITE( deepS, "C14.deep", 300, 4000, "queues of 61 to 131076 elements, filled until a call has to wait and emptied until one has to, in runs of any length; exactly the requested number must fit, in order; non-trivial: 250 or more, and a call had to wait" ) { crowdw::deep< crowdw::Queue >( c ); }
PBT_SUITE( some, "C14.crowd", 1500, 20000, "up to 1100 threads blocked in put, emplace or getAndDispatch of one queue at once, then let through: each message is dispatched once and in order; non-trivial: at least 100 blocked at once" ) { crowdw::letThrough< crowdw::Queue >( c, false ); }
