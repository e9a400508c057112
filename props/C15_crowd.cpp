// C15 with crowds: hundreds of producers or dispatchers blocked at once on a message queue.
#include "crowd_mq.hpp"
PBT_SUITE( some, "C15.crowd", 2500, 40000, "up to 1100 threads blocked in put, emplace or getAndDispatch of one queue at once, then let through one by one or in bursts: as many must complete, messages come in order and once; non-trivial: at least 100 blocked at once" ) { crowdw::letThrough< crowdw::Queue >( c, false ); }
PBT_SUITE_L( huge, "C15.multitude", 4, 40, "as C15.crowd with 32768 to 131072 blocked threads", 120 ) { crowdw::letThrough< crowdw::Queue >( c, true ); }
PBT_SUITE( deepS, "C15.deep", 300, 4000, "queues of 61 to 131076 elements, filled until a call has to wait and emptied until one has to, in runs of any length; exactly the requested number must fit, in order; non-trivial: 250 or more, and a call had to wait" ) { crowdw::deep< crowdw::Queue >( c ); }
