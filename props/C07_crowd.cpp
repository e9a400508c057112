// C07 with crowds: hundreds of producers or consumers blocked at once on a guarded ring.
#include "crowd_mq.hpp"
PBT_SUITE( some, "C07.crowd", 2500, 40000, "up to 1100 threads blocked in put or get of one ring at once, then let through one by one or in bursts: as many must complete, values come in order and once; non-trivial: at least 100 blocked at once" ) { crowdw::letThrough< crowdw::Ring >( c, false ); }
PBT_SUITE_L( huge, "C07.multitude", 4, 40, "as C07.crowd with 32768 to 131072 blocked threads", 120 ) { crowdw::letThrough< crowdw::Ring >( c, true ); }
PBT_SUITE( deepS, "C07.deep", 800, 10000, "rings of 61 to 131076 elements, filled until a call has to wait and emptied until one has to, in runs of any length; exactly the requested number must fit, in order; non-trivial: 250 or more, and a call had to wait" ) { crowdw::deep< crowdw::Ring >( c ); }
