// C08 with crowds: an abort ends every blocked put and get, however many there are.
#include "crowd_mq.hpp"
PBT_SUITE( some, "C08.crowd", 2500, 40000, "up to 1100 threads blocked in put or get of one ring at once, some let through, then aborted: every one must fail; non-trivial: at least 100 blocked at once" ) { crowdw::abortAll< crowdw::Ring >( c, false, false ); }
