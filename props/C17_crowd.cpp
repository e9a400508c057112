// C17 with crowds: an abort or the destruction of a queue ends every blocked call, however many there are.
#include "crowd_mq.hpp"
PBT_SUITE( some, "C17.crowd", 2500, 40000, "up to 1100 threads blocked in put, emplace or getAndDispatch of one queue at once, some let through, then aborted or destroyed: every one must end with a std::runtime_error; non-trivial: at least 100 blocked at once" ) { crowdw::abortAll< crowdw::Queue >( c, false, true ); }
