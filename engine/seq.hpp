// Support for sequential harnesses (real pthreads): sleeps return at once, allocator calls are counted.
#ifndef VERIF_SEQ_HPP
#define VERIF_SEQ_HPP

#include "pbt.hpp"

#include <cstddef>
#include <cstdint>

namespace seq
{
    uint64_t mallocs();         // allocator calls so far, by the whole process (0 when not measurable)
    uint64_t frees();
    size_t poisoned( const void * p, size_t n );    // offset+1 of the first inaccessible byte, 0 if none
    // The largest block allocated between arenaWatch() and arenaFound(), to tell which memory a pool calls its own.
    void watch( bool on );
    bool insideWatched( const void * p, size_t n );     // is [p,p+n) inside one block allocated while watching?
    void realSleep( bool on );
}

#endif
