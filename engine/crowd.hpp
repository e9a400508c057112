// Crowds: very many threads in one case. Threads are fibers on one OS thread that run until they have to wait: calls of
// pthread_cond_*, pthread_mutex_* and the sleeping functions land here. No pre-emption otherwise (that is ds.hpp's part);
// what is generated is who is woken and who runs first, by policy.
#ifndef VERIF_CROWD_HPP
#define VERIF_CROWD_HPP

#include "pbt.hpp"

#include <functional>
#include <string>

namespace crowd
{
    // Begins a case with room for that many threads. The case draws how waiters are chosen.
    void begin( pbt::Case & c, size_t maxThreads );
    int spawn( std::function< void() > f );
    void settle();                          // runs all threads until each of them has ended or is blocked for good
    bool done( int t );
    size_t alive();                         // threads which have not ended
    size_t threads();
    const char * where( int t );            // what a thread is blocked in
    // Runs f as one more thread, until nothing moves. False: it is blocked.
    bool call( std::function< void() > f );
    void end();                             // forgets all threads, ended or not
}

#endif
