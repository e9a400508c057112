// Deterministic scheduling of real code: the code under test is compiled with -fsanitize=thread instrumentation, but the
// instrumentation and the pthread calls land in this runtime. Threads are fibers on one OS thread; every synchronisation
// operation, atomic operation and (in fine mode) plain memory access is a point at which the generated schedule may switch.
#ifndef VERIF_DS_HPP
#define VERIF_DS_HPP

#include "pbt.hpp"

#include <functional>
#include <string>
#include <vector>

namespace ds
{
    constexpr int MaxFibers = 12;

    // --- Set-up (main fiber, before spawning)
    void fine( bool on );               // also preempt at plain memory accesses
    void races( bool on );              // happens-before race detection
    void spurious( bool on );           // spurious wake-ups (on by default)
    int spawn( std::function< void() > f );

    // Runs the other threads until each of them is finished or blocked for good. Sleeping threads are let through as
    // virtual time advances only when nothing else can run.
    void waitQuiescent();
    bool done( int fiber );
    bool blocked( int fiber );
    bool allDone();
    std::string where( int fiber );     // what a blocked fiber is blocked in
    int self();                         // 0 is the main fiber
    uint64_t tick();                    // global event clock
    uint64_t steps();
    void patience( uint64_t n );        // after how many steps a case counts as a livelock (60000)
    uint64_t work( int fiber = -1 );    // what that fiber (-1: this one) has done in Sut mode: accesses, calls, synchronisation operations
    struct Stats { uint64_t condWaits{ 0 }, mutexWaits{ 0 }, switches{ 0 }; };
    Stats stats();

    [[noreturn]] void fail( const char * fmt, ... ) __attribute__(( format( printf, 1, 2 ) ));
    [[noreturn]] void discard();        // Ends the case as (trivially) passed.
    void point();                       // explicit scheduling point (also from quiet code)
    bool flip( unsigned num, unsigned den );    // schedule-side random choice, default false

    struct Sut { Sut(); ~Sut(); int saved; };           // traced, schedulable
    struct Quiet { Quiet(); ~Quiet(); int saved; };     // neither traced nor preempted

    // --- Memory
    bool inArena( const void * p );
    size_t liveAllocs();                // arena blocks alive
    uint64_t allocs();                  // allocations made in Sut mode so far
    uint64_t frees();
    uint64_t heapOps();                 // allocations and deallocations by this thread in Sut mode so far
    void checkLive( const void * p, size_t n, const char * what );    // fails unless all of [p,p+n) is live arena memory
    // The n-th next allocation (0 = next) in Sut mode fails: bad_alloc or a null pointer. -1: none.
    void failAllocation( int64_t n );
    bool allocationFailed();
    // The n-th next initialisation of a mutex or condition variable in Sut mode fails with error e. -1: none.
    void failInit( int64_t n, int e );
    bool initFailed();
    size_t condsLive();                 // condition variables initialised and not destroyed

    // --- Mutexes seen by pthread_mutex_init
    struct MutexInfo { const void * addr; int protocol; bool live; };      // live: to be destroyed still; a statically initialised one goes with its storage
    std::vector< MutexInfo > mutexesInitialised();
    int mutexOwner( const void * addr );        // -1 free, -2 unknown

    // --- Fault injection: the n-th next call (0 = next) of that kind by this fiber in Sut mode, on that mutex if one is
    // given, fails with error e and has no effect.
    enum FaultKind { FLock, FTryLock, FUnlock };
    void inject( FaultKind k, unsigned n, int e, const void * mutex = nullptr );
    size_t faultsLeft();                // of this fiber
    void clearFaults();                 // of this fiber
    // Calls seen (per kind) since the case began.
    uint64_t callCount( FaultKind k );
}

#endif
