// C23: construction succeeds completely or leaves nothing behind - when the heap fails at any point.
#include <cerrno>
#include <system_error>
#include "sem.hpp"
#include "ring.hpp"
#include "pool.hpp"
#include "mq.hpp"

namespace
{
    using namespace ReiserRT::Core;

    struct Built { virtual ~Built() = default; virtual void use( pbt::Case & c ) = 0; };
    struct Sem : Built
    {
        Semaphore s; size_t init, max;
        Sem( size_t i, size_t m ) : s{ i, m }, init{ i }, max{ m } {}
        void use( pbt::Case & ) override
        {
            if ( s.getAvailableCount() != init ) ds::fail( "a new semaphore has %zu permits, not %zu", s.getAvailableCount(), init );
            for ( size_t i = 0; i != init; ++i ) s.take();
            for ( size_t i = 0; i != ( max ? max : 3 ); ++i ) s.give();
        }
    };
    template< class T > struct Simple : Built
    {
        RingBufferSimple< T > r;
        explicit Simple( size_t n ) : r{ n } {}
        void use( pbt::Case & ) override
        {
            size_t n = r.getSize();
            for ( size_t i = 0; i != n; ++i ) r.put( T( i ) );
            try { r.put( T( 0 ) ); ds::fail( "a ring of %zu took one more", n ); } catch ( const RingBufferOverflow & ) {}
            for ( size_t i = 0; i != n; ++i ) if ( r.get() != T( i ) ) ds::fail( "a new ring does not keep its values" );
        }
    };
    template< class T > struct Guarded : Built
    {
        RingBufferGuarded< T > r; size_t n; bool primed;
        Guarded( size_t m, bool p ) : r{ m, p }, n{ m }, primed{ p } {}
        void use( pbt::Case & ) override
        {
            auto f = []( size_t i ) { return T( i ); };
            if ( primed ) { r.prime( std::ref( f ) ); for ( size_t i = 0; i != n; ++i ) if ( r.get() != T( i ) ) ds::fail( "a new ring does not keep its values" ); }
            for ( size_t i = 0; i != n; ++i ) r.put( T( i + 5 ) );
            for ( size_t i = 0; i != n; ++i ) if ( r.get() != T( i + 5 ) ) ds::fail( "a new ring does not keep its values" );
        }
    };
    struct Thing { long a{ 1 }, b{ 2 }; };
    template< class P, class F > void fillUp( P & p, size_t bytes, F create )
    {
        std::vector< decltype( create() ) > all;
        size_t n = p.getSize();
        { ds::Quiet q; all.reserve( n + 1 ); }
        for ( size_t i = 0; i != n; ++i ) { all.push_back( create() ); ds::checkLive( all.back().get(), bytes, "an element of a new pool" ); }
        try { create(); ds::fail( "a pool of %zu gave one more", n ); } catch ( const RingBufferUnderflow & ) {}
        { for ( auto & x : all ) x.reset(); }
        ds::Quiet q; std::vector< decltype( create() ) >().swap( all );
    }
    struct Objects : Built
    {
        ObjectPool< Thing > p; size_t min;
        Objects( size_t n, size_t m ) : p{ n, m }, min{ m } {}
        void use( pbt::Case & ) override { fillUp( p, std::max( min, sizeof( Thing ) ), [ this ] { return p.createObj< Thing >(); } ); }
    };
    struct Blocks : Built
    {
        BlockPool< int > p; size_t len;
        Blocks( size_t n, size_t l ) : p{ n, l }, len{ l } {}
        void use( pbt::Case & ) override { fillUp( p, len * sizeof( int ), [ this ] { return p.getBlock(); } ); }
    };
    struct Msg : MessageBase
    {
        int v; int * sum;
        Msg( int x, int * s ) : v{ x }, sum{ s } {}
        Msg( Msg && ) = default;
        void dispatch() override { *sum += v; }
    };
    struct Queue : Built
    {
        MessageQueue q; size_t n; bool locking;
        Queue( size_t m, size_t size, bool l ) : q{ m, size, l }, n{ m }, locking{ l } {}
        void use( pbt::Case & ) override
        {
            int sum = 0;
            for ( size_t i = 0; i != n; ++i ) q.emplace< Msg >( int( i ) + 1, &sum );
            if ( q.getRunningStateStatistics().runningCount != n ) ds::fail( "a new queue holds %zu messages but counts %u", n, q.getRunningStateStatistics().runningCount );
            for ( size_t i = 0; i != n; ++i ) q.getAndDispatch();
            if ( sum != int( n * ( n + 1 ) / 2 ) ) ds::fail( "a new queue does not deliver" );
            if ( locking ) { auto l = q.getAutoDispatchLock(); }
        }
    };
    struct Lock : Built
    {
        Mutex m;
        void use( pbt::Case & ) override { m.lock(); if ( m.native_handle() == nullptr ) ds::fail( "a new mutex has no handle" ); m.unlock(); if ( !m.try_lock() ) ds::fail( "a new mutex is not free" ); m.unlock(); }
    };
}

PBT_SUITE( faults, "C23.faults", 300000, 4000000, "1-3 components of any kind are built while the heap fails at a generated allocation of one of them, or the platform refuses a generated lock or condition variable; that constructor throws std::bad_alloc or std::system_error and everything it obtained is back, the others and a second attempt work to their full size, and in the end nothing is left; non-trivial: something failed within a constructor" )
{
    struct Plan { int kind; size_t a, b; bool flag; };
    std::vector< Plan > plans;
    size_t n = 1 + c.draw( 3 );
    static const char * names[] = { "Semaphore", "RingBufferSimple<int>", "RingBufferSimple<double>", "RingBufferGuarded<long>", "RingBufferGuarded<char>", "ObjectPool", "BlockPool", "MessageQueue", "Mutex" };
    for ( size_t i = 0; i != n; ++i )
    {
        Plan p; p.kind = int( c.draw( 11 ) ); if ( p.kind > 8 ) p.kind = 7;
        p.a = 1 + c.draw( 9 ); p.b = 1 + c.draw( 70 ); p.flag = c.draw( 2 );
        if ( p.kind == 0 ) { p.b = c.draw( 4 ) ? p.a + c.draw( 5 ) : 0; }
        if ( p.kind == 7 ) p.b += sizeof( Msg );
        plans.push_back( p );
    }
    size_t victim = c.draw( n );
    int64_t at = int64_t( c.draw( 9 ) );
    int err = c.draw( 4 ) ? 0 : int( c.pick( { EAGAIN, ENOMEM, EPERM, ENOTSUP } ) );
    if ( err ) at = int64_t( c.draw( 7 ) );
    for ( auto & p : plans ) c.describe( "%s(%zu, %zu, %d); ", names[ p.kind ], p.a, p.b, int( p.flag ) );
    c.describe( "%s %lld of number %zu fails", err ? "initialisation" : "allocation", (long long)at, victim );
    if ( err ) c.describe( " with %d", err );
    c.describe( "\n" );
    auto build = [ & ]( const Plan & p ) -> Built *
    {
        ds::Sut s;
        switch ( p.kind )
        {
            case 0: return new Sem( p.a, p.b );
            case 1: return new Simple< int >( p.a );
            case 2: return new Simple< double >( p.a );
            case 3: return new Guarded< long >( p.a, p.flag );
            case 4: return new Guarded< char >( p.a, p.flag );
            case 5: return new Objects( p.a, p.b );
            case 6: return new Blocks( p.a, p.b );
            case 7: return new Queue( p.a, p.b, p.flag );
            default: return new Lock;
        }
    };
    std::vector< Built * > built( n );
    auto locks = [] { size_t k = 0; for ( auto & m : ds::mutexesInitialised() ) k += m.live; return k; };
    for ( size_t i = 0; i != n; ++i )
    {
        size_t live = ds::liveAllocs(), held = locks(), conds = ds::condsLive();
        if ( i == victim ) { if ( err ) ds::failInit( at, err ); else ds::failAllocation( at ); }
        int how = 0, code = 0;        // built, bad_alloc, something else, system_error
        try { built[ i ] = build( plans[ i ] ); }
        catch ( const std::bad_alloc & ) { how = 1; }
        catch ( const std::system_error & e ) { how = 3; code = e.code().value(); }
        catch ( ... ) { how = 2; }
        bool failed = i == victim && ds::allocationFailed(), refused = i == victim && ds::initFailed();
        ds::failAllocation( -1 ); ds::failInit( -1, 0 );
        const char * what = names[ plans[ i ].kind ];
        if ( how == 2 ) ds::fail( "the constructor of %s threw something other than std::bad_alloc", what );
        if ( how == 1 && !failed ) ds::fail( "the constructor of %s threw std::bad_alloc although no allocation failed", what );
        if ( how == 3 && !refused ) ds::fail( "the constructor of %s threw std::system_error although nothing was refused", what );
        if ( refused && how != 3 ) ds::fail( "the platform refused a lock or condition variable with error %d and the constructor of %s %s", err, what, how ? "did not say so by std::system_error" : "did not mind" );
        if ( how == 3 && code != err ) ds::fail( "the platform refused a lock or condition variable with error %d and the constructor of %s reports %d", err, what, code );
        if ( how )
        {
            c.nontrivial(); c.label( what );
            if ( ds::liveAllocs() != live ) ds::fail( "the constructor of %s threw and left %zu heap blocks behind", what, ds::liveAllocs() - live );
            if ( locks() != held ) ds::fail( "the constructor of %s threw and left %zu locks behind", what, locks() - held );
            if ( ds::condsLive() != conds ) ds::fail( "the constructor of %s threw and left %zu condition variables behind", what, ds::condsLive() - conds );
            try { built[ i ] = build( plans[ i ] ); }
            catch ( ... ) { ds::fail( "after a failed construction of %s the next one failed too", what ); }
        }
    }
    for ( auto * b : built ) { ds::Sut s; b->use( c ); }
    for ( auto * b : built ) { ds::Sut s; delete b; }
    if ( ds::liveAllocs() ) ds::fail( "%zu heap blocks are left when everything is destroyed", ds::liveAllocs() );
    if ( ds::condsLive() ) ds::fail( "%zu condition variables are left when everything is destroyed", ds::condsLive() );
    if ( locks() ) ds::fail( "%zu locks are left when everything is destroyed", locks() );
}
