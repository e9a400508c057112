// C20 under concurrency: no call allocates or frees, however it is interleaved, and destruction leaves nothing behind.
#include "sem.hpp"
#include "ring.hpp"
#include "pool.hpp"
#include "mq.hpp"

static void leftovers( const char * what )
{
    if ( ds::liveAllocs() ) ds::fail( "%s was destroyed and left %zu heap blocks behind", what, ds::liveAllocs() );
}

static void semaphores( pbt::Case & c )
{
    using namespace semw;
    World w( c );
    w.max = c.pick< size_t >( { 0, 1, 2, 3 } );
    w.init = w.max ? c.draw( w.max + 1 ) : c.draw( 4 );
    size_t threads = 1 + c.draw( 6 ), total = 0;
    for ( size_t t = 0; t != threads; ++t )
    {
        w.prog.emplace_back();
        while ( total < 24 && c.more( 5 ) )
        {
            static const int kinds[] = { Take, Take, TakeF, Give, Give, GiveF, Count };
            w.prog.back().emplace_back(); w.prog.back().back().kind = kinds[ c.draw( 7 ) ]; ++total;
        }
    }
    w.describeProgram();
    w.make();
    w.start();
    ds::waitQuiescent();
    bool waited = ds::stats().condWaits > 0, overlap = w.overlapped();
    w.mainExec( Abort );
    ds::waitQuiescent();
    w.describeHistory();
    for ( auto & r : w.history() )
        if ( r.outcome == Ok && r.heap ) ds::fail( "%s made %llu allocator calls", kindName( r.kind ), (unsigned long long)r.heap );
    c.nontrivial( overlap && waited ); c.label( "semaphore" );
    w.destroy();
    leftovers( "a semaphore" );
}

template< class T > static void rings( pbt::Case & c, const char * type )
{
    using namespace ringw;
    World< T > w( c );
    w.req = 1 + c.draw( c.chance( 1, 4 ) ? 40 : 4 );
    w.primed = c.chance( 1, 3 );
    size_t threads = 1 + c.draw( 5 ), total = 0;
    for ( size_t t = 0; t != threads; ++t )
    {
        w.prog.emplace_back();
        size_t bias = c.draw( 3 );
        while ( total < 30 && c.more( 7 ) ) { Rec o; o.kind = bias == 0 ? Put : bias == 1 ? Get : c.draw( 2 ) ? Get : Put; if ( o.kind == Put ) o.value = 1000 + w.next++; w.prog.back().push_back( o ); ++total; }
    }
    w.describeProgram( type );
    w.make();
    if ( w.primed ) w.main( Prime );
    w.start();
    ds::waitQuiescent();
    bool waited = ds::stats().condWaits > 0, overlap = w.overlapped();
    w.main( Abort );
    ds::waitQuiescent();
    w.main( Flush );
    w.describeHistory();
    for ( auto & o : w.history() )
    {
        // The harness keeps what passes through prime and flush.
        if ( o.outcome == Ok && o.heap ) ds::fail( "%s made %llu allocator calls", kindName( o.kind ), (unsigned long long)o.heap );
    }
    c.nontrivial( overlap && waited ); c.label( "ring" );
    w.destroy();
    leftovers( "a ring" );
}

template< class P > static void pools( pbt::Case & c, const char * type )
{
    using namespace poolw;
    World< P > w( c );
    w.program( type, 5, 24, true );
    for ( auto & p : w.prog ) for ( auto & o : p ) if ( o.kind == Create ) o.bomb = false;
    w.make();
    w.start();
    ds::waitQuiescent();
    for ( auto & hd : w.hands ) while ( !hd.empty() ) { w.passed.push_back( std::move( hd.back() ) ); hd.pop_back(); }
    bool overlap = w.overlapped();
    while ( w.inUse() ) w.main( Release );
    w.describeHistory();
    for ( auto & o : w.history() )
        if ( o.outcome == Ok && o.heap ) ds::fail( "%s made %llu allocator calls", o.kind == Create ? "a creation" : o.kind == Release ? "a release" : "reading statistics", (unsigned long long)o.heap );
    c.nontrivial( overlap ); c.label( "pool" );
    w.destroy();
    leftovers( "a pool" );
}

static void queues( pbt::Case & c )
{
    using namespace mqw;
    World w( c );
    w.generate( 5, 24, 0, false );
    if ( c.draw( 2 ) )
    {
        w.locking = true;
        Op o; o.kind = Hold; o.script = { Get, MoveTo + 64, Unlock + 16, Lock + 16 }; w.prog.emplace_back(); w.prog.back().push_back( o );
    }
    for ( auto & p : w.prog ) for ( auto & o : p ) if ( o.dispatcher() && c.chance( 1, 5 ) ) o.kind = c.draw( 2 ) ? Stat : Name;
    w.describeProgram();
    w.make();
    w.start();
    ds::waitQuiescent();
    bool waited = ds::stats().condWaits > 0, overlap = w.overlapped();
    if ( ds::allDone() && c.draw( 2 ) ) w.main( Purge );
    if ( c.draw( 2 ) ) w.main( Abort );
    ds::waitQuiescent();
    w.destroy();
    ds::waitQuiescent();
    w.describeHistory();
    w.each( [ & ]( const Op & o ) { if ( o.outcome == Ok && o.heap ) ds::fail( "%s made %llu allocator calls", kindName( o.kind ), (unsigned long long)o.heap ); } );
    c.nontrivial( overlap && waited ); c.label( "message queue" );
    leftovers( "a message queue" );
}

PBT_SUITE( sync, "C20.sync", 500000, 8000000, "semaphores, guarded rings, pools and message queues used by 1-6 threads with nothing that fails, then aborted and destroyed; every successful call is metered, and the heap is empty at the end; non-trivial: calls overlapped and (except for pools) one had to wait" )
{
    switch ( c.draw( 8 ) )
    {
        case 0: case 1: semaphores( c ); break;
        case 2: if ( c.draw( 2 ) ) rings< int >( c, "int" ); else rings< long double >( c, "long double" ); break;
        case 3: rings< ringw::Node * >( c, "Node *" ); break;
        case 4: pools< poolw::ObjectPool< poolw::Base > >( c, "ObjectPool<Base>" ); break;
        case 5: pools< poolw::BlockPool< int > >( c, "BlockPool<int>" ); break;
        default: queues( c ); break;
    }
}
