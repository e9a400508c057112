// C02: at rest no thread is blocked in take while permits are available, nor in give while there is room.
#include "sem.hpp"
using namespace semw;

static void judge( World & w, const char * when )
{
    uint64_t n = w.count();
    for ( auto & p : w.prog ) for ( auto & r : p )
    {
        if ( r.inv == lin::Pending || r.res != lin::Pending ) continue;
        if ( r.isTake() && n > 0 )
        { w.describeHistory(); ds::fail( "%s: thread %d is stranded in %s while %llu permits are available", when, r.fiber, kindName( r.kind ), (unsigned long long)n ); }
        if ( r.isGive() && ( !w.max || n < w.max ) )
        { w.describeHistory(); ds::fail( "%s: thread %d is stranded in %s although the count is %llu and the maximum is %zu", when, r.fiber, kindName( r.kind ), (unsigned long long)n, w.max ); }
        if ( r.kind == Count ) ds::fail( "getAvailableCount never returned" );
    }
}

static void body( pbt::Case & c, bool fine, bool lng = false )
{
    World w( c );
    bool many = c.chance( 1, 6 );
    w.max = c.pick< size_t >( { 0, 0, 1, 1, 2, 3 } );
    w.init = w.max ? c.draw( w.max + 1 ) : c.draw( 3 );
    size_t threads = many ? 6 + c.draw( 5 ) : 2 + c.draw( 5 );
    if ( lng ) { many = false; ds::patience( 4000000 ); if ( c.draw( 2 ) ) { w.init = c.draw( 60 ); if ( w.max ) w.max = w.init + 1 + c.draw( 60 ); } }
    // Most threads are of one sort: takers, givers or throwers of either sort.
    for ( size_t t = 0; t != threads; ++t )
    {
        w.prog.emplace_back();
        size_t sort = c.draw( 4 );
        do
        {
            Rec r;
            static const int sorts[ 4 ][ 6 ] = { { Take, Take, TakeF, Take, TakeThrow, Give }, { Give, Give, GiveF, Give, GiveThrow, Take },
                                                 { TakeThrow, TakeThrow, TakeEmpty, Take, GiveF, Give }, { GiveThrow, GiveThrow, GiveEmpty, Give, Take, TakeF } };
            r.kind = sorts[ sort ][ c.draw( 6 ) ];
            w.prog.back().push_back( r );
        } while ( !many && w.prog.back().size() < ( lng ? 200 : 5 ) && c.more( lng ? 60 : 2 ) );
    }
    std::vector< int > rounds;
    while ( rounds.size() < ( lng ? 400 : 6 ) && c.more( lng ? 150 : 2 ) ) rounds.push_back( int( c.draw( 3 ) ) );
    if ( fine ) ds::fine( true );
    w.describeProgram();
    w.make();
    w.start();
    ds::waitQuiescent();
    judge( w, "at rest" );
    int throws = 0;
    for ( auto & r : w.history() ) if ( r.outcome == Threw || r.outcome == BadCall ) ++throws;
    bool waited = ds::stats().condWaits > 0;
    // Now one permit or one piece of room at a time: each has to reach a waiter.
    int used = 0;
    for ( int k : rounds )
    {
        uint64_t n = w.count();
        bool takersBlocked = false, giversBlocked = false;
        for ( auto & r : w.history() ) if ( r.res == lin::Pending ) ( r.isTake() ? takersBlocked : giversBlocked ) = true;
        if ( ( k == 0 || k == 2 ) && takersBlocked && ( !w.max || n < w.max ) ) { w.mainExec( Give ); ++used; }
        else if ( giversBlocked && n > 0 ) { w.mainExec( Take ); ++used; }
        else continue;
        ds::waitQuiescent();
        judge( w, "after one more call" );
    }
    w.checkOutcomes();
    c.nontrivial( waited && w.overlapped() && ( !lng || w.history().size() >= 60 ) );
    if ( throws ) c.label( "functors threw" );
    if ( throws && waited ) c.label( "functors threw and calls waited" );
    if ( used ) c.label( "waiters let through one at a time" );
    c.label( many ? "many threads" : "few threads" );
    w.describeHistory();
    if ( !ds::allDone() ) { { ds::Sut sut; w.s->abort(); } ds::waitQuiescent(); }
    if ( !ds::allDone() ) ds::fail( "threads stay blocked after abort" );
    w.destroy();
}

PBT_SUITE( sync, "C02.sync", 1200000, 20000000, "2-10 threads of takers, givers and callers whose functors throw, run until nothing can move, then single permits or single pieces of room are added; non-trivial: calls overlapped and some call had to wait" ) { body( c, false ); }
PBT_SUITE( fineS, "C02.fine", 500000, 8000000, "as C02.sync, with pre-emption also between plain memory accesses" ) { body( c, true ); }
PBT_SUITE( longS, "C02.long", 10000, 160000, "as C02.sync with up to 200 calls of each thread, threads stopped in the middle of calls for long, and up to 400 permits or pieces of room added one by one; non-trivial: as C02.sync, and 60 or more calls" ) { body( c, false, true ); }
PBT_SUITE( longF, "C02.longfine", 5000, 80000, "as C02.long, with pre-emption also between plain memory accesses" ) { body( c, true, true ); }
