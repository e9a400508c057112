// C03: functors run exactly once, exclusively, on the calling thread, all-or-nothing.
#include "sem.hpp"
using namespace semw;

static void body( pbt::Case & c, bool fine )
{
    World w( c );
    w.max = c.pick< size_t >( { 0, 0, 1, 2, 3 } );
    w.init = w.max ? c.draw( w.max + 1 ) : c.draw( 4 );
    size_t threads = 1 + c.draw( 5 ), total = 0;
    bool aborting = c.chance( 1, 4 );
    for ( size_t t = 0; t != threads; ++t )
    {
        w.prog.emplace_back();
        while ( total < 15 && c.more( 4 ) )
        {
            Rec r;
            static const int kinds[] = { TakeF, TakeThrow, TakeEmpty, GiveF, GiveThrow, GiveEmpty, TakeF, GiveF, Take, Give, Count };
            r.kind = kinds[ c.draw( 11 ) ];
            w.prog.back().push_back( r ); ++total;
        }
    }
    if ( fine ) ds::fine( true );
    w.describeProgram();
    w.make();
    w.start();
    ds::waitQuiescent();
    w.checkOutcomes();
    uint64_t fin = w.count();
    int64_t expect = int64_t( w.init ); int functors = 0, throws = 0;
    for ( auto & r : w.history() )
    {
        if ( r.res == lin::Pending )
        {
            if ( r.functorRuns ) ds::fail( "%s in thread %d is blocked although its functor ran", kindName( r.kind ), r.fiber );
            continue;
        }
        if ( r.outcome == Ok ) { if ( r.isTake() ) --expect; if ( r.isGive() ) ++expect; }
        if ( r.functorRuns ) ++functors;
        if ( r.outcome == Threw || r.outcome == BadCall ) ++throws;
    }
    if ( int64_t( fin ) != expect )
    { w.describeHistory(); ds::fail( "the count is %llu at rest but %lld if calls whose functor threw are as if never made", (unsigned long long)fin, (long long)expect ); }
    auto h = w.history();
    h.erase( std::remove_if( h.begin(), h.end(), []( const Rec & r ) { return r.res == lin::Pending; } ), h.end() );
    State st; st.count = int64_t( w.init ); st.max = int64_t( w.max );
    if ( !lin::check< State >( h, st, apply, [ & ]( const State & s, uint64_t ) { return s.count == int64_t( fin ); } ) )
    { w.describeHistory(); ds::fail( "no order of the calls explains their results: a call whose functor threw was not as if it had never been made" ); }
    // A fresh functor call must still work on an idle semaphore.
    if ( ds::allDone() && ( !w.max || fin < w.max ) )
    {
        w.mainExec( GiveF ); w.mainExec( TakeThrow ); w.mainExec( TakeF );
        w.checkOutcomes();
        if ( w.count() != fin ) ds::fail( "give(f), take(throwing f), take(f) changed the count from %llu to %llu", (unsigned long long)fin, (unsigned long long)w.count() );
    }
    c.nontrivial( functors >= 2 && ( throws >= 1 || w.overlapped() ) );
    if ( throws ) c.label( "functors threw" );
    if ( functors >= 2 && w.overlapped() ) c.label( "functor calls overlapped" );
    w.describeHistory();
    if ( aborting || !ds::allDone() )
    {
        w.mainExec( Abort );
        ds::waitQuiescent();
        if ( !ds::allDone() ) ds::fail( "threads stay blocked after abort" );
        for ( int k : { TakeF, GiveF, TakeThrow, GiveThrow } )
        {
            w.mainExec( k );
            auto & r = w.mainOps.back();
            if ( r.outcome != Aborted || r.functorRuns ) ds::fail( "%s after abort: %s, functor ran %d times", kindName( k ), outcomeName( r.outcome ), r.functorRuns );
        }
        w.checkOutcomes();
        c.label( "ended by abort" );
    }
    w.destroy();
}

PBT_SUITE( sync, "C03.sync", 1000000, 16000000, "1-5 threads run functor variants of give and take, many of them throwing or empty; each functor yields twice; non-trivial: at least two functors ran, and some threw or calls overlapped" ) { body( c, false ); }
PBT_SUITE( fineS, "C03.fine", 500000, 8000000, "as C03.sync, with pre-emption also between plain memory accesses" ) { body( c, true ); }
