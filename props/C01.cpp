// C01: permits are conserved and bounded under any interleaving (linearizability against a counter).
#include "sem.hpp"
using namespace semw;

// Whatever the number of calls: what each moment needs at least and allows at most.
static void judgeTotals( World & w, const std::vector< Rec > & h )
{
    // At a take's return: the permits that may have come so far; at a give's: those that may have gone.
    std::vector< std::pair< uint64_t, int > > e;        // 0: a give begins, 1: a take begins, 2: a take is over, 3: a give is over
    for ( auto & r : h ) if ( r.outcome == Ok && ( r.isTake() || r.isGive() ) ) { e.emplace_back( r.inv, r.isTake() ); e.emplace_back( r.res, r.isTake() ? 2 : 3 ); }
    std::sort( e.begin(), e.end() );
    int64_t most = int64_t( w.init ), least = most;
    std::vector< std::pair< uint64_t, std::pair< int64_t, int64_t > > > range;     // from then on: least and most
    for ( auto & x : e )
    {
        switch ( x.second ) { case 0: ++most; break; case 1: --least; break; case 2: --most; break; default: ++least; }
        if ( most < 0 ) { w.describeHistory(); ds::fail( "more permits were taken than there had been" ); }
        if ( w.max && least > int64_t( w.max ) ) { w.describeHistory(); ds::fail( "more permits were given than fit" ); }
        range.emplace_back( x.first, std::make_pair( least, most ) );
    }
    for ( auto & r : h ) if ( r.kind == Count )
    {
        // Some moment of the call must allow it.
        int64_t lo = int64_t( w.init ), hi = lo;
        auto it = std::lower_bound( range.begin(), range.end(), std::make_pair( r.inv, std::make_pair( INT64_MIN, INT64_MIN ) ) );
        if ( it != range.begin() ) { lo = std::prev( it )->second.first; hi = std::prev( it )->second.second; }
        for ( ; it != range.end() && it->first < r.res; ++it ) { lo = std::min( lo, it->second.first ); hi = std::max( hi, it->second.second ); }
        if ( int64_t( r.value ) < lo || int64_t( r.value ) > hi ) { w.describeHistory(); ds::fail( "getAvailableCount returned %llu when there were %lld to %lld", (unsigned long long)r.value, (long long)lo, (long long)hi ); }
    }
}

static void body( pbt::Case & c, bool fine, bool lng = false )
{
    World w( c );
    w.max = c.pick< size_t >( { 0, 0, 1, 1, 2, 3 } );
    w.init = w.max ? c.draw( w.max + 1 ) : c.draw( 4 );
    size_t threads = 2 + c.draw( c.thorough ? 5 : 4 );
    size_t total = 0, cap = lng ? 800 : c.thorough ? 22 : 15;
    bool swing = lng && c.chance( 3, 4 );
    unsigned avg = lng ? c.pick( { 30u, 120u, 300u } ) : 3;
    if ( lng )
    {
        ds::patience( 4000000 );
        if ( c.draw( 2 ) ) { w.init = c.draw( 60 ); if ( w.max ) w.max = w.init + 1 + c.draw( 60 ); }
    }
    for ( size_t t = 0; t != threads; ++t )
    {
        w.prog.emplace_back();
        int debt = 0;
        while ( total < cap && c.more( avg ) )
        {
            Rec r;
            static const int kinds[] = { Take, Take, TakeF, Give, Give, GiveF, Count, TakeThrow, GiveThrow };
            r.kind = kinds[ c.draw( 9 ) ];
            // Long programs mostly give back what they take.
            if ( lng && swing ) { if ( r.isTake() && debt > 3 ) r.kind = Give; if ( r.isGive() && debt < ( w.max ? 0 : -3 ) ) r.kind = Take; }
            if ( r.kind == Take || r.kind == TakeF ) ++debt;
            if ( r.kind == Give || r.kind == GiveF ) --debt;
            w.prog.back().push_back( r ); ++total;
        }
    }
    if ( fine ) ds::fine( true );
    w.describeProgram();
    w.make();
    if ( w.count() != w.init ) ds::fail( "a new semaphore holds %llu permits instead of %zu", (unsigned long long)w.count(), w.init );
    w.start();
    ds::waitQuiescent();
    bool stopped = !ds::allDone();
    if ( lng && c.chance( 3, 4 ) )      // help those blocked on, so that long programs get to their end
        for ( int k = 0; k != 1600 && !ds::allDone(); ++k )
        {
            bool taker = false;
            for ( auto & p : w.prog ) for ( auto & r : p ) if ( r.inv != lin::Pending && r.res == lin::Pending && r.isTake() ) taker = true;
            w.mainExec( taker ? Give : Take );
            ds::waitQuiescent();
        }
    w.checkOutcomes();
    uint64_t fin = w.count();
    int64_t expect = int64_t( w.init );
    for ( auto & r : w.history() )
        if ( r.outcome == Ok && r.res != lin::Pending )
        {
            if ( r.isTake() ) --expect;
            if ( r.isGive() ) ++expect;
            if ( r.kind == Count && w.max && r.value > w.max ) ds::fail( "getAvailableCount returned %llu with a maximum of %zu", (unsigned long long)r.value, w.max );
            if ( r.kind == Count && r.value > 1000 ) ds::fail( "getAvailableCount returned %llu", (unsigned long long)r.value );
        }
    if ( int64_t( fin ) != expect )
    {
        w.describeHistory();
        ds::fail( "the count is %llu at rest; initial count plus completed gives minus completed takes is %lld", (unsigned long long)fin, (long long)expect );
    }
    // Calls still pending have had no effect, so only completed calls are to be explained.
    for ( auto & p : w.prog ) for ( auto & r : p ) if ( r.inv != lin::Pending && r.res == lin::Pending )
    {
        if ( !w.max && r.isGive() ) { w.describeHistory(); ds::fail( "%s blocks although the semaphore is unbounded", kindName( r.kind ) ); }
        if ( r.kind == Count ) ds::fail( "getAvailableCount never returned" );
    }
    auto h = w.history();
    h.erase( std::remove_if( h.begin(), h.end(), []( const Rec & r ) { return r.res == lin::Pending; } ), h.end() );
    judgeTotals( w, h );
    State st; st.count = int64_t( w.init ); st.max = int64_t( w.max );
    if ( h.size() <= 60 && !lin::check< State >( h, st, apply, [ & ]( const State & s, uint64_t ) { return s.count == int64_t( fin ); } ) )
    {
        w.describeHistory();
        ds::fail( "no order of the completed calls explains their results (permit consumed that did not exist, or count beyond the maximum)" );
    }
    bool waited = ds::stats().condWaits > 0;
    if ( lng && stopped && ds::allDone() ) c.label( "helped to the end" );
    c.nontrivial( w.overlapped() && waited && ( !lng || h.size() >= 100 ) );
    if ( waited ) c.label( "a call had to wait" );
    if ( w.max ) c.label( "bounded" ); else c.label( "unbounded" );
    c.label( "threads " + std::to_string( threads ) );
    w.describeHistory();
    bool stuck = !ds::allDone();
    if ( stuck ) c.label( "calls blocked at rest" );
    if ( stuck ) { { ds::Sut sut; w.s->abort(); } ds::waitQuiescent(); if ( !ds::allDone() ) ds::fail( "threads stay blocked after abort" ); }
    w.destroy();
}

PBT_SUITE( sync, "C01.sync", 240000, 4000000, "threads run generated take/give/functor/count calls; the schedule is generated at synchronisation and atomic operations, waits may wake spuriously; non-trivial: calls of different threads overlapped and some call had to wait" ) { body( c, false ); }
PBT_SUITE( fineS, "C01.fine", 120000, 2000000, "as C01.sync, with pre-emption also between plain memory accesses" ) { body( c, true ); }
PBT_SUITE( longS, "C01.long", 16000, 250000, "as C01.sync with up to 800 calls and counts of up to about 100, threads stopped in the middle of calls for long; judged by what every moment needs and allows; non-trivial: as C01.sync, and 100 or more calls returned" ) { body( c, false, true ); }
PBT_SUITE( longF, "C01.longfine", 8000, 120000, "as C01.long, with pre-emption also between plain memory accesses" ) { body( c, true, true ); }
