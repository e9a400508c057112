// C13: pool statistics tell the truth.
#include "pool.hpp"
using namespace poolw;

template< class P > static void concurrent( pbt::Case & c, const char * type, bool fine, bool lng = false )
{
    World< P > w( c );
    if ( fine ) ds::fine( true );
    if ( lng ) ds::patience( 4000000 );
    if ( lng ) w.program( type, 4, 300, true, c.pick( { 30u, 120u } ) ); else w.program( type, 5, c.thorough ? 30 : 24, true );
    w.make();
    size_t pre = c.draw( w.cap + 1 );
    for ( size_t i = 0; i != pre; ++i ) w.main( Create, unsigned( i ) );
    if ( pre ) { size_t k = c.draw( pre + 1 ); for ( size_t i = 0; i != k; ++i ) w.main( Pass ); }
    w.start();
    ds::waitQuiescent();
    if ( !ds::allDone() ) ds::fail( "a thread does not come back from a pool that nobody uses" );
    w.main( Stat );
    auto h = w.history();
    std::sort( h.begin(), h.end(), []( const Rec & a, const Rec & b ) { return a.inv < b.inv; } );
    w.judgeRefusals();
    auto s = steps( h );
    std::vector< const Rec * > snaps;
    for ( auto & o : h ) if ( o.kind == Stat ) snaps.push_back( &o );
    // Use of the pool at a moment: certainly at least, possibly at most.
    auto bounds = [ & ]( uint64_t until, size_t & certain, size_t & possible )
    {
        certain = possible = 0;
        std::vector< uint64_t > times{ until };
        for ( auto & x : s ) { if ( x.inv <= until ) times.push_back( x.inv ); if ( x.res <= until ) times.push_back( x.res ); }
        for ( auto t : times )
        {
            long sure = 0, maybe = 0;
            for ( auto & x : s )
            {
                if ( x.what == 0 ) { sure += x.res <= t; maybe += x.inv <= t; }
                if ( x.what == 1 ) { sure -= x.inv <= t; maybe -= x.res <= t; }
            }
            certain = std::max( certain, size_t( std::max( 0l, sure ) ) );
            possible = std::max( possible, size_t( std::max( 0l, maybe ) ) );
        }
        possible = std::min( possible, w.cap );
    };
    bool during = false;
    for ( auto a : snaps )
    {
        auto bad = [ & ]( const char * why ) { w.describeHistory(); ds::fail( "pool of %zu, snapshot with size %zu, running count %u, low watermark %u: %s", w.cap, a->st.size, a->st.runningCount, a->st.lowWatermark, why ); };
        if ( a->st.size != w.cap ) bad( "wrong size" );
        if ( a->st.runningCount > w.cap ) bad( "the running count exceeds the size" );
        if ( a->st.lowWatermark > w.cap ) bad( "the low watermark exceeds the size" );
        for ( auto b : snaps ) if ( a->res < b->inv && b->st.lowWatermark > a->st.lowWatermark ) bad( "the watermark rose afterwards" );
        size_t certain, possible, dummy;
        bounds( a->inv, certain, dummy );
        bounds( a->res, dummy, possible );
        if ( a->st.lowWatermark > w.cap - certain ) bad( "the watermark is above a count certainly reached" );
        if ( a->st.lowWatermark < w.cap - possible ) bad( "the watermark is below the least count possible" );
        for ( auto & o : h ) if ( o.kind != Stat && o.fiber != a->fiber && o.inv < a->res && a->inv < o.res ) during = true;
    }
    const Rec * last = snaps.back();
    if ( last->st.runningCount != w.cap - w.inUse() )
    { w.describeHistory(); ds::fail( "pool of %zu with %zu in use and no call in progress: the running count is %u", w.cap, w.inUse(), last->st.runningCount ); }
    c.nontrivial( during && w.overlapped() );
    if ( during ) c.label( "snapshot during other calls" );
    for ( auto a : snaps ) if ( a->st.lowWatermark == 0 ) { c.label( "watermark at zero" ); break; }
    w.describeHistory();
    for ( auto & hd : w.hands ) while ( !hd.empty() ) { w.passed.push_back( std::move( hd.back() ) ); hd.pop_back(); }
    while ( w.inUse() ) w.main( Release );
    if ( w.main( Stat ).st.runningCount != w.cap ) ds::fail( "everything is released, but the running count is not the size" );
    w.destroy();
}

template< class P > static void history( pbt::Case & c, const char * type )
{
    World< P > w( c );
    w.req = c.draw( 4 ) ? c.draw( 6 ) : c.draw( 70 ); w.cap = capacityFor( w.req ); w.len = 1 + c.draw( 4 );
    w.hands.emplace_back();
    w.make();
    c.describe( "%s(%zu):", type, w.req );
    size_t low = w.cap, n = 0, full = 0, threw = 0; bool rose = false;
    auto judge = [ & ]
    {
        auto & st = w.main( Stat ).st;
        if ( st.size != w.cap || st.runningCount != w.cap - w.inUse() || st.lowWatermark != low )
            ds::fail( "pool of %zu with %zu in use, at most %zu so far: statistics say size %zu, running count %u, low watermark %u", w.cap, w.inUse(), w.cap - low, st.size, st.runningCount, st.lowWatermark );
    };
    judge();
    while ( n < 40 && c.more( 20 ) )
    {
        ++n;
        if ( c.draw( 5 ) < 3 || !w.inUse() )
        {
            w.mainOps.emplace_back();
            auto & o = w.mainOps.back(); o.kind = Create; o.which = unsigned( c.draw( 3 ) ); o.bomb = c.chance( 1, 6 );
            bool hadRoom = w.inUse() < w.cap;
            size_t before = w.inUse();
            w.exec( o );
            if ( hadRoom ) low = std::min( low, w.cap - before - 1 );
            full += o.outcome == Full; threw += o.outcome == Threw;
            c.describe( " create%s", o.outcome == Ok ? "" : o.outcome == Full ? "(full)" : "(threw)" );
        }
        else
        {
            w.main( Release, unsigned( c.draw( w.inUse() ) ) );
            c.describe( " release" );
            if ( w.cap - w.inUse() > low ) rose = true;
        }
        judge();
        if ( c.chance( 1, 6 ) ) judge();
    }
    c.nontrivial( n >= 3 && rose );
    if ( full ) c.label( "exhaustion met" );
    if ( threw ) c.label( "constructor threw" );
    if ( low == 0 ) c.label( "watermark at zero" );
    while ( w.inUse() ) { w.main( Release ); judge(); }
    w.destroy();
}

#define ANY( f, ... ) switch ( c.draw( 4 ) ) { \
    case 0: f< ObjectPool< Base > >( c, "ObjectPool<Base>", ##__VA_ARGS__ ); break; \
    case 1: f< ObjectPool< Tiny > >( c, "ObjectPool<Tiny>", ##__VA_ARGS__ ); break; \
    case 2: f< BlockPool< int > >( c, "BlockPool<int>", ##__VA_ARGS__ ); break; \
    default: f< BlockPool< Elem > >( c, "BlockPool<Elem>", ##__VA_ARGS__ ); break; }

PBT_SUITE( hist, "C13.history", 250000, 4000000, "single-threaded histories of creation (also refused or thrown out of) and release on pools of 2-128 slots, statistics compared after every step; non-trivial: three or more steps and the free count was above the watermark" ) { ANY( history ) }
PBT_SUITE( sync, "C13.sync", 500000, 8000000, "1-5 threads creating, releasing and taking snapshots on pools of 2-4 slots; non-trivial: calls overlapped and a snapshot overlapped one of another kind" ) { ANY( concurrent, false ) }
PBT_SUITE( fineS, "C13.fine", 300000, 5000000, "as C13.sync, with pre-emption also between plain memory accesses" ) { ANY( concurrent, true ) }
PBT_SUITE( longS, "C13.long", 2500, 50000, "as C13.sync with up to 300 calls of up to four threads, on pools of up to 64 slots, threads stopped in the middle of calls for long" ) { ANY( concurrent, false, true ) }
