// C07: RingBufferGuarded is a linearizable blocking FIFO of the requested capacity.
#include "ring.hpp"
#include <map>
using namespace ringw;

// Whatever the number of calls: every value got was put, is got once, and none overtakes one put before it.
template< class W, class H > static void judgePairs( W & w, const H & h )
{
    std::map< uint64_t, lin::Through > m;
    auto put = [ & ]( uint64_t x, const Rec & o ) { auto & v = m[ x ]; v.id = x; v.pInv = o.inv; v.pRes = o.res; };
    w.each( [ & ]( const Rec & o ) { if ( o.kind == Put ) put( o.value, o ); for ( auto x : o.values ) put( x, o ); } );      // what never returned may have gone in as well
    for ( auto & o : h ) if ( o.kind == Get )
    {
        auto it = m.find( o.value );
        if ( it == m.end() ) { w.describeHistory(); ds::fail( "a value came out that was never put" ); }
        auto & v = it->second;
        if ( v.gInv != lin::Pending ) { w.describeHistory(); ds::fail( "a value came out twice" ); }
        v.gInv = o.inv; v.gRes = o.res;
    }
    std::vector< lin::Through > t;
    for ( auto & x : m ) t.push_back( x.second );
    if ( auto bad = lin::fifoPairs( t, w.req ) ) { w.describeHistory(); ds::fail( "%s", bad ); }
}

template< class T > static void body( pbt::Case & c, const char * type, bool fine, bool lng )
{
    World< T > w( c );
    w.req = 1 + c.draw( c.chance( 1, 4 ) ? 9 : 4 );
    w.primed = c.chance( 1, 4 );
    size_t threads = ( lng ? 2 : 1 ) + c.draw( lng ? 4 : 5 ), total = 0, cap = lng ? 800 : c.thorough ? 24 : 18;
    unsigned avg = lng ? c.pick( { 30u, 120u, 300u } ) : 5;
    if ( lng ) ds::patience( 4000000 );
    if ( lng && c.chance( 1, 4 ) ) w.req = 1 + c.draw( 70 );
    for ( size_t t = 0; t != threads; ++t )
    {
        w.prog.emplace_back();
        size_t bias = c.draw( 3 );
        while ( total < cap && c.more( avg ) )
        {
            Rec o;
            o.kind = bias == 0 ? Put : bias == 1 ? Get : c.draw( 2 ) ? Get : Put;
            if ( bias < 2 && c.chance( 1, 6 ) ) o.kind = o.kind == Put ? Get : Put;
            w.prog.back().push_back( o ); ++total;
        }
    }
    uint64_t pre = w.primed ? 0 : c.draw( w.req + 1 );
    if ( fine ) ds::fine( true );
    for ( auto & p : w.prog ) for ( auto & o : p ) if ( o.kind == Put ) o.value = 1000 + w.next++;
    w.describeProgram( type );
    w.make();
    if ( w.primed ) w.main( Prime );
    for ( uint64_t i = 0; i != pre; ++i ) w.main( Put, 100000 + i );
    if ( pre || w.primed ) ds::tick();
    w.start();
    ds::waitQuiescent();
    auto judge = [ & ]( const char * when )
    {
        int64_t held = 0;
        w.each( [ & ]( const Rec & o )
        {
            if ( o.outcome == None ) return;
            if ( o.outcome != Ok ) { w.describeHistory(); ds::fail( "%s ended with %s", kindName( o.kind ), outcomeName( o.outcome ) ); }
            held += o.kind == Put ? 1 : o.kind == Get ? -1 : int64_t( o.values.size() );
        } );
        w.each( [ & ]( const Rec & o )
        {
            if ( o.outcome != None ) return;
            if ( o.kind == Put && held < int64_t( w.req ) )
            { w.describeHistory(); ds::fail( "%s: thread %d is blocked in put although %lld of %zu values are held", when, o.fiber, (long long)held, w.req ); }
            if ( o.kind == Get && held > 0 )
            { w.describeHistory(); ds::fail( "%s: thread %d is blocked in get although %lld values are held", when, o.fiber, (long long)held ); }
        } );
        if ( held > int64_t( w.req ) ) { w.describeHistory(); ds::fail( "%s: %lld values are held, requested capacity %zu", when, (long long)held, w.req ); }
        if ( held < 0 ) { w.describeHistory(); ds::fail( "%s: more values came out than went in", when ); }
        return held;
    };
    int64_t held = judge( "at rest" );
    bool blocked = !ds::allDone();
    int64_t firstHeld = held;
    // Let those blocked proceed one value at a time.
    for ( int k = 0; k != ( lng ? 2000 : 30 ) && !ds::allDone(); ++k )
    {
        bool putters = false;
        w.each( [ & ]( const Rec & o ) { if ( o.outcome == None && o.kind == Put ) putters = true; } );
        if ( putters ) w.main( Get ); else w.main( Put, 200000 + uint64_t( k ) );
        ds::waitQuiescent();
        if ( !lng || k % 16 == 0 ) held = judge( "after one more call" );
    }
    held = judge( "after more calls" );
    if ( ds::allDone() )
    {
        // Exactly what is held comes out, then the ring takes its full capacity again.
        while ( held > 0 ) { w.main( Get ); --held; }
        if ( c.chance( 1, 4 ) )
        {
            for ( size_t i = 0; i != w.req; ++i ) w.main( Put, 300000 + i );
            for ( size_t i = 0; i != w.req; ++i ) w.main( Get );
        }
        judge( "at the end" );
    }
    auto h = w.history();
    h.erase( std::remove_if( h.begin(), h.end(), []( const Rec & o ) { return o.res == lin::Pending; } ), h.end() );
    State st; st.cap = w.req; st.st = w.primed ? 0 : 1;
    judgePairs( w, h );
    if ( h.size() <= 64 )
    {
        if ( !lin::check< State >( h, st, apply, [ & ]( const State &, uint64_t ) { return true; } ) )
        { w.describeHistory(); ds::fail( "no order of the calls is that of one FIFO queue of capacity %zu (a value lost, duplicated, invented or overtaken)", w.req ); }
    }
    c.nontrivial( w.overlapped() && ds::stats().condWaits > 0 && ( !lng || h.size() >= 100 ) );
    if ( blocked ) c.label( "calls blocked at rest" );
    if ( firstHeld == int64_t( w.req ) ) c.label( "full at rest" );
    if ( w.primed ) c.label( "primed" );
    c.label( "requested capacity " + std::to_string( w.req ) );
    w.describeHistory();
    if ( !ds::allDone() ) { w.main( Abort ); ds::waitQuiescent(); }
    if ( !ds::allDone() ) ds::fail( "threads stay blocked after abort" );
    w.destroy();
}

static void typed( pbt::Case & c, bool fine, bool lng = false )
{
    switch ( c.draw( 6 ) )
    {
        case 0: body< uint32_t >( c, "uint32_t", fine, lng ); break;
        case 1: body< void * >( c, "void *", fine, lng ); break;
        case 2: body< Node * >( c, "Node *", fine, lng ); break;
        case 3: body< const Node * >( c, "const Node *", fine, lng ); break;
        case 4: body< double >( c, "double", fine, lng ); break;
        default: body< long double >( c, "long double", fine, lng ); break;
    }
}

PBT_SUITE( sync, "C07.sync", 600000, 10000000, "1-5 producer and consumer threads on rings of 1-10 requested elements (often not a power of two), plain or primed, of six element types; then the blocked calls are let through one at a time and the rest is drained; non-trivial: calls overlapped and some call had to wait" ) { typed( c, false ); }
PBT_SUITE( fineS, "C07.fine", 300000, 5000000, "as C07.sync, with pre-emption also between plain memory accesses" ) { typed( c, true ); }
PBT_SUITE( longS, "C07.long", 12000, 200000, "as C07.sync with up to 800 calls of 2-5 threads, on rings of up to 70 elements, threads stopped in the middle of calls for long; judged pair by pair; non-trivial: as C07.sync, and 100 or more calls returned" ) { typed( c, false, true ); }
PBT_SUITE( longF, "C07.longfine", 6000, 100000, "as C07.long, with pre-emption also between plain memory accesses" ) { typed( c, true, true ); }
