// C12: pools hand each slot to one owner at a time under concurrency.
#include "pool.hpp"
using namespace poolw;

template< class P > static void body( pbt::Case & c, const char * type, bool fine, bool lng )
{
    World< P > w( c );
    if ( fine ) ds::fine( true );
    if ( lng ) ds::patience( 4000000 );
    if ( lng ) w.program( type, 4, 800, false, c.pick( { 30u, 120u, 300u } ) ); else w.program( type, 5, c.thorough ? 26 : 20, false );
    w.make();
    size_t pre = c.draw( w.cap + 1 );
    for ( size_t i = 0; i != pre; ++i ) w.main( Create, unsigned( i ) );
    // Some of what the main thread made is left for the others to release.
    if ( pre ) { size_t k = c.draw( pre + 1 ); for ( size_t i = 0; i != k; ++i ) w.main( Pass ); }
    w.start();
    ds::waitQuiescent();
    if ( !ds::allDone() ) { w.describeHistory(); ds::fail( "a thread does not come back from a pool that nobody uses" ); }
    auto h = w.history();
    size_t full = 0, passedRelease = 0, threw = 0;
    for ( auto & o : h )
    {
        if ( o.outcome == Other ) { w.describeHistory(); ds::fail( "a creation ended with an exception of another kind" ); }
        if ( o.outcome == Threw && !o.bomb ) { w.describeHistory(); ds::fail( "a creation ended with an exception that is not its own" ); }
        full += o.outcome == Full; threw += o.outcome == Threw; passedRelease += o.kind == Release;
    }
    w.judgeRefusals();
    auto s = steps( h );
    Use u; u.cap = w.cap;
    if ( s.size() <= 64 && !lin::check< Use >( s, u, apply, []( const Use &, uint64_t ) { return true; } ) )
    { w.describeHistory(); ds::fail( "pool of %zu: a creation was refused although a slot was free throughout, or more than that many were in use", w.cap ); }
    c.nontrivial( w.overlapped() && h.size() >= ( lng ? 100 : 3 ) );
    if ( full ) c.label( "exhaustion met" );
    if ( threw ) c.label( "constructor threw" );
    w.describeHistory();
    // At rest exactly the rest of the capacity can be had, and all of it when everything is back.
    size_t use = w.inUse();
    for ( size_t i = use; i != w.cap; ++i ) if ( w.main( Create ).outcome != Ok ) ds::fail( "at rest a slot is lost: only %zu of %zu can be in use", i, w.cap );
    if ( w.main( Create ).outcome != Full ) ds::fail( "at rest more than %zu slots can be in use", w.cap );
    while ( w.inUse() )
    {
        for ( auto & hd : w.hands ) while ( !hd.empty() ) { w.passed.push_back( std::move( hd.back() ) ); hd.pop_back(); }
        w.main( Release, unsigned( c.draw( w.passed.size() ) ) );
    }
    for ( size_t i = 0; i != w.cap; ++i ) if ( w.main( Create ).outcome != Ok ) ds::fail( "everything was released, but only %zu of %zu slots can be had", i, w.cap );
    if ( w.main( Create ).outcome != Full ) ds::fail( "everything was released, but more than %zu slots can be had", w.cap );
    while ( w.inUse() ) w.main( Release );
    if ( !w.g.live.empty() || Elem::built() ) ds::fail( "objects are alive though all were released" );
    w.destroy();
}

static void any( pbt::Case & c, bool fine, bool lng = false )
{
    switch ( c.draw( 4 ) )
    {
        case 0: body< ObjectPool< Base > >( c, "ObjectPool<Base>", fine, lng ); break;
        case 1: body< ObjectPool< Tiny > >( c, "ObjectPool<Tiny>", fine, lng ); break;
        case 2: body< BlockPool< int > >( c, "BlockPool<int>", fine, lng ); break;
        default: body< BlockPool< Elem > >( c, "BlockPool<Elem>", fine, lng ); break;
    }
}
PBT_SUITE( sync, "C12.sync", 500000, 8000000, "1-5 threads creating, releasing and passing on objects or blocks of one pool of 2-4 slots, some constructors throwing; non-trivial: calls overlapped" ) { any( c, false ); }
PBT_SUITE( fineS, "C12.fine", 400000, 6000000, "as C12.sync, with pre-emption also between plain memory accesses" ) { any( c, true ); }
PBT_SUITE( longS, "C12.long", 12000, 200000, "as C12.sync with up to 800 calls of up to four threads, on pools of up to 64 slots, threads stopped in the middle of calls for long; non-trivial: calls overlapped, and there were 100 or more" ) { any( c, false, true ); }
PBT_SUITE( longF, "C12.longfine", 6000, 100000, "as C12.long, with pre-emption also between plain memory accesses" ) { any( c, true, true ); }
