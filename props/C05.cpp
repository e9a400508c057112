// C05: construction limits and overflow, against a model of the two limits.
#include "sem.hpp"
using namespace semw;

static size_t edgeValue( pbt::Case & c )
{
    const uint64_t M = 0xFFFFFFFFull;
    switch ( c.draw( 6 ) )
    {
        case 0: return c.draw( 5 );
        case 1: return M - c.draw( 5 );
        case 2: return M + 1 + c.draw( 5 );
        case 3: { unsigned sh = unsigned( c.draw( 64 ) ); return ( uint64_t( 1 ) << sh ) + c.draw( 5 ) - 2; }
        case 4: return ~uint64_t( 0 ) - c.draw( 4 );
        default: { unsigned sh = unsigned( c.draw( 64 ) ); uint64_t v = c.draw( 1u << 30 ) << 34 ^ c.draw( 1u << 30 ) << 10 ^ c.draw( 1u << 10 ); return v >> sh; }
    }
}

PBT_SUITE( limits, "C05.limits", 900000, 12000000,
           "constructor arguments drawn around 0, powers of two, 2^32 and SIZE_MAX, the maximum often next to the initial count; then up to 14 gives, takes and throwing gives, each on a thread of its own so that blocking is observed; non-trivial: the count reached its limit or an argument was beyond 2^32-1" )
{
    const uint64_t M = 0xFFFFFFFFull;
    World w( c );
    w.init = edgeValue( c );
    switch ( c.draw( 4 ) )
    {
        case 0: w.max = 0; break;
        case 1: w.max = edgeValue( c ); break;
        case 2: w.max = w.init + c.draw( 4 ); break;
        default: w.max = std::min< uint64_t >( w.init, M ) + c.draw( 4 ); break;
    }
    uint64_t count = std::min< uint64_t >( w.init, M );
    uint64_t max = w.max == 0 ? M : std::max< uint64_t >( std::min< uint64_t >( w.max, M ), count );
    c.describe( "Semaphore(%zu, %zu):", w.init, w.max );
    w.make();
    if ( w.count() != count ) ds::fail( "Semaphore(%zu, %zu) starts with %llu permits instead of %llu", w.init, w.max, (unsigned long long)w.count(), (unsigned long long)count );
    bool limit = false;
    w.prog.resize( 16 );
    size_t n = 0;
    while ( n < 10 && c.more( 6 ) )
    {
        static const int kinds[] = { Give, Give, Give, GiveF, GiveThrow, Take, TakeF };
        auto & p = w.prog[ n++ ];
        p.emplace_back();
        Rec & r = p.back();
        r.kind = kinds[ c.draw( 7 ) ];
        int f = ds::spawn( [ &w, &r ]() { w.exec( r ); } );
        ds::waitQuiescent();
        bool throws = r.kind == GiveThrow;
        uint64_t at = count;
        if ( r.isTake() )
        {
            if ( count == 0 )
            {
                if ( ds::done( f ) ) ds::fail( "Semaphore(%zu, %zu): a take completed with no permit", w.init, w.max );
                w.mainExec( Give );     // lets it go; the count is zero again
                ds::waitQuiescent();
                if ( !ds::done( f ) ) ds::fail( "Semaphore(%zu, %zu): a take stays blocked after a give", w.init, w.max );
            }
            else
            {
                if ( !ds::done( f ) || r.outcome != Ok ) ds::fail( "Semaphore(%zu, %zu): take at count %llu: %s", w.init, w.max, (unsigned long long)at, ds::done( f ) ? outcomeName( r.outcome ) : "blocks" );
                --count;
            }
        }
        else if ( count == M )
        {
            limit = true;
            if ( !ds::done( f ) || r.outcome != Overflow || r.functorRuns )
                ds::fail( "Semaphore(%zu, %zu): %s at the absolute limit: %s", w.init, w.max, kindName( r.kind ), ds::done( f ) ? outcomeName( r.outcome ) : "blocks" );
        }
        else if ( count == max )
        {
            limit = true;
            if ( ds::done( f ) ) ds::fail( "Semaphore(%zu, %zu): %s at the maximum: %s", w.init, w.max, kindName( r.kind ), outcomeName( r.outcome ) );
            w.mainExec( Take );
            if ( w.mainOps.back().outcome != Ok ) ds::fail( "take failed" );
            ds::waitQuiescent();
            if ( !ds::done( f ) ) ds::fail( "Semaphore(%zu, %zu): %s stays blocked after a take", w.init, w.max, kindName( r.kind ) );
            if ( throws ) --count;
        }
        else
        {
            if ( !ds::done( f ) || r.outcome != ( throws ? Threw : Ok ) )
                ds::fail( "Semaphore(%zu, %zu): %s at count %llu, below the maximum: %s", w.init, w.max, kindName( r.kind ), (unsigned long long)at, ds::done( f ) ? outcomeName( r.outcome ) : "blocks" );
            if ( !throws ) ++count;
        }
        c.describe( " %s@%llu", kindName( r.kind ), (unsigned long long)at );
        if ( w.count() != count )
            ds::fail( "Semaphore(%zu, %zu): after %s at count %llu the count is %llu instead of %llu", w.init, w.max, kindName( r.kind ), (unsigned long long)at, (unsigned long long)w.count(), (unsigned long long)count );
    }
    c.nontrivial( limit || w.init > M || w.max > M );
    if ( limit ) c.label( "limit reached" );
    if ( w.max > M ) c.label( "maximum beyond 2^32-1" );
    if ( w.init > M ) c.label( "initial count beyond 2^32-1" );
    if ( w.max && w.max < w.init ) c.label( "maximum below the initial count" );
    w.destroy();
}
