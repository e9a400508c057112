// C23: construction succeeds completely or leaves nothing behind - for sizes of every magnitude.
#include "seq.hpp"
#include "heap_rel.hpp"
#include "ObjectPool.hpp"
#include "BlockPool.hpp"
#include "MessageQueue.hpp"
#include "RingBufferGuarded.hpp"

#include <algorithm>
#include <cstdlib>
#include <map>
#include <memory>
#include <new>
#include <vector>

using namespace ReiserRT::Core;

// --- A heap that refuses what is larger than a limit, and knows what it gave.
static constexpr size_t Limit = 64u << 20;
struct Blk { const char * p; size_t n; };
static Blk blks[ 4096 ];
static size_t nBlks = 0;
static bool tracking = false, overfull = false;
bool heap::may( size_t n ) { return !tracking || n <= Limit; }
void heap::got( const void * p, size_t n ) { if ( tracking ) { if ( nBlks < 4096 ) blks[ nBlks++ ] = Blk{ static_cast< const char * >( p ), n }; else overfull = true; } }
void heap::lost( const void * p ) { for ( size_t i = nBlks; i-- != 0; ) if ( blks[ i ].p == p ) { blks[ i ] = blks[ --nBlks ]; break; } }

namespace
{
    struct Tracking { Tracking() { tracking = true; } ~Tracking() { tracking = false; } };
    using Wide = unsigned __int128;
    constexpr Wide Huge = Wide( 1 ) << 47;      // no address space holds this much

    // Counts of every magnitude, round and just beside round.
    size_t magnitude( pbt::Case & c, unsigned bits )
    {
        size_t v = c.draw( 4 ) ? size_t( 1 ) << c.draw( bits ) : 1 + c.draw( 100 );
        switch ( c.draw( 4 ) ) { case 0: v += c.draw( 9 ); break; case 1: v -= std::min( v - 1, size_t( c.draw( 9 ) ) ); break; case 2: v = bits > 60 && c.chance( 1, 4 ) ? SIZE_MAX - c.draw( 40 ) : v + v / 2; break; default: break; }
        return v ? v : 1;
    }
    size_t pool( size_t n ) { size_t k = 2; while ( k < n && k < ( size_t( 1 ) << 20 ) ) k *= 2; return k; }
    Wide pad( Wide n ) { return ( n + 7 ) / 8 * 8; }

    // Everything live at one time: disjoint stretches, each inside one block of the heap (as far as the heap gave it).
    bool judge( pbt::Case & c, std::vector< const char * > at, size_t n, const char * what )
    {
        std::sort( at.begin(), at.end() );
        for ( size_t i = 0; i + 1 < at.size(); ++i ) if ( size_t( at[ i + 1 ] - at[ i ] ) < n ) { c.fail( "%s: slots for %zu bytes lie %td bytes apart", what, n, at[ i + 1 ] - at[ i ] ); return false; }
        for ( size_t k = 0; k != nBlks; ++k )
            for ( auto p : { at.front(), at.back() } )
                if ( p >= blks[ k ].p && p < blks[ k ].p + std::max( blks[ k ].n, size_t( 1 ) ) && size_t( blks[ k ].p + blks[ k ].n - p ) < n )
                { c.fail( "%s: a slot for %zu bytes has %td bytes of memory", what, n, blks[ k ].p + blks[ k ].n - p ); return false; }
        return true;
    }
    struct Thing { int a{ 4 }; char b{ 5 }; };
    struct Msg : MessageBase
    {
        static std::vector< const char * > at;
        Msg() { at.push_back( reinterpret_cast< const char * >( this ) ); }
        Msg( Msg && ) { at.push_back( reinterpret_cast< const char * >( this ) ); }
        ~Msg() noexcept override = default;
        void dispatch() override {}
    };
    std::vector< const char * > Msg::at;
}

PBT_SUITE( sizes, "C23.sizes", 30000, 600000, "pools and message queues are built for numbers and sizes of every magnitude up to 2^64-1, products beyond the address space included: what is built has slots of the size asked for, all of them; what cannot be is refused by an exception and leaves nothing; non-trivial: the product was beyond 2^32 or one factor beyond 2^16" )
{
    nBlks = 0; overfull = false;
    int kind = int( c.draw( 4 ) );
    size_t n, size;
    // Half of the cases: the product lies near a power of 2^64, where arithmetic of 64 bits would come round.
    n = magnitude( c, kind == 2 ? 21 : 64 );
    if ( kind == 2 && n > ( size_t( 1 ) << 20 ) ) n = size_t( 1 ) << 20;
    size_t cap = kind == 2 ? n : pool( n );
    size_t esz = kind == 1 ? sizeof( Thing ) : kind == 3 ? sizeof( int64_t ) : 1;
    if ( c.draw( 2 ) ) { Wide w = ( Wide( 1 ) << 64 ) * ( 1 + c.draw( 3 ) ) / cap / esz; size = size_t( std::min< Wide >( w + c.draw( 24 ), SIZE_MAX ) ); }
    else size = magnitude( c, 64 );
    if ( c.draw( 3 ) == 0 ) { if ( cap > 4096 && c.draw( 16 ) ) { n = 1 + n % 4096; cap = kind == 2 ? n : pool( n ); } size_t fit = ( size_t( 1 ) << 22 ) / cap / esz; size = fit > 1 ? 1 + size % fit : 1; }     // one that can be built
    if ( kind == 0 && size < sizeof( Thing ) ) size = sizeof( Thing );
    if ( kind == 2 && size < sizeof( Msg ) ) size = sizeof( Msg );
    Wide slot = Wide( size ) * esz, need = pad( slot ) * cap;
    static const char * names[] = { "ObjectPool", "BlockPool", "MessageQueue", "BlockPool of a scalar" };
    c.describe( "%s for %zu of %zu\n", names[ kind ], n, size );
    c.label( names[ kind ] ); c.label( need > Wide( Limit ) ? "too large" : "fits" );
    if ( need > ( Wide( 1 ) << 32 ) || size > 65536 || n > 65536 ) c.nontrivial();
    bool mustFail = need >= Huge, mustWork = 2 * need + 32 * Wide( cap ) + 4096 <= Limit;      // room for what an implementation keeps besides

    std::unique_ptr< ObjectPool< Thing > > objects;
    std::unique_ptr< BlockPool< Thing > > blocks;
    std::unique_ptr< BlockPool< int64_t > > scalars;
    std::unique_ptr< MessageQueue > queue;
    int how = 0;
    bool locking = c.draw( 2 );
    try
    {
        Tracking t;
        switch ( kind )
        {
            case 0: objects.reset( new ObjectPool< Thing >( n, size ) ); break;
            case 1: blocks.reset( new BlockPool< Thing >( n, size ) ); break;
            case 2: queue.reset( new MessageQueue( n, size, locking ) ); break;
            default: scalars.reset( new BlockPool< int64_t >( n, size ) ); break;
        }
    }
    catch ( const std::exception & ) { how = 1; }        // bad_alloc; a length_error would do as well
    catch ( ... ) { how = 2; }
    PBT_CHECK( how != 2, "%s for %zu of %zu: the constructor threw something that is no std::exception", names[ kind ], n, size );
    PBT_CHECK( !( how == 1 && mustWork ), "%s for %zu of %zu: refused although %zu bytes of slots are needed and blocks of %zu can be had", names[ kind ], n, size, size_t( need ), size_t( Limit ) );
    PBT_CHECK( !( how == 0 && mustFail ), "%s for %zu of %zu: built, although its slots cannot all have memory", names[ kind ], n, size );
    if ( how == 1 ) { PBT_CHECK( overfull || !nBlks, "%s for %zu of %zu: the constructor threw and left %zu heap blocks behind, the first of %zu bytes", names[ kind ], n, size, nBlks, blks[ 0 ].n ); return; }
    if ( mustWork )
    {
        std::vector< const char * > at;
        auto all = [ & ]( auto & p, auto create )
        {
            if ( p.getSize() != cap ) { c.fail( "%s for %zu: the size reported is %zu, not %zu", names[ kind ], n, p.getSize(), cap ); return false; }
            std::vector< decltype( create() ) > held; held.reserve( cap ); at.reserve( cap );
            for ( size_t i = 0; i != cap; ++i ) { held.push_back( create() ); at.push_back( reinterpret_cast< const char * >( held.back().get() ) ); }
            try { create(); c.fail( "%s for %zu: more than %zu fit in", names[ kind ], n, cap ); return false; } catch ( const RingBufferUnderflow & ) {}
            return judge( c, at, size_t( slot ), names[ kind ] );
        };
        bool ok = true;
        if ( objects ) ok = all( *objects, [ & ] { return objects->createObj< Thing >(); } );
        if ( blocks ) ok = all( *blocks, [ & ] { auto b = blocks->getBlock(); if ( b.get_deleter().getNumElements() != size ) c.fail( "a block of %zu elements reports %zu", size, b.get_deleter().getNumElements() ); return b; } );
        if ( scalars ) ok = all( *scalars, [ & ] { auto b = scalars->getBlock(); if ( b.get_deleter().getNumElements() != size ) c.fail( "a block of %zu elements reports %zu", size, b.get_deleter().getNumElements() ); return b; } );
        if ( queue )
        {
            Msg::at.clear();
            for ( size_t i = 0; i != n; ++i ) queue->emplace< Msg >();
            auto st = queue->getRunningStateStatistics();
            PBT_CHECK( st.size == n && st.runningCount == n, "MessageQueue for %zu: after as many messages it reports %zu, %u in use", n, st.size, st.runningCount );
            ok = judge( c, Msg::at, size, names[ kind ] );
            queue->purge();
        }
        if ( !ok || c.failed() ) return;
    }
    objects.reset(); blocks.reset(); scalars.reset(); queue.reset();
    PBT_CHECK( overfull || !nBlks, "%s for %zu of %zu: built and destroyed, it left %zu heap blocks behind, the first of %zu bytes", names[ kind ], n, size, nBlks, blks[ 0 ].n );
}

PBT_SUITE( rings, "C23.rings", 3000, 30000, "rings of every magnitude up to 2^64-1 and every element width are built, filled, and destroyed; non-trivial: more than 2^16 were asked for" )
{
    nBlks = 0; overfull = false;
    size_t n = magnitude( c, 64 ), cap = pool( n );
    bool guarded = c.draw( 2 ), primed = c.draw( 2 );
    c.describe( "%s for %zu\n", guarded ? "RingBufferGuarded" : "RingBufferSimple", n );
    if ( n > 65536 ) c.nontrivial();
    auto go = [ & ]( auto zero )
    {
        using T = decltype( zero );
        if ( !guarded )
        {
            std::unique_ptr< RingBufferSimple< T > > r;
            { Tracking t; r.reset( new RingBufferSimple< T >( n ) ); }
            PBT_CHECK( r->getSize() == cap, "RingBufferSimple for %zu reports size %zu, not %zu", n, r->getSize(), cap );
            for ( size_t i = 0; i != cap; ++i ) r->put( T( i ) );
            try { r->put( zero ); c.fail( "RingBufferSimple for %zu takes more than %zu", n, cap ); return; } catch ( const RingBufferOverflow & ) {}
            for ( size_t i = 0; i != cap; ++i ) PBT_CHECK( r->get() == T( i ), "RingBufferSimple for %zu does not keep its values", n );
        }
        else
        {
            std::unique_ptr< RingBufferGuarded< T > > r;
            { Tracking t; r.reset( new RingBufferGuarded< T >( n, primed ) ); }
            PBT_CHECK( r->getSize() == cap, "RingBufferGuarded for %zu reports size %zu, not %zu", n, r->getSize(), cap );
            if ( n <= cap )
            {
                if ( primed ) r->prime( [ & ]( size_t i ) { return T( i ); } );
                else for ( size_t i = 0; i != n; ++i ) r->put( T( i ) );
                for ( size_t i = 0; i != n; ++i ) PBT_CHECK( r->get() == T( i ), "RingBufferGuarded for %zu does not keep its values", n );
            }
        }
    };
    switch ( c.draw( 4 ) ) { case 0: go( char( 0 ) ); break; case 1: go( 0 ); break; case 2: go( 0.0 ); break; default: go( size_t( 0 ) ); break; }
    if ( !c.failed() ) PBT_CHECK( overfull || !nBlks, "a ring for %zu: built and destroyed, it left %zu heap blocks behind", n, nBlks );
}
