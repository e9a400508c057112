// C09, second part: pools and queues of many elements, and of elements and arenas beyond 32 bits of bytes.
// Memory that is merely zeroed is not touched (memset of very long stretches gives the pages back instead).
#include "seq.hpp"
#include "heap_rel.hpp"
#include "ObjectPool.hpp"
#include "BlockPool.hpp"
#include "MessageQueue.hpp"

#include <algorithm>
#include <cstdlib>
#include <memory>
#include <new>
#include <sys/mman.h>
#include <vector>

using namespace ReiserRT::Core;

// --- Allocations made by constructors are noted; where the code under test keeps its arena is its business.
struct Note { const char * p; size_t n; };
static Note notes[ 1024 ];
static size_t nNotes = 0;
static bool noting = false;
bool heap::may( size_t ) { return true; }
void heap::got( const void * p, size_t n ) { if ( noting && nNotes < 1024 ) notes[ nNotes++ ] = Note{ static_cast< const char * >( p ), n }; }
void heap::lost( const void * ) {}

extern "C" __attribute__( ( noinline ) ) void * memset( void * p, int v, size_t n ) noexcept
{
    auto * b = static_cast< volatile unsigned char * >( p );
    size_t i = 0;
    if ( !v && n > ( 64u << 20 ) )
    {
        uintptr_t from = ( reinterpret_cast< uintptr_t >( p ) + 4095 ) & ~uintptr_t( 4095 ), to = ( reinterpret_cast< uintptr_t >( p ) + n ) & ~uintptr_t( 4095 );
        if ( !madvise( reinterpret_cast< void * >( from ), to - from, MADV_DONTNEED ) )
        {
            for ( ; reinterpret_cast< uintptr_t >( b + i ) != from; ++i ) b[ i ] = 0;
            i = to - reinterpret_cast< uintptr_t >( p );
        }
    }
    unsigned char * q = static_cast< unsigned char * >( p ) + i;
    size_t left = n - i;
    asm volatile( "rep stosb" : "+D"( q ), "+c"( left ) : "a"( v ) : "memory" );
    return p;
}

namespace
{
    // A live stretch: a number of probes along it, first and last byte included, hold a pattern of its own.
    struct Live { unsigned char * p; size_t n; uint64_t seed; };
    struct Probes
    {
        template< class F > static void each( size_t n, F f )
        {
            size_t step = n / 7 + 1;
            for ( size_t i = 0; i < n; i += step ) f( i );
            for ( size_t i = n > 8 ? n - 8 : 0; i != n; ++i ) f( i );
        }
        static unsigned char pat( uint64_t seed, size_t i ) { return (unsigned char)( ( seed * 0x9E3779B97F4A7C15ull >> 40 ) + i * 13 + 1 ); }
        static void fill( const Live & l ) { each( l.n, [ & ]( size_t i ) { l.p[ i ] = pat( l.seed, i ); } ); }
        static bool holds( const Live & l ) { bool ok = true; each( l.n, [ & ]( size_t i ) { if ( l.p[ i ] != pat( l.seed, i ) ) ok = false; } ); return ok; }
    };
    // All of what is live at one time: no overlaps, inside one allocation where that is known, contents kept.
    bool judge( pbt::Case & c, const std::vector< Live > & live, const char * what )
    {
        std::vector< const Live * > by;
        for ( auto & l : live ) by.push_back( &l );
        std::sort( by.begin(), by.end(), []( const Live * a, const Live * b ) { return a->p < b->p; } );
        for ( size_t i = 0; i + 1 < by.size(); ++i )
            if ( by[ i ]->p + by[ i ]->n > by[ i + 1 ]->p ) { c.fail( "%s: of %zu live at once, one of %zu bytes overlaps one %td bytes behind it", what, live.size(), by[ i ]->n, by[ i + 1 ]->p - by[ i ]->p ); return false; }
        for ( auto * l : by )
        {
            if ( reinterpret_cast< uintptr_t >( l->p ) % alignof( void * ) ) { c.fail( "%s: one of %zu bytes is not aligned", what, l->n ); return false; }
            for ( size_t k = 0; k != nNotes; ++k )
            {
                const char * p = reinterpret_cast< const char * >( l->p );
                if ( p >= notes[ k ].p && p < notes[ k ].p + notes[ k ].n && p + l->n > notes[ k ].p + notes[ k ].n )
                { c.fail( "%s: one of %zu bytes ends %td bytes behind the %zu allocated for all", what, l->n, p + l->n - ( notes[ k ].p + notes[ k ].n ), notes[ k ].n ); return false; }
            }
        }
        return true;
    }
    bool inside( const Live & l )       // false: it begins outside of everything that was allocated
    {
        if ( !nNotes || nNotes == 1024 ) return true;       // nothing known, or not all
        const char * p = reinterpret_cast< const char * >( l.p );
        for ( size_t k = 0; k != nNotes; ++k ) if ( p >= notes[ k ].p && p + l.n <= notes[ k ].p + notes[ k ].n ) return true;
        return false;
    }
    size_t capacityFor( size_t n ) { size_t c = 2; while ( c < n ) c *= 2; return c; }


    // Takes `rounds` times a number of elements, checks them, gives them back in another order.
    template< class Get > void rounds( pbt::Case & c, size_t cap, const char * what, Get get )
    {
        using Ptr = decltype( get().first );
        std::vector< std::pair< Ptr, Live > > held;
        uint64_t seed = 1;
        for ( int r = 0; r != 3 && !c.failed() && ( !r || c.more( 2 ) ); ++r )
        {
            size_t goal = r == 0 || c.draw( 2 ) ? cap : c.draw( cap + 1 );
            c.describe( " hold %zu", goal );
            while ( held.size() < goal )
            {
                try
                {
                    auto x = get(); x.second.seed = seed++;
                    if ( !inside( x.second ) ) { c.fail( "%s: one of %zu bytes, number %zu of %zu, is not inside the memory allocated", what, x.second.n, held.size() + 1, cap ); new auto( std::move( x ) ); break; }
                    Probes::fill( x.second );
                    held.push_back( std::move( x ) );
                }
                catch ( const RingBufferUnderflow & ) { c.fail( "%s: refused with %zu of %zu in use", what, held.size(), cap ); break; }
            }
            if ( c.failed() ) break;
            std::vector< Live > live;
            for ( auto & h : held ) live.push_back( h.second );
            if ( !judge( c, live, what ) ) break;
            size_t bad = 0;
            for ( auto & h : held ) if ( !Probes::holds( h.second ) ) ++bad;
            if ( bad ) { c.fail( "%s: the contents of %zu of %zu live at once were altered", what, bad, held.size() ); break; }
            size_t keep = c.draw( 3 ) ? 0 : c.draw( held.size() + 1 );
            uint64_t x = seed * 2654435761u + 1;
            for ( size_t i = held.size(); i > 1; --i ) { x = x * 6364136223846793005ull + 1442695040888963407ull; std::swap( held[ i - 1 ], held[ ( x >> 33 ) % i ] ); }
            while ( held.size() > keep ) held.pop_back();
            for ( auto & h : held ) if ( !Probes::holds( h.second ) ) { c.fail( "%s: a release altered the contents of another", what ); break; }
        }
        if ( c.failed() ) new auto( std::move( held ) );       // the pool is damaged
    }

    struct Base { virtual ~Base() noexcept = default; };
    template< size_t N > struct Thing : Base { unsigned char b[ N ]; };

    struct Nothing : MessageBase { void dispatch() override {} };
    // Does the code under test zero memory by means which really write all of it? Then huge elements would take all there is.
    size_t resident() { size_t a = 0, b = 0; if ( FILE * f = fopen( "/proc/self/statm", "r" ) ) { if ( fscanf( f, "%zu %zu", &a, &b ) != 2 ) b = 0; fclose( f ); } return b * 4096; }
    bool touches()
    {
        static int known = -1;
        if ( known < 0 )
        {
            size_t before = resident(), worst = 0;
            { ObjectPool< Base > p( 1, 200u << 20 ); auto x = p.createObj< Thing< 5 > >(); worst = std::max( worst, resident() - before ); }
            { BlockPool< uint8_t > p( 1, 200u << 20 ); auto x = p.getBlock(); worst = std::max( worst, resident() - before ); }
            { MessageQueue q( 1, 200u << 20 ); q.emplace< Nothing >(); worst = std::max( worst, resident() - before ); }
            known = worst > ( 50u << 20 ) && worst < ( 1ull << 40 );
        }
        return known;
    }
    size_t manySize( pbt::Case & c ) { size_t n = ( size_t( 1 ) << ( 8 + c.draw( 9 ) ) ) + c.draw( 5 ) - 2; return c.chance( 1, 10 ) ? n << 3 : n; }
    size_t hugeSize( pbt::Case & c ) { return ( size_t( 1 ) << ( 28 + c.draw( 5 ) ) ) + 8 * c.draw( 4 ) + c.draw( 8 ); }

    template< class D > void objects( pbt::Case & c, size_t req, size_t min )
    {
        c.describe( "ObjectPool< Base >(%zu, %zu), objects of %zu bytes:", req, min, sizeof( D ) );
        std::unique_ptr< ObjectPool< Base > > pool;
        noting = true;
        try { pool.reset( new ObjectPool< Base >( req, min ) ); } catch ( const std::bad_alloc & ) { c.label( "no memory" ); noting = false; return; }
        noting = false;
        rounds( c, capacityFor( req ), "object pool", [ & ]
        {
            auto p = pool->createObj< D >();
            auto * d = static_cast< D * >( p.get() );
            Live l{ d->b, sizeof d->b, 0 };
            return std::make_pair( std::move( p ), l );
        } );
        if ( c.failed() ) pool.release();
        c.label( "objects" );
    }
    template< class T > void blocks( pbt::Case & c, size_t req, size_t len )
    {
        c.describe( "BlockPool< %zu bytes >(%zu, %zu):", sizeof( T ), req, len );
        std::unique_ptr< BlockPool< T > > pool;
        noting = true;
        try { pool.reset( new BlockPool< T >( req, len ) ); } catch ( const std::bad_alloc & ) { c.label( "no memory" ); noting = false; return; }
        noting = false;
        rounds( c, capacityFor( req ), "block pool", [ & ]
        {
            auto p = pool->getBlock();
            if ( p.get_deleter().getNumElements() != len ) c.fail( "a block of %zu elements says it has %zu", len, p.get_deleter().getNumElements() );
            Live l{ reinterpret_cast< unsigned char * >( p.get() ), len * sizeof( T ), 0 };
            return std::make_pair( std::move( p ), l );
        } );
        if ( c.failed() ) pool.release();
        c.label( "blocks" );
    }

    // Messages: registered while they are in the queue.
    std::vector< Live > * inQueue = nullptr;
    size_t dispatched = 0, damaged = 0;
    template< size_t N > struct Msg : MessageBase
    {
        unsigned char b[ N ]; size_t at;
        Msg( uint64_t seed ) : at( inQueue->size() ) { Live l{ b, N, seed }; Probes::fill( l ); inQueue->push_back( l ); }
        void dispatch() override { const Live & l = ( *inQueue )[ at ]; if ( l.p != b || !Probes::holds( l ) ) ++damaged; ++dispatched; }
    };
    template< size_t N > void queue( pbt::Case & c, size_t depth, size_t size )
    {
        c.describe( "MessageQueue(%zu, %zu), messages of %zu bytes:", depth, size, sizeof( Msg< N > ) );
        std::unique_ptr< MessageQueue > q;
        noting = true;
        try { q.reset( new MessageQueue( depth, size ) ); } catch ( const std::bad_alloc & ) { c.label( "no memory" ); noting = false; return; }
        noting = false;
        for ( int r = 0; r != 3 && ( !r || c.more( 2 ) ); ++r )
        {
            std::vector< Live > live; inQueue = &live; dispatched = damaged = 0;
            size_t n = r == 0 || c.draw( 2 ) ? depth : c.draw( depth + 1 );
            c.describe( " enqueue %zu", n );
            for ( size_t i = 0; i != n; ++i )
            {
                q->emplace< Msg< N > >( i + 1 );
                if ( !inside( live.back() ) ) { c.fail( "message queue: message %zu of %zu is not inside the memory allocated", i + 1, n ); q.release(); return; }
            }
            if ( !judge( c, live, "message queue" ) ) { q.release(); return; }
            for ( size_t i = 0; i != n; ++i ) q->getAndDispatch();
            if ( dispatched != n || damaged ) { c.fail( "message queue: of %zu messages %zu were dispatched, %zu of them damaged", n, dispatched, damaged ); q.release(); return; }
        }
        c.label( "messages" );
    }
}

PBT_SUITE( big, "C09.big", 300, 6000, "pools and queues of up to 2^20 elements, or of elements of up to 8 GiB (which are not touched in full): as many as there are slots are held at once, probed and given back in another order; non-trivial: more than 2^16 elements or 2^32 bytes altogether" )
{
    nNotes = 0;
    if ( c.draw( 2 ) )
    {
        size_t n = manySize( c );
        switch ( c.draw( 5 ) )
        {
            case 0: objects< Thing< 5 > >( c, n, 24 ); break;
            case 1: objects< Thing< 50 > >( c, n, 64 + c.draw( 20 ) ); break;
            case 2: blocks< uint32_t >( c, n, 1 + c.draw( 12 ) ); break;
            case 3: blocks< uint8_t >( c, n, 1 + c.draw( 40 ) ); break;
            default: queue< 30 >( c, n, sizeof( Msg< 30 > ) + c.draw( 20 ) ); break;
        }
        c.nontrivial( n > 65536 );
        c.label( "many" );
    }
    else
    {
        size_t n = hugeSize( c );
        if ( touches() ) { n >>= 8; c.label( "memory is touched: smaller" ); }
        size_t req = n > ( size_t( 1 ) << 31 ) ? 2 : 1 + c.draw( 4 );
        switch ( c.draw( 5 ) )
        {
            case 0: objects< Thing< 5 > >( c, req, n ); break;
            case 1: if ( n > 268436000 ) { objects< Thing< 268435000 > >( c, req, n ); break; } [[fallthrough]];
            case 2: blocks< uint8_t >( c, req, n ); break;
            case 3: blocks< double >( c, req, n / 8 ); break;
            default: queue< 100 >( c, req, n ); break;
        }
        c.nontrivial( n * req > ( size_t( 1 ) << 32 ) );
        c.label( "huge" );
    }
}
