// C13, second part: statistics of large pools, one thread, exact.
#include "seq.hpp"
#include "ObjectPool.hpp"
#include "BlockPool.hpp"

#include <vector>

using namespace ReiserRT::Core;

namespace
{
    struct Thing { long x[ 2 ]; };
    template< class Pool, class Make > void history( pbt::Case & c, Pool & pool, size_t cap, const char * what, Make make )
    {
        std::vector< decltype( make() ) > held;
        held.reserve( cap );
        size_t low = cap;
        auto check = [ & ]( const char * when ) -> bool
        {
            auto s = pool.getRunningStateStatistics();
            if ( s.size == cap && s.runningCount == cap - held.size() && s.lowWatermark == low && pool.getSize() == cap ) return true;
            c.fail( "%s, %s: size %zu, running %zu, low watermark %zu; expected %zu, %zu, %zu", what, when, size_t( s.size ), size_t( s.runningCount ), size_t( s.lowWatermark ), cap, cap - held.size(), low );
            return false;
        };
        if ( !check( "fresh" ) ) return;
        size_t n = 0;
        uint64_t x = c.draw( 1000 ) + 1;
        while ( !c.failed() && n < 12 && ( !n || c.more( 6 ) ) )
        {
            ++n;
            bool take = held.empty() || ( held.size() != cap && c.draw( 2 ) );
            size_t room = take ? cap - held.size() : held.size(), k = c.draw( 3 ) ? 1 + c.draw( room ) : room;
            c.describe( " %s %zu", take ? "take" : "give back", k );
            size_t probe = c.draw( k );
            for ( size_t i = 0; i != k && !c.failed(); ++i )
            {
                if ( take ) { try { held.push_back( make() ); } catch ( const RingBufferUnderflow & ) { c.fail( "%s: refused with %zu of %zu in use", what, held.size(), cap ); break; } if ( cap - held.size() < low ) low = cap - held.size(); }
                else { x = x * 6364136223846793005ull + 1442695040888963407ull; std::swap( held[ ( x >> 33 ) % held.size() ], held.back() ); held.pop_back(); }
                if ( i == probe ) check( "in a run" );
            }
            if ( !c.failed() && held.size() == cap )
            {
                bool refused = false;
                try { auto p = make(); } catch ( const RingBufferUnderflow & ) { refused = true; }
                if ( !refused ) c.fail( "%s: more than %zu fit", what, cap );
                c.label( "exhausted" );
            }
            if ( !c.failed() ) check( "after a run" );
        }
        if ( c.failed() ) new auto( std::move( held ) );
        else { held.clear(); check( "emptied" ); }
        c.nontrivial( cap >= 256 && low < cap );
        if ( cap > 65536 ) c.label( "more than 65536" );
    }
}

PBT_SUITE( large, "C13.large", 1500, 20000, "object and block pools of up to 2^20 elements, taken and given back in runs of any length, statistics exact throughout; non-trivial: 256 elements or more" )
{
    size_t req = c.chance( 1, 15 ) ? ( size_t( 1 ) << 19 ) - 2 + c.draw( 5 ) : ( size_t( 1 ) << ( 3 + c.draw( 15 ) ) ) + c.draw( 5 ) - 2, cap = 2;
    while ( cap < req ) cap *= 2;
    c.describe( "%zu elements:", req );
    if ( c.draw( 2 ) )
    {
        auto * pool = new ObjectPool< Thing >( req );
        history( c, *pool, cap, "object pool", [ & ] { return pool->createObj< Thing >(); } );
        if ( !c.failed() ) delete pool;
    }
    else
    {
        auto * pool = new BlockPool< uint32_t >( req, 1 + c.draw( 5 ) );
        history( c, *pool, cap, "block pool", [ & ] { return pool->getBlock(); } );
        if ( !c.failed() ) delete pool;
    }
}
