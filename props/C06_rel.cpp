// C06, second part: more than 2^32 operations on one ring, with refusals probed where the 32-bit counters wrap.
#include "seq.hpp"
#include <algorithm>
#include "RingBufferSimple.hpp"

using namespace ReiserRT::Core;

PBT_SUITE_L( wrap, "C06.wrap", 8, 24, "one ring taken through 2^32 puts and gets and beyond at a generated fill level; values are checked throughout, refusals at intervals and densely around the wrap; non-trivial: every case", 250 )
{
    size_t req = c.pick< size_t >( { 2, 3, 4, 8, 13, 64, 1000 } );
    RingBufferSimple< uint32_t > r( req );
    const uint64_t cap = r.getSize();
    uint64_t level = c.draw( cap + 1 );
    const uint64_t total = ( uint64_t( 1 ) << 32 ) + 3 * cap + c.draw( 1000 );
    c.describe( "RingBufferSimple<uint32_t>(%zu), %llu held, %llu puts and gets", req, (unsigned long long)level, (unsigned long long)total );
    uint64_t in = 0, out = 0;
    auto probe = [ & ]() -> bool
    {
        // Fill up, be refused, empty, be refused, restore the level.
        while ( in - out < cap ) r.put( uint32_t( in++ * 2654435761u ) );
        bool t = false; try { r.put( 1 ); } catch ( const RingBufferOverflow & ) { t = true; }
        if ( !t ) { c.fail( "ring of %llu accepted a value when full after %llu puts", (unsigned long long)cap, (unsigned long long)in ); return false; }
        while ( in != out )
        {
            uint32_t v; try { v = r.get(); } catch ( ... ) { c.fail( "get refused with %llu held after %llu puts", (unsigned long long)( in - out ), (unsigned long long)in ); return false; }
            if ( v != uint32_t( out++ * 2654435761u ) ) { c.fail( "wrong value after %llu puts", (unsigned long long)in ); return false; }
        }
        t = false; try { r.get(); } catch ( const RingBufferUnderflow & ) { t = true; }
        if ( !t ) { c.fail( "ring of %llu gave a value when empty after %llu puts", (unsigned long long)cap, (unsigned long long)in ); return false; }
        while ( in - out < level ) r.put( uint32_t( in++ * 2654435761u ) );
        return true;
    };
    try
    {
        if ( !probe() ) return;
        const uint64_t W = uint64_t( 1 ) << 32;
        while ( in < total )
        {
            uint64_t n = W > in + 8 * cap + 8 ? std::min< uint64_t >( W - in - 4 * cap - 4, 1u << 24 ) : 1;
            for ( uint64_t i = 0; i != n; ++i )
            {
                if ( level < cap ) { r.put( uint32_t( in++ * 2654435761u ) ); if ( r.get() != uint32_t( out++ * 2654435761u ) ) { c.fail( "wrong value after %llu puts", (unsigned long long)in ); return; } }
                else { if ( r.get() != uint32_t( out++ * 2654435761u ) ) { c.fail( "wrong value after %llu puts", (unsigned long long)in ); return; } r.put( uint32_t( in++ * 2654435761u ) ); }
            }
            if ( !probe() ) return;
        }
    }
    catch ( const std::exception & e ) { c.fail( "after %llu puts: %s", (unsigned long long)in, e.what() ); return; }
    c.nontrivial();
    c.label( level == cap ? "kept full" : level == 0 ? "kept empty" : "kept part full" );
}
