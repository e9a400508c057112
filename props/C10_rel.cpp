// C10, second part: one thread, very many creations and releases, failures included; nothing is lost, nothing constructed or destroyed wrongly.
#include "marathon.hpp"
#include "boom.hpp"
#include "ObjectPool.hpp"

#include <vector>

using namespace ReiserRT::Core;

namespace
{
    struct Boom {};
    size_t made = 0, gone = 0;
    struct Base { long mark{ 77 }; Base() { ++made; } virtual ~Base() noexcept { if ( mark != 77 ) ++gone; ++gone; mark = 0; } };
    struct Small : Base { long v; explicit Small( long x ) : v( x ) {} };
    struct Bad : Base { Bad() { boom::raise( Boom{} ); } };
    struct Huge : Base { char pad[ 4000 ]; };
    struct Nest : Base { ObjectPoolPtrType< Base > in; explicit Nest( ObjectPool< Base > & p ) : in( p.createObj< Small >( 5 ) ) {} };
}

PBT_SUITE( longS, "C10.marathon", 200, 4000, "runs of up to 130000 creations and releases on one pool: in pairs, nested, with throwing constructors, oversize or when exhausted, filling and emptying; statistics and the numbers of constructions and destructions exact after each; non-trivial: 1000 or more calls of three or more kinds" )
{
    size_t req = c.draw( 3 ) ? c.draw( 7 ) : c.draw( 300 ), cap = 2;
    while ( cap < req ) cap *= 2;
    boom::choose( c );
    c.describe( "ObjectPool(%zu):", req ); boom::tell( c );
    made = gone = 0;
    ObjectPool< Base > pool( req, 64 );
    std::vector< ObjectPoolPtrType< Base > > held;
    held.reserve( cap );
    size_t low = cap, least = cap, calls = 0, nMade = 0; unsigned kinds = 0; long value = 0;
    static const char * names[] = { "create and release", "throwing", "oversize", "nested", "fill", "empty", "exhausted" };
    auto ends = [ & ]( auto f ) -> int
    {
        try { f(); return 0; }
        catch ( const Boom & ) { return 1; }
        catch ( const ObjectPoolElementSizeError & ) { return 2; }
        catch ( const RingBufferUnderflow & ) { return 3; }
        catch ( ... ) { return 4; }
    };
    auto check = [ & ]( const char * what, size_t i ) -> bool
    {
        ++calls;
        auto s = pool.getRunningStateStatistics();
        if ( s.size != cap || s.runningCount != cap - held.size() || s.lowWatermark > low || s.lowWatermark < least )
        { c.fail( "%s, the %zuth time: size %zu, running %zu, low watermark %zu; expected %zu, %zu, %zu to %zu", what, i + 1, size_t( s.size ), size_t( s.runningCount ), size_t( s.lowWatermark ), cap, cap - held.size(), least, low ); return false; }
        if ( made != nMade || made - gone != held.size() ) { c.fail( "%s, the %zuth time: %zu objects were constructed and %zu destroyed; %zu are owned of %zu", what, i + 1, made, gone, held.size(), nMade ); return false; }
        return true;
    };
    // Slots used by failing constructors may show in the watermark or not.
    auto need = [ & ]( size_t k, bool sure = true ) { size_t v = cap - held.size() - k; if ( sure && v < low ) low = v; if ( v < least ) least = v; };
    for ( int phase = 0; phase < 10 && ( !phase || c.more( 6 ) ) && !c.failed(); ++phase )
    {
        unsigned what = unsigned( c.draw( 7 ) );
        size_t k = marathon::reps( c ), room = cap - held.size();
        if ( ( what <= 1 && !room ) || ( what == 3 && room < 2 ) || ( what == 4 && !room ) ) what = 5;
        if ( what == 5 && held.empty() ) what = 4;
        c.describe( " %s x%zu", names[ what ], k );
        kinds |= 1u << what;
        for ( size_t i = 0; i != k && !c.failed(); ++i )
            switch ( what )
            {
                case 0:
                {
                    ++value; ++nMade; need( 1 );
                    ObjectPoolPtrType< Base > p;
                    int e = ends( [ & ] { p = pool.createObj< Small >( value ); } );
                    if ( e || static_cast< Small * >( p.get() )->v != value ) { c.fail( "the %zuth creation in a row with %zu of %zu slots free ended with %d", i + 1, room, cap, e ); break; }
                    p.reset(); check( "created and released", i ); break;
                }
                case 1: { ++nMade; need( 1, false ); int e = ends( [ & ] { pool.createObj< Bad >(); } ); if ( e != 1 ) c.fail( "the %zuth throwing constructor: ended with %d", i + 1, e ); else check( "constructor threw", i ); break; }
                case 2: { int e = ends( [ & ] { pool.createObj< Huge >(); } ); if ( e != 2 ) c.fail( "the %zuth oversized object: ended with %d", i + 1, e ); else check( "refused an oversized object", i ); break; }
                case 3: { nMade += 2; need( 2 ); int e = ends( [ & ] { pool.createObj< Nest >( pool ); } ); if ( e ) c.fail( "the %zuth nested creation ended with %d", i + 1, e ); else check( "created and released an object that owns one", i ); break; }
                case 4:
                    if ( held.size() == cap ) { i = k - 1; break; }
                    { ++value; ++nMade; need( 1 ); int e = ends( [ & ] { held.push_back( pool.createObj< Small >( value ) ); } ); if ( e ) c.fail( "a creation with %zu of %zu slots in use ended with %d", held.size(), cap, e ); else check( "created", i ); break; }
                case 5: if ( held.empty() ) { i = k - 1; break; } held[ i % held.size() ].swap( held.back() ); held.pop_back(); check( "released", i ); break;
                default:
                    while ( held.size() != cap && !c.failed() ) { ++nMade; need( 1 ); int e = ends( [ & ] { held.push_back( pool.createObj< Small >( 1 ) ); } ); if ( e ) c.fail( "a creation with %zu of %zu slots in use ended with %d", held.size(), cap, e ); }
                    if ( !c.failed() ) { int e = ends( [ & ] { pool.createObj< Small >( 1 ); } ); if ( e != 3 ) c.fail( "the %zuth creation from an exhausted pool ended with %d", i + 1, e ); else check( "exhausted", i ); }
            }
    }
    if ( c.failed() ) { new auto( std::move( held ) ); return; }
    held.clear();
    check( "emptied", 0 );
    c.nontrivial( calls >= 1000 && __builtin_popcount( kinds ) >= 3 );
}
