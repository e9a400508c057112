// C11, second part: one thread, very many blocks had and given back, failures included.
#include "marathon.hpp"
#include "boom.hpp"
#include "BlockPool.hpp"

#include <vector>

using namespace ReiserRT::Core;

namespace
{
    struct Boom {};
    size_t made = 0, gone = 0, wrong = 0; long fuse = -1;
    struct Elem { int mark, used; Elem() : mark( 4711 ), used( 5 ) { if ( fuse == 0 ) { fuse = -1; boom::raise( Boom{} ); } if ( fuse > 0 ) --fuse; ++made; } ~Elem() noexcept { if ( mark != 4711 ) ++wrong; mark = 0; ++gone; } };

    bool isFresh( const Elem & e ) { return e.mark == 4711 && e.used == 5; }
    void use( Elem & e ) { e.used = 6; }
    bool isFresh( double d ) { return d == 0; }
    void use( double & d ) { d = 7; }

    template< class T > void run( pbt::Case & c, const char * type, bool throws )
    {
        size_t req = c.draw( 3 ) ? c.draw( 7 ) : c.draw( 300 ), cap = 2, len = 1 + c.draw( 9 );
        while ( cap < req ) cap *= 2;
        boom::choose( c );
        c.describe( "BlockPool< %s >(%zu, %zu):", type, req, len ); if ( throws ) boom::tell( c );
        made = gone = wrong = 0; fuse = -1;
        BlockPool< T > pool( req, len );
        std::vector< BlockPoolPtrType< T > > held;
        held.reserve( cap );
        size_t low = cap, least = cap, calls = 0; unsigned kinds = 0;
        static const char * names[] = { "get and give back", "throwing", "fill", "empty", "exhausted" };
        auto ends = [ & ]( auto f ) -> int { try { f(); return 0; } catch ( const Boom & ) { return 1; } catch ( const RingBufferUnderflow & ) { return 3; } catch ( ... ) { return 4; } };
        auto check = [ & ]( const char * what, size_t i ) -> bool
        {
            ++calls;
            auto s = pool.getRunningStateStatistics();
            if ( s.size != cap || s.runningCount != cap - held.size() || s.lowWatermark > low || s.lowWatermark < least )
            { c.fail( "%s, the %zuth time: size %zu, running %zu, low watermark %zu; expected %zu, %zu, %zu to %zu", what, i + 1, size_t( s.size ), size_t( s.runningCount ), size_t( s.lowWatermark ), cap, cap - held.size(), least, low ); return false; }
            if ( throws && ( wrong || made - gone != held.size() * len ) ) { c.fail( "%s, the %zuth time: %zu elements were constructed and %zu destroyed (%zu wrongly); %zu are owned", what, i + 1, made, gone, wrong, held.size() * len ); return false; }
            return true;
        };
        // Blocks used by failing constructors may show in the watermark or not.
        // A block comes fresh, and goes back used.
        auto fresh = [ & ]( T * p ) { for ( size_t i = 0; i != len; ++i ) if ( !isFresh( p[ i ] ) ) { c.fail( "element %zu of a new block of %zu is not fresh", i, len ); return; } for ( size_t i = 0; i != len; ++i ) use( p[ i ] ); };
        auto need = [ & ]( bool sure = true ) { size_t v = cap - held.size() - 1; if ( sure && v < low ) low = v; if ( v < least ) least = v; };
        for ( int phase = 0; phase < 10 && ( !phase || c.more( 6 ) ) && !c.failed(); ++phase )
        {
            unsigned what = unsigned( c.draw( 5 ) );
            size_t k = marathon::reps( c ), room = cap - held.size(), at = c.draw( len );
            if ( what == 1 && !throws ) what = 0;
            if ( what <= 2 && !room ) what = 3;
            if ( what == 3 && held.empty() ) what = 2;
            c.describe( " %s x%zu", names[ what ], k );
            kinds |= 1u << what;
            for ( size_t i = 0; i != k && !c.failed(); ++i )
                switch ( what )
                {
                    case 0: { need(); BlockPoolPtrType< T > p; int e = ends( [ & ] { p = pool.getBlock(); } ); if ( e ) { c.fail( "the %zuth block in a row with %zu of %zu free ended with %d", i + 1, room, cap, e ); break; } fresh( p.get() ); p.reset(); check( "had and given back", i ); break; }
                    case 1: { need( false ); fuse = long( at ); int e = ends( [ & ] { pool.getBlock(); } ); fuse = -1; if ( e != 1 ) c.fail( "the %zuth throwing constructor: ended with %d", i + 1, e ); else check( "constructor threw", i ); break; }
                    case 2: if ( held.size() == cap ) { i = k - 1; break; } { need(); int e = ends( [ & ] { held.push_back( pool.getBlock() ); } ); if ( e ) c.fail( "with %zu of %zu blocks in use, getBlock ended with %d", held.size(), cap, e ); else { fresh( held.back().get() ); check( "had", i ); } break; }
                    case 3: if ( held.empty() ) { i = k - 1; break; } held[ i % held.size() ].swap( held.back() ); held.pop_back(); check( "given back", i ); break;
                    default:
                        while ( held.size() != cap && !c.failed() ) { need(); int e = ends( [ & ] { held.push_back( pool.getBlock() ); } ); if ( e ) c.fail( "with %zu of %zu blocks in use, getBlock ended with %d", held.size(), cap, e ); }
                        if ( !c.failed() ) { int e = ends( [ & ] { pool.getBlock(); } ); if ( e != 3 ) c.fail( "the %zuth getBlock from an exhausted pool ended with %d", i + 1, e ); else check( "exhausted", i ); }
                }
        }
        if ( c.failed() ) { new auto( std::move( held ) ); return; }
        held.clear();
        check( "emptied", 0 );
        c.nontrivial( calls >= 1000 && __builtin_popcount( kinds ) >= 2 );
    }
}

PBT_SUITE( longS, "C11.marathon", 200, 4000, "runs of up to 130000 blocks had and given back from one pool: in pairs, with elements that throw, when exhausted, filling and emptying; fresh each time, statistics and the numbers of constructions and destructions exact after each; non-trivial: 1000 or more calls of two or more kinds" )
{
    if ( c.draw( 2 ) ) run< Elem >( c, "Elem", true ); else run< double >( c, "double", false );
}
