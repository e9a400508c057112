// C08, second part: one thread, very many calls of one guarded ring, refusals included.
#include "marathon.hpp"
#include "boom.hpp"
#include "RingBufferGuarded.hpp"

#include <deque>

using namespace ReiserRT::Core;

namespace
{
    struct Boom {};
    int cells[ 1000 ];
    template< class T > T make( size_t i ) { return T( i ); }
    template<> int * make( size_t i ) { return cells + i % 1000; }

    template< class T > void run( pbt::Case & c, const char * type )
    {
        size_t req = c.draw( 3 ) ? 1 + c.draw( 7 ) : 1 + c.draw( 300 );
        bool primed = c.chance( 1, 3 );
        boom::choose( c );
        c.describe( "RingBufferGuarded< %s >(%zu%s):", type, req, primed ? ", true" : "" ); boom::tell( c );
        RingBufferGuarded< T > r( req, primed );
        std::deque< T > q;
        int state = primed ? 0 : 1;       // 0 to be primed, 1 ready, 2 aborted
        size_t next = 0, calls = 0; unsigned kinds = 0;
        auto ends = [ & ]( auto f ) -> int { try { f(); return 0; } catch ( const Boom & ) { return 1; } catch ( const RingBufferStateError & ) { return 2; } catch ( const SemaphoreAborted & ) { return 3; } catch ( ... ) { return 4; } };
        auto expect = [ & ]( const char * what, size_t i, int e, int want, int also = -1 ) { ++calls; if ( e != want && e != also ) c.fail( "%s, the %zuth time: ended with %d, not %d (1 its functor's exception, 2 state error, 3 aborted)", what, i + 1, e, want ); };
        auto put = [ & ]( size_t i )
        {
            T v = make< T >( next++ );
            if ( state == 1 ) { q.push_back( v ); expect( "put", i, ends( [ & ] { r.put( v ); } ), 0 ); }
            else if ( state == 0 ) expect( "put before priming", i, ends( [ & ] { r.put( v ); } ), 2 );
            else ends( [ & ] { r.put( v ); } ), ++calls;      // may be refused or dropped
        };
        auto get = [ & ]( size_t i )
        {
            if ( state == 1 ) { T v{}; expect( "get", i, ends( [ & ] { v = r.get(); } ), 0 ); if ( !c.failed() && v != q.front() ) c.fail( "get, the %zuth time: not the oldest element", i + 1 ); q.pop_front(); }
            else if ( state == 0 ) expect( "get before priming", i, ends( [ & ] { r.get(); } ), 2 );
            else expect( "get after an abort", i, ends( [ & ] { r.get(); } ), 2, 3 );
        };
        static const char * names[] = { "put and get", "fill", "empty", "prime again", "flush too early", "throwing flush" };
        for ( int phase = 0; phase < 12 && ( !phase || c.more( 7 ) ) && !c.failed(); ++phase )
        {
            if ( state == 0 && c.chance( 1, 3 ) )
            {
                expect( "prime", 0, ends( [ & ] { r.prime( [ & ]( size_t ) { q.push_back( make< T >( next ) ); return make< T >( next++ ); } ); } ), 0 );
                if ( !c.failed() && q.size() != req ) { c.fail( "prime made %zu elements of %zu", q.size(), req ); break; }
                state = 1; c.describe( " prime" );
            }
            else if ( state != 2 && c.chance( 1, 12 ) ) { r.abort(); state = 2; c.describe( " abort" ); }
            unsigned what = unsigned( c.draw( 6 ) );
            size_t k = marathon::reps( c );
            if ( state == 1 && ( what == 0 || what == 1 ) && q.size() == req ) what = 2;
            if ( state == 1 && what == 2 && q.empty() ) what = 1;
            c.describe( " %s x%zu", names[ what ], k );
            kinds |= 1u << what;
            for ( size_t i = 0; i != k && !c.failed(); ++i )
                switch ( what )
                {
                    case 0: put( i ); if ( !c.failed() ) get( i ); break;
                    case 1: if ( state == 1 && q.size() == req ) { i = k - 1; break; } put( i ); break;
                    case 2: if ( state == 1 && q.empty() ) { i = k - 1; break; } get( i ); break;
                    case 3: if ( state == 0 ) { i = k - 1; break; } expect( "prime in a state that does not allow it", i, ends( [ & ] { r.prime( [ & ]( size_t ) -> T { boom::raise( Boom{} ); } ); } ), 2 ); break;
                    default:
                        if ( state != 2 ) { expect( "flush before an abort", i, ends( [ & ] { r.flush( [ & ]( auto ) { boom::raise( Boom{} ); } ); } ), 2 ); break; }
                        i = k - 1;
                }
        }
        if ( c.failed() ) return;
        if ( state == 0 ) { c.nontrivial( calls >= 1000 ); return; }
        r.abort();
        std::deque< T > seen; size_t threw = 0; bool wild = c.draw( 2 );
        for ( ;; )
        {
            int e = ends( [ & ] { r.flush( [ & ]( auto v ) { seen.push_back( T( v ) ); if ( wild ) { ++threw; boom::raise( Boom{} ); } } ); } );
            if ( e == 0 ) break;
            if ( e != 1 || threw > req ) { c.fail( "flush with a throwing functor ended with %d after %zu elements", e, threw ); return; }
        }
        if ( state == 1 && seen != q ) c.fail( "flush saw %zu elements, %zu were left%s", seen.size(), q.size(), seen.size() == q.size() ? ", others than these" : "" );
        c.nontrivial( calls >= 1000 && __builtin_popcount( kinds ) >= 2 );
    }
}

PBT_SUITE( longS, "C08.marathon", 150, 3000, "runs of up to 130000 puts and gets on one guarded ring in each of its states, refused priming and flushing included, flushed by throwing functors at the end; non-trivial: 1000 or more calls of two or more kinds" )
{
    switch ( c.draw( 3 ) ) { case 0: run< size_t >( c, "size_t" ); break; case 1: run< int * >( c, "int *" ); break; default: run< long double >( c, "long double" ); }
}
