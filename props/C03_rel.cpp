// C03, second part: one thread, very many calls of one semaphore, failures included; the count is exact throughout.
#include "marathon.hpp"
#include "boom.hpp"
#include "Semaphore.hpp"

using namespace ReiserRT::Core;

namespace { struct Boom {}; }

PBT_SUITE( longS, "C03.marathon", 120, 3000, "runs of up to 130000 gives, takes, throwing and empty functors, refusals at the limit and after an abort on one semaphore, the count exact after each call; non-trivial: 1000 or more calls of three or more kinds" )
{
    size_t max = c.draw( 2 ) ? 1 + c.draw( 300 ) : 0, init = max ? c.draw( max + 1 ) : c.chance( 1, 4 ) ? 0xFFFFFFFFull - c.draw( 3 ) : c.draw( 300 ), n = init, limit = max ? max : 0xFFFFFFFFull;
    boom::choose( c );
    c.describe( "Semaphore(%zu, %zu):", init, max ); boom::tell( c );
    Semaphore s( init, max );
    bool aborted = false; unsigned kinds = 0; size_t calls = 0, ran = 0, expectedRan = 0;
    const std::function< void() > fine = [ & ] { ++ran; }, bad = [ & ] { ++ran; boom::raise( Boom{} ); }, empty;
    // What a call ends with: 0 well, 1 Boom, 2 bad_function_call, 3 aborted, 4 overflow, 5 something else.
    auto ends = [ & ]( auto f ) -> int
    {
        try { f(); return 0; }
        catch ( const Boom & ) { return 1; }
        catch ( const std::bad_function_call & ) { return 2; }
        catch ( const SemaphoreAborted & ) { return 3; }
        catch ( const SemaphoreOverflow & ) { return 4; }
        catch ( ... ) { return 5; }
    };
    static const char * names[] = { "give/take", "give(f)/take(f)", "take/give", "take(throwing)", "give(throwing)", "take(empty)", "give(empty)", "give to the limit", "take all", "give beyond" };
    auto expect = [ & ]( int got, int want, const char * what, size_t i ) -> bool
    {
        ++calls;
        if ( aborted && want < 3 ) want = 3;
        if ( got != want ) { c.fail( "%s, the %zuth time: ended with %d, not %d (1 the functor's exception, 2 bad_function_call, 3 aborted, 4 overflow)", what, i + 1, got, want ); return false; }
        if ( !aborted && s.getAvailableCount() != n ) { c.fail( "%s, the %zuth time: the available count is %zu, not %zu", what, i + 1, s.getAvailableCount(), n ); return false; }
        return true;
    };
    for ( int phase = 0; phase < 10 && ( !phase || c.more( 6 ) ) && !c.failed(); ++phase )
    {
        if ( !aborted && c.chance( 1, 12 ) ) { s.abort(); aborted = true; c.describe( " abort" ); }
        unsigned what = unsigned( c.draw( 10 ) );
        size_t k = marathon::reps( c );
        bool room = n < limit, some = n > 0;
        if ( !aborted )
        {
            if ( what <= 1 || what == 4 || what == 6 ) { if ( !room ) what = 2; }
            if ( what == 2 || what == 3 || what == 5 ) { if ( !some ) what = 0; }
            if ( what == 7 && ( limit - n > 200000 || !room ) ) what = some ? 2 : 0;
            if ( what == 8 && n > 200000 ) what = 2;
            if ( what == 9 && ( max || room ) ) what = some ? 2 : 0;
        }
        c.describe( " %s x%zu", names[ what ], k );
        kinds |= 1u << what;
        for ( size_t i = 0; i != k && !c.failed(); ++i )
            switch ( what )
            {
                case 0: case 1:
                {
                    size_t keep = aborted ? 0 : 1;
                    n += keep; if ( !expect( ends( [ & ] { if ( what ) s.give( fine ); else s.give(); } ), 0, "give", i ) ) break;
                    n -= keep; expect( ends( [ & ] { if ( what ) s.take( fine ); else s.take(); } ), 0, "take", i );
                    break;
                }
                case 2:
                {
                    size_t keep = aborted ? 0 : 1;
                    n -= keep; if ( !expect( ends( [ & ] { s.take(); } ), 0, "take", i ) ) break;
                    n += keep; expect( ends( [ & ] { s.give(); } ), 0, "give", i );
                    break;
                }
                case 3: expect( ends( [ & ] { s.take( bad ); } ), 1, "take with a throwing functor", i ); break;
                case 4: expect( ends( [ & ] { s.give( bad ); } ), 1, "give with a throwing functor", i ); break;
                case 5: expect( ends( [ & ] { s.take( empty ); } ), 2, "take with an empty functor", i ); break;
                case 6: expect( ends( [ & ] { s.give( empty ); } ), 2, "give with an empty functor", i ); break;
                case 7: if ( aborted ) { i = k - 1; break; } if ( n != limit ) { ++n; expect( ends( [ & ] { s.give(); } ), 0, "give", i ); } break;
                case 8: if ( aborted ) { i = k - 1; break; } if ( n ) { --n; expect( ends( [ & ] { s.take(); } ), 0, "take", i ); } break;
                default: if ( aborted ) { i = k - 1; break; } expect( ends( [ & ] { s.give(); } ), 4, "give beyond the limit", i ); break;
            }
        if ( !aborted ) expectedRan += what == 1 ? 2 * k : what == 3 || what == 4 ? k : 0;
        if ( !c.failed() && ran != expectedRan ) c.fail( "functors ran %zu times, not %zu", ran, expectedRan );
    }
    c.nontrivial( calls >= 1000 && __builtin_popcount( kinds ) >= 3 );
}
