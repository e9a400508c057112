// C16, second part: one thread, very many messages through one queue, failures included; nothing is lost.
#include "marathon.hpp"
#include "boom.hpp"
#include "MessageQueue.hpp"

#include <deque>
#include <string>

using namespace ReiserRT::Core;

namespace
{
    struct Boom {};
    size_t made = 0, gone = 0, dispatched = 0, wrong = 0; long expected = -1; bool nameless = false;
    struct Msg : MessageBase
    {
        long v; bool inQueue, throws;
        Msg( long x, bool q, bool t, bool bad = false ) : v( x ), inQueue( q ), throws( t ) { if ( bad ) boom::raise( Boom{} ); made += inQueue; }
        Msg( Msg && o ) : MessageBase(), v( o.v ), inQueue( true ), throws( o.throws ) { if ( v == -9 ) boom::raise( Boom{} ); ++made; }
        ~Msg() noexcept override { gone += inQueue; }
        void dispatch() override { ++dispatched; if ( v != expected ) ++wrong; if ( throws ) boom::raise( Boom{} ); }
        const char * name() const override { if ( nameless ) boom::raise( Boom{} ); return v % 2 ? "odd" : "even"; }
    };
    struct Huge : MessageBase { char pad[ 4000 ]; void dispatch() override {} };
}

PBT_SUITE( longS, "C16.marathon", 200, 4000, "runs of up to 130000 messages through one queue: put and emplaced, dispatched with and without wake-up functors, with constructors, names, dispatches and functors that throw, oversize, purged; statistics, names, order and the numbers of constructions and destructions exact after each; non-trivial: 1000 or more calls of three or more kinds" )
{
    size_t depth = c.draw( 3 ) ? 1 + c.draw( 6 ) : 1 + c.draw( 300 );
    bool locking = c.draw( 2 );
    boom::choose( c );
    c.describe( "MessageQueue(%zu%s):", depth, locking ? ", dispatch locking" : "" ); boom::tell( c );
    made = gone = dispatched = wrong = 0; expected = -1; nameless = false;
    auto * q = new MessageQueue( depth, sizeof( Msg ), locking );
    std::deque< std::pair< long, bool > > held;
    // What failing constructors use may show in the watermark or not: at least high, at most most.
    size_t high = 0, most = 0, calls = 0, nMade = 0, nDispatched = 0, nWoken = 0, woken = 0; unsigned kinds = 0; long value = 0; std::string name;
    const std::function< void() > wake = [ & ] { ++woken; }, badWake = [ & ] { ++woken; boom::raise( Boom{} ); };
    static const char * names[] = { "put and dispatch", "throwing constructor", "oversize", "throwing dispatch", "throwing wake-up", "fill", "empty", "purge", "dispatch lock", "throwing move", "throwing name" };
    auto ends = [ & ]( auto f ) -> int { try { f(); return 0; } catch ( const Boom & ) { return 1; } catch ( const MessageQueueElementSizeError & ) { return 2; } catch ( const MessageQueueDispatchLockingDisabled & ) { return 3; } catch ( ... ) { return 4; } };
    auto check = [ & ]( const char * what, size_t i, int e, int want ) -> bool
    {
        ++calls;
        if ( e != want ) { c.fail( "%s, the %zuth time: ended with %d, not %d (1 its own exception, 2 too large, 3 locking disabled)", what, i + 1, e, want ); return false; }
        auto s = q->getRunningStateStatistics();
        if ( s.size != depth || s.runningCount != held.size() || s.highWatermark < high || s.highWatermark > most )
        { c.fail( "%s, the %zuth time: size %zu, running %zu, high watermark %zu; expected %zu, %zu, %zu to %zu", what, i + 1, size_t( s.size ), size_t( s.runningCount ), size_t( s.highWatermark ), depth, held.size(), high, most ); return false; }
        if ( made != nMade || made - gone != held.size() ) { c.fail( "%s, the %zuth time: %zu messages were constructed in the queue and %zu destroyed; %zu are enqueued of %zu", what, i + 1, made, gone, held.size(), nMade ); return false; }
        if ( dispatched != nDispatched || wrong ) { c.fail( "%s, the %zuth time: %zu messages were dispatched, not %zu; %zu out of order", what, i + 1, dispatched, nDispatched, wrong ); return false; }
        if ( woken != nWoken ) { c.fail( "%s, the %zuth time: wake-up functors ran %zu times, not %zu", what, i + 1, woken, nWoken ); return false; }
        if ( !name.empty() && name != q->getNameOfLastMessageDispatched() ) { c.fail( "%s, the %zuth time: the last message is said to be \"%s\", not \"%s\"", what, i + 1, q->getNameOfLastMessageDispatched(), name.c_str() ); return false; }
        return true;
    };
    auto in = [ & ]( bool throws, size_t i ) -> bool
    {
        ++value; ++nMade;
        int e = ends( [ & ] { if ( value % 3 ) q->emplace< Msg >( value, true, throws ); else { Msg m( value, false, throws ); q->put( std::move( m ) ); } } );
        held.emplace_back( value, throws );
        if ( held.size() > high ) high = held.size();
        if ( high > most ) most = high;
        return check( "enqueued", i, e, 0 );
    };
    auto out = [ & ]( int how, size_t i ) -> bool
    {
        expected = held.front().first;
        bool throws = held.front().second || how == 2;
        if ( how != 2 ) { ++nDispatched; name = expected % 2 ? "odd" : "even"; }
        if ( how ) ++nWoken;
        held.pop_front();
        return check( "dispatched", i, ends( [ & ] { if ( how == 0 ) q->getAndDispatch(); else q->getAndDispatch( how == 1 ? wake : badWake ); } ), throws );
    };
    for ( int phase = 0; phase < 10 && ( !phase || c.more( 6 ) ) && !c.failed(); ++phase )
    {
        unsigned what = unsigned( c.draw( 11 ) );
        size_t k = marathon::reps( c ), room = depth - held.size();
        if ( !room && ( what == 0 || what == 1 || what == 3 || what == 4 || what == 5 || what >= 9 ) ) what = 6;
        if ( what == 6 && held.empty() ) what = 5;
        c.describe( " %s x%zu", names[ what ], k );
        kinds |= 1u << what;
        for ( size_t i = 0; i != k && !c.failed(); ++i )
            switch ( what )
            {
                case 0: if ( in( false, i ) ) out( i % 2, i ); break;
                case 1: if ( held.size() + 1 > most ) most = held.size() + 1; check( "constructor threw", i, ends( [ & ] { q->emplace< Msg >( 1l, true, false, true ); } ), 1 ); break;
                case 2: check( "refused a message that is too large", i, ends( [ & ] { if ( i % 2 ) q->emplace< Huge >(); else q->put( Huge{} ); } ), 2 ); break;
                case 3: if ( in( true, i ) ) out( i % 2, i ); break;
                case 4: if ( in( false, i ) ) out( 2, i ); break;
                case 5: if ( !room-- ) { i = k - 1; ++room; break; } in( false, i ); break;
                case 6: if ( held.empty() ) { i = k - 1; break; } out( i % 2, i ); break;
                case 7: if ( held.size() != depth && !in( false, i ) ) break; held.clear(); check( "purged", i, ends( [ & ] { q->purge(); } ), 0 ); break;
                case 8: check( "dispatch lock", i, ends( [ & ] { auto l = q->getAutoDispatchLock(); l.unlock(); l.lock(); auto m = std::move( l ); } ), locking ? 0 : 3 ); break;
                case 10:    // of the message, which is not dispatched then, it is only said that it goes
                {
                    if ( !in( false, i ) ) break;
                    expected = held.front().first; nameless = true;
                    int e = ends( [ & ] { q->getAndDispatch(); } );
                    nameless = false; held.pop_front(); nDispatched = dispatched; name.clear();
                    check( "dispatched a message whose name throws", i, e, 1 ); break;
                }
                default: if ( held.size() + 1 > most ) most = held.size() + 1; { Msg m( -9, false, false ); check( "move constructor threw", i, ends( [ & ] { q->put( std::move( m ) ); } ), 1 ); } break;
            }
    }
    if ( c.failed() ) return;
    if ( c.draw( 2 ) ) q->abort();
    delete q;
    if ( made != gone ) c.fail( "%zu messages were constructed, %zu destroyed", made, gone );
    c.nontrivial( calls >= 1000 && __builtin_popcount( kinds ) >= 3 );
}
