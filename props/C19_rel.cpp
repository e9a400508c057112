// C19, second part: statistics and purge of deep queues, one thread, exact.
#include "seq.hpp"
#include "MessageQueue.hpp"

#include <string>

using namespace ReiserRT::Core;

namespace
{
    size_t dispatched = 0, destroyed = 0, wrong = 0;
    struct M : MessageBase
    {
        size_t v; bool mine;
        M( size_t x, bool m ) : v( x ), mine( m ) {}
        M( M && o ) noexcept : MessageBase(), v( o.v ), mine( false ) {}
        ~M() noexcept override { if ( !mine ) ++destroyed; }
        void dispatch() override { if ( v != dispatched ) ++wrong; ++dispatched; }
        const char * name() const override { return v % 2 ? "odd" : "even"; }
    };
}

PBT_SUITE( deep, "C19.deep", 1500, 20000, "queues of up to 2^18 messages, filled, dispatched and purged in runs of any length, statistics and the name of the last message exact throughout; non-trivial: depth of 256 or more" )
{
    size_t depth = ( size_t( 1 ) << ( 3 + c.draw( 15 ) ) ) + c.draw( 5 ) - 2, held = 0, high = 0, gone = 0;
    bool locking = c.draw( 2 );
    dispatched = destroyed = wrong = 0;
    size_t next = 0, skipped = 0;       // dispatched counts on past what was purged
    c.describe( "MessageQueue(%zu%s):", depth, locking ? ", dispatch locking" : "" );
    auto * q = new MessageQueue( depth, sizeof( M ), locking );
    std::string name = "";
    auto check = [ & ]( const char * when ) -> bool
    {
        auto s = q->getRunningStateStatistics();
        if ( s.size != depth || s.runningCount != held || s.highWatermark != high )
        { c.fail( "%s: size %zu, running %zu, high watermark %zu; expected %zu, %zu, %zu", when, size_t( s.size ), size_t( s.runningCount ), size_t( s.highWatermark ), depth, held, high ); return false; }
        if ( !name.empty() && name != q->getNameOfLastMessageDispatched() ) { c.fail( "%s: the last message dispatched is said to be \"%s\", not \"%s\"", when, q->getNameOfLastMessageDispatched(), name.c_str() ); return false; }
        if ( destroyed != gone ) { c.fail( "%s: %zu messages were destroyed, %zu should have been", when, destroyed, gone ); return false; }
        if ( wrong ) { c.fail( "%s: messages were dispatched out of order", when ); return false; }
        return true;
    };
    if ( !check( "fresh" ) ) return;
    for ( size_t n = 0; n < 12 && ( !n || c.more( 6 ) ); ++n )
    {
        size_t what = held == 0 ? 0 : held == depth ? 1 + c.weighted( { 3, 1 } ) : c.weighted( { 3, 3, 1 } );
        if ( what == 2 )
        {
            c.describe( " purge" );
            q->purge();
            gone += held; skipped += held; dispatched += held; held = 0;
            if ( !check( "after a purge" ) ) return;
            c.label( "purged" );
            continue;
        }
        size_t room = what ? held : depth - held, k = c.draw( 3 ) ? 1 + c.draw( room ) : room, probe = c.draw( k );
        c.describe( " %s %zu", what ? "dispatch" : "enqueue", k );
        for ( size_t i = 0; i != k; ++i )
        {
            if ( what ) { q->getAndDispatch(); --held; ++gone; name = ( dispatched - 1 ) % 2 ? "odd" : "even"; }
            else { if ( next % 3 ) q->emplace< M >( next, false ); else q->put( M( next, true ) ); ++next; ++held; if ( held > high ) high = held; }
            if ( i == probe && !check( "in a run" ) ) return;
        }
        if ( !check( "after a run" ) ) return;
    }
    bool aborted = c.draw( 2 );
    if ( aborted ) q->abort();
    delete q;
    gone += held;
    if ( destroyed != gone ) c.fail( "%zu of the %zu messages left in the queue were destroyed with it", destroyed - ( gone - held ), held );
    c.nontrivial( depth >= 256 && high > 1 );
    if ( high > 65536 ) c.label( "more than 65536" );
}
