// C14: every message is delivered once, in order and intact.
#include "mq.hpp"
using namespace mqw;

static void body( pbt::Case & c, bool fine, bool lng = false )
{
    World w( c );
    if ( fine ) ds::fine( true );
    if ( lng ) { unsigned b = c.draw( 2 ) ? 40 : 0; w.generate( 5, 600, b, false, c.pick( { 30u, 100u, 250u } ) ); }
    else w.generate( 5, c.thorough ? 26 : 20, c.draw( 2 ) ? 6 : 0, false );
    w.describeProgram();
    w.make();
    size_t pre = c.draw( w.depth + 1 );
    for ( size_t i = 0; i != pre; ++i ) w.main( Emplace, int( i % 3 ) );
    w.start();
    ds::waitQuiescent();
    w.judgeRest( "at rest" );
    bool waited = ds::stats().condWaits > 0, overlap = w.overlapped();
    w.settle();
    w.drain();
    w.judgeOutcomes( false );
    w.judgeLives();
    w.judgeFifo();
    if ( w.alive ) { w.describeHistory(); ds::fail( "%zu messages are alive in an empty queue", w.alive ); }
    size_t boomed = 0, n = 0;
    w.each( [ & ]( const Op & o ) { boomed += o.outcome == Boomed; n += o.dispatcher() && o.got >= 0; } );
    c.nontrivial( overlap && waited && n >= ( lng ? 50 : 2 ) );
    if ( boomed ) c.label( "exceptions on the way" );
    if ( w.mostAlive == w.depth ) c.label( "queue was full" );
    if ( w.locking ) c.label( "dispatch locking" );
    w.describeHistory();
    w.destroy();
    w.judgeLives();
}
PBT_SUITE( sync, "C14.sync", 400000, 7000000, "1-5 threads putting, emplacing and dispatching (with and without wake-up functor; in half the cases constructors, dispatches and functors throw) on queues of 1-4 messages; at rest the blocked calls are let through and the rest is drained; non-trivial: calls overlapped, one had to wait and two messages were disposed of" ) { body( c, false ); }
PBT_SUITE( fineS, "C14.fine", 250000, 4000000, "as C14.sync, with pre-emption also between plain memory accesses" ) { body( c, true ); }
PBT_SUITE( longS, "C14.long", 8000, 120000, "as C14.sync with up to 600 calls of up to five threads, on queues of up to 40 messages, threads stopped in the middle of calls for long; judged pair by pair; non-trivial: as C14.sync, and 50 or more messages were disposed of" ) { body( c, false, true ); }
PBT_SUITE( longF, "C14.longfine", 4000, 60000, "as C14.long, with pre-emption also between plain memory accesses" ) { body( c, true, true ); }
