// C15: the capacity of a message queue is exact and nobody is stranded.
#include "mq.hpp"
using namespace mqw;

static void body( pbt::Case & c, bool fine, bool failures, bool lng = false )
{
    World w( c );
    if ( fine ) ds::fine( true );
    if ( lng ) { unsigned b = c.draw( 2 ) ? 30 : 0; w.generate( 6, 600, b, failures, c.pick( { 30u, 100u, 250u } ) ); }
    else w.generate( 6, c.thorough ? 26 : 20, failures ? 4 : c.draw( 2 ) ? 8 : 0, failures || c.chance( 1, 4 ) );
    bool gated = c.draw( 2 );
    if ( gated ) for ( auto & p : w.prog ) for ( auto & o : p ) if ( o.producer() && c.chance( 1, 3 ) ) o.gate = true;
    w.describeProgram();
    w.make();
    size_t pre = c.draw( w.depth + 1 );
    for ( size_t i = 0; i != pre; ++i ) w.main( Emplace, int( i % 3 ) );
    if ( gated ) w.closeGate();
    w.start();
    ds::waitQuiescent();
    w.judgeRest( "at rest" );
    size_t blockedPut = 0, blockedGet = 0, inside = size_t( w.inDispatch );
    for ( auto o : w.blocked() ) { blockedPut += o->producer(); blockedGet += o->dispatcher() && !o->inDispatch; }
    bool overlap = w.overlapped();
    if ( gated ) { w.openGate(); ds::waitQuiescent(); w.judgeRest( "when the held dispatches had ended" ); }
    w.settle();
    w.drain();
    w.judgeRest( "when all was drained" );
    w.judgeOutcomes( false );
    size_t failed = 0;
    w.each( [ & ]( const Op & o ) { failed += o.outcome == Boomed || o.outcome == SizeErr; } );
    size_t disposed = 0;
    w.each( [ & ]( const Op & o ) { disposed += o.dispatcher() && o.got >= 0; } );
    c.nontrivial( overlap && ( !lng || disposed >= 50 ) && ( blockedPut + blockedGet > 0 ) && ( !failures || lng || failed ) );
    if ( blockedPut ) c.label( "producers blocked at rest" );
    if ( blockedGet ) c.label( "dispatchers blocked at rest" );
    if ( blockedPut && inside ) c.label( "producers blocked behind a dispatch in progress" );
    if ( failed ) c.label( "failed constructions, dispatches or sizes" );
    c.label( "depth " + std::to_string( w.depth ) );
    w.describeHistory();
    if ( c.draw( 3 ) == 0 )
    {
        w.probeCapacity();
        w.drain();
        if ( w.alive ) ds::fail( "%zu messages are alive in an empty queue", w.alive );
        c.label( "capacity probed afterwards" );
    }
    w.destroy();
}
PBT_SUITE( sync, "C15.sync", 400000, 7000000, "1-6 threads of producers and dispatchers on queues of 1-4 messages, some dispatches held open; judged at rest, after each further call and by filling the queue again; non-trivial: calls overlapped and some were blocked at rest" ) { body( c, false, false ); }
PBT_SUITE( fineS, "C15.fine", 200000, 4000000, "as C15.sync, with pre-emption also between plain memory accesses" ) { body( c, true, false ); }
PBT_SUITE( failS, "C15.failures", 200000, 4000000, "as C15.sync, with a quarter of constructions, dispatches and functors throwing and oversize messages; non-trivial: one of them failed as well" ) { body( c, false, true ); }
PBT_SUITE( longS, "C15.long", 8000, 120000, "as C15.sync and C15.failures with up to 600 calls of up to six threads, on queues of up to 40 messages, threads stopped in the middle of calls for long; non-trivial: as C15.sync, and 50 or more messages were disposed of" ) { body( c, false, c.draw( 2 ), true ); }
PBT_SUITE( longF, "C15.longfine", 4000, 60000, "as C15.long, with pre-emption also between plain memory accesses" ) { body( c, true, c.draw( 2 ), true ); }
