// C17: abort and destruction of a message queue are clean at any moment.
#include "mq.hpp"
using namespace mqw;

// What classes derived from a queue are told.
struct Inside : MessageQueue { using MessageQueueBase::isAborted; };
static bool says( MessageQueue * q ) { ds::Sut s; return ( q->*( &Inside::isAborted ) )(); }

static void body( pbt::Case & c, bool fine )
{
    World w( c );
    if ( fine ) ds::fine( true );
    w.generate( 6, c.thorough ? 24 : 18, c.draw( 2 ) ? 6 : 0, c.chance( 1, 4 ) );
    enum { Within, AtRest, DestroyAtRest, DestroyRunning, Modes };
    size_t mode = c.draw( Modes );
    bool gated = mode != DestroyRunning && c.chance( 1, 3 );
    if ( mode == Within )
    {
        bool any = false;
        for ( auto & p : w.prog ) for ( auto & o : p ) if ( c.chance( 1, 6 ) ) { o.kind = Abort; any = true; }
        if ( !any || c.chance( 1, 3 ) ) { w.prog.emplace_back(); Op o; o.kind = Abort; w.prog.back().push_back( o ); }
    }
    if ( gated ) for ( auto & p : w.prog ) for ( auto & o : p ) if ( o.producer() && c.chance( 1, 3 ) ) o.gate = true;
    w.describeProgram();
    w.make();
    size_t pre = c.draw( w.depth + 1 );
    for ( size_t i = 0; i != pre; ++i ) w.main( Emplace, int( i % 3 ) );
    if ( gated ) w.closeGate();
    if ( says( w.q ) ) ds::fail( "a queue that nobody aborted says it is aborted" );
    w.start();
    bool overlap = false, aborted = false; size_t blocked = 0;
    auto firstAbort = [ & ] { uint64_t a = lin::Pending; w.each( [ & ]( const Op & o ) { if ( o.kind == Abort && o.res < a ) a = o.res; } ); return a; };
    auto judgeAborted = [ & ]
    {
        uint64_t a = firstAbort();
        if ( a == lin::Pending ) return;
        aborted = true;
        if ( !says( w.q ) ) { w.describeHistory(); ds::fail( "abort has returned and isAborted denies it" ); }
        bool lockBusy = w.locking && w.inDispatch > 0;
        w.each( [ & ]( const Op & o )
        {
            if ( !o.producer() && !o.dispatcher() ) return;
            if ( o.inv > a && o.res != lin::Pending && o.outcome != Ended && !( o.form == Oversize && o.outcome == SizeErr ) )
            { w.describeHistory(); ds::fail( "%s of thread %d began after abort had returned and ended with %s", kindName( o.kind ), o.fiber, outcomeName( o.outcome ) ); }
            if ( o.inv > a && o.wakes ) { w.describeHistory(); ds::fail( "a call made after abort ran the wake-up functor" ); }
            if ( o.res == lin::Pending && !o.inDispatch && !( lockBusy && o.dispatcher() ) )
            { w.describeHistory(); ds::fail( "thread %d is still blocked in %s after abort", o.fiber, kindName( o.kind ) ); }
        } );
    };
    uint64_t destruction = lin::Pending;
    if ( mode == DestroyRunning )
    {
        for ( uint64_t i = c.draw( 40 ); i; --i ) ds::point();
        for ( auto o : w.blocked() ) { (void)o; ++blocked; }
        destruction = ds::tick();
        w.destroy();
        ds::waitQuiescent();
        overlap = blocked > 0;
    }
    else
    {
        ds::waitQuiescent();
        if ( mode != Within ) w.judgeRest( "at rest" );
        judgeAborted();
        overlap = w.overlapped();
        for ( auto o : w.blocked() ) blocked += !o->inDispatch;
        if ( mode == AtRest || ( mode == Within && c.draw( 3 ) == 0 ) )
        {
            auto b = w.blocked();
            bool lockBusy = w.locking && w.inDispatch > 0;
            w.main( Abort );
            ds::waitQuiescent();
            judgeAborted();
            for ( auto o : b )
                if ( !o->inDispatch && o->got < 0 && o->res != lin::Pending && o->outcome != Ended && !lockBusy )
                { w.describeHistory(); ds::fail( "%s of thread %d was blocked when the queue was aborted and ended with %s", kindName( o->kind ), o->fiber, outcomeName( o->outcome ) ); }
        }
        if ( gated ) { w.openGate(); ds::waitQuiescent(); judgeAborted(); }
        if ( aborted )
        {
            for ( int k : { Put, Emplace, Dispatch, DispatchW } )
            {
                auto & o = w.main( k );
                if ( o.outcome != Ended || o.wakes || o.got >= 0 ) { w.describeHistory(); ds::fail( "%s after abort ended with %s", kindName( k ), outcomeName( o.outcome ) ); }
            }
            if ( !ds::allDone() ) { w.describeHistory(); ds::fail( "a thread is still blocked after abort" ); }
        }
        if ( firstAbort() == lin::Pending && w.q ) { bool asked = false; w.each( [ & ]( const Op & o ) { asked = asked || o.kind == Abort; } ); if ( !asked && says( w.q ) ) { w.describeHistory(); ds::fail( "a queue that nobody aborted says it is aborted" ); } }
        destruction = ds::tick();
        w.destroy();
        ds::waitQuiescent();
    }
    if ( !ds::allDone() ) { w.describeHistory(); ds::fail( "a thread is still blocked after the queue was destroyed" ); }
    w.each( [ & ]( const Op & o )
    {
        if ( ( o.producer() || o.dispatcher() ) && o.res > destruction && mode == DestroyAtRest && !aborted && o.got < 0 && o.outcome != Ended )
        { w.describeHistory(); ds::fail( "%s of thread %d was blocked when the queue was destroyed and ended with %s", kindName( o.kind ), o.fiber, outcomeName( o.outcome ) ); }
    } );
    w.judgeOutcomes( true );
    w.judgeLives( destruction );
    w.judgeFifo();
    size_t left = 0;
    for ( auto & l : w.lives )
    {
        if ( l.born && !l.died ) { w.describeHistory(); ds::fail( "a message was never destroyed" ); }
        left += l.born && l.diedAt > destruction && !l.dispatched;
    }
    c.nontrivial( ( aborted && overlap ) || blocked > 0 );
    static const char * names[] = { "aborted by a thread", "aborted at rest", "destroyed at rest", "destroyed while threads were calling" };
    c.label( names[ mode ] );
    if ( blocked ) c.label( "calls were blocked" );
    if ( left ) c.label( "messages left to the destructor" );
    if ( gated ) c.label( "aborted or destroyed after a dispatch held open" );
    w.describeHistory();
}
PBT_SUITE( sync, "C17.sync", 500000, 8000000, "1-7 threads putting, emplacing and dispatching on queues of 1-4 messages; threads abort at any moment, or the queue is aborted or destroyed from outside, at rest or at once; non-trivial: abort overlapped calls, or calls were blocked or in progress" ) { body( c, false ); }
PBT_SUITE( fineS, "C17.fine", 250000, 4000000, "as C17.sync, with pre-emption also between plain memory accesses" ) { body( c, true ); }
