// C18: the dispatch lock excludes dispatching, and nothing else.
#include "mq.hpp"
using namespace mqw;

static void script( pbt::Case & c, Op & o, bool gate )
{
    o.kind = Hold;
    o.script.push_back( Get );
    size_t n = 0;
    while ( n++ < 10 && c.more( 5 ) )
    {
        int act = int( c.weighted( { 3, 3, 4, 2, 2, 1, 2, 2, 0, 1 } ) );
        int a = int( c.draw( 3 ) ), b = int( c.draw( 3 ) );
        o.script.push_back( act + 16 * a + 64 * b );
    }
    // Threads that stop at the gate have the lock then, or not.
    if ( gate ) { if ( c.draw( 2 ) ) o.script.push_back( Get ); o.script.push_back( GateWait ); }
}

static void body( pbt::Case & c, bool fine )
{
    World w( c );
    if ( fine ) ds::fine( true );
    w.generate( 5, c.thorough ? 20 : 14, c.draw( 2 ) ? 6 : 0, false );
    w.locking = !c.chance( 1, 10 );
    w.checkExclusion = w.locking;
    bool any = false, gated = c.chance( 1, 2 ), stopped = false;
    for ( auto & p : w.prog )
        for ( auto & o : p )
            if ( c.draw( 3 ) == 0 )
            {
                bool g = gated && !stopped && c.draw( 2 );
                Op n; n.kind = Hold; script( c, n, g );
                if ( o.producer() ) w.lives[ size_t( o.id ) ].op = nullptr;
                stopped = stopped || g; any = true;
                o = n;
            }
    if ( !any && !w.prog.empty() ) { Op n; script( c, n, gated ); stopped = gated; w.prog.back().push_back( n ); }
    // Ids of the messages that remain.
    w.lives.clear();
    for ( auto & p : w.prog ) for ( auto & o : p ) if ( o.producer() ) w.newId( o );
    w.describeProgram();
    w.make();
    if ( stopped ) w.closeGate();
    w.start();
    ds::waitQuiescent();
    w.judgeRest( "at rest" );
    bool overlap = w.overlapped(), held = w.holder >= 0, waiting = false;
    if ( stopped )
    {
        if ( held )
        {
            for ( auto o : w.blocked() ) waiting = waiting || ( o->dispatcher() && !o->inDispatch && w.enqueued() > 0 ) || ( o->kind == Hold && o->fiber != w.holder );
            // Whoever holds the lock: enqueueing, statistics and the name go on. None of these may block.
            for ( ; w.alive < w.depth; ds::waitQuiescent() ) if ( w.main( w.alive % 2 ? Put : Emplace ).outcome != Ok ) ds::fail( "a put failed while the dispatch lock was held" );
            w.main( Stat ); w.main( Name );
            ds::waitQuiescent();
            w.judgeRest( "while the dispatch lock is held" );
        }
        w.openGate();
        ds::waitQuiescent();
        w.judgeRest( "after the dispatch lock was released" );
    }
    w.each( [ & ]( const Op & o )
    {
        if ( o.kind != Hold || o.res == lin::Pending ) return;
        if ( o.outcome != ( w.locking ? Ok : LockDisabled ) )
        { w.describeHistory(); ds::fail( "asking for the dispatch lock%s ended with %s", w.locking ? "" : " of a queue without one", outcomeName( o.outcome ) ); }
    } );
    w.settle();
    w.drain();
    if ( w.locking ) { w.mainOps.emplace_back(); w.mainOps.back().kind = Hold; w.mainOps.back().script = { Get, Unlock, Lock }; w.exec( w.mainOps.back() ); }
    w.judgeOutcomes( false );
    w.judgeLives();
    w.judgeFifo();
    if ( w.alive ) { w.describeHistory(); ds::fail( "%zu messages are alive in an empty queue", w.alive ); }
    c.nontrivial( w.locking && overlap && w.lockActions >= 3 );
    if ( held ) c.label( "lock held at rest" );
    if ( waiting ) c.label( "threads waited for the holder" );
    if ( w.lockMoves ) c.label( "lock objects moved" );
    if ( w.assignedOver ) c.label( "held lock objects assigned over" );
    if ( !w.locking ) c.label( "locking disabled" );
    w.describeHistory();
    w.destroy();
}
PBT_SUITE( sync, "C18.sync", 400000, 7000000, "1-5 threads putting, dispatching and running scripts on up to three dispatch lock objects each (get, move-construct, move-assign over held ones and over locks of another queue, unlock, lock, destroy), in half the cases stopping with the lock held; non-trivial: calls overlapped and three lock operations ran" ) { body( c, false ); }
PBT_SUITE( fineS, "C18.fine", 200000, 3500000, "as C18.sync, with pre-emption also between plain memory accesses" ) { body( c, true ); }
