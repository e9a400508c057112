// C04: abort and destruction release every waiter; abort is permanent.
#include "sem.hpp"
using namespace semw;

static void afterAbort( World & w )
{
    uint64_t before = w.count();
    for ( int k : { Take, TakeF, Give, GiveF, TakeThrow, GiveThrow, TakeEmpty, GiveEmpty } )
    {
        w.mainExec( k );
        auto & r = w.mainOps.back();
        if ( r.outcome != Aborted || r.functorRuns )
        { w.describeHistory(); ds::fail( "%s after abort ended with %s (functor ran %d times)", kindName( k ), outcomeName( r.outcome ), r.functorRuns ); }
    }
    if ( w.count() != before ) ds::fail( "calls made after abort changed the count from %llu to %llu", (unsigned long long)before, (unsigned long long)w.count() );
}

static void body( pbt::Case & c, bool fine )
{
    World w( c );
    w.max = c.pick< size_t >( { 0, 0, 1, 1, 2 } );
    w.init = w.max ? c.draw( w.max + 1 ) : c.draw( 3 );
    size_t threads = 1 + c.draw( c.chance( 1, 5 ) ? 10 : 5 ), total = 0;
    int mode = int( c.draw( 4 ) );      // 0 abort by threads, 1 abort by main at rest, 2 destroy while blocked, 3 both
    for ( size_t t = 0; t != threads; ++t )
    {
        w.prog.emplace_back();
        size_t sort = c.draw( 3 );
        do
        {
            Rec r;
            static const int sorts[ 3 ][ 6 ] = { { Take, Take, TakeF, Take, TakeThrow, Count }, { Give, Give, GiveF, Give, GiveThrow, Count }, { Take, Give, TakeF, GiveF, Count, Take } };
            r.kind = sorts[ sort ][ c.draw( 6 ) ];
            if ( ( mode == 0 || mode == 3 ) && c.chance( 1, 5 ) ) r.kind = Abort;
            w.prog.back().push_back( r ); ++total;
        } while ( total < 15 && c.more( 2 ) );
    }
    if ( fine ) ds::fine( true );
    w.describeProgram();
    w.make();
    w.start();
    ds::waitQuiescent();
    int blocked = 0, blockedGive = 0;
    for ( auto & p : w.prog ) for ( auto & r : p ) if ( r.inv != lin::Pending && r.res == lin::Pending ) { ++blocked; if ( r.isGive() ) ++blockedGive; }
    bool aborted = false;
    auto scan = [ & ]()
    {
        uint64_t firstAbortRes = lin::Pending;
        for ( auto & r : w.history() ) if ( r.kind == Abort && r.res < firstAbortRes ) firstAbortRes = r.res;
        aborted = firstAbortRes != lin::Pending;
        for ( auto & r : w.history() )
        {
            if ( r.isTake() || r.isGive() )
            {
                if ( aborted && r.inv > firstAbortRes && r.res != lin::Pending && r.outcome != Aborted )
                { w.describeHistory(); ds::fail( "%s in thread %d began after abort had returned and ended with %s", kindName( r.kind ), r.fiber, outcomeName( r.outcome ) ); }
                if ( aborted && r.res == lin::Pending )
                { w.describeHistory(); ds::fail( "thread %d is still blocked in %s after abort", r.fiber, kindName( r.kind ) ); }
            }
            if ( r.res == lin::Pending && ( r.kind == Abort || r.kind == Count ) )
            { w.describeHistory(); ds::fail( "%s never returned", kindName( r.kind ) ); }
        }
    };
    scan();
    w.checkOutcomes();
    if ( mode == 1 || mode == 3 )
    {
        w.mainExec( Abort );
        ds::waitQuiescent();
        scan();
        if ( !ds::allDone() ) { w.describeHistory(); ds::fail( "a thread is still blocked after abort" ); }
        if ( c.chance( 1, 3 ) ) { w.mainExec( Abort ); }
    }
    w.checkOutcomes();
    if ( aborted || mode == 1 || mode == 3 )
    {
        // One order explains everything, with nothing but SemaphoreAborted after the abort, and the count at rest.
        uint64_t fin = w.count();
        if ( !explains( w, fin ) ) { w.describeHistory(); ds::fail( "no order of the calls explains their results and the count %llu after abort", (unsigned long long)fin ); }
        afterAbort( w );
        c.label( "aborted" );
    }
    if ( blocked ) c.label( "threads were blocked at rest" );
    if ( blockedGive ) c.label( "givers were blocked at rest" );
    if ( mode == 2 && !aborted ) c.label( blocked ? "destroyed while threads were blocked" : "destroyed idle" );
    c.nontrivial( blocked > 0 || ( aborted && w.overlapped() ) );
    w.describeHistory();
    uint64_t tDestroy = ds::tick();
    w.destroy();
    // Whoever was still blocked must have been released with SemaphoreAborted.
    for ( auto & p : w.prog )
    {
        for ( auto & r : p )
        {
            if ( r.inv == lin::Pending ) break;
            if ( r.res == lin::Pending ) { w.describeHistory(); ds::fail( "thread %d is still blocked in %s after the semaphore was destroyed", r.fiber, kindName( r.kind ) ); }
            if ( r.res > tDestroy && r.outcome != Aborted ) ds::fail( "thread %d blocked in %s ended with %s when the semaphore was destroyed", r.fiber, kindName( r.kind ), outcomeName( r.outcome ) );
        }
    }
}

PBT_SUITE( sync, "C04.sync", 1000000, 16000000, "1-10 threads of takers and givers; abort comes from the threads themselves, from outside at rest, repeatedly, or the semaphore is destroyed under blocked threads; non-trivial: threads were blocked, or abort overlapped other calls" ) { body( c, false ); }
PBT_SUITE( fineS, "C04.fine", 500000, 8000000, "as C04.sync, with pre-emption also between plain memory accesses" ) { body( c, true ); }
