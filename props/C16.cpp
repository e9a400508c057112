// C16: a message queue survives throwing messages and functors.
#include "mq.hpp"
using namespace mqw;

// One thread: what each call does to the queue is known exactly.
PBT_SUITE( hist, "C16.history", 300000, 5000000, "single-threaded histories of put, emplace and dispatch in which constructors, functors and dispatches throw and messages are too large, against an exact queue model; non-trivial: two or more failures of different kinds" )
{
    World w( c );
    w.depth = 1 + c.draw( 5 );
    w.locking = c.draw( 2 );
    size_t size = sizeof( MSmall ) + 8 * c.draw( 8 ) + c.draw( 8 ), padded = ( size + 63 ) / 64 * 64;     // what the queue may round up to
    const size_t sizes[ Forms ] = { sizeof( MSmall ), sizeof( MWide ), sizeof( MSecond ), sizeof( MOver ) };
    w.make( size );
    c.describe( "MessageQueue(%zu%s):", w.depth, w.locking ? ", dispatch locking" : "" );
    std::deque< int > model;
    unsigned kinds = 0; size_t n = 0;
    while ( n < 40 && c.more( 20 ) )
    {
        ++n;
        size_t k = c.draw( 8 );
        w.mainOps.emplace_back();
        Op & o = w.mainOps.back();
        if ( k < 5 )
        {
            o.kind = c.draw( 2 ) ? Put : Emplace; o.form = int( c.draw( 4 ) ); o.dispBomb = c.chance( 1, 4 ); o.ctorBomb = c.chance( 1, 4 );
            bool tooLarge = sizes[ o.form ] > padded, fits = sizes[ o.form ] <= size;
            // A full queue blocks, unless the message does not fit. Only then can it be tried here.
            if ( model.size() == w.depth && !tooLarge ) { w.mainOps.pop_back(); continue; }
            w.newId( o );
            w.exec( o );
            c.describe( " %s%s", o.kind == Put ? "put" : "emplace", o.outcome == Ok ? "" : o.outcome == SizeErr ? "(too large)" : "(threw)" );
            if ( tooLarge && o.outcome != SizeErr ) ds::fail( "a message of %zu bytes in a queue for %zu ended with %s", sizes[ o.form ], size, outcomeName( o.outcome ) );
            if ( fits && o.outcome == SizeErr ) ds::fail( "a message of %zu bytes was refused by a queue for %zu", sizes[ o.form ], size );
            if ( o.outcome != Ok && o.outcome != SizeErr && !( o.outcome == Boomed && o.ctorBomb ) ) ds::fail( "%s ended with %s", kindName( o.kind ), outcomeName( o.outcome ) );
            if ( o.ctorBomb && o.outcome == Ok ) ds::fail( "%s of a message whose constructor threw succeeded", kindName( o.kind ) );
            auto & l = w.lives[ size_t( o.id ) ];
            if ( o.outcome == Ok ) { if ( !l.born || l.died ) ds::fail( "an accepted message is not alive" ); model.push_back( o.id ); }
            else if ( l.born ) ds::fail( "a failed %s constructed a message", kindName( o.kind ) );
            if ( o.outcome == SizeErr ) kinds |= 1;
            if ( o.outcome == Boomed ) kinds |= 2;
        }
        else
        {
            if ( model.empty() ) { w.mainOps.pop_back(); continue; }
            o.kind = c.draw( 2 ) ? DispatchW : Dispatch; o.wakeBomb = o.kind == DispatchW && c.chance( 1, 3 );
            w.exec( o );
            int id = model.front(); model.pop_front();
            auto & l = w.lives[ size_t( id ) ];
            bool boom = o.wakeBomb || l.op->dispBomb;
            c.describe( " dispatch%s", boom ? "(threw)" : "" );
            if ( o.outcome != ( boom ? Boomed : Ok ) ) ds::fail( "%s ended with %s", kindName( o.kind ), outcomeName( o.outcome ) );
            if ( o.got != id ) ds::fail( "%s disposed of message %d, not %d", kindName( o.kind ), o.got, id );
            if ( l.dispatched != ( o.wakeBomb ? 0 : 1 ) || l.died != 1 ) ds::fail( "message %d was dispatched %d times and destroyed %d times", id, l.dispatched, l.died );
            if ( o.wakeBomb ) kinds |= 4; else if ( boom ) kinds |= 8;
        }
        if ( w.alive != model.size() ) ds::fail( "%zu messages are alive, %zu are enqueued", w.alive, model.size() );
    }
    c.nontrivial( ( kinds & ( kinds - 1 ) ) != 0 );
    if ( kinds & 1 ) c.label( "too large" );
    if ( kinds & 2 ) c.label( "constructor threw" );
    if ( kinds & 4 ) c.label( "wake-up functor threw" );
    if ( kinds & 8 ) c.label( "dispatch threw" );
    // Still the full capacity, and the rest is delivered.
    while ( !model.empty() ) { Op & o = w.main( Dispatch ); if ( o.got != model.front() ) ds::fail( "message %d came out instead of %d", o.got, model.front() ); model.pop_front(); }
    size_t before = 0;
    for ( ; before != w.depth; ++before ) if ( w.main( Emplace ).outcome != Ok ) ds::fail( "an idle queue refused a message with %zu of %zu enqueued", before, w.depth );
    for ( size_t i = 0; i != w.depth; ++i ) w.main( DispatchW );
    if ( w.alive ) ds::fail( "%zu messages are alive in an empty queue", w.alive );
    w.destroy();
}

static void body( pbt::Case & c, bool fine, bool lng = false )
{
    World w( c );
    if ( fine ) ds::fine( true );
    if ( lng ) w.generate( 5, 500, c.pick( { 3u, 8u } ), true, c.pick( { 30u, 100u, 250u } ) );
    else w.generate( 5, c.thorough ? 26 : 20, 3, true );
    w.describeProgram();
    w.make();
    w.start();
    ds::waitQuiescent();
    w.judgeRest( "at rest" );
    bool overlap = w.overlapped();
    w.settle();
    w.drain();
    w.judgeOutcomes( false );
    w.judgeLives();
    w.judgeFifo();
    unsigned kinds = 0; size_t failures = 0;
    w.each( [ & ]( const Op & o ) { failures += o.outcome == SizeErr || o.outcome == Boomed; if ( o.outcome == SizeErr ) kinds |= 1; if ( o.outcome == Boomed ) kinds |= o.producer() ? 2 : o.wakeBomb ? 4 : 8; } );
    c.nontrivial( overlap && ( !lng || failures >= 20 ) && ( kinds & ( kinds - 1 ) ) != 0 );
    if ( kinds & 1 ) c.label( "too large" );
    if ( kinds & 2 ) c.label( "constructor threw" );
    if ( kinds & 4 ) c.label( "wake-up functor threw" );
    if ( kinds & 8 ) c.label( "dispatch threw" );
    w.describeHistory();
    w.probeCapacity();
    w.drain();
    if ( w.alive ) ds::fail( "%zu messages are alive in an empty queue", w.alive );
    w.destroy();
}
PBT_SUITE( sync, "C16.sync", 250000, 5000000, "1-5 threads on queues of 1-4 messages; a third of constructions, dispatches and functors throw, an eighth of the messages are too large; afterwards the queue is filled to its depth again; non-trivial: calls overlapped and failures of two kinds were met" ) { body( c, false ); }
PBT_SUITE( fineS, "C16.fine", 150000, 3000000, "as C16.sync, with pre-emption also between plain memory accesses" ) { body( c, true ); }
PBT_SUITE( longS, "C16.long", 6000, 90000, "as C16.sync with up to 500 calls, on queues of up to 40 messages, threads stopped in the middle of calls for long; non-trivial: as C16.sync, and 20 or more calls failed" ) { body( c, false, true ); }
PBT_SUITE( longF, "C16.longfine", 3000, 45000, "as C16.long, with pre-emption also between plain memory accesses" ) { body( c, true, true ); }
