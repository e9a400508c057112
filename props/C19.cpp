// C19: statistics, last message name and purge of a message queue.
#include "mq.hpp"
#include <cstring>
using namespace mqw;

static const char * expectedName( World & w, int id ) { return w.opOf( id ).plain ? "Unforgiven" : nameOf( id ); }

// One thread: everything is exact, also within constructors, wake-up functors and dispatches.
PBT_SUITE( hist, "C19.history", 400000, 6000000, "single-threaded histories of put, emplace, dispatch (each may throw), purge, statistics and name on queues of 1-6 or up to 40 messages against an exact model, also observed from within constructors, functors and dispatches; non-trivial: the watermark rose above 1, messages were dispatched and something threw or was purged" )
{
    World w( c );
    w.depth = c.chance( 1, 8 ) ? 1 + c.draw( 40 ) : 1 + c.draw( 6 );
    w.locking = c.draw( 2 );
    bool inside = c.draw( 2 );
    w.make();
    c.describe( "MessageQueue(%zu%s):", w.depth, w.locking ? ", dispatch locking" : "" );
    std::deque< int > model;
    size_t high = 0, used = 0;
    std::string last = "[NONE]";
    auto check = [ & ]( const char * when )
    {
        MessageQueue::RunningStateStats st; const char * name;
        { ds::Sut s; st = w.q->getRunningStateStatistics(); name = w.q->getNameOfLastMessageDispatched(); }
        if ( st.size != w.depth ) ds::fail( "%s: the reported size is %zu, the queue was built for %zu", when, size_t( st.size ), w.depth );
        if ( st.runningCount != used ) ds::fail( "%s: the reported running count is %zu, %zu slots are in use", when, size_t( st.runningCount ), used );
        if ( st.highWatermark != high ) ds::fail( "%s: the reported high watermark is %zu, at most %zu slots were in use", when, size_t( st.highWatermark ), high );
        if ( !name || last != name ) ds::fail( "%s: the reported name is \"%s\" instead of \"%s\"", when, name ? name : "(null)", last.c_str() );
    };
    if ( inside ) w.observe = [ & ]( int id, World::Moment m )
    {
        if ( m == World::AtDispatch ) last = expectedName( w, id );
        check( m == World::AtDispatch ? "within a dispatch" : m == World::AtWake ? "within a wake-up functor" : "within a constructor" );
    };
    check( "new" );
    bool threw = false, purged = false, disp = false;
    size_t n = 0, most = w.depth > 6 ? 120 : 40;
    while ( n < most && c.more( 25 ) )
    {
        ++n;
        size_t k = c.weighted( { 10, 8, 1 } );
        w.mainOps.emplace_back();
        Op & o = w.mainOps.back();
        if ( k == 0 )
        {
            if ( model.size() == w.depth ) { w.mainOps.pop_back(); continue; }
            o.kind = c.draw( 2 ) ? Put : Emplace; o.form = int( c.draw( 3 ) ); o.dispBomb = c.chance( 1, 5 ); o.ctorBomb = c.chance( 1, 6 ); o.plain = c.chance( 1, 6 );
            if ( c.chance( 1, 10 ) ) { o.form = Oversize; o.ctorBomb = false; }
            w.newId( o );
            if ( o.form != Oversize ) { ++used; if ( used > high ) high = used; }
            w.exec( o );
            if ( o.outcome == Ok ) model.push_back( o.id );
            else { threw = true; if ( o.form != Oversize ) --used; }
            c.describe( " %s%s", o.kind == Put ? "put" : "emplace", o.outcome == Ok ? "" : "(threw)" );
            if ( ( o.outcome == Ok ) == ( o.ctorBomb || o.form == Oversize ) ) ds::fail( "%s ended with %s", kindName( o.kind ), outcomeName( o.outcome ) );
        }
        else if ( k == 1 )
        {
            if ( model.empty() ) { w.mainOps.pop_back(); continue; }
            o.kind = c.draw( 2 ) ? DispatchW : Dispatch; o.wakeBomb = o.kind == DispatchW && c.chance( 1, 4 );
            w.exec( o );
            int id = model.front(); model.pop_front(); --used;
            if ( o.got != id ) ds::fail( "message %d came out instead of %d", o.got, id );
            if ( !o.wakeBomb ) last = expectedName( w, id );
            threw = threw || o.outcome == Boomed; disp = true;
            c.describe( " dispatch%s", o.outcome == Boomed ? "(threw)" : "" );
        }
        else
        {
            w.main( Purge );
            w.mainOps.erase( w.mainOps.end() - 2 );     // the unused one
            c.describe( " purge" );
            for ( int id : model ) { auto & l = w.lives[ size_t( id ) ]; if ( l.died != 1 || l.dispatched ) ds::fail( "purge: message %d was destroyed %d times and dispatched %d times", id, l.died, l.dispatched ); purged = true; }
            model.clear(); used = 0;
        }
        check( "afterwards" );
        if ( w.alive != used ) ds::fail( "%zu messages are alive, %zu are enqueued", w.alive, used );
    }
    if ( c.draw( 2 ) ) { w.main( Purge ); purged = purged || !model.empty(); model.clear(); used = 0; check( "after the last purge" ); if ( w.alive ) ds::fail( "%zu messages survived a purge", w.alive ); }
    // Usable as before, to its depth, in order.
    while ( model.size() != w.depth ) { ++used; if ( used > high ) high = used; Op & o = w.main( model.size() % 2 ? Put : Emplace, int( used % 3 ) ); if ( o.outcome != Ok ) ds::fail( "an idle queue refused a message with %zu of %zu enqueued", used - 1, w.depth ); model.push_back( o.id ); }
    check( "full" );
    c.nontrivial( high > 1 && disp && ( threw || purged ) );
    if ( threw ) c.label( "exceptions on the way" );
    if ( purged ) c.label( "messages purged" );
    if ( w.depth > 6 ) c.label( "more than 6 slots" );
    while ( !model.empty() ) { Op & o = w.main( Dispatch ); last = expectedName( w, model.front() ); if ( o.got != model.front() ) ds::fail( "message %d came out instead of %d", o.got, model.front() ); model.pop_front(); --used; }
    check( "empty again" );
    w.destroy();
}

struct Ev { uint64_t at; int certain, possible; };

static void judgeStats( World & w )
{
    // How many slots were in use, for certain and at most, over time.
    std::vector< Ev > ev;
    auto span = [ & ]( uint64_t from, uint64_t to, bool certain )
    {
        ev.push_back( { from, certain ? 1 : 0, certain ? 0 : 1 } );
        if ( to != lin::Pending ) ev.push_back( { to, certain ? -1 : 0, certain ? 0 : -1 } );
    };
    for ( auto & l : w.lives ) if ( l.born ) span( l.bornAt, l.died ? l.diedAt : lin::Pending, true );
    w.each( [ & ]( const Op & p )
    {
        if ( !p.producer() || p.form == Oversize ) return;
        uint64_t end = lin::Pending;
        if ( p.res != lin::Pending && p.outcome != Ok ) end = p.res;
        else w.each( [ & ]( const Op & d ) { if ( d.dispatcher() && d.got == p.id ) end = d.res; } );
        span( p.inv, end, false );
    } );
    std::stable_sort( ev.begin(), ev.end(), []( const Ev & a, const Ev & b ) { return a.at < b.at; } );
    std::vector< const Op * > stats;
    w.each( [ & ]( const Op & o ) { if ( o.kind == Stat && o.res != lin::Pending ) stats.push_back( &o ); } );
    for ( auto o : stats )
    {
        auto bad = [ & ]( const char * why, size_t a, size_t b ) { w.describeHistory(); ds::fail( "statistics read by thread %d: running count %u, high watermark %u, size %zu: %s (%zu, %zu)", o->fiber, o->st.runningCount, o->st.highWatermark, size_t( o->st.size ), why, a, b ); };
        size_t run = o->st.runningCount, high = o->st.highWatermark;
        if ( o->st.size != w.depth ) bad( "the queue was built for another size", w.depth, 0 );
        if ( run > w.depth ) bad( "more than the queue has", w.depth, 0 );
        if ( high > w.depth ) bad( "a watermark above what the queue has", w.depth, 0 );
        if ( run > high ) bad( "a watermark below the running count", 0, 0 );
        int cert = 0, poss = 0, certMax = 0, possMax = 0;
        bool fits = false, certInit = false;
        size_t lo = 0, hi = 0, i = 0;
        for ( ; i != ev.size() && ev[ i ].at <= o->inv; ++i ) { cert += ev[ i ].certain; poss += ev[ i ].possible; certMax = std::max( certMax, cert ); possMax = std::max( possMax, poss ); }
        size_t highAtLeast = size_t( certMax );
        lo = size_t( cert ); hi = size_t( poss ); certInit = true;
        fits = run >= size_t( cert ) && run <= size_t( poss );
        for ( ; i != ev.size() && ev[ i ].at <= o->res; ++i )
        {
            cert += ev[ i ].certain; poss += ev[ i ].possible; possMax = std::max( possMax, poss );
            lo = std::min( lo, size_t( cert ) ); hi = std::max( hi, size_t( poss ) );
            if ( run >= size_t( cert ) && run <= size_t( poss ) ) fits = true;
        }
        (void)certInit;
        if ( !fits ) bad( "the slots in use at any moment of the call were never that many (least, most)", lo, hi );
        if ( high < highAtLeast ) bad( "a watermark below what had been in use", highAtLeast, 0 );
        if ( high > size_t( possMax ) ) bad( "a watermark above what can have been in use", size_t( possMax ), 0 );
        for ( auto p : stats ) if ( p->res < o->inv && p->st.highWatermark > high ) bad( "the watermark fell", p->st.highWatermark, 0 );
    }
}

static void judgeNames( World & w )
{
    struct Given { int id; uint64_t from, to; };        // when its name was recorded
    std::vector< Given > g;
    w.each( [ & ]( const Op & d )
    {
        if ( !d.dispatcher() || d.wakeBomb ) return;
        // A dispatcher that was given something but is not through yet may have recorded any name in flight.
        if ( d.got >= 0 && w.lives[ size_t( d.got ) ].dispatched ) g.push_back( { d.got, std::max( d.inv, w.lives[ size_t( d.got ) ].bornAt ), w.lives[ size_t( d.got ) ].dispStart } );
        else if ( d.res == lin::Pending ) for ( size_t i = 0; i != w.lives.size(); ++i ) if ( w.lives[ i ].born && !w.lives[ i ].dispatched ) g.push_back( { int( i ), d.inv, lin::Pending } );
    } );
    w.each( [ & ]( const Op & o )
    {
        if ( o.kind != Name || o.res == lin::Pending ) return;
        std::string t = o.text ? o.text : "(null)";
        bool ok = false;
        if ( t == "[NONE]" ) { ok = true; for ( auto & x : g ) if ( x.to < o.inv ) ok = false; }
        else for ( auto & x : g )
        {
            if ( t != expectedName( w, x.id ) || x.from > o.res ) continue;
            bool superseded = false;
            for ( auto & y : g ) if ( x.to != lin::Pending && y.from > x.to && y.to < o.inv ) superseded = true;
            if ( !superseded ) ok = true;
        }
        if ( !ok ) { w.describeHistory(); ds::fail( "thread %d was told that \"%s\" was dispatched last", o.fiber, t.c_str() ); }
    } );
}

static void body( pbt::Case & c, bool fine, bool lng = false )
{
    World w( c );
    if ( fine ) ds::fine( true );
    if ( lng ) { unsigned b = c.draw( 2 ) ? 30 : 0; w.generate( 5, 240, b, c.chance( 1, 4 ), c.pick( { 20u, 60u, 120u } ) ); }
    else w.generate( 5, c.thorough ? 22 : 16, c.draw( 2 ) ? 5 : 0, c.chance( 1, 4 ) );
    for ( auto & p : w.prog ) for ( auto & o : p ) if ( o.producer() && c.chance( 1, 8 ) ) o.plain = true;
    // Readers among them and on their own.
    std::vector< std::vector< Op > > readers( 1 + c.draw( 2 ) );
    for ( auto & r : readers ) while ( r.size() < ( lng ? 30 : 8 ) && c.more( lng ? 20 : 4 ) ) { Op o; o.kind = c.chance( 1, 3 ) ? Name : Stat; r.push_back( o ); }
    for ( auto & r : readers ) w.prog.push_back( r );
    bool holdLock = w.locking && c.chance( 1, 3 );
    if ( holdLock ) { Op o; o.kind = Hold; o.script = { Get, GateWait }; w.prog.emplace_back(); w.prog.back().push_back( o ); }
    bool purge = c.draw( 2 );
    w.describeProgram();
    w.make();
    if ( holdLock ) w.closeGate();
    w.start();
    ds::waitQuiescent();
    w.judgeRest( "at rest" );
    bool overlap = w.overlapped();
    auto & st = w.main( Stat );
    if ( st.st.runningCount != w.alive && !( w.inDispatch || w.holder >= 0 ) ) { w.describeHistory(); ds::fail( "at rest the reported running count is %u, %zu slots are in use", st.st.runningCount, w.alive ); }
    w.main( Name );
    if ( holdLock ) { w.openGate(); ds::waitQuiescent(); w.judgeRest( "after the lock was released" ); }
    w.settle();
    auto & st2 = w.main( Stat );
    if ( st2.st.runningCount != w.alive ) { w.describeHistory(); ds::fail( "with no call in progress the reported running count is %u, %zu slots are in use", st2.st.runningCount, w.alive ); }
    size_t purged = 0;
    if ( purge )
    {
        // Others may look on, and may hold the dispatch lock.
        Op lock; lock.kind = Hold; lock.script = { Get, GateWait };
        std::vector< Op > look( 4 );
        for ( size_t i = 0; i != look.size(); ++i ) look[ i ].kind = i % 2 ? Name : Stat;
        w.prog.reserve( w.prog.size() + 2 );
        bool locked = w.locking && c.draw( 2 );
        if ( locked ) { w.closeGate(); ds::spawn( [ & ]() { w.exec( lock ); } ); ds::waitQuiescent(); }
        ds::spawn( [ & ]() { for ( auto & o : look ) w.exec( o ); } );
        size_t before = w.alive;
        w.main( Purge );
        purged = before;
        ds::waitQuiescent();
        if ( locked ) { w.openGate(); ds::waitQuiescent(); }
        if ( w.alive ) { w.describeHistory(); ds::fail( "%zu messages survived a purge", w.alive ); }
        auto & st3 = w.main( Stat );
        if ( st3.st.runningCount ) { w.describeHistory(); ds::fail( "after a purge the reported running count is %u", st3.st.runningCount ); }
        for ( auto & o : look ) { if ( o.kind == Stat && ( o.st.runningCount > before || o.st.highWatermark != st3.st.highWatermark ) ) ds::fail( "statistics read during a purge: running count %u, high watermark %u", o.st.runningCount, o.st.highWatermark ); }
    }
    else w.drain();
    w.judgeOutcomes( false );
    w.judgeLives();
    if ( !purge ) judgeStats( w );
    judgeNames( w );
    w.describeHistory();
    c.nontrivial( overlap && w.mostAlive > 0 && ( !lng || w.lives.size() >= 40 ) );
    if ( purged ) c.label( "messages purged" );
    if ( w.mostAlive == w.depth ) c.label( "queue was full" );
    w.probeCapacity();
    w.drain();
    auto & st4 = w.main( Stat );
    if ( st4.st.runningCount || st4.st.highWatermark != w.depth ) ds::fail( "after it was filled and emptied the reported running count is %u, the high watermark %u of %zu", st4.st.runningCount, st4.st.highWatermark, w.depth );
    w.destroy();
}
PBT_SUITE( sync, "C19.sync", 400000, 6000000, "1-5 threads putting and dispatching, 1-2 reading statistics and names meanwhile; every snapshot judged against what was in use for certain and at most; then half of the queues are purged (others reading and holding the dispatch lock), and all are filled again; non-trivial: calls overlapped and messages were enqueued" ) { body( c, false ); }
PBT_SUITE( fineS, "C19.fine", 200000, 3000000, "as C19.sync, with pre-emption also between plain memory accesses" ) { body( c, true ); }
PBT_SUITE( longS, "C19.long", 6000, 90000, "as C19.sync with up to 240 calls and 60 reads, on queues of up to 40 messages, threads stopped in the middle of calls for long; non-trivial: as C19.sync, and 40 or more messages were made" ) { body( c, false, true ); }
PBT_SUITE( longF, "C19.longfine", 3000, 45000, "as C19.long, with pre-emption also between plain memory accesses" ) { body( c, true, true ); }
