// C08: the life cycle of a RingBufferGuarded, against a state machine.
#include "ring.hpp"
using namespace ringw;

template< class T > static void judge( World< T > & w, const State & init )
{
    auto h = w.history();
    if ( h.size() > 60 ) return;
    if ( !lin::check< State >( h, init, apply, [ & ]( const State &, uint64_t ) { return true; } ) )
    { w.describeHistory(); ds::fail( "no order of the calls explains their results under the prime/ready/terminal life cycle" ); }
}

// One thread, calls that must not block.
template< class T > static void history( pbt::Case & c, const char * type )
{
    World< T > w( c );
    w.req = 1 + c.draw( 9 );
    w.primed = c.draw( 3 ) != 0;
    w.describeProgram( type );
    w.make();
    State s; s.cap = w.req; s.st = w.primed ? 0 : 1;
    State init = s;
    bool aborted = false, flushed = false, primedOk = false, primeThrew = false; int refused = 0;
    size_t n = 0;
    while ( n < 24 && c.more( 12 ) )
    {
        ++n;
        size_t k = c.weighted( { 6, 6, 1, 2, 2 } );
        w.mainOps.emplace_back();
        Rec & o = w.mainOps.back();
        o.kind = int( k );
        if ( o.kind == Put ) { o.value = 1000 + n; if ( s.st == 1 && s.q.size() >= s.cap ) { w.mainOps.pop_back(); continue; } }
        if ( o.kind == Get && s.st == 1 && s.q.empty() ) { w.mainOps.pop_back(); continue; }
        if ( o.kind == Prime )
        {
            if ( primeThrew && s.st == 0 ) { w.mainOps.pop_back(); continue; }      // priming again after a throw is not defined
            if ( c.chance( 1, 5 ) ) o.throwAt = int( c.draw( w.req ) );
            else if ( c.chance( 1, 5 ) ) o.abortAt = int( c.draw( w.req ) );
        }
        if ( o.kind == Flush && c.chance( 1, 4 ) ) o.throwAt = 1 + int( c.draw( w.req ) );
        w.exec( o );
        // A functor that aborts the ring in the middle of prime: the ring is terminal and keeps what was loaded.
        State before = s;
        bool ok;
        if ( o.kind == Prime && o.abortAt >= 0 && s.st == 0 )
        {
            ok = o.outcome == Ok && int( o.values.size() ) == o.abortAt + 1;
            for ( auto v : o.values ) s.q.push_back( v );
            s.st = 2;
        }
        else
        {
            ok = apply( s, o );
            if ( o.kind == Prime && before.st == 0 && o.throwAt >= 0 ) { ok = ok && o.outcome == Boomed && int( o.values.size() ) == o.throwAt; primeThrew = true; }
            if ( o.kind == Prime && before.st == 0 && o.throwAt < 0 ) { ok = ok && o.outcome == Ok; primedOk = true; }
            if ( o.kind == Flush && before.st == 2 ) ok = ok && o.outcome == ( o.throwAt > 0 && size_t( o.throwAt ) <= before.q.size() ? Boomed : Ok );
        }
        if ( !ok )
        {
            w.describeHistory();
            static const char * sn[] = { "needs priming", "ready", "terminal" };
            ds::fail( "ring of %zu, %s, holding %zu: %s ended with %s after its functor had handled %zu values", w.req, sn[ before.st ], before.q.size(), kindName( o.kind ), outcomeName( o.outcome ), o.values.size() );
        }
        if ( o.outcome == StateErr ) ++refused;
        if ( s.st == 2 ) aborted = true;
        if ( o.kind == Flush && o.outcome != StateErr ) flushed = true;
    }
    c.nontrivial( n >= 4 && ( aborted || primedOk ) );
    if ( flushed ) c.label( "flushed" );
    if ( primeThrew ) c.label( "prime functor threw" );
    if ( refused ) c.label( "calls refused" );
    if ( aborted && w.primed && !primedOk ) c.label( "aborted before it was primed" );
    w.describeHistory();
    w.destroy();
}

// Threads, abort at any moment, flush at rest.
template< class T > static void concurrent( pbt::Case & c, const char * type, bool fine )
{
    World< T > w( c );
    w.req = 1 + c.draw( 5 );
    w.primed = c.draw( 2 );
    size_t threads = 1 + c.draw( 5 ), total = 0;
    bool abortInside = c.draw( 2 ), primeInside = w.primed && c.draw( 2 );
    for ( size_t t = 0; t != threads; ++t )
    {
        w.prog.emplace_back();
        size_t bias = c.draw( 3 );
        if ( primeInside && t == 0 ) { Rec o; o.kind = Prime; w.prog.back().push_back( o ); ++total; }
        while ( total < 16 && c.more( 4 ) )
        {
            Rec o;
            o.kind = bias == 0 ? Put : bias == 1 ? Get : c.draw( 2 ) ? Get : Put;
            if ( abortInside && c.chance( 1, 6 ) ) o.kind = Abort;
            if ( o.kind == Put ) o.value = 1000 + w.next++;
            w.prog.back().push_back( o ); ++total;
        }
    }
    if ( fine ) ds::fine( true );
    w.describeProgram( type );
    w.make();
    State init; init.cap = w.req; init.st = w.primed ? 0 : 1;
    if ( w.primed && !primeInside && c.draw( 3 ) ) w.main( Prime );
    w.start();
    ds::waitQuiescent();
    bool blocked = !ds::allDone();
    uint64_t abortRes = lin::Pending;
    for ( auto & o : w.history() ) if ( o.kind == Abort && o.res < abortRes ) abortRes = o.res;
    bool inside = abortRes != lin::Pending;
    if ( blocked && inside ) { w.describeHistory(); ds::fail( "a thread is still blocked after abort" ); }
    judge( w, init );
    if ( !inside || c.draw( 4 ) == 0 ) { w.main( Abort ); ds::waitQuiescent(); }
    if ( !ds::allDone() ) { w.describeHistory(); ds::fail( "a thread is still blocked after abort" ); }
    w.main( Get ); w.main( Put, 9999 );
    if ( w.mainOps[ w.mainOps.size() - 2 ].outcome == Ok ) ds::fail( "get succeeded after abort" );
    Rec f; f.kind = Flush;
    if ( c.chance( 1, 4 ) ) { f.throwAt = 1; w.mainOps.push_back( f ); w.exec( w.mainOps.back() ); }
    auto & fl = w.main( Flush );
    if ( fl.outcome != Ok ) { w.describeHistory(); ds::fail( "flush of an aborted ring ended with %s", outcomeName( fl.outcome ) ); }
    size_t got = fl.values.size();
    auto & again = w.main( Flush );
    if ( again.outcome != Ok || !again.values.empty() ) { w.describeHistory(); ds::fail( "a second flush delivered %zu values and ended with %s", again.values.size(), outcomeName( again.outcome ) ); }
    judge( w, init );
    c.nontrivial( w.overlapped() && ( blocked || inside ) );
    if ( blocked ) c.label( "calls were blocked when aborted" );
    if ( inside ) c.label( "abort overlapped other calls" );
    if ( primeInside ) c.label( "primed while others call" );
    if ( got ) c.label( "values left to flush" );
    w.describeHistory();
    w.destroy();
}

PBT_SUITE( seqS, "C08.history", 400000, 6000000, "single-threaded histories of prime (also with functors that throw or abort), put, get, abort and flush (also with throwing functors) on rings of 1-9, in every state; non-trivial: at least four calls and the ring was primed or aborted" )
{
    switch ( c.draw( 4 ) )
    {
        case 2: history< long double >( c, "long double" ); break;
        case 0: history< uint32_t >( c, "uint32_t" ); break;
        case 1: history< void * >( c, "void *" ); break;
        default: history< double >( c, "double" ); break;
    }
}
PBT_SUITE( sync, "C08.sync", 500000, 8000000, "threads putting, getting, priming and aborting; at rest the ring is aborted, used once more and flushed; non-trivial: calls overlapped, and abort overlapped them or found calls blocked" )
{
    if ( c.draw( 2 ) ) concurrent< uint32_t >( c, "uint32_t", false ); else concurrent< void * >( c, "void *", false );
}
PBT_SUITE( fineS, "C08.fine", 250000, 4000000, "as C08.sync, with pre-emption also between plain memory accesses" )
{
    if ( c.draw( 2 ) ) concurrent< uint32_t >( c, "uint32_t", true ); else concurrent< void * >( c, "void *", true );
}
