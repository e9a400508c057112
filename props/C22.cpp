// C22: hand-over through any component is a synchronisation point. Threads pass tokens - plain, unsynchronised memory -
// to each other through every component; a happens-before detector watches every access of theirs and of the library.
#include "pbt.hpp"
#include "ds.hpp"

#include "BlockPool.hpp"
#include "MessageQueue.hpp"
#include "Mutex.hpp"
#include "ObjectPool.hpp"
#include "RingBufferGuarded.hpp"
#include "Semaphore.hpp"
#include "ReiserRT_CoreExceptions.hpp"

#include <map>
#include <memory>
#include <mutex>
#include <vector>

using namespace ReiserRT::Core;

namespace
{
    // What is handed over: nothing in it is atomic or locked.
    struct Token
    {
        long v{ 1 }, hops{ 0 };
        char tail[ 5 ]{};
        void touch() { v = v * 3 + 1; ++hops; for ( auto & t : tail ) t = char( t + 1 ); }
    };
    constexpr int Room = 64;
    struct Store        // a plain queue; whoever uses it must be excluded by something else
    {
        Token * t[ Room ]{}; unsigned head{ 0 }, tail{ 0 };
        void push( Token * x ) { t[ tail++ % Room ] = x; }
        Token * pop() { return t[ head++ % Room ]; }
        unsigned size() const { return tail - head; }
    };

    enum Via { SemFunctors, SemBounded, SemBinary, SemCounting, Ring, PrimedRing, Queue, LockedQueue, MutexStore, PoolObject, Transports };
    const char * viaName( int v )
    {
        static const char * n[] = { "semaphore functors", "bounded semaphore functors", "binary semaphore", "counting semaphore", "ring", "primed ring", "message queue", "locked message queue", "mutex", "pooled object" };
        return n[ v ];
    }
    enum Act { Send, Recv, Recycle, Block, Observe, Hold, AbortIt, Prime, Acts };
    const char * actName( int a ) { static const char * n[] = { "send by", "receive by", "recycle", "block", "observe", "hold dispatch lock", "abort", "prime" }; return n[ a ]; }
    struct Op { int act, via, flavour; };

    struct Node { Token * tok; long x[ 3 ]; explicit Node( Token * t, long s ) : tok( t ) { for ( auto & v : x ) v = s; } virtual ~Node() noexcept { for ( auto & v : x ) v = -1; } };
    struct Leaf : Node { long y; Leaf( Token * t, long s ) : Node( t, s ), y( s ) {} };

    struct World;
    World * world;
    struct Hand { Token * got[ 4 ]{}; int n{ 0 }; };       // in the arena: private to one thread
    Hand * hand();

    struct Msg : MessageBase
    {
        Token * tok; long pay[ 2 ];
        explicit Msg( Token * t ) : tok( t ) { pay[ 0 ] = pay[ 1 ] = t->v; }
        Msg( Msg && o ) : MessageBase( o ), tok( o.tok ) { pay[ 0 ] = o.pay[ 0 ]; pay[ 1 ] = o.pay[ 1 ]; o.tok = nullptr; }
        ~Msg() noexcept override { pay[ 0 ] = pay[ 1 ] = 0; }
        void dispatch() override;
        const char * name() const override { return "token"; }
    };
    struct LMsg : Msg { using Msg::Msg; void dispatch() override; const char * name() const override { return "locked token"; } };

    struct World
    {
        Semaphore * sf{ nullptr }, * sb{ nullptr }, * s1{ nullptr }, * sc{ nullptr };
        Store * stF{ nullptr }, * stB{ nullptr }, * st1{ nullptr }, * stM{ nullptr }, * stP{ nullptr };
        Token ** line{ nullptr };           // counting semaphore: one writer, entries published by give
        unsigned written{ 0 }, readFrom{ 0 };
        int lineWriter{ -1 }, lineReader{ -1 };
        RingBufferGuarded< Token * > * ring{ nullptr };
        RingBufferGuarded< Token * > * primed{ nullptr };
        MessageQueue * mq{ nullptr }, * lq{ nullptr };
        long * lockedCount{ nullptr };      // touched by locked dispatches and by holders of the dispatch lock
        Mutex * m{ nullptr };
        ObjectPool< Node > * op{ nullptr };
        BlockPool< int > * bp{ nullptr };
        using NodePtr = ObjectPool< Node >::ObjectPtrType;
        NodePtr * shelf{ nullptr };         // protected by m
        Hand * hands[ ds::MaxFibers ]{};
        std::vector< Token * > all;
        uint64_t touches{ 0 }, sent{ 0 }, received{ 0 }, reused{ 0 }, lockedTouches{ 0 };
        bool crossed{ false };
        std::map< Token *, int > last;      // who touched it last
    };
    Hand * hand() { return world->hands[ ds::self() ]; }
    void handle( Token * t )       // in Sut mode: the user's own work on what it was given
    {
        t->touch();
        ds::Quiet q;
        ++world->touches;
        auto i = world->last.emplace( t, ds::self() ).first;
        if ( i->second != ds::self() ) world->crossed = true;
        i->second = ds::self();
    }
    void keep( Token * t )
    {
        handle( t );
        Hand * h = hand();
        if ( h->n < 4 ) h->got[ h->n++ ] = t;
    }
    void Msg::dispatch() { if ( pay[ 0 ] != tok->v || pay[ 1 ] != tok->v ) ds::fail( "a message and what it points to disagree when it is dispatched" ); keep( tok ); ds::Quiet q; ++world->received; }
    void LMsg::dispatch() { ++*world->lockedCount; { ds::Quiet q; ++world->lockedTouches; } Msg::dispatch(); }

    struct Stop {};
}

static void act( World & w, const Op & o )
{
    int me = ds::self();
    Hand * h = w.hands[ me ];
    auto fresh = [ & ]() -> Token *
    {
        if ( h->n ) { Token * t; { ds::Sut s; t = h->got[ --h->n ]; t->touch(); } ++w.touches; return t; }
        Token * t;
        { ds::Sut s; t = new Token; }
        w.all.push_back( t ); w.last[ t ] = me;
        return t;
    };
    switch ( o.act )
    {
        case Send:
        {
            if ( o.via == SemCounting ) { if ( w.lineWriter >= 0 && w.lineWriter != me ) return; w.lineWriter = me; }
            if ( o.via == PrimedRing ) return;      // only full ones are given back
            if ( ( o.via == SemFunctors && w.sf->getAvailableCount() > 40 ) ) return;
            if ( o.via == SemCounting && w.written == Room ) return;
            Token * t = fresh();
            ++w.sent;
            ds::Sut s;
            switch ( o.via )
            {
                case SemFunctors: { auto f = [ & ] { w.stF->push( t ); }; w.sf->give( std::ref( f ) ); break; }
                case SemBounded: { auto f = [ & ] { w.stB->push( t ); }; w.sb->give( std::ref( f ) ); break; }
                case SemBinary: w.s1->take(); w.st1->push( t ); w.s1->give(); break;
                case SemCounting: { unsigned k; { ds::Quiet q; k = w.written++; } w.line[ k ] = t; if ( o.flavour ) { auto f = [] {}; w.sc->give( std::ref( f ) ); } else w.sc->give(); break; }
                case Ring: w.ring->put( t ); break;
                case Queue: if ( o.flavour ) w.mq->emplace< Msg >( t ); else { Msg m( t ); w.mq->put( std::move( m ) ); } break;
                case LockedQueue: if ( o.flavour ) w.lq->emplace< LMsg >( t ); else { LMsg m( t ); w.lq->put( std::move( m ) ); } break;
                case MutexStore: { std::lock_guard< Mutex > g( *w.m ); w.stM->push( t ); break; }
                case PoolObject:
                {
                    World::NodePtr p;
                    try { if ( o.flavour ) p = w.op->createObj< Leaf >( t, 5 ); else p = w.op->createObj< Node >( t, 7 ); }
                    catch ( const RingBufferUnderflow & ) { h->got[ h->n < 4 ? h->n++ : 3 ] = t; return; }
                    std::lock_guard< Mutex > g( *w.m );
                    if ( *w.shelf ) { ds::Quiet q; ++w.reused; }
                    *w.shelf = std::move( p );
                    break;
                }
            }
            break;
        }
        case Recv:
        {
            Token * t = nullptr;
            if ( o.via == SemCounting ) { if ( w.lineReader >= 0 && w.lineReader != me ) return; w.lineReader = me; }
            {
                ds::Sut s;
                switch ( o.via )
                {
                    case SemFunctors: { auto f = [ & ] { t = w.stF->pop(); }; w.sf->take( std::ref( f ) ); break; }
                    case SemBounded: { auto f = [ & ] { t = w.stB->pop(); }; w.sb->take( std::ref( f ) ); break; }
                    case SemBinary: w.s1->take(); if ( w.st1->size() ) t = w.st1->pop(); w.s1->give(); break;
                    case SemCounting: { w.sc->take(); unsigned k; { ds::Quiet q; k = w.readFrom++; } t = w.line[ k ]; break; }
                    case Ring: t = w.ring->get(); break;
                    case PrimedRing: t = w.primed->get(); handle( t ); w.primed->put( t ); t = nullptr; break;
                    case Queue: if ( o.flavour ) { auto f = [] {}; w.mq->getAndDispatch( std::ref( f ) ); } else w.mq->getAndDispatch(); break;
                    case LockedQueue: if ( o.flavour ) { auto f = [] {}; w.lq->getAndDispatch( std::ref( f ) ); } else w.lq->getAndDispatch(); break;
                    case MutexStore:
                        if ( o.flavour ) { if ( w.m->try_lock() ) { if ( w.stM->size() ) t = w.stM->pop(); w.m->unlock(); } }
                        else { std::unique_lock< Mutex > g( *w.m ); if ( w.stM->size() ) t = w.stM->pop(); }
                        break;
                    case PoolObject:
                    {
                        World::NodePtr p;
                        { std::lock_guard< Mutex > g( *w.m ); p = std::move( *w.shelf ); }
                        if ( p ) { t = p->tok; if ( p->x[ 0 ] != p->x[ 2 ] ) ds::fail( "a pooled object was altered on the way" ); ++p->x[ 1 ]; }
                        break;
                    }
                }
                if ( t ) keep( t );
            }
            if ( t ) ++w.received;
            break;
        }
        case Recycle:
        {
            ds::Sut s;
            for ( int k = 0; k <= o.flavour; ++k )
            {
                try { auto p = w.op->createObj< Leaf >( nullptr, 3 ); p->x[ 0 ] = 9; auto p2 = std::move( p ); }
                catch ( const RingBufferUnderflow & ) {}
            }
            break;
        }
        case Block:
        {
            ds::Sut s;
            try { auto p = w.bp->getBlock(); for ( size_t i = 0; i != p.get_deleter().getNumElements(); ++i ) { if ( p[ i ] ) ds::fail( "a fresh block is not zero" ); p[ i ] = 7; } }
            catch ( const RingBufferUnderflow & ) {}
            break;
        }
        case Observe:
        {
            ds::Sut s;
            switch ( o.via % 5 )
            {
                case 0: (void)w.sf->getAvailableCount(); (void)w.sb->getAvailableCount(); break;
                case 1: (void)w.op->getRunningStateStatistics(); (void)w.bp->getRunningStateStatistics(); break;
                case 2: (void)w.mq->getRunningStateStatistics(); (void)w.lq->getRunningStateStatistics(); break;
                case 3: if ( !w.mq->getNameOfLastMessageDispatched()[ 0 ] || !w.lq->getNameOfLastMessageDispatched()[ 0 ] ) ds::fail( "empty name" ); break;
                default: (void)w.op->getSize(); (void)w.bp->getSize(); (void)w.ring->getSize(); break;
            }
            break;
        }
        case Hold:
        {
            ds::Sut s;
            auto l = w.lq->getAutoDispatchLock();
            ++*w.lockedCount;
            if ( o.flavour ) { l.unlock(); l.lock(); ++*w.lockedCount; ds::Quiet q; ++w.lockedTouches; }
            auto l2 = std::move( l );
            ds::point();
            ++*w.lockedCount;
            ds::Quiet q;
            w.lockedTouches += 2;
            break;
        }
        case Prime:
        {
            auto f = [ & ]( size_t ) -> void * { Token * t = new Token; { ds::Quiet q; w.all.push_back( t ); w.last[ t ] = me; } return t; };
            ds::Sut s;
            w.primed->prime( std::ref( f ) );
            break;
        }
        case AbortIt:
        {
            ds::Sut s;
            switch ( o.via )
            {
                case SemFunctors: w.sf->abort(); break;
                case SemBounded: w.sb->abort(); break;
                case SemCounting: w.sc->abort(); break;
                case Ring: w.ring->abort(); break;
                case PrimedRing: w.primed->abort(); break;
                case Queue: w.mq->abort(); break;
                case LockedQueue: w.lq->abort(); break;
                default: break;
            }
            break;
        }
    }
}

static void body( pbt::Case & c, bool fine )
{
    World w;
    world = &w;
    ds::races( true );
    if ( fine ) ds::fine( true );
    size_t depth = 1 + c.draw( 4 );
    bool aborts = c.chance( 1, 5 );
    {
        ds::Sut s;
        w.sf = new Semaphore( 0 ); w.sb = new Semaphore( 0, 1 + depth % 3 ); w.s1 = new Semaphore( 1, depth % 2 ? 1 : 0 ); w.sc = new Semaphore( 0 );
        w.stF = new Store; w.stB = new Store; w.st1 = new Store; w.stM = new Store;
        w.line = new Token *[ Room ]();
        w.ring = new RingBufferGuarded< Token * >( depth );
        w.primed = new RingBufferGuarded< Token * >( depth, true );
        w.mq = new MessageQueue( depth, sizeof( Msg ) ); w.lq = new MessageQueue( depth, sizeof( LMsg ), true );
        w.lockedCount = new long( 0 );
        w.m = new Mutex;
        w.op = new ObjectPool< Node >( depth, sizeof( Leaf ) ); w.bp = new BlockPool< int >( depth, 3 );
        w.shelf = new World::NodePtr;
    }
    // Primed before the threads start, or by one of them while others already try to get.
    bool late = c.draw( 3 ) == 2;
    if ( !late ) act( w, Op{ Prime, PrimedRing, 0 } );
    // The transports this case uses.
    int vias[ 4 ]; size_t nv = 1 + c.draw( 3 );
    for ( size_t i = 0; i != nv; ++i ) vias[ i ] = int( c.draw( Transports ) );
    if ( late ) vias[ nv++ ] = PrimedRing;
    size_t threads = 2 + c.draw( 4 ), total = 0;
    std::vector< std::vector< Op > > prog( threads );
    c.describe( "depth %zu;", depth );
    for ( size_t t = 0; t != threads; ++t )
    {
        size_t bias = c.draw( 3 );
        c.describe( " T%zu:", t + 1 );
        while ( total < ( c.thorough ? 26 : 18 ) && c.more( 6 ) )
        {
            Op o;
            o.via = vias[ c.draw( nv ) ];
            size_t k = c.weighted( { 8, 8, 2, 1, 2, 2, aborts ? 1u : 0u } );
            if ( k == Send && bias == 1 && c.draw( 3 ) ) k = Recv;
            if ( k == Recv && bias == 2 && c.draw( 3 ) ) k = Send;
            if ( late && t == 0 && prog[ 0 ].empty() ) { k = Prime; o.via = PrimedRing; }
            o.act = int( k ); o.flavour = int( c.draw( 2 ) );
            if ( o.act == Observe ) o.via = int( c.draw( 5 ) );
            c.describe( " %s %s%s;", actName( o.act ), o.act <= Recv || o.act == AbortIt ? viaName( o.via ) : "", o.flavour ? "'" : "" );
            prog[ t ].push_back( o ); ++total;
        }
    }
    c.describe( "\n" );
    for ( size_t t = 0; t <= threads; ++t ) { Hand * h; { ds::Sut s; h = new Hand; } w.hands[ t ] = h; }
    for ( auto & p : prog )
        ds::spawn( [ &w, &p ]
        {
            for ( auto & o : p )
                try { act( w, o ); }
                catch ( const std::exception & ) {}      // aborted, or not primed yet
        } );
    ds::waitQuiescent();
    bool blocked = !ds::allDone();
    if ( blocked )
    {
        { ds::Sut s; w.sf->abort(); w.sb->abort(); w.s1->abort(); w.sc->abort(); w.ring->abort(); w.primed->abort(); w.mq->abort(); w.lq->abort(); }
        ds::waitQuiescent();
        if ( !ds::allDone() ) ds::fail( "threads stay blocked after everything was aborted" );
    }
    // Nothing done to a token was lost.
    {
        uint64_t hops = 0;
        { ds::Sut s; for ( auto t : w.all ) { hops += uint64_t( t->hops ); long v = 1; for ( long k = 0; k != t->hops; ++k ) v = v * 3 + 1; if ( v != t->v ) ds::fail( "a token's contents are torn" ); } }
        if ( hops != w.touches ) ds::fail( "%llu updates of handed-over data were made and %llu remain", (unsigned long long)w.touches, (unsigned long long)hops );
        long n; { ds::Sut s; n = *w.lockedCount; }
        if ( uint64_t( n ) != w.lockedTouches ) ds::fail( "%llu updates were made under the dispatch lock and %ld remain", (unsigned long long)w.lockedTouches, n );
    }
    c.nontrivial( w.crossed && ds::stats().switches >= threads );
    if ( w.crossed ) c.label( "data changed hands" );
    if ( w.lockedTouches >= 2 ) c.label( "dispatch lock used" );
    if ( late ) c.label( "primed while in use" );
    if ( blocked ) c.label( "ended by abort" );
    for ( size_t i = 0; i != nv; ++i ) if ( w.crossed ) c.label( viaName( vias[ i ] ) );
    {
        ds::Sut s;
        delete w.shelf; delete w.mq; delete w.lq; delete w.ring; delete w.primed; delete w.sf; delete w.sb; delete w.s1; delete w.sc; delete w.m; delete w.op; delete w.bp;
    }
}
PBT_SUITE( sync, "C22.sync", 400000, 7000000, "2-5 threads pass plain data through one to three of ten transports (semaphore functors, semaphores used as lock and as counter, rings, message queues with and without dispatch locking, a Mutex, pooled objects), recycle pool memory, read statistics and hold the dispatch lock; every access of theirs and of the library is checked for happens-before order; non-trivial: data was changed by one thread and then by another" ) { body( c, false ); }
PBT_SUITE( fineS, "C22.fine", 300000, 5000000, "as C22.sync, with pre-emption also between plain memory accesses" ) { body( c, true ); }
