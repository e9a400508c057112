// C24: components are independent of one another and compose: several of them at once, used from within each other's user code, and pipelines made of them.
#include "pbt.hpp"
#include "ds.hpp"
#include "lin.hpp"
#include "ring.hpp"

#include "Semaphore.hpp"
#include "RingBufferGuarded.hpp"
#include "ObjectPool.hpp"
#include "BlockPool.hpp"
#include "MessageQueue.hpp"

#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <mutex>

namespace
{
    using namespace ReiserRT::Core;

    enum Comp { S, R, P, Q };
    enum Kind { Take, Give, Count, Put, Get, Create, Release, Stat, Emplace, Dispatch, Hold };
    enum Where { Nowhere, InCtor, InDtor, InFunctor };      // where a call is held up by the harness
    enum Outcome { Pending, Ok, Full, Aborted, Other };
    const char * kindName( int k ) { static const char * n[] = { "take", "give", "count", "put", "get", "create", "release", "statistics", "emplace", "dispatch", "hold the dispatch lock" }; return n[ k ]; }
    const char * compName( int k ) { static const char * n[] = { "S", "R", "P", "Q" }; return n[ k ]; }

    struct Call
    {
        int kind{ 0 }, comp{ 0 }, fiber{ 0 }, outcome{ Pending }, stall{ Nowhere };
        bool begun{ false }, functor{ false };
        uint64_t value{ 0 }, inv{ 0 }, res{ lin::Pending }, mid{ lin::Pending };
        std::vector< Call > inner;          // made from user code that this call runs
        std::vector< Call > later;          // created objects: made by their destructor; messages: by their dispatch
    };

    struct World;
    World * w;
    const char * queueName( int i );

    struct Obj
    {
        Call * by; long x[ 2 ];
        explicit Obj( Call & c );
        ~Obj() noexcept;
    };
    struct Msg : MessageBase
    {
        Call * by; long x[ 3 ];
        explicit Msg( Call & c );
        ~Msg() noexcept override;
        void dispatch() override;
        const char * name() const override;
    };
    struct Live { const char * p; size_t n; int comp; };

    struct Component
    {
        int kind; size_t size; bool roomy, locking;
        size_t init{ 0 };
        Semaphore * s{ nullptr }; RingBufferGuarded< long > * r{ nullptr }; ObjectPool< Obj > * p{ nullptr }; MessageQueue * q{ nullptr };
        long count{ 0 };                    // permits, values held, objects alive, messages enqueued (by calls that have returned)
        std::vector< ObjectPool< Obj >::ObjectPtrType > held;
        size_t alive{ 0 }, accepted{ 0 }, dispatched{ 0 };
        bool aborted{ false };
    };

    struct World
    {
        pbt::Case & c;
        std::deque< Component > comps;
        std::vector< std::vector< Call > > prog;
        std::vector< Live > live;
        std::deque< Call > extra;
        Call * current[ ds::MaxFibers ]{};      // the dispatch in progress
        size_t made{ 0 }, nestedRun{ 0 };
        uint64_t next{ 1 };
        std::mutex gate; bool gateClosed{ false }; int stalled{ -1 };
        void stop( Call & k, int where ) { if ( k.stall == where && gateClosed ) { stalled = ds::self(); ds::Sut s; gate.lock(); gate.unlock(); } }
        explicit World( pbt::Case & cc ) : c( cc ) { w = this; }

        void born( const void * p, size_t n, int comp )
        {
            ds::checkLive( p, n, "an element" );
            for ( auto & l : live ) if ( l.p < (const char *)p + n && (const char *)p < l.p + l.n )
                ds::fail( "an element of %s%d shares memory with a live one of %s%d", compName( comps[ size_t( comp ) ].kind ), comp, compName( comps[ size_t( l.comp ) ].kind ), l.comp );
            live.push_back( Live{ (const char *)p, n, comp } );
        }
        void died( const void * p )
        {
            for ( size_t i = 0; i != live.size(); ++i ) if ( live[ i ].p == p ) { live.erase( live.begin() + long( i ) ); return; }
            ds::fail( "an element was destroyed that is not alive" );
        }
        void all( std::vector< Call > & v ) { for ( auto & k : v ) { ++nestedRun; exec( k ); } }

        void exec( Call & k )
        {
            ds::Quiet quiet;
            auto & m = comps[ size_t( k.comp ) ];
            k.fiber = ds::self(); k.begun = true; k.inv = ds::tick();
            int out = Ok;
            try
            {
                switch ( k.kind )
                {
                    case Take:
                        if ( !k.functor ) { ds::Sut s; m.s->take(); }
                        else { auto f = [ & ] { ds::point(); stop( k, InFunctor ); all( k.inner ); }; ds::Sut s; m.s->take( std::ref( f ) ); }
                        break;
                    case Give:
                        if ( !k.functor ) { ds::Sut s; m.s->give(); }
                        else { auto f = [ & ] { ds::point(); stop( k, InFunctor ); all( k.inner ); }; ds::Sut s; m.s->give( std::ref( f ) ); }
                        break;
                    case Count: { size_t n; { ds::Sut s; n = m.s->getAvailableCount(); } if ( m.size && n > m.size ) ds::fail( "S%d counts %zu permits of %zu", k.comp, n, m.size ); break; }
                    case Put: { bool ok; { ds::Sut s; ok = m.r->put( long( k.value ) ); } if ( !ok ) out = Aborted; break; }
                    case Get: { long v; { ds::Sut s; v = m.r->get(); } k.value = uint64_t( v ); break; }
                    case Create:
                    {
                        ObjectPool< Obj >::ObjectPtrType p;
                        { ds::Sut s; p = m.p->createObj< Obj >( k ); }
                        m.held.push_back( std::move( p ) );
                        break;
                    }
                    case Release:
                        if ( !m.held.empty() ) { auto p = std::move( m.held[ k.value % m.held.size() ] ); m.held.erase( m.held.begin() + long( k.value % m.held.size() ) ); ds::Sut s; p.reset(); }
                        break;
                    case Stat:
                        if ( m.kind == P ) { MemoryPoolBase::RunningStateStats st; { ds::Sut s; st = m.p->getRunningStateStatistics(); } if ( st.runningCount > st.size || st.lowWatermark > st.size ) ds::fail( "P%d reports %u free of %zu, at least %u", k.comp, st.runningCount, st.size, st.lowWatermark ); }
                        else { MessageQueue::RunningStateStats st; { ds::Sut s; st = m.q->getRunningStateStatistics(); } if ( st.size != m.size || st.runningCount > st.size ) ds::fail( "Q%d reports %u in use of %zu", k.comp, st.runningCount, st.size ); }
                        break;
                    case Emplace: { { ds::Sut s; m.q->emplace< Msg >( k ); } break; }
                    case Hold: { ds::Sut s; auto lock = m.q->getAutoDispatchLock(); stop( k, InFunctor ); break; }
                    case Dispatch:
                    {
                        auto * before = current[ k.fiber ]; current[ k.fiber ] = &k;
                        struct Back { Call *& c; Call * b; ~Back() { c = b; } } back{ current[ k.fiber ], before };
                        if ( !k.functor ) { ds::Sut s; m.q->getAndDispatch(); }
                        else { auto f = [ & ] { ds::point(); stop( k, InFunctor ); all( k.inner ); }; ds::Sut s; m.q->getAndDispatch( std::ref( f ) ); }
                        if ( k.mid == lin::Pending ) ds::fail( "a getAndDispatch of Q%d returned without dispatching", k.comp );
                        break;
                    }
                }
            }
            catch ( const RingBufferUnderflow & ) { out = Full; }
            catch ( const SemaphoreAborted & ) { out = Aborted; }
            catch ( const RingBufferStateError & ) { out = Aborted; }
            catch ( const std::exception & e ) { ds::fail( "%s of %s%d threw %s", kindName( k.kind ), compName( m.kind ), k.comp, e.what() ); }
            catch ( ... ) { throw; }
            if ( out == Full && ( k.kind != Create ) ) ds::fail( "%s of %s%d threw RingBufferUnderflow", kindName( k.kind ), compName( m.kind ), k.comp );
            if ( out == Aborted && !m.aborted ) ds::fail( "%s of %s%d ended as aborted, which only others are", kindName( k.kind ), compName( m.kind ), k.comp );
            if ( out == Ok ) switch ( k.kind ) { case Take: case Get: --m.count; break; case Give: case Put: ++m.count; break; case Emplace: ++m.accepted; break; default: break; }
            k.outcome = out;
            k.res = ds::tick();
        }
        void checkName( size_t i )
        {
            std::string name; { ds::Sut s; name = comps[ i ].q->getNameOfLastMessageDispatched(); }
            for ( int j = 0; j != 5; ++j ) if ( name == queueName( j ) && ( j != int( i ) || !comps[ i ].dispatched ) ) ds::fail( "Q%zu, which has dispatched %zu messages, says the last one was that of %s", i, comps[ i ].dispatched, name.c_str() );
        }
        // All calls that began, nested ones included.
        template< class F > void each( std::vector< Call > & v, F & f ) { for ( auto & k : v ) { if ( k.begun ) f( k ); each( k.inner, f ); each( k.later, f ); } }
        template< class F > void each( F f ) { for ( auto & p : prog ) each( p, f ); for ( auto & k : extra ) f( k ); }

        // --- Generation
        std::vector< size_t > of( std::initializer_list< int > kinds, bool roomy )
        {
            std::vector< size_t > v;
            for ( size_t i = 0; i != comps.size(); ++i ) for ( int k : kinds ) if ( comps[ i ].kind == k && ( !roomy || comps[ i ].roomy ) ) v.push_back( i );
            return v;
        }
        // A call that nothing can hold up: used from within user code, where semaphores above "floor" may be called.
        bool nested( std::vector< Call > & to, size_t floor, int depth )
        {
            if ( made >= 40 ) return false;
            Call k;
            std::vector< std::pair< int, size_t > > can;
            for ( size_t i = 0; i != comps.size(); ++i )
            {
                auto & m = comps[ i ];
                if ( m.kind == S && i >= floor ) { can.emplace_back( Count, i ); if ( m.roomy ) { can.emplace_back( Give, i ); can.emplace_back( Give, i ); } }
                if ( m.kind == R && m.roomy ) can.emplace_back( Put, i );
                if ( m.kind == P ) { can.emplace_back( Create, i ); can.emplace_back( Release, i ); can.emplace_back( Stat, i ); }
                if ( m.kind == Q ) { can.emplace_back( Stat, i ); if ( m.roomy ) can.emplace_back( Emplace, i ); }
            }
            if ( can.empty() ) return false;
            auto x = can[ c.draw( can.size() ) ];
            fill( k, x.first, x.second, floor, depth );
            to.push_back( std::move( k ) );
            return true;
        }
        void fill( Call & k, int kind, size_t comp, size_t floor, int depth )
        {
            ++made;
            k.kind = kind; k.comp = int( comp );
            k.value = kind == Put ? next++ : kind == Release ? c.draw( 4 ) : 0;
            c.describe( " %s %s%zu", kindName( kind ), compName( comps[ comp ].kind ), comp );
            auto some = [ & ]( std::vector< Call > & to, size_t fl, const char * how )
            {
                if ( depth >= 3 || !c.chance( 1, 2 ) ) return;
                c.describe( " %s{", how );
                do { if ( !nested( to, fl, depth + 1 ) ) break; } while ( c.chance( 1, 3 ) );
                c.describe( " }" );
            };
            if ( kind == Take || kind == Give ) { k.functor = c.draw( 2 ); if ( k.functor ) some( k.inner, std::max( floor, comp + 1 ), "in functor" ); }
            // What an object or a message does later, it does wherever it is released or dispatched: without semaphores.
            if ( kind == Create ) { some( k.inner, floor, "in constructor" ); some( k.later, comps.size(), "in destructor" ); }
            if ( kind == Emplace ) { some( k.inner, floor, "in constructor" ); some( k.later, 0, "when dispatched" ); }
            if ( kind == Dispatch ) { k.functor = c.draw( 2 ); if ( k.functor ) some( k.inner, 0, "on wake-up" ); }
        }
        long permits( size_t i ) { return long( comps[ i ].init ) + comps[ i ].count; }
    };

    Obj::Obj( Call & k ) : by{ &k }
    {
        ds::Quiet q;
        w->born( this, sizeof( *this ), k.comp ); ++w->comps[ size_t( k.comp ) ].alive;
        x[ 0 ] = x[ 1 ] = long( reinterpret_cast< uintptr_t >( this ) );
        ds::point();
        w->stop( k, InCtor );
        w->all( k.inner );
    }
    Obj::~Obj() noexcept
    {
        ds::Quiet q;
        w->stop( *by, InDtor );
        w->all( by->later );
        ds::point();
        for ( auto v : x ) if ( v != long( reinterpret_cast< uintptr_t >( this ) ) ) ds::fail( "an object of P%d lost its contents", by->comp );
        w->died( this ); --w->comps[ size_t( by->comp ) ].alive;
    }
    Msg::Msg( Call & k ) : by{ &k }
    {
        ds::Quiet q;
        w->born( this, sizeof( *this ), k.comp ); ++w->comps[ size_t( k.comp ) ].alive;
        for ( auto & v : x ) v = long( reinterpret_cast< uintptr_t >( this ) ) + 1;
        ds::point();
        w->stop( k, InCtor );
        w->all( k.inner );
    }
    Msg::~Msg() noexcept
    {
        ds::Quiet q;
        for ( auto v : x ) if ( v != long( reinterpret_cast< uintptr_t >( this ) ) + 1 ) ds::fail( "a message of Q%d lost its contents", by->comp );
        w->died( this ); --w->comps[ size_t( by->comp ) ].alive;
    }
    const char * queueName( int i ) { static const char * n[] = { "Q0", "Q1", "Q2", "Q3", "Q4" }; return n[ i ]; }
    const char * Msg::name() const { ds::Quiet q; return queueName( by->comp ); }
    void Msg::dispatch()
    {
        ds::Quiet q;
        auto * d = w->current[ ds::self() ];
        if ( !d ) ds::fail( "a message of Q%d was dispatched by a thread that dispatches nothing", by->comp );
        if ( d->comp != by->comp ) ds::fail( "a message of Q%d was dispatched by a call on Q%d", by->comp, d->comp );
        if ( d->mid != lin::Pending ) ds::fail( "one getAndDispatch of Q%d dispatched two messages", d->comp );
        if ( by->mid != lin::Pending ) ds::fail( "a message of Q%d was dispatched twice", by->comp );
        d->value = by->value; d->mid = ds::tick(); by->mid = d->mid;
        ++w->comps[ size_t( by->comp ) ].dispatched;
        auto * mine = d; w->current[ ds::self() ] = nullptr;
        ds::point();
        w->stop( *by, InDtor );
        w->all( by->later );
        w->current[ ds::self() ] = mine;
    }
}

PBT_SUITE( nested, "C24.nested", 400000, 6000000, "2-5 semaphores, rings, pools and queues are used by 1-5 threads, also from within functors, constructors, destructors, wake-up calls and dispatches of each other; each on its own keeps its guarantees, and each abort concerns one only; non-trivial: calls were made from user code and a thread had to wait" )
{
    World world( c );
    size_t n = 2 + c.draw( 4 );
    for ( size_t i = 0; i != n; ++i )
    {
        Component m; m.kind = int( c.draw( 4 ) ); m.roomy = c.draw( 2 ); m.locking = c.draw( 2 );
        switch ( m.kind )
        {
            case S: m.size = m.roomy ? 0 : 1 + c.draw( 3 ); m.init = c.draw( m.roomy ? 3 : m.size + 1 ); break;
            case P: m.size = 2 << c.draw( 3 ); break;
            default: m.size = m.roomy ? 64 : 1 + c.draw( 3 ); break;
        }
        c.describe( "%s%zu(%zu)%s ", compName( m.kind ), i, m.size, m.kind == Q && m.locking ? " with dispatch locking" : "" );
        world.comps.push_back( std::move( m ) );
    }
    size_t threads = 1 + c.draw( 5 );
    for ( size_t t = 0; t != threads; ++t )
    {
        world.prog.emplace_back();
        c.describe( "\n T%zu:", t + 1 );
        while ( world.made < 36 && world.prog.back().size() < 8 && c.more( 5 ) )
        {
            size_t i = c.draw( n ); auto & m = world.comps[ i ];
            int kind = 0;
            switch ( m.kind )
            {
                case S: kind = int( c.pick( { Take, Take, Give, Give, Count } ) ); break;
                case R: kind = int( c.pick( { Put, Get } ) ); break;
                case P: kind = int( c.pick( { Create, Create, Release, Stat } ) ); break;
                default: kind = int( c.pick( { Emplace, Emplace, Dispatch, Dispatch, Stat } ) ); break;
            }
            // Threads that dispatch or hold nothing else may be held up; only roomy queues run user code while others wait.
            Call k; world.fill( k, kind, i, 0, 0 );
            c.describe( ";" );
            world.prog.back().push_back( std::move( k ) );
        }
    }
    c.describe( "\n" );
    uint64_t id = 1;
    for ( auto & p : world.prog )
    {
        std::function< void( Call & ) > number = [ & ]( Call & k ) { if ( k.kind == Emplace ) k.value = id++; for ( auto & x : k.inner ) number( x ); for ( auto & x : k.later ) number( x ); };
        for ( auto & k : p ) number( k );
    }
    for ( auto & m : world.comps )
    {
        ds::Sut s;
        switch ( m.kind )
        {
            case S: m.s = new Semaphore( m.init, m.size ); break;
            case R: m.r = new RingBufferGuarded< long >( m.size ); break;
            case P: m.p = new ObjectPool< Obj >( m.size ); break;
            default: m.q = new MessageQueue( m.size, sizeof( Msg ), m.locking ); break;
        }
    }
    for ( auto & p : world.prog ) ds::spawn( [ &world, &p ] { for ( auto & k : p ) world.exec( k ); } );
    ds::waitQuiescent();

    auto history = [ & ]
    {
        if ( !c.wantDesc ) return;
        std::vector< const Call * > h; world.each( [ & ]( Call & k ) { h.push_back( &k ); } );
        std::sort( h.begin(), h.end(), []( auto a, auto b ) { return a->inv < b->inv; } );
        for ( auto k : h ) c.describe( "  [%llu..%s] T%d %s %s%d %llu -> %s\n", (unsigned long long)k->inv, k->res == lin::Pending ? "" : std::to_string( k->res ).c_str(), k->fiber, kindName( k->kind ), compName( world.comps[ size_t( k->comp ) ].kind ), k->comp, (unsigned long long)k->value, k->outcome == Ok ? "ok" : k->outcome == Full ? "exhausted" : k->outcome == Aborted ? "aborted" : "pending" );
    };
    auto rest = [ & ]( const char * when )
    {
        // The innermost pending call of each thread is the one it is blocked in.
        std::vector< Call * > pend( ds::MaxFibers, nullptr );
        world.each( [ & ]( Call & k ) { if ( k.res == lin::Pending && ( !pend[ size_t( k.fiber ) ] || pend[ size_t( k.fiber ) ]->inv < k.inv ) ) pend[ size_t( k.fiber ) ] = &k; } );
        for ( auto * k : pend )
        {
            if ( !k ) continue;
            auto & m = world.comps[ size_t( k->comp ) ];
            auto bad = [ & ]( const char * why ) { history(); ds::fail( "%s: thread %d is blocked in %s of %s%d %s", when, k->fiber, kindName( k->kind ), compName( m.kind ), k->comp, why ); };
            if ( m.aborted ) bad( "which is aborted" );
            switch ( k->kind )
            {
                case Take: if ( world.permits( size_t( k->comp ) ) > 0 ) bad( "although there are permits" ); break;
                case Give: if ( !m.size || world.permits( size_t( k->comp ) ) < long( m.size ) ) bad( "although there is room" ); break;
                case Put: if ( m.count < long( m.size ) ) bad( "although there is room" ); break;
                case Get: if ( m.count > 0 ) bad( "although values are held" ); break;
                case Emplace: if ( m.alive < m.size ) bad( "although a slot is free" ); break;
                case Dispatch: if ( m.accepted > m.dispatched ) bad( "although a message waits" ); break;
                default: bad( "for ever" );
            }
        }
        for ( size_t i = 0; i != n; ++i )
        {
            auto & m = world.comps[ i ];
            if ( m.kind == S )
            {
                size_t have; { ds::Sut s; have = m.s->getAvailableCount(); }
                if ( long( have ) != world.permits( i ) ) { history(); ds::fail( "%s: S%zu counts %zu permits, there are %ld", when, i, have, world.permits( i ) ); }
                if ( m.size && have > m.size ) ds::fail( "%s: S%zu counts %zu permits of %zu", when, i, have, m.size );
            }
            if ( m.kind == P )
            {
                MemoryPoolBase::RunningStateStats st; { ds::Sut s; st = m.p->getRunningStateStatistics(); }
                if ( st.size != m.size || st.runningCount != m.size - m.alive ) { history(); ds::fail( "%s: P%zu of %zu with %zu objects alive reports %u free of %zu", when, i, m.size, m.alive, st.runningCount, st.size ); }
            }
            if ( m.kind == Q )
            {
                MessageQueue::RunningStateStats st; { ds::Sut s; st = m.q->getRunningStateStatistics(); }
                world.checkName( i );
                if ( st.runningCount != m.alive ) { history(); ds::fail( "%s: Q%zu with %zu messages alive reports %u in use", when, i, m.alive, st.runningCount ); }
            }
        }
    };
    rest( "at rest" );
    bool waited = ds::stats().condWaits > 0;
    // Aborting one releases its callers and no others.
    std::vector< size_t > order; for ( size_t i = 0; i != n; ++i ) order.push_back( i );
    for ( size_t i = n; i > 1; --i ) std::swap( order[ i - 1 ], order[ c.draw( i ) ] );
    for ( size_t i : order )
    {
        auto & m = world.comps[ i ];
        if ( m.kind == P ) continue;
        m.aborted = true;
        { ds::Sut s; if ( m.s ) m.s->abort(); if ( m.r ) m.r->abort(); if ( m.q ) m.q->abort(); }
        ds::waitQuiescent();
        rest( "after an abort" );
    }
    if ( !ds::allDone() ) { history(); ds::fail( "a thread stays blocked although everything is aborted" ); }

    // Each ring and each queue by itself is one FIFO.
    for ( size_t i = 0; i != n; ++i )
    {
        auto & m = world.comps[ i ];
        if ( m.kind != R && m.kind != Q ) continue;
        std::vector< ringw::Rec > h;
        world.each( [ & ]( Call & k )
        {
            if ( k.comp != int( i ) ) return;
            ringw::Rec r; r.inv = k.inv; r.value = k.value; r.outcome = ringw::Ok;
            if ( k.kind == Put || k.kind == Emplace ) { if ( k.outcome != Ok ) return; r.kind = ringw::Put; r.res = k.res; h.push_back( r ); }
            if ( k.kind == Get ) { if ( k.outcome != Ok ) return; r.kind = ringw::Get; r.res = k.res; h.push_back( r ); }
            if ( k.kind == Dispatch && k.mid != lin::Pending ) { r.kind = ringw::Get; r.res = k.mid; h.push_back( r ); }
        } );
        // With all values distinct and nothing refused, a history is that of an unbounded FIFO if no get comes before its put and no
        // two values are swapped. Where the capacity matters, nothing is nested, so that the search for an order is short.
        auto wrong = [ & ]( const char * why, uint64_t a, uint64_t b ) { history(); ds::fail( "%s%zu: %s (%llu, %llu)", compName( m.kind ), i, why, (unsigned long long)a, (unsigned long long)b ); };
        struct Way { const ringw::Rec * put{ nullptr }, * get{ nullptr }; };
        std::map< uint64_t, Way > ways;
        for ( auto & r : h ) { auto & x = ways[ r.value ]; auto & y = r.kind == ringw::Put ? x.put : x.get; if ( y ) wrong( "a value passed twice", r.value, 0 ); y = &r; }
        for ( auto & a : ways )
        {
            if ( !a.second.put ) wrong( "a value was got that was not put", a.first, 0 );
            if ( !a.second.get ) continue;
            if ( a.second.get->res < a.second.put->inv ) wrong( "a value was got before it was put", a.first, 0 );
            for ( auto & b : ways )
                if ( b.second.put && b.second.put->res < a.second.put->inv && ( !b.second.get || a.second.get->res < b.second.get->inv ) ) wrong( "a value overtook one put earlier", a.first, b.first );
        }
        ringw::State st; st.cap = m.size;
        if ( m.kind == R && !m.roomy && h.size() <= 64 && !lin::check< ringw::State >( h, st, ringw::apply, []( const ringw::State &, uint64_t ) { return true; } ) )
        { history(); ds::fail( "%s%zu: no order of its calls is that of one FIFO queue", compName( m.kind ), i ); }
    }
    if ( world.nestedRun && waited ) c.nontrivial();
    if ( world.nestedRun ) c.label( "nested calls" );
    for ( auto & m : world.comps ) c.label( std::string( "with " ) + compName( m.kind ) );
    // Objects first: what they do when destroyed may use anything.
    for ( int round = 0; round != 8; ++round ) for ( auto & m : world.comps ) while ( !m.held.empty() ) { auto p = std::move( m.held.back() ); m.held.pop_back(); ds::Sut s; p.reset(); }
    for ( size_t i : order )
    {
        auto & m = world.comps[ i ];
        { ds::Sut s; delete m.s; delete m.r; delete m.q; delete m.p; }
        if ( m.alive ) { history(); ds::fail( "%s%zu was destroyed and %zu of its elements live on", compName( m.kind ), i, m.alive ); }
    }
    ds::waitQuiescent();
    if ( !world.live.empty() ) ds::fail( "elements live on when everything is destroyed" );
    if ( ds::liveAllocs() ) ds::fail( "%zu heap blocks are left when everything is destroyed", ds::liveAllocs() );
}

// --- One call is held up in user code: that concerns nobody else, save those who need what it has locked.
PBT_SUITE( stall, "C24.stall", 250000, 4000000, "of 2-5 components one has a call that is held up in a functor, constructor, destructor, wake-up call, dispatch or with its dispatch lock; 1-4 threads whose programs never have to wait use all of them, others are made, aborted and destroyed: only calls that need the semaphore or the dispatch lock in question wait, and all is done once the call goes on; non-trivial: the call was held up and another component of its kind was used meanwhile" )
{
    World world( c );
    size_t n = 2 + c.draw( 4 );
    int fav = int( c.draw( 4 ) );
    for ( size_t i = 0; i != n; ++i )
    {
        Component m; m.kind = c.draw( 2 ) ? fav : int( c.draw( 4 ) ); m.roomy = true; m.locking = c.draw( 3 );
        m.size = m.kind == S ? ( c.draw( 2 ) ? 0 : 40 ) : m.kind == P ? 32 : 40;
        m.init = m.kind == S ? c.draw( 3 ) : 0;
        c.describe( "%s%zu(%zu)%s ", compName( m.kind ), i, m.size, m.kind == Q && m.locking ? " with dispatch locking" : "" );
        world.comps.push_back( std::move( m ) );
    }
    std::vector< size_t > can; for ( size_t i = 0; i != n; ++i ) if ( world.comps[ i ].kind != R ) can.push_back( i );
    if ( can.empty() ) { world.comps[ 0 ].kind = Q; can.push_back( 0 ); c.describe( "(the first a queue) " ); }
    size_t v = can[ c.draw( can.size() ) ];
    auto & victim = world.comps[ v ];
    auto add = [ & ]( std::vector< Call > & to, int kind, size_t i, int stop = Nowhere )
    {
        Call k; k.kind = kind; k.comp = int( i ); k.stall = stop;
        k.functor = ( kind == Take || kind == Give || kind == Dispatch ) && ( stop == InFunctor || c.draw( 2 ) );
        k.value = kind == Put || kind == Emplace ? world.next++ : kind == Release ? c.draw( 4 ) : 0;
        c.describe( " %s %s%zu%s;", kindName( kind ), compName( world.comps[ i ].kind ), i, stop ? stop == InCtor ? " held up in the constructor" : stop == InDtor ? " held up when destroyed or dispatched" : " held up in the functor or lock" : "" );
        to.push_back( std::move( k ) );
    };
    // Nothing here has to wait: what a thread takes it has given before.
    auto use = [ & ]( std::vector< Call > & to, size_t i )
    {
        switch ( world.comps[ i ].kind )
        {
            case S: if ( c.draw( 3 ) ) { add( to, Give, i ); add( to, Take, i ); } else add( to, Count, i ); break;
            case R: add( to, Put, i ); add( to, Get, i ); break;
            case P: add( to, int( c.pick( { Create, Release, Stat } ) ), i ); break;
            default: switch ( c.draw( 4 ) ) { case 0: add( to, Stat, i ); break; case 1: if ( world.comps[ i ].locking ) { add( to, Hold, i ); break; } [[fallthrough]]; default: add( to, Emplace, i ); add( to, Dispatch, i ); } break;
        }
    };
    c.describe( "\n T1:" );
    world.prog.emplace_back();
    auto & first = world.prog.back();
    bool needsLock = false;
    switch ( victim.kind )
    {
        case S: if ( c.draw( 2 ) ) { add( first, Give, v, InFunctor ); add( first, Take, v ); } else { add( first, Give, v ); add( first, Take, v, InFunctor ); } break;
        case P: { bool ctor = c.draw( 2 ); add( first, Create, v, ctor ? InCtor : InDtor ); if ( !ctor ) add( first, Release, v ); break; }
        default:
            switch ( c.draw( victim.locking ? 4 : 3 ) )
            {
                case 0: add( first, Emplace, v, InCtor ); add( first, Dispatch, v ); break;
                case 1: add( first, Emplace, v, InDtor ); add( first, Dispatch, v ); needsLock = victim.locking; break;
                case 2: add( first, Emplace, v ); add( first, Dispatch, v, InFunctor ); break;
                default: add( first, Hold, v, InFunctor ); needsLock = true; break;
            }
    }
    while ( first.size() < 6 && c.more( 3 ) ) use( first, c.draw( n ) );
    size_t threads = 1 + c.draw( 4 );
    bool sameKind = false;
    for ( size_t t = 0; t != threads; ++t )
    {
        c.describe( "\n T%zu:", t + 2 );
        world.prog.emplace_back();
        do { size_t i = c.draw( n ); if ( i != v && world.comps[ i ].kind == victim.kind ) sameKind = true; use( world.prog.back(), i ); } while ( world.prog.back().size() < 7 && c.more( 5 ) );
    }
    c.describe( "\n" );
    auto make = []( Component & m )
    {
        ds::Sut s;
        switch ( m.kind )
        {
            case S: m.s = new Semaphore( m.init, m.size ); break;
            case R: m.r = new RingBufferGuarded< long >( m.size ); break;
            case P: m.p = new ObjectPool< Obj >( m.size ); break;
            default: m.q = new MessageQueue( m.size, sizeof( Msg ), m.locking ); break;
        }
    };
    auto unmake = []( Component & m ) { { ds::Sut s; delete m.s; delete m.r; delete m.q; delete m.p; } m.s = nullptr; m.r = nullptr; m.q = nullptr; m.p = nullptr; };
    for ( auto & m : world.comps ) make( m );
    { ds::Sut s; world.gate.lock(); } world.gateClosed = true;
    for ( auto & p : world.prog ) ds::spawn( [ &world, &p ] { for ( auto & k : p ) world.exec( k ); } );
    ds::waitQuiescent();
    auto judge = [ & ]( const char * when )
    {
        std::vector< Call * > pend( ds::MaxFibers, nullptr );
        world.each( [ & ]( Call & k ) { if ( k.res == lin::Pending ) pend[ size_t( k.fiber ) ] = &k; } );
        for ( auto * k : pend )
        {
            if ( !k || k->fiber == world.stalled ) continue;
            if ( world.stalled >= 0 && k->comp == int( v ) && ( victim.kind == S || ( needsLock && ( k->kind == Dispatch || k->kind == Hold ) ) ) ) continue;
            ds::fail( "%s: thread %d is blocked in %s of %s%d, although only a call of %s%zu is held up%s", when, k->fiber, kindName( k->kind ), compName( world.comps[ size_t( k->comp ) ].kind ), k->comp, compName( victim.kind ), v, k->comp == int( v ) ? ", which is none of its business" : "" );
        }
    };
    judge( "at rest" );
    // The main thread makes, uses and destroys others meanwhile.
    bool held = world.stalled >= 0;
    while ( held && c.more( 3 ) )
    {
        Component m; m.kind = int( c.draw( 4 ) ); m.roomy = true; m.locking = c.draw( 2 ); m.size = m.kind == P ? 8 : 5;
        make( m );
        int id = int( world.comps.size() );
        if ( id >= 5 ) { unmake( m ); continue; }
        world.comps.push_back( std::move( m ) );
        world.extra.emplace_back(); auto & k = world.extra.back(); k.comp = id; k.value = world.next++;
        switch ( world.comps.back().kind ) { case S: k.kind = Give; break; case R: k.kind = Put; break; case P: k.kind = Create; break; default: k.kind = Emplace; break; }
        c.describe( " meanwhile %s of another %s\n", kindName( k.kind ), compName( world.comps.back().kind ) );
        world.exec( k );
        world.comps.back().held.clear();
        unmake( world.comps.back() );
        if ( world.comps.back().alive ) ds::fail( "a %s was destroyed and its elements live on", compName( world.comps.back().kind ) );
    }
    for ( size_t i = 0; i != n; ++i )
        if ( i != v && c.chance( 1, 4 ) )
        {
            auto & m = world.comps[ i ];
            c.describe( " abort %s%zu\n", compName( m.kind ), i );
            m.aborted = true; ds::Sut s; if ( m.s ) m.s->abort(); if ( m.r ) m.r->abort(); if ( m.q ) m.q->abort();
        }
    ds::waitQuiescent();
    judge( "after others were aborted and destroyed" );
    world.gateClosed = false; { ds::Sut s; world.gate.unlock(); }
    ds::waitQuiescent();
    world.stalled = -1;
    judge( "after the call went on" );
    if ( !ds::allDone() ) ds::fail( "a thread stays blocked although no call is held up any more" );
    for ( size_t i = 0; i != n; ++i )
    {
        auto & m = world.comps[ i ];
        if ( m.kind == S ) { size_t have; { ds::Sut s; have = m.s->getAvailableCount(); } if ( long( have ) != world.permits( i ) ) ds::fail( "S%zu counts %zu permits, there are %ld", i, have, world.permits( i ) ); }
        if ( m.kind == Q ) { MessageQueue::RunningStateStats st; { ds::Sut s; st = m.q->getRunningStateStatistics(); } if ( st.runningCount != m.alive ) ds::fail( "Q%zu with %zu messages alive reports %u in use", i, m.alive, st.runningCount ); world.checkName( i ); }
        if ( m.kind == P ) { MemoryPoolBase::RunningStateStats st; { ds::Sut s; st = m.p->getRunningStateStatistics(); } if ( st.runningCount != m.size - m.alive ) ds::fail( "P%zu of %zu with %zu objects alive reports %u free", i, m.size, m.alive, st.runningCount ); }
    }
    if ( held && sameKind ) c.nontrivial();
    c.label( std::string( "held up in " ) + compName( victim.kind ) );
    for ( size_t i = 0; i != n; ++i )
    {
        auto & m = world.comps[ i ];
        while ( !m.held.empty() ) { auto p = std::move( m.held.back() ); m.held.pop_back(); ds::Sut s; p.reset(); }
        unmake( m );
        if ( m.alive ) ds::fail( "%s%zu was destroyed and %zu of its elements live on", compName( m.kind ), i, m.alive );
    }
    if ( !world.live.empty() ) ds::fail( "elements live on when everything is destroyed" );
    if ( ds::liveAllocs() ) ds::fail( "%zu heap blocks are left when everything is destroyed", ds::liveAllocs() );
}

// --- A pipeline: credits limit the objects under way, a ring carries them to movers, a queue to dispatchers, which give the credit back.
namespace
{
    struct Line;
    Line * line;
    struct Boom {};
    struct Item
    {
        int producer, serial; bool bomb;
        Item( int p, int s, bool boom );
        ~Item() noexcept;
    };
    using Pool = ObjectPool< Item >;
    struct Carry : MessageBase
    {
        Pool::ObjectPtrType item; bool bomb;
        Carry( Pool::ObjectPtrType && i, bool b ) : item{ std::move( i ) }, bomb{ b } {}
        Carry( Carry && ) noexcept = default;
        void dispatch() override;
    };
    struct Line
    {
        std::unique_ptr< Pool > pool; std::unique_ptr< Semaphore > credit, finished; std::unique_ptr< RingBufferGuarded< Item * > > ring; std::unique_ptr< MessageQueue > queue;
        size_t alive{ 0 }, cap{ 2 };
        std::vector< std::vector< int > > seen;         // times delivered, per producer and serial
        std::vector< std::vector< int > > order;        // serials in order of their dispatch
        size_t delivered{ 0 };
    };
    Item::Item( int p, int s, bool boom ) : producer{ p }, serial{ s }, bomb{ boom }
    {
        { ds::Quiet q; ds::point(); if ( ++line->alive > line->cap ) ds::fail( "more objects are alive than a pool of %zu can hold", line->cap ); if ( boom ) --line->alive; }
        if ( boom ) boom::raise( Boom{} );
    }
    Item::~Item() noexcept { ds::Quiet q; --line->alive; ds::point(); }
    void Carry::dispatch()
    {
        {
            ds::Quiet q;
            if ( !item ) ds::fail( "a message was dispatched without what it carries" );
            auto & s = line->seen.at( size_t( item->producer ) ).at( size_t( item->serial ) );
            if ( s++ ) ds::fail( "item %d of producer %d was delivered twice", item->serial, item->producer );
            line->order[ size_t( item->producer ) ].push_back( item->serial );
            ++line->delivered;
            ds::point();
        }
        if ( bomb ) boom::raise( Boom{} );
    }
}

PBT_SUITE( pipeline, "C24.pipeline", 250000, 4000000, "1-3 producers, 1-3 movers and 1-3 dispatchers work a pipeline of credits, pool, ring and queue of generated sizes, with constructors and dispatches that throw; every item arrives once (in order, where one mover and one dispatcher serve), nobody is stuck while there is work, and in the end everything is back; non-trivial: threads had to wait" )
{
    Line l; line = &l; boom::choose( c ); boom::tell( c );
    size_t producers = 1 + c.draw( 3 ), movers = 1 + c.draw( 3 ), dispatchers = 1 + c.draw( 3 );
    size_t poolSize = 2u << c.draw( 2 ), ringSize = 1 + c.draw( 4 ), depth = 1 + c.draw( 4 ), credits = 1 + c.draw( poolSize );
    bool locking = c.draw( 2 ), wake = c.draw( 2 ), watch = c.draw( 2 );
    l.cap = poolSize;
    struct Job { bool ctorBomb, dispBomb; };
    std::vector< std::vector< Job > > jobs( producers );
    size_t total = 0;
    for ( auto & j : jobs ) while ( j.size() < 5 && c.more( 4 ) ) { j.push_back( Job{ c.chance( 1, 6 ), c.chance( 1, 6 ) } ); ++total; }
    c.describe( "pool %zu, credits %zu, ring %zu, queue %zu%s; producers with", poolSize, credits, ringSize, depth, locking ? " with dispatch locking" : "" );
    for ( auto & j : jobs ) { c.describe( " %zu", j.size() ); for ( auto & x : j ) c.describe( "%s%s", x.ctorBomb ? " (constructor throws first)" : "", x.dispBomb ? " (dispatch throws)" : "" ); }
    c.describe( " items, %zu movers, %zu dispatchers\n", movers, dispatchers );
    for ( auto & j : jobs ) { l.seen.emplace_back( j.size(), 0 ); l.order.emplace_back(); }
    {
        ds::Sut s;
        l.pool.reset( new Pool( poolSize ) ); l.credit.reset( new Semaphore( credits, credits ) ); l.finished.reset( new Semaphore( 0 ) );
        l.ring.reset( new RingBufferGuarded< Item * >( ringSize ) ); l.queue.reset( new MessageQueue( depth, sizeof( Carry ), locking ) );
    }
    bool ending = false;
    std::vector< int > roles;
    for ( size_t p = 0; p != producers; ++p )
        ds::spawn( [ &, p ]
        {
            for ( size_t i = 0; i != jobs[ p ].size(); ++i )
            {
                bool boom = jobs[ p ][ i ].ctorBomb;
                for ( ;; )
                {
                    { ds::Sut s; l.credit->take(); }
                    try
                    {
                        ds::Sut s;
                        auto item = l.pool->createObj< Item >( int( p ), int( i ), boom );
                        if ( !l.ring->put( item.get() ) ) ds::fail( "a ring that nobody aborted refuses" );
                        (void)item.release();
                        break;
                    }
                    catch ( const Boom & ) { boom = false; ds::Sut s; l.credit->give(); }
                    catch ( const RingBufferUnderflow & ) { ds::fail( "a pool of %zu is exhausted although only %zu credits were given out", poolSize, credits ); }
                    catch ( const std::exception & e ) { ds::fail( "a producer met %s", e.what() ); }
                }
            }
            ds::Sut s; l.finished->give();
        } );
    for ( size_t m = 0; m != movers; ++m )
        ds::spawn( [ & ]
        {
            try
            {
                for ( ;; )
                {
                    Item * p; { ds::Sut s; p = l.ring->get(); }
                    bool bomb = jobs[ size_t( p->producer ) ][ size_t( p->serial ) ].dispBomb;
                    ds::Sut s;
                    l.queue->emplace< Carry >( Pool::ObjectPtrType{ p, ObjectPoolDeleter< Item >{ l.pool.get() } }, bomb );
                }
            }
            catch ( const std::runtime_error & e ) { ds::Quiet q; if ( !ending ) ds::fail( "a mover met %s", e.what() ); }
        } );
    for ( size_t d = 0; d != dispatchers; ++d )
        ds::spawn( [ & ]
        {
            try
            {
                for ( ;; )
                {
                    size_t woken = 0; auto f = [ & ] { ++woken; };
                    try { ds::Sut s; if ( wake ) l.queue->getAndDispatch( std::ref( f ) ); else l.queue->getAndDispatch(); }
                    catch ( const Boom & ) {}
                    ds::Sut s; l.credit->give();
                }
            }
            catch ( const std::runtime_error & e ) { ds::Quiet q; if ( !ending ) ds::fail( "a dispatcher met %s", e.what() ); }
        } );
    if ( watch )
        ds::spawn( [ & ]
        {
            for ( int i = 0; i != 3; ++i )
            {
                MemoryPoolBase::RunningStateStats ps; MessageQueue::RunningStateStats qs; size_t cr;
                { ds::Sut s; ps = l.pool->getRunningStateStatistics(); qs = l.queue->getRunningStateStatistics(); cr = l.credit->getAvailableCount(); }
                if ( ps.runningCount > poolSize || qs.runningCount > depth || cr > credits ) ds::fail( "statistics beyond the sizes: pool %u of %zu, queue %u of %zu, credits %zu of %zu", ps.runningCount, poolSize, qs.runningCount, depth, cr, credits );
                if ( locking ) { ds::Sut s; auto lock = l.queue->getAutoDispatchLock(); ds::point(); }
            }
        } );
    ds::waitQuiescent();
    if ( l.delivered != total )
    {
        std::string who; for ( int i = 1; i <= int( producers + movers + dispatchers ); ++i ) if ( ds::blocked( i ) ) who += " T" + std::to_string( i ) + ":" + ds::where( i );
        ds::fail( "the pipeline came to rest with %zu of %zu items delivered (%s )", l.delivered, total, who.c_str() );
    }
    size_t done; { ds::Sut s; done = l.finished->getAvailableCount(); }
    if ( done != producers ) ds::fail( "%zu of %zu producers finished", done, producers );
    if ( movers == 1 && dispatchers == 1 )
        for ( auto & o : l.order ) for ( size_t i = 0; i != o.size(); ++i ) if ( o[ i ] != int( i ) ) ds::fail( "items of one producer were delivered out of order" );
    size_t cr; MemoryPoolBase::RunningStateStats ps; MessageQueue::RunningStateStats qs;
    { ds::Sut s; cr = l.credit->getAvailableCount(); ps = l.pool->getRunningStateStatistics(); qs = l.queue->getRunningStateStatistics(); }
    if ( cr != credits || ps.runningCount != poolSize || qs.runningCount != 0 || l.alive ) ds::fail( "when all is delivered: %zu of %zu credits, %u of %zu objects free, %u messages, %zu objects alive", cr, credits, ps.runningCount, poolSize, qs.runningCount, l.alive );
    c.nontrivial( total >= 2 && ds::stats().condWaits > 0 );
    ending = true;
    if ( c.draw( 2 ) ) { ds::Sut s; l.queue->abort(); }
    if ( c.draw( 2 ) ) { ds::Sut s; l.ring->abort(); }
    { ds::Sut s; l.queue.reset(); }
    { ds::Sut s; l.ring.reset(); }
    ds::waitQuiescent();
    if ( !ds::allDone() ) ds::fail( "a thread of the pipeline stays blocked although ring and queue are gone" );
    { ds::Sut s; l.credit.reset(); l.finished.reset(); l.pool.reset(); }
    if ( ds::liveAllocs() ) ds::fail( "%zu heap blocks are left", ds::liveAllocs() );
}
