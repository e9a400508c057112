// C25: what an operation does itself is bounded, whatever the capacity, the fill level, the history and what else exists; waiting is sleeping.
#include "pbt.hpp"
#include "ds.hpp"

#include "Semaphore.hpp"
#include "RingBufferSimple.hpp"
#include "RingBufferGuarded.hpp"
#include "ObjectPool.hpp"
#include "BlockPool.hpp"
#include "MessageQueue.hpp"
#include "ReiserRT_CoreExceptions.hpp"

#include <algorithm>
#include <deque>
#include <functional>
#include <memory>

namespace
{
    using namespace ReiserRT::Core;

    // Work is counted by the runtime: memory accesses (and the size of larger ones), calls and synchronisation operations of the library and
    // of what it instantiates. The allowance is far above what differs between two ways to write the same thing and far below one step per
    // element of the larger instances.
    constexpr uint64_t factor = 4, extra = 256;
    uint64_t allowed( uint64_t small ) { return factor * small + extra; }

    struct Op { const char * name; bool ups, downs; };      // fills, empties

    // A component under a uniform interface. run() says what became of it; the caller knows how full it is and never lets it wait.
    struct Comp
    {
        size_t cap{ 0 }, fill{ 0 };
        bool aborted{ false };
        virtual ~Comp() = default;
        virtual const std::vector< Op > & ops() const = 0;
        virtual void run( size_t op, uint64_t r ) = 0;
        virtual bool can( size_t op ) const { auto & o = ops()[ op ]; return ( !o.ups || fill < cap ) && ( !o.downs || fill ); }
        virtual void abort() {}
        virtual bool canAbort() const { return false; }
    };

    struct SemComp : Comp
    {
        Semaphore s;
        SemComp( size_t n, bool bounded, size_t init ) : s{ init, bounded ? n : 0 } { cap = n; fill = init; }
        const std::vector< Op > & ops() const override { static std::vector< Op > o{ { "give", true, false }, { "take", false, true }, { "give with a functor", true, false }, { "take with a functor", false, true }, { "getAvailableCount", false, false } }; return o; }
        void run( size_t op, uint64_t ) override
        {
            auto f = [] {};
            Semaphore::FunctionType fn{ f };
            ds::Sut sut;
            switch ( op ) { case 0: s.give(); break; case 1: s.take(); break; case 2: s.give( fn ); break; case 3: s.take( fn ); break; case 4: (void)s.getAvailableCount(); break; }
        }
        void abort() override { ds::Sut sut; s.abort(); }
        bool canAbort() const override { return true; }
    };
    template< class T > struct SimpleComp : Comp
    {
        RingBufferSimple< T > r;
        T some{};
        explicit SimpleComp( size_t n ) : r{ n } { cap = r.getSize(); }
        const std::vector< Op > & ops() const override { static std::vector< Op > o{ { "put", true, false }, { "get", false, true }, { "sizes", false, false } }; return o; }
        bool can( size_t ) const override { return true; }      // full and empty are reported
        void run( size_t op, uint64_t ) override
        {
            ds::Sut sut;
            switch ( op )
            {
                case 0: r.put( some ); break;
                case 1: (void)r.get(); break;
                case 2: (void)r.getNumBits(); (void)r.getSize(); (void)r.getMask(); break;
            }
        }
    };
    template< class T > struct GuardedComp : Comp
    {
        RingBufferGuarded< T > r;
        T some{};
        explicit GuardedComp( size_t n, bool primed ) : r{ n, primed }
        {
            cap = n;       // more than that makes put wait
            if ( primed ) { r.prime( []( size_t ) { return typename std::conditional< std::is_pointer< T >::value, void *, T >::type{}; } ); fill = n; }
        }
        const std::vector< Op > & ops() const override { static std::vector< Op > o{ { "put", true, false }, { "get", false, true }, { "sizes", false, false } }; return o; }
        void run( size_t op, uint64_t ) override
        {
            ds::Sut sut;
            switch ( op ) { case 0: r.put( some ); break; case 1: (void)r.get(); break; case 2: (void)r.getNumBits(); (void)r.getSize(); (void)r.getMask(); break; }
        }
        void abort() override { ds::Sut sut; r.abort(); }
        bool canAbort() const override { return true; }
    };
    struct Thing { virtual ~Thing() noexcept = default; long a{ 1 }; };
    struct Bigger : Thing { long b[ 5 ]{ 1, 2, 3, 4, 5 }; Bigger() = default; };
    struct Throws : Thing { Throws() { throw 1; } };
    struct PoolComp : Comp
    {
        ObjectPool< Thing > p;
        std::vector< ObjectPool< Thing >::ObjectPtrType > held;
        explicit PoolComp( size_t n ) : p{ n, sizeof( Bigger ) } { ds::Quiet q; cap = p.getSize(); held.reserve( cap ); }
        const std::vector< Op > & ops() const override { static std::vector< Op > o{ { "createObj", true, false }, { "release", false, true }, { "createObj of a larger type", true, false }, { "createObj that throws", false, false }, { "statistics", false, false } }; return o; }
        bool can( size_t op ) const override { return op == 1 ? !held.empty() : true; }     // exhaustion is reported
        void run( size_t op, uint64_t r ) override
        {
            ObjectPool< Thing >::ObjectPtrType x;
            if ( op == 1 ) { std::swap( held[ r % held.size() ], held.back() ); x = std::move( held.back() ); held.pop_back(); }
            {
                ds::Sut sut;
                switch ( op )
                {
                    case 0: x = p.createObj< Thing >(); break;
                    case 1: x.reset(); break;
                    case 2: x = p.createObj< Bigger >(); break;
                    case 3: x = p.createObj< Throws >(); break;
                    case 4: (void)p.getRunningStateStatistics(); (void)p.getSize(); break;
                }
            }
            if ( x ) held.push_back( std::move( x ) );
        }
    };
    template< class T > struct BlockComp : Comp
    {
        BlockPool< T > p;
        std::vector< typename BlockPool< T >::BlockPtrType > held;
        BlockComp( size_t n, size_t len ) : p{ n, len } { ds::Quiet q; cap = p.getSize(); held.reserve( cap ); }
        const std::vector< Op > & ops() const override { static std::vector< Op > o{ { "getBlock", true, false }, { "release", false, true }, { "statistics", false, false } }; return o; }
        bool can( size_t op ) const override { return op == 1 ? !held.empty() : true; }
        void run( size_t op, uint64_t r ) override
        {
            typename BlockPool< T >::BlockPtrType x;
            if ( op == 1 ) { std::swap( held[ r % held.size() ], held.back() ); x = std::move( held.back() ); held.pop_back(); }
            {
                ds::Sut sut;
                switch ( op ) { case 0: x = p.getBlock(); break; case 1: x.reset(); break; case 2: (void)p.getRunningStateStatistics(); (void)p.getSize(); break; }
            }
            if ( x ) held.push_back( std::move( x ) );
        }
    };
    struct Small : MessageBase { void dispatch() override {} const char * name() const override { return "small"; } };
    struct Large : MessageBase { long x[ 6 ]{ 1, 2, 3, 4, 5, 6 }; void dispatch() override {} };
    struct Failing : MessageBase { Failing() { throw 1; } void dispatch() override {} };
    struct FailsLater : MessageBase { void dispatch() override { throw 1; } };
    struct QueueComp : Comp
    {
        MessageQueue q;
        bool locking;
        QueueComp( size_t n, bool lk ) : q{ n, sizeof( Large ), lk }, locking{ lk } { cap = n; }
        const std::vector< Op > & ops() const override
        {
            static std::vector< Op > o{ { "put", true, false }, { "getAndDispatch", false, true }, { "emplace of a larger type", true, false }, { "getAndDispatch with a functor", false, true }, { "emplace of one whose dispatch throws", true, false },
                                        { "emplace that throws", false, false }, { "statistics", false, false }, { "name", false, false }, { "dispatch lock", false, false } };
            return o;
        }
        bool can( size_t op ) const override { if ( op == 5 ) return fill < cap; if ( op == 8 ) return locking; return Comp::can( op ); }
        void run( size_t op, uint64_t ) override
        {
            auto f = [] {};
            MessageQueue::WakeupCallFunctionType fn{ f };
            ds::Sut sut;
            switch ( op )
            {
                case 0: q.put( Small{} ); break;
                case 1: q.getAndDispatch(); break;
                case 2: q.emplace< Large >(); break;
                case 3: q.getAndDispatch( fn ); break;
                case 4: q.emplace< FailsLater >(); break;
                case 5: q.emplace< Failing >(); break;
                case 6: (void)q.getRunningStateStatistics(); break;
                case 7: (void)q.getNameOfLastMessageDispatched(); break;
                case 8: { auto l = q.getAutoDispatchLock(); break; }
            }
        }
        void abort() override { ds::Sut sut; q.abort(); }
        bool canAbort() const override { return true; }
    };

    struct Spec { int kind; size_t len; bool opt; };
    const char * kindName( int k ) { static const char * n[] = { "Semaphore", "RingBufferSimple", "RingBufferGuarded", "ObjectPool", "BlockPool", "MessageQueue" }; return n[ k ]; }
    std::unique_ptr< Comp > make( const Spec & s, size_t n )
    {
        ds::Sut sut;
        Comp * p = nullptr;
        switch ( s.kind )
        {
            case 0: p = new SemComp( n, s.opt, s.len % ( n + 1 ) ); break;
            case 1: if ( s.len % 3 == 0 ) p = new SimpleComp< void * >( n ); else if ( s.len % 3 == 1 ) p = new SimpleComp< char >( n ); else p = new SimpleComp< double >( n ); break;
            case 2: if ( s.len % 3 == 0 ) p = new GuardedComp< int * >( n, s.opt ); else if ( s.len % 3 == 1 ) p = new GuardedComp< short >( n, s.opt ); else p = new GuardedComp< long >( n, s.opt ); break;
            case 3: p = new PoolComp( n ); break;
            case 4: if ( s.opt ) p = new BlockComp< Thing >( n, 1 + s.len % 6 ); else p = new BlockComp< int >( n, 1 + s.len % 48 ); break;
            default: p = new QueueComp( n, s.opt ); break;
        }
        return std::unique_ptr< Comp >{ p };
    }
    void destroy( std::unique_ptr< Comp > & p ) { auto * x = p.release(); ds::Sut sut; delete x; }

    // What an operation costs, by how it ends and whether the component was aborted: these differ in what has to be done.
    struct Costs { uint64_t c[ 16 ][ 2 ][ 2 ]{}; };
    uint64_t step( Comp & p, size_t op, uint64_t r, bool & threw )
    {
        threw = false;
        uint64_t before = ds::work();
        try { p.run( op, r ); }
        catch ( const std::exception & ) { threw = true; }
        catch ( int ) { threw = true; }
        uint64_t cost = ds::work() - before;
        auto & o = p.ops()[ op ];
        if ( !threw ) { if ( o.ups ) ++p.fill; if ( o.downs && p.fill ) --p.fill; }
        else if ( !p.aborted && p.fill && o.downs ) --p.fill;          // dispatch threw: it is gone
        return cost;
    }
    // The cost on an instance of the smallest size, in every state it has, a few times over.
    void reference( const Spec & s, Costs & k )
    {
        auto p = make( s, s.kind == 0 || s.kind == 5 ? 2 : 1 );
        auto note = [ & ]( size_t op ) { bool threw; uint64_t w = step( *p, op, 0, threw ); auto & m = k.c[ op ][ threw ][ p->aborted ]; m = std::max( m, w ); };
        auto & ops = p->ops();
        auto sweep = [ & ]
        {
            for ( size_t i = 0; i != ops.size(); ++i ) if ( !ops[ i ].ups && !ops[ i ].downs && ( p->aborted || p->can( i ) ) ) note( i );
        };
        for ( int round = 0; round != 3; ++round )
            for ( size_t up = 0; up != ops.size(); ++up ) if ( ops[ up ].ups )
                for ( size_t down = 0; down != ops.size(); ++down ) if ( ops[ down ].downs )
                {
                    sweep();
                    for ( int i = 0; i != 3; ++i ) { if ( p->can( up ) ) note( up ); sweep(); }
                    for ( int i = 0; i != 4; ++i ) { if ( p->can( down ) ) note( down ); sweep(); }
                }
        if ( p->canAbort() )
        {
            p->abort(); p->aborted = true;
            for ( size_t i = 0; i != ops.size(); ++i ) if ( s.kind != 5 || i != 8 || s.opt ) { note( i ); note( i ); }
        }
        destroy( p );
    }
    // Whatever an operation leads to was not seen on the small instance under that name: compare with the dearest way it ended there.
    uint64_t bound( const Costs & k, size_t op, bool threw, bool aborted )
    {
        uint64_t v = k.c[ op ][ threw ][ aborted ];
        if ( !v ) for ( auto & a : k.c[ op ] ) for ( auto x : a ) v = std::max( v, x );
        return allowed( v );
    }
    void judge( pbt::Case &, const Spec & s, Comp & p, const Costs & k, size_t op, bool threw, uint64_t cost, const char * when )
    {
        uint64_t most = bound( k, op, threw, p.aborted );
        if ( cost > most )
            ds::fail( "%s of a %s of %zu that holds %zu%s did %llu units of work%s; %llu are allowed, %llu were needed on one of the smallest size", p.ops()[ op ].name, kindName( s.kind ), p.cap, p.fill, p.aborted ? " (aborted)" : "",
                      (unsigned long long)cost, when, (unsigned long long)most, (unsigned long long)( ( most - extra ) / factor ) );
    }
    Spec draw( pbt::Case & c )
    {
        Spec s;
        s.kind = int( c.weighted( { 2, 2, 2, 3, 2, 4 } ) );
        s.opt = c.draw( 2 );
        s.len = c.draw( 48 );
        return s;
    }
    size_t drawCap( pbt::Case & c, const Spec & s )
    {
        size_t top = s.kind == 0 ? 16 : s.kind <= 2 ? 15 : s.kind == 4 ? 13 : 13;
        size_t base = size_t( 1 ) << ( 10 + c.draw( top - 9 ) );
        return base - ( c.chance( 1, 4 ) ? c.draw( base / 3 ) : 0 );
    }
}

PBT_SUITE( history, "C25.history", 2400, 48000, "a component with at least 1024 places was at least half full, emptied again, and used after that" )
{
    ds::spurious( false );
    ds::patience( uint64_t( 1 ) << 40 );        // the limit on CPU time remains
    ds::Quiet quiet;
    Spec s = draw( c );
    Costs k;
    reference( s, k );
    size_t n = drawCap( c, s );
    c.describe( "%s of %zu (%zu, %d):", kindName( s.kind ), n, s.len, s.opt );
    c.label( kindName( s.kind ) );
    auto p = make( s, n );
    auto & ops = p->ops();
    std::vector< size_t > ups, downs, others;
    for ( size_t i = 0; i != ops.size(); ++i ) ( ops[ i ].ups ? ups : ops[ i ].downs ? downs : others ).push_back( i );
    pbt::Rng rng{ c.draw( 1 << 16 ) };
    auto one = [ & ]( size_t op )
    {
        if ( !p->aborted && !p->can( op ) ) return;
        bool threw;
        uint64_t cost = step( *p, op, rng.next(), threw );
        judge( c, s, *p, k, op, threw, cost, "" );
    };
    size_t most = 0; bool emptied = false, again = false;
    size_t runs = 0;
    bool begin = c.chance( 1, 2 );      // with filling and emptying it
    while ( ( begin && runs < 2 ? true : c.more( 8 ) ) && ++runs < 24 )
    {
        // A run: a number of operations that mostly fill or mostly empty, with others in between.
        size_t how = begin && runs <= 2 ? runs - 1 : c.weighted( { 3, 3, 2, 1 } );
        size_t count = begin && runs <= 2 ? 2 : c.weighted( { 1, 2, 3 } );
        count = count == 0 ? 1 + c.draw( 5 ) : count == 1 ? 1 + c.draw( n ) : n + c.draw( 3 );
        if ( how == 2 ) count = std::min( count, size_t( 400 ) );
        unsigned mix = unsigned( c.draw( 4 ) );         // how often something else
        size_t which = c.draw( 4 );
        c.describe( " %s x%zu (%u,%zu)", how == 0 ? "fill" : how == 1 ? "empty" : how == 2 ? "either" : "alternate", count, mix, which );
        for ( size_t i = 0; i != count; ++i )
        {
            bool up = how == 0 || ( how == 2 && rng.below( 2 ) ) || ( how == 3 && i % 2 == 0 );
            auto & v = up ? ups : downs;
            one( v[ which ? rng.below( v.size() ) : 0 ] );
            if ( mix && rng.below( mix == 1 ? 50 : mix == 2 ? 8 : 3 ) == 0 ) { size_t o = rng.below( others.size() ); one( others[ o ] ); }
            if ( emptied && p->fill ) again = true;
            most = std::max( most, p->fill );
            if ( most * 2 >= n && p->fill == 0 ) emptied = true;
        }
    }
    for ( auto o : others ) one( o );
    if ( p->canAbort() && c.chance( 1, 4 ) )
    {
        c.describe( " abort" );
        p->abort(); p->aborted = true;
        for ( int i = 0; i != 12; ++i )
        {
            size_t o = c.draw( ops.size() );
            if ( s.kind == 5 && o == 8 && !s.opt ) continue;
            one( o );
        }
    }
    c.nontrivial( n >= 1024 && again );
    destroy( p );
}

PBT_SUITE( waiting, "C25.waiting", 9000, 180000, "at least two threads waited through at least 500 units of work that were none of their business" )
{
    ds::spurious( false );
    ds::patience( 2000000 );
    ds::Quiet quiet;
    // Components that can be waited on, each with threads that wait; and one that is used meanwhile.
    struct Waited { Spec s; std::unique_ptr< Comp > p; size_t downOp; std::vector< int > fibers; Costs k; bool held{ false }; };
    std::deque< Waited > ws;
    std::deque< bool > ended;
    size_t count = 1 + c.draw( 2 ), threads = 0;
    for ( size_t i = 0; i != count; ++i )
    {
        ws.emplace_back();
        auto & w = ws.back();
        w.s.kind = c.pick( { 0, 2, 5 } ); w.s.opt = c.draw( 2 ); w.s.len = w.s.kind == 0 ? 0 : c.draw( 3 );
        if ( w.s.kind == 2 ) w.s.opt = false;
        reference( w.s, w.k );
        size_t n = c.pick( { size_t( 2 ), size_t( 16 ), size_t( 1500 ) } );
        w.p = make( w.s, n );
        w.downOp = w.s.kind == 0 ? c.pick( { size_t( 1 ), size_t( 3 ) } ) : w.s.kind == 2 ? 1 : c.pick( { size_t( 1 ), size_t( 3 ) } );
        size_t t = 1 + c.draw( 5 );
        c.describe( " %s of %zu (%zu,%d) with %zu in %s;", kindName( w.s.kind ), n, w.s.len, w.s.opt, t, w.p->ops()[ w.downOp ].name );
        c.label( kindName( w.s.kind ) );
        for ( size_t j = 0; j != t; ++j )
        {
            ended.push_back( false );
            auto * done = &ended.back();
            auto * wp = &w;
            w.fibers.push_back( ds::spawn( [ wp, done ]
            {
                ds::Quiet q;
                try { wp->p->run( wp->downOp, 0 ); }
                catch ( const std::exception & ) {}
                catch ( int ) {}
                *done = true;
            } ) );
            ++threads;
        }
    }
    ds::waitQuiescent();
    for ( auto & w : ws ) for ( int f : w.fibers ) if ( ds::done( f ) ) ds::fail( "%s of an empty %s returned", w.p->ops()[ w.downOp ].name, kindName( w.s.kind ) );
    Spec os = draw( c );
    Costs ok;
    reference( os, ok );
    auto other = make( os, 16 );
    uint64_t idle = 0;
    auto worked = [ & ] { std::vector< uint64_t > v; for ( auto & w : ws ) for ( int f : w.fibers ) v.push_back( ds::work( f ) ); return v; };
    auto sleep = [ & ]( const std::vector< uint64_t > & before, uint64_t most, const char * what )
    {
        size_t i = 0;
        for ( auto & w : ws ) for ( int f : w.fibers )
        {
            if ( ds::work( f ) - before[ i ] > most )
                ds::fail( "a thread waiting in %s of a %s did %llu units of work while %s", w.p->ops()[ w.downOp ].name, kindName( w.s.kind ), (unsigned long long)( ds::work( f ) - before[ i ] ), what );
            ++i;
        }
    };
    size_t rounds = 1 + c.draw( 3 );
    for ( size_t round = 0; round != rounds; ++round )
    {
        // 1. Others are busy with something else: who waits has nothing to do.
        {
            auto before = worked();
            uint64_t mine = ds::work();
            size_t m = 100 + c.draw( 200 );
            pbt::Rng rng{ c.draw( 1 << 16 ) };
            for ( size_t i = 0; i != m; ++i )
            {
                size_t op = rng.below( other->ops().size() );
                bool threw;
                if ( other->can( op ) ) { uint64_t cost = step( *other, op, rng.next(), threw ); judge( c, os, *other, ok, op, threw, cost, " while others waited elsewhere" ); }
                ds::point();
            }
            ds::waitQuiescent();
            sleep( before, extra, "others were busy elsewhere" );
            idle = std::max( idle, ds::work() - mine );
        }
        // 2. Looking at what is waited on wakes nobody.
        auto & w = ws[ c.draw( ws.size() ) ];
        {
            auto before = worked();
            for ( int i = 0; i != 200; ++i )
                for ( size_t op = 0; op != w.p->ops().size(); ++op )
                    if ( !w.p->ops()[ op ].ups && !w.p->ops()[ op ].downs && op != 5 && op != 8 && w.p->can( op ) )
                    { bool threw; uint64_t cost = step( *w.p, op, 0, threw ); judge( c, w.s, *w.p, w.k, op, threw, cost, " while others waited" ); }
            ds::waitQuiescent();
            sleep( before, extra, "others looked at its state" );
        }
        // 3. Something to do for one: it costs the one who gives it no more than usual, and those woken a bounded amount.
        {
            auto before = worked();
            size_t left = 0; for ( int f : w.fibers ) left += !ds::done( f );
            bool threw;
            uint64_t cost = step( *w.p, 0, 0, threw );
            w.p->fill = 0;
            judge( c, w.s, *w.p, w.k, 0, threw, cost, " while others waited" );
            ds::waitQuiescent();
            size_t now = 0; for ( int f : w.fibers ) now += !ds::done( f );
            c.describe( " %zu left", now );
            // What the one woken has to do is a whole operation, and it may have to queue for locks with all the others.
            uint64_t most = 0; for ( auto & a : w.k.c[ w.downOp ] ) for ( auto x : a ) most = std::max( most, x );
            sleep( before, allowed( most ), "there was one thing to do" );
            if ( left && now + 1 != left ) ds::fail( "%zu of %zu threads waiting in %s of a %s were served by one %s", left - now, left, w.p->ops()[ w.downOp ].name, kindName( w.s.kind ), w.p->ops()[ 0 ].name );
            if ( !left ) { bool t; step( *w.p, w.downOp, 0, t ); w.p->fill = 0; }
        }
        // 4. More than there are threads to take it, all at once: neither side does more per operation than usual.
        if ( c.chance( 1, 2 ) )
        {
            auto before = worked();
            size_t left = 0; for ( int f : w.fibers ) left += !ds::done( f );
            size_t m = 1 + c.draw( w.p->cap );
            for ( size_t i = 0; i != m; ++i )
            {
                bool threw;
                w.p->fill = 0;
                uint64_t cost = step( *w.p, 0, 0, threw );
                w.p->fill = i + 1;
                judge( c, w.s, *w.p, w.k, 0, threw, cost, " while others waited, or had not yet taken theirs" );
            }
            ds::waitQuiescent();
            uint64_t most = 0; for ( auto & a : w.k.c[ w.downOp ] ) for ( auto x : a ) most = std::max( most, x );
            sleep( before, allowed( most ), "there was plenty to do" );
            size_t now = 0; for ( int f : w.fibers ) now += !ds::done( f );
            if ( left - now != std::min( left, m ) ) ds::fail( "%zu of %zu threads waiting in %s of a %s were served by %zu times %s", left - now, left, w.p->ops()[ w.downOp ].name, kindName( w.s.kind ), m, w.p->ops()[ 0 ].name );
            w.p->fill = m - ( left - now );
            c.describe( " %zu at once", m );
            while ( w.p->fill )
            {
                bool threw;
                uint64_t cost = step( *w.p, w.downOp, 0, threw );
                judge( c, w.s, *w.p, w.k, w.downOp, threw, cost, " after others had waited" );
            }
        }
    }
    c.nontrivial( threads >= 2 && idle >= 500 );
    for ( auto & w : ws ) w.p->abort();
    ds::waitQuiescent();
    if ( !ds::allDone() ) ds::fail( "a thread still waits after abort" );
    for ( auto & w : ws ) destroy( w.p );
    destroy( other );
}
