// Shared harness for concurrent use of ObjectPool and BlockPool (C12, C13).
#ifndef VERIF_POOL_HPP
#define VERIF_POOL_HPP

#include "pbt.hpp"
#include "ds.hpp"
#include "lin.hpp"
#include "boom.hpp"

#include "ObjectPool.hpp"
#include "BlockPool.hpp"
#include "ReiserRT_CoreExceptions.hpp"

#include <algorithm>
#include <deque>
#include <memory>

namespace poolw
{
    using namespace ReiserRT::Core;

    inline size_t capacityFor( size_t req ) { size_t n = 2; while ( n < req ) n *= 2; return n; }

    enum Kind { Create, Release, Stat, Pass };      // Pass: leave it for another thread to release
    enum Outcome { None, Ok, Full, Threw, Other };

    struct Rec
    {
        int kind{ 0 }, fiber{ 0 }, outcome{ None };
        unsigned which{ 0 };            // type to create, or which of those held to release
        bool bomb{ false };
        uint64_t heap{ 0 };
        uint64_t inv{ lin::Pending }, res{ lin::Pending }, mid{ lin::Pending };     // mid: when the constructor threw
        MemoryPoolBase::RunningStateStats st;
    };

    struct Boom {};
    // What is alive where.
    struct Ground
    {
        struct R { const char * p; size_t n; };
        std::vector< R > live;
        bool bomb{ false };
        uint64_t midTick{ 0 };
        void born( const void * p, size_t n )
        {
            ds::Quiet q;
            ds::checkLive( p, n, "an object from a pool" );
            for ( auto & r : live )
                if ( r.p < (const char *)p + n && (const char *)p < r.p + r.n )
                    ds::fail( "two live objects share memory: %zu bytes, and %zu bytes %td from its start", n, r.n, r.p - (const char *)p );
            live.push_back( R{ (const char *)p, n } );
        }
        void died( const void * p )
        {
            ds::Quiet q;
            for ( size_t i = 0; i != live.size(); ++i ) if ( live[ i ].p == p ) { live.erase( live.begin() + long( i ) ); return; }
            ds::fail( "an object was destroyed that is not alive" );
        }
    };
    inline Ground *& ground() { static Ground * g; return g; }
    struct Armed { bool on; uint64_t * mid; };
    inline void mayThrow( const Armed & a ) { if ( a.on ) { ds::Quiet q; *a.mid = ds::tick(); } if ( a.on ) boom::raise( Boom{} ); }

    struct Base
    {
        virtual ~Base() noexcept = default;
        virtual bool intact() const = 0;
    };
    struct Front { virtual ~Front() noexcept = default; long pad{ 1 }; };
    template< size_t N > struct Obj : Base
    {
        long x[ N ];
        explicit Obj( const Armed & a ) { ground()->born( this, sizeof( *this ) ); for ( auto & v : x ) v = long( reinterpret_cast< uintptr_t >( this ) ) + long( N ); try { mayThrow( a ); } catch ( ... ) { ground()->died( this ); throw; } }
        ~Obj() noexcept override { { ds::Quiet q; if ( !intact() ) ds::fail( "the contents of a live object were altered" ); } ground()->died( this ); }
        bool intact() const override { for ( auto v : x ) if ( v != long( reinterpret_cast< uintptr_t >( this ) ) + long( N ) ) return false; return true; }
    };
    struct Two : Front, Base
    {
        long y{ 77 };
        explicit Two( const Armed & a ) { ground()->born( this, sizeof( *this ) ); try { mayThrow( a ); } catch ( ... ) { ground()->died( this ); throw; } }
        ~Two() noexcept override { { ds::Quiet q; if ( !intact() ) ds::fail( "the contents of a live object were altered" ); } ground()->died( this ); }
        bool intact() const override { return y == 77; }
    };
    struct Tiny
    {
        char x[ 3 ];
        explicit Tiny( const Armed & a ) { ground()->born( this, sizeof( *this ) ); for ( auto & v : x ) v = 9; try { mayThrow( a ); } catch ( ... ) { ground()->died( this ); throw; } }
        ~Tiny() noexcept { ds::Quiet q; for ( auto v : x ) if ( v != 9 ) ds::fail( "the contents of a live object were altered" ); ground()->died( this ); }
    };
    // Elements of a block; which element throws is decided by a global because there are no arguments.
    struct Elem
    {
        int v{ 3 };
        static Armed next;      // consumed by the first element constructed after a point where nothing else can run
        Elem() { ds::Quiet q; ++built(); }
        ~Elem() noexcept { ds::Quiet q; if ( v != 3 ) ds::fail( "the contents of a live block were altered" ); --built(); }
        static long & built() { static long n; return n; }
    };

    // One interface over the kinds of pool.
    template< class P > struct Api;
    template< class T > struct Api< ObjectPool< T > >
    {
        using Pool = ObjectPool< T >;
        using Ptr = typename Pool::ObjectPtrType;
        static constexpr bool canThrow = true;
        static Pool * make( size_t req, size_t ) { return new Pool( req, 64 ); }
        static Ptr create( Pool & p, unsigned which, const Armed & a )
        {
            if constexpr ( std::is_same_v< T, Base > )
            {
                if ( which % 3 == 0 ) return p.template createObj< Obj< 2 > >( a );
                if ( which % 3 == 1 ) return p.template createObj< Obj< 5 > >( a );
                return p.template createObj< Two >( a );
            }
            else return p.template createObj< T >( a );
        }
        static void got( Ptr &, size_t ) {}
        static void going( Ptr & ) {}
    };
    template< class T > struct Api< BlockPool< T > >
    {
        using Pool = BlockPool< T >;
        using Ptr = typename Pool::BlockPtrType;
        static constexpr bool canThrow = false;
        static Pool * make( size_t req, size_t len ) { return new Pool( req, len ); }
        static Ptr create( Pool & p, unsigned, const Armed & ) { return p.getBlock(); }
        static void got( Ptr & p, size_t len )
        {
            ground()->born( p.get(), sizeof( T ) * len );
            if ( p.get_deleter().getNumElements() != len ) ds::fail( "a block's deleter reports the wrong number of elements" );
            if constexpr ( std::is_scalar_v< T > )
                for ( size_t i = 0; i != len; ++i ) { if ( p[ i ] != T() ) ds::fail( "a fresh block is not zero" ); p[ i ] = T( 5 ); }
        }
        static void going( Ptr & p )
        {
            if constexpr ( std::is_scalar_v< T > )
                for ( size_t i = 0; i != p.get_deleter().getNumElements(); ++i ) if ( p[ i ] != T( 5 ) ) ds::fail( "the contents of a live block were altered" );
            ground()->died( p.get() );
        }
    };

    template< class P > struct World
    {
        using A = Api< P >;
        using Ptr = typename A::Ptr;
        pbt::Case & c;
        Ground g;
        P * pool{ nullptr };
        size_t req{ 2 }, cap{ 2 }, len{ 1 };
        std::vector< std::vector< Rec > > prog;
        std::deque< Rec > mainOps;
        std::deque< std::vector< Ptr > > hands;     // per thread, 0 is the main one
        std::vector< Ptr > passed;

        explicit World( pbt::Case & cc ) : c( cc ) { ground() = &g; Elem::built() = 0; boom::choose( c ); }
        void make() { ds::Sut s; pool = A::make( req, len ); }
        void destroy() { ds::Sut s; delete pool; pool = nullptr; }

        void exec( Rec & o )
        {
            o.fiber = ds::self();
            auto & hand = hands[ size_t( o.fiber ) ];
            o.inv = ds::tick();
            int out = Ok;
            uint64_t heap = ds::heapOps();
            if ( o.kind == Create )
            {
                Ptr p; Armed a{ o.bomb && A::canThrow, &o.mid };
                try { ds::Sut s; p = A::create( *pool, o.which, a ); }
                catch ( const Boom & ) { out = Threw; }
                catch ( const RingBufferUnderflow & ) { out = Full; }
                catch ( ... ) { out = Other; }
                if ( out == Ok ) { A::got( p, len ); hand.push_back( std::move( p ) ); }
            }
            else if ( o.kind == Stat ) { ds::Sut s; o.st = pool->getRunningStateStatistics(); }
            else if ( o.kind == Pass ) { if ( !hand.empty() ) { passed.push_back( std::move( hand[ o.which % hand.size() ] ) ); hand.erase( hand.begin() + long( o.which % hand.size() ) ); } out = None; }
            else
            {
                bool theirs = o.bomb && !passed.empty();
                auto & from = theirs || hand.empty() ? passed : hand;
                if ( from.empty() ) out = None;
                else
                {
                    size_t k = o.which % from.size();
                    Ptr p = std::move( from[ k ] ); from.erase( from.begin() + long( k ) );
                    A::going( p );
                    o.inv = ds::tick();
                    ds::Sut s; p.reset();
                }
            }
            o.outcome = out;
            o.heap = ds::heapOps() - heap;
            o.res = ds::tick();
        }
        Rec & main( int kind, unsigned which = 0 ) { mainOps.emplace_back(); auto & o = mainOps.back(); o.kind = kind; o.which = which; exec( o ); return o; }
        void start() { for ( auto & p : prog ) ds::spawn( [ this, &p ]() { for ( auto & o : p ) exec( o ); } ); }

        std::vector< Rec > history() const
        {
            std::vector< Rec > h;
            for ( auto & p : prog ) for ( auto & o : p ) if ( o.outcome != None ) h.push_back( o );
            for ( auto & o : mainOps ) if ( o.outcome != None ) h.push_back( o );
            return h;
        }
        // Whatever the number of calls: a refusal needs a moment when all slots may have been in use.
        void judgeRefusals()
        {
            auto h = history();
            std::vector< std::pair< uint64_t, int > > e;        // may be in use from the creation's call to the release's return
            for ( auto & o : h )
            {
                if ( o.kind == Create && o.outcome == Ok ) e.emplace_back( o.inv, 1 );
                if ( o.kind == Create && o.outcome == Threw ) { e.emplace_back( o.inv, 1 ); e.emplace_back( o.res, -1 ); }
                if ( o.kind == Release ) e.emplace_back( o.res, -1 );
            }
            std::sort( e.begin(), e.end() );
            for ( auto & o : h ) if ( o.kind == Create && o.outcome == Full )
            {
                long now = 0; bool could = false;
                for ( auto & x : e )
                {
                    if ( x.first > o.inv && now >= long( cap ) ) could = true;
                    if ( x.first > o.res ) break;
                    now += x.second;
                }
                if ( now >= long( cap ) ) could = true;
                if ( !could ) { describeHistory(); ds::fail( "pool of %zu: a creation was refused although a slot was free throughout", cap ); }
            }
        }
        size_t inUse() const { size_t n = passed.size(); for ( auto & h : hands ) n += h.size(); return n; }
        bool overlapped() const
        {
            auto h = history();
            for ( auto & a : h ) for ( auto & b : h ) if ( a.fiber != b.fiber && a.inv < b.res && b.inv < a.res ) return true;
            return false;
        }
        void describeHistory()
        {
            if ( !c.wantDesc ) return;
            static const char * kn[] = { "create", "release", "statistics", "pass" };
            static const char * on[] = { "-", "ok", "RingBufferUnderflow", "its constructor's exception", "another exception" };
            auto h = history();
            std::sort( h.begin(), h.end(), []( const Rec & a, const Rec & b ) { return a.inv < b.inv; } );
            for ( auto & o : h )
            {
                c.describe( "  [%llu..%llu] T%d %s -> %s", (unsigned long long)o.inv, (unsigned long long)o.res, o.fiber, kn[ o.kind ], on[ o.outcome ] );
                if ( o.kind == Stat ) c.describe( " running %u low %u", o.st.runningCount, o.st.lowWatermark );
                c.describe( "\n" );
            }
        }
        void program( const char * type, size_t maxThreads, size_t maxOps, bool stats, unsigned avg = 6 )
        {
            req = avg > 6 && c.chance( 1, 3 ) ? c.draw( 40 ) : c.draw( 5 ); cap = capacityFor( req );
            len = 1 + c.draw( 4 );
            size_t threads = 1 + c.draw( maxThreads ), total = 0;
            c.describe( "%s(%zu);", type, req ); boom::tell( c );
            hands.emplace_back();
            for ( size_t t = 0; t != threads; ++t )
            {
                prog.emplace_back(); hands.emplace_back();
                c.describe( " T%zu:", t + 1 );
                while ( total < maxOps && c.more( avg ) )
                {
                    Rec o;
                    o.kind = int( c.weighted( { 6, 5, stats ? 4u : 0u, 1 } ) );
                    o.which = unsigned( c.draw( 6 ) );
                    o.bomb = c.chance( 1, 6 );
                    c.describe( " %s%s;", o.kind == Create ? "create" : o.kind == Release ? "release" : o.kind == Stat ? "statistics" : "pass", o.kind == Create && o.bomb ? "!" : "" );
                    prog.back().push_back( o ); ++total;
                }
            }
            c.describe( "\n" );
        }
    };

    // For the search: number of slots in use.
    struct Use { size_t n{ 0 }, cap{ 0 }; std::string key() const { return std::to_string( n ); } };
    struct Step { int what; uint64_t inv, res; };      // 0 take, 1 give back, 2 refused
    inline bool apply( Use & u, const Step & s )
    {
        if ( s.what == 0 ) { if ( u.n >= u.cap ) return false; ++u.n; return true; }
        if ( s.what == 1 ) { if ( !u.n ) return false; --u.n; return true; }
        return u.n == u.cap;
    }
    inline std::vector< Step > steps( const std::vector< Rec > & h )
    {
        std::vector< Step > s;
        for ( auto & o : h )
        {
            if ( o.kind == Create && o.outcome == Ok ) s.push_back( Step{ 0, o.inv, o.res } );
            if ( o.kind == Create && o.outcome == Full ) s.push_back( Step{ 2, o.inv, o.res } );
            if ( o.kind == Create && o.outcome == Threw ) { s.push_back( Step{ 0, o.inv, o.mid } ); s.push_back( Step{ 1, o.mid, o.res } ); }
            if ( o.kind == Release ) s.push_back( Step{ 1, o.inv, o.res } );
        }
        return s;
    }
}

#endif
