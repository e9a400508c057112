// C20, one thread, every size: the allocator of the whole process is metered (AddressSanitizer's hooks).
#include "seq.hpp"
#include "Semaphore.hpp"
#include "Mutex.hpp"
#include "RingBufferSimple.hpp"
#include "RingBufferGuarded.hpp"
#include "ObjectPool.hpp"
#include "BlockPool.hpp"
#include "MessageQueue.hpp"
#include "ReiserRT_CoreExceptions.hpp"

#include <array>
#include <functional>
#include <memory>
#include <mutex>
#include <new>

using namespace ReiserRT::Core;

namespace
{
    // Meters what one call does to the heap; over the life of a component allocations and deallocations must balance.
    struct Meter
    {
        pbt::Case & c;
        int64_t balance{ 0 };
        uint64_t ops{ 0 };
        template< class F > bool quiet( const char * what, F f )        // must not touch the heap
        {
            uint64_t m = seq::mallocs(), d = seq::frees();
            f();
            m = seq::mallocs() - m; d = seq::frees() - d;
            ++ops;
            if ( m || d ) c.fail( "%s allocated %llu and freed %llu times", what, (unsigned long long)m, (unsigned long long)d );
            return !c.failed();
        }
        template< class F > void loud( F f )                            // construction, destruction, failures
        {
            uint64_t m = seq::mallocs(), d = seq::frees();
            f();
            balance += int64_t( seq::mallocs() - m ) - int64_t( seq::frees() - d );
        }
        void settled( const char * what ) { if ( balance && !c.failed() ) c.fail( "%s left %lld heap blocks behind", what, (long long)balance ); }
    };
    // Objects live in this storage, not on the heap.
    template< class T > struct Place
    {
        alignas( T ) unsigned char raw[ sizeof( T ) ];
        T * p{ nullptr };
        template< class... A > void make( A &&... a ) { p = new( raw ) T( std::forward< A >( a )... ); }
        void destroy() { if ( p ) p->~T(); p = nullptr; }
    };
    size_t someSize( pbt::Case & c ) { switch ( c.draw( 4 ) ) { case 0: return c.draw( 4 ); case 1: return c.draw( 20 ); case 2: return c.draw( 300 ); default: return c.chance( 1, 8 ) ? 1000 + c.draw( 9000 ) : c.draw( 70 ); } }

    void semaphore( pbt::Case & c )
    {
        Meter m{ c };
        Place< Semaphore > s;
        size_t max = c.draw( 3 ) ? 0 : 1 + c.draw( 5 ), init = max ? c.draw( max + 1 ) : c.draw( 5 );
        c.describe( "Semaphore(%zu, %zu):", init, max );
        m.loud( [ & ] { s.make( init, max ); } );
        size_t n = init; bool aborted = false;
        char big[ 64 ] = { 1 };
        for ( int k = 0; k != 60 && c.more( 30 ) && !c.failed(); ++k )
        {
            size_t what = c.weighted( { 5, 5, 5, 5, 3, 1, 2 } );
            auto f = [ & ]() { big[ 0 ] = char( big[ 1 ] + 1 ); };
            auto boom = [ & ]() { throw 1; };
            // A functor too large for std::function to hold inside itself: passed by reference, it must not be copied.
            std::function< void() > heavy; bool useHeavy = ( what == 1 || what == 3 ) && c.draw( 2 );
            if ( useHeavy ) heavy = [ &n, pad = std::array< char, 64 >{} ]() mutable { pad[ 0 ] = char( pad[ 1 ] + n ); };
            if ( what == 0 && n && !aborted ) { m.quiet( "take", [ & ] { s.p->take(); } ); --n; c.describe( " take" ); }
            else if ( what == 1 && n && !aborted ) { m.quiet( "take(functor)", [ & ] { if ( useHeavy ) s.p->take( heavy ); else s.p->take( std::ref( f ) ); } ); --n; c.describe( " take(f)" ); }
            else if ( what == 2 && ( !max || n < max ) && !aborted ) { m.quiet( "give", [ & ] { s.p->give(); } ); ++n; c.describe( " give" ); }
            else if ( what == 3 && ( !max || n < max ) && !aborted ) { m.quiet( "give(functor)", [ & ] { if ( useHeavy ) s.p->give( heavy ); else s.p->give( std::ref( f ) ); } ); ++n; c.describe( " give(f)" ); }
            else if ( what == 4 ) m.quiet( "getAvailableCount", [ & ] { s.p->getAvailableCount(); } );
            else if ( what == 5 ) { m.quiet( "abort", [ & ] { s.p->abort(); } ); aborted = true; c.describe( " abort" ); }
            else if ( what == 6 && ( aborted || n ) ) m.loud( [ & ] { try { s.p->take( std::ref( boom ) ); } catch ( ... ) {} } );
        }
        m.loud( [ & ] { s.destroy(); } );
        m.settled( "a semaphore" );
        c.nontrivial( m.ops > 2 ); c.label( "semaphore" );
    }

    void mutex( pbt::Case & c )
    {
        Meter m{ c };
        Place< Mutex > x;
        m.loud( [ & ] { x.make(); } );
        c.describe( "Mutex:" );
        for ( int k = 0; k != 30 && c.more( 10 ) && !c.failed(); ++k )
            switch ( c.draw( 4 ) )
            {
                case 0: m.quiet( "lock and unlock", [ & ] { x.p->lock(); x.p->unlock(); } ); c.describe( " lock" ); break;
                case 1: m.quiet( "try_lock and unlock", [ & ] { if ( x.p->try_lock() ) x.p->unlock(); } ); c.describe( " try_lock" ); break;
                case 2: m.quiet( "lock_guard", [ & ] { std::lock_guard< Mutex > g( *x.p ); } ); c.describe( " lock_guard" ); break;
                default: m.quiet( "native_handle", [ & ] { x.p->native_handle(); } );
            }
        m.loud( [ & ] { x.destroy(); } );
        m.settled( "a mutex" );
        c.nontrivial( m.ops > 2 ); c.label( "mutex" );
    }

    struct Tool { int method() { return 1; } };
    using Method = int ( Tool::* )();

    template< class T > void simple( pbt::Case & c, T v )
    {
        Meter m{ c };
        Place< RingBufferSimple< T > > r;
        size_t req = someSize( c ), cap = 2, held = 0;
        while ( cap < req ) cap *= 2;
        c.describe( "RingBufferSimple(%zu):", req );
        m.loud( [ & ] { r.make( req ); } );
        size_t bias = 2 + c.draw( 5 );
        for ( int k = 0; k != 400 && c.more( 60 ) && !c.failed(); ++k )
        {
            if ( c.draw( 8 ) < bias )
            {
                if ( held < cap ) { m.quiet( "put", [ & ] { r.p->put( v ); } ); ++held; c.describe( "+" ); }
                else m.loud( [ & ] { try { r.p->put( v ); } catch ( const RingBufferOverflow & ) {} } );
            }
            else if ( held ) { m.quiet( "get", [ & ] { r.p->get(); } ); --held; c.describe( "-" ); }
            else m.loud( [ & ] { try { r.p->get(); } catch ( const RingBufferUnderflow & ) {} } );
        }
        m.loud( [ & ] { r.destroy(); } );
        m.settled( "a ring" );
        c.nontrivial( m.ops > 2 ); c.label( "simple ring" );
    }

    template< class T, class S > void guarded( pbt::Case & c, T v, S slot )
    {
        Meter m{ c };
        Place< RingBufferGuarded< T > > r;
        size_t req = 1 + someSize( c ), held = 0;
        bool primed = c.draw( 2 );
        c.describe( "RingBufferGuarded(%zu%s):", req, primed ? ", true" : "" );
        m.loud( [ & ] { r.make( req, primed ); } );
        std::array< char, 48 > pad{};
        if ( primed && c.draw( 2 ) ) { const std::function< S( size_t ) > f = [ slot, pad ]( size_t ) mutable { pad[ 0 ] = 1; return slot; }; m.quiet( "prime", [ & ] { r.p->prime( f ); } ); held = req; }
        else if ( primed ) { auto f = [ & ]( size_t ) { return slot; }; m.quiet( "prime", [ & ] { r.p->prime( std::ref( f ) ); } ); held = req; }
        for ( int k = 0; k != 400 && c.more( 60 ) && !c.failed(); ++k )
        {
            if ( c.draw( 2 ) ) { if ( held < req ) { m.quiet( "put", [ & ] { r.p->put( v ); } ); ++held; c.describe( "+" ); } }
            else if ( held ) { m.quiet( "get", [ & ] { r.p->get(); } ); --held; c.describe( "-" ); }
        }
        if ( c.draw( 2 ) )
        {
            m.quiet( "abort", [ & ] { r.p->abort(); } );
            m.loud( [ & ] { try { r.p->get(); } catch ( const std::exception & ) {} } );
            size_t n = 0;
            auto f = [ & ]( auto ) { ++n; };
            if ( c.draw( 2 ) ) { const std::function< void( S ) > g = [ &n, pad ]( auto ) mutable { pad[ 0 ] = 1; ++n; }; m.quiet( "flush", [ & ] { r.p->flush( g ); } ); }
            else m.quiet( "flush", [ & ] { r.p->flush( std::ref( f ) ); } );
            c.describe( " flushed %zu", n );
        }
        m.loud( [ & ] { r.destroy(); } );
        m.settled( "a guarded ring" );
        c.nontrivial( m.ops > 2 ); c.label( "guarded ring" );
    }

    struct Base { virtual ~Base() noexcept = default; };
    template< size_t N > struct Derived : Base { unsigned char b[ N ]; Derived( int v, bool boom ) { for ( auto & x : b ) x = (unsigned char)v; if ( boom ) throw 2; } };
    void objects( pbt::Case & c )
    {
        Meter m{ c };
        using Pool = ObjectPool< Base >;
        using Ptr = Pool::ObjectPtrType;
        Place< Pool > pool;
        size_t req = someSize( c ), cap = 2; while ( cap < req ) cap *= 2;
        c.describe( "ObjectPool(%zu):", req );
        m.loud( [ & ] { pool.make( req, sizeof( Derived< 40 > ) ); } );
        std::vector< Ptr > held; held.reserve( cap );
        for ( int k = 0; k != 300 && c.more( 60 ) && !c.failed(); ++k )
        {
            size_t what = c.weighted( { 5, 4, 1, 2 } );
            if ( what == 0 && held.size() < cap )
            {
                Ptr p; bool wide = c.draw( 2 );
                m.quiet( "createObj", [ & ] { if ( wide ) p = pool.p->createObj< Derived< 40 > >( 3, false ); else p = pool.p->createObj< Derived< 1 > >( 3, false ); } );
                held.push_back( std::move( p ) ); c.describe( "+" );
            }
            else if ( what == 1 && !held.empty() )
            {
                size_t i = c.draw( held.size() );
                Ptr p = std::move( held[ i ] ); held.erase( held.begin() + long( i ) );
                m.quiet( "releasing an object", [ & ] { p.reset(); } ); c.describe( "-" );
            }
            else if ( what == 2 ) m.loud( [ & ] { try { auto p = pool.p->createObj< Derived< 7 > >( 1, true ); } catch ( int ) {} catch ( const RingBufferUnderflow & ) {} } );
            else m.quiet( "getRunningStateStatistics", [ & ] { pool.p->getRunningStateStatistics(); pool.p->getSize(); } );
        }
        while ( !held.empty() && !c.failed() ) { Ptr p = std::move( held.back() ); held.pop_back(); m.quiet( "releasing an object", [ & ] { p.reset(); } ); }
        held.clear();
        m.loud( [ & ] { pool.destroy(); } );
        m.settled( "an object pool" );
        c.nontrivial( m.ops > 2 ); c.label( "object pool" );
    }
    struct Elem { int v{ 4 }; Elem() {} ~Elem() noexcept { v = 0; } };
    template< class T > void blocks( pbt::Case & c )
    {
        Meter m{ c };
        using Pool = BlockPool< T >;
        using Ptr = typename Pool::BlockPtrType;
        Place< Pool > pool;
        size_t req = c.draw( 40 ), cap = 2, len = 1 + c.draw( 100 ); while ( cap < req ) cap *= 2;
        c.describe( "BlockPool(%zu, %zu):", req, len );
        m.loud( [ & ] { pool.make( req, len ); } );
        std::vector< Ptr > held; held.reserve( cap );
        for ( int k = 0; k != 200 && c.more( 40 ) && !c.failed(); ++k )
        {
            if ( c.draw( 2 ) && held.size() < cap ) { Ptr p; m.quiet( "getBlock", [ & ] { p = pool.p->getBlock(); } ); held.push_back( std::move( p ) ); c.describe( "+" ); }
            else if ( !held.empty() ) { size_t i = c.draw( held.size() ); Ptr p = std::move( held[ i ] ); held.erase( held.begin() + long( i ) ); m.quiet( "releasing a block", [ & ] { p.reset(); } ); c.describe( "-" ); }
        }
        while ( !held.empty() && !c.failed() ) { Ptr p = std::move( held.back() ); held.pop_back(); m.quiet( "releasing a block", [ & ] { p.reset(); } ); }
        held.clear();
        m.loud( [ & ] { pool.destroy(); } );
        m.settled( "a block pool" );
        c.nontrivial( m.ops > 2 ); c.label( "block pool" );
    }

    template< size_t N > struct Msg : MessageBase
    {
        unsigned char b[ N ]; bool boom, ctorBoom{ false };
        Msg( bool x, bool y ) : boom( x ) { for ( auto & v : b ) v = 1; if ( y ) throw 3; }
        Msg( Msg && o ) noexcept : MessageBase(), boom( o.boom ) { for ( size_t i = 0; i != N; ++i ) b[ i ] = o.b[ i ]; }
        ~Msg() noexcept override = default;
        void dispatch() override { if ( boom ) throw 4; }
        const char * name() const override { return "a message with a name that is rather longer than what a short string could hold"; }
    };
    void queue( pbt::Case & c )
    {
        Meter m{ c };
        Place< MessageQueue > q;
        size_t depth = 1 + someSize( c ), held = 0;
        bool locking = c.draw( 2 );
        std::vector< bool > boom;   // by order of arrival
        size_t front = 0;
        c.describe( "MessageQueue(%zu%s):", depth, locking ? ", locking" : "" );
        m.loud( [ & ] { q.make( depth, sizeof( Msg< 60 > ), locking ); } );
        char pad[ 48 ] = { 0 };
        auto wake = [ & ]() { ++pad[ 0 ]; };
        const std::function< void() > heavy = [ pad ]() mutable { ++pad[ 0 ]; };
        for ( int k = 0; k != 300 && c.more( 60 ) && !c.failed(); ++k )
        {
            size_t what = c.weighted( { 10, 9, 1, 2, 2, 1 } );
            if ( what == 0 && held < depth )
            {
                size_t how = c.draw( 4 ); bool b = c.chance( 1, 6 ), failing = c.chance( 1, 10 );
                Msg< 60 > wide( b, false ); Msg< 3 > narrow( b, false );
                if ( failing ) m.loud( [ & ] { try { q.p->emplace< Msg< 3 > >( b, true ); } catch ( int ) {} try { q.p->emplace< Msg< 400 > >( b, false ); } catch ( const MessageQueueElementSizeError & ) {} } );
                else
                {
                    m.quiet( "put", [ & ] { switch ( how ) { case 0: q.p->put( std::move( wide ) ); break; case 1: q.p->put( std::move( narrow ) ); break; case 2: q.p->emplace< Msg< 60 > >( b, false ); break; default: q.p->emplace< Msg< 3 > >( b, false ); } } );
                    ++held; boom.push_back( b ); c.describe( "+" );
                }
            }
            else if ( what == 1 && held )
            {
                size_t w = c.draw( 3 ); bool b = boom[ front++ ];
                auto f = [ & ] { if ( w == 1 ) q.p->getAndDispatch( std::ref( wake ) ); else if ( w ) q.p->getAndDispatch( heavy ); else q.p->getAndDispatch(); };
                if ( b ) m.loud( [ & ] { try { f(); } catch ( int ) {} } ); else m.quiet( "getAndDispatch", f );
                --held; c.describe( "-" );
            }
            else if ( what == 2 ) { m.quiet( "purge", [ & ] { q.p->purge(); } ); front += held; held = 0; c.describe( " purge" ); }
            else if ( what == 3 ) m.quiet( "statistics", [ & ] { q.p->getRunningStateStatistics(); q.p->getNameOfLastMessageDispatched(); } );
            else if ( what == 4 && locking )
                m.quiet( "the dispatch lock", [ & ] { auto l = q.p->getAutoDispatchLock(); auto l2 = std::move( l ); l2.unlock(); l2.lock(); l2.native_handle(); l = std::move( l2 ); } );
            else if ( what == 5 && !locking ) m.loud( [ & ] { try { q.p->getAutoDispatchLock(); } catch ( const MessageQueueDispatchLockingDisabled & ) {} } );
        }
        if ( c.draw( 2 ) ) { m.quiet( "abort", [ & ] { q.p->abort(); } ); m.loud( [ & ] { try { q.p->getAndDispatch(); } catch ( const std::exception & ) {} try { q.p->emplace< Msg< 3 > >( false, false ); } catch ( const std::exception & ) {} } ); }
        if ( held ) c.label( "messages left to the destructor" );
        m.loud( [ & ] { q.destroy(); } );
        m.settled( "a message queue" );
        c.nontrivial( m.ops > 2 ); c.label( "message queue" );
    }
}

PBT_SUITE( hist, "C20.history", 600000, 8000000, "single-threaded histories of every component, sizes 0 to 10000, failures included; each successful call must make no allocator call, and construction, failures and destruction must balance; non-trivial: three or more metered calls" )
{
    int x = 0;
    switch ( c.draw( 10 ) )
    {
        case 0: semaphore( c ); break;
        case 1: mutex( c ); break;
        case 2:
            switch ( c.draw( 5 ) )
            {
                case 0: simple< long >( c, 5 ); break;
                case 1: simple< int * >( c, &x ); break;
                case 2: simple< long double >( c, 5.5L ); break;
                case 3: simple< bool >( c, true ); break;
                default: simple< Method >( c, &Tool::method ); break;
            }
            break;
        case 3:
            switch ( c.draw( 6 ) )
            {
                case 0: guarded< long >( c, 5l, 5l ); break;
                case 1: guarded< long double >( c, 5.5L, 5.5L ); break;
                case 2: guarded< double >( c, 5.5, 5.5 ); break;
                case 3: guarded< char >( c, 'x', 'x' ); break;
                case 4: guarded< Method >( c, &Tool::method, &Tool::method ); break;
                default: guarded< bool >( c, true, true ); break;
            }
            break;
        case 4: guarded< int * >( c, &x, static_cast< void * >( &x ) ); break;
        case 5: objects( c ); break;
        case 6: if ( c.draw( 2 ) ) blocks< double >( c ); else blocks< Elem >( c ); break;
        default: queue( c ); break;
    }
}
