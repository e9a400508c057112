// C09: memory handed out by pools and message queues is exclusive, aligned, large enough and undisturbed.
// Histories of creation, writing and release; every live object is filled to its last byte with a pattern of its own and
// all of them are compared after every step. AddressSanitizer watches the edges of the arena.
#include "seq.hpp"
#include "ObjectPool.hpp"
#include "BlockPool.hpp"
#include "MessageQueue.hpp"

#include <functional>
#include <memory>
#include <string>
#include <vector>

using namespace ReiserRT::Core;

namespace
{
    unsigned char pat( unsigned seed, size_t i ) { return (unsigned char)( seed * 37 + i * 11 + ( i >> 8 ) + 1 ); }

    // One live stretch of memory.
    struct Live
    {
        unsigned char * start; size_t size;     // the whole object or block
        unsigned char * data; size_t n;         // what the user writes
        unsigned seed;
        std::function< void( int how ) > release;
        std::function< bool() > sane;
    };

    struct World
    {
        pbt::Case & c;
        std::vector< Live > live;
        unsigned nextSeed{ 1 };
        bool bad{ false };
        size_t high{ 0 }, reused{ 0 }, steps{ 0 };
        std::vector< unsigned char * > seen;

        explicit World( pbt::Case & cc ) : c( cc ) {}
        void add( Live l, const char * what, bool fill = true )
        {
            if ( reinterpret_cast< uintptr_t >( l.start ) % alignof( void * ) )
            { bad = true; c.fail( "%s of %zu bytes is at %zu past an address aligned for a pointer", what, l.size, size_t( reinterpret_cast< uintptr_t >( l.start ) % alignof( void * ) ) ); return; }
            if ( !seq::insideWatched( l.start, l.size ) )
            { bad = true; c.fail( "%s of %zu bytes is not inside the memory its pool owns", what, l.size ); return; }
            for ( auto & o : live )
                if ( l.start < o.start + o.size && o.start < l.start + l.size )
                {
                    bad = true;
                    c.fail( "%s of %zu bytes overlaps a live one of %zu bytes (%td bytes apart, %zu live)", what, l.size, o.size, l.start - o.start, live.size() );
                    return;
                }
            for ( auto p : seen ) if ( p == l.start ) { ++reused; break; }
            seen.push_back( l.start );
            if ( fill ) for ( size_t i = 0; i != l.n; ++i ) l.data[ i ] = pat( l.seed, i );
            live.push_back( std::move( l ) );
            if ( live.size() > high ) high = live.size();
        }
        void rewrite( size_t k ) { auto & l = live[ k ]; l.seed = nextSeed++; for ( size_t i = 0; i != l.n; ++i ) l.data[ i ] = pat( l.seed, i ); }
        void release( size_t k, int how )
        {
            Live l = std::move( live[ k ] );
            live.erase( live.begin() + long( k ) );
            l.release( how );
        }
        void verify( const char * after )
        {
            ++steps;
            for ( size_t k = 0; !bad && k != live.size(); ++k )
            {
                auto & l = live[ k ];
                for ( size_t i = 0; i != l.n; ++i )
                    if ( l.data[ i ] != pat( l.seed, i ) )
                    { bad = true; c.fail( "after %s, byte %zu of %zu of live object %zu of %zu was altered", after, i, l.n, k + 1, live.size() ); return; }
                if ( l.sane && !l.sane() ) { bad = true; c.fail( "after %s, live object %zu of %zu is damaged", after, k + 1, live.size() ); return; }
            }
        }
    };

    // --- Object pools
    template< size_t N > struct Pod { unsigned char b[ N ]; unsigned char * data() { return b; } static constexpr size_t n() { return N; } };
    template< size_t N > struct PodW { double d; unsigned char b[ N ]; unsigned char * data() { return b; } static constexpr size_t n() { return N; } };

    struct Base { virtual ~Base() noexcept = default; virtual size_t id() const = 0; virtual unsigned char * data() = 0; };
    struct Other { virtual ~Other() noexcept = default; uint32_t filler[ 3 ]{ 1, 2, 3 }; virtual int other() const { return 77; } };
    struct PlainOther { uint16_t filler[ 5 ]{ 9, 8, 7, 6, 5 }; };
    template< size_t N > struct Single : Base { unsigned char b[ N ]; size_t id() const override { return N; } unsigned char * data() override { return b; } };
    template< size_t N > struct SecondBase : Other, Base { unsigned char b[ N ]; size_t id() const override { return N + 1000; } unsigned char * data() override { return b; } };
    template< size_t N > struct AfterPlain : PlainOther, Base { unsigned char b[ N ]; size_t id() const override { return N + 2000; } unsigned char * data() override { return b; } };
    template< size_t N > struct Virtual : virtual Base { unsigned char b[ N ]; size_t id() const override { return N + 3000; } unsigned char * data() override { return b; } };

    template< class P > struct Held
    {
        P p; std::shared_ptr< void > s;
    };

    template< class Pool, class D, size_t N > void create( World & w, Pool & pool, const char * what )
    {
        typename Pool::ObjectPtrType p;
        try { p = pool.template createObj< D >(); }
        catch ( const RingBufferUnderflow & ) { w.c.describe( " full" ); return; }
        catch ( const ObjectPoolElementSizeError & ) { w.c.describe( " refused" ); return; }
        using T = typename Pool::ObjectPtrType::element_type;
        auto h = std::make_shared< typename Pool::ObjectPtrType >( std::move( p ) );
        T * t = h->get();
        D * d;
        if constexpr ( std::is_polymorphic_v< T > ) d = dynamic_cast< D * >( t ); else d = static_cast< D * >( t );
        if ( !d ) { w.bad = true; w.c.fail( "createObj< %s > did not make one", what ); return; }
        Live l;
        l.start = reinterpret_cast< unsigned char * >( d ); l.size = sizeof( D );
        l.data = d->data(); l.n = N; l.seed = w.nextSeed++;
        l.release = [ h ]( int how )
        {
            if ( how == 0 ) h->reset();
            else if ( how == 1 ) { std::shared_ptr< const T > s = std::move( *h ); auto s2 = s; s.reset(); }
            else { typename Pool::ObjectPtrType a = std::move( *h ), b; b = std::move( a ); }
        };
        if constexpr ( std::is_polymorphic_v< T > ) { size_t id = t->id(); l.sane = [ h, id ] { return ( *h )->id() == id; }; }
        w.add( std::move( l ), what );
    }

    template< class Make > void drive( World & w, Make make, bool useHow )
    {
        auto & c = w.c;
        size_t n = 0, cap = c.thorough ? 120 : 60;
        while ( !w.bad && n < cap && c.more( 20 ) )
        {
            ++n;
            switch ( c.weighted( { 6, 4, 2 } ) )
            {
                case 0: make(); w.verify( "a creation" ); break;
                case 1:
                    if ( !w.live.empty() )
                    {
                        size_t k = c.draw( w.live.size() ); int how = useHow ? int( c.draw( 3 ) ) : 0;
                        c.describe( " release(%zu)", k );
                        w.release( k, how ); w.verify( "a release" );
                    }
                    break;
                default: if ( !w.live.empty() ) { w.rewrite( c.draw( w.live.size() ) ); w.verify( "writing in one of them" ); } break;
            }
        }
        while ( !w.bad && !w.live.empty() ) { w.release( c.draw( w.live.size() ), 0 ); w.verify( "a release" ); }
        if ( w.bad ) new std::vector< Live >( std::move( w.live ) );    // released no more: the pool is damaged
        c.nontrivial( w.high >= 2 && ( w.reused || w.high >= 3 ) );
        if ( w.reused ) c.label( "slots reused" );
    }

    template< size_t N > void podPool( pbt::Case & c )
    {
        size_t req = 1 + c.draw( 8 ), min = c.draw( 2 ) ? 0 : c.draw( 40 );
        c.describe( "ObjectPool< %zu bytes >(%zu, %zu):", N, req, min );
        World w( c );
        seq::watch( true );
        ObjectPool< Pod< N > > pool( req, min );
        seq::watch( false );
        drive( w, [ & ] { c.describe( " create" ); create< ObjectPool< Pod< N > >, Pod< N >, N >( w, pool, "an object" ); }, true );
        c.label( "object pool, element of " + std::to_string( N ) + " bytes" );
    }
    template< size_t N > void podwPool( pbt::Case & c )
    {
        using P = PodW< N >;
        size_t req = 1 + c.draw( 8 ), min = sizeof( P ) + ( c.draw( 2 ) ? 0 : c.draw( 20 ) );
        c.describe( "ObjectPool< double and %zu bytes >(%zu, %zu):", N, req, min );
        World w( c );
        seq::watch( true );
        ObjectPool< P > pool( req, min );
        seq::watch( false );
        drive( w, [ & ] { c.describe( " create" ); create< ObjectPool< P >, P, N >( w, pool, "an object" ); }, true );
        c.label( "object pool, minimum of " + std::to_string( min % 8 ) + " mod 8" );
    }
    void polyPool( pbt::Case & c, bool large = false )
    {
        using Pool = ObjectPool< Base >;
        size_t req = 1 + c.draw( large ? 4 : 8 ), min = large ? 65536 * ( 1 + c.draw( 2 ) ) - 200 + c.draw( 400 ) : 8 + c.draw( 120 );
        c.describe( "ObjectPool< Base >(%zu, %zu):", req, min );
        World w( c );
        seq::watch( true );
        Pool pool( req, min );
        seq::watch( false );
        drive( w, [ & ]
        {
            size_t k = c.draw( large ? 16 : 12 );
            c.describe( " create#%zu", k );
            switch ( k )
            {
                case 0: create< Pool, Single< 1 >, 1 >( w, pool, "a derived object" ); break;
                case 1: create< Pool, Single< 16 >, 16 >( w, pool, "a derived object" ); break;
                case 2: create< Pool, Single< 23 >, 23 >( w, pool, "a derived object" ); break;
                case 3: create< Pool, Single< 60 >, 60 >( w, pool, "a derived object" ); break;
                case 4: create< Pool, Single< 111 >, 111 >( w, pool, "a derived object" ); break;
                case 5: create< Pool, Single< 40 >, 40 >( w, pool, "a derived object" ); break;
                case 6: create< Pool, SecondBase< 4 >, 4 >( w, pool, "an object whose pooled base is its second base" ); break;
                case 7: create< Pool, SecondBase< 45 >, 45 >( w, pool, "an object whose pooled base is its second base" ); break;
                case 8: create< Pool, AfterPlain< 6 >, 6 >( w, pool, "an object with a plain first base" ); break;
                case 9: create< Pool, AfterPlain< 33 >, 33 >( w, pool, "an object with a plain first base" ); break;
                case 10: create< Pool, Virtual< 5 >, 5 >( w, pool, "an object with a virtual pooled base" ); break;
                case 12: create< Pool, Single< 65400 >, 65400 >( w, pool, "a large derived object" ); break;
                case 13: create< Pool, Single< 65533 >, 65533 >( w, pool, "a large derived object" ); break;
                case 14: create< Pool, SecondBase< 65600 >, 65600 >( w, pool, "a large object whose pooled base is its second base" ); break;
                case 15: create< Pool, Single< 130900 >, 130900 >( w, pool, "a large derived object" ); break;
                default: create< Pool, Virtual< 50 >, 50 >( w, pool, "an object with a virtual pooled base" ); break;
            }
        }, true );
        c.label( "polymorphic pool, minimum of " + std::to_string( min % 8 ) + " mod 8" );
    }

    // --- Block pools
    struct S3 { unsigned char x[ 3 ]{}; };
    struct S12 { uint32_t x[ 3 ]{}; };
    struct Counted { static int alive; uint16_t x[ 3 ]{}; Counted() noexcept { ++alive; } ~Counted() noexcept { --alive; } };
    struct MayThrow { uint64_t x{ 0 }; unsigned char y{ 0 }; MayThrow() noexcept( false ) {} ~MayThrow() noexcept {} };
    int Counted::alive = 0;

    template< class T > void blocks( pbt::Case & c, const char * type, bool large = false )
    {
        using Pool = BlockPool< T >;
        size_t req = 1 + c.draw( large ? 4 : 8 ), len = large ? 65536 / ( c.draw( 2 ) ? sizeof( T ) : 1 ) - 3 + c.draw( 10 ) : 1 + ( c.draw( 3 ) ? c.draw( 9 ) : c.draw( 70 ) );
        c.describe( "BlockPool< %s >(%zu, %zu):", type, req, len );
        World w( c );
        seq::watch( true );
        Pool pool( req, len );
        seq::watch( false );
        drive( w, [ & ]
        {
            c.describe( " get" );
            typename Pool::BlockPtrType p;
            try { p = pool.getBlock(); } catch ( const RingBufferUnderflow & ) { c.describe( " full" ); return; }
            auto h = std::make_shared< typename Pool::BlockPtrType >( std::move( p ) );
            Live l;
            l.start = l.data = reinterpret_cast< unsigned char * >( h->get() ); l.size = l.n = sizeof( T ) * len; l.seed = w.nextSeed++;
            l.release = [ h ]( int how )
            {
                if ( how == 0 ) h->reset();
                else if ( how == 1 ) { std::shared_ptr< const T[] > s = std::move( *h ); auto s2 = s; s.reset(); }
                else { typename Pool::BlockPtrType a = std::move( *h ), b; b = std::move( a ); }
            };
            w.add( std::move( l ), "a block" );
        }, true );
        c.label( "blocks of " + std::to_string( sizeof( T ) * len % 8 ) + " mod 8 bytes" );
    }

    // --- Message queues
    World * qw = nullptr;
    struct MsgState { bool dispatching{ false }; };
    template< class First, size_t N, unsigned Pad > struct Msg : First
    {
        unsigned char b[ N ];
        unsigned seed;
        bool mine;      // in the caller's hands, not in the queue
        explicit Msg( unsigned s ) : seed( s ), mine( local ) { reg(); }
        Msg( Msg && o ) : First( o ), seed( o.seed ), mine( false ) { reg(); }
        ~Msg() noexcept override { dereg( "destruction" ); }
        void dispatch() override { check( "dispatch" ); }
        const char * name() const override { return "Msg"; }
        void reg()
        {
            Live l;
            l.start = reinterpret_cast< unsigned char * >( this ); l.size = sizeof( *this ); l.data = b; l.n = N; l.seed = seed;
            l.release = []( int ) {};
            if ( !mine ) qw->add( std::move( l ), "a message" );
        }
        size_t find() const { for ( size_t k = 0; k != qw->live.size(); ++k ) if ( qw->live[ k ].start == reinterpret_cast< const unsigned char * >( this ) ) return k; return ~size_t( 0 ); }
        void check( const char * when )
        {
            size_t k = find();
            if ( k == ~size_t( 0 ) ) { qw->bad = true; qw->c.fail( "%s of a message that is not live", when ); return; }
            if ( qw->live[ k ].seed != seed ) { qw->bad = true; qw->c.fail( "at %s a message is damaged", when ); }
        }
        void dereg( const char * when )
        {
            if ( mine || qw->bad ) return;
            check( when );
            size_t k = find();
            if ( k != ~size_t( 0 ) ) qw->live.erase( qw->live.begin() + long( k ) );
        }
        static bool local;
    };
    template< class F, size_t N, unsigned P > bool Msg< F, N, P >::local = false;
    struct M1 : MessageBase {};
    struct M2 : Other, MessageBase {};
    struct M3 : PlainOther, MessageBase {};
    struct M4 : virtual MessageBase {};

    template< class M > bool send( World & w, MessageQueue & q, bool byMove )
    {
        unsigned s = w.nextSeed++;
        try
        {
            if ( byMove )
            {
                M::local = true;
                M m( s );
                M::local = false;
                q.put( std::move( m ) );
            }
            else q.emplace< M >( s );
        }
        catch ( const MessageQueueElementSizeError & ) { M::local = false; w.c.describe( " refused" ); return false; }
        return true;
    }
    void queue( pbt::Case & c, bool large = false )
    {
        size_t depth = 1 + c.draw( large ? 4 : 9 ), size = large ? 65536 * ( 1 + c.draw( 2 ) ) - 200 + c.draw( 400 ) : 16 + c.draw( 110 );
        bool lock = c.draw( 2 );
        c.describe( "MessageQueue(%zu, %zu):", depth, size );
        World w( c );
        qw = &w;
        {
            seq::watch( true );
            MessageQueue q( depth, size, lock );
            seq::watch( false );
            size_t n = 0, queued = 0;
            while ( !w.bad && n < 80 && c.more( 25 ) )
            {
                ++n;
                size_t k = c.draw( 20 ), big = large ? c.draw( 8 ) : 7;
                if ( k < 12 && queued < depth )
                {
                    bool mv = c.draw( 2 ), ok = false;
                    c.describe( " %s#%zu", mv ? "put" : "emplace", k );
                    if ( big < 3 ) c.describe( "+%zu", big );
                    switch ( big < 3 ? 12 + big : k )
                    {
                        case 12: ok = send< Msg< M1, 65400, 0 > >( w, q, mv ); break;
                        case 13: ok = send< Msg< M2, 65490, 0 > >( w, q, mv ); break;
                        case 14: ok = send< Msg< M1, 130900, 0 > >( w, q, mv ); break;
                        case 0: ok = send< Msg< M1, 1, 0 > >( w, q, mv ); break;
                        case 1: ok = send< Msg< M1, 20, 0 > >( w, q, mv ); break;
                        case 2: ok = send< Msg< M1, 43, 0 > >( w, q, mv ); break;
                        case 3: ok = send< Msg< M1, 80, 0 > >( w, q, mv ); break;
                        case 4: ok = send< Msg< M1, 101, 0 > >( w, q, mv ); break;
                        case 5: ok = send< Msg< M2, 3, 0 > >( w, q, mv ); break;
                        case 6: ok = send< Msg< M2, 50, 0 > >( w, q, mv ); break;
                        case 7: ok = send< Msg< M3, 2, 0 > >( w, q, mv ); break;
                        case 8: ok = send< Msg< M3, 31, 0 > >( w, q, mv ); break;
                        case 9: ok = send< Msg< M4, 7, 0 > >( w, q, mv ); break;
                        case 10: ok = send< Msg< M4, 60, 0 > >( w, q, mv ); break;
                        default: ok = send< Msg< M1, 64, 0 > >( w, q, mv ); break;
                    }
                    if ( ok ) ++queued;
                    w.verify( "enqueueing a message" );
                }
                else if ( k < 17 && queued )
                {
                    c.describe( " dispatch" );
                    q.getAndDispatch(); --queued;
                    w.verify( "dispatching a message" );
                }
                else if ( k == 17 && !w.live.empty() ) { size_t i = c.draw( w.live.size() ); w.verify( "nothing" ); (void)i; }
                else if ( k == 18 && c.chance( 1, 4 ) ) { c.describe( " purge" ); q.purge(); queued = 0; w.verify( "a purge" ); }
                if ( !w.bad && w.live.size() != queued ) { w.bad = true; c.fail( "%zu messages are live, %zu are enqueued", w.live.size(), queued ); }
            }
            c.nontrivial( w.high >= 2 && ( w.reused || w.high >= 3 ) );
            c.label( "message queue" );
            if ( w.reused ) c.label( "slots reused" );
        }
        if ( !w.bad && !w.live.empty() ) c.fail( "%zu messages outlive their queue", w.live.size() );
    }
}

PBT_SUITE( objects, "C09.objects", 200000, 4000000, "object pools of 14 element types (1 to 257 bytes, with and without alignment needs), requested sizes and minimum sizes of every residue; creations, releases by three routes and rewrites in any order; non-trivial: two or more live at once, and a slot was reused or three were live" )
{
    switch ( c.draw( 14 ) )
    {
        case 0: podPool< 1 >( c ); break;
        case 1: podPool< 2 >( c ); break;
        case 2: podPool< 3 >( c ); break;
        case 3: podPool< 5 >( c ); break;
        case 4: podPool< 7 >( c ); break;
        case 5: podPool< 9 >( c ); break;
        case 6: podPool< 12 >( c ); break;
        case 7: podPool< 15 >( c ); break;
        case 8: podPool< 17 >( c ); break;
        case 9: podPool< 31 >( c ); break;
        case 10: podPool< 100 >( c ); break;
        case 11: podPool< 257 >( c ); break;
        case 12: podwPool< 1 >( c ); break;
        default: podwPool< 20 >( c ); break;
    }
}
PBT_SUITE( poly, "C09.derived", 200000, 4000000, "polymorphic object pools with a minimum size of 8 to 127 bytes and twelve derived types, single, second, plain-first and virtual base; same operations and rule" ) { polyPool( c ); }
PBT_SUITE( blk, "C09.blocks", 200000, 4000000, "block pools of ten element types and lengths of 1 to 71; same operations and rule" )
{
    switch ( c.draw( 10 ) )
    {
        case 0: blocks< uint8_t >( c, "uint8_t" ); break;
        case 1: blocks< uint16_t >( c, "uint16_t" ); break;
        case 2: blocks< int >( c, "int" ); break;
        case 3: blocks< double >( c, "double" ); break;
        case 4: blocks< void * >( c, "void *" ); break;
        case 5: blocks< S3 >( c, "S3" ); break;
        case 6: blocks< S12 >( c, "S12" ); break;
        case 7: blocks< Counted >( c, "Counted" ); break;
        case 8: blocks< MayThrow >( c, "MayThrow" ); break;
        default: blocks< float >( c, "float" ); break;
    }
}
PBT_SUITE( msgs, "C09.messages", 150000, 3000000, "message queues of 1-9 messages of 16-125 bytes and twelve message types, put, emplaced, dispatched and purged; same rule" ) { queue( c ); }

PBT_SUITE( lrg, "C09.large", 1200, 20000, "as the other suites with elements of about 64 and 128 KiB; same operations and rule" )
{
    switch ( c.draw( 5 ) )
    {
        case 0: case 1: polyPool( c, true ); break;
        case 2: if ( c.draw( 2 ) ) blocks< uint8_t >( c, "uint8_t", true ); else blocks< S3 >( c, "S3", true ); break;
        case 3: if ( c.draw( 2 ) ) blocks< uint16_t >( c, "uint16_t", true ); else blocks< MayThrow >( c, "MayThrow", true ); break;
        default: queue( c, true ); break;
    }
}
