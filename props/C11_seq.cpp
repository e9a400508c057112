// C11: blocks of a BlockPool are freshly default-constructed and fully torn down.
// Model: how many elements are alive and where; scalar blocks are dirtied before they go back.
#include "seq.hpp"
#include "boom.hpp"
#include "BlockPool.hpp"
#include "ReiserRT_CoreExceptions.hpp"

#include <cstring>
#include <functional>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>

using namespace ReiserRT::Core;

namespace
{
    size_t capacityFor( size_t req ) { size_t n = 2; while ( n < req ) n *= 2; return n; }

    struct Model
    {
        pbt::Case * c;
        std::set< const void * > alive;
        uint64_t ctors{ 0 }, dtors{ 0 };
        long bomb{ -1 };
        bool bad{ false };
        void error( const char * what ) { if ( !bad ) { bad = true; c->fail( "%s", what ); } }
    };
    Model * m = nullptr;
    struct Boom { long v; };
    void born( const void * p ) { ++m->ctors; if ( !m->alive.insert( p ).second ) m->error( "an element was constructed where another one lives" ); }
    void died( const void * p ) { ++m->dtors; if ( !m->alive.erase( p ) ) m->error( "an element was destroyed that is not alive" ); }
    void fuse() { if ( m->bomb == 0 ) { m->bomb = -1; boom::raise( Boom{ 4711 } ); } if ( m->bomb > 0 ) --m->bomb; }

    enum class E16 : uint16_t { Zero, One };
    struct Quiet { int a{ 5 }; short b{ -3 }; Quiet() noexcept { born( this ); } ~Quiet() noexcept { died( this ); } };
    struct Throwing { char a[ 5 ]; Throwing() { fuse(); std::memcpy( a, "abcd", 5 ); born( this ); } ~Throwing() noexcept { died( this ); } };
    struct Owning { std::unique_ptr< int > p; std::string s; Owning() : p( new int( 3 ) ), s( "a default string long enough for the heap" ) { fuse(); born( this ); } ~Owning() noexcept { died( this ); } };
    struct Poly { long x{ 9 }; Poly() { fuse(); born( this ); } virtual ~Poly() noexcept { died( this ); } virtual int f() const { return 12; } };

    template< class T > struct Trait
    {
        static constexpr bool scalar = true, throws = false;
        static bool fresh( const T & t ) { return t == T(); }
        static void dirty( T & t, unsigned v ) { std::memset( &t, int( 0x55 + v % 100 ), sizeof( T ) ); }
    };
    template<> struct Trait< bool > { static constexpr bool scalar = true, throws = false; static bool fresh( const bool & t ) { return *reinterpret_cast< const unsigned char * >( &t ) == 0; } static void dirty( bool & t, unsigned ) { t = true; } };
    template<> struct Trait< Quiet > { static constexpr bool scalar = false, throws = false; static bool fresh( const Quiet & t ) { return t.a == 5 && t.b == -3; } static void dirty( Quiet & t, unsigned v ) { t.a = int( v ); t.b = 1; } };
    template<> struct Trait< Throwing > { static constexpr bool scalar = false, throws = true; static bool fresh( const Throwing & t ) { return !std::memcmp( t.a, "abcd", 5 ); } static void dirty( Throwing & t, unsigned v ) { std::memset( t.a, int( v ), 5 ); } };
    template<> struct Trait< Owning > { static constexpr bool scalar = false, throws = true; static bool fresh( const Owning & t ) { return t.p && *t.p == 3 && t.s == "a default string long enough for the heap"; } static void dirty( Owning & t, unsigned v ) { t.p.reset( new int( int( v ) ) ); t.s += "x"; } };
    template<> struct Trait< Poly > { static constexpr bool scalar = false, throws = true; static bool fresh( const Poly & t ) { return t.x == 9 && t.f() == 12; } static void dirty( Poly & t, unsigned v ) { t.x = v; } };

    template< class T > void run( pbt::Case & c, const char * type )
    {
        using Tr = Trait< T >;
        using Pool = BlockPool< T >;
        using Ptr = BlockPoolPtrType< T >;
        Model model; model.c = &c; m = &model; if ( Tr::throws ) { boom::choose( c ); boom::tell( c ); }
        size_t req = c.draw( 7 ), cap = capacityFor( req );
        size_t len = 1 + ( c.draw( 3 ) ? c.draw( 6 ) : c.draw( 3 ) ? c.draw( 40 ) : c.draw( 600 ) );
        if ( !Tr::throws && c.chance( 1, 250 ) ) { req = c.draw( 4 ); cap = capacityFor( req ); len = 65536 / ( c.draw( 2 ) ? sizeof( T ) : 1 ) - 3 + c.draw( 10 ); c.label( "about 65536 bytes or elements" ); }
        c.describe( "BlockPool< %s >(%zu, %zu):", type, req, len );
        {
        Pool pool( req, len );
        struct Holder { Ptr u; std::shared_ptr< T[] > s; std::shared_ptr< const T[] > cs; const T * get() const { return u ? u.get() : s ? s.get() : cs.get(); } };
        std::vector< Holder > held;
        size_t full = 0, threw = 0, routes = 0, high = 0, reused = 0;
        std::set< const void * > used;
        auto check = [ & ]( const char * what ) -> bool
        {
            if ( model.bad ) return false;
            high = held.size() > high ? held.size() : high;
            size_t expect = Tr::scalar ? 0 : held.size() * len;
            if ( model.alive.size() != expect ) { model.bad = true; c.fail( "after %s: %zu elements are alive, %zu blocks of %zu are owned", what, model.alive.size(), held.size(), len ); return false; }
            size_t free = pool.getRunningStateStatistics().runningCount;
            if ( free != cap - held.size() ) { model.bad = true; c.fail( "after %s: %zu of %zu blocks are free, %zu are owned", what, free, cap, held.size() ); return false; }
            return true;
        };
        auto get = [ & ]() -> bool
        {
            size_t before = held.size(); bool armed = false;
            if ( Tr::throws && c.chance( 1, 4 ) ) { model.bomb = long( c.draw( len ) ); armed = true; }
            uint64_t ctors = model.ctors, dtors = model.dtors;
            int out = 0; Ptr p;
            try { p = pool.getBlock(); } catch ( const Boom & b ) { out = b.v == 4711 ? 2 : 3; } catch ( const RingBufferUnderflow & ) { out = 1; } catch ( ... ) { out = 3; }
            model.bomb = -1;
            c.describe( " get%s", armed ? "!" : "" );
            int expected = before == cap ? 1 : armed ? 2 : 0;
            if ( model.bad ) return false;
            auto wrong = [ & ]( const char * why ) { model.bad = true; c.fail( "getBlock with %zu of %zu in use: %s", before, cap, why ); return false; };
            if ( out != expected ) return wrong( out == 0 ? "succeeded" : out == 1 ? "threw RingBufferUnderflow" : out == 2 ? "let a constructor's exception out" : "threw something else" );
            if ( out == 0 )
            {
                if ( !Tr::scalar && ( model.ctors != ctors + len || model.dtors != dtors ) ) return wrong( "the wrong number of elements was constructed" );
                if ( p.get_deleter().getNumElements() != len ) return wrong( "its deleter reports the wrong number of elements" );
                for ( size_t i = 0; i != len; ++i ) if ( !Tr::fresh( p[ i ] ) ) return wrong( "an element is not freshly default-constructed" );
                if ( used.count( p.get() ) ) ++reused;
                used.insert( p.get() );
                held.emplace_back(); held.back().u = std::move( p );
                unsigned v = unsigned( c.draw( 90 ) );
                for ( size_t i = 0; i != len; ++i ) Tr::dirty( held.back().u[ i ], v + unsigned( i ) );
            }
            else if ( model.ctors - ctors != model.dtors - dtors ) return wrong( "failed and left elements alive" );
            full += out == 1; threw += out == 2;
            return check( "getBlock" );
        };
        size_t n = 0;
        while ( !model.bad && n < ( c.thorough ? 120u : 60u ) && c.more( 25 ) )
        {
            ++n;
            size_t op = c.draw( 16 );
            if ( op < 7 || held.empty() ) { get(); continue; }
            size_t k = c.draw( held.size() );
            Holder & h = held[ k ];
            const char * what = "";
            bool gone = false;
            switch ( op )
            {
                case 7: case 8: what = "destroying the pointer"; gone = true; break;
                case 9: what = "moving the pointer"; if ( h.u ) { Ptr a = std::move( h.u ), b; b = std::move( a ); if ( b.get_deleter().getNumElements() != len ) model.error( "a moved pointer's deleter reports the wrong number of elements" ); h.u.swap( b ); ++routes; } break;
                case 10: what = "reset"; if ( h.u ) h.u.reset(); h.s.reset(); h.cs.reset(); gone = true; ++routes; break;
                case 11: what = "release and the deleter"; if ( h.u ) { auto d = h.u.get_deleter(); T * p = h.u.release(); if ( !Tr::scalar && model.alive.size() != held.size() * len ) { model.error( "release of the pointer destroyed elements" ); break; } d( p ); gone = true; ++routes; } break;
                case 12: what = "conversion to shared_ptr"; if ( h.u ) { h.s = std::move( h.u ); ++routes; } break;
                case 13: what = "conversion to shared_ptr to const"; if ( h.u ) { h.cs = std::move( h.u ); ++routes; } else if ( h.s ) { h.cs = std::move( h.s ); ++routes; } break;
                case 14:
                    what = "assigning one pointer over another";
                    if ( h.u && held.size() > 1 )
                    {
                        size_t j = ( k + 1 + c.draw( held.size() - 1 ) ) % held.size();
                        if ( held[ j ].u ) { held[ j ].u = std::move( h.u ); gone = true; ++routes; }
                    }
                    break;
                default:
                    what = "destroying it on another thread";
                    if ( h.u && c.chance( 1, 8 ) ) { std::thread t( [ p = std::move( h.u ) ]() mutable { p.reset(); } ); t.join(); gone = true; ++routes; }
                    break;
            }
            if ( gone ) held.erase( held.begin() + long( k ) );
            c.describe( " [%s]", what );
            check( what );
        }
        if ( !model.bad )
        {
            held.clear();
            if ( check( "releasing everything" ) )
            {
                size_t made = 0;
                try { for ( ; made <= cap; ++made ) { held.emplace_back(); held.back().u = pool.getBlock(); } } catch ( const RingBufferUnderflow & ) { held.pop_back(); }
                if ( made != cap ) { model.bad = true; c.fail( "%zu blocks fit in an emptied pool of %zu", made, cap ); }
                check( "refilling the pool" );
                held.clear();
                check( "emptying it again" );
            }
        }
        if ( model.bad ) new auto( std::move( held ) );
        c.nontrivial( reused && routes && high >= 2 );
        if ( full ) c.label( "exhaustion met" );
        if ( threw ) c.label( "constructor threw" );
        if ( reused ) c.label( "blocks reused" );
        c.label( type );
        }
    }
}

PBT_SUITE( scalars, "C11.scalars", 200000, 4000000, "block pools of ten scalar types, 0-6 requested blocks of 1-600 elements; blocks are dirtied, released by six routes and had again; non-trivial: two or more owned at once, a block reused and ownership moved" )
{
    switch ( c.draw( 10 ) )
    {
        case 0: run< uint8_t >( c, "uint8_t" ); break;
        case 1: run< uint16_t >( c, "uint16_t" ); break;
        case 2: run< int >( c, "int" ); break;
        case 3: run< uint64_t >( c, "uint64_t" ); break;
        case 4: run< float >( c, "float" ); break;
        case 5: run< double >( c, "double" ); break;
        case 6: run< bool >( c, "bool" ); break;
        case 7: run< void * >( c, "void *" ); break;
        case 8: run< const char * >( c, "const char *" ); break;
        default: run< E16 >( c, "enum" ); break;
    }
}
PBT_SUITE( objects, "C11.objects", 200000, 4000000, "the same with four class types whose constructors may throw at any element; same rule" )
{
    switch ( c.draw( 4 ) )
    {
        case 0: run< Quiet >( c, "noexcept constructor" ); break;
        case 1: run< Throwing >( c, "throwing constructor" ); break;
        case 2: run< Owning >( c, "elements owning heap memory" ); break;
        default: run< Poly >( c, "polymorphic elements" ); break;
    }
}
