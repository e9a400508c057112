// C10: objects of an ObjectPool live exactly once, and failures leave the pool unchanged.
// Model: the set of live objects. Every constructor and destructor reports to it.
#include "seq.hpp"
#include "boom.hpp"
#include "ObjectPool.hpp"

#include <functional>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>

using namespace ReiserRT::Core;

namespace
{
    size_t capacityFor( size_t req ) { size_t n = 2; while ( n < req ) n *= 2; return n; }

    struct Model
    {
        pbt::Case * c;
        std::map< const void *, int > alive;        // address of the most derived object -> type number
        uint64_t ctors{ 0 }, dtors{ 0 }, failed{ 0 };
        bool bad{ false };
        int bomb{ -1 };                             // constructors to go until one throws
        void error( const char * what ) { if ( !bad ) { bad = true; c->fail( "%s", what ); } }
        void born( const void * p, int t ) { ++ctors; if ( !alive.emplace( p, t ).second ) error( "an object was constructed where another one lives" ); }
        void died( const void * p, int t )
        {
            ++dtors;
            auto it = alive.find( p );
            if ( it == alive.end() ) { error( "an object was destroyed that is not alive (destroyed twice, or never made)" ); return; }
            if ( it->second != t ) error( "an object was destroyed as another type than it was created" );
            alive.erase( it );
        }
    };
    Model * m = nullptr;
    struct Boom { int v; };
    void fuse() { if ( m->bomb == 0 ) { m->bomb = -1; ++m->failed; boom::raise( Boom{ int( m->ctors ) } ); } if ( m->bomb > 0 ) --m->bomb; }

    struct Base
    {
        int sum{ 0 };
        virtual ~Base() noexcept = default;
        virtual int type() const = 0;
    };
    using Pool = ObjectPool< Base >;
    using Ptr = ObjectPoolPtrType< Base >;

    struct Empty : Base { Empty() { fuse(); m->born( this, 1 ); sum = 1; } ~Empty() noexcept override { m->died( this, 1 ); } int type() const override { return 1; } };
    // Arguments of every value category; counts copies and moves.
    struct Arg { int v; int copies{ 0 }, moves{ 0 }; explicit Arg( int x ) : v( x ) {} Arg( const Arg & o ) : v( o.v ), copies( o.copies + 1 ), moves( o.moves ) {} Arg( Arg && o ) noexcept : v( o.v ), copies( o.copies ), moves( o.moves + 1 ) { o.v = -1; } };
    struct Args : Base
    {
        Arg a, b; const Arg * ref; int * cell; std::unique_ptr< int > owned; std::string text;
        Args( Arg && x, const Arg & y, int & z, std::unique_ptr< int > u, std::string t )
            : a( std::move( x ) ), b( y ), ref( &y ), cell( &z ), owned( std::move( u ) ), text( std::move( t ) )
        { fuse(); m->born( this, 2 ); sum = a.v + b.v + *cell + *owned + int( text.size() ); }
        ~Args() noexcept override { m->died( this, 2 ); }
        int type() const override { return 2; }
    };
    // Owns other objects of the same pool, created in its constructor or given later.
    struct Nest : Base
    {
        Ptr first, second;
        Nest( Pool & p, int depth ) : first( depth > 0 ? Ptr( p.createObj< Nest >( p, depth - 1 ) ) : Ptr( p.createObj< Empty >() ) ) { fuse(); m->born( this, 3 ); sum = depth; }
        ~Nest() noexcept override { second.reset(); first.reset(); m->died( this, 3 ); }
        int type() const override { return 3; }
    };
    struct Front { virtual ~Front() noexcept = default; long pad[ 2 ]{ 4, 5 }; };
    struct Second : Front, Base { Second( int v ) { fuse(); m->born( this, 4 ); sum = v; } ~Second() noexcept override { m->died( this, 4 ); } int type() const override { return 4; } };
    // Creates and drops another object of the same pool while it is being destroyed (and still owns its slot).
    struct Parting : Base
    {
        Pool & pool;
        Parting( Pool & p, int v ) : pool( p ) { fuse(); m->born( this, 6 ); sum = v; }
        ~Parting() noexcept override
        {
            bool room = m->alive.size() < pool.getSize(), made = false;
            int keep = m->bomb; m->bomb = -1;
            try { auto p = pool.createObj< Empty >(); made = true; } catch ( ... ) {}
            m->bomb = keep;
            if ( made != room ) m->error( made ? "an object was created while all slots were in use, one by an object being destroyed" : "a creation was refused with a free slot while another object was being destroyed" );
            m->died( this, 6 );
        }
        int type() const override { return 6; }
    };
    template< size_t N > struct Large : Base { unsigned char x[ N ]; Large() { fuse(); m->born( this, 5 ); } ~Large() noexcept override { m->died( this, 5 ); } int type() const override { return 5; } };

    struct Holder
    {
        Ptr u;                                      // one of
        std::shared_ptr< Base > s;
        std::shared_ptr< const Base > cs;
        std::unique_ptr< Base, std::function< void( Base * ) > > f;
        int sum, type;
        const Base * get() const { return u ? u.get() : s ? s.get() : cs ? cs.get() : f.get(); }
    };

    void run( pbt::Case & c )
    {
        Model model; model.c = &c; m = &model; boom::choose( c ); boom::tell( c );
        size_t req = c.draw( 4 ) ? c.draw( 6 ) : c.draw( 20 ), cap = capacityFor( req ), min = c.chance( 1, 30 ) ? 65400 + c.draw( 5000 ) : 8 * c.draw( 24 ) + c.draw( 8 );
        size_t element = min < sizeof( Base ) ? sizeof( Base ) : min;
        c.describe( "ObjectPool< Base >(%zu, %zu):", req, min );
        Pool pool( req, min );
        const size_t padded = pool.getPaddedElementSize();
        std::vector< Holder > held;
        PBT_CHECK( pool.getSize() == cap, "a pool of %zu reports size %zu, not %zu", req, pool.getSize(), cap );
        int cell = 7; const Arg lasting( 40 );
        PBT_CHECK( pool.getElementSize() == element && pool.getPaddedElementSize() >= element && pool.getPaddedElementSize() < element + 64, "a pool of elements of %zu bytes reports an element size of %zu, padded %zu", element, pool.getElementSize(), pool.getPaddedElementSize() );
        size_t exhausted = 0, oversize = 0, threw = 0, routes = 0, nested = 0, high = 0;

        auto check = [ & ]( const char * what ) -> bool
        {
            if ( model.bad ) return false;
            if ( model.alive.size() > high ) high = model.alive.size();
            size_t free = pool.getRunningStateStatistics().runningCount;
            if ( free != cap - model.alive.size() )
            { model.bad = true; c.fail( "after %s: %zu of %zu slots are free, %zu objects are alive", what, free, cap, model.alive.size() ); return false; }
            for ( auto & h : held )
                if ( h.get() && ( h.get()->sum != h.sum || h.get()->type() != h.type ) ) { model.bad = true; c.fail( "after %s: an object has changed", what ); return false; }
            return true;
        };
        // Creates one; returns false when something is wrong.
        auto create = [ & ]( int kind, int depth, bool drop ) -> bool
        {
            size_t aliveBefore = model.alive.size(); uint64_t ctorsBefore = model.ctors, dtorsBefore = model.dtors;
            size_t size = kind == 0 ? sizeof( Empty ) : kind == 1 ? sizeof( Args ) : kind == 2 ? sizeof( Nest ) : kind == 3 ? sizeof( Second ) : kind == 6 ? sizeof( Parting ) : kind == 4 ? sizeof( Large< 60 > ) : kind == 7 ? sizeof( Large< 65520 > ) : sizeof( Large< 400 > );
            size_t needs = kind == 2 ? size_t( depth ) + 2 : 1;
            Ptr p; enum { Made, Full, TooBig, Threw, Else } out = Made;
            Arg temp( 100 + depth ); auto owned = std::make_unique< int >( depth );
            bool armed = model.bomb >= 0; uint64_t failedBefore = model.failed;
            try
            {
                switch ( kind )
                {
                    case 0: p = pool.createObj< Empty >(); break;
                    case 1: p = pool.createObj< Args >( std::move( temp ), lasting, cell, std::move( owned ), std::string( size_t( depth ), 'x' ) ); break;
                    case 2: p = pool.createObj< Nest >( pool, depth ); break;
                    case 3: p = pool.createObj< Second >( depth ); break;
                    case 4: p = pool.createObj< Large< 60 > >(); break;
                    case 6: p = pool.createObj< Parting >( pool, depth ); break;
                    case 7: p = pool.createObj< Large< 65520 > >(); break;
                    default: p = pool.createObj< Large< 400 > >(); break;
                }
            }
            catch ( const Boom & ) { out = Threw; }
            catch ( const RingBufferUnderflow & ) { out = Full; }
            catch ( const ObjectPoolElementSizeError & ) { out = TooBig; }
            catch ( ... ) { out = Else; }
            bool blew = model.failed != failedBefore;
            size_t inner = kind == 2 ? sizeof( Empty ) : 0;
            bool mustFit = size <= element && inner <= element, mustNot = size > padded;
            const char * names[] = { "Empty", "Args", "Nest", "Second", "Large<60>", "Large<400>", "Parting", "Large<65520>" };
            c.describe( " %s", names[ kind ] );
            auto wrong = [ & ]( const char * why ) { model.bad = true; c.fail( "createObj<%s> (%zu bytes, element size %zu, %zu of %zu slots in use%s): %s", names[ kind ], size, element, aliveBefore, cap, armed ? ", a constructor throws" : "", why ); return false; };
            if ( model.bad ) return false;
            switch ( out )
            {
                case Made:
                    if ( mustNot ) return wrong( "a type that does not fit was created" );
                    if ( blew ) return wrong( "succeeded although its constructor threw" );
                    if ( aliveBefore + needs > cap ) return wrong( "created although every slot was in use" );
                    if ( model.ctors != ctorsBefore + needs || model.dtors != dtorsBefore ) return wrong( "the wrong number of objects was constructed" );
                    if ( !p || p->type() != ( kind == 6 ? 6 : kind > 3 ? 5 : kind + 1 ) ) return wrong( "is not of the requested type" );
                    if ( kind == 1 )
                    {
                        auto & a = static_cast< Args & >( *p );
                        if ( a.a.v != 100 + depth || a.a.copies != 0 || temp.v != -1 ) return wrong( "an rvalue argument was not forwarded as one" );
                        if ( a.ref != &lasting || a.b.v != 40 || a.b.copies != 1 ) return wrong( "an lvalue argument was not forwarded as one" );
                        if ( a.cell != &cell || !a.owned || *a.owned != depth || a.text.size() != size_t( depth ) ) return wrong( "arguments were not forwarded as given" );
                    }
                    if ( ( kind == 2 || kind == 3 || kind == 6 ) && p->sum != depth ) return wrong( "arguments were not forwarded as given" );
                    if ( kind == 2 ) ++nested;
                    break;
                case Full: if ( aliveBefore + needs <= cap || blew ) return wrong( "threw RingBufferUnderflow with free slots" ); ++exhausted; break;
                case TooBig: if ( mustFit ) return wrong( "threw ObjectPoolElementSizeError for a type that fits" ); ++oversize; break;
                case Threw: if ( !blew ) return wrong( "threw an exception its constructor did not throw" ); ++threw; break;
                case Else: return wrong( "threw another exception than its constructor's" );
            }
            if ( out != Made && model.alive.size() != aliveBefore ) return wrong( "failed and left objects alive" );
            if ( out == Made && !drop )
            {
                Holder h; h.sum = p->sum; h.type = p->type(); h.u = std::move( p );
                if ( p ) return wrong( "moving the pointer left it non-null" );
                held.push_back( std::move( h ) );
            }
            else p.reset();
            return check( "createObj" );
        };
        auto owns = []( const Base * b ) -> size_t { size_t n = 1; while ( b && b->type() == 3 ) { auto * x = static_cast< const Nest * >( b ); if ( x->second ) n += 1; b = x->first.get(); if ( b ) ++n; } return n; };

        size_t n = 0;
        while ( !model.bad && n < ( c.thorough ? 150u : 60u ) && c.more( 25 ) )
        {
            ++n;
            size_t op = c.draw( 20 );
            if ( op < 8 || held.empty() )
            {
                if ( c.chance( 1, 5 ) ) model.bomb = int( c.draw( 3 ) );
                int kind = int( c.weighted( { 4, 4, 3, 3, 2, 1, 3, 1 } ) );
                create( kind, int( c.draw( 4 ) ), c.chance( 1, 8 ) );
                model.bomb = -1;
                continue;
            }
            size_t k = c.draw( held.size() );
            Holder & h = held[ k ];
            size_t before = model.alive.size(), mine = owns( h.get() );
            bool dies = false;
            const char * what = "";
            switch ( op )
            {
                case 8: case 9: dies = true; what = "destroying the pointer"; held.erase( held.begin() + long( k ) ); break;
                case 10: what = "moving the pointer"; if ( h.u ) { Ptr a = std::move( h.u ); Ptr b; b = std::move( a ); std::swap( h.u, b ); ++routes; } break;
                case 11:
                    what = "release and the deleter";
                    if ( h.u ) { auto d = h.u.get_deleter(); Base * r = h.u.release(); if ( model.alive.size() != before ) { model.error( "release of the pointer destroyed the object" ); break; } d( r ); dies = true; held.erase( held.begin() + long( k ) ); ++routes; }
                    break;
                case 12: what = "conversion to shared_ptr"; if ( h.u ) { h.s = std::move( h.u ); ++routes; } break;
                case 13: what = "conversion to shared_ptr to const"; if ( h.u ) { h.cs = std::move( h.u ); ++routes; } else if ( h.s ) { h.cs = std::move( h.s ); ++routes; } break;
                case 14: what = "copying shared pointers"; if ( h.s ) { auto a = h.s, b = a; std::weak_ptr< Base > w = b; a.reset(); h.s = std::move( b ); } break;
                case 15: what = "reset"; if ( h.u ) { h.u.reset(); dies = true; } else if ( h.s ) { h.s.reset(); dies = true; } else { h.cs.reset(); h.f.reset(); dies = true; } held.erase( held.begin() + long( k ) ); ++routes; break;
                case 16:
                    what = "assigning one pointer over another";
                    if ( h.u && held.size() > 1 )
                    {
                        size_t j = ( k + 1 + c.draw( held.size() - 1 ) ) % held.size();
                        if ( held[ j ].u ) { size_t theirs = owns( held[ j ].u.get() ); (void)theirs; held[ j ].u = std::move( h.u ); held[ j ].sum = h.sum; held[ j ].type = h.type; mine = theirs; dies = true; held.erase( held.begin() + long( k ) ); ++routes; }
                    }
                    break;
                case 17: what = "a pointer with a custom deleter"; if ( h.u ) { auto d = h.u.get_deleter(); h.f = std::unique_ptr< Base, std::function< void( Base * ) > >( h.u.release(), [ d ]( Base * b ) mutable { d( b ); } ); ++routes; } break;
                case 18:
                    what = "destroying it on another thread";
                    if ( h.u && c.chance( 1, 8 ) ) { std::thread t( [ p = std::move( h.u ) ]() mutable { p.reset(); } ); t.join(); dies = true; held.erase( held.begin() + long( k ) ); ++routes; }
                    break;
                default:
                    what = "giving one object to another";
                    if ( h.u && held.size() > 1 )
                    {
                        size_t j = ( k + 1 + c.draw( held.size() - 1 ) ) % held.size();
                        if ( held[ j ].u && held[ j ].type == 3 ) { auto & x = static_cast< Nest & >( *held[ j ].u ); if ( !x.second ) { x.second = std::move( h.u ); held.erase( held.begin() + long( k ) ); ++routes; } }
                    }
                    break;
            }
            c.describe( " [%s]", what );
            if ( model.bad ) break;
            if ( !dies && model.alive.size() != before ) { model.bad = true; c.fail( "%s destroyed an object", what ); break; }
            if ( dies && model.alive.size() >= before ) { model.bad = true; c.fail( "after %s the object is still alive", what ); break; }
            (void)mine;
            check( what );
        }
        if ( !model.bad )
        {
            held.clear();
            if ( !model.alive.empty() ) c.fail( "%zu objects are alive after every pointer is gone", model.alive.size() );
            else if ( check( "releasing everything" ) )
            {
                // Everything is back: exactly the capacity can be created again.
                for ( size_t i = 0; i != cap + 1 && !model.bad; ++i ) create( 0, 0, false );
                if ( !model.bad && model.alive.size() != cap ) c.fail( "%zu objects fit in an emptied pool of %zu", model.alive.size(), cap );
            }
            held.clear();
        }
        else new std::vector< Holder >( std::move( held ) );
        if ( !model.bad && model.ctors != model.dtors ) c.fail( "%llu constructed, %llu destroyed", (unsigned long long)model.ctors, (unsigned long long)model.dtors );
        c.nontrivial( high >= 2 && routes && ( exhausted || threw || oversize || nested ) );
        if ( exhausted ) c.label( "exhaustion met" );
        if ( threw ) c.label( "constructor threw" );
        if ( oversize ) c.label( "oversize refused" );
        if ( nested ) c.label( "objects owning objects" );
        if ( routes ) c.label( "ownership moved" );
    }

    // Element types without virtual functions.
    template< class T > void plain( pbt::Case & c, const char * type )
    {
        Model model; model.c = &c; m = &model; boom::choose( c ); boom::tell( c );
        size_t req = c.draw( 10 ), cap = capacityFor( req );
        c.describe( "ObjectPool< %s >(%zu):", type, req );
        ObjectPool< T > pool( req );
        std::vector< ObjectPoolPtrType< T > > held;
        size_t n = 0, full = 0, threw = 0; int v = 0;
        while ( !model.bad && n < 60 && c.more( 25 ) )
        {
            ++n;
            if ( c.draw( 3 ) || held.empty() )
            {
                if ( c.chance( 1, 5 ) ) model.bomb = 0;
                bool armed = model.bomb == 0; size_t before = model.alive.size();
                int out = 0; ObjectPoolPtrType< T > p; ++v;
                try { p = pool.template createObj< T >( v ); } catch ( const Boom & ) { out = 2; } catch ( const RingBufferUnderflow & ) { out = 1; } catch ( ... ) { out = 3; }
                model.bomb = -1;
                c.describe( " create%s", armed ? "!" : "" );
                int expected = before == cap ? 1 : armed ? 2 : 0;
                if ( model.bad ) break;
                if ( out != expected ) { c.fail( "createObj with %zu of %zu in use ended in way %d, not %d (0 made, 1 RingBufferUnderflow, 2 its own exception)", before, cap, out, expected ); model.bad = true; break; }
                if ( out == 0 && p->v != v ) { c.fail( "the argument was not forwarded" ); model.bad = true; break; }
                full += out == 1; threw += out == 2;
                if ( out == 0 ) held.push_back( std::move( p ) );
            }
            else
            {
                size_t k = c.draw( held.size() );
                c.describe( " release" );
                if ( c.draw( 2 ) ) { std::shared_ptr< T > s = std::move( held[ k ] ); std::shared_ptr< const T > t = s; }
                held.erase( held.begin() + long( k ) );
            }
            if ( model.alive.size() != held.size() ) { c.fail( "%zu objects alive, %zu owned", model.alive.size(), held.size() ); model.bad = true; break; }
            size_t free = pool.getRunningStateStatistics().runningCount;
            if ( free != cap - held.size() ) { c.fail( "%zu of %zu slots free with %zu owned", free, cap, held.size() ); model.bad = true; }
        }
        if ( model.bad ) new auto( std::move( held ) );
        held.clear();
        if ( !model.bad && !model.alive.empty() ) c.fail( "%zu objects outlive their pointers", model.alive.size() );
        c.nontrivial( full || threw );
        c.label( type );
    }
    struct NoVirtual { int v; char more[ 9 ]; NoVirtual( int x ) : v( x ) { fuse(); m->born( this, 9 ); } ~NoVirtual() noexcept { m->died( this, 9 ); } };
    struct Tiny { unsigned char v; Tiny( int x ) : v( (unsigned char)x ) { fuse(); m->born( this, 9 ); } ~Tiny() noexcept { m->died( this, 9 ); } };
    struct Sealed final { long v; Sealed( int x ) : v( x ) { fuse(); m->born( this, 9 ); } virtual ~Sealed() noexcept { m->died( this, 9 ); } };
}

PBT_SUITE( derived, "C10.derived", 250000, 5000000, "polymorphic pools of 0-19 requested objects and every minimum size; objects of seven types (arguments of every category, second base, owning others of the same pool, creating others while destroyed), constructors that throw, oversize and exhaustion; ownership through moves, swaps, release, shared and custom pointers, other threads; the pool is refilled at the end; non-trivial: two or more alive, ownership moved and a failure or nesting met" ) { run( c ); }
PBT_SUITE( plainS, "C10.plain", 150000, 3000000, "pools of three types without derived classes, with exhaustion and throwing constructors; non-trivial: a failure was met" )
{
    switch ( c.draw( 3 ) )
    {
        case 0: plain< NoVirtual >( c, "NoVirtual" ); break;
        case 1: plain< Tiny >( c, "Tiny" ); break;
        default: plain< Sealed >( c, "Sealed" ); break;
    }
}
