// C06: RingBufferSimple is an exact bounded FIFO; model: a deque bounded by the computed capacity.
#include "seq.hpp"
#include "RingBufferSimple.hpp"

#include <deque>
#include <string>

using namespace ReiserRT::Core;

namespace
{
    struct Plain { int a; };
    enum class E8 : uint8_t { A, B, C };

    size_t capacityFor( size_t req )
    {
        if ( req < 2 ) req = 2;
        if ( req > ( size_t( 1 ) << 20 ) ) req = size_t( 1 ) << 20;
        size_t c = 2; while ( c < req ) c *= 2;
        return c;
    }
    template< class T > struct Conv { static T of( uint64_t v ) { return static_cast< T >( v ); } };
    template<> struct Conv< bool > { static bool of( uint64_t v ) { return v & 1; } };
    template<> struct Conv< double > { static double of( uint64_t v ) { return double( v ) * 0.5; } };
    template<> struct Conv< long double > { static long double of( uint64_t v ) { return static_cast< long double >( v ) + 1.0L / 3; } };
    struct Target { int a[ 64 ]; int b[ 64 ]; int f0() { return 0; } int f1() { return 1; } int f2() { return 2; } int f3() { return 3; } int f4() { return 4; } int c, d, e, g; virtual int v() { return 5; } virtual ~Target() = default; };
    using Method = int ( Target::* )();
    using Field = int Target::*;
    template<> struct Conv< Method > { static Method of( uint64_t v ) { static const Method m[] = { &Target::f0, &Target::f1, &Target::v, &Target::f2, nullptr, &Target::f3, &Target::f4 }; return m[ v % 7 ]; } };
    template<> struct Conv< Field > { static Field of( uint64_t v ) { static const Field m[] = { &Target::c, &Target::d, nullptr, &Target::e, &Target::g }; return m[ v % 5 ]; } };
    template< class P > struct Conv< P * > { static P * of( uint64_t v ) { return reinterpret_cast< P * >( v * 8 ); } };

    template< class T > bool checkSizes( pbt::Case & c, RingBufferSimple< T > & r, size_t req, size_t cap )
    {
        if ( r.getSize() != cap || r.getMask() != cap - 1 || ( size_t( 1 ) << r.getNumBits() ) != cap )
        {
            c.fail( "RingBufferSimple(%zu): size %zu, mask %zu, bits %zu; capacity should be %zu", req, r.getSize(), r.getMask(), r.getNumBits(), cap );
            return false;
        }
        return true;
    }

    template< class T > void history( pbt::Case & c, const char * type )
    {
        size_t req;
        switch ( c.draw( 8 ) )
        {
            case 0: req = c.draw( 3 ); break;
            case 1: req = ( size_t( 1 ) << c.draw( 11 ) ) + c.draw( 3 ) - 1; break;
            case 2: req = c.draw( 3000 ); break;
            default: req = c.draw( 20 ); break;
        }
        const size_t cap = capacityFor( req );
        RingBufferSimple< T > r( req );
        c.describe( "RingBufferSimple<%s>(%zu):", type, req );
        if ( !checkSizes( c, r, req, cap ) ) return;
        std::deque< T > model;
        uint64_t next = c.draw( 1000 );
        bool over = false, under = false; uint64_t ops = 0; size_t high = 0;
        auto put = [ & ]() -> bool
        {
            T v = Conv< T >::of( next++ ); ++ops;
            bool threw = false;
            try { r.put( v ); } catch ( const RingBufferOverflow & ) { threw = true; }
            if ( threw != ( model.size() == cap ) )
            { c.fail( "%s ring of %zu: put number %llu with %zu held %s", type, cap, (unsigned long long)ops, model.size(), threw ? "threw RingBufferOverflow" : "did not throw" ); return false; }
            if ( threw ) over = true; else model.push_back( v );
            if ( model.size() > high ) high = model.size();
            return true;
        };
        auto get = [ & ]() -> bool
        {
            ++ops; bool threw = false; T v{};
            try { v = r.get(); } catch ( const RingBufferUnderflow & ) { threw = true; }
            if ( threw != model.empty() )
            { c.fail( "%s ring of %zu: get with %zu held %s", type, cap, model.size(), threw ? "threw RingBufferUnderflow" : "did not throw" ); return false; }
            if ( threw ) { under = true; return true; }
            if ( v != model.front() ) { c.fail( "%s ring of %zu: get number %llu returned the wrong value", type, cap, (unsigned long long)ops ); return false; }
            model.pop_front();
            return true;
        };
        while ( c.more( 12 ) )
        {
            size_t kind = c.draw( 6 ), n = 1;
            if ( kind == 2 ) n = 1 + c.draw( cap + 2 );
            if ( kind == 3 ) n = 1 + c.draw( cap + 2 );
            if ( kind == 4 ) n = cap - model.size() + 1;
            if ( kind == 5 ) n = model.size() + 1;
            bool isPut = kind == 0 || kind == 2 || kind == 4;
            c.describe( " %s*%zu", isPut ? "put" : "get", n );
            for ( size_t i = 0; i != n; ++i ) if ( !( isPut ? put() : get() ) ) return;
        }
        while ( !model.empty() ) if ( !get() ) return;
        if ( !get() ) return;
        if ( !checkSizes( c, r, req, cap ) ) return;
        c.nontrivial( ops > cap && ( over || under ) && high >= 2 );
        c.label( type );
        if ( over ) c.label( "overflow refused" );
        if ( high == cap ) c.label( "was full" );
        if ( ops > 3 * cap ) c.label( "went round" );
    }
}

PBT_SUITE( fifo, "C06.fifo", 60000, 2000000, "element type, requested size and runs of puts and gets (biased to run full and empty) against a deque; non-trivial: more operations than slots, at least two values held and a refusal met" )
{
    switch ( c.draw( 18 ) )
    {
        case 12: history< long double >( c, "long double" ); break;
        case 13: history< Method >( c, "pointer to member function" ); break;
        case 14: history< Field >( c, "pointer to data member" ); break;
        case 15: history< float >( c, "float" ); break;
        case 16: history< int8_t >( c, "int8_t" ); break;
        case 17: history< char32_t >( c, "char32_t" ); break;
        case 0: history< int >( c, "int" ); break;
        case 1: history< uint8_t >( c, "uint8_t" ); break;
        case 2: history< bool >( c, "bool" ); break;
        case 3: history< double >( c, "double" ); break;
        case 4: history< uint64_t >( c, "uint64_t" ); break;
        case 5: history< char16_t >( c, "char16_t" ); break;
        case 6: history< E8 >( c, "enum class : uint8_t" ); break;
        case 7: history< void * >( c, "void *" ); break;
        case 8: history< const char * >( c, "const char *" ); break;
        case 9: history< Plain * >( c, "Plain *" ); break;
        case 10: history< const Plain * >( c, "const Plain *" ); break;
        default: history< uint16_t >( c, "uint16_t" ); break;
    }
}

PBT_SUITE( sizes, "C06.sizes", 3000, 40000, "requested sizes of every magnitude up to SIZE_MAX; the capacity is probed by filling the ring; non-trivial: the request is not itself a capacity" )
{
    size_t req;
    switch ( c.draw( 5 ) )
    {
        case 0: req = c.draw( 6000 ); break;
        case 1: req = ( size_t( 1 ) << c.draw( 21 ) ) + c.draw( 5 ) - 2; break;
        case 2: req = ( size_t( 1 ) << ( 20 + c.draw( 44 ) ) ) + c.draw( 5 ) - 2; break;
        case 3: req = ~size_t( 0 ) - c.draw( 3 ); break;
        default: req = c.draw( 1u << 20 ); break;
    }
    const size_t cap = capacityFor( req );
    c.describe( "RingBufferSimple<uint8_t>(%zu) -> %zu", req, cap );
    RingBufferSimple< uint8_t > r( req );
    if ( !checkSizes( c, r, req, cap ) ) return;
    size_t skew = c.draw( cap + 1 );
    for ( size_t i = 0; i != skew; ++i ) { r.put( 1 ); r.get(); }
    for ( size_t i = 0; i != cap; ++i ) r.put( uint8_t( i * 7 ) );
    bool threw = false;
    try { r.put( 0 ); } catch ( const RingBufferOverflow & ) { threw = true; }
    PBT_CHECK( threw, "RingBufferSimple(%zu): value number %zu was accepted", req, cap + 1 );
    for ( size_t i = 0; i != cap; ++i ) if ( r.get() != uint8_t( i * 7 ) ) { c.fail( "RingBufferSimple(%zu): value %zu of a full ring is wrong", req, i ); return; }
    threw = false;
    try { r.get(); } catch ( const RingBufferUnderflow & ) { threw = true; }
    PBT_CHECK( threw, "RingBufferSimple(%zu): get on an emptied ring did not throw", req );
    c.nontrivial( req != cap );
    if ( req > ( 1u << 20 ) ) c.label( "beyond the maximum" );
    if ( req < 2 ) c.label( "below the minimum" );
}
