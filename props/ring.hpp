// Shared harness for RingBufferGuarded (C07, C08): recorded calls, model, search for one explaining order.
#ifndef VERIF_RING_HPP
#define VERIF_RING_HPP

#include "pbt.hpp"
#include "ds.hpp"
#include "lin.hpp"
#include "boom.hpp"

#include "RingBufferGuarded.hpp"

#include <algorithm>
#include <deque>

namespace ringw
{
    using namespace ReiserRT::Core;

    struct Node { int x; };
    template< class T > struct Conv { using Slot = T; static T slot( T t ) { return t; } static T of( uint64_t v ) { return T( v ); } static uint64_t back( T t ) { return uint64_t( t ); } };
    template< class P > struct Conv< P * >
    {
        using Slot = void *;        // what prime's functor returns
        static void * slot( const void * p ) { return const_cast< void * >( p ); }
        static P * of( uint64_t v ) { return reinterpret_cast< P * >( v * 16 ); }
        static uint64_t back( P * p ) { return reinterpret_cast< uint64_t >( p ) / 16; }
    };
    template<> struct Conv< double > { using Slot = double; static double slot( double t ) { return t; } static double of( uint64_t v ) { return double( v ) * 0.25; } static uint64_t back( double t ) { return uint64_t( t * 4 ); } };

    enum Kind { Put, Get, Abort, Prime, Flush };
    enum Outcome { None, Ok, StateErr, SemAborted, Boomed, Other };
    inline const char * kindName( int k ) { static const char * n[] = { "put", "get", "abort", "prime", "flush" }; return n[ k ]; }
    inline const char * outcomeName( int o ) { static const char * n[] = { "pending", "ok", "RingBufferStateError", "SemaphoreAborted", "the functor's exception", "another exception" }; return n[ o ]; }

    struct Rec
    {
        int kind{ 0 }, fiber{ 0 }, outcome{ None };
        uint64_t inv{ lin::Pending }, res{ lin::Pending };
        uint64_t value{ 0 }, heap{ 0 };
        std::vector< uint64_t > values;     // prime: loaded, flush: delivered
        int abortAt{ -1 }, throwAt{ -1 };   // prime/flush functors
    };
    struct Boom {};

    template< class T > struct World
    {
        pbt::Case & c;
        RingBufferGuarded< T > * r{ nullptr };
        size_t req{ 1 };
        bool primed{ false };
        std::vector< std::vector< Rec > > prog;
        std::deque< Rec > mainOps;
        uint64_t next{ 1 };

        explicit World( pbt::Case & cc ) : c( cc ) { boom::choose( c ); }
        void make() { ds::Sut s; r = primed || req % 2 ? new RingBufferGuarded< T >( req, primed ) : new RingBufferGuarded< T >( req ); }
        void destroy() { ds::Sut s; delete r; r = nullptr; }

        void exec( Rec & o )
        {
            o.fiber = ds::self();
            o.inv = ds::tick();
            int out = None;
            uint64_t heap = ds::heapOps();
            try
            {
                switch ( o.kind )
                {
                    case Put: { T v = Conv< T >::of( o.value ); ds::Sut s; r->put( v ); break; }
                    case Get: { T v; { ds::Sut s; v = r->get(); } o.value = Conv< T >::back( v ); break; }
                    case Abort: { ds::Sut s; r->abort(); break; }
                    case Prime:
                    {
                        auto f = [ this, &o ]( size_t i ) -> typename Conv< T >::Slot
                        {
                            ds::Quiet q;
                            if ( i != o.values.size() ) ds::fail( "prime called its functor with index %zu after %zu calls", i, o.values.size() );
                            ds::point();
                            if ( int( i ) == o.throwAt ) boom::raise( Boom{} );
                            if ( int( i ) == o.abortAt ) { ds::Sut s; r->abort(); }
                            uint64_t v = next++;
                            o.values.push_back( v );
                            return Conv< T >::slot( Conv< T >::of( v ) );
                        };
                        ds::Sut s; r->prime( std::ref( f ) ); break;
                    }
                    case Flush:
                    {
                        auto f = [ &o ]( auto v )
                        {
                            ds::Quiet q;
                            T t = (T)v;
                            o.values.push_back( Conv< T >::back( t ) );
                            if ( int( o.values.size() ) == o.throwAt ) boom::raise( Boom{} );
                        };
                        ds::Sut s; r->flush( std::ref( f ) ); break;
                    }
                }
                out = Ok;
            }
            catch ( const Boom & ) { out = Boomed; }
            catch ( const RingBufferStateError & ) { out = StateErr; }
            catch ( const SemaphoreAborted & ) { out = SemAborted; }
            catch ( ... ) { out = Other; }
            o.outcome = out;
            o.heap = ds::heapOps() - heap;
            o.res = ds::tick();
        }
        Rec & main( int kind, uint64_t value = 0 )
        {
            mainOps.emplace_back();
            mainOps.back().kind = kind; mainOps.back().value = value;
            exec( mainOps.back() );
            return mainOps.back();
        }
        void start() { for ( auto & p : prog ) ds::spawn( [ this, &p ]() { for ( auto & o : p ) exec( o ); } ); }

        template< class F > void each( F f ) const
        {
            for ( auto & p : prog ) for ( auto & o : p ) if ( o.inv != lin::Pending ) f( o );
            for ( auto & o : mainOps ) f( o );
        }
        std::vector< Rec > history() const
        {
            std::vector< Rec > h;
            each( [ & ]( const Rec & o ) { h.push_back( o ); } );
            return h;
        }
        bool overlapped() const
        {
            std::vector< const Rec * > h;
            each( [ & ]( const Rec & o ) { h.push_back( &o ); } );
            return lin::overlapped( h );
        }
        void describeProgram( const char * type )
        {
            c.describe( "RingBufferGuarded<%s>(%zu%s);", type, req, primed ? ", true" : "" ); boom::tell( c );
            for ( size_t t = 0; t != prog.size(); ++t )
            {
                c.describe( " T%zu:", t + 1 );
                for ( auto & o : prog[ t ] ) c.describe( " %s;", kindName( o.kind ) );
            }
            c.describe( "\n" );
        }
        void describeHistory()
        {
            if ( !c.wantDesc ) return;
            for ( auto & o : history() )
            {
                c.describe( "  [%llu..%s] T%d %s", (unsigned long long)o.inv, o.res == lin::Pending ? "" : std::to_string( o.res ).c_str(), o.fiber, kindName( o.kind ) );
                if ( o.kind == Put || ( o.kind == Get && o.outcome == Ok ) ) c.describe( " %llu", (unsigned long long)o.value );
                for ( auto v : o.values ) c.describe( " %llu", (unsigned long long)v );
                c.describe( " -> %s\n", outcomeName( o.outcome ) );
            }
        }
    };

    struct State
    {
        std::deque< uint64_t > q;
        int st{ 1 };        // 0 needs priming, 1 ready, 2 terminal
        size_t cap{ 0 };
        std::string key() const
        {
            std::string k( 1, char( '0' + st ) );
            for ( auto v : q ) k.append( reinterpret_cast< const char * >( &v ), 8 );
            return k;
        }
    };
    // Is the call with its result legal in this state?
    inline bool apply( State & s, const Rec & o )
    {
        switch ( o.kind )
        {
            case Put:
                if ( o.outcome == StateErr ) return s.st != 1;       // documented for any state but ready
                if ( o.outcome == SemAborted ) return s.st == 2;
                if ( s.st == 2 ) return true;               // refused in silence, or still pending
                if ( s.st == 0 ) return false;
                if ( s.q.size() >= s.cap ) return false;
                s.q.push_back( o.value ); return true;
            case Get:
                if ( o.outcome == StateErr ) return s.st == 0 || s.st == 2;
                if ( o.outcome == SemAborted ) return s.st == 2;
                if ( o.res == lin::Pending ) return false;
                if ( s.st != 1 || s.q.empty() || s.q.front() != o.value ) return false;
                s.q.pop_front(); return true;
            case Abort: s.st = 2; return true;
            case Prime:
                if ( o.outcome == StateErr ) return s.st != 0;
                if ( s.st == 1 ) return false;
                if ( s.st == 0 && o.outcome == Ok && o.values.size() != s.cap ) return false;
                for ( auto v : o.values ) s.q.push_back( v );
                if ( s.st == 0 && o.outcome == Ok ) s.st = 1;
                return true;
            case Flush:
            {
                if ( o.outcome == StateErr ) return s.st != 2;
                if ( s.st != 2 ) return false;
                for ( auto v : o.values ) { if ( s.q.empty() || s.q.front() != v ) return false; s.q.pop_front(); }
                return o.outcome == Boomed || s.q.empty();
            }
        }
        return false;
    }
}

#endif
