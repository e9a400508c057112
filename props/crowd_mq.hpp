// Guarded rings and message queues under crowds.
#ifndef VERIF_CROWD_MQ_HPP
#define VERIF_CROWD_MQ_HPP

#include "crowd_sem.hpp"

#include "RingBufferGuarded.hpp"
#include "MessageQueue.hpp"

#include <memory>

namespace crowdw
{
    // One interface over both: what is handed over are numbers; those obtained are recorded in order.
    inline std::vector< unsigned > & obtained() { static std::vector< unsigned > v; return v; }
    struct Ring
    {
        ReiserRT::Core::RingBufferGuarded< unsigned > r;
        explicit Ring( size_t n ) : r( n ) {}
        void put( unsigned v ) { if ( !r.put( v ) ) throw std::runtime_error( "refused" ); }
        void get() { unsigned v = r.get(); obtained().push_back( v ); }
        void abort() { r.abort(); }
        static const char * name() { return "RingBufferGuarded"; }
    };
    struct Queue
    {
        ReiserRT::Core::MessageQueue q;
        struct M : ReiserRT::Core::MessageBase
        {
            explicit M( unsigned v ) : v( v ) {}
            M( M && o ) noexcept : v( o.v ) {}
            ~M() noexcept override { v = ~0u; }
            void dispatch() override { obtained().push_back( v ); }
            unsigned v;
        };
        explicit Queue( size_t n ) : q( n, sizeof( M ) ) {}
        void put( unsigned v ) { if ( v % 2 ) q.emplace< M >( v ); else q.put( M( v ) ); }
        void get() { q.getAndDispatch(); }
        void abort() { q.abort(); }
        static const char * name() { return "MessageQueue"; }
    };

    template< class X > struct Crowd
    {
        pbt::Case & c;
        X * x{ nullptr };
        bool producers{ false };
        size_t n{ 0 }, depth{ 0 };
        unsigned nextIn{ 0 };
        std::vector< unsigned > & out{ obtained() };
        std::vector< unsigned char > outcome;
        explicit Crowd( pbt::Case & cc ) : c( cc ) { out.clear(); }

        bool gather( bool huge )
        {
            producers = c.draw( 2 );
            n = crowdSize( c, huge );
            depth = 1 + c.draw( c.draw( 3 ) ? 4 : 40 );
            c.describe( "%s(%zu); %zu threads blocked in %s;", X::name(), depth, n, producers ? "put" : "get" );
            crowd::begin( c, n + 64 );
            crowd::call( [ & ]() { x = new X( depth ); } );
            outcome.assign( n, Nothing );
            size_t filled = 0;
            if ( producers ) if ( !crowd::call( [ & ]() { for ( ; filled != depth; ++filled ) x->put( nextIn++ ); } ) )
            { c.fail( "%s(%zu) accepts only %zu", X::name(), depth, filled ); return false; }
            for ( size_t i = 0; i != n; ++i )
                crowd::spawn( [ this, i ]()
                {
                    try { if ( producers ) x->put( unsigned( 1000000 + i ) ); else x->get(); outcome[ i ] = Completed; }
                    catch ( const std::runtime_error & ) { outcome[ i ] = Aborted; }
                    catch ( ... ) { outcome[ i ] = Other; }
                } );
            crowd::settle();
            return tally( 0, 0, "before anything else" );
        }
        bool tally( size_t completed, size_t aborted, const char * when )
        {
            size_t k[ 4 ] = { 0, 0, 0, 0 };
            for ( auto o : outcome ) ++k[ o ];
            if ( k[ Completed ] == completed && k[ Aborted ] == aborted && !k[ Other ] ) return true;
            c.fail( "%s: of %zu threads in %s %zu have completed (expected %zu), %zu failed (expected %zu), %zu ended otherwise and %zu are blocked",
                    when, n, producers ? "put" : "get", k[ Completed ], completed, k[ Aborted ], aborted, k[ Other ], k[ Nothing ] );
            return false;
        }
        // Lets k of them through in one go.
        bool admit( size_t k )
        {
            size_t done = 0;
            crowd::call( [ & ]() { try { for ( ; done != k; ++done ) if ( producers ) x->get(); else x->put( nextIn++ ); } catch ( ... ) {} } );
            if ( done != k ) { c.fail( "only %zu of %zu calls of %s completed", done, k, producers ? "get" : "put" ); return false; }
            return true;
        }
    };

    template< class X > void letThrough( pbt::Case & c, bool huge )
    {
        Crowd< X > w( c );
        if ( !w.gather( huge ) ) return;
        size_t in = 0;
        c.describe( " let in:" );
        for ( size_t rounds = 0; rounds < 12 && in < w.n && ( !rounds || c.more( 5 ) ); ++rounds )
        {
            size_t k = 1 + ( c.draw( 2 ) ? c.draw( w.depth ) : 0 );
            if ( k > w.n - in ) k = w.n - in;
            c.describe( " %zu", k );
            if ( !w.admit( k ) ) return;
            in += k;
            if ( !w.tally( in, 0, "after letting some in" ) ) return;
        }
        // What was enqueued before the crowd came out first and in order; the rest came from the crowd, each once.
        if ( w.out.size() != in ) { c.fail( "%zu values were obtained by %zu calls", w.out.size(), in ); return; }
        std::vector< unsigned char > seen( w.n );
        for ( size_t i = 0; i != w.out.size(); ++i )
        {
            unsigned v = w.out[ i ];
            if ( !w.producers )
            {
                if ( v >= w.nextIn ) { c.fail( "a get returned %u, which was never put", v ); return; }
                if ( v < seen.size() && seen[ v ]++ ) { c.fail( "%u was obtained twice", v ); return; }
            }
            else if ( i < w.depth ? v != i : v < 1000000 || v - 1000000 >= w.n || seen[ v - 1000000 ]++ ) { c.fail( "get %zu returned %u", i, v ); return; }
        }
        c.nontrivial( w.n >= 100 );
        c.label( w.producers ? "producers" : "consumers" );
        crowd::call( [ & ]() { w.x->abort(); } );
        if ( !w.tally( in, w.n - in, "after the abort" ) ) return;
        crowd::call( [ & ]() { delete w.x; } );
        if ( crowd::alive() ) { c.fail( "%zu threads are blocked at the end", crowd::alive() ); return; }
        crowd::end();
    }

    // Depths far beyond what the tests use: filled until a put blocks, emptied until a get does, in runs of any length.
    template< class X > void deep( pbt::Case & c )
    {
        Crowd< X > w( c );
        w.depth = ( size_t( 1 ) << ( 6 + c.draw( 12 ) ) ) + c.draw( 7 ) - 3;
        c.describe( "%s(%zu):", X::name(), w.depth );
        crowd::begin( c, 64 );
        crowd::call( [ & ]() { w.x = new X( w.depth ); } );
        size_t held = 0, got = 0, blocked = 0;
        for ( size_t k = 0; k < 8 && ( k < 2 || c.more( 4 ) ); ++k )
        {
            bool put = held == 0 || ( held != w.depth && c.draw( 2 ) );
            size_t room = put ? w.depth - held : held, n = c.draw( 3 ) ? room : c.draw( room + 1 ), did = 0;
            c.describe( " %s %zu", put ? "put" : "get", n );
            bool ok = crowd::call( [ & ]() { for ( ; did != n; ++did ) if ( put ) w.x->put( w.nextIn++ ); else w.x->get(); } );
            if ( !ok || did != n ) { c.fail( "%s blocks after %zu of %zu calls, with %zu of %zu held", put ? "put" : "get", did, n, put ? held + did : held - did, w.depth ); return; }
            held = put ? held + n : held - n;
            for ( ; got < w.out.size(); ++got ) if ( w.out[ got ] != got ) { c.fail( "get number %zu returned value number %u", got + 1, w.out[ got ] + 1 ); return; }
            if ( got != w.nextIn - held ) { c.fail( "%zu values were obtained by %zu calls", got, size_t( w.nextIn - held ) ); return; }
            if ( ( held == w.depth || held == 0 ) && blocked < 20 )
            {
                // One more must wait until there is room, or a value.
                bool full = held != 0, done = false;
                ++blocked;
                if ( crowd::call( [ & ]() { if ( full ) w.x->put( w.nextIn++ ); else w.x->get(); done = true; } ) ) { c.fail( "a %s completed with %zu of %zu held", full ? "put" : "get", held, w.depth ); return; }
                c.describe( full ? " full" : " empty" );
                if ( !crowd::call( [ & ]() { if ( full ) w.x->get(); else w.x->put( w.nextIn++ ); } ) || !done ) { c.fail( "a %s stays blocked with %zu held of %zu", full ? "put" : "get", held, w.depth ); return; }
            }
        }
        for ( ; got < w.out.size(); ++got ) if ( w.out[ got ] != got ) { c.fail( "get number %zu returned value number %u", got + 1, w.out[ got ] + 1 ); return; }
        c.nontrivial( w.depth >= 250 && blocked );
        if ( w.depth > 65536 ) c.label( "more than 65536" );
        crowd::call( [ & ]() { delete w.x; } );
        crowd::end();
    }

    template< class X > void abortAll( pbt::Case & c, bool huge, bool destroy )
    {
        Crowd< X > w( c );
        if ( !w.gather( huge ) ) return;
        bool viaDestructor = destroy && c.draw( 2 );
        size_t in = 0;
        while ( in < w.n && in < 4 && c.draw( 2 ) ) { if ( !w.admit( 1 ) ) return; ++in; }
        c.describe( " %zu let in; %s", in, viaDestructor ? "destroyed" : "aborted" );
        if ( !crowd::call( [ & ]() { if ( viaDestructor ) delete w.x; else w.x->abort(); } ) ) { c.fail( "%s blocked", viaDestructor ? "the destructor" : "abort" ); return; }
        if ( !w.tally( in, w.n - in, viaDestructor ? "after the destruction" : "after the abort" ) ) return;
        c.nontrivial( w.n >= 100 );
        c.label( w.producers ? "producers" : "consumers" );
        if ( !viaDestructor ) crowd::call( [ & ]() { delete w.x; } );
        if ( crowd::alive() ) { c.fail( "%zu threads are blocked at the end", crowd::alive() ); return; }
        crowd::end();
    }
}

#endif
