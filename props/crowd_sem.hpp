// Semaphores under crowds: hundreds or thousands of threads blocked at once.
#ifndef VERIF_CROWD_SEM_HPP
#define VERIF_CROWD_SEM_HPP

#include "crowd.hpp"

#include "Semaphore.hpp"
#include "ReiserRT_CoreExceptions.hpp"

#include <stdexcept>
#include <vector>

namespace crowdw
{
    // Numbers of threads at which counters of blocked threads would wrap or saturate, and others.
    inline size_t crowdSize( pbt::Case & c, bool huge )
    {
        if ( huge ) return c.pick< size_t >( { 65536, 65535, 65537, 32768, 32769, 131072 } );
        switch ( c.draw( 4 ) )
        {
            case 0: return 1 + c.draw( 12 );
            case 1: return c.pick< size_t >( { 256, 255, 257, 128, 127, 129, 512, 1024 } );
            case 2: return 1 + c.draw( 300 );
            default: return 200 + c.draw( 900 );
        }
    }

    enum Outcome { Nothing, Completed, Aborted, Other };

    struct SemCrowd
    {
        pbt::Case & c;
        ReiserRT::Core::Semaphore * s{ nullptr };
        bool takers{ false };
        size_t n{ 0 };
        uint64_t init{ 0 }, max{ 0 };       // max 0: unbounded
        std::vector< unsigned char > outcome;
        uint64_t count{ 0 };

        explicit SemCrowd( pbt::Case & cc ) : c( cc ) {}

        // Builds a semaphore on which all of them have to wait.
        bool gather( bool huge )
        {
            takers = c.draw( 2 );
            n = crowdSize( c, huge );
            max = takers ? c.pick< uint64_t >( { 0, 1, 2, 1000000 } ) : c.pick< uint64_t >( { 1, 2, 3, 300 } );
            init = takers ? 0 : max;
            count = init;
            c.describe( "Semaphore(%llu, %llu); %zu threads blocked in %s;", (unsigned long long)init, (unsigned long long)max, n, takers ? "take" : "give" );
            crowd::begin( c, n + 64 );
            crowd::call( [ & ]() { s = new ReiserRT::Core::Semaphore( size_t( init ), size_t( max ) ); } );
            outcome.assign( n, Nothing );
            bool functors = c.draw( 2 );
            for ( size_t i = 0; i != n; ++i )
                crowd::spawn( [ this, i, functors ]()
                {
                    try
                    {
                        auto f = []() {};
                        if ( takers ) { if ( functors && i % 2 ) s->take( std::ref( f ) ); else s->take(); }
                        else { if ( functors && i % 2 ) s->give( std::ref( f ) ); else s->give(); }
                        outcome[ i ] = Completed;
                    }
                    catch ( const ReiserRT::Core::SemaphoreAborted & ) { outcome[ i ] = Aborted; }
                    catch ( ... ) { outcome[ i ] = Other; }
                } );
            crowd::settle();
            return tally( 0, 0, "before anything else" );
        }
        // Exactly so many must have completed and been aborted, the others must be blocked.
        bool tally( size_t completed, size_t aborted, const char * when )
        {
            size_t k[ 4 ] = { 0, 0, 0, 0 };
            for ( auto o : outcome ) ++k[ o ];
            if ( k[ Completed ] == completed && k[ Aborted ] == aborted && !k[ Other ] ) return true;
            c.fail( "%s: of %zu threads in %s %zu have completed (expected %zu), %zu were aborted (expected %zu), %zu ended otherwise and %zu are blocked",
                    when, n, takers ? "take" : "give", k[ Completed ], completed, k[ Aborted ], aborted, k[ Other ], k[ Nothing ] );
            return false;
        }
        // One permit, or the room for one.
        bool admit()
        {
            bool ok = false;
            bool back = crowd::call( [ & ]() { try { takers ? s->give() : s->take(); ok = true; } catch ( ... ) {} } );
            if ( !back ) { c.fail( "%s blocked", takers ? "give" : "take" ); return false; }
            if ( !ok ) { c.fail( "%s threw", takers ? "give" : "take" ); return false; }
            return true;
        }
        bool counts( uint64_t want )
        {
            uint64_t v = 0;
            crowd::call( [ & ]() { v = s->getAvailableCount(); } );
            if ( v != want ) { c.fail( "the available count is %llu instead of %llu", (unsigned long long)v, (unsigned long long)want ); return false; }
            return true;
        }
    };
}

#endif
