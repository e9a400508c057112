// Linearizability by exhaustive search (Wing & Gong with memoisation), for histories of at most 64 calls.
#ifndef VERIF_LIN_HPP
#define VERIF_LIN_HPP

#include <algorithm>
#include <cstdint>
#include <string>
#include <unordered_set>
#include <vector>

namespace lin
{
    constexpr uint64_t Pending = ~0ull;

    // Op needs .inv and .res (Pending when it never returned). apply( State &, const Op & ) tells whether the call, with
    // the result it had, is legal in that state, and changes the state. State needs .key() (std::string).
    // Calls that never returned may or may not have taken effect; accept( state, mask ) judges the end.
    template< class State, class Op, class Apply, class Accept >
    class Search
    {
    public:
        Search( const std::vector< Op > & o, Apply a, Accept c ) : ops( o ), apply( a ), accept( c ) {}
        bool run( const State & init ) { return go( init, 0 ); }
        uint64_t visited{ 0 };
        static constexpr uint64_t Limit = 300000;

    private:
        bool go( const State & s, uint64_t mask )
        {
            if ( ++visited > Limit ) return true;       // Undecided: no alarm.
            bool all = true;
            uint64_t minRes = Pending;
            for ( size_t i = 0; i != ops.size(); ++i )
                if ( !( mask >> i & 1 ) )
                {
                    if ( ops[ i ].res != Pending ) all = false;
                    if ( ops[ i ].res < minRes ) minRes = ops[ i ].res;
                }
            if ( all && accept( s, mask ) ) return true;
            std::string k = s.key();
            k.append( reinterpret_cast< const char * >( &mask ), 8 );
            if ( !seen.insert( k ).second ) return false;
            for ( size_t i = 0; i != ops.size(); ++i )
            {
                if ( mask >> i & 1 ) continue;
                if ( ops[ i ].inv > minRes ) continue;      // Somebody returned before this one began.
                State n = s;
                if ( apply( n, ops[ i ] ) && go( n, mask | uint64_t( 1 ) << i ) ) return true;
            }
            return false;
        }
        const std::vector< Op > & ops;
        Apply apply;
        Accept accept;
        std::unordered_set< std::string > seen;
    };

    template< class State, class Op, class Apply, class Accept >
    bool check( const std::vector< Op > & ops, const State & init, Apply a, Accept c )
    {
        Search< State, Op, Apply, Accept > s( ops, a, c );
        return s.run( init );
    }

    // Did calls of different threads overlap? (Those of one thread follow each other.)
    template< class Op > bool overlapped( std::vector< const Op * > h )
    {
        std::sort( h.begin(), h.end(), []( const Op * a, const Op * b ) { return a->inv < b->inv; } );
        uint64_t last = 0;
        for ( auto o : h ) { if ( o->inv < last ) return true; last = std::max( last, o->res ); }
        return false;
    }

    // Histories of any length: what a queue's values must satisfy pair by pair. A value was put between pInv and pRes and
    // got between gInv and gRes (Pending: never).
    struct Through { uint64_t id, pInv{ Pending }, pRes{ Pending }, gInv{ Pending }, gRes{ Pending }; };
    // What went wrong, or null.
    inline const char * fifoPairs( const std::vector< Through > & m, size_t capacity )
    {
        for ( auto & v : m ) if ( v.gRes < v.pInv ) return "a value came out before it was put";
        std::vector< const Through * > byInv, byRes;
        for ( auto & v : m ) { byInv.push_back( &v ); byRes.push_back( &v ); }
        std::sort( byInv.begin(), byInv.end(), []( auto a, auto b ) { return a->pInv < b->pInv; } );
        std::sort( byRes.begin(), byRes.end(), []( auto a, auto b ) { return a->pRes < b->pRes; } );
        // The latest start of a get among the values whose put had ended when this one's began.
        size_t k = 0; uint64_t latest = 0;
        for ( auto v : byInv )
        {
            while ( k != byRes.size() && byRes[ k ]->pRes < v->pInv ) latest = std::max( latest, byRes[ k++ ]->gInv );
            if ( v->gRes < latest ) return "a value overtook one put before it";
        }
        // What had surely gone in and could not have come out yet.
        std::vector< std::pair< uint64_t, int > > e;
        for ( auto & v : m )
            if ( v.pRes != Pending ) { e.emplace_back( v.pRes, 1 ); if ( v.gInv != Pending ) e.emplace_back( std::max( v.gInv, v.pRes ), -1 ); }
        std::sort( e.begin(), e.end() );
        long now = 0;
        for ( auto & x : e ) if ( ( now += x.second ) > long( capacity ) ) return "more values were held than fit";
        return nullptr;
    }
}

#endif
