// Property-based testing engine: generated cases are sequences of bounded choices (program choices) plus a sparse
// map of schedule choices. Both are recorded, replayed and shrunk.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <utility>
#include <initializer_list>

namespace pbt
{
    struct Rng
    {
        uint64_t s{ 0 };
        explicit Rng( uint64_t seed = 0 ) : s{ seed } {}
        uint64_t next()
        {
            uint64_t z = ( s += 0x9E3779B97F4A7C15ull );
            z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
            z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
            return z ^ ( z >> 31 );
        }
        uint64_t below( uint64_t n ) { return n <= 1 ? 0 : next() % n; }
    };

    // Schedule choices: value 0 is always the default (stay on the running thread, wake the first waiter, ...).
    struct Schedule
    {
        bool replay{ false };
        std::map< uint32_t, uint32_t > given;       // Replay: position -> value.
        std::vector< std::pair< uint32_t, uint32_t > > taken;
        uint32_t pos{ 0 };
        uint64_t hash{ 1469598103934665603ull };
        void ( *live )( uint32_t pos, uint32_t v ){ nullptr };      // Crash-proof recorder.

        // "proposed" is only used when not replaying.
        uint32_t decide( uint32_t n, uint32_t proposed )
        {
            uint32_t v = proposed;
            if ( replay )
            {
                auto it = given.find( pos );
                v = it == given.end() ? 0 : it->second;
                if ( v >= n ) v = 0;
            }
            if ( v && live ) live( pos, v );
            if ( v ) { taken.emplace_back( pos, v ); hash = ( hash ^ ( uint64_t( pos ) << 8 ^ v ) ) * 1099511628211ull; }
            ++pos;
            return v;
        }
    };

    class Case
    {
    public:
        // --- Program choices
        uint64_t draw( uint64_t n );                                     // uniform in [0,n)
        int64_t range( int64_t lo, int64_t hi ) { return lo + int64_t( draw( uint64_t( hi - lo + 1 ) ) ); }
        bool chance( unsigned num, unsigned den ) { return draw( den ) >= den - num; }   // shrinks to false
        bool more( unsigned avg ) { return draw( avg + 1 ) != 0; }       // geometric list continuation
        size_t weighted( std::initializer_list< unsigned > w )
        {
            uint64_t t = 0; for ( auto x : w ) t += x;
            uint64_t v = draw( t ); size_t i = 0;
            for ( auto x : w ) { if ( v < x ) return i; v -= x; ++i; }
            return 0;
        }
        template< class T > T pick( std::initializer_list< T > l ) { return *( l.begin() + draw( l.size() ) ); }

        // --- Reporting
        void label( const std::string & l ) { labels.push_back( l ); }
        void nontrivial( bool v = true ) { isNontrivial = isNontrivial || v; }
        void describe( const char * fmt, ... ) __attribute__(( format( printf, 2, 3 ) ));
        void fail( const char * fmt, ... ) __attribute__(( format( printf, 2, 3 ) ));
        bool failed() const { return hasFailed; }

        // --- Engine side
        bool replay{ false };
        std::vector< uint64_t > given;
        std::vector< uint64_t > taken;
        Schedule schedule;
        Rng progRng, schedRng;
        bool thorough{ false };
        bool wantDesc{ false };
        bool isNontrivial{ false };
        bool hasFailed{ false };
        std::string message;
        std::string desc;
        std::vector< std::string > labels;
        uint64_t extraHash{ 0 };
        void ( *live )( uint64_t v ){ nullptr };
    };

    using PropFn = void ( * )( Case & );

    struct Suite
    {
        const char * name;
        PropFn fn;
        uint64_t quickCases;
        uint64_t thoroughCases;
        const char * rule;
        double limit{ 25 };         // CPU seconds after which a case counts as hanging
    };

    struct Register { explicit Register( const Suite & s ); };

    // The case being run (nullptr outside of a case).
    extern Case * current;

    // Called around every case when set (ds runtime).
    extern void ( *runHook )( PropFn, Case & );
}

#define PBT_SUITE( ident, name, quick, thorough, rule ) PBT_SUITE_L( ident, name, quick, thorough, rule, 25 )
#define PBT_SUITE_L( ident, name, quick, thorough, rule, limit ) \
    static void ident( pbt::Case & c ); \
    static pbt::Register ident##_reg{ pbt::Suite{ name, ident, quick, thorough, rule, limit } }; \
    static void ident( pbt::Case & c )

#define PBT_CHECK( cond, ... ) do { if ( !( cond ) ) { c.fail( __VA_ARGS__ ); return; } } while ( 0 )

#endif
