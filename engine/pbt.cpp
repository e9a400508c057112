#include "pbt.hpp"

#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <set>
#include <sstream>
#include <unordered_set>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt
{
    Case * current = nullptr;
    void ( *runHook )( PropFn, Case & ) = nullptr;

    static std::vector< Suite > & suites() { static std::vector< Suite > s; return s; }
    Register::Register( const Suite & s ) { suites().push_back( s ); }

    uint64_t Case::draw( uint64_t n )
    {
        if ( n == 0 ) n = 1;
        uint64_t v;
        if ( replay )
        {
            v = taken.size() < given.size() ? given[ taken.size() ] : 0;
            if ( v >= n ) v = n - 1;
        }
        else v = progRng.below( n );
        taken.push_back( v );
        if ( live ) live( v );
        return v;
    }

    static std::string vfmt( const char * fmt, va_list ap )
    {
        char buf[ 2048 ];
        vsnprintf( buf, sizeof buf, fmt, ap );
        return buf;
    }

    void Case::describe( const char * fmt, ... )
    {
        if ( !wantDesc || desc.size() > 20000 ) return;
        va_list ap; va_start( ap, fmt ); desc += vfmt( fmt, ap ); va_end( ap );
    }

    void Case::fail( const char * fmt, ... )
    {
        if ( hasFailed ) return;
        hasFailed = true;
        va_list ap; va_start( ap, fmt ); message = vfmt( fmt, ap ); va_end( ap );
    }

    static double now()
    {
        timespec t; clock_gettime( CLOCK_MONOTONIC, &t );
        return double( t.tv_sec ) + 1e-9 * double( t.tv_nsec );
    }

    static double cpuOf( pid_t p )
    {
        clockid_t id;
        if ( clock_getcpuclockid( p, &id ) ) return -1;
        timespec t; if ( clock_gettime( id, &t ) ) return -1;
        return double( t.tv_sec ) + 1e-9 * double( t.tv_nsec );
    }

    static uint64_t hashStr( const char * s )
    {
        uint64_t h = 1469598103934665603ull;
        for ( ; *s; ++s ) h = ( h ^ uint64_t( (unsigned char)*s ) ) * 1099511628211ull;
        return h;
    }

    constexpr size_t MaxRec = 1 << 16;
    struct Record          // A complete case, in shared memory.
    {
        std::atomic< int > status;      // 0 none, 1 running, 2 passed, 3 failed
        uint64_t index;
        uint32_t nChoices, nSched;
        char msg[ 4096 ];
        char desc[ 24000 ];
        uint64_t choices[ MaxRec ];
        uint32_t schedPos[ MaxRec ], schedVal[ MaxRec ];
    };
    struct Slot
    {
        std::atomic< uint64_t > curIndex, done, nontrivial;
        std::atomic< int > stop;
        Record rec;
    };

    template< class T > static T * shared( size_t n = 1 )
    {
        void * p = mmap( nullptr, sizeof( T ) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
        if ( p == MAP_FAILED ) { perror( "mmap" ); _exit( 2 ); }
        return static_cast< T * >( p );
    }

    struct Input
    {
        bool fromSeed{ true };          // choices from the seed, or given
        bool schedFromSeed{ true };
        uint64_t seed{ 0 };
        uint64_t schedSeed{ 0 };
        std::vector< uint64_t > choices;
        std::vector< std::pair< uint32_t, uint32_t > > sched;
    };

    static bool gThorough = false;

    static void setup( Case & c, const Input & in )
    {
        c.thorough = gThorough;
        c.replay = !in.fromSeed;
        c.given = in.choices;
        c.progRng = Rng{ in.seed };
        c.schedRng = Rng{ in.schedSeed ^ 0xA5A5A5A5DEADBEEFull };
        c.schedule.replay = !in.schedFromSeed;
        for ( auto & p : in.sched ) c.schedule.given[ p.first ] = p.second;
    }

    static void runCase( const Suite & s, Case & c )
    {
        current = &c;
        if ( runHook ) runHook( s.fn, c ); else s.fn( c );
        current = nullptr;
    }

    static void store( Record & r, const Case & c )
    {
        r.nChoices = uint32_t( std::min( c.taken.size(), MaxRec ) );
        std::copy_n( c.taken.begin(), r.nChoices, r.choices );
        r.nSched = uint32_t( std::min( c.schedule.taken.size(), MaxRec ) );
        for ( size_t i = 0; i != r.nSched; ++i )
        { r.schedPos[ i ] = c.schedule.taken[ i ].first; r.schedVal[ i ] = c.schedule.taken[ i ].second; }
        snprintf( r.msg, sizeof r.msg, "%s", c.message.c_str() );
        snprintf( r.desc, sizeof r.desc, "%s", c.desc.c_str() );
    }

    static Input seedInput( const Suite & s, uint64_t seed, uint64_t i )
    {
        Rng r{ seed * 0x9E3779B97F4A7C15ull ^ hashStr( s.name ) ^ ( i * 0xD1342543DE82EF95ull ) };
        Input in; in.seed = r.next(); in.schedSeed = r.next();
        return in;
    }

    static const char * const HangMsg = "the case does not terminate";
    struct Outcome { bool failed{ false }; std::string msg, desc; Input rec; std::vector< uint64_t > run; };     // run: see runOf

    static std::string gTmp = "/tmp";

    static std::string sanitizerSummary( const std::string & path )
    {
        std::ifstream f( path ); std::string line, out; int n = 0;
        while ( std::getline( f, line ) )
        {
            if ( line.find( "ERROR: " ) != std::string::npos || line.find( "runtime error" ) != std::string::npos ||
                 line.find( "SUMMARY" ) != std::string::npos || line.find( "terminate called" ) != std::string::npos ||
                 ( line.find( "    #" ) == 0 && n < 14 && line.find( "/repo/" ) != std::string::npos ) )
            {
                out += line.substr( 0, 300 ) + "\n";
                if ( ++n > 14 ) break;
            }
        }
        return out;
    }

    static Record * gLive = nullptr;
    static void liveChoice( uint64_t v ) { if ( gLive->nChoices < MaxRec ) gLive->choices[ gLive->nChoices++ ] = v; }
    static void liveSched( uint32_t p, uint32_t v )
    {
        if ( gLive->nSched >= MaxRec ) return;
        gLive->schedPos[ gLive->nSched ] = p; gLive->schedVal[ gLive->nSched++ ] = v;
    }

    // Runs one case in a child process.
    static Outcome isolated( const Suite & s, const Input & in, bool wantDesc = false, double limitCap = 1e9 )
    {
        const double limit = std::min( s.limit, limitCap );
        static Record * rec = shared< Record >();
        rec->status = 0; rec->nChoices = rec->nSched = 0; rec->msg[ 0 ] = rec->desc[ 0 ] = 0;
        std::string err = gTmp + "/stderr." + std::to_string( getpid() );
        fflush( nullptr );
        pid_t p = fork();
        if ( p == 0 )
        {
            int fd = open( err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600 );
            if ( fd >= 0 ) { dup2( fd, 2 ); close( fd ); }
            rec->status = 1;
            gLive = rec;
            Case c; setup( c, in ); c.wantDesc = wantDesc; c.live = liveChoice; c.schedule.live = liveSched;
            runCase( s, c );
            store( *rec, c );
            rec->status = c.failed() ? 3 : 2;
            _exit( 0 );
        }
        double t0 = now(); int st = 0; bool hung = false;
        for ( ;; )
        {
            pid_t r = waitpid( p, &st, WNOHANG );
            if ( r == p ) break;
            if ( ( cpuOf( p ) > limit && limit > 0 ) || now() - t0 > 4 * limit + 20 )
            { hung = true; kill( p, SIGKILL ); waitpid( p, &st, 0 ); break; }
            struct timespec ts{ 0, now() - t0 > 0.05 ? 2000000 : 100000 };
            nanosleep( &ts, nullptr );
        }
        Outcome o;
        if ( rec->status == 3 )
        {
            o.failed = true; o.msg = rec->msg;
        }
        else if ( rec->status == 1 )
        {
            o.failed = true;
            if ( hung ) o.msg = HangMsg;
            else if ( WIFSIGNALED( st ) ) o.msg = std::string( "the process died with signal " ) + strsignal( WTERMSIG( st ) );
            else o.msg = "the process ended (exit " + std::to_string( WEXITSTATUS( st ) ) + ")";
            std::string sum = sanitizerSummary( err );
            if ( !sum.empty() ) o.msg += ": " + sum;
        }
        unlink( err.c_str() );
        o.rec.fromSeed = false; o.rec.schedFromSeed = false;
        {
            o.desc = rec->desc;
            o.rec.choices.assign( rec->choices, rec->choices + rec->nChoices );
            for ( size_t i = 0; i != rec->nSched; ++i ) o.rec.sched.emplace_back( rec->schedPos[ i ], rec->schedVal[ i ] );
        }
        return o;
    }

    static bool better( const Input & a, const Input & b )
    {
        if ( a.choices.size() != b.choices.size() ) return a.choices.size() < b.choices.size();
        if ( a.sched.size() != b.sched.size() ) return a.sched.size() < b.sched.size();
        return false;
    }

    static Outcome shrink( const Suite & s, Outcome best, double budget )
    {
        double end = now() + budget;
        if ( best.rec.fromSeed ) return best;
        auto attempt = [ & ]( Input in, int researches ) -> bool
        {
            in.fromSeed = false; in.schedFromSeed = false;
            Outcome o = isolated( s, in, false, 10 );
            for ( int k = 0; !o.failed && k < researches && now() < end; ++k )
            {
                Input i2 = in; i2.schedFromSeed = true; i2.schedSeed = 77 + uint64_t( k ) * 1315423911u; i2.sched.clear();
                o = isolated( s, i2, false, 10 );
            }
            if ( !o.failed ) return false;
            if ( o.rec.fromSeed || o.rec.schedFromSeed ) return false;
            // Adopt what was actually consumed (a crash leaves the input itself).
            best = o;
            return true;
        };
        bool usesSched = !best.rec.sched.empty();
        int rs = usesSched ? 6 : 0;
        bool progress = true;
        while ( progress && now() < end )
        {
            progress = false;
            // Delete chunks of program choices.
            for ( size_t len = std::max< size_t >( best.rec.choices.size() / 2, 1 ); len >= 1 && now() < end; len /= 2 )
            {
                for ( size_t at = 0; at + len <= best.rec.choices.size() && now() < end; )
                {
                    Input in = best.rec;
                    in.choices.erase( in.choices.begin() + long( at ), in.choices.begin() + long( at + len ) );
                    Input before = best.rec;
                    if ( attempt( in, rs ) ) { if ( better( best.rec, before ) ) progress = true; else at += len; }
                    else at += len;
                }
                if ( len == 1 ) break;
            }
            // Delete schedule entries.
            for ( size_t len = std::max< size_t >( best.rec.sched.size() / 2, 1 ); len >= 1 && now() < end; len /= 2 )
            {
                for ( size_t at = 0; at + len <= best.rec.sched.size() && now() < end; )
                {
                    Input in = best.rec;
                    in.sched.erase( in.sched.begin() + long( at ), in.sched.begin() + long( at + len ) );
                    Input before = best.rec;
                    if ( attempt( in, 0 ) && better( best.rec, before ) ) progress = true; else at += len;
                }
                if ( len == 1 ) break;
            }
            // Lower single choices.
            for ( size_t i = 0; i < best.rec.choices.size() && now() < end; ++i )
            {
                if ( best.rec.choices[ i ] == 0 ) continue;
                Input in = best.rec; in.choices[ i ] = 0;
                if ( attempt( in, rs ) ) { progress = progress || false; continue; }
                if ( i < best.rec.choices.size() && best.rec.choices[ i ] > 1 )
                {
                    uint64_t lo = 0, hi = best.rec.choices[ i ];
                    while ( hi - lo > 1 && now() < end && i < best.rec.choices.size() )
                    {
                        uint64_t mid = lo + ( hi - lo ) / 2;
                        Input in2 = best.rec; in2.choices[ i ] = mid;
                        if ( attempt( in2, 0 ) ) hi = mid; else lo = mid;
                    }
                }
            }
        }
        return best;
    }

    static std::string jstr( const std::string & s )
    {
        std::string o = "\"";
        for ( unsigned char ch : s )
        {
            if ( ch == '"' || ch == '\\' ) { o += '\\'; o += char( ch ); }
            else if ( ch == '\n' ) o += "\\n";
            else if ( ch == '\t' ) o += "\\t";
            else if ( ch < 0x20 || ch > 0x7e ) { char b[ 8 ]; snprintf( b, sizeof b, "\\u%04x", ch ); o += b; }
            else o += char( ch );
        }
        return o + "\"";
    }

    static void writeReplay( const std::string & path, const Suite & s, uint64_t seed, const Outcome & o )
    {
        std::ofstream f( path );
        f << "{\n \"suite\": " << jstr( s.name ) << ",\n \"verif_seed\": " << seed << ",\n \"message\": " << jstr( o.msg )
          << ",\n \"description\": " << jstr( o.desc ) << ",\n \"thorough\": " << ( gThorough ? 1 : 0 )
          << ",\n \"from_seed\": " << ( o.rec.fromSeed ? 1 : 0 )
          << ",\n \"sched_from_seed\": " << ( o.rec.schedFromSeed ? 1 : 0 )
          << ",\n \"run\": [";
        for ( size_t i = 0; i != o.run.size(); ++i ) f << ( i ? "," : "" ) << o.run[ i ];
        f << "],\n \"case_seed\": " << o.rec.seed << ",\n \"sched_seed\": " << o.rec.schedSeed << ",\n \"choices\": [";
        for ( size_t i = 0; i != o.rec.choices.size(); ++i ) f << ( i ? "," : "" ) << o.rec.choices[ i ];
        f << "],\n \"schedule\": [";
        for ( size_t i = 0; i != o.rec.sched.size(); ++i )
            f << ( i ? "," : "" ) << "[" << o.rec.sched[ i ].first << "," << o.rec.sched[ i ].second << "]";
        f << "]\n}\n";
    }

    // Reads the numbers after "key": up to the end of the value. Good enough for the files written above.
    static std::vector< uint64_t > numbersAfter( const std::string & t, const std::string & key )
    {
        std::vector< uint64_t > v;
        size_t p = t.find( "\n \"" + key + "\":" );
        if ( p == std::string::npos ) return v;
        p = t.find( ':', p ) + 1;
        size_t e = t.find( '\n', p );
        for ( size_t i = p; i < e && i < t.size(); )
        {
            if ( isdigit( (unsigned char)t[ i ] ) )
            {
                char * q; v.push_back( strtoull( t.c_str() + i, &q, 10 ) ); i = size_t( q - t.c_str() );
            }
            else ++i;
        }
        return v;
    }

    struct SuiteResult
    {
        uint64_t cases{ 0 }, nontrivial{ 0 }, distinct{ 0 };
        std::map< std::string, uint64_t > labels;
        std::vector< std::string > samples;
        bool failed{ false };
        std::string msg, replay;
        double wall{ 0 };
        uint64_t unreproduced{ 0 };
        bool timedOut{ false };
    };

    // Some failures need the cases before them in the same process (state that outlives a component). The cases
    // "first", "first" + step, ... "last" run in one child process. Failed: one of them did.
    static Outcome runOf( const Suite & s, uint64_t seed, uint64_t first, uint64_t step, uint64_t last, double limit )
    {
        static Record * rec = shared< Record >();
        rec->status = 1; rec->msg[ 0 ] = 0;
        std::string err = gTmp + "/stderr." + std::to_string( getpid() );
        fflush( nullptr );
        pid_t p = fork();
        if ( p == 0 )
        {
            int fd = open( err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600 );
            if ( fd >= 0 ) { dup2( fd, 2 ); close( fd ); }
            for ( uint64_t i = first; i <= last; i += step )
            {
                Case c; setup( c, seedInput( s, seed, i ) );
                rec->index = i;
                runCase( s, c );
                if ( c.failed() ) { store( *rec, c ); rec->status = 3; _exit( 0 ); }
            }
            rec->status = 2;
            _exit( 0 );
        }
        int st = 0; double t0 = now(); bool late = false;
        for ( ;; )
        {
            pid_t q = waitpid( p, &st, WNOHANG );
            if ( q == p ) break;
            if ( now() - t0 > limit ) { late = true; kill( p, SIGKILL ); waitpid( p, &st, 0 ); break; }
            struct timespec ts{ 0, 1000000 }; nanosleep( &ts, nullptr );
        }
        Outcome o;
        if ( late ) return o;
        if ( rec->status == 3 ) { o.failed = true; o.msg = rec->msg; }
        else if ( rec->status == 1 )
        {
            o.failed = true;
            o.msg = WIFSIGNALED( st ) ? std::string( "the process died with signal " ) + strsignal( WTERMSIG( st ) ) : "the process ended (exit " + std::to_string( WEXITSTATUS( st ) ) + ")";
            std::string sum = sanitizerSummary( err );
            if ( !sum.empty() ) o.msg += ": " + sum;
        }
        unlink( err.c_str() );
        return o;
    }

    static void worker( const Suite & s, uint64_t seed, uint64_t n, unsigned w, unsigned W, uint64_t from, Slot & slot )
    {
        int fd = open( "/dev/null", O_WRONLY );
        if ( fd >= 0 ) { dup2( fd, 2 ); close( fd ); }
        std::unordered_set< uint64_t > seen;
        std::map< std::string, uint64_t > labels;
        std::vector< std::string > samples;
        uint64_t nontriv = 0;
        for ( uint64_t i = from; i < n && !slot.stop; i += W )
        {
            slot.curIndex = i;
            Case c; setup( c, seedInput( s, seed, i ) );
            bool sample = w == 0 && samples.size() < 4;
            c.wantDesc = sample;
            runCase( s, c );
            if ( c.failed() )
            {
                store( slot.rec, c ); slot.rec.index = i; slot.rec.status = 3;
                _exit( 3 );
            }
            for ( auto & l : c.labels ) ++labels[ l ];
            if ( c.isNontrivial )
            {
                ++nontriv;
                uint64_t h = c.schedule.hash ^ c.extraHash;
                for ( auto v : c.taken ) h = ( h ^ v ) * 1099511628211ull;
                if ( seen.size() < 3000000 ) seen.insert( h );
                if ( sample ) samples.push_back( c.desc );
            }
            slot.nontrivial = nontriv;
            ++slot.done;
        }
        std::string base = gTmp + "/w" + std::to_string( w );
        {
            std::ofstream f( base + ".seen", std::ios::binary );
            for ( auto h : seen ) f.write( reinterpret_cast< const char * >( &h ), 8 );
            std::ofstream g( base + ".labels" );
            for ( auto & l : labels ) g << l.second << " " << l.first << "\n";
            std::ofstream d( base + ".samples", std::ios::binary );
            for ( auto & x : samples ) d << x << '\0';
        }
        slot.rec.status = 2;
        _exit( 0 );
    }

    static SuiteResult search( const Suite & s, uint64_t seed, uint64_t n, unsigned W, double cap, double shrinkBudget,
                               const std::string & replayDir )
    {
        SuiteResult res;
        double t0 = now();
        static Slot * slots = shared< Slot >( 16 );
        uint64_t doneBefore = 0, nontrivialBefore = 0;
        std::vector< uint64_t > from( W );
        for ( unsigned w = 0; w != W; ++w ) from[ w ] = w;
      again:
        std::vector< pid_t > pids( W, -1 );
        std::vector< double > lastChange( W, t0 ), lastCpu( W, 0 );
        std::vector< uint64_t > lastIdx( W, ~0ull );
        fflush( nullptr );
        for ( unsigned w = 0; w != W; ++w )
        {
            slots[ w ].rec.status = 0; slots[ w ].done = 0; slots[ w ].nontrivial = 0; slots[ w ].stop = 0; slots[ w ].curIndex = from[ w ];
            for ( auto e : { ".seen", ".labels", ".samples" } ) unlink( ( gTmp + "/w" + std::to_string( w ) + e ).c_str() );
            pids[ w ] = fork();
            if ( pids[ w ] == 0 ) worker( s, seed, n, w, W, from[ w ], slots[ w ] );
        }
        unsigned alive = W; bool found = false; Outcome cand; std::vector< uint64_t > crashed; uint64_t candIndex = 0;
        bool stopping = false;
        while ( alive )
        {
            struct timespec ts{ 0, 10000000 }; nanosleep( &ts, nullptr );
            double t = now();
            if ( t - t0 > cap && !stopping ) { stopping = true; res.timedOut = true; for ( unsigned w = 0; w != W; ++w ) slots[ w ].stop = 1; }
            for ( unsigned w = 0; w != W; ++w )
            {
                if ( pids[ w ] < 0 ) continue;
                int st; pid_t r = waitpid( pids[ w ], &st, WNOHANG );
                if ( r == pids[ w ] )
                {
                    pids[ w ] = -1; --alive;
                    if ( slots[ w ].rec.status == 3 )
                    {
                        if ( !found )
                        {
                            found = true;
                            auto & rec = slots[ w ].rec;
                            cand.failed = true; cand.msg = rec.msg; candIndex = rec.index;
                            cand.rec.fromSeed = cand.rec.schedFromSeed = false;
                            cand.rec.choices.assign( rec.choices, rec.choices + rec.nChoices );
                            for ( size_t i = 0; i != rec.nSched; ++i ) cand.rec.sched.emplace_back( rec.schedPos[ i ], rec.schedVal[ i ] );
                        }
                    }
                    else if ( slots[ w ].rec.status != 2 ) crashed.push_back( slots[ w ].curIndex );
                    continue;
                }
                uint64_t idx = slots[ w ].curIndex; double cpu = cpuOf( pids[ w ] );
                if ( idx != lastIdx[ w ] ) { lastIdx[ w ] = idx; lastChange[ w ] = t; lastCpu[ w ] = cpu; }
                else if ( cpu - lastCpu[ w ] > s.limit || t - lastChange[ w ] > 4 * s.limit )
                {
                    kill( pids[ w ], SIGKILL ); waitpid( pids[ w ], &st, 0 ); pids[ w ] = -1; --alive;
                    crashed.push_back( idx );
                }
            }
            if ( found || !crashed.empty() )
            {
                for ( unsigned w = 0; w != W; ++w )
                    if ( pids[ w ] > 0 ) { kill( pids[ w ], SIGKILL ); int st; waitpid( pids[ w ], &st, 0 ); pids[ w ] = -1; --alive; }
            }
        }
        std::unordered_set< uint64_t > all;
        for ( unsigned w = 0; w != W; ++w )
        {
            doneBefore += slots[ w ].done; nontrivialBefore += slots[ w ].nontrivial;
            std::string base = gTmp + "/w" + std::to_string( w );
            std::ifstream f( base + ".seen", std::ios::binary ); uint64_t h;
            while ( f.read( reinterpret_cast< char * >( &h ), 8 ) ) all.insert( h );
            std::ifstream g( base + ".labels" ); std::string line;
            while ( std::getline( g, line ) )
            {
                size_t sp = line.find( ' ' );
                if ( sp != std::string::npos ) res.labels[ line.substr( sp + 1 ) ] += strtoull( line.c_str(), nullptr, 10 );
            }
            std::ifstream d( base + ".samples", std::ios::binary ); std::string x;
            while ( std::getline( d, x, '\0' ) ) res.samples.push_back( x );
            for ( auto e : { ".seen", ".labels", ".samples" } ) unlink( ( base + e ).c_str() );
        }
        res.cases = doneBefore; res.nontrivial = nontrivialBefore; res.distinct = all.size();
        uint64_t lost = ~0ull;      // index of a failure that could not be reproduced
        if ( !found && !crashed.empty() )
        {
            for ( auto i : crashed )
            {
                Outcome o = isolated( s, seedInput( s, seed, i ) );
                if ( o.failed ) { found = true; cand = o; candIndex = i; break; }
                if ( lost == ~0ull ) { lost = i; cand.msg = "a crash"; } else ++res.unreproduced;
            }
        }
        if ( found )
        {
            bool ok = true;
            const bool hang = cand.msg == HangMsg;
            for ( int k = 0; k != ( hang ? 1 : 3 ) && ok; ++k ) { auto o = isolated( s, cand.rec ); ok = o.failed; }
            if ( ok )
            {
                Outcome best = hang || s.limit > 30 ? cand : shrink( s, cand, shrinkBudget );
                Outcome o; if ( !hang ) o = isolated( s, best.rec, true );
                if ( o.failed ) { auto keep = best.rec; best.msg = o.msg; best.desc = o.desc; best.rec = keep; }
                res.failed = true; res.msg = best.msg;
                res.replay = replayDir + "/" + s.name + ".json";
                for ( auto & ch : res.replay ) if ( ch == ' ' ) ch = '_';
                writeReplay( res.replay, s, seed, best );
            }
            else lost = candIndex;
        }
        if ( lost != ~0ull )
        {
            // Does it need the cases that ran before it in the same process? The fewer the better.
            uint64_t first = from[ lost % W ], n0 = ( lost - first ) / W, back = 0;
            Outcome o;
            for ( uint64_t k = 1; ; k *= 2 )
            {
                back = std::min( k, n0 );
                o = runOf( s, seed, lost - back * W, W, lost, 150 );
                if ( o.failed || back == n0 ) break;
            }
            bool ok = o.failed;
            for ( int k = 0; k != 2 && ok; ++k ) ok = runOf( s, seed, lost - back * W, W, lost, 150 ).failed;
            if ( ok )
            {
                Outcome best; best.failed = true; best.msg = o.msg;
                best.desc = "fails after " + std::to_string( back ) + " cases before it in the same process";
                best.run = { lost - back * W, W, lost };
                res.failed = true; res.msg = best.msg;
                res.replay = replayDir + "/" + s.name + ".json";
                for ( auto & ch : res.replay ) if ( ch == ' ' ) ch = '_';
                writeReplay( res.replay, s, seed, best );
            }
            else
            {
                fprintf( stderr, "[%s] case %llu, not reproduced: %s\n", s.name, (unsigned long long)lost, cand.msg.c_str() );
                if ( ++res.unreproduced < 6 )
                {
                    for ( unsigned w = 0; w != W; ++w ) from[ w ] = std::max< uint64_t >( from[ w ], slots[ w ].curIndex );
                    from[ lost % W ] = lost + W;
                    goto again;
                }
            }
        }
        res.wall = now() - t0;
        return res;
    }
}

int main( int argc, char ** argv )
{
    using namespace pbt;
    uint64_t seed = 1; unsigned W = 8; double cap = 120, shrinkBudget = 30, scale = 1; std::string out, replayDir = ".", replayFile, only;
    bool list = false;
    for ( int i = 1; i < argc; ++i )
    {
        std::string a = argv[ i ];
        auto val = [ & ]() { return std::string( i + 1 < argc ? argv[ ++i ] : "" ); };
        if ( a == "--seed" ) seed = strtoull( val().c_str(), nullptr, 10 );
        else if ( a == "--thorough" ) gThorough = true;
        else if ( a == "--workers" ) W = unsigned( atoi( val().c_str() ) );
        else if ( a == "--cap" ) cap = atof( val().c_str() );
        else if ( a == "--scale" ) scale = atof( val().c_str() );
        else if ( a == "--shrink" ) shrinkBudget = atof( val().c_str() );
        else if ( a == "--out" ) out = val();
        else if ( a == "--tmp" ) gTmp = val();
        else if ( a == "--replay-dir" ) replayDir = val();
        else if ( a == "--replay" ) replayFile = val();
        else if ( a == "--only" ) only = val();
        else if ( a == "--list" ) list = true;
    }
    if ( W < 1 ) W = 1;
    if ( W > 16 ) W = 16;
    if ( list ) { for ( auto & s : suites() ) printf( "%s\n", s.name ); return 0; }
    if ( !replayFile.empty() )
    {
        std::ifstream f( replayFile ); std::stringstream ss; ss << f.rdbuf(); std::string t = ss.str();
        auto num = [ & ]( const char * k ) { auto v = numbersAfter( t, k ); return v.empty() ? 0 : v[ 0 ]; };
        Input in; in.fromSeed = num( "from_seed" ); in.schedFromSeed = num( "sched_from_seed" );
        in.seed = num( "case_seed" ); in.schedSeed = num( "sched_seed" );
        gThorough = num( "thorough" );
        in.choices = numbersAfter( t, "choices" );
        auto sv = numbersAfter( t, "schedule" );
        for ( size_t i = 0; i + 1 < sv.size(); i += 2 ) in.sched.emplace_back( uint32_t( sv[ i ] ), uint32_t( sv[ i + 1 ] ) );
        for ( auto & s : suites() )
            if ( t.find( "\"suite\": " + jstr( s.name ) + "," ) != std::string::npos )
            {
                auto run = numbersAfter( t, "run" );
                auto o = run.size() == 3 ? runOf( s, num( "verif_seed" ), run[ 0 ], run[ 1 ], run[ 2 ], 600 ) : isolated( s, in, true );
                printf( "%s\n%s\n", o.failed ? "FAILED" : "passed", o.msg.c_str() );
                printf( "%s\n", o.desc.c_str() );
                return o.failed ? 1 : 0;
            }
        return 2;
    }
    std::string json = "{\"suites\": [";
    bool first = true; int rc = 0;
    std::vector< const Suite * > todo;
    for ( auto & s : suites() ) if ( only.empty() || only == s.name ) todo.push_back( &s );
    double tStart = now();
    for ( size_t k = 0; k != todo.size(); ++k )
    {
        const Suite & s = *todo[ k ];
        uint64_t n = uint64_t( double( gThorough ? s.thoroughCases : s.quickCases ) * scale );
        if ( n < 1 ) n = 1;
        double left = cap - ( now() - tStart );
        // What is left of the time is shared by the suites still to run, none below 2 s.
        double mine = std::max( 2.0, left / double( todo.size() - k ) );
        auto r = search( s, seed, n, W, mine, shrinkBudget, replayDir );
        if ( !first ) json += ",";
        first = false;
        json += "\n {\"name\": " + jstr( s.name ) + ", \"rule\": " + jstr( s.rule ) + ", \"cases\": " + std::to_string( r.cases ) +
                ", \"nontrivial\": " + std::to_string( r.nontrivial ) + ", \"distinct_nontrivial\": " + std::to_string( r.distinct ) +
                ", \"requested\": " + std::to_string( n ) + ", \"time_capped\": " + ( r.timedOut ? "true" : "false" ) +
                ", \"unreproduced\": " + std::to_string( r.unreproduced ) + ", \"wall_s\": " + std::to_string( r.wall ) + ", \"labels\": {";
        bool f2 = true;
        for ( auto & l : r.labels ) { json += ( f2 ? "" : ", " ) + jstr( l.first ) + ": " + std::to_string( l.second ); f2 = false; }
        json += "}, \"samples\": [";
        for ( size_t i = 0; i != r.samples.size() && i < 3; ++i ) json += ( i ? ", " : "" ) + jstr( r.samples[ i ].substr( 0, 3000 ) );
        json += "], \"failed\": " + std::string( r.failed ? "true" : "false" ) + ", \"message\": " + jstr( r.msg ) + ", \"replay\": " + jstr( r.replay ) + "}";
        fprintf( stderr, "[%s] cases=%llu nontrivial=%llu distinct=%llu wall=%.1fs%s%s%s\n", s.name, (unsigned long long)r.cases,
                 (unsigned long long)r.nontrivial, (unsigned long long)r.distinct, r.wall, r.timedOut ? " (time cap)" : "",
                 r.failed ? " FAILED: " : "", r.failed ? r.msg.c_str() : "" );
        if ( r.failed ) { rc = 1; break; }
    }
    json += "\n]}\n";
    if ( !out.empty() ) { std::ofstream f( out ); f << json; }
    return rc;
}
