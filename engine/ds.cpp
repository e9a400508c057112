#include "ds.hpp"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <exception>
#include <new>
#include <unordered_map>

#include <cxxabi.h>
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

#define NOTSAN __attribute__(( no_sanitize( "thread" ) ))

// ---------------------------------------------------------------------------------------------------------------------
// Context switch
extern "C" void ds_switch( void ** saveSp, void * toSp );
__asm__(
    ".text\n.globl ds_switch\n.type ds_switch,@function\nds_switch:\n"
    " pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
    " movq %rsp,(%rdi)\n movq %rsi,%rsp\n"
    " popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n"
    ".size ds_switch,.-ds_switch\n" );

extern "C" char __executable_start, etext, __data_start, _end;

namespace ds
{
    using pbt::Case;
    constexpr size_t StackSize = 256 * 1024;
    constexpr int NF = MaxFibers;

    struct VC
    {
        uint32_t c[ NF ];
        VC() { memset( c, 0, sizeof c ); }
        void join( const VC & o ) { for ( int i = 0; i != NF; ++i ) if ( o.c[ i ] > c[ i ] ) c[ i ] = o.c[ i ]; }
    };

    enum class St { Free, Run, Mutex, Cond, Sem, Rw, Sleep, WaitQ, Done };

    struct MutexObj;
    struct Fiber
    {
        St st{ St::Free };
        void * sp{ nullptr };
        char * stack{ nullptr };
        std::function< void() > fn;
        int sut{ 0 };
        int eng{ 0 };                       // inside the runtime
        uint64_t heap{ 0 };                 // allocator calls of the code under test
        uint64_t work{ 0 };                 // memory accesses, calls and lock operations of the code under test
        char ehGlobals[ 16 ]{};
        void * onceCallable{ nullptr }; void ( * onceCall )(){ nullptr };   // std::call_once keeps these per thread
        int inStatic{ 0 };                  // within the initialisation of function-local statics
        std::vector< std::pair< void ( * )( void * ), void * > > atExit;    // destructors of thread_local objects
        std::vector< char > tls;
        const void * obj{ nullptr };        // what it is blocked on
        const void * mtxAddr{ nullptr };
        int rwWant{ 0 };
        MutexObj * mtx{ nullptr };
        bool condWoken{ false };
        bool timed{ false };
        bool timedOut{ false };
        uint64_t wake{ 0 };                 // virtual ns
        VC vc, relFence, acqPend;
        uint32_t prio{ 0 };
    };

    struct MutexObj
    {
        int owner{ -1 };
        int depth{ 0 };
        int type{ PTHREAD_MUTEX_NORMAL };
        int protocol{ 0 };
        bool inited{ false }, destroyed{ false };
        VC vc;
    };
    struct CondObj { std::vector< int > waiters; bool destroyed{ false }, inited{ false }; };
    struct SemObj { long v{ 0 }; VC vc; };
    struct RwObj { int writer{ -1 }; int readers{ 0 }; VC vc; };

    static Fiber F[ NF ];
    static int nF = 0;
    static int cur = -1;                    // running fiber, -1: the engine
    static void * engineSp = nullptr;
    static Case * C = nullptr;
    static bool gFine = false, gRaces = false, gSpurious = true;
    static uint64_t gTick = 0, gSteps = 0, gVtime = 0;
    static uint64_t fineCount = 0;
    static unsigned fineMean = 40;
    static Stats gStats;
    static int strategy = 0;
    static unsigned switchNum = 1;          // of 64
    static std::vector< uint64_t > changePoints;
    // Strategy 2: one thread stops after so many points of its own, for so many steps of the others.
    static int victim = -1;
    static uint64_t stallAt = 0, stallFor = 0, stallUntil = 0;
    static uint64_t softLimit = 6000, hardLimit = 60000;

    static std::unordered_map< const void *, MutexObj > mutexes;
    static std::unordered_map< const void *, CondObj > conds;
    static std::unordered_map< const void *, SemObj > sems;
    static std::unordered_map< const void *, RwObj > rws;
    static std::unordered_map< const void *, VC > atomics;
    static std::vector< MutexInfo > inited;

    struct Fault { int kind; unsigned n; int e; int fiber; const void * addr; };
    static std::vector< Fault > faults;
    static uint64_t calls[ 3 ];

    static const char * stName( St s );

    // Marks runtime code: what it allocates is not the code under test's.
    struct Eng { int id; Eng() : id{ cur } { if ( id >= 0 ) ++F[ id ].eng; } ~Eng() { if ( id >= 0 ) --F[ id ].eng; } };

    // -----------------------------------------------------------------------------------------------------------------
    // Arena
    constexpr size_t ArenaSize = 8u << 20;
    static char * arena = nullptr;
    static uint8_t * shadow = nullptr;       // per 8 bytes: 0 never, 1..8 live bytes, 0xFF freed, 0xFE redzone
    static size_t arenaUsed = 0;
    struct Blk { size_t off, size; bool live; };
    static std::vector< Blk > * blks = nullptr;
    static uint64_t nAlloc = 0, nFree = 0, nLive = 0;
    static int64_t failAt = -1;         // how many more allocations succeed before one fails
    static bool failedAlloc = false;
    static int64_t failInitAt = -1;     // likewise initialisations of locks and condition variables
    static int failInitErr = 0;
    static bool failedInit = false;

    static inline bool inArenaI( const void * p ) { return arena && (const char *)p >= arena && (const char *)p < arena + ArenaSize; }
    bool inArena( const void * p ) { return inArenaI( p ); }
    // Static storage of the code under test and the harness.
    static inline bool inImage( const void * p ) { return (const char *)p >= &__data_start && (const char *)p < &_end; }

    static void * arenaAlloc( size_t n, size_t align = 16 )
    {
        Eng eng;
        size_t off = ( arenaUsed + 16 + align - 1 ) / align * align;
        size_t need = ( n + 7 ) / 8 * 8;
        if ( n > ArenaSize || off + need + 32 > ArenaSize ) return nullptr;
        memset( shadow + arenaUsed / 8, 0xFE, ( off - arenaUsed ) / 8 );
        memset( shadow + off / 8, 8, need / 8 );
        if ( n % 8 ) shadow[ ( off + need ) / 8 - 1 ] = uint8_t( n % 8 );
        arenaUsed = off + need;
        memset( shadow + arenaUsed / 8, 0xFE, 2 );
        memset( arena + off, 0xCD, n );
        blks->push_back( Blk{ off, n, true } );
        ++nLive;
        return arena + off;
    }

    static void access( const void * p, size_t n, bool write, bool atomic );

    static void arenaFree( void * p )
    {
        Eng eng;
        size_t off = size_t( (char *)p - arena );
        for ( auto it = blks->rbegin(); it != blks->rend(); ++it )
            if ( it->off == off )
            {
                if ( !it->live ) fail( "double free of a heap block of %zu bytes", it->size );
                if ( cur >= 0 && F[ cur ].sut ) access( p, it->size, true, false );
                it->live = false; --nLive;
                memset( shadow + off / 8, 0xFF, ( it->size + 7 ) / 8 );
                memset( p, 0xDD, it->size );
                for ( int i = 0; i != nF; ++i )
                    if ( F[ i ].st == St::Mutex || F[ i ].st == St::Cond || F[ i ].st == St::Sem || F[ i ].st == St::Rw )
                        for ( const void * q : { F[ i ].obj, F[ i ].st == St::Mutex || F[ i ].st == St::Cond ? F[ i ].mtxAddr : F[ i ].obj } )
                            if ( (const char *)q >= (char *)p && (const char *)q < (char *)p + it->size )
                                fail( "memory freed while thread %d is still %s in it", i, stName( F[ i ].st ) );
                // Synchronisation objects inside are gone.
                auto gone = [ & ]( auto & m )
                {
                    for ( auto i = m.begin(); i != m.end(); )
                        if ( (const char *)i->first >= (char *)p && (const char *)i->first < (char *)p + it->size ) i = m.erase( i ); else ++i;
                };
                gone( atomics ); gone( mutexes ); gone( conds ); gone( sems ); gone( rws );
                return;
            }
        fail( "free of a pointer that was not allocated" );
    }
    size_t liveAllocs() { return nLive; }
    uint64_t allocs() { return nAlloc; }
    uint64_t frees() { return nFree; }
    uint64_t heapOps() { return cur >= 0 ? F[ cur ].heap : 0; }

    static const char * badAccess( const void * p, size_t n )
    {
        const char * a = (const char *)p;
        while ( n )
        {
            size_t off = size_t( a - arena );
            if ( off >= ArenaSize ) return "beyond the heap";
            uint8_t s = shadow[ off / 8 ];
            size_t in = off % 8, take = std::min( n, 8 - in );
            if ( s == 0xFF ) return "freed memory";
            if ( s == 0xFE || s == 0 ) return "memory outside of any heap block";
            if ( in + take > s ) return "memory beyond the end of a heap block";
            a += take; n -= take;
        }
        return nullptr;
    }
    void checkLive( const void * p, size_t n, const char * what )
    {
        if ( !inArenaI( p ) ) return;
        if ( const char * b = badAccess( p, n ) ) fail( "%s: %s", what, b );
    }

    // -----------------------------------------------------------------------------------------------------------------
    // Races (per byte, FastTrack-like with full read clocks)
    struct Cell { uint32_t epoch; uint32_t w; uint8_t wf; uint32_t r[ NF ]; uint32_t aw[ NF ]; uint32_t ar[ NF ]; };
    static Cell * cells = nullptr;             // of the arena; a cell of another epoch (case) is blank
    static std::unordered_map< uintptr_t, Cell > imageCells;
    static uint32_t epoch = 0;

    static bool onStack( const void * p )
    {
        for ( int i = 0; i != nF; ++i ) if ( (const char *)p >= F[ i ].stack && (const char *)p < F[ i ].stack + StackSize ) return true;
        return false;
    }

    static void raceAccess( const void * p, size_t n, bool write, bool atomic )
    {
        if ( onStack( p ) ) return;
        if ( !inArenaI( p ) && !inImage( p ) ) return;
        Fiber & f = F[ cur ];
        uint32_t myc = f.vc.c[ cur ];
        for ( size_t i = 0; i != n; ++i )
        {
            Cell & c = inArenaI( p ) ? cells[ size_t( (const char *)p - arena ) + i ] : imageCells[ uintptr_t( p ) + i ];
            if ( c.epoch != epoch ) { memset( &c, 0, sizeof c ); c.epoch = epoch; }
            auto bad = [ & ]( const char * what, int other )
            {
                fail( "data race: %s%s of %zu bytes at %s %zu by thread %d is not ordered with an earlier %s by thread %d",
                      atomic ? "atomic " : "", write ? "write" : "read", n, inArenaI( p ) ? "heap offset" : "image offset", size_t( (char *)p - ( inArenaI( p ) ? arena : &__executable_start ) ), cur, what, other );
            };
            if ( c.w && c.w > f.vc.c[ c.wf ] && c.wf != cur ) bad( "write", c.wf );
            if ( !atomic ) for ( int k = 0; k != nF; ++k ) if ( k != cur && c.aw[ k ] > f.vc.c[ k ] ) bad( "atomic write", k );
            if ( write )
            {
                for ( int k = 0; k != nF; ++k ) if ( k != cur && c.r[ k ] > f.vc.c[ k ] ) bad( "read", k );
                if ( !atomic ) for ( int k = 0; k != nF; ++k ) if ( k != cur && c.ar[ k ] > f.vc.c[ k ] ) bad( "atomic read", k );
            }
            if ( write ) { if ( atomic ) c.aw[ cur ] = myc; else { c.w = myc; c.wf = uint8_t( cur ); } }
            else { if ( atomic ) c.ar[ cur ] = myc; else c.r[ cur ] = myc; }
        }
    }

    static void access( const void * p, size_t n, bool write, bool atomic )
    {
        Eng eng;
        if ( inArenaI( p ) )
            if ( const char * b = badAccess( p, n ) ) fail( "%s of %zu bytes: %s", write ? "write" : "read", n, b );
        if ( gRaces ) raceAccess( p, n, write, atomic );
    }

    // -----------------------------------------------------------------------------------------------------------------
    // Scheduler
    static size_t tlsSize = 0;
    static char * tlsBase = nullptr;
    static std::vector< char > tlsInit;

    static int phdrCb( dl_phdr_info * info, size_t, void * )
    {
        for ( int i = 0; i != info->dlpi_phnum; ++i )
            if ( info->dlpi_phdr[ i ].p_type == PT_TLS )
            {
                auto & ph = info->dlpi_phdr[ i ];
                size_t al = ph.p_align ? ph.p_align : 1;
                size_t sz = ( ph.p_memsz + al - 1 ) / al * al;
                char * tp; __asm__( "movq %%fs:0,%0" : "=r"( tp ) );
                tlsSize = sz; tlsBase = tp - sz;
            }
        return 1;       // only the executable
    }

    static void swapOut( Fiber & f )
    {
        memcpy( f.ehGlobals, abi::__cxa_get_globals(), 16 );
        f.onceCallable = std::__once_callable; f.onceCall = std::__once_call;
        if ( tlsSize ) memcpy( f.tls.data(), tlsBase, tlsSize );
    }
    static void swapIn( Fiber & f )
    {
        memcpy( (void *)abi::__cxa_get_globals(), f.ehGlobals, 16 );
        std::__once_callable = f.onceCallable; std::__once_call = f.onceCall;
        if ( tlsSize ) memcpy( tlsBase, f.tls.data(), tlsSize );
    }

    [[noreturn]] static void toEngine()
    {
        void * dummy;
        cur = -1;
        ds_switch( &dummy, engineSp );
        __builtin_unreachable();
    }

    [[noreturn]] void fail( const char * fmt, ... )
    {
        Eng eng;
        char buf[ 2048 ];
        va_list ap; va_start( ap, fmt ); vsnprintf( buf, sizeof buf, fmt, ap ); va_end( ap );
        C->fail( "%s", buf );
        toEngine();
    }
    [[noreturn]] void discard() {
        Eng eng; C->label( "discarded" ); toEngine(); }

    static bool mutexFree( const Fiber & f )
    {
        auto & m = *f.mtx;
        return m.owner < 0;
    }

    static bool enabled( int i )
    {
        Fiber & f = F[ i ];
        switch ( f.st )
        {
            case St::Run: return true;
            case St::Mutex: return mutexFree( f );
            case St::Cond: return f.condWoken && f.mtx->owner < 0;
            case St::Sem: return sems[ f.obj ].v > 0;
            case St::Rw: { auto & r = rws[ f.obj ]; return f.rwWant == 2 ? r.writer < 0 && r.readers == 0 : r.writer < 0; }
            default: return false;
        }
    }

    static void resume( int to )
    {
        if ( to == cur ) return;
        ++gStats.switches;
        int from = cur;
        swapOut( F[ from ] );
        cur = to;
        swapIn( F[ to ] );
        ds_switch( &F[ from ].sp, F[ to ].sp );
    }

    static const char * stName( St s )
    {
        switch ( s )
        {
            case St::Mutex: return "waiting for a mutex";
            case St::Cond: return "waiting on a condition";
            case St::Sem: return "waiting on a POSIX semaphore";
            case St::Rw: return "waiting for a rwlock";
            case St::Sleep: return "sleeping";
            case St::WaitQ: return "waiting for quiescence";
            case St::Done: return "done";
            default: return "running";
        }
    }

    static inline bool stalled( int f ) { return f == victim && gSteps < stallUntil; }

    // Chooses the fiber to run next; the current one may or may not be able to go on. Returns only when "cur" runs again.
    static void reschedule( bool yielding = false )
    {
        Eng eng;
        ++gSteps;
        if ( gSteps > hardLimit ) fail( "no progress: %llu scheduling steps without finishing (livelock)", (unsigned long long)gSteps );
        int list[ NF ], n = 0;
        for ( ;; )
        {
            n = 0;
            if ( !yielding && enabled( cur ) ) list[ n++ ] = cur;
            for ( int k = 1; k != nF; ++k ) { int i = ( cur + k ) % nF; if ( enabled( i ) ) list[ n++ ] = i; }
            if ( yielding && enabled( cur ) ) list[ n++ ] = cur;
            if ( n ) break;
            // Nothing can run: virtual time advances to the first sleeper.
            int s = -1;
            for ( int i = 0; i != nF; ++i )
            {
                bool sl = F[ i ].st == St::Sleep || ( F[ i ].timed && ( F[ i ].st == St::Cond || F[ i ].st == St::Mutex || F[ i ].st == St::Sem ) && !F[ i ].timedOut );
                if ( sl && ( s < 0 || F[ i ].wake < F[ s ].wake ) ) s = i;
            }
            if ( s >= 0 )
            {
                gVtime = std::max( gVtime, F[ s ].wake );
                // What was quiet for a whole sleep has long happened (timing assumption stated in DESIGN.md).
                for ( int i = 0; i != nF; ++i ) F[ s ].vc.join( F[ i ].vc );
                if ( F[ s ].st == St::Sleep ) F[ s ].st = St::Run;
                else if ( F[ s ].st == St::Cond ) { F[ s ].condWoken = true; F[ s ].timedOut = true; auto & w = conds[ F[ s ].obj ].waiters; w.erase( std::remove( w.begin(), w.end(), s ), w.end() ); }
                else { F[ s ].timedOut = true; F[ s ].st = St::Run; }
                continue;
            }
            if ( F[ 0 ].st == St::WaitQ ) { F[ 0 ].st = St::Run; continue; }
            std::string d;
            for ( int i = 0; i != nF; ++i ) if ( F[ i ].st != St::Done ) d += " thread " + std::to_string( i ) + " " + stName( F[ i ].st ) + ";";
            fail( "deadlock:%s", d.c_str() );
        }
        uint32_t v = 0;
        if ( n > 1 )
        {
            uint32_t prop = 0;
            if ( !C->schedule.replay )
            {
                auto & r = C->schedRng;
                if ( strategy == 2 )
                {
                    if ( cur == victim && stallAt && !--stallAt ) stallUntil = gSteps + stallFor;
                    bool forced = list[ 0 ] != cur || stalled( list[ 0 ] );
                    if ( forced || r.below( 64 ) < switchNum ) prop = uint32_t( r.below( uint64_t( n ) ) );
                    for ( int k = 0; k != n && stalled( list[ prop ] ); ++k ) prop = ( prop + 1 ) % uint32_t( n );
                }
                else if ( strategy == 0 )
                {
                    bool forced = list[ 0 ] != cur;
                    if ( forced || r.below( 64 ) < switchNum ) prop = uint32_t( r.below( uint64_t( n ) ) );
                }
                else
                {
                    if ( !changePoints.empty() && gSteps >= changePoints.back() )
                    { changePoints.pop_back(); F[ cur ].prio = uint32_t( changePoints.size() ); }
                    if ( yielding ) F[ cur ].prio = 0;
                    for ( int k = 1; k != n; ++k ) if ( F[ list[ k ] ].prio > F[ list[ prop ] ].prio ) prop = uint32_t( k );
                }
            }
            v = C->schedule.decide( uint32_t( n ), prop );
            if ( gSteps > softLimit ) v = uint32_t( ( gSteps * 2654435761u >> 7 ) % uint32_t( n ) );
        }
        resume( list[ v ] );
    }

    static inline bool inSut() { return cur >= 0 && F[ cur ].sut; }

    void point() { if ( cur >= 0 ) reschedule(); }
    static inline void spoint() { if ( inSut() ) { ++F[ cur ].work; reschedule(); } }

    bool flip( unsigned num, unsigned den )
    {
        Eng eng;
        uint32_t p = C->schedule.replay ? 0 : C->schedRng.below( den ) < num;
        return C->schedule.decide( 2, p ) != 0;
    }

    static inline void finePoint()
    {
        Eng eng;
        auto & s = C->schedule;
        if ( !s.replay )
        {
            bool stop = strategy == 2 && cur == victim && stallAt && !--stallAt;
            if ( stop ) stallUntil = gSteps + stallFor;
            if ( !stop && --fineCount ) { ++s.pos; return; }
            fineCount = 1 + C->schedRng.below( 2 * fineMean );
        }
        else if ( !s.given.count( s.pos ) ) { ++s.pos; return; }
        int list[ NF ]; int n = 0; list[ n++ ] = cur;
        for ( int k = 1; k != nF; ++k ) { int i = ( cur + k ) % nF; if ( enabled( i ) ) list[ n++ ] = i; }
        uint32_t prop = s.replay ? 0 : uint32_t( C->schedRng.below( uint64_t( n ) ) );
        if ( !s.replay && strategy == 2 ) for ( int k = 0; k != n && stalled( list[ prop ] ); ++k ) prop = ( prop + 1 ) % uint32_t( n );
        uint32_t v = s.decide( uint32_t( n ), prop );
        ++gSteps;
        if ( v ) resume( list[ v ] );
    }

    static void plain( const void * p, size_t n, bool w )
    {
        if ( !inSut() ) return;
        F[ cur ].work += 1 + n / 8;
        if ( gFine && !onStack( p ) ) finePoint();
        access( p, n, w, false );
    }

    static void fiberMain()
    {
        Fiber & f = F[ cur ];
        try { f.fn(); }
        catch ( const std::exception & e ) { fail( "unexpected exception in thread %d: %s", cur, e.what() ); }
        catch ( ... ) { fail( "unexpected exception of unknown type in thread %d", cur ); }
        f.sut = 0;
        while ( !f.atExit.empty() )
        {
            auto x = f.atExit.back(); f.atExit.pop_back();
            ds::Sut s; x.first( x.second );
        }
        f.st = St::Done;
        if ( cur == 0 ) toEngine();
        reschedule();
        __builtin_unreachable();
    }

    static char * stacks[ NF ];

    static void initFiber( int i, std::function< void() > fn )
    {
        Fiber & f = F[ i ];
        if ( !stacks[ i ] )
        {
            stacks[ i ] = (char *)mmap( nullptr, StackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
            mprotect( stacks[ i ], 4096, PROT_NONE );
        }
        f = Fiber{};
        f.stack = stacks[ i ];
        f.fn = std::move( fn );
        f.st = St::Run;
        f.tls = tlsInit;
        void ** sp = (void **)( f.stack + StackSize - 64 );
        *--sp = nullptr;                        // return address of fiberMain (alignment: rsp%16==8 on entry)
        *--sp = (void *)fiberMain;
        for ( int k = 0; k != 6; ++k ) *--sp = nullptr;
        f.sp = sp;
        f.prio = C->schedule.replay ? 0 : uint32_t( 100 + C->schedRng.below( 1000 ) );
    }

    static void onTerminate()
    {
        if ( cur >= 0 ) fail( "std::terminate was called in thread %d", cur );
        abort();
    }

    static void runCase( pbt::PropFn fn, Case & c )
    {
        static bool once = false;
        if ( !once )
        {
            once = true;
            arena = (char *)mmap( nullptr, ArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
            shadow = (uint8_t *)mmap( nullptr, ArenaSize / 8 + 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
            blks = new std::vector< Blk >;
            cells = (Cell *)mmap( nullptr, ArenaSize * sizeof( Cell ), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
            dl_iterate_phdr( phdrCb, nullptr );
            tlsInit.assign( tlsBase, tlsBase + tlsSize );
            std::set_terminate( onTerminate );
        }
        C = &c;
        memset( shadow, 0, arenaUsed / 8 + 32 );
        arenaUsed = 0; blks->clear(); nAlloc = nFree = nLive = 0; failAt = -1; failedAlloc = false; failInitAt = -1; failedInit = false;
        ++epoch; imageCells.clear(); mutexes.clear(); conds.clear(); sems.clear(); rws.clear(); atomics.clear(); inited.clear();
        faults.clear(); calls[ 0 ] = calls[ 1 ] = calls[ 2 ] = 0;
        gFine = gRaces = false; gSpurious = true; gTick = gSteps = 0; softLimit = 6000; hardLimit = 60000; gVtime = 1000000000ull;
        nF = 1; gStats = Stats{};
        auto & r = c.schedRng;
        { auto x = r.below( 8 ); strategy = x < 2 ? 1 : x < 4 ? 2 : 0; }
        victim = -1; stallAt = stallFor = stallUntil = 0;
        static const unsigned sw[] = { 4, 8, 16, 32, 48, 64 };
        switchNum = sw[ r.below( 6 ) ];
        static const unsigned fm[] = { 4, 15, 60, 200 };
        fineMean = fm[ r.below( 4 ) ];
        fineCount = 1 + r.below( 2 * fineMean );
        changePoints.clear();
        if ( strategy == 2 )
        {
            static const unsigned at[] = { 6, 20, 60, 200, 1000 }, len[] = { 30, 150, 800, 4000, 1000000 };
            victim = 1 + int( r.below( 5 ) );
            stallAt = 1 + r.below( at[ r.below( 5 ) ] );
            stallFor = 1 + r.below( len[ r.below( 5 ) ] );
        }
        if ( strategy == 1 )
        {
            static const unsigned span[] = { 60, 150, 150, 400, 2000 };
            unsigned sp = span[ r.below( 5 ) ];
            unsigned d = unsigned( r.below( 5 ) );
            for ( unsigned k = 0; k != d; ++k ) changePoints.push_back( 1 + r.below( sp ) );
            std::sort( changePoints.rbegin(), changePoints.rend() );
        }
        initFiber( 0, [ fn, &c ]() { fn( c ); } );
        char eh[ 16 ]; memcpy( eh, abi::__cxa_get_globals(), 16 );
        cur = 0;
        swapIn( F[ 0 ] );
        ds_switch( &engineSp, F[ 0 ].sp );
        cur = -1;
        memcpy( (void *)abi::__cxa_get_globals(), eh, 16 );
        if ( !c.failed() && F[ 0 ].st == St::Done )
            for ( int i = 1; i != nF; ++i )
                if ( F[ i ].st != St::Done && !c.failed() ) c.fail( "thread %d never finished (%s)", i, stName( F[ i ].st ) );
        C = nullptr;
    }

    static struct Hook { Hook() { pbt::runHook = runCase; } } hook;

    // --- API
    void fine( bool on ) { gFine = on; }
    void races( bool on ) { gRaces = on; }
    void spurious( bool on ) { gSpurious = on; }
    int spawn( std::function< void() > f )
    {
        Eng eng;
        if ( nF == NF ) fail( "harness: too many threads" );
        int i = nF++;
        initFiber( i, std::move( f ) );
        F[ i ].vc = F[ cur ].vc; ++F[ i ].vc.c[ i ];
        ++F[ cur ].vc.c[ cur ];
        return i;
    }
    void waitQuiescent()
    {
        F[ 0 ].st = St::WaitQ;
        reschedule();
        for ( int i = 1; i != nF; ++i ) if ( F[ i ].st == St::Done ) F[ 0 ].vc.join( F[ i ].vc );
    }
    bool done( int i ) { return F[ i ].st == St::Done; }
    bool blocked( int i ) { return F[ i ].st != St::Done; }
    bool allDone() { for ( int i = 1; i != nF; ++i ) if ( F[ i ].st != St::Done ) return false; return true; }
    std::string where( int i ) { return stName( F[ i ].st ); }
    int self() { return cur; }
    uint64_t tick() { return ++gTick; }
    uint64_t steps() { return gSteps; }
    void patience( uint64_t n ) { softLimit = n / 10; hardLimit = n; }
    uint64_t work( int f ) { return F[ f < 0 ? cur : f ].work; }
    Stats stats() { return gStats; }
    Sut::Sut() : saved{ F[ cur ].sut } { F[ cur ].sut = 1; }
    Sut::~Sut() { F[ cur ].sut = saved; }
    Quiet::Quiet() : saved{ F[ cur ].sut } { F[ cur ].sut = 0; }
    Quiet::~Quiet() { F[ cur ].sut = saved; }
    std::vector< MutexInfo > mutexesInitialised() { return inited; }
    void failAllocation( int64_t n ) { failAt = n; failedAlloc = false; }
    bool allocationFailed() { return failedAlloc; }
    void failInit( int64_t n, int e ) { failInitAt = n; failInitErr = e; failedInit = false; }
    bool initFailed() { return failedInit; }
    size_t condsLive() { size_t n = 0; for ( auto & x : conds ) n += x.second.inited && !x.second.destroyed; return n; }
    int mutexOwner( const void * a ) { auto it = mutexes.find( a ); return it == mutexes.end() || it->second.destroyed ? -2 : it->second.owner; }
    void inject( FaultKind k, unsigned n, int e, const void * addr ) {
        Eng eng; faults.push_back( Fault{ k, n, e, cur, addr } ); }
    size_t faultsLeft() { size_t n = 0; for ( auto & f : faults ) n += f.fiber == cur; return n; }
    void clearFaults() { faults.erase( std::remove_if( faults.begin(), faults.end(), []( const Fault & f ) { return f.fiber == cur; } ), faults.end() ); }
    uint64_t callCount( FaultKind k ) { return calls[ k ]; }

    static int faultFor( int k, const void * p )
    {
        ++calls[ k ];
        for ( auto it = faults.begin(); it != faults.end(); ++it )
            if ( it->kind == k && it->fiber == cur && ( !it->addr || it->addr == p ) )
            {
                if ( it->n == 0 ) { int e = it->e; faults.erase( it ); return e; }
                --it->n;
                return 0;
            }
        return 0;
    }

    // --- Happens-before helpers
    static void release( VC & v ) { v.join( F[ cur ].vc ); ++F[ cur ].vc.c[ cur ]; }
    static void acquire( const VC & v ) { F[ cur ].vc.join( v ); }

    // Still as the allocator left it?
    static bool untouched( const void * p, size_t n )
    {
        for ( size_t i = 0; i != n; ++i ) if ( static_cast< const unsigned char * >( p )[ i ] != 0xCD ) return false;
        return true;
    }
    // --- Mutex
    static MutexObj & mtx( const void * p )
    {
        if ( inArenaI( p ) ) if ( const char * b = badAccess( p, sizeof( pthread_mutex_t ) ) ) fail( "mutex operation on %s", b );
        auto & m = mutexes[ p ];
        if ( !m.inited && inArenaI( p ) && untouched( p, sizeof( pthread_mutex_t ) ) ) fail( "a mutex was used which nobody has initialised" );
        // A statically initialised mutex of the code under test.
        if ( !m.inited && inSut() && ( inArenaI( p ) || inImage( p ) ) ) { m.inited = true; inited.push_back( MutexInfo{ p, 0, false } ); }
        if ( m.destroyed ) fail( "use of a destroyed mutex by thread %d", cur );
        return m;
    }
    static int mutexLock( pthread_mutex_t * p, bool timed, uint64_t deadline )
    {
        Eng eng;
        if ( inSut() ) if ( int e = faultFor( FLock, p ) ) return e;
        spoint();
        MutexObj & m = mtx( p );
        if ( m.owner == cur )
        {
            if ( m.type == PTHREAD_MUTEX_RECURSIVE ) { ++m.depth; return 0; }
            if ( m.type == PTHREAD_MUTEX_ERRORCHECK ) return EDEADLK;
        }
        Fiber & f = F[ cur ];
        while ( m.owner >= 0 )
        {
            f.st = St::Mutex; f.mtx = &m; f.obj = f.mtxAddr = p; ++gStats.mutexWaits; f.timed = timed; f.wake = deadline; f.timedOut = false;
            reschedule();
            f.st = St::Run;
            if ( timed && f.timedOut && m.owner >= 0 ) { f.timed = false; return ETIMEDOUT; }
            if ( m.destroyed ) fail( "a mutex was destroyed while thread %d was waiting for it", cur );
        }
        f.timed = false;
        m.owner = cur; m.depth = 1;
        acquire( m.vc );
        return 0;
    }
    static int mutexUnlock( pthread_mutex_t * p )
    {
        Eng eng;
        if ( inSut() ) if ( int e = faultFor( FUnlock, p ) ) return e;
        spoint();
        MutexObj & m = mtx( p );
        if ( m.owner != cur )
        {
            if ( m.type == PTHREAD_MUTEX_NORMAL ) fail( "unlock of a mutex that thread %d does not hold (%s)", cur, m.owner < 0 ? "it is free" : "another thread holds it" );
            return EPERM;
        }
        if ( --m.depth ) return 0;
        release( m.vc );
        m.owner = -1;
        spoint();
        return 0;
    }
    static CondObj & cnd( pthread_cond_t * p )
    {
        auto it = conds.find( p );
        if ( it != conds.end() ) return it->second;
        if ( inArenaI( p ) && untouched( p, sizeof *p ) ) fail( "a condition variable was used which nobody has initialised" );
        return conds[ p ];
    }
    static void condWait( pthread_cond_t * cp, pthread_mutex_t * mp, bool timed, uint64_t deadline, int & rc )
    {
        Eng eng;
        spoint();
        if ( inArenaI( cp ) ) if ( const char * b = badAccess( cp, sizeof( pthread_cond_t ) ) ) fail( "condition operation on %s", b );
        auto & c = cnd( cp );
        if ( c.destroyed ) fail( "wait on a destroyed condition variable by thread %d", cur );
        MutexObj & m = mtx( mp );
        if ( m.owner != cur ) fail( "condition wait without holding the mutex (thread %d)", cur );
        int depth = m.depth;
        release( m.vc );
        m.owner = -1; m.depth = 0;
        Fiber & f = F[ cur ];
        f.st = St::Cond; f.obj = cp; f.mtx = &m; f.mtxAddr = mp; ++gStats.condWaits; f.condWoken = false; f.timed = timed; f.wake = deadline; f.timedOut = false;
        if ( gSpurious && inSut() && flip( 1, 24 ) ) f.condWoken = true; else c.waiters.push_back( cur );
        reschedule();
        f.st = St::Run; f.timed = false;
        if ( m.destroyed ) fail( "a mutex was destroyed while thread %d was waiting for it", cur );
        if ( m.owner >= 0 ) fail( "harness: condition wait resumed without the mutex" );
        m.owner = cur; m.depth = depth;
        acquire( m.vc );
        rc = f.timedOut ? ETIMEDOUT : 0;
    }
    static void condWake( pthread_cond_t * cp, bool all )
    {
        Eng eng;
        spoint();
        if ( inArenaI( cp ) ) if ( const char * b = badAccess( cp, sizeof( pthread_cond_t ) ) ) fail( "condition operation on %s", b );
        auto & c = cnd( cp );
        if ( c.destroyed ) fail( "signal of a destroyed condition variable by thread %d", cur );
        while ( !c.waiters.empty() )
        {
            uint32_t n = uint32_t( c.waiters.size() );
            uint32_t v = 0;
            if ( !all && n > 1 ) v = C->schedule.decide( n, C->schedule.replay ? 0 : uint32_t( C->schedRng.below( n ) ) );
            F[ c.waiters[ v ] ].condWoken = true;
            c.waiters.erase( c.waiters.begin() + v );
            if ( !all ) break;
        }
    }
    static void sleepNs( uint64_t ns )
    {
        Eng eng;
        Fiber & f = F[ cur ];
        f.st = St::Sleep; f.wake = gVtime + ns; f.timed = false;
        reschedule();
        f.st = St::Run;
    }
    static uint64_t absToV( clockid_t, const timespec * t ) { return uint64_t( t->tv_sec ) * 1000000000ull + uint64_t( t->tv_nsec ); }
}

using namespace ds;

// ---------------------------------------------------------------------------------------------------------------------
// pthread interposition. Outside of a fiber the real functions are used.
template< class Fn > static Fn realFn( const char * n ) { return reinterpret_cast< Fn >( dlsym( RTLD_NEXT, n ) ); }
#define REAL( name ) static auto real = realFn< decltype( &name ) >( #name )

// Attribute objects that are initialised at present, wherever they are.
static const void * attrs[ 64 ];
static size_t nAttrs = 0;
static bool attrKnown( const void * a ) { for ( size_t i = 0; i != nAttrs; ++i ) if ( attrs[ i ] == a ) return true; return false; }
static void attrAdd( const void * a ) { if ( !attrKnown( a ) && nAttrs < 64 ) attrs[ nAttrs++ ] = a; }
static void attrDrop( const void * a ) { for ( size_t i = 0; i != nAttrs; ++i ) if ( attrs[ i ] == a ) { attrs[ i ] = attrs[ --nAttrs ]; return; } }
static void attrCheck( const void * a ) { if ( cur >= 0 && inSut() && nAttrs < 64 && !attrKnown( a ) ) fail( "a mutex attribute was used which nobody has initialised" ); }

extern "C"
{
    int pthread_mutexattr_init( pthread_mutexattr_t * a ) { REAL( pthread_mutexattr_init ); attrAdd( a ); return real( a ); }
    int pthread_mutexattr_destroy( pthread_mutexattr_t * a ) { REAL( pthread_mutexattr_destroy ); attrDrop( a ); return real( a ); }
    int pthread_mutexattr_setprotocol( pthread_mutexattr_t * a, int p ) { REAL( pthread_mutexattr_setprotocol ); attrCheck( a ); return real( a, p ); }
    int pthread_mutexattr_settype( pthread_mutexattr_t * a, int p ) { REAL( pthread_mutexattr_settype ); attrCheck( a ); return real( a, p ); }
    int pthread_mutex_init( pthread_mutex_t * m, const pthread_mutexattr_t * a )
    {
        Eng eng;
        REAL( pthread_mutex_init );
        if ( cur < 0 ) return real( m, a );
        if ( a ) attrCheck( a );
        if ( inArenaI( m ) ) if ( const char * b = badAccess( m, sizeof *m ) ) fail( "mutex initialised in %s", b );
        if ( inSut() && failInitAt >= 0 && failInitAt-- == 0 ) { failedInit = true; return failInitErr; }
        MutexObj o; o.inited = true;
        if ( a ) { pthread_mutexattr_gettype( a, &o.type ); pthread_mutexattr_getprotocol( a, &o.protocol ); }
        if ( o.type != PTHREAD_MUTEX_RECURSIVE && o.type != PTHREAD_MUTEX_ERRORCHECK ) o.type = PTHREAD_MUTEX_NORMAL;
        mutexes[ m ] = o;
        inited.push_back( MutexInfo{ m, o.protocol, true } );
        real( m, a );
        return 0;
    }
    int pthread_mutex_destroy( pthread_mutex_t * m )
    {
        Eng eng;
        REAL( pthread_mutex_destroy );
        if ( cur < 0 ) return real( m );
        MutexObj & o = mtx( m );
        if ( o.owner >= 0 ) fail( "a mutex was destroyed while thread %d holds it", o.owner );
        for ( int i = 0; i != nF; ++i ) if ( ( F[ i ].st == St::Mutex || F[ i ].st == St::Cond ) && F[ i ].mtx == &o ) fail( "a mutex was destroyed while thread %d was waiting (%s)", i, stName( F[ i ].st ) );
        o.destroyed = true;
        for ( auto & x : inited ) if ( x.addr == m ) x.live = false;
        return 0;
    }
    int pthread_mutex_lock( pthread_mutex_t * m )
    {
        REAL( pthread_mutex_lock );
        return cur < 0 ? real( m ) : mutexLock( m, false, 0 );
    }
    int pthread_mutex_timedlock( pthread_mutex_t * m, const timespec * t )
    {
        REAL( pthread_mutex_timedlock );
        return cur < 0 ? real( m, t ) : mutexLock( m, true, absToV( CLOCK_REALTIME, t ) );
    }
    int pthread_mutex_clocklock( pthread_mutex_t * m, clockid_t c, const timespec * t )
    {
        REAL( pthread_mutex_clocklock );
        return cur < 0 ? real( m, c, t ) : mutexLock( m, true, absToV( c, t ) );
    }
    int pthread_mutex_trylock( pthread_mutex_t * p )
    {
        Eng eng;
        REAL( pthread_mutex_trylock );
        if ( cur < 0 ) return real( p );
        if ( inSut() ) if ( int e = faultFor( FTryLock, p ) ) return e;
        spoint();
        MutexObj & m = mtx( p );
        if ( m.owner == cur && m.type == PTHREAD_MUTEX_RECURSIVE ) { ++m.depth; return 0; }
        if ( m.owner >= 0 ) return EBUSY;
        m.owner = cur; m.depth = 1;
        acquire( m.vc );
        return 0;
    }
    int pthread_mutex_unlock( pthread_mutex_t * m )
    {
        REAL( pthread_mutex_unlock );
        return cur < 0 ? real( m ) : mutexUnlock( m );
    }
    int pthread_cond_init( pthread_cond_t * c, const pthread_condattr_t * a )
    {
        Eng eng;
        REAL( pthread_cond_init );
        if ( cur < 0 ) return real( c, a );
        if ( inSut() && failInitAt >= 0 && failInitAt-- == 0 ) { failedInit = true; return failInitErr; }
        conds[ c ] = CondObj{}; conds[ c ].inited = inSut();
        return real( c, a );
    }
    int pthread_cond_destroy( pthread_cond_t * c )
    {
        Eng eng;
        REAL( pthread_cond_destroy );
        if ( cur < 0 ) return real( c );
        auto & o = cnd( c );
        if ( !o.waiters.empty() ) fail( "a condition variable was destroyed while thread %d waits on it", o.waiters[ 0 ] );
        o.destroyed = true;
        return 0;
    }
    int pthread_cond_wait( pthread_cond_t * c, pthread_mutex_t * m )
    {
        REAL( pthread_cond_wait );
        if ( cur < 0 ) return real( c, m );
        int rc = 0; condWait( c, m, false, 0, rc ); return 0;
    }
    int pthread_cond_timedwait( pthread_cond_t * c, pthread_mutex_t * m, const timespec * t )
    {
        REAL( pthread_cond_timedwait );
        if ( cur < 0 ) return real( c, m, t );
        int rc = 0; condWait( c, m, true, absToV( CLOCK_REALTIME, t ), rc ); return rc;
    }
    int pthread_cond_clockwait( pthread_cond_t * c, pthread_mutex_t * m, clockid_t id, const timespec * t )
    {
        REAL( pthread_cond_clockwait );
        if ( cur < 0 ) return real( c, m, id, t );
        int rc = 0; condWait( c, m, true, absToV( id, t ), rc ); return rc;
    }
    int pthread_cond_signal( pthread_cond_t * c )
    {
        REAL( pthread_cond_signal );
        if ( cur < 0 ) return real( c );
        condWake( c, false ); return 0;
    }
    int pthread_cond_broadcast( pthread_cond_t * c )
    {
        REAL( pthread_cond_broadcast );
        if ( cur < 0 ) return real( c );
        condWake( c, true ); return 0;
    }
    // The rwlock functions
    static int rwLock( pthread_rwlock_t * p, int want, bool tryOnly )
    {
        Eng eng;
        spoint();
        auto & r = rws[ p ];
        Fiber & f = F[ cur ];
        auto free = [ & ]() { return want == 2 ? r.writer < 0 && r.readers == 0 : r.writer < 0; };
        if ( tryOnly && !free() ) return EBUSY;
        while ( !free() ) { f.st = St::Rw; f.obj = p; f.rwWant = want; reschedule(); f.st = St::Run; }
        if ( want == 2 ) r.writer = cur; else ++r.readers;
        acquire( r.vc );
        return 0;
    }
    int pthread_rwlock_init( pthread_rwlock_t * p, const pthread_rwlockattr_t * a ) {
        Eng eng; REAL( pthread_rwlock_init ); if ( cur >= 0 ) rws[ p ] = RwObj{}; return real( p, a ); }
    int pthread_rwlock_destroy( pthread_rwlock_t * p ) { REAL( pthread_rwlock_destroy ); if ( cur >= 0 ) { rws.erase( p ); return 0; } return real( p ); }
    int pthread_rwlock_rdlock( pthread_rwlock_t * p ) { REAL( pthread_rwlock_rdlock ); return cur < 0 ? real( p ) : rwLock( p, 1, false ); }
    int pthread_rwlock_wrlock( pthread_rwlock_t * p ) { REAL( pthread_rwlock_wrlock ); return cur < 0 ? real( p ) : rwLock( p, 2, false ); }
    int pthread_rwlock_tryrdlock( pthread_rwlock_t * p ) { REAL( pthread_rwlock_tryrdlock ); return cur < 0 ? real( p ) : rwLock( p, 1, true ); }
    int pthread_rwlock_trywrlock( pthread_rwlock_t * p ) { REAL( pthread_rwlock_trywrlock ); return cur < 0 ? real( p ) : rwLock( p, 2, true ); }
    int pthread_rwlock_unlock( pthread_rwlock_t * p )
    {
        Eng eng;
        REAL( pthread_rwlock_unlock );
        if ( cur < 0 ) return real( p );
        spoint();
        auto & r = rws[ p ];
        release( r.vc );
        if ( r.writer == cur ) r.writer = -1; else if ( r.readers > 0 ) --r.readers; else fail( "unlock of a rwlock that is not held" );
        spoint();
        return 0;
    }
    // Spin locks: modelled as mutexes.
    int pthread_spin_init( pthread_spinlock_t * p, int s ) {
        Eng eng; REAL( pthread_spin_init ); if ( cur < 0 ) return real( p, s ); mutexes[ (const void *)p ] = MutexObj{}; return 0; }
    int pthread_spin_destroy( pthread_spinlock_t * p ) { REAL( pthread_spin_destroy ); if ( cur < 0 ) return real( p ); mutexes.erase( (const void *)p ); return 0; }
    int pthread_spin_lock( pthread_spinlock_t * p ) { REAL( pthread_spin_lock ); if ( cur < 0 ) return real( p ); return mutexLock( (pthread_mutex_t *)(void *)p, false, 0 ); }
    int pthread_spin_unlock( pthread_spinlock_t * p ) { REAL( pthread_spin_unlock ); if ( cur < 0 ) return real( p ); return mutexUnlock( (pthread_mutex_t *)(void *)p ); }
    int pthread_spin_trylock( pthread_spinlock_t * p ) {
        Eng eng; REAL( pthread_spin_trylock ); if ( cur < 0 ) return real( p ); spoint(); auto & m = mutexes[ (const void *)p ]; if ( m.owner >= 0 ) return EBUSY; m.owner = cur; m.depth = 1; acquire( m.vc ); return 0; }
    // POSIX semaphores
    int sem_init( sem_t * s, int sh, unsigned v ) {
        Eng eng; REAL( sem_init ); if ( cur < 0 ) return real( s, sh, v ); SemObj o; o.v = long( v ); sems[ s ] = o; return 0; }
    int sem_destroy( sem_t * s ) { REAL( sem_destroy ); if ( cur < 0 ) return real( s ); sems.erase( s ); return 0; }
    int sem_post( sem_t * s ) {
        Eng eng; REAL( sem_post ); if ( cur < 0 ) return real( s ); spoint(); auto & o = sems[ s ]; release( o.vc ); ++o.v; return 0; }
    static int semWait( sem_t * s, bool timed, uint64_t dl )
    {
        Eng eng;
        spoint();
        Fiber & f = F[ cur ];
        while ( sems[ s ].v <= 0 )
        {
            f.st = St::Sem; f.obj = s; f.timed = timed; f.wake = dl; f.timedOut = false;
            reschedule();
            f.st = St::Run;
            if ( timed && f.timedOut && sems[ s ].v <= 0 ) { f.timed = false; errno = ETIMEDOUT; return -1; }
        }
        f.timed = false;
        --sems[ s ].v; acquire( sems[ s ].vc );
        return 0;
    }
    int sem_wait( sem_t * s ) { REAL( sem_wait ); return cur < 0 ? real( s ) : semWait( s, false, 0 ); }
    int sem_timedwait( sem_t * s, const timespec * t ) { REAL( sem_timedwait ); return cur < 0 ? real( s, t ) : semWait( s, true, absToV( CLOCK_REALTIME, t ) ); }
    int sem_trywait( sem_t * s ) {
        Eng eng; REAL( sem_trywait ); if ( cur < 0 ) return real( s ); spoint(); auto & o = sems[ s ]; if ( o.v <= 0 ) { errno = EAGAIN; return -1; } --o.v; acquire( o.vc ); return 0; }
    int sem_getvalue( sem_t * s, int * v ) {
        Eng eng; REAL( sem_getvalue ); if ( cur < 0 ) return real( s, v ); spoint(); *v = int( sems[ s ].v ); return 0; }

    // Time
    int nanosleep( const timespec * t, timespec * r )
    {
        REAL( nanosleep );
        if ( cur < 0 ) return real( t, r );
        sleepNs( uint64_t( t->tv_sec ) * 1000000000ull + uint64_t( t->tv_nsec ) ); return 0;
    }
    int clock_nanosleep( clockid_t id, int fl, const timespec * t, timespec * r )
    {
        REAL( clock_nanosleep );
        if ( cur < 0 ) return real( id, fl, t, r );
        uint64_t ns = uint64_t( t->tv_sec ) * 1000000000ull + uint64_t( t->tv_nsec );
        if ( fl & TIMER_ABSTIME ) ns = ns > gVtime ? ns - gVtime : 0;
        sleepNs( ns ); return 0;
    }
    int usleep( useconds_t us ) { REAL( usleep ); if ( cur < 0 ) return real( us ); sleepNs( uint64_t( us ) * 1000 ); return 0; }
    unsigned sleep( unsigned s ) { REAL( sleep ); if ( cur < 0 ) return real( s ); sleepNs( uint64_t( s ) * 1000000000ull ); return 0; }
    int clock_gettime( clockid_t id, timespec * t )
    {
        REAL( clock_gettime );
        if ( cur < 0 ) return real( id, t );
        gVtime += 20000;
        t->tv_sec = time_t( gVtime / 1000000000ull ); t->tv_nsec = long( gVtime % 1000000000ull );
        return 0;
    }
    int pthread_once( pthread_once_t * o, void ( * f )() )
    {
        REAL( pthread_once );
        if ( cur < 0 ) return real( o, f );
        volatile int * st = (volatile int *)o;      // 0 not yet, 1 running, 2 done
        for ( ;; )
        {
            { Eng eng; while ( *st == 1 ) reschedule( true ); }
            if ( *st == 2 ) { Eng eng; acquire( atomics[ o ] ); return 0; }
            struct Undo { volatile int * st; ~Undo() { if ( st ) *st = 0; } } undo{ st };
            *st = 1;
            f();
            undo.st = nullptr;
            *st = 2;
            Eng eng; release( atomics[ o ] );
            return 0;
        }
    }
    int sched_yield() { REAL( sched_yield ); if ( cur < 0 ) return real(); if ( inSut() ) reschedule( true ); return 0; }
    pthread_t pthread_self() { REAL( pthread_self ); return cur < 0 ? real() : pthread_t( 0x1000 + cur ); }
    int pthread_create( pthread_t * a, const pthread_attr_t * b, void * ( *fn )( void * ), void * d )
    {
        REAL( pthread_create );
        if ( cur >= 0 ) fail( "harness limit: the code under test starts threads of its own" );
        return real( a, b, fn, d );
    }
}

// ---------------------------------------------------------------------------------------------------------------------
// Allocation
extern "C"
{
    void * __libc_malloc( size_t );
    void * __libc_calloc( size_t, size_t );
    void * __libc_realloc( void *, size_t );
    void * __libc_memalign( size_t, size_t );
    void __libc_free( void * );
}
static void * doNew( size_t n, size_t al = 16 )
{
    // What function-local statics are initialised with outlives the case.
    if ( cur >= 0 && F[ cur ].sut && !F[ cur ].eng && !F[ cur ].inStatic )
    {
        ++nAlloc; ++F[ cur ].heap;
        if ( failAt >= 0 && failAt-- == 0 ) { failedAlloc = true; throw std::bad_alloc{}; }
        if ( void * p = arenaAlloc( n, al < 16 ? 16 : al ) ) return p;
    }
    if ( cur >= 0 && F[ cur ].sut && !F[ cur ].eng ) ++F[ cur ].heap;
    void * p = al > 16 ? __libc_memalign( al, n ) : __libc_malloc( n ? n : 1 );
    if ( !p ) throw std::bad_alloc{};
    return p;
}
static void * tryNew( size_t n, size_t al = 16 ) noexcept { try { return doNew( n, al ); } catch ( const std::bad_alloc & ) { return nullptr; } }
static void doDelete( void * p )
{
    if ( !p ) return;
    if ( inArenaI( p ) ) { if ( cur >= 0 ) { if ( F[ cur ].sut && !F[ cur ].eng ) { ++nFree; ++F[ cur ].heap; } arenaFree( p ); } }
    else __libc_free( p );
}
// The C allocator, as far as the code under test calls it itself (not from within the C or C++ library).
static bool ours( void * ret ) { return cur >= 0 && F[ cur ].sut && !F[ cur ].eng && (char *)ret >= &__executable_start && (char *)ret < &etext; }
extern "C"
{
    void * malloc( size_t n ) { return ours( __builtin_return_address( 0 ) ) ? tryNew( n ) : __libc_malloc( n ); }
    void * calloc( size_t n, size_t m )
    {
        if ( !ours( __builtin_return_address( 0 ) ) ) return __libc_calloc( n, m );
        if ( m && n > SIZE_MAX / m ) return nullptr;
        void * p = tryNew( n * m );
        return p ? memset( p, 0, n * m ) : p;
    }
    void * aligned_alloc( size_t a, size_t n ) { return ours( __builtin_return_address( 0 ) ) ? tryNew( n, a ) : __libc_memalign( a, n ); }
    int posix_memalign( void ** p, size_t a, size_t n ) { void * q = ours( __builtin_return_address( 0 ) ) ? tryNew( n, a ) : __libc_memalign( a, n ); if ( !q ) return 12; *p = q; return 0; }
    void * realloc( void * p, size_t n )
    {
        if ( !inArenaI( p ) && ( p || !ours( __builtin_return_address( 0 ) ) ) ) return __libc_realloc( p, n );
        void * q = tryNew( n );
        if ( !q ) return q;
        for ( auto & b : *blks ) if ( p && b.off == size_t( (char *)p - arena ) ) memcpy( q, p, std::min( n, b.size ) );
        if ( p ) doDelete( p );
        return q;
    }
    void free( void * p ) { doDelete( p ); }
}
void * operator new( size_t n ) { return doNew( n ); }
void * operator new[]( size_t n ) { return doNew( n ); }
void * operator new( size_t n, const std::nothrow_t & ) noexcept { return tryNew( n ); }
void * operator new[]( size_t n, const std::nothrow_t & ) noexcept { return tryNew( n ); }
void * operator new( size_t n, std::align_val_t a ) { return doNew( n, size_t( a ) ); }
void * operator new[]( size_t n, std::align_val_t a ) { return doNew( n, size_t( a ) ); }
void operator delete( void * p ) noexcept { doDelete( p ); }
void operator delete[]( void * p ) noexcept { doDelete( p ); }
void operator delete( void * p, size_t ) noexcept { doDelete( p ); }
void operator delete[]( void * p, size_t ) noexcept { doDelete( p ); }
void operator delete( void * p, std::align_val_t ) noexcept { doDelete( p ); }
void operator delete[]( void * p, std::align_val_t ) noexcept { doDelete( p ); }
void operator delete( void * p, size_t, std::align_val_t ) noexcept { doDelete( p ); }
void operator delete[]( void * p, size_t, std::align_val_t ) noexcept { doDelete( p ); }

// ---------------------------------------------------------------------------------------------------------------------
// Instrumentation entry points
extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry( void * ) { if ( inSut() ) ++F[ cur ].work; }
    void __tsan_func_exit() {}
    void __sanitizer_cov_trace_pc() { if ( inSut() ) ++F[ cur ].work; }
    void __tsan_ignore_thread_begin() {}
    void __tsan_ignore_thread_end() {}
#define RW( n ) \
    void __tsan_read##n( void * p ) { plain( p, n, false ); } \
    void __tsan_write##n( void * p ) { plain( p, n, true ); } \
    void __tsan_unaligned_read##n( void * p ) { plain( p, n, false ); } \
    void __tsan_unaligned_write##n( void * p ) { plain( p, n, true ); } \
    void __tsan_volatile_read##n( void * p ) { plain( p, n, false ); } \
    void __tsan_volatile_write##n( void * p ) { plain( p, n, true ); } \
    void __tsan_unaligned_volatile_read##n( void * p ) { plain( p, n, false ); } \
    void __tsan_unaligned_volatile_write##n( void * p ) { plain( p, n, true ); } \
    void __tsan_read_write##n( void * p ) { plain( p, n, false ); plain( p, n, true ); } \
    void __tsan_unaligned_read_write##n( void * p ) { plain( p, n, false ); plain( p, n, true ); }
    RW( 1 ) RW( 2 ) RW( 4 ) RW( 8 ) RW( 16 )
    void __tsan_read_range( void * p, unsigned long n ) { if ( n ) plain( p, n, false ); }
    void __tsan_write_range( void * p, unsigned long n ) { if ( n ) plain( p, n, true ); }
    void __tsan_vptr_update( void ** p, void * ) { plain( p, 8, true ); }
    void __tsan_vptr_read( void ** p ) { plain( p, 8, false ); }
    void * __tsan_memset( void * p, int v, unsigned long n )
    {
        if ( n && inSut() )
        {
            // Fine mode may stop half-way.
            if ( gFine && n >= 16 ) { plain( p, n / 2, true ); memset( p, v, n / 2 ); plain( (char *)p + n / 2, n - n / 2, true ); memset( (char *)p + n / 2, v, n - n / 2 ); return p; }
            plain( p, n, true );
        }
        return memset( p, v, n );
    }
    void * __tsan_memcpy( void * d, const void * s, unsigned long n ) { if ( n ) { plain( s, n, false ); plain( d, n, true ); } return memcpy( d, s, n ); }
    void * __tsan_memmove( void * d, const void * s, unsigned long n ) { if ( n ) { plain( s, n, false ); plain( d, n, true ); } return memmove( d, s, n ); }
}

// Function-local statics
namespace __cxxabiv1
{
    extern "C"
    {
        int __cxa_guard_acquire( __guard * g )
        {
            Eng eng;
            uint8_t * b = (uint8_t *)g;
            while ( b[ 1 ] && !b[ 0 ] && cur >= 0 ) reschedule( true );
            if ( b[ 0 ] ) { if ( cur >= 0 ) acquire( atomics[ g ] ); return 0; }
            b[ 1 ] = 1;
            if ( cur >= 0 ) ++F[ cur ].inStatic;
            return 1;
        }
        void __cxa_guard_release( __guard * g ) noexcept
        {
            Eng eng;
            uint8_t * b = (uint8_t *)g;
            b[ 1 ] = 0; b[ 0 ] = 1;
            if ( cur >= 0 ) { --F[ cur ].inStatic; release( atomics[ g ] ); }
        }
        void __cxa_guard_abort( __guard * g ) noexcept { ( (uint8_t *)g )[ 1 ] = 0; if ( cur >= 0 ) --F[ cur ].inStatic; }
        // Destructors of thread_local objects run at the end of their thread.
        int __cxa_thread_atexit( void ( * f )( void * ), void * obj, void * dso ) noexcept
        {
            static auto real = (int (*)( void ( * )( void * ), void *, void * ))dlsym( RTLD_NEXT, "__cxa_thread_atexit" );
            if ( cur < 0 ) return real( f, obj, dso );
            Eng eng;
            F[ cur ].atExit.emplace_back( f, obj );
            return 0;
        }
    }
}

static inline bool isAcq( int mo ) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool isRel( int mo ) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

static void aLoad( const volatile void * p, int mo )
{
        Eng eng;
    if ( !gRaces ) return;
    auto it = atomics.find( (const void *)p );
    if ( it == atomics.end() ) return;
    if ( isAcq( mo ) ) acquire( it->second ); else F[ cur ].acqPend.join( it->second );
}
static void aStore( const volatile void * p, int mo, bool rmw )
{
        Eng eng;
    if ( !gRaces ) return;
    auto & v = atomics[ (const void *)p ];
    if ( !rmw ) v = VC{};
    if ( isRel( mo ) ) release( v ); else v.join( F[ cur ].relFence );
}
static inline bool pre( const volatile void * p, size_t n, bool w )
{
    if ( !inSut() ) return false;
    ++F[ cur ].work;
    reschedule();
    access( (const void *)p, n, w, true );
    return true;
}

template< class T > static T atLoad( const volatile T * p, int mo )
{
    if ( pre( p, sizeof( T ), false ) ) aLoad( p, mo );
    return *p;
}
template< class T > static void atStore( volatile T * p, T v, int mo )
{
    if ( pre( p, sizeof( T ), true ) ) aStore( p, mo, false );
    *p = v;
}
template< class T, class Op > static T atRmw( volatile T * p, int mo, Op op )
{
    if ( pre( p, sizeof( T ), true ) ) { aLoad( p, mo ); aStore( p, mo, true ); }
    T old = *p; *p = op( old ); return old;
}
template< class T > static int atCas( volatile T * p, T * e, T v, int mo, int fmo, bool weak )
{
    bool in = pre( p, sizeof( T ), true );
    bool ok = *p == *e;
    if ( ok && weak && in && flip( 1, 10 ) ) ok = false;
    if ( in ) { aLoad( p, ok ? mo : fmo ); if ( ok ) aStore( p, mo, true ); }
    if ( ok ) { *p = v; return 1; }
    *e = *p; return 0;
}

extern "C"
{
#define AT( bits, T ) \
    T __tsan_atomic##bits##_load( const volatile T * p, int mo ) { return atLoad( p, mo ); } \
    void __tsan_atomic##bits##_store( volatile T * p, T v, int mo ) { atStore( p, v, mo ); } \
    T __tsan_atomic##bits##_exchange( volatile T * p, T v, int mo ) { return atRmw( p, mo, [ = ]( T ) { return v; } ); } \
    T __tsan_atomic##bits##_fetch_add( volatile T * p, T v, int mo ) { return atRmw( p, mo, [ = ]( T o ) { return T( o + v ); } ); } \
    T __tsan_atomic##bits##_fetch_sub( volatile T * p, T v, int mo ) { return atRmw( p, mo, [ = ]( T o ) { return T( o - v ); } ); } \
    T __tsan_atomic##bits##_fetch_and( volatile T * p, T v, int mo ) { return atRmw( p, mo, [ = ]( T o ) { return T( o & v ); } ); } \
    T __tsan_atomic##bits##_fetch_or( volatile T * p, T v, int mo ) { return atRmw( p, mo, [ = ]( T o ) { return T( o | v ); } ); } \
    T __tsan_atomic##bits##_fetch_xor( volatile T * p, T v, int mo ) { return atRmw( p, mo, [ = ]( T o ) { return T( o ^ v ); } ); } \
    T __tsan_atomic##bits##_fetch_nand( volatile T * p, T v, int mo ) { return atRmw( p, mo, [ = ]( T o ) { return T( ~( o & v ) ); } ); } \
    int __tsan_atomic##bits##_compare_exchange_strong( volatile T * p, T * e, T v, int mo, int f ) { return atCas( p, e, v, mo, f, false ); } \
    int __tsan_atomic##bits##_compare_exchange_weak( volatile T * p, T * e, T v, int mo, int f ) { return atCas( p, e, v, mo, f, true ); } \
    T __tsan_atomic##bits##_compare_exchange_val( volatile T * p, T e, T v, int mo, int f ) { atCas( p, &e, v, mo, f, false ); return e; }
    AT( 8, uint8_t ) AT( 16, uint16_t ) AT( 32, uint32_t ) AT( 64, uint64_t )
    __extension__ typedef unsigned __int128 u128;
    AT( 128, u128 )
    void __tsan_atomic_thread_fence( int mo )
    {
        if ( !inSut() ) return;
        reschedule();
        if ( !gRaces ) return;
        Fiber & f = F[ cur ];
        if ( isAcq( mo ) ) f.vc.join( f.acqPend );
        if ( isRel( mo ) ) { f.relFence = f.vc; ++f.vc.c[ cur ]; }
    }
    void __tsan_atomic_signal_fence( int ) {}
}
