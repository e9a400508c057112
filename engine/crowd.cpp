#include "crowd.hpp"

#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <deque>
#include <dlfcn.h>
#include <link.h>
#include <memory>
#include <pthread.h>
#include <sys/mman.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

namespace
{
    constexpr size_t StackSize = 32768;
    constexpr uint64_t Canary = 0x5ca1ab1e0ddba11full;

    struct Fiber
    {
        ucontext_t ctx;
        std::function< void() > fn;
        const char * where{ nullptr };      // nullptr: runnable
        bool done{ false };
        uint64_t eh[ 2 ]{ 0, 0 };           // what __cxa_get_globals holds
        std::vector< char > tls;
    };
    struct MutexState { int owner{ -1 }; std::deque< int > waiters; };
    struct Waiter { int fiber; void * mutex; };

    bool active = false;
    pbt::Case * theCase = nullptr;
    std::vector< std::unique_ptr< Fiber > > fibers;
    size_t nAlive = 0;
    int cur = -1;                           // -1: the main thread
    ucontext_t mainCtx;
    uint64_t mainEh[ 2 ];
    std::deque< int > ready, sleeping;
    std::unordered_map< void *, MutexState > mutexes;
    std::unordered_map< void *, std::deque< Waiter > > conds;
    char * region = nullptr; size_t regionSize = 0;
    int wakePolicy = 0, runPolicy = 0;      // 0 first come first, 1 last come first, 2 any
    pbt::Rng rng;

    // The thread_local variables of the program, kept per thread if there are any.
    char * tlsBase = nullptr; size_t tlsSize = 0;
    std::vector< char > tlsInit, mainTls;
    int phdr( dl_phdr_info * info, size_t, void * )
    {
        for ( int i = 0; i != info->dlpi_phnum; ++i )
            if ( info->dlpi_phdr[ i ].p_type == PT_TLS )
            {
                size_t al = info->dlpi_phdr[ i ].p_align ? info->dlpi_phdr[ i ].p_align : 1;
                char * tp; __asm__( "movq %%fs:0,%0" : "=r"( tp ) );
                tlsSize = ( info->dlpi_phdr[ i ].p_memsz + al - 1 ) / al * al; tlsBase = tp - tlsSize;
            }
        return 1;
    }
    void swapTls( std::vector< char > & save, const std::vector< char > & load )
    {
        if ( !tlsSize ) return;
        save.assign( tlsBase, tlsBase + tlsSize );
        std::memcpy( tlsBase, load.empty() ? tlsInit.data() : load.data(), tlsSize );
    }
    void swapEh( uint64_t * save, const uint64_t * load )
    {
        auto * g = reinterpret_cast< uint64_t * >( __cxxabiv1::__cxa_get_globals() );
        save[ 0 ] = g[ 0 ]; save[ 1 ] = g[ 1 ];
        g[ 0 ] = load[ 0 ]; g[ 1 ] = load[ 1 ];
    }
    template< class D > typename D::value_type choose( D & d, int policy )
    {
        if ( policy == 1 ) { auto v = d.back(); d.pop_back(); return v; }
        if ( policy == 2 && d.size() > 1 ) std::swap( d.front(), d[ rng.below( d.size() ) ] );
        auto v = d.front(); d.pop_front(); return v;
    }
    void entry( unsigned lo, unsigned hi )
    {
        auto * f = reinterpret_cast< Fiber * >( uintptr_t( lo ) | uintptr_t( hi ) << 32 );
        f->fn();
        f->done = true; f->fn = nullptr; --nAlive;
        for (;;) { swapEh( f->eh, mainEh ); swapTls( f->tls, mainTls ); swapcontext( &f->ctx, &mainCtx ); }
    }
    void toMain()
    {
        Fiber & f = *fibers[ cur ];
        swapEh( f.eh, mainEh ); swapTls( f.tls, mainTls );
        swapcontext( &f.ctx, &mainCtx );
    }
    void block( const char * where ) { fibers[ cur ]->where = where; toMain(); }
    void wake( int i ) { fibers[ i ]->where = nullptr; ready.push_back( i ); }
    void acquire( void * m )
    {
        auto & s = mutexes[ m ];
        if ( s.owner == -1 ) { s.owner = cur; return; }
        s.waiters.push_back( cur );
        block( "a mutex" );
    }
    int release( void * m )
    {
        auto & s = mutexes[ m ];
        if ( s.owner != cur ) return EPERM;
        if ( s.waiters.empty() ) s.owner = -1;
        else { s.owner = choose( s.waiters, wakePolicy ); wake( s.owner ); }
        return 0;
    }
    // Notified: competes for the mutex.
    void notified( Waiter w )
    {
        auto & s = mutexes[ w.mutex ];
        if ( s.owner == -1 ) { s.owner = w.fiber; wake( w.fiber ); }
        else { fibers[ w.fiber ]->where = "a mutex, after it was notified,"; s.waiters.push_back( w.fiber ); }
    }
    bool mine() { return active && cur >= 0; }
    void doze() { sleeping.push_back( cur ); block( "sleep" ); }
}

namespace crowd
{
    void begin( pbt::Case & c, size_t maxThreads )
    {
        static bool once = false;
        if ( !once ) { once = true; dl_iterate_phdr( phdr, nullptr ); if ( tlsSize ) tlsInit.assign( tlsBase, tlsBase + tlsSize ); }
        end();
        theCase = &c;
        wakePolicy = int( c.draw( 3 ) ); runPolicy = int( c.draw( 3 ) );
        rng = pbt::Rng( c.draw( 1u << 30 ) );
        size_t want = ( maxThreads + 2 ) * StackSize;
        if ( want > regionSize )
        {
            if ( region ) munmap( region, regionSize );
            region = (char *)mmap( nullptr, want, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
            if ( region == MAP_FAILED ) { std::fprintf( stderr, "crowd: no memory for stacks\n" ); std::abort(); }
            regionSize = want;
        }
        active = true;
    }
    int spawn( std::function< void() > f )
    {
        int i = int( fibers.size() );
        if ( size_t( i + 1 ) * StackSize > regionSize ) { std::fprintf( stderr, "crowd: too many threads\n" ); std::abort(); }
        fibers.emplace_back( new Fiber );
        Fiber & n = *fibers.back();
        n.fn = std::move( f );
        getcontext( &n.ctx );
        char * st = region + size_t( i ) * StackSize;
        *reinterpret_cast< uint64_t * >( st ) = Canary;
        n.ctx.uc_stack.ss_sp = st; n.ctx.uc_stack.ss_size = StackSize; n.ctx.uc_link = nullptr;
        auto p = reinterpret_cast< uintptr_t >( &n );
        makecontext( &n.ctx, reinterpret_cast< void ( * )() >( entry ), 2, unsigned( p ), unsigned( p >> 32 ) );
        ready.push_back( i );
        ++nAlive;
        return i;
    }
    void settle()
    {
        for (;;)
        {
            if ( ready.empty() )
            {
                if ( sleeping.empty() ) return;
                wake( sleeping.front() ); sleeping.pop_front();
            }
            cur = choose( ready, runPolicy );
            Fiber & f = *fibers[ cur ];
            swapEh( mainEh, f.eh ); swapTls( mainTls, f.tls );
            swapcontext( &mainCtx, &f.ctx );
            if ( *reinterpret_cast< uint64_t * >( region + size_t( cur ) * StackSize ) != Canary ) { std::fprintf( stderr, "crowd: stack overflow\n" ); std::abort(); }
            cur = -1;
        }
    }
    bool done( int t ) { return fibers[ t ]->done; }
    size_t alive() { return nAlive; }
    size_t threads() { return fibers.size(); }
    const char * where( int t ) { return fibers[ t ]->where ? fibers[ t ]->where : "nothing"; }
    bool call( std::function< void() > f ) { int i = spawn( std::move( f ) ); settle(); return done( i ); }
    void end()
    {
        active = false;
        if ( fibers.size() > 1000 ) madvise( region, regionSize, MADV_DONTNEED );
        fibers.clear(); ready.clear(); sleeping.clear(); mutexes.clear(); conds.clear();
        nAlive = 0; cur = -1;
    }
}

#define REAL( name ) static auto real_##name = reinterpret_cast< decltype( &name ) >( dlsym( RTLD_NEXT, #name ) )
extern "C"
{
    int pthread_mutex_lock( pthread_mutex_t * m )
    {
        REAL( pthread_mutex_lock );
        if ( !mine() ) return real_pthread_mutex_lock( m );
        acquire( m ); return 0;
    }
    int pthread_mutex_trylock( pthread_mutex_t * m )
    {
        REAL( pthread_mutex_trylock );
        if ( !mine() ) return real_pthread_mutex_trylock( m );
        auto & s = mutexes[ m ];
        if ( s.owner != -1 ) return EBUSY;
        s.owner = cur; return 0;
    }
    int pthread_mutex_unlock( pthread_mutex_t * m )
    {
        REAL( pthread_mutex_unlock );
        if ( !mine() ) return real_pthread_mutex_unlock( m );
        return release( m );
    }
    int pthread_mutex_destroy( pthread_mutex_t * m )
    {
        REAL( pthread_mutex_destroy );
        if ( mine() ) { mutexes.erase( m ); return 0; }
        return real_pthread_mutex_destroy( m );
    }
    static void waitOn( void * c, void * m )
    {
        conds[ c ].push_back( Waiter{ cur, m } );
        release( m );
        block( "a condition" );     // The notifier has arranged for the mutex.
    }
    int pthread_cond_wait( pthread_cond_t * c, pthread_mutex_t * m )
    {
        REAL( pthread_cond_wait );
        if ( !mine() ) return real_pthread_cond_wait( c, m );
        waitOn( c, m ); return 0;
    }
    // Timed waits do not end before somebody notifies them, unless nothing else can happen; no waiter relies on that here.
    int pthread_cond_timedwait( pthread_cond_t * c, pthread_mutex_t * m, const timespec * t )
    {
        REAL( pthread_cond_timedwait );
        if ( !mine() ) return real_pthread_cond_timedwait( c, m, t );
        release( m ); doze(); acquire( m ); return ETIMEDOUT;
    }
    int pthread_cond_clockwait( pthread_cond_t * c, pthread_mutex_t * m, clockid_t id, const timespec * t )
    {
        REAL( pthread_cond_clockwait );
        if ( !mine() ) return real_pthread_cond_clockwait( c, m, id, t );
        release( m ); doze(); acquire( m ); return ETIMEDOUT;
    }
    int pthread_cond_signal( pthread_cond_t * c )
    {
        REAL( pthread_cond_signal );
        if ( !mine() ) return real_pthread_cond_signal( c );
        auto & q = conds[ c ];
        if ( !q.empty() ) notified( choose( q, wakePolicy ) );
        return 0;
    }
    int pthread_cond_broadcast( pthread_cond_t * c )
    {
        REAL( pthread_cond_broadcast );
        if ( !mine() ) return real_pthread_cond_broadcast( c );
        auto & q = conds[ c ];
        while ( !q.empty() ) notified( choose( q, wakePolicy ) );
        return 0;
    }
    int pthread_cond_destroy( pthread_cond_t * c )
    {
        REAL( pthread_cond_destroy );
        if ( mine() ) { conds.erase( c ); return 0; }
        return real_pthread_cond_destroy( c );
    }
    int sched_yield( void ) noexcept
    {
        static auto real = reinterpret_cast< int ( * )() >( dlsym( RTLD_NEXT, "sched_yield" ) );
        if ( !mine() ) return real();
        doze(); return 0;
    }
    int nanosleep( const timespec * t, timespec * r )
    {
        REAL( nanosleep );
        if ( !mine() ) return real_nanosleep( t, r );
        doze(); return 0;
    }
    int clock_nanosleep( clockid_t id, int fl, const timespec * t, timespec * r )
    {
        REAL( clock_nanosleep );
        if ( !mine() ) return real_clock_nanosleep( id, fl, t, r );
        doze(); return 0;
    }
    int usleep( useconds_t us )
    {
        REAL( usleep );
        if ( !mine() ) return real_usleep( us );
        doze(); return 0;
    }
}
