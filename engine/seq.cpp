#include "seq.hpp"

#include <atomic>
#include <dlfcn.h>
#include <time.h>
#include <unistd.h>

#if defined( __has_feature )
#if __has_feature( address_sanitizer )
#define VERIF_ASAN 1
#endif
#endif

#ifdef VERIF_ASAN
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#endif

namespace seq
{
    static std::atomic< uint64_t > nM{ 0 }, nF{ 0 };
    static bool watching = false, real = false;
    struct B { const char * p; size_t n; };
    static B blocks[ 256 ];
    static size_t nB = 0;

#ifdef VERIF_ASAN
    static void onMalloc( const volatile void * p, size_t n )
    {
        ++nM;
        if ( watching && nB < 256 ) blocks[ nB++ ] = B{ (const char *)p, n };
    }
    static void onFree( const volatile void * p ) { if ( p ) ++nF; }
    static struct I { I() { __sanitizer_install_malloc_and_free_hooks( onMalloc, onFree ); } } i;
    size_t poisoned( const void * p, size_t n )
    {
        void * q = __asan_region_is_poisoned( const_cast< void * >( p ), n );
        return q ? size_t( (char *)q - (const char *)p ) + 1 : 0;
    }
#else
    size_t poisoned( const void *, size_t ) { return 0; }
#endif
    uint64_t mallocs() { return nM; }
    uint64_t frees() { return nF; }
    void watch( bool on ) { if ( on ) nB = 0; watching = on; }
    bool insideWatched( const void * p, size_t n )
    {
        for ( size_t k = 0; k != nB; ++k )
            if ( (const char *)p >= blocks[ k ].p && (const char *)p + n <= blocks[ k ].p + blocks[ k ].n ) return true;
        return false;
    }
    void realSleep( bool on ) { real = on; }
}

// Looked up before anything is metered: the dynamic linker frees what it needs for that.
static auto realNanosleep = reinterpret_cast< int ( * )( const timespec *, timespec * ) >( dlsym( RTLD_NEXT, "nanosleep" ) );
static auto realClockNanosleep = reinterpret_cast< int ( * )( clockid_t, int, const timespec *, timespec * ) >( dlsym( RTLD_NEXT, "clock_nanosleep" ) );
static auto realUsleep = reinterpret_cast< int ( * )( useconds_t ) >( dlsym( RTLD_NEXT, "usleep" ) );

// The library's destructors sleep to let threads leave; there are none in sequential harnesses.
extern "C"
{
    int nanosleep( const timespec * t, timespec * r )
    {
        return seq::real || !pbt::current ? realNanosleep( t, r ) : 0;
    }
    int clock_nanosleep( clockid_t id, int fl, const timespec * t, timespec * r )
    {
        return seq::real || !pbt::current ? realClockNanosleep( id, fl, t, r ) : 0;
    }
    int usleep( useconds_t us )
    {
        return seq::real || !pbt::current ? realUsleep( us ) : 0;
    }
}
