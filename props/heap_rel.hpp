// Every way to memory there is, as seen by the -O2 flavour: the malloc family (and with it operator new) and mmap.
#ifndef VERIF_HEAP_REL_HPP
#define VERIF_HEAP_REL_HPP

#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace heap
{
    bool may( size_t n );                   // whether a request for so much is granted
    void got( const void * p, size_t n );
    void lost( const void * p );
    inline void * noted( void * p, size_t n ) { if ( p ) got( p, n ); return p; }
}

extern "C"
{
    void * __libc_malloc( size_t );
    void * __libc_calloc( size_t, size_t );
    void * __libc_realloc( void *, size_t );
    void * __libc_memalign( size_t, size_t );
    void __libc_free( void * );

    void * malloc( size_t n ) noexcept { if ( !heap::may( n ) ) { errno = ENOMEM; return nullptr; } return heap::noted( __libc_malloc( n ), n ); }
    void * calloc( size_t n, size_t m ) noexcept { if ( m && ( n > SIZE_MAX / m || !heap::may( n * m ) ) ) { errno = ENOMEM; return nullptr; } return heap::noted( __libc_calloc( n, m ), n * m ); }
    void * realloc( void * p, size_t n ) noexcept { if ( !heap::may( n ) ) { errno = ENOMEM; return nullptr; } void * q = __libc_realloc( p, n ); if ( q ) { if ( p ) heap::lost( p ); heap::got( q, n ); } return q; }
    void * memalign( size_t a, size_t n ) noexcept { if ( !heap::may( n ) ) { errno = ENOMEM; return nullptr; } return heap::noted( __libc_memalign( a, n ), n ); }
    void * aligned_alloc( size_t a, size_t n ) noexcept { return memalign( a, n ); }
    int posix_memalign( void ** p, size_t a, size_t n ) noexcept { void * q = memalign( a, n ); if ( !q ) return ENOMEM; *p = q; return 0; }
    void free( void * p ) noexcept { if ( p ) heap::lost( p ); __libc_free( p ); }
    void * mmap( void * a, size_t n, int prot, int flags, int fd, off_t off ) noexcept
    {
        if ( fd < 0 && !heap::may( n ) ) { errno = ENOMEM; return MAP_FAILED; }
        long r = syscall( SYS_mmap, a, n, prot, flags, fd, off );
        if ( r == -1 ) return MAP_FAILED;
        if ( fd < 0 ) heap::got( reinterpret_cast< void * >( r ), n );
        return reinterpret_cast< void * >( r );
    }
    int munmap( void * p, size_t n ) noexcept { heap::lost( p ); return int( syscall( SYS_munmap, p, n ) ); }
}

#endif
