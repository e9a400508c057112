// What user code throws in the harnesses. A library that passes a user's exceptions on has to pass on all of them, its own types included,
// so each case chooses one: nothing in particular, or something that is also of one of the types below.
#ifndef VERIF_BOOM_HPP       // include after ds.hpp, where there is one
#define VERIF_BOOM_HPP

#include "pbt.hpp"

#include "ReiserRT_CoreExceptions.hpp"

#include <exception>
#include <functional>
#include <new>
#include <stdexcept>
#include <system_error>

namespace boom
{
    inline unsigned & kind() { static unsigned k; return k; }
    constexpr unsigned Kinds = 12;
    inline const char * name( unsigned k )
    {
        static const char * n[] = { "nothing in particular", "a std::runtime_error", "a SemaphoreAborted", "a RingBufferUnderflow", "a SemaphoreOverflow", "a RingBufferStateError",
                                    "a RingBufferOverflow", "a std::bad_alloc", "a MessageQueueElementSizeError", "an ObjectPoolElementSizeError", "a std::bad_function_call", "a std::exception" };
        return n[ k ];
    }
    // Half of all cases throw something that is nothing else.
    inline void choose( pbt::Case & c )
    {
        kind() = c.chance( 1, 2 ) ? 1 + unsigned( c.draw( Kinds - 1 ) ) : 0;
        if ( kind() ) c.label( "user exceptions of a known type" );
    }
    inline void tell( pbt::Case & c ) { if ( kind() ) c.describe( " (what user code throws is %s)", name( kind() ) ); }

    template< class B, class E > struct Both : E, B { explicit Both( const B & b ) : E(), B( b ) {} };
    template< class B, class E > struct Told : E, B { explicit Told( const B & b ) : E( "user code threw this" ), B( b ) {} };
    template< class B > [[noreturn]] void raise( const B & b )
    {
#ifdef VERIF_DS_HPP
        ds::Quiet q;        // what the exception allocates is not the library's doing
#endif
        using namespace ReiserRT::Core;
        switch ( kind() )
        {
            case 1: throw Told< B, std::runtime_error >( b );
            case 2: throw Told< B, SemaphoreAborted >( b );
            case 3: throw Told< B, RingBufferUnderflow >( b );
            case 4: throw Told< B, SemaphoreOverflow >( b );
            case 5: throw Told< B, RingBufferStateError >( b );
            case 6: throw Told< B, RingBufferOverflow >( b );
            case 7: throw Both< B, std::bad_alloc >( b );
            case 8: throw Told< B, MessageQueueElementSizeError >( b );
            case 9: throw Told< B, ObjectPoolElementSizeError >( b );
            case 10: throw Both< B, std::bad_function_call >( b );
            case 11: throw Both< B, std::exception >( b );
            default: throw b;
        }
    }
}
#endif
