// How often something is repeated in a marathon: mostly a few times, sometimes past the boundaries of narrow counters.
#ifndef VERIF_MARATHON_HPP
#define VERIF_MARATHON_HPP

#include "seq.hpp"

namespace marathon
{
    inline size_t reps( pbt::Case & c )
    {
        switch ( c.weighted( { 4, 3, 3 } ) )
        {
            case 0: return 1 + c.draw( 40 );
            case 1: return ( size_t( 1 ) << ( 6 + c.draw( 9 ) ) ) - 2 + c.draw( 5 );
            default: c.label( "65536 times one thing" ); return 65534 + c.draw( 5 ) + ( c.draw( 3 ) ? 0 : c.draw( 70000 ) );
        }
    }
}
#endif
