// C04 with crowds: however many threads are blocked, an abort or the destruction releases them all.
#include "crowd_sem.hpp"
using namespace crowdw;

static void body( pbt::Case & c, bool huge )
{
    SemCrowd w( c );
    if ( !w.gather( huge ) ) return;
    bool viaDestructor = c.draw( 2 );
    size_t in = 0;
    while ( in < w.n && in < 4 && c.draw( 2 ) ) { if ( !w.admit() ) return; ++in; }
    c.describe( " %zu let in; %s", in, viaDestructor ? "destroyed" : "aborted" );
    bool back = crowd::call( [ & ]() { if ( viaDestructor ) delete w.s; else w.s->abort(); } );
    if ( !back ) { c.fail( "%s blocked", viaDestructor ? "the destructor" : "abort" ); return; }
    if ( !w.tally( in, w.n - in, viaDestructor ? "after the destruction" : "after the abort" ) ) return;
    if ( crowd::alive() ) { c.fail( "%zu threads are still blocked", crowd::alive() ); return; }
    c.nontrivial( w.n >= 100 );
    c.label( w.takers ? "takers" : "givers" );
    if ( w.n >= 32768 ) c.label( "more than 32767 blocked at once" );
    else if ( w.n >= 256 ) c.label( "at least 256 blocked at once" );
    if ( !viaDestructor )
    {
        if ( !w.counts( w.init ) ) return;
        crowd::call( [ & ]() { delete w.s; } );
    }
    crowd::end();
}

PBT_SUITE( some, "C04.crowd", 2500, 40000, "up to 1100 threads blocked in take or give at once (biased to powers of two), some let in, then aborted or destroyed: all must end with SemaphoreAborted; non-trivial: at least 100 blocked at once" ) { body( c, false ); }
PBT_SUITE_L( huge, "C04.multitude", 6, 60, "as C04.crowd with 32768 to 131072 blocked threads", 120 ) { body( c, true ); }
