// C02 with crowds: whatever the number of blocked threads, each permit or piece of room reaches one of them.
#include "crowd_sem.hpp"
using namespace crowdw;

static void body( pbt::Case & c, bool huge )
{
    SemCrowd w( c );
    if ( !w.gather( huge ) ) return;
    size_t in = 0;
    c.describe( " let in:" );
    for ( size_t rounds = 0; rounds < 12 && in < w.n && ( !rounds || c.more( 5 ) ); ++rounds )
    {
        // One at a time, or many at once before any of them can run.
        size_t k = 1 + ( c.draw( 2 ) ? c.draw( std::min< size_t >( w.n - in, 300 ) ) : 0 );
        if ( k > w.n - in ) k = w.n - in;
        if ( w.takers && w.max && k > w.max ) k = size_t( w.max );
        if ( !w.takers && k > w.max ) k = size_t( w.max );
        c.describe( " %zu", k );
        size_t done = 0;
        crowd::call( [ & ]() { try { for ( ; done != k; ++done ) w.takers ? w.s->give() : w.s->take(); } catch ( ... ) {} } );
        if ( done != k ) { c.fail( "only %zu of %zu calls of %s completed", done, k, w.takers ? "give" : "take" ); return; }
        in += k;
        if ( !w.tally( in, 0, "after letting some in" ) || !w.counts( w.init ) ) return;
    }
    c.nontrivial( w.n >= 100 );
    c.label( w.takers ? "takers" : "givers" );
    if ( w.n >= 32768 ) c.label( "more than 32767 blocked at once" );
    else if ( w.n >= 256 ) c.label( "at least 256 blocked at once" );
    bool viaDestructor = c.draw( 2 );
    crowd::call( [ & ]() { if ( viaDestructor ) delete w.s; else w.s->abort(); } );
    if ( !w.tally( in, w.n - in, "at the end" ) ) return;
    if ( !viaDestructor ) crowd::call( [ & ]() { delete w.s; } );
    crowd::end();
}

PBT_SUITE( some, "C02.crowd", 2500, 40000, "up to 1100 threads blocked in take or give at once (biased to powers of two), then let in one by one or in bursts; after each burst exactly as many must have completed; non-trivial: at least 100 blocked at once" ) { body( c, false ); }
PBT_SUITE_L( huge, "C02.multitude", 6, 60, "as C02.crowd with 32768 to 131072 blocked threads", 120 ) { body( c, true ); }
