// C21: Mutex: exclusion, try_lock, priority inheritance, error reporting.
#include "mq.hpp"
#include "Mutex.hpp"
#include "Semaphore.hpp"
#include "RingBufferGuarded.hpp"
#include "ObjectPool.hpp"
#include "BlockPool.hpp"

#include <cerrno>
#include <memory>
#include <pthread.h>
#include <system_error>

using ReiserRT::Core::Mutex;

namespace
{
    // How a thread takes a mutex, and gives it back.
    enum How { Lock, Try, Guard, Unique, UniqueTry, UniqueDeferred, NativeLock, NativeTry, Hows };
    const char * howName( int h )
    {
        static const char * n[] = { "lock", "try_lock", "lock_guard", "unique_lock", "unique_lock(try)", "unique_lock(deferred), unlock, try_lock", "pthread_mutex_lock(native_handle)", "pthread_mutex_trylock(native_handle)" };
        return n[ h ];
    }
    // One event of a mutex's history.
    struct Ev
    {
        enum { Acquire, TryOk, TryBusy, Release } what;
        int fiber; uint64_t inv, res;
    };
    struct Section { int mutex, how, spins; bool gate; std::vector< Section > inner; };

    struct MState { int owner{ -1 }; std::string key() const { return std::to_string( owner ); } };
    bool mapply( MState & s, const Ev & e )
    {
        switch ( e.what )
        {
            case Ev::Acquire: case Ev::TryOk: if ( s.owner >= 0 ) return false; s.owner = e.fiber; return true;
            case Ev::TryBusy: return s.owner >= 0;
            case Ev::Release: if ( s.owner != e.fiber ) return false; s.owner = -1; return true;
        }
        return false;
    }

    struct World
    {
        pbt::Case & c;
        std::vector< Mutex * > m;
        std::vector< int > holder;
        std::vector< std::deque< Ev > > ev;
        std::vector< std::vector< Section > > prog;
        std::vector< int > waitingIn, waitingFor;      // how and for which mutex a thread is asking just now (-1: none)
        Mutex * gate{ nullptr };
        bool gateClosed{ false };
        std::vector< int > atGate;
        unsigned busy{ 0 }, entered{ 0 }, nested{ 0 };

        explicit World( pbt::Case & cc ) : c( cc ), waitingIn( ds::MaxFibers, -1 ), waitingFor( ds::MaxFibers, -1 ), atGate( ds::MaxFibers, 0 ) {}

        void generate()
        {
            size_t mutexes = 1 + c.draw( 3 ), threads = 1 + c.draw( 5 ), total = 0;
            bool gates = c.chance( 1, 2 );
            for ( size_t i = 0; i != mutexes; ++i ) { Mutex * x; { ds::Sut s; x = new Mutex; } m.push_back( x ); }
            { ds::Sut s; gate = new Mutex; }
            holder.assign( mutexes, -1 ); ev.resize( mutexes );
            for ( size_t t = 0; t != threads; ++t )
            {
                prog.emplace_back();
                while ( total < 14 && c.more( 3 ) ) { prog.back().push_back( section( 0, gates ) ); ++total; }
            }
            for ( size_t t = 0; t != prog.size(); ++t )
            {
                c.describe( "T%zu:", t + 1 );
                for ( auto & s : prog[ t ] ) print( s );
                c.describe( "\n" );
            }
        }
        // Mutexes are only nested in ascending order (waiting), so that no correct mutex deadlocks.
        Section section( size_t from, bool gates )
        {
            Section s;
            s.mutex = int( from + c.draw( m.size() - from ) );
            s.how = int( c.draw( Hows ) );
            s.spins = int( c.draw( 3 ) );
            s.gate = gates && c.draw( 4 ) == 3;
            if ( size_t( s.mutex ) + 1 < m.size() && c.draw( 3 ) == 2 ) { s.inner.push_back( section( size_t( s.mutex ) + 1, gates ) ); ++nested; }
            return s;
        }
        void print( const Section & s )
        {
            c.describe( " %s m%d%s {", howName( s.how ), s.mutex, s.gate ? " (gate)" : "" );
            for ( auto & i : s.inner ) print( i );
            c.describe( " }" );
        }

        Ev & begin( int i, decltype( Ev::what ) w )
        {
            ev[ size_t( i ) ].push_back( Ev{ w, ds::self(), ds::tick(), lin::Pending } );
            return ev[ size_t( i ) ].back();
        }
        void inside( const Section & s )
        {
            int i = s.mutex, me = ds::self();
            if ( holder[ size_t( i ) ] >= 0 ) ds::fail( "thread %d entered m%d by %s while thread %d is inside", me, i, howName( s.how ), holder[ size_t( i ) ] );
            holder[ size_t( i ) ] = me; ++entered;
            auto nh = native( i );
            if ( ds::mutexOwner( nh ) != me ) ds::fail( "thread %d has m%d by %s, but the lock native_handle designates is not its", me, i, howName( s.how ) );
            for ( int k = 0; k != s.spins; ++k ) ds::point();
            for ( auto & n : s.inner ) run( n );
            if ( s.gate && gateClosed && !s.inner.size() ) { atGate[ size_t( me ) ] = 1; { ds::Sut q; gate->lock(); gate->unlock(); } atGate[ size_t( me ) ] = 0; }
            if ( holder[ size_t( i ) ] != me ) ds::fail( "thread %d entered m%d while thread %d was inside", holder[ size_t( i ) ], i, me );
            if ( ds::mutexOwner( nh ) != me ) ds::fail( "the lock of m%d was lost while thread %d held it", i, me );
        }
        pthread_mutex_t * native( int i ) { ds::Sut q; return m[ size_t( i ) ]->native_handle(); }

        // Records one acquisition attempt around f, which returns whether it got the lock.
        template< class F > bool attempt( const Section & s, bool trying, F f )
        {
            int i = s.mutex, me = ds::self();
            waitingIn[ size_t( me ) ] = trying ? Try : Lock; waitingFor[ size_t( me ) ] = i;
            Ev & e = begin( i, Ev::Acquire );
            bool got;
            { ds::Sut q; got = f(); }
            waitingIn[ size_t( me ) ] = waitingFor[ size_t( me ) ] = -1;
            e.what = !trying ? Ev::Acquire : got ? Ev::TryOk : Ev::TryBusy;
            e.res = ds::tick();
            if ( !got ) ++busy;
            return got;
        }
        template< class F > void release( const Section & s, F f )
        {
            holder[ size_t( s.mutex ) ] = -1;
            Ev & e = begin( s.mutex, Ev::Release );
            { ds::Sut q; f(); }
            e.res = ds::tick();
        }

        void run( const Section & s )
        {
            Mutex & x = *m[ size_t( s.mutex ) ];
            switch ( s.how )
            {
                case Lock: attempt( s, false, [ & ] { x.lock(); return true; } ); inside( s ); release( s, [ & ] { x.unlock(); } ); break;
                case Try: if ( attempt( s, true, [ & ] { return x.try_lock(); } ) ) { inside( s ); release( s, [ & ] { x.unlock(); } ); } break;
                case Guard:
                {
                    alignas( std::lock_guard< Mutex > ) char room[ sizeof( std::lock_guard< Mutex > ) ];
                    std::lock_guard< Mutex > * g = nullptr;
                    attempt( s, false, [ & ] { g = ::new ( room ) std::lock_guard< Mutex >( x ); return true; } );
                    inside( s );
                    release( s, [ & ] { g->~lock_guard(); } );
                    break;
                }
                case Unique:
                {
                    std::unique_lock< Mutex > u;
                    attempt( s, false, [ & ] { u = std::unique_lock< Mutex >( x ); return u.owns_lock(); } );
                    inside( s );
                    release( s, [ & ] { std::unique_lock< Mutex > v( std::move( u ) ); } );
                    break;
                }
                case UniqueTry:
                {
                    std::unique_lock< Mutex > u;
                    if ( attempt( s, true, [ & ] { u = std::unique_lock< Mutex >( x, std::try_to_lock ); return u.owns_lock(); } ) )
                    { inside( s ); release( s, [ & ] { u.unlock(); } ); }
                    break;
                }
                case UniqueDeferred:
                {
                    std::unique_lock< Mutex > u( x, std::defer_lock );
                    attempt( s, false, [ & ] { u.lock(); return u.owns_lock(); } );
                    inside( s );
                    release( s, [ & ] { u.unlock(); } );
                    if ( attempt( s, true, [ & ] { return u.try_lock(); } ) ) { Section t = s; t.inner.clear(); t.gate = false; inside( t ); release( s, [ & ] { u.unlock(); } ); }
                    break;
                }
                case NativeLock:
                {
                    auto n = native( s.mutex );
                    attempt( s, false, [ & ] { return pthread_mutex_lock( n ) == 0; } );
                    inside( s );
                    release( s, [ & ] { pthread_mutex_unlock( n ); } );
                    break;
                }
                case NativeTry:
                {
                    auto n = native( s.mutex );
                    if ( attempt( s, true, [ & ] { return pthread_mutex_trylock( n ) == 0; } ) ) { inside( s ); release( s, [ & ] { x.unlock(); } ); }
                    break;
                }
            }
        }

        void rest( const char * when )
        {
            for ( int t = 1; t <= int( prog.size() ); ++t )
            {
                if ( ds::done( t ) || atGate[ size_t( t ) ] ) continue;
                int i = waitingFor[ size_t( t ) ];
                if ( i < 0 ) ds::fail( "%s: thread %d is blocked (%s) outside of any attempt to lock", when, t, ds::where( t ).c_str() );
                if ( waitingIn[ size_t( t ) ] == Try ) ds::fail( "%s: thread %d waits in try_lock of m%d", when, t, i );
                if ( holder[ size_t( i ) ] < 0 ) ds::fail( "%s: thread %d waits for m%d, which nobody holds", when, t, i );
            }
        }
    };
}

static void body( pbt::Case & c, bool fine )
{
    World w( c );
    if ( fine ) ds::fine( true );
    w.generate();
    { ds::Sut s; w.gate->lock(); }
    w.gateClosed = true;
    for ( auto & p : w.prog ) ds::spawn( [ &w, &p ] { for ( auto & s : p ) w.run( s ); } );
    ds::waitQuiescent();
    w.rest( "at rest" );
    bool stopped = !ds::allDone();
    w.gateClosed = false;
    { ds::Sut s; w.gate->unlock(); }
    ds::waitQuiescent();
    w.rest( "in the end" );
    if ( !ds::allDone() ) ds::fail( "threads stay blocked after every holder has unlocked" );
    for ( size_t i = 0; i != w.m.size(); ++i )
    {
        std::vector< Ev > h( w.ev[ i ].begin(), w.ev[ i ].end() );
        if ( h.size() <= 60 && !lin::check< MState >( h, MState{}, mapply, []( const MState & s, uint64_t ) { return s.owner < 0; } ) )
        {
            for ( auto & e : h ) c.describe( "  m%zu [%llu..%llu] T%d %s\n", i, (unsigned long long)e.inv, (unsigned long long)e.res, e.fiber, e.what == Ev::Acquire ? "lock" : e.what == Ev::TryOk ? "try_lock: true" : e.what == Ev::TryBusy ? "try_lock: false" : "unlock" );
            ds::fail( "no order of the calls on m%zu explains what they returned", i );
        }
        // Free again, and usable.
        ds::Sut s;
        if ( !w.m[ i ]->try_lock() ) ds::fail( "try_lock of m%zu fails after everybody unlocked it", i );
        w.m[ i ]->unlock();
        w.m[ i ]->lock(); w.m[ i ]->unlock();
    }
    for ( auto & i : ds::mutexesInitialised() ) if ( i.protocol != PTHREAD_PRIO_INHERIT ) ds::fail( "a Mutex without the priority inheritance protocol (protocol %d)", i.protocol );
    size_t seen = ds::mutexesInitialised().size();
    if ( seen < w.m.size() + 1 ) ds::fail( "%zu mutexes made only %zu locks", w.m.size() + 1, seen );
    { ds::Sut s; for ( auto x : w.m ) delete x; delete w.gate; }
    if ( ds::liveAllocs() ) ds::fail( "destroyed mutexes leave %zu heap blocks behind", ds::liveAllocs() );
    for ( auto & i : ds::mutexesInitialised() ) if ( i.live ) ds::fail( "a destroyed Mutex left its lock undestroyed" );
    auto st = ds::stats();
    c.nontrivial( w.entered >= 2 && ( st.mutexWaits || w.busy ) );
    if ( w.busy ) c.label( "try_lock found it busy" );
    if ( st.mutexWaits ) c.label( "a thread waited" );
    if ( stopped ) c.label( "holders stopped inside" );
    if ( w.nested ) c.label( "several held at once" );
}
PBT_SUITE( sync, "C21.sync", 500000, 10000000, "1-5 threads enter 1-3 mutexes, nested in ascending order, by lock, try_lock, lock_guard, unique_lock in three ways and the native handle, some stopping inside; non-trivial: two sections were entered and a thread waited or found the mutex busy" ) { body( c, false ); }
PBT_SUITE( fineS, "C21.fine", 200000, 4000000, "as C21.sync, with pre-emption also between plain memory accesses" ) { body( c, true ); }

// --- Errors of the platform
static const int errors[] = { EINVAL, EAGAIN, EPERM, EDEADLK, ENOMEM, ENOTRECOVERABLE, EOWNERDEAD, ETIMEDOUT, EINTR, EBUSY, ENOSYS, ESRCH };
static bool sameCode( const std::system_error & e, int want ) { return e.code().value() == want && ( e.code().category() == std::system_category() || e.code().category() == std::generic_category() ); }

// Runs one call with a fault armed for this thread: tells whether the fault was hit and what came of the call.
struct Seen { bool hit{ false }, threw{ false }, right{ false }, other{ false }, result{ false }; };
template< class F > static Seen with( ds::FaultKind k, unsigned n, int e, const void * addr, F f )
{
    Seen s;
    ds::inject( k, n, e, addr );
    try { ds::Sut q; s.result = f(); }
    catch ( const std::system_error & x ) { s.threw = true; s.right = sameCode( x, e ); }
    catch ( ... ) { s.other = true; }
    s.hit = ds::faultsLeft() == 0;
    ds::clearFaults();
    return s;
}
static void surfaced( const Seen & s, int e, const char * what )
{
    if ( s.other ) ds::fail( "%s: error %d surfaced as an exception that is not std::system_error", what, e );
    if ( s.hit && !s.threw ) ds::fail( "%s: error %d was ignored", what, e );
    if ( !s.hit && s.threw ) ds::fail( "%s threw although the platform reported no error", what );
    if ( s.threw && !s.right ) ds::fail( "%s: error %d surfaced with another code", what, e );
}

PBT_SUITE( faults, "C21.faults", 300000, 6000000, "1-4 threads use one mutex by every kind of call, any of which may be told by the platform that it failed (12 codes); afterwards the call is repeated; non-trivial: at least two errors were reported" )
{
    size_t threads = 1 + c.draw( 4 );
    struct Step { int how; bool lockFault, unlockFault; int e, e2, spins; };
    std::vector< std::vector< Step > > prog( threads );
    size_t total = 0;
    for ( size_t t = 0; t != threads; ++t )
    {
        while ( total < 12 && c.more( 4 ) )
        {
            Step s;
            s.how = int( c.draw( 5 ) );
            s.lockFault = c.chance( 1, 2 ); s.unlockFault = c.chance( 1, 3 );
            s.e = c.draw( 4 ) ? errors[ c.draw( 12 ) ] : 1 + int( c.draw( 133 ) );
            s.e2 = c.draw( 4 ) ? errors[ c.draw( 12 ) ] : 1 + int( c.draw( 133 ) );
            s.spins = int( c.draw( 3 ) );
            prog[ t ].push_back( s ); ++total;
            c.describe( "T%zu: %s%s%s\n", t + 1, howName( s.how ), s.lockFault ? ( " lock error " + std::to_string( s.e ) ).c_str() : "", s.unlockFault ? ( " unlock error " + std::to_string( s.e2 ) ).c_str() : "" );
        }
    }
    Mutex * m;
    { ds::Sut s; m = new Mutex; }
    int holder = -1, reported = 0;
    auto work = [ & ]( const Step & s )
    {
        int me = ds::self();
        bool trying = s.how == Try || s.how == UniqueTry;
        std::unique_lock< Mutex > u;
        alignas( std::lock_guard< Mutex > ) char room[ sizeof( std::lock_guard< Mutex > ) ];
        std::lock_guard< Mutex > * g = nullptr;
        auto get = [ & ]() -> bool
        {
            switch ( s.how )
            {
                case Try: return m->try_lock();
                case Guard: g = ::new ( room ) std::lock_guard< Mutex >( *m ); return true;
                case Unique: u = std::unique_lock< Mutex >( *m ); return true;
                case UniqueTry: u = std::unique_lock< Mutex >( *m, std::try_to_lock ); return u.owns_lock();
                default: m->lock(); return true;
            }
        };
        if ( s.lockFault )
        {
            Seen r = with( trying ? ds::FTryLock : ds::FLock, 0, s.e, nullptr, get );
            if ( trying && s.e == EBUSY && r.hit )
            {
                if ( r.threw || r.other ) ds::fail( "try_lock of a busy mutex threw" );
                if ( r.result ) ds::fail( "try_lock returned true although the platform said busy" );
            }
            else surfaced( r, s.e, howName( s.how ) );
            if ( r.hit )
            {
                ++reported;
                if ( holder == me ) ds::fail( "harness: holder" );
                if ( ds::mutexOwner( m->native_handle() ) == me ) ds::fail( "%s failed with %d and holds the mutex", howName( s.how ), s.e );
                if ( u.owns_lock() ) ds::fail( "unique_lock believes it has what failed" );
            }
            if ( !r.hit && !r.result ) return;
            if ( r.hit ) { bool ok; { ds::Sut q; ok = get(); } if ( !ok ) return; }
        }
        else { bool ok; { ds::Sut q; ok = get(); } if ( !ok ) return; }
        if ( holder >= 0 ) ds::fail( "thread %d got the mutex that thread %d holds", me, holder );
        holder = me;
        for ( int k = 0; k != s.spins; ++k ) ds::point();
        if ( holder != me ) ds::fail( "two threads held the mutex at once" );
        if ( s.unlockFault && s.how != Guard )
        {
            Seen r = with( ds::FUnlock, 0, s.e2, nullptr, [ & ] { if ( u.owns_lock() ) u.unlock(); else m->unlock(); return true; } );
            surfaced( r, s.e2, "unlock" );
            if ( r.hit ) { ++reported; if ( ds::mutexOwner( m->native_handle() ) != me ) ds::fail( "unlock failed with %d but the mutex was given up", s.e2 ); }
            else { if ( holder == me ) holder = -1; return; }
        }
        holder = -1;
        ds::Sut q;
        if ( g ) g->~lock_guard(); else if ( u.owns_lock() ) u.unlock(); else m->unlock();
    };
    for ( auto & p : prog ) ds::spawn( [ &work, &p ] { for ( auto & s : p ) work( s ); } );
    ds::waitQuiescent();
    if ( !ds::allDone() ) ds::fail( "threads stay blocked" );
    c.nontrivial( reported >= 2 );
    if ( reported ) c.label( "errors reported" );
    { ds::Sut s; if ( !m->try_lock() ) ds::fail( "the mutex is not free in the end" ); m->unlock(); delete m; }
}

// --- The locks inside the other components
PBT_SUITE( inside, "C21.components", 200000, 4000000, "a semaphore, ring, pools and message queue of generated sizes are used by 1-3 threads; every lock they make must inherit priority; non-trivial: at least four locks were seen" )
{
    using namespace ReiserRT::Core;
    unsigned which = 1 + unsigned( c.draw( 31 ) );
    size_t n = 1 + c.draw( 9 ), len = 1 + c.draw( 5 ), threads = 1 + c.draw( 3 );
    bool locking = c.draw( 2 ), primed = c.draw( 2 );
    size_t init = c.draw( n + 1 ), max = c.draw( 2 ) ? n : 0;
    c.describe( "components %u, sizes %zu x %zu, semaphore(%zu, %zu)%s%s, %zu threads\n", which, n, len, init, max, locking ? ", dispatch locking" : "", primed ? ", primed ring" : "", threads );
    struct Msg : MessageBase { long x[ 3 ]; Msg() { x[ 0 ] = 0; } void dispatch() override { x[ 0 ]++; } const char * name() const override { return "m"; } };
    struct Thing { long a[ 4 ]; };
    Semaphore * s = nullptr; RingBufferGuarded< long > * r = nullptr; ObjectPool< Thing > * o = nullptr; BlockPool< int > * b = nullptr; MessageQueue * q = nullptr;
    {
        ds::Sut t;
        if ( which & 1 ) s = new Semaphore( init, max );
        if ( which & 2 ) r = new RingBufferGuarded< long >( n, primed );
        if ( which & 4 ) o = new ObjectPool< Thing >( n );
        if ( which & 8 ) b = new BlockPool< int >( n, len );
        if ( which & 16 ) q = new MessageQueue( n, sizeof( Msg ), locking );
        if ( r && primed ) r->prime( []( size_t i ) { return long( i ); } );
    }
    for ( size_t t = 0; t != threads; ++t )
        ds::spawn( [ & ]
        {
            if ( s ) { ds::Sut t; if ( init ) { s->take(); s->give(); } else { s->give(); s->take(); } }
            // The primed ring has what it is full of; the other is empty.
            if ( r ) { ds::Sut t; if ( primed ) { long v = r->get(); r->put( v ); } else { r->put( 5 ); r->get(); } }
            if ( o ) { try { ds::Sut t; auto p = o->createObj< Thing >(); } catch ( const std::runtime_error & ) {} }
            if ( b ) { try { ds::Sut t; auto p = b->getBlock(); } catch ( const std::runtime_error & ) {} }
            if ( q ) { ds::Sut t; q->emplace< Msg >(); if ( locking ) { auto l = q->getAutoDispatchLock(); l.unlock(); l.lock(); } q->getAndDispatch(); }
        } );
    ds::waitQuiescent();
    if ( !ds::allDone() ) ds::fail( "threads stay blocked" );
    if ( q && locking )
    {
        const void * nh; int own;
        { ds::Sut t; auto l = q->getAutoDispatchLock(); nh = l.native_handle(); own = ds::mutexOwner( nh ); }
        if ( own != ds::self() ) ds::fail( "the native handle of a held dispatch lock does not designate the lock that is held" );
        if ( ds::mutexOwner( nh ) != -1 ) ds::fail( "a destroyed dispatch lock did not unlock the lock native_handle designates" );
    }
    auto seen = ds::mutexesInitialised();
    for ( auto & i : seen ) if ( i.protocol != PTHREAD_PRIO_INHERIT ) ds::fail( "a lock inside a component does not use the priority inheritance protocol (protocol %d)", i.protocol );
    { ds::Sut t; delete s; delete r; delete o; delete b; delete q; }
    c.nontrivial( seen.size() >= 4 );
    if ( locking && q ) c.label( "dispatch lock" );
}

// The first lock a semaphore operation takes, and the dispatch lock, report errors.
PBT_SUITE( insideFaults, "C21.componentFaults", 200000, 4000000, "a history of calls on a semaphore and on a message queue's dispatch lock, in any of which the platform may report an error for the lock; non-trivial: two errors were reported" )
{
    using namespace ReiserRT::Core;
    size_t init = c.draw( 4 ), max = c.draw( 2 ) ? init + 1 + c.draw( 3 ) : 0;
    Semaphore * s; MessageQueue * q;
    static int dispatched;
    dispatched = 0;
    struct Msg : MessageBase { void dispatch() override { ++dispatched; } const char * name() const override { return "m"; } };
    { ds::Sut t; s = new Semaphore( init, max ); q = new MessageQueue( 4, 64, true ); }
    const void * nh; { ds::Sut t; auto l = q->getAutoDispatchLock(); nh = l.native_handle(); }
    size_t count = init; int queued = 0, done = 0, reported = 0;
    size_t steps = 0;
    while ( steps++ < 12 && c.more( 6 ) )
    {
        int what = int( c.draw( 8 ) );
        bool fault = c.draw( 2 );
        int e = c.draw( 4 ) ? errors[ c.draw( 12 ) ] : 1 + int( c.draw( 133 ) );
        static const char * names[] = { "take", "give", "take(f)", "give(f)", "getAutoDispatchLock", "getAndDispatch", "dispatch lock: lock", "dispatch lock: unlock" };
        if ( ( what == 0 || what == 2 ) && !count ) what = 1;
        if ( ( what == 1 || what == 3 ) && max && count >= max ) what = 0;
        c.describe( "%s%s\n", names[ what ], fault ? ( " (error " + std::to_string( e ) + ")" ).c_str() : "" );
        int ran = 0;
        auto f = [ &ran ] { ++ran; };
        auto call = [ & ]() -> bool
        {
            switch ( what )
            {
                case 0: s->take(); break;
                case 1: s->give(); break;
                case 2: s->take( std::ref( f ) ); break;
                case 3: s->give( std::ref( f ) ); break;
                case 4: { auto l = q->getAutoDispatchLock(); break; }
                default: q->getAndDispatch(); break;
            }
            return true;
        };
        if ( what == 5 ) { ds::Sut t; q->emplace< Msg >(); ++queued; }
        int before = dispatched;
        if ( what >= 6 )
        {
            alignas( MessageQueue::AutoDispatchLock ) char room[ sizeof( MessageQueue::AutoDispatchLock ) ];
            MessageQueue::AutoDispatchLock * l;
            { ds::Sut t; l = ::new ( room ) MessageQueue::AutoDispatchLock( q->getAutoDispatchLock() ); if ( what == 6 ) l->unlock(); }
            if ( fault )
            {
                Seen x = with( what == 6 ? ds::FLock : ds::FUnlock, 0, e, nh, [ & ] { if ( what == 6 ) l->lock(); else l->unlock(); return true; } );
                surfaced( x, e, names[ what ] );
                if ( x.hit )
                {
                    ++reported;
                    if ( ( ds::mutexOwner( nh ) == ds::self() ) != ( what == 7 ) ) ds::fail( "the harness's fault had an effect" );
                    // After a failed unlock it is not said who is to try again.
                    if ( what == 7 ) { ds::Sut t; l->unlock(); if ( ds::mutexOwner( nh ) == ds::self() ) pthread_mutex_unlock( (pthread_mutex_t *)nh ); }
                }
            }
            { ds::Sut t; using L = MessageQueue::AutoDispatchLock; l->~L(); }
            if ( ds::mutexOwner( nh ) != -1 ) ds::fail( "the dispatch lock is held after its lock object is gone" );
            continue;
        }
        Seen r;
        if ( fault ) { r = with( ds::FLock, 0, e, what >= 4 ? nh : nullptr, call ); surfaced( r, e, names[ what ] ); }
        else { ds::Sut t; call(); }
        bool failed = fault && r.hit;
        if ( failed ) ++reported;
        if ( failed && ran ) ds::fail( "%s failed to lock, and ran its functor", names[ what ] );
        if ( !failed ) { if ( what == 0 || what == 2 ) --count; if ( what == 1 || what == 3 ) ++count; }
        if ( failed && what == 5 && dispatched != before ) ds::fail( "getAndDispatch failed to get the dispatch lock, and dispatched" );
        if ( what == 5 ) done = dispatched;
        size_t now; { ds::Sut t; now = s->getAvailableCount(); }
        if ( now != count ) ds::fail( "the semaphore counts %zu instead of %zu after %s%s", now, count, names[ what ], failed ? ", which failed to lock" : "" );
    }
    (void)queued; (void)done;
    c.nontrivial( reported >= 2 );
    { ds::Sut t; delete s; delete q; }
}
