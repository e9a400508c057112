// Shared harness for MessageQueue under generated schedules (C14-C19).
#ifndef VERIF_MQ_HPP
#define VERIF_MQ_HPP

#include "pbt.hpp"
#include "ds.hpp"
#include "lin.hpp"
#include "boom.hpp"

#include "MessageQueue.hpp"
#include "ReiserRT_CoreExceptions.hpp"

#include <algorithm>
#include <deque>
#include <memory>
#include <mutex>
#include <optional>

namespace mqw
{
    using namespace ReiserRT::Core;

    enum Kind { Put, Emplace, Dispatch, DispatchW, Abort, Stat, Name, Purge, Hold };
    enum Outcome { None, Ok, Boomed, SizeErr, Ended, LockDisabled, Other };     // Ended: an exception derived from std::runtime_error
    inline const char * kindName( int k ) { static const char * n[] = { "put", "emplace", "getAndDispatch", "getAndDispatch(wakeup)", "abort", "statistics", "name", "purge", "dispatch lock" }; return n[ k ]; }
    inline const char * outcomeName( int o ) { static const char * n[] = { "pending", "ok", "the user's exception", "MessageQueueElementSizeError", "a std::runtime_error", "MessageQueueDispatchLockingDisabled", "another exception" }; return n[ o ]; }
    enum { Small, Wide, SecondBase, Oversize, Forms };

    struct Boom { int id; };

    struct Op
    {
        int kind{ 0 }, form{ 0 }, id{ -1 };
        bool plain{ false };        // a message that does not override name()
        bool ctorBomb{ false }, dispBomb{ false }, wakeBomb{ false }, gate{ false };
        int spins{ 0 };             // scheduling points inside the dispatch or while the lock is held
        std::vector< int > script;  // what a Hold does with its lock
        // What happened
        int fiber{ 0 }, outcome{ None }, got{ -1 }, wakes{ 0 };
        uint64_t heap{ 0 };         // allocator calls made by the call
        bool inDispatch{ false };   // in user code, or where the harness made it stop
        uint64_t inv{ lin::Pending }, res{ lin::Pending }, evidence{ lin::Pending };
        MessageQueue::RunningStateStats st;
        const char * text{ nullptr };
        bool producer() const { return kind == Put || kind == Emplace; }
        bool dispatcher() const { return kind == Dispatch || kind == DispatchW; }
    };
    // The life of one message.
    struct Life
    {
        Op * op{ nullptr };
        int born{ 0 }, dispatched{ 0 }, died{ 0 };
        bool purged{ false };
        uint64_t bornAt{ 0 }, dispStart{ 0 }, dispEnd{ 0 }, diedAt{ 0 };
        int dispFiber{ -1 };
        const char * at{ nullptr };
        size_t size{ 0 };
    };

    inline const char * actName( int a );
    struct World;
    inline World *& world() { static World * w; return w; }

    struct World
    {
        pbt::Case & c;
        MessageQueue * q{ nullptr };
        size_t depth{ 1 };
        bool locking{ false };
        std::vector< std::vector< Op > > prog;
        std::deque< Op > mainOps;
        std::deque< Life > lives;
        std::vector< Op * > current;        // by fiber
        size_t alive{ 0 }, mostAlive{ 0 };
        std::mutex gate;
        bool gateClosed{ false }, closing{ false };
        int holder{ -1 };                   // fiber that holds the dispatch lock for sure
        int inDispatch{ 0 };
        bool checkExclusion{ false };
        enum Moment { AtConstruction, AtWake, AtDispatch };
        std::function< void( int id, Moment ) > observe;    // called (quiet) from within callbacks
        const void * lockMutex{ nullptr };  // what native_handle said about the dispatch lock
        uint64_t lockActions{ 0 }, lockMoves{ 0 }, assignedOver{ 0 };

        explicit World( pbt::Case & cc ) : c( cc ), current( ds::MaxFibers, nullptr ) { world() = this; boom::choose( c ); }
        void make( size_t size = 64 ) { ds::Sut s; q = locking || depth % 2 ? new MessageQueue( depth, size, locking ) : new MessageQueue( depth, size ); }
        void destroy() { closing = true; ds::Sut s; delete q; q = nullptr; }

        int newId( Op & o ) { lives.emplace_back(); lives.back().op = &o; return o.id = int( lives.size() ) - 1; }
        Op & opOf( int id ) { return *lives[ size_t( id ) ].op; }

        // --- What messages report (quiet)
        void born( int id, const void * at, size_t size )
        {
            auto & l = lives[ size_t( id ) ];
            if ( l.born++ ) ds::fail( "message %d was constructed twice in the queue", id );
            l.bornAt = ds::tick(); l.at = (const char *)at; l.size = size;
            ds::checkLive( at, size, "a message" );
            for ( auto & o : lives )
                if ( &o != &l && o.born && !o.died && o.at < l.at + size && l.at < o.at + o.size ) ds::fail( "two messages share memory" );
            if ( ++alive > mostAlive ) mostAlive = alive;
            if ( alive > depth ) ds::fail( "a queue for %zu messages holds %zu", depth, alive );
        }
        void died( int id )
        {
            auto & l = lives[ size_t( id ) ];
            if ( l.died++ ) ds::fail( "message %d was destroyed twice", id );
            l.diedAt = ds::tick(); --alive;
            if ( l.dispStart && !l.dispEnd ) ds::fail( "message %d was destroyed while it was being dispatched", id );
            Op * o = current[ size_t( ds::self() ) ];
            l.purged = o && o->kind == Purge;
            if ( l.purged && l.dispatched ) ds::fail( "purge found message %d, which had been dispatched", id );
            if ( o && o->dispatcher() )
            {
                if ( o->got >= 0 && o->got != id ) ds::fail( "one getAndDispatch disposed of two messages" );
                o->got = id;
                if ( o->evidence == lin::Pending ) o->evidence = ds::tick();
            }
        }
        void dispatching( int id, bool intact )
        {
            auto & l = lives[ size_t( id ) ];
            if ( l.dispatched++ ) ds::fail( "message %d was dispatched twice", id );
            if ( !l.born || l.died ) ds::fail( "message %d was dispatched while it was not alive", id );
            if ( !intact ) ds::fail( "message %d was dispatched with other contents than it was given", id );
            l.dispStart = ds::tick(); l.dispFiber = ds::self();
            Op * o = current[ size_t( ds::self() ) ];
            if ( !o || !o->dispatcher() ) ds::fail( "message %d was dispatched outside of getAndDispatch", id );
            if ( o->got >= 0 ) ds::fail( "one getAndDispatch dispatched two messages" );
            if ( o->kind == DispatchW && o->wakes != 1 ) ds::fail( "a message was dispatched after its wake-up functor had run %d times", o->wakes );
            o->got = id; o->inDispatch = true;
            if ( o->evidence == lin::Pending ) o->evidence = l.dispStart;
            Op & p = opOf( id );
            ++inDispatch;
            if ( checkExclusion )
            {
                if ( holder >= 0 ) ds::fail( "message %d is dispatched while thread %d holds the dispatch lock", id, holder );
                if ( lockMutex && ds::mutexOwner( lockMutex ) != ds::self() ) ds::fail( "message %d is dispatched without the dispatch lock being held", id );
                if ( inDispatch > 1 ) ds::fail( "two messages are dispatched at once with dispatch locking enabled" );
            }
            if ( observe ) observe( id, AtDispatch );
            for ( int i = 0; i != p.spins; ++i ) ds::point();
            if ( p.gate && gateClosed ) { ds::Sut s; gate.lock(); gate.unlock(); }
            --inDispatch;
            l.dispEnd = ds::tick(); o->inDispatch = false;
            if ( p.dispBomb ) boom::raise( Boom{ id } );
        }
        void wake( Op & o )
        {
            ds::Quiet s;
            if ( o.wakes++ ) ds::fail( "the wake-up functor ran twice for one message" );
            if ( o.got >= 0 ) ds::fail( "the wake-up functor ran after the dispatch" );
            if ( ds::self() != o.fiber ) ds::fail( "the wake-up functor ran on another thread" );
            o.evidence = ds::tick();
            ds::point();
            if ( observe ) observe( -1, AtWake );
            if ( o.wakeBomb ) boom::raise( Boom{ -1 } );
        }

        void exec( Op & o );
        void hold( Op & o );
        Op & main( int kind, int form = 0 )
        {
            mainOps.emplace_back();
            auto & o = mainOps.back();
            o.kind = kind; o.form = form;
            if ( o.producer() ) newId( o );
            exec( o );
            return o;
        }
        void start() { for ( auto & p : prog ) ds::spawn( [ this, &p ]() { for ( auto & o : p ) { if ( closing ) break; exec( o ); } } ); }

        // --- Reading the history
        template< class F > void each( F f ) const
        {
            for ( auto & p : prog ) for ( auto & o : p ) if ( o.inv != lin::Pending ) f( o );
            for ( auto & o : mainOps ) f( o );
        }
        bool overlapped() const
        {
            std::vector< const Op * > h;
            each( [ & ]( const Op & o ) { h.push_back( &o ); } );
            return lin::overlapped( h );
        }
        long enqueued() const
        {
            long n = 0;
            each( [ & ]( const Op & o ) { if ( o.producer() && o.outcome == Ok ) ++n; if ( o.dispatcher() && o.got >= 0 ) --n; } );
            for ( auto & l : lives ) n -= l.purged;
            return n;
        }
        std::vector< const Op * > blocked() const { std::vector< const Op * > b; each( [ & ]( const Op & o ) { if ( o.res == lin::Pending ) b.push_back( &o ); } ); return b; }

        void describeProgram()
        {
            c.describe( "MessageQueue(%zu%s);", depth, locking ? ", dispatch locking" : "" ); boom::tell( c );
            for ( size_t t = 0; t != prog.size(); ++t )
            {
                c.describe( " T%zu:", t + 1 );
                for ( auto & o : prog[ t ] ) c.describe( " %s%s%s%s;", kindName( o.kind ), o.ctorBomb ? "(constructor throws)" : "", o.producer() && o.dispBomb ? "(dispatch throws)" : "", o.wakeBomb ? "(functor throws)" : o.form == Oversize ? "(too large)" : "" );
                for ( auto & o : prog[ t ] ) for ( int k : o.script ) c.describe( " %s %d %d,", actName( k % 16 ), k / 16 % 4, k / 64 % 4 );
            }
            c.describe( "\n" );
        }
        void describeHistory()
        {
            if ( !c.wantDesc ) return;
            std::vector< const Op * > h;
            each( [ & ]( const Op & o ) { h.push_back( &o ); } );
            std::sort( h.begin(), h.end(), []( const Op * a, const Op * b ) { return a->inv < b->inv; } );
            for ( auto o : h )
            {
                c.describe( "  [%llu..%s] T%d %s", (unsigned long long)o->inv, o->res == lin::Pending ? "" : std::to_string( o->res ).c_str(), o->fiber, kindName( o->kind ) );
                if ( o->producer() ) c.describe( " m%d%s%s%s", o->id, o->ctorBomb ? " (constructor throws)" : "", o->dispBomb ? " (dispatch throws)" : "", o->form == Oversize ? " (too large)" : "" );
                if ( o->got >= 0 ) c.describe( " got m%d", o->got );
                if ( o->kind == Stat ) c.describe( " running %u high %u", o->st.runningCount, o->st.highWatermark );
                if ( o->kind == Name && o->text ) c.describe( " \"%s\"", o->text );
                c.describe( " -> %s\n", outcomeName( o->outcome ) );
            }
            for ( size_t i = 0; i != lives.size(); ++i )
                if ( lives[ i ].born ) c.describe( "  m%zu: born %llu, dispatched %llu..%llu, destroyed %llu\n", i, (unsigned long long)lives[ i ].bornAt, (unsigned long long)lives[ i ].dispStart, (unsigned long long)lives[ i ].dispEnd, (unsigned long long)lives[ i ].diedAt );
        }

        // --- Judgements
        // Nothing is making progress: nobody may be blocked without reason.
        void judgeRest( const char * when )
        {
            long enq = enqueued();
            for ( auto o : blocked() )
            {
                if ( o->inDispatch ) continue;
                auto bad = [ & ]( const char * why ) { describeHistory(); ds::fail( "%s: thread %d is blocked in %s %s (%zu of %zu in use, %ld enqueued)", when, o->fiber, kindName( o->kind ), why, alive, depth, enq ); };
                if ( o->producer() && o->form == Oversize ) bad( "with a message that does not fit" );
                if ( o->producer() && alive < depth ) bad( "although a slot is free" );
                // With dispatch locking those behind a held lock have a message already.
                bool lockBusy = locking && ( holder >= 0 || inDispatch > 0 );
                if ( o->dispatcher() && enq > 0 && !lockBusy ) bad( "although a message waits" );
                if ( o->kind == Hold && !lockBusy ) bad( "although nobody holds it" );
                if ( o->kind == Abort || o->kind == Stat || o->kind == Name ) bad( "for ever" );
            }
            if ( enq > long( depth ) ) { describeHistory(); ds::fail( "%s: %ld messages are enqueued, the queue was built for %zu", when, enq, depth ); }
        }
        void judgeOutcomes( bool aborted )
        {
            each( [ & ]( const Op & o )
            {
                if ( o.res == lin::Pending ) return;
                auto bad = [ & ]( const char * why ) { describeHistory(); ds::fail( "%s of thread %d ended with %s: %s", kindName( o.kind ), o.fiber, outcomeName( o.outcome ), why ); };
                if ( o.outcome == Other ) bad( "not derived from std::runtime_error and not the user's" );
                if ( o.outcome == Ended && !aborted ) bad( "nothing was aborted" );
                if ( o.producer() )
                {
                    auto & l = lives[ size_t( o.id ) ];
                    if ( o.form == Oversize && o.outcome != SizeErr ) bad( "the message does not fit" );
                    if ( o.form != Oversize && o.outcome == SizeErr ) bad( "the message fits" );
                    if ( o.outcome == Boomed && !o.ctorBomb ) bad( "its constructor does not throw" );
                    if ( o.ctorBomb && o.outcome == Ok ) bad( "its constructor threw" );
                    if ( o.outcome == Ok && !l.born ) bad( "no message was constructed" );
                    if ( o.outcome != Ok && l.dispatched ) bad( "the message was dispatched all the same" );
                    if ( o.outcome != Ok && l.born && !( l.died && l.diedAt < o.res ) ) bad( "the message it constructed was not destroyed" );
                }
                if ( o.dispatcher() )
                {
                    bool ok = o.outcome == Ok, boom = o.outcome == Boomed;
                    if ( ok || boom )
                    {
                        if ( o.got < 0 ) bad( "no message was disposed of" );
                        auto & l = lives[ size_t( o.got ) ];
                        bool mustBoom = o.kind == DispatchW && o.wakeBomb;
                        if ( o.kind == DispatchW && o.wakes != 1 ) bad( "the wake-up functor did not run once" );
                        if ( mustBoom && l.dispatched ) bad( "the message was dispatched after the wake-up functor threw" );
                        if ( !mustBoom && !l.dispatched ) bad( "the message was not dispatched" );
                        if ( boom != ( mustBoom || l.op->dispBomb ) ) bad( boom ? "nothing threw" : "something threw" );
                        if ( !l.died || l.diedAt > o.res ) bad( "the message was not destroyed" );
                        if ( l.dispatched && l.diedAt < l.dispEnd ) bad( "the message was destroyed before its dispatch ended" );
                    }
                    else if ( o.got >= 0 || o.wakes ) bad( "a message was obtained" );
                }
            } );
        }
        // Accepted messages that are gone were dispatched, or their wake-up functor threw.
        void judgeLives( uint64_t destruction = ~0ull )
        {
            for ( size_t i = 0; i != lives.size(); ++i )
            {
                auto & l = lives[ i ];
                if ( !l.born || !l.died || l.dispatched || l.purged || l.diedAt > destruction ) continue;
                bool excused = false;
                each( [ & ]( const Op & o ) { if ( o.dispatcher() && o.got == int( i ) && o.wakeBomb ) excused = true; } );
                if ( l.op->outcome == Ok && !excused ) { describeHistory(); ds::fail( "message m%zu was accepted and destroyed without being dispatched", i ); }
            }
        }
        void judgeFifo();

        void closeGate() { ds::Sut s; gate.lock(); gateClosed = true; }
        void openGate() { gateClosed = false; ds::Sut s; gate.unlock(); }
        void settle()
        {
            for ( int k = 0; k < 60 + int( 2 * lives.size() ) && !ds::allDone(); ++k )
            {
                bool producer = false, dispatcher = false;
                for ( auto o : blocked() ) { if ( o->producer() ) producer = true; if ( o->dispatcher() && !o->inDispatch ) dispatcher = true; }
                if ( producer ) main( Dispatch );
                else if ( dispatcher ) main( Emplace );
                else break;
                ds::waitQuiescent();
                judgeRest( "after one more call" );
            }
            if ( !ds::allDone() ) { describeHistory(); ds::fail( "threads stay blocked whatever is put and dispatched" ); }
        }
        void drain()
        {
            for ( int k = 0; k != 80 && enqueued() > 0; ++k ) main( k % 2 ? Dispatch : DispatchW );
            if ( enqueued() != 0 ) { describeHistory(); ds::fail( "%ld messages remain after as many were dispatched as had been put", enqueued() ); }
        }
        // Exactly the depth is accepted without dispatching; one more has to wait for the first disposal.
        void probeCapacity()
        {
            for ( size_t i = 0; i != depth; ++i )
                if ( main( i % 2 ? Put : Emplace, int( i % 3 ) ).outcome != Ok ) ds::fail( "an idle queue for %zu messages refused one with %zu enqueued", depth, i );
            mainOps.emplace_back();
            auto & o = mainOps.back(); o.kind = Emplace; newId( o );
            ds::spawn( [ this, &o ]() { exec( o ); } );
            ds::waitQuiescent();
            if ( o.res != lin::Pending ) ds::fail( "a queue for %zu messages accepted %zu without dispatching any", depth, depth + 1 );
            main( Dispatch );
            ds::waitQuiescent();
            if ( o.res == lin::Pending ) ds::fail( "a producer stays blocked after a message was disposed of" );
        }
        void generate( size_t maxThreads, size_t maxOps, unsigned bombs, bool oversize, unsigned avg = 5 )
        {
            depth = 1 + c.draw( 4 );
            if ( avg > 5 )
            {
                ds::patience( 4000000 );
                if ( c.chance( 1, 3 ) ) depth = 1 + c.draw( 40 );
            }
            locking = c.chance( 1, 3 );
            size_t threads = 1 + c.draw( maxThreads ), total = 0;
            for ( size_t t = 0; t != threads; ++t )
            {
                prog.emplace_back();
                size_t bias = c.draw( 3 );
                while ( total < maxOps && c.more( avg ) )
                {
                    Op o;
                    bool prod = bias == 0 ? !c.chance( 1, 7 ) : bias == 1 ? c.chance( 1, 7 ) : c.draw( 2 ) == 0;
                    o.kind = prod ? ( c.draw( 2 ) ? Put : Emplace ) : ( c.draw( 2 ) ? DispatchW : Dispatch );
                    o.form = int( c.draw( 3 ) );
                    o.spins = int( c.draw( 3 ) );
                    if ( prod && bombs ) { if ( c.chance( 1, bombs ) ) o.ctorBomb = true; else if ( c.chance( 1, bombs ) ) o.dispBomb = true; }
                    if ( prod && oversize && c.chance( 1, 8 ) ) { o.form = Oversize; o.ctorBomb = false; }
                    if ( !prod && bombs && c.chance( 1, bombs ) ) o.wakeBomb = o.kind == DispatchW;
                    prog.back().push_back( o ); ++total;
                }
            }
            for ( auto & p : prog ) for ( auto & o : p ) if ( o.producer() ) newId( o );
        }
    };

    // --- Messages
    struct Front { virtual ~Front() noexcept = default; long filler{ 1 }; };
    struct One : MessageBase {};
    struct Two : Front, MessageBase {};
    inline const char * nameOf( int id ) { static std::vector< std::string > n; while ( int( n.size() ) <= id ) { n.reserve( 4096 ); n.push_back( "message " + std::to_string( n.size() ) ); } return n[ size_t( id ) ].c_str(); }

    template< class F, size_t N > struct Msg : F
    {
        int id;
        bool inQueue;
        unsigned long fill[ N ];
        explicit Msg( int i, bool queued ) : id( i ), inQueue( queued )
        {
            ds::Quiet s;
            for ( auto & f : fill ) f = 0x1000ul + (unsigned long)id * 7;
            if ( inQueue ) arrive();
        }
        Msg( Msg && o ) : F( o ), id( o.id ), inQueue( true )
        {
            ds::Quiet s;
            for ( size_t k = 0; k != N; ++k ) { fill[ k ] = o.fill[ k ]; o.fill[ k ] = 0; }
            arrive();
        }
        void arrive()
        {
            ds::point();
            if ( world()->observe ) world()->observe( id, World::AtConstruction );
            if ( world()->opOf( id ).ctorBomb ) boom::raise( Boom{ id } );
            world()->born( id, this, sizeof( *this ) );
            ds::point();
        }
        ~Msg() noexcept override
        {
            ds::Quiet s;
            if ( !inQueue ) return;
            ds::point();
            if ( !intact() ) ds::fail( "message %d is damaged when it is destroyed", id );
            world()->died( id );
        }
        bool intact() const { for ( auto f : fill ) if ( f != 0x1000ul + (unsigned long)id * 7 ) return false; return true; }
        void dispatch() override { ds::Quiet s; world()->dispatching( id, intact() && inQueue ); }
        [[nodiscard]] const char * name() const override { ds::Quiet s; return world()->opOf( id ).plain ? F::name() : nameOf( id ); }
    };
    using MSmall = Msg< One, 1 >;
    using MWide = Msg< One, 5 >;
    using MSecond = Msg< Two, 2 >;
    using MOver = Msg< One, 40 >;

    template< class M > void send( World & w, Op & o )
    {
        if ( o.kind == Emplace ) { ds::Sut s; w.q->emplace< M >( o.id, true ); }
        else { M m( o.id, false ); ds::Sut s; w.q->put( std::move( m ) ); }
    }
    inline void World::exec( Op & o )
    {
        o.fiber = ds::self();
        current[ size_t( o.fiber ) ] = &o;
        o.inv = ds::tick();
        int out = Ok;
        uint64_t heap = ds::heapOps();
        try
        {
            switch ( o.kind )
            {
                case Put: case Emplace:
                    switch ( o.form ) { case Small: send< MSmall >( *this, o ); break; case Wide: send< MWide >( *this, o ); break; case SecondBase: send< MSecond >( *this, o ); break; default: send< MOver >( *this, o ); break; }
                    break;
                case Dispatch: { ds::Sut s; q->getAndDispatch(); break; }
                case DispatchW: { auto f = [ this, &o ]() { wake( o ); }; ds::Sut s; q->getAndDispatch( std::ref( f ) ); break; }
                case Abort: { ds::Sut s; q->abort(); break; }
                case Stat: { ds::Sut s; o.st = q->getRunningStateStatistics(); break; }
                case Name: { ds::Sut s; o.text = q->getNameOfLastMessageDispatched(); break; }
                case Purge: { ds::Sut s; q->purge(); break; }
                case Hold: hold( o ); break;
            }
        }
        catch ( const Boom & b ) { out = b.id == -1 || b.id == o.id || b.id == o.got ? Boomed : Other; }
        catch ( const MessageQueueElementSizeError & ) { out = SizeErr; }
        catch ( const MessageQueueDispatchLockingDisabled & ) { out = LockDisabled; }
        catch ( const std::runtime_error & ) { out = Ended; }
        catch ( ... ) { out = Other; }
        o.outcome = out;
        o.heap = ds::heapOps() - heap;
        current[ size_t( o.fiber ) ] = nullptr;
        o.res = ds::tick();
    }

    // --- One FIFO order
    struct Fifo { std::deque< int > q; std::string key() const { std::string k; for ( auto v : q ) k.append( reinterpret_cast< const char * >( &v ), sizeof v ); return k; } };
    struct Step { bool in; int id; uint64_t inv, res; };
    inline bool apply( Fifo & f, const Step & s )
    {
        if ( s.in ) { f.q.push_back( s.id ); return true; }
        if ( f.q.empty() || f.q.front() != s.id ) return false;
        f.q.pop_front(); return true;
    }
    inline void World::judgeFifo()
    {
        std::vector< Step > s;
        each( [ & ]( const Op & o )
        {
            if ( o.producer() && o.outcome == Ok ) s.push_back( Step{ true, o.id, o.inv, o.res } );
            if ( o.dispatcher() && o.got >= 0 ) s.push_back( Step{ false, o.got, o.inv, o.evidence } );
        } );
        // A message whose put never returned may have been obtained: then it went in before that.
        for ( auto & x : std::vector< Step >( s ) )
            if ( !x.in ) { auto & o = opOf( x.id ); if ( o.outcome != Ok ) s.push_back( Step{ true, o.id, o.inv, std::max( x.res, o.inv ) } ); }
        if ( s.size() > 64 )
        {
            std::vector< lin::Through > t( lives.size() );
            for ( auto & x : s ) { auto & v = t[ size_t( x.id ) ]; v.id = uint64_t( x.id ); ( x.in ? v.pInv : v.gInv ) = x.inv; ( x.in ? v.pRes : v.gRes ) = x.res; }
            for ( size_t i = 0; i != t.size(); ++i ) if ( lives[ i ].purged ) t[ i ] = lin::Through{};
            t.erase( std::remove_if( t.begin(), t.end(), []( const lin::Through & v ) { return v.pInv == lin::Pending; } ), t.end() );
            if ( auto bad = lin::fifoPairs( t, depth ) ) { describeHistory(); ds::fail( "%s", bad ); }
            return;
        }
        if ( !lin::check< Fifo >( s, Fifo{}, apply, []( const Fifo &, uint64_t ) { return true; } ) )
        { describeHistory(); ds::fail( "no order of the calls is that of one FIFO queue" ); }
    }
    // --- Dispatch lock objects, with a shadow of what each of them owns.
    enum Act { Get, MoveTo, AssignTo, Unlock, Lock, Destroy, GetOther, Spin, GateWait, Guard, Acts };
    inline const char * actName( int a ) { static const char * n[] = { "get", "move-construct", "move-assign", "unlock", "lock", "destroy", "get another queue's", "spin", "wait at gate", "lock_guard" }; return n[ a ]; }
    inline void World::hold( Op & o )
    {
        using L = decltype( q->getAutoDispatchLock() );
        constexpr int Slots = 3;
        struct Slot { std::optional< L > l; int queue{ -1 }; bool locked{ false }; };     // queue: -1 none, 0 ours, 1 the other
        Slot slot[ Slots ];
        std::unique_ptr< MessageQueue > other;
        const void * otherMutex = nullptr;
        auto heldHere = [ & ]( int queue ) { for ( auto & x : slot ) if ( x.l && x.queue == queue && x.locked ) return true; return false; };
        auto gained = [ & ]( Slot & x )
        {
            x.locked = true;
            if ( x.queue ) return;
            if ( holder >= 0 ) ds::fail( "threads %d and %d hold the dispatch lock at once", holder, ds::self() );
            if ( inDispatch ) ds::fail( "thread %d was given the dispatch lock while a message was being dispatched", ds::self() );
            holder = ds::self();
        };
        auto losing = [ & ]( Slot & x ) { if ( x.queue == 0 && x.locked ) holder = -1; x.locked = false; };
        auto verify = [ & ]
        {
            for ( auto & x : slot ) if ( x.l )
            {
                const void * h;
                { ds::Sut s; h = x.l->native_handle(); }
                if ( ( h == nullptr ) != ( x.queue < 0 ) ) ds::fail( x.queue < 0 ? "a lock object that was moved from still has a native handle" : "a lock object has no native handle" );
                if ( x.queue < 0 ) continue;
                const void *& m = x.queue ? otherMutex : lockMutex;
                if ( !m ) m = h;
                if ( h != m ) ds::fail( "two lock objects of one queue have different native handles" );
            }
            if ( lockMutex && lockMutex == otherMutex ) ds::fail( "two queues share a dispatch lock" );
            for ( int k : { 0, 1 } )
            {
                const void * m = k ? otherMutex : lockMutex;
                if ( m && heldHere( k ) != ( ds::mutexOwner( m ) == ds::self() ) )
                    ds::fail( heldHere( k ) ? "the dispatch lock a lock object holds is not locked" : "the dispatch lock is still locked by a thread whose lock objects do not hold it" );
            }
        };
        auto reset = [ & ]( Slot & x ) { if ( !x.l ) return; losing( x ); { ds::Sut s; x.l.reset(); } x.queue = -1; };
        try
        {
            for ( int code : o.script )
            {
                Slot & a = slot[ code / 16 % 4 % Slots ], & b = slot[ code / 64 % 4 % Slots ];
                ++lockActions;
                switch ( code % 16 )
                {
                    case Get:
                        reset( a );
                        if ( heldHere( 0 ) ) break;
                        { ds::Sut s; a.l.emplace( q->getAutoDispatchLock() ); }
                        a.queue = 0; gained( a );
                        break;
                    case GetOther:
                        reset( a );
                        if ( heldHere( 1 ) ) break;
                        if ( !other ) { ds::Sut s; other.reset( new MessageQueue( 1, 64, true ) ); }
                        { ds::Sut s; a.l.emplace( other->getAutoDispatchLock() ); }
                        a.queue = 1; gained( a );
                        break;
                    case MoveTo:
                        if ( &a == &b || !a.l ) break;
                        reset( b );
                        { ds::Sut s; b.l.emplace( std::move( *a.l ) ); }
                        b.queue = a.queue; b.locked = a.locked; a.queue = -1; a.locked = false; ++lockMoves;
                        break;
                    case AssignTo:
                        if ( !a.l || !b.l ) break;
                        if ( &a != &b && b.locked ) { ++assignedOver; losing( b ); }
                        { ds::Sut s; *b.l = std::move( *a.l ); }
                        if ( &a != &b ) { b.queue = a.queue; b.locked = a.locked; a.queue = -1; a.locked = false; ++lockMoves; }
                        break;
                    case Unlock:
                        if ( !a.l ) break;
                        losing( a );
                        { ds::Sut s; a.l->unlock(); }
                        break;
                    case Lock:
                        if ( !a.l || ( a.queue >= 0 && heldHere( a.queue ) ) ) break;
                        { ds::Sut s; a.l->lock(); }
                        if ( a.queue >= 0 ) gained( a );
                        break;
                    case Guard:
                        if ( !a.l || ( a.queue >= 0 && heldHere( a.queue ) ) ) break;
                        {
                            ds::Sut s;
                            std::lock_guard< L > g( *a.l );
                            { ds::Quiet z; if ( a.queue >= 0 ) gained( a ); verify(); ds::point(); losing( a ); }
                        }
                        break;
                    case Destroy: reset( a ); break;
                    case GateWait: o.inDispatch = true; if ( gateClosed ) { ds::Sut s; gate.lock(); gate.unlock(); } o.inDispatch = false; break;
                    default: ds::point(); ds::point();
                }
                verify();
            }
        }
        catch ( ... )
        {
            for ( auto & x : slot ) reset( x );
            if ( other ) { ds::Sut s; other.reset(); }
            throw;
        }
        for ( auto & x : slot ) { reset( x ); verify(); }
        if ( other ) { ds::Sut s; other.reset(); }
    }
}

#endif
