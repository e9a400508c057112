// Shared harness for the Semaphore properties (C01-C04).
#ifndef VERIF_SEM_HPP
#define VERIF_SEM_HPP

#include "pbt.hpp"
#include "ds.hpp"
#include "lin.hpp"
#include "boom.hpp"

#include "Semaphore.hpp"
#include "ReiserRT_CoreExceptions.hpp"

#include <functional>
#include <memory>

namespace semw
{
    using ReiserRT::Core::Semaphore;

    enum Kind { Take, TakeF, TakeThrow, TakeEmpty, Give, GiveF, GiveThrow, GiveEmpty, Count, Abort, NKinds };
    inline const char * kindName( int k )
    {
        static const char * n[] = { "take", "take(f)", "take(throwing f)", "take(empty f)", "give", "give(f)", "give(throwing f)",
                                    "give(empty f)", "getAvailableCount", "abort" };
        return n[ k ];
    }
    enum Outcome { None, Ok, Threw, BadCall, Aborted, Overflow, Other };
    inline const char * outcomeName( int o )
    {
        static const char * n[] = { "pending", "ok", "threw its own exception", "bad_function_call", "SemaphoreAborted", "SemaphoreOverflow", "another exception" };
        return n[ o ];
    }

    struct Rec
    {
        int kind{ 0 };
        int fiber{ 0 };
        uint64_t inv{ lin::Pending }, res{ lin::Pending };
        int outcome{ None };
        uint64_t value{ 0 };
        int functorRuns{ 0 };
        uint64_t heap{ 0 };         // allocator calls made by the call
        bool isTake() const { return kind <= TakeEmpty; }
        bool isGive() const { return kind >= Give && kind <= GiveEmpty; }
        bool hasFunctor() const { return kind == TakeF || kind == TakeThrow || kind == GiveF || kind == GiveThrow; }
    };

    struct Boom { const Rec * who; };

    struct World
    {
        pbt::Case & c;
        Semaphore * s{ nullptr };
        size_t init{ 0 }, max{ 0 };         // max 0: unbounded
        std::vector< std::vector< Rec > > prog;     // [thread][op]
        std::vector< Rec > mainOps;
        std::vector< int > fibers;
        int inFunctor{ -1 };
        bool checkFunctors{ true };
        bool closing{ false };      // being destroyed: threads make no further calls

        explicit World( pbt::Case & cc ) : c( cc ) { boom::choose( c ); }

        void make() { ds::Sut sut; s = max || init % 2 ? new Semaphore( init, max ) : new Semaphore( init ); }       // the maximum is optional
        void destroy() { closing = true; ds::Sut sut; delete s; s = nullptr; }

        void functor( Rec & r )
        {
            ds::Quiet q;
            if ( checkFunctors )
            {
                if ( inFunctor >= 0 ) ds::fail( "the functor of %s in thread %d runs while that of thread %d is running", kindName( r.kind ), r.fiber, inFunctor );
                if ( ds::self() != r.fiber ) ds::fail( "the functor of %s ran on thread %d instead of %d", kindName( r.kind ), ds::self(), r.fiber );
            }
            inFunctor = r.fiber;
            ++r.functorRuns;
            ds::point(); ds::point();
            inFunctor = -1;
            if ( r.kind == TakeThrow || r.kind == GiveThrow ) boom::raise( Boom{ &r } );
        }

        void exec( Rec & r )
        {
            r.fiber = ds::self();
            r.inv = ds::tick();
            int o = None;
            uint64_t heap = ds::heapOps();
            try
            {
                auto f = [ this, &r ]() { functor( r ); };
                Semaphore::FunctionType empty;
                {
                    ds::Sut sut;
                    switch ( r.kind )
                    {
                        case Take: s->take(); break;
                        case TakeF: case TakeThrow: s->take( std::ref( f ) ); break;
                        case TakeEmpty: s->take( empty ); break;
                        case Give: s->give(); break;
                        case GiveF: case GiveThrow: s->give( std::ref( f ) ); break;
                        case GiveEmpty: s->give( empty ); break;
                        case Count: r.value = s->getAvailableCount(); break;
                        case Abort: s->abort(); break;
                        default: break;
                    }
                }
                o = Ok;
            }
            catch ( const Boom & b ) { o = b.who == &r ? Threw : Other; }
            catch ( const std::bad_function_call & ) { o = BadCall; }
            catch ( const ReiserRT::Core::SemaphoreAborted & ) { o = Aborted; }
            catch ( const ReiserRT::Core::SemaphoreOverflow & ) { o = Overflow; }
            catch ( ... ) { o = Other; }
            r.outcome = o;
            r.heap = ds::heapOps() - heap;
            r.res = ds::tick();
        }

        void start()
        {
            for ( auto & p : prog )
                fibers.push_back( ds::spawn( [ this, &p ]() { for ( auto & r : p ) { if ( closing ) break; exec( r ); } } ) );
        }

        void mainExec( int kind )
        {
            mainOps.emplace_back();
            mainOps.back().kind = kind;
            exec( mainOps.back() );
        }
        // Reads the count from the main thread.
        uint64_t count()
        {
            ds::Sut sut; return s->getAvailableCount();
        }

        void describeProgram()
        {
            c.describe( "Semaphore(%zu, %zu);", init, max ); boom::tell( c );
            for ( size_t t = 0; t != prog.size(); ++t )
            {
                c.describe( " T%zu:", t + 1 );
                for ( auto & r : prog[ t ] ) c.describe( " %s;", kindName( r.kind ) );
            }
            c.describe( "\n" );
        }
        void describeHistory()
        {
            if ( !c.wantDesc ) return;
            auto one = [ & ]( const Rec & r )
            {
                if ( r.inv == lin::Pending ) return;
                c.describe( "  [%llu..%s] T%d %s -> %s", (unsigned long long)r.inv, r.res == lin::Pending ? "" : std::to_string( r.res ).c_str(), r.fiber,
                            kindName( r.kind ), outcomeName( r.outcome ) );
                if ( r.kind == Count ) c.describe( " %llu", (unsigned long long)r.value );
                if ( r.hasFunctor() ) c.describe( " (functor ran %d times)", r.functorRuns );
                c.describe( "\n" );
            };
            for ( auto & p : prog ) for ( auto & r : p ) one( r );
            for ( auto & r : mainOps ) one( r );
        }

        // Everything invoked so far.
        std::vector< Rec > history() const
        {
            std::vector< Rec > h;
            for ( auto & p : prog ) for ( auto & r : p ) if ( r.inv != lin::Pending ) h.push_back( r );
            for ( auto & r : mainOps ) h.push_back( r );
            return h;
        }
        bool overlapped() const
        {
            std::vector< const Rec * > h;
            for ( auto & p : prog ) for ( auto & r : p ) if ( r.inv != lin::Pending ) h.push_back( &r );
            for ( auto & r : mainOps ) h.push_back( &r );
            return lin::overlapped( h );
        }
        // Fails the case for outcomes no correct semaphore can give (functor counts, exceptions).
        void checkOutcomes()
        {
            for ( auto & r : history() )
            {
                if ( r.res == lin::Pending ) continue;
                int want = r.kind == TakeThrow || r.kind == GiveThrow ? Threw : r.kind == TakeEmpty || r.kind == GiveEmpty ? BadCall : Ok;
                bool abortable = r.isTake() || r.isGive();
                if ( r.outcome != want && !( abortable && r.outcome == Aborted ) )
                { describeHistory(); ds::fail( "%s in thread %d ended with %s", kindName( r.kind ), r.fiber, outcomeName( r.outcome ) ); }
                int runs = r.hasFunctor() && r.outcome != Aborted ? 1 : 0;
                if ( r.functorRuns != runs )
                { describeHistory(); ds::fail( "the functor of %s in thread %d, which ended with %s, ran %d times", kindName( r.kind ), r.fiber, outcomeName( r.outcome ), r.functorRuns ); }
            }
        }
    };

    struct State
    {
        int64_t count{ 0 }; int64_t max{ 0 }; bool aborted{ false };
        std::string key() const { return std::to_string( count ) + ( aborted ? "a" : "" ); }
    };
    inline bool apply( State & s, const Rec & r )
    {
        bool pend = r.res == lin::Pending;
        if ( r.kind == Abort ) { s.aborted = true; return true; }
        if ( r.kind == Count ) return pend || uint64_t( s.count ) == r.value;
        if ( r.outcome == Aborted ) return s.aborted;
        if ( s.aborted ) return false;
        bool plain = r.kind == Take || r.kind == TakeF || r.kind == Give || r.kind == GiveF;
        if ( r.isTake() ) { if ( s.count <= 0 ) return false; if ( plain ) --s.count; return true; }
        if ( s.max && s.count >= s.max ) return false;
        if ( plain ) ++s.count;
        return true;
    }
    // Is there one order of the calls that explains every result and ends with the given count?
    inline bool explains( World & w, uint64_t finalCount )
    {
        auto h = w.history();
        if ( h.size() > 60 ) return true;
        State st; st.count = int64_t( w.init ); st.max = int64_t( w.max );
        return lin::check< State >( h, st, apply, [ & ]( const State & s, uint64_t ) { return s.count == int64_t( finalCount ); } );
    }
}

#endif
