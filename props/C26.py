"""C26: which types the components accept, decided over generated C++ programs.

A case is a program made from a list of choices: declarations (types), facts about them that hold whatever the library does, and a use of the
library. By the stated contract the use must either compile, run and give the expected results, or be refused by the compiler. Refusals are
compiled one by one (precompiled headers); programs that must work are linked in batches with the library and run under AddressSanitizer
(clang) or at -O2 (gcc, against the library built shared and with hidden visibility, as it is shipped). A failing case is shrunk by lowering its choices; the replay file holds the program itself."""
import glob, hashlib, json, os, random, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor

HEADERS = ["BlockPool.hpp", "BlockPoolDeleter.hpp", "BlockPoolFwd.hpp", "MemoryPoolBase.hpp", "MemoryPoolDeleterBase.hpp", "MessageQueue.hpp", "MessageQueueBase.hpp",
           "Mutex.hpp", "ObjectPool.hpp", "ObjectPoolDeleter.hpp", "ObjectPoolFwd.hpp", "ReiserRT_CoreExceptions.hpp", "RingBufferGuarded.hpp", "RingBufferSimple.hpp",
           "Semaphore.hpp"]
PRELUDE = """#include <atomic>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <memory>
#include <mutex>
#include <new>
#include <string>
#include <thread>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>
""" + "".join('#include "%s"\n' % h for h in HEADERS if "Fwd" not in h and "Deleter" not in h) + """using namespace ReiserRT::Core;
#define REQ(...) do { if ( !( __VA_ARGS__ ) ) return #__VA_ARGS__; } while ( 0 )
#define FACT(...) static_assert( __VA_ARGS__, "" )
"""


class Gen:
    """Choices: drawn at random, or read from a list (absent ones are 0, which is the simplest everywhere)."""
    def __init__(self, rng=None, given=None):
        self.rng, self.given, self.made = rng, given, []

    def n(self, k):
        v = self.rng.randrange(k) if self.given is None else (self.given[len(self.made)] % k if len(self.made) < len(self.given) else 0)
        self.made.append(v)
        return v

    def of(self, xs):
        return xs[self.n(len(xs))]

    def flag(self):
        return self.n(2) == 1


class Case:
    def __init__(self, accept, what, decl="", facts="", use="", nontrivial=True, files=None):
        self.accept, self.what, self.decl, self.facts, self.use, self.nontrivial, self.files = accept, what, decl, facts, use, nontrivial, files
        self.choices, self.suite = None, None

    def text(self):
        return json.dumps(self.files, sort_keys=True) if self.files else "\n".join([self.decl, self.facts, self.use])

    def program(self, name, use=True):
        return "namespace %s {\n%s\n%s\n%s}\n" % (name, self.decl, self.facts, "static const char * run()\n{\n%s\n    return nullptr;\n}\n" % self.use if use else "")


# ---------------------------------------------------------------- rings
INTS = ["int", "bool", "char", "signed char", "unsigned char", "wchar_t", "char16_t", "char32_t", "short", "unsigned short", "unsigned", "long", "unsigned long",
        "long long", "unsigned long long", "std::size_t", "std::ptrdiff_t", "std::int8_t", "std::uint64_t"]
FLOATS = ["double", "float", "long double"]


def intValues(g, t):
    c = ["static_cast<%s>( %d )" % (t, g.n(2) if t == "bool" else g.n(100)), "std::numeric_limits<%s>::max()" % t, "std::numeric_limits<%s>::min()" % t, "T{}"]
    return [g.of(c) for _ in range(1 + g.n(5))]


def pointee(g, depth=0):
    """(declarations, type, expression giving an address) of something a pointer can point to; no functions, nothing volatile."""
    k = g.n(8)
    const = "const " if g.n(3) == 2 else ""
    if k == 0:
        return "", const + "int", "int"
    if k == 1:
        return "struct Obj { int a; std::string s; virtual ~Obj() = default; };", const + "Obj", "Obj"
    if k == 2:
        return "struct Inc;", const + "Inc", None
    if k == 3:
        return "", const + "void", None
    if k == 4 and depth < 3:
        d, t, e = pointee(g, depth + 1)
        return d, (t + " * const" if const else t + " *"), None
    if k == 5:
        return "enum class En : short { a, b };", const + "En", "En"
    if k == 6:
        return "template< typename A, int N > struct Tmpl { A a[ N ]; };", const + "Tmpl< double, %d >" % (1 + g.n(9)), None
    return "union Un { int a; float b; };", const + "Un", "Un"


def scalar(g):
    """(declarations, type, value expressions, kind)"""
    k = g.n(8)
    if k == 0:
        t = g.of(INTS)
        return "", t, intValues(g, t), "integer"
    if k == 1:
        t = g.of(FLOATS)
        c = ["static_cast<%s>( %d ) / 7" % (t, g.n(1000)), "std::numeric_limits<%s>::infinity()" % t, "std::numeric_limits<%s>::denorm_min()" % t,
             "std::numeric_limits<%s>::lowest()" % t, "T{}"]
        return "", t, [g.of(c) for _ in range(1 + g.n(5))], "floating"
    if k == 2:
        u = g.of([x for x in INTS if x != "bool"])
        cls = g.of(["enum class", "enum"])
        return "%s En : %s { ea, eb, ec };" % (cls, u), "En", [g.of(["En::ea", "En::eb", "En::ec", "static_cast<En>( std::numeric_limits<%s>::max() )" % u]) for _ in range(1 + g.n(5))], "enum"
    if k == 3:
        return "", "std::nullptr_t", ["nullptr"] * (1 + g.n(3)), "null"
    if k == 4:
        m = g.of(["int", "double", "char *", "const int"])
        init = " = 0" if "const" in m else ""
        return "struct Cls { %s a%s; %s b%s; };" % (m, init, m, init), "%s Cls::*" % m, [g.of(["&Cls::a", "&Cls::b", "nullptr"]) for _ in range(1 + g.n(4))], "member"
    if k == 5:
        q = g.of(["", " const", " noexcept", " const noexcept", " &"])
        v = g.of(["", "virtual "])
        return "struct Cls { %sint f( int x )%s { return x + 1; } %sint h( int x )%s { return x + 2; } %s};" % (v, q, v, q, "virtual ~Cls() = default; " if v else ""), \
            "int ( Cls::* )( int )" + q, [g.of(["&Cls::f", "&Cls::h"]) for _ in range(1 + g.n(4))], "memberfn"
    d, t, obj = pointee(g)
    n = 1 + g.n(5)
    vals = []
    d += "\nalignas( 64 ) static char area[ 4096 ];"
    for _ in range(n):
        vals.append("reinterpret_cast< %s * >( area + %d )" % (t, 64 * g.n(64)) if g.n(4) else "nullptr")
    return d, t + " *", vals, "pointer"


RING_REFUSED = [
    ("an empty class", "struct X {};", "X"), ("a small trivial class", "struct X { int a; };", "X"), ("a union", "union X { int a; float b; };", "X"),
    ("a class that converts to a scalar", "struct X { X( int = 0 ) {} operator int() const { return 1; } };", "X"), ("std::string", "", "std::string"),
    ("std::unique_ptr", "", "std::unique_ptr< int >"), ("std::shared_ptr", "", "std::shared_ptr< int >"), ("std::atomic", "", "std::atomic< int >"), ("a lambda", "inline auto lam = []{}; using X = decltype( lam );", "X"),
    ("std::pair", "", "std::pair< int, int >"), ("std::function", "", "std::function< void() >"), ("std::reference_wrapper", "", "std::reference_wrapper< int >"),
    ("a class with virtual functions", "struct X { virtual ~X() = default; };", "X"),
]


def rings(g):
    ring = g.of(["RingBufferSimple", "RingBufferGuarded"])
    k = g.n(12)
    if k < 6:                                                                     # works
        d, t, vals, kind = scalar(g)
        size = 1 + g.n(9)
        guarded = ring == "RingBufferGuarded"
        form = g.n(3) if guarded else 0                                           # 0 plain, 1 primed, 2 flushed at the end
        mode = " && cr.getSize() == cr.getMask() + 1 && ( std::size_t( 1 ) << cr.getNumBits() ) == cr.getSize()"
        u = ["    using T = %s;" % t, "    T vals[] = { %s };" % ", ".join(vals), "    const std::size_t n = sizeof( vals ) / sizeof( vals[ 0 ] );",
             "    const std::size_t size = %d > n ? %d : n;" % (size, size)]
        if form == 1:
            u += ["    %s< T > r{ size, true };" % ring, "    const auto & cr = r;",
                  "    r.prime( [ & ]( std::size_t i ) -> typename %s< T >::PrimingFunctionType::result_type { return %s; } );" % (ring, "const_cast< void * >( static_cast< const void * >( vals[ i % n ] ) )" if kind == "pointer" else "vals[ i % n ]"),
                  "    for ( std::size_t i = 0; i != size; ++i ) { T v = r.get(); REQ( v == vals[ i % n ] ); }"]
        else:
            u += ["    %s< T > r{ size };" % ring, "    const auto & cr = r;"]
        u += ["    static_assert( std::is_same< decltype( r.get() ), T >::value, \"\" );", "    REQ( cr.getSize() >= size%s );" % mode,
              "    for ( int round = 0; round != %d; ++round )" % (1 + g.n(4)), "    {",
              "        for ( std::size_t i = 0; i != n; ++i ) %s" % g.of(["r.put( vals[ i ] );", "{ const T c = vals[ i ]; r.put( c ); }", "r.put( T( vals[ i ] ) );"]),
              "        for ( std::size_t i = 0; i != n; ++i ) { T v = r.get(); REQ( v == vals[ i ] ); }", "    }"]
        if form == 2:
            arg = "const void * p" if kind == "pointer" else "T p"
            if t.startswith("const void") or kind == "pointer":
                cmp = "p == static_cast< const void * >( vals[ at ] )"
            else:
                cmp = "p == vals[ at ]"
            u += ["    for ( std::size_t i = 0; i != n; ++i ) r.put( vals[ i ] );", "    r.abort();", "    std::size_t at = 0; bool same = true;",
                  "    r.flush( [ & ]( %s ) { same = same && %s; ++at; } );" % (arg, cmp), "    REQ( same && at == n );"]
        return Case(True, "%s of %s" % (ring, t), d, "FACT( std::is_scalar< %s >::value );" % t, "\n".join(u), kind not in ("integer", "floating"))
    if k < 9:                                                                     # a type that is not a scalar, or not to be written to
        f = g.n(5)
        if f < 2:
            what, d, t = g.of(RING_REFUSED)
            fact = "FACT( !std::is_scalar< %s >::value );" % t
        elif f == 2:
            d, s, _, _ = scalar(g)
            t, what = "typename std::add_const< %s >::type" % s, "a constant"
            fact = "FACT( std::is_const< %s >::value );" % t.replace("typename ", "")
        elif f == 3:
            d, s, _, _ = scalar(g)
            t = g.of(["std::add_lvalue_reference_t< %s >", "std::add_rvalue_reference_t< %s >", "std::add_lvalue_reference_t< const %s >"]) % s
            what, fact = "a reference", "FACT( std::is_reference< %s >::value );" % t
        else:
            d, s, _, _ = scalar(g)
            d += "\nusing Arr = std::remove_reference_t< std::add_lvalue_reference_t< %s > >[ %d ];" % (s, 1 + g.n(4))
            t, what, fact = g.of([("Arr", "an array", ""), ("std::remove_extent_t< Arr >[]", "an array", ""), ("void", "void", "")])
        return Case(False, "%s of %s: %s" % (ring, what, t), d, fact, "    %s< %s > r{ %d };" % (ring, t, 1 + g.n(9)))
    # the element type of a ring of pointers is kept
    d = "struct Left { int l = 1; virtual ~Left() = default; };\nstruct Right { int r = 2; virtual ~Right() = default; };\nstruct Both : Left, Right { int b = 3; };\nstruct Other { int l = 1; };\nstruct Hidden : private Right {};"
    if k == 9:
        base = g.of(["Right", "Left", "const Right"])
        u = "    %s< %s * > r{ 4 };\n    Both a, b;\n    r.put( &a );\n    r.put( static_cast< Right * >( &b ) );" % (ring, base) if "Right" in base else "    %s< %s * > r{ 4 };\n    Both a, b;\n    r.put( &a );\n    r.put( static_cast< Left * >( &b ) );" % (ring, base)
        u += "\n    %s * p = r.get();\n    %s * q = r.get();\n    REQ( p == &a && q == &b );" % (base, base)
        return Case(True, "%s of %s *, put pointers to a derived class" % (ring, base), d, "FACT( std::is_base_of< Right, Both >::value );", u)
    put = g.of([("Right", "Other", "an unrelated class"), ("Right", "const Right", "a constant object"), ("Both", "Right", "the base class"), ("Right", "void", "void"),
                ("int", "unsigned", "the other signedness"), ("Right", "Hidden", "a class derived privately"), ("char", "const char", "a constant character"),
                ("Right", "Right *", "a pointer"), ("int", "const int", "a constant int"), ("Right", "const void", "constant void")])
    if k == 10:
        how = g.of(["    static %s * p = nullptr;\n    r.put( p );", "    r.put( static_cast< %s * >( nullptr ) );"]) % put[1]
        return Case(False, "%s of %s * put a pointer to %s" % (ring, put[0], put[2]), d, "FACT( !std::is_convertible< %s *, %s * >::value );" % (put[1], put[0]),
                    "    %s< %s * > r{ 4 };\n%s" % (ring, put[0], how))
    got = g.of([("const Right", "Right"), ("Right", "Both"), ("const int", "int"), ("void", "Right"), ("Right", "Other"), ("const Both", "Right")])
    return Case(False, "%s of %s * read as %s *" % (ring, got[0], got[1]), d, "FACT( !std::is_convertible< %s *, %s * >::value );" % got,
                "    %s< %s * > r{ 4 };\n    %s * p = r.get();\n    (void)p;" % (ring, got[0], got[1]))


# ---------------------------------------------------------------- constructors and their arguments
ARGS = [  # parameter, argument, before, in the constructor, after
    ("int a%d", "%d + 100", "", "ok = ok && a%d == %d + 100;", ""),
    ("int & a%d", "x%d", "int x%d = %d;", "ok = ok && a%d == %d; a%d = 1000;", "REQ( x%d == 1000 );"),
    ("const std::string & a%d", "x%d", "std::string x%d = \"a string longer than any buffer in place %d\"; where[ %d ] = &x%d;", "ok = ok && where[ %d ] == &a%d;", ""),
    ("std::string && a%d", "std::move( x%d )", "std::string x%d = \"a string longer than any buffer in place %d\"; where[ %d ] = &x%d;", "ok = ok && where[ %d ] == &a%d; { std::string taken( std::move( a%d ) ); ok = ok && taken.size() > 30; }", "REQ( x%d.empty() );"),
    ("std::unique_ptr< int > a%d", "std::move( x%d )", "auto x%d = std::make_unique< int >( %d );", "ok = ok && a%d && *a%d == %d;", "REQ( !x%d );"),
    ("const char * a%d", "\"literal\"", "", "ok = ok && !std::strcmp( a%d, \"literal\" );", ""),
    ("int * a%d", "nullptr", "", "ok = ok && a%d == nullptr;", ""),
    ("const int && a%d", "std::move( x%d )", "const int x%d = %d; where[ %d ] = &x%d;", "ok = ok && where[ %d ] == &a%d;", ""),
    ("int ( & a%d )[ 3 ]", "x%d", "int x%d[ 3 ] = { 1, 2, 3 };", "ok = ok && a%d[ 2 ] == 3; a%d[ 0 ] = 9;", "REQ( x%d[ 0 ] == 9 );"),
    ("void ( * a%d )()", "&callee", "", "ok = ok && a%d == &callee;", ""),
    ("const volatile int & a%d", "x%d", "volatile int x%d = %d; where[ %d ] = const_cast< int * >( &x%d );", "ok = ok && where[ %d ] == const_cast< const int * >( &a%d );", ""),
]


def arguments(g, most=4):
    """Parameters, arguments, statements before, in the body, and after."""
    out = [[], [], [], [], []]
    for i in range(g.n(most + 1)):
        f = ARGS[g.n(len(ARGS))]
        for j in range(5):
            if f[j]:
                out[j].append(f[j].replace("%d", str(i)))
    return ", ".join(out[0]), out[1], "\n    ".join(out[2]), " ".join(out[3]), "\n    ".join(out[4])


COUNT = "static int made, gone; static bool ok; static const void * where[ 8 ]; static const void * at[ 64 ]; inline void callee() {}\n" \
        "static bool here( const void * p ) { for ( auto & a : at ) if ( a == p ) { a = nullptr; return true; } return false; }\n" \
        "static void note( const void * p ) { for ( auto & a : at ) if ( !a ) { a = p; return; } }"
RESET = "    made = gone = 0; ok = true; for ( auto & a : at ) a = nullptr;"


def payload(g):
    return " ".join(g.of(["", "char pc%d = 7;", "double pd%d = 1.5;", "std::string ps%d = \"payload, longer than fits in place\";", "char pa%d[ 33 ] = {};",
                          "std::unique_ptr< int > pu%d = std::make_unique< int >( 5 );", "float pl%d = 3;", "std::vector< int > pv%d = std::vector< int >( 3, 4 );"]).replace("%d", str(i))
                    for i in range(g.n(4)))


def counted(name, g, bases, params, body, dtor="", extra="", ctorSpec=""):
    return ("struct %s%s {\n    %s\n    explicit %s( %s )%s { ++made; note( this ); %s }\n    %s( const %s & ) = delete;\n    %s & operator =( const %s & ) = delete;\n"
            "    %s~%s()%s { ++gone; ok = ok && here( this ); }\n    %s\n};" % (name, " : " + bases if bases else "", payload(g), name, params, ctorSpec, body, name, name, name, name,
                                                                              "", name, dtor, extra))


def pool(g):
    k = g.n(10)
    if k < 5:
        params, args, before, body, after = arguments(g)
        form = g.n(8)
        T = "T"
        if form == 0:                                                            # T itself, nothing virtual
            d, D = counted("T", g, "", params, body), "T"
        elif form == 1:                                                          # T itself, final or polymorphic
            d, D = counted("T", g, "", params, body, extra="virtual int v() const { return 3; }") .replace("    ~T()", "    virtual ~T()"), "T"
        elif form == 2:                                                          # T itself, polymorphic, its destructor not virtual: nothing is derived from it
            d, D = counted("T", g, "", params, body, extra="virtual int v() const { return 3; }").replace("struct T", "struct T final"), "T"
        else:
            noex = g.of(["", " noexcept"])
            abstract = g.of(["", "virtual int v() const = 0;", "virtual int v() const { return 1; }"])
            d = "struct T { %s virtual ~T()%s {} int t = 42; %s };\n" % (abstract, noex, payload(g))
            over = "int v() const override { return 2; }" if abstract else ""
            if form == 3:
                d += counted("D", g, "T", params, body, extra=over)
            elif form == 4:                                                      # T is not at the start of D
                d += "struct Front { virtual ~Front() = default; %s virtual void f() {} int front = 11; };\n" % payload(g)
                d += counted("D", g, "Front, T", params, body, extra=over)
            elif form == 5:                                                      # T is a virtual base
                d += counted("D", g, "virtual T", params, body, extra=over)
            elif form == 6:                                                      # two levels
                d += "struct Mid : T { int mid = 9; %s %s };\n" % (payload(g), over)
                d += counted("D", g, "Mid", params, body)
            else:                                                                # the virtual destructor comes from above T
                d = "struct Root { virtual ~Root() = default; };\nstruct T : Root { int t = 42; %s };\n" % payload(g)
                d += counted("D", g, "T", params, body).replace("struct D", g.of(["struct D", "struct D final"]))
            D = "D"
        n = 1 + g.n(4)
        u = [RESET, "    {", "    ObjectPool< T > pool{ %d, sizeof( %s ) };" % (n, D), "    std::vector< typename ObjectPool< T >::ObjectPtrType > held;", "    const auto & cp = pool;",
             "    REQ( cp.getSize() >= %d );" % n, "    const auto size = cp.getSize();", "    for ( std::size_t i = 0; i != %d; ++i )" % n, "    {", "    " + before,
             "        auto p = pool.template createObj< %s >( %s );" % (D, ", ".join(args)), "    " + after,
             "        static_assert( std::is_same< decltype( p ), ObjectPoolPtrType< T > >::value, \"\" );", "        REQ( p && ok && made == int( i ) + 1 && gone == 0 );"]
        if D == "D":
            u.append("        REQ( p->t == 42 && %s( p.get() ) != nullptr );" % ("dynamic_cast< D * >"))
        share = g.n(3)
        if share == 1:
            u.append("        { std::shared_ptr< T > sp = std::move( p ); REQ( !p && gone == 0 ); } REQ( ok && gone == 1 ); gone = 0; made = int( i ) + 1;")
        else:
            u.append("        held.push_back( std::move( p ) );")
        u += ["    }", "    REQ( pool.getRunningStateStatistics().runningCount == size - %s );" % ("0" if share == 1 else str(n)), "    held.clear();",
              "    REQ( ok && gone == %s && pool.getRunningStateStatistics().runningCount == size );" % ("0" if share == 1 else str(n)), "    }"]
        return Case(True, "ObjectPool< T >::createObj< %s >, form %d" % (D, form), COUNT + "\n" + d, "FACT( std::is_nothrow_destructible< %s >::value );" % D, "\n".join(u), form > 0 or bool(args))
    forms = [
        ("D is not derived from T", "struct T { virtual ~T() = default; }; struct D { virtual ~D() = default; };", "FACT( !std::is_base_of< T, D >::value );", ""),
        ("D converts to T", "struct T { virtual ~T() = default; }; struct D { T t; operator T *() { return &t; } };", "FACT( !std::is_base_of< T, D >::value );", ""),
        ("D is the base of T", "struct D { virtual ~D() = default; }; struct T : D { };", "FACT( !std::is_base_of< T, D >::value );", ""),
        ("T has no virtual destructor", "struct T { int a = 0; }; struct D : T { std::string s; };", "FACT( !std::has_virtual_destructor< T >::value );", ""),
        ("T has virtual functions, its destructor is not virtual", "struct T { virtual void f() {} }; struct D : T { void f() override {} std::string s; };", "FACT( std::is_polymorphic< T >::value && !std::has_virtual_destructor< T >::value );", ""),
        ("only the destructor of D is virtual", "struct T { int a = 0; }; struct D : T { virtual ~D() = default; };", "FACT( std::has_virtual_destructor< D >::value && !std::has_virtual_destructor< T >::value );", ""),
        ("D adds nothing, T has no virtual destructor", "struct T { int a = 0; }; struct D : T { };", "FACT( sizeof( T ) == sizeof( D ) && !std::has_virtual_destructor< T >::value );", ""),
        ("T has no virtual destructor, D is trivially destructible", "struct T { }; struct D : T { int a = 0; };", "FACT( std::is_trivially_destructible< D >::value );", ""),
        ("T has a virtual base, its own destructor is not virtual", "struct B { virtual ~B() = default; }; struct T { virtual int f() { return 1; } B b; }; struct D : T { };", "FACT( !std::has_virtual_destructor< T >::value );", ""),
        ("the destructor of T may throw", "struct T { ~T() noexcept( false ) {} }; using D = T;", "FACT( !std::is_nothrow_destructible< D >::value );", ""),
        ("the destructor of D may throw", "struct T { virtual ~T() noexcept( false ) {} }; struct D : T { ~D() noexcept( false ) override {} };", "FACT( !std::is_nothrow_destructible< D >::value );", ""),
        ("a member of D may throw when destroyed", "struct T { virtual ~T() noexcept( false ) {} }; struct M { ~M() noexcept( false ) {} }; struct D : T { M m; };", "FACT( !std::is_nothrow_destructible< D >::value );", ""),
        ("a member of T may throw when destroyed", "struct M { ~M() noexcept( false ) {} }; struct T { M m; }; using D = T;", "FACT( !std::is_nothrow_destructible< D >::value );", ""),
        ("D cannot be destroyed", "struct T { virtual ~T() = default; }; struct D : T { private: ~D() override = default; };", "FACT( !std::is_destructible< D >::value );", ""),
        ("T cannot be destroyed", "struct T { ~T() = delete; }; using D = T;", "FACT( !std::is_destructible< D >::value );", ""),
        ("D is abstract", "struct T { virtual ~T() = default; virtual void f() = 0; }; struct D : T { virtual void h() {} };", "FACT( std::is_abstract< D >::value );", ""),
        ("T itself is abstract", "struct T { virtual ~T() = default; virtual void f() = 0; }; using D = T;", "FACT( std::is_abstract< D >::value );", ""),
        ("no constructor takes the arguments", "struct T { virtual ~T() = default; }; struct D : T { explicit D( int * ) {} };", "FACT( !std::is_constructible< D, std::string >::value );", "std::string()"),
        ("a constructor argument is missing", "struct T { virtual ~T() = default; }; struct D : T { D( int, int ) {} };", "FACT( !std::is_constructible< D, int >::value );", "1"),
        ("the constructor is private", "struct T { virtual ~T() = default; }; struct D : T { private: D() {} };", "FACT( !std::is_default_constructible< D >::value );", ""),
        ("the constructor wants a non-constant lvalue", "struct T { virtual ~T() = default; }; struct D : T { explicit D( std::string & ) {} };", "FACT( !std::is_constructible< D, std::string >::value );", "std::string()"),
        ("the constructor wants an rvalue", "static std::string lv; struct T { virtual ~T() = default; }; struct D : T { explicit D( std::string && ) {} };", "FACT( !std::is_constructible< D, std::string & >::value );", "lv"),
        ("a move-only argument is not given away", "static std::unique_ptr< int > lv; struct T { virtual ~T() = default; }; struct D : T { explicit D( std::unique_ptr< int > ) {} };", "FACT( !std::is_constructible< D, std::unique_ptr< int > & >::value );", "lv"),
        ("T is a private base of D", "struct T { virtual ~T() = default; }; struct D : private T { };", "FACT( !std::is_convertible< D *, T * >::value );", ""),
        ("T is an ambiguous base of D", "struct T { virtual ~T() = default; }; struct A : T {}; struct B : T {}; struct D : A, B { };", "FACT( !std::is_convertible< D *, T * >::value );", ""),
        ("D is a pointer", "struct T { virtual ~T() = default; }; using D = T *;", "FACT( !std::is_base_of< T, D >::value );", ""),
        ("D is void", "struct T { virtual ~T() = default; }; using D = void;", "FACT( !std::is_base_of< T, D >::value );", ""),
    ]
    what, d, fact, args = g.of(forms)
    extra = payload(g)
    if extra and "using D" not in d:
        d = re.sub(r"struct D( : [^{]*)?\{", lambda m: m.group(0) + " " + (extra if "trivially" not in fact and "sizeof" not in fact else ""), d, count=1)
    if what == "the constructor is private" or "cannot be destroyed" in what:
        pass
    dynamic = g.flag()
    u = "    ObjectPool< T > pool{ %d%s };\n    auto p = pool.template createObj< D >( %s );\n    (void)p;" % (1 + g.n(4), ", 512" if dynamic else "", args)
    return Case(False, "ObjectPool: " + what, d, fact, u)


# ---------------------------------------------------------------- block pools
def block(g):
    k = g.n(8)
    n, m = 1 + g.n(4), 1 + g.n(6)
    if k < 2:
        d, t, vals, kind = scalar(g)
        if t == "long double":                                                   # pools are for types aligned to 8
            t, vals = "double", [v.replace("long double", "double") for v in vals]
        u = ["    using T = %s;" % t, "    T vals[] = { %s };" % ", ".join(vals), "    const std::size_t nv = sizeof( vals ) / sizeof( vals[ 0 ] );", "    BlockPool< T > pool{ %d, %d };" % (n, m), "    const auto & cp = pool;",
             "    const auto size = cp.getSize();", "    REQ( size >= %d );" % n, "    std::vector< typename BlockPool< T >::BlockPtrType > held;",
             "    for ( int i = 0; i != %d; ++i )" % n, "    {", "        auto b = pool.getBlock();", "        static_assert( std::is_same< decltype( b ), BlockPoolPtrType< T > >::value, \"\" );",
             "        REQ( b && b.get_deleter().getNumElements() == %d );" % m, "        for ( std::size_t e = 0; e != %d; ++e ) b[ e ] = vals[ ( i + e ) %% nv ];" % m, "        held.push_back( std::move( b ) );", "    }",
             "    for ( int i = 0; i != %d; ++i ) for ( std::size_t e = 0; e != %d; ++e ) REQ( held[ i ][ e ] == vals[ ( i + e ) %% nv ] );" % (n, m),
             "    held.clear();", "    REQ( cp.getRunningStateStatistics().runningCount == size );"]
        return Case(True, "BlockPool of %s" % t, d, "FACT( std::is_scalar< %s >::value );" % t, "\n".join(u), kind not in ("integer", "floating"))
    if k < 5:
        spec = g.of(["", " noexcept", " noexcept( false )"])
        expl = g.of(["", "explicit "])
        params = g.of(["", "int a = 1", "int a = 1, const std::string & b = std::string()", "std::initializer_list< int > * l = nullptr"])
        virt = g.of(["", "virtual "])
        copies = g.of(["", "E( const E & ) = delete; E & operator =( const E & ) = delete;", "E( E && ) = delete;", "E( const E & ) noexcept( false ) {} "])
        base = g.of(["", "", " : Root", " : virtual Root"])
        d = COUNT + "\nstruct Root { virtual ~Root() = default; int r = 8; };\nstruct E%s {\n    %s\n    %sE( %s )%s { ++made; note( this ); }\n    %s\n    %s~E() { ++gone; ok = ok && here( this ); }\n    char mark = 77;\n};" % (
            base, payload(g), expl, params, spec, copies, virt)
        u = [RESET, "    {", "    BlockPool< E > pool{ %d, %d };" % (n, m), "    const auto & cp = pool;", "    const auto size = cp.getSize();", "    REQ( size >= %d );" % n,
             "    std::vector< typename BlockPool< E >::BlockPtrType > held;", "    for ( int i = 0; i != %d; ++i )" % n, "    {", "        auto b = pool.getBlock();",
             "        static_assert( std::is_same< decltype( b ), BlockPoolPtrType< E > >::value, \"\" );", "        REQ( b && made == ( i + 1 ) * %d && gone == 0 && ok && b.get_deleter().getNumElements() == %d );" % (m, m),
             "        for ( int e = 0; e != %d; ++e ) REQ( b[ e ].mark == 77 );" % m, "        held.push_back( std::move( b ) );", "    }",
             "    REQ( cp.getRunningStateStatistics().runningCount == size - %d );" % n, "    held.clear();", "    REQ( ok && gone == made && cp.getRunningStateStatistics().runningCount == size );", "    }", "    REQ( ok && gone == made );"]
        return Case(True, "BlockPool of a class", d, "FACT( std::is_default_constructible< E >::value && std::is_nothrow_destructible< E >::value );", "\n".join(u))
    forms = [
        ("no default constructor", "struct E { explicit E( int ) {} %s };", "FACT( !std::is_default_constructible< E >::value );"),
        ("a deleted default constructor", "struct E { E() = delete; %s };", "FACT( !std::is_default_constructible< E >::value );"),
        ("a private default constructor", "struct E { %s private: E() {} };", "FACT( !std::is_default_constructible< E >::value );"),
        ("a protected default constructor", "struct E { %s protected: E() {} };", "FACT( !std::is_default_constructible< E >::value );"),
        ("a reference member", "struct E { int & r; %s };", "FACT( !std::is_default_constructible< E >::value );"),
        ("a constant member without a value", "struct E { const int c; %s };", "FACT( !std::is_default_constructible< E >::value );"),
        ("a member without default constructor", "struct M { explicit M( int ) {} }; struct E { M m; %s };", "FACT( !std::is_default_constructible< E >::value );"),
        ("a destructor that may throw", "struct E { ~E() noexcept( false ) {} %s };", "FACT( !std::is_nothrow_destructible< E >::value );"),
        ("a member whose destructor may throw", "struct M { ~M() noexcept( false ) {} }; struct E { M m; %s };", "FACT( !std::is_nothrow_destructible< E >::value );"),
        ("a base whose destructor may throw", "struct M { ~M() noexcept( false ) {} }; struct E : M { %s };", "FACT( !std::is_nothrow_destructible< E >::value );"),
        ("a virtual destructor that may throw", "struct E { virtual ~E() noexcept( false ) {} %s };", "FACT( !std::is_nothrow_destructible< E >::value );"),
        ("a private destructor", "struct E { %s private: ~E() {} };", "FACT( !std::is_destructible< E >::value );"),
        ("a deleted destructor", "struct E { ~E() = delete; %s };", "FACT( !std::is_destructible< E >::value );"),
        ("a pure virtual function", "struct E { virtual ~E() = default; virtual void f() = 0; %s };", "FACT( std::is_abstract< E >::value );"),
        ("nothrow construction and a destructor that may throw", "struct E { E() noexcept {} ~E() noexcept( false ) {} %s };", "FACT( !std::is_nothrow_destructible< E >::value );"),
    ]
    what, d, fact = g.of(forms)
    d = d % payload(g)
    u = "    BlockPool< E > pool{ %d, %d };\n" % (n, m) + g.of(["    auto b = pool.getBlock();\n    (void)b;", "    (void)pool;"])
    if "private destructor" in what or "deleted destructor" in what or "default constructor" in what or "member" in what:
        pass
    return Case(False, "BlockPool of a class with " + what, d, fact, u)


# ---------------------------------------------------------------- message queues
def queue(g):
    k = g.n(9)
    if k < 5:
        params, args, before, body, after = arguments(g)
        named = g.flag()
        form = g.n(5)
        nm = "const char * name() const override { return \"name of M\"; }" if named else ""
        moves = "    M( M && o ) noexcept : keep( o.keep ) { ++made; ++moved; note( this ); o.keep = 0; }\n    M & operator =( M && o ) noexcept { keep = o.keep; o.keep = 0; return *this; }\n"
        pre, bases = "", "public MessageBase"
        if form == 1:
            pre, bases = "struct Mid : MessageBase { int mid = 4; %s };\n" % payload(g).replace("std::unique_ptr< int > pu", "std::shared_ptr< int > pu").replace("make_unique", "make_shared"), "public Mid"
        elif form == 2:
            pre, bases = "struct Front { virtual ~Front() = default; long front[ 3 ] = { 5, 6, 7 }; };\n", "public Front, public MessageBase"
        elif form == 3:
            bases = "virtual public MessageBase"
        elif form == 4:
            pre, bases = "struct Mid : MessageBase { void dispatch() override { wrong = true; } };\n", "public Mid"
        final = g.of(["", " final"])
        d = COUNT + "\nstatic int moved, sent; static bool wrong;\n" + pre + "struct M%s : %s {\n    %s\n    explicit M( %s ) : keep( 4242 ) { ++made; note( this ); %s }\n%s    ~M() override { ++gone; ok = ok && here( this ); }\n%s    void dispatch() override { ++sent; ok = ok && keep == 4242; }\n%s    %s\n    int keep;\n};" % (
            final, bases, payload(g), params, body, moves, *g.of([("", ""), ("private:\n", "public:\n")]), nm)
        n = 1 + g.n(4)
        how = g.n(3)
        u = [RESET, "    moved = sent = 0; wrong = false;", "    {", "    MessageQueue q{ %d, sizeof( M )%s };" % (n, g.of(["", ", true"])), "    for ( int i = 0; i != %d; ++i )" % n, "    {", "    " + before]
        al = ", ".join(args)
        if how == 0:
            u.append("        q.template emplace< M >( %s );" % al)
        elif how == 1:
            u.append("        q.put( M%s );" % ("( %s )" % al if args else "{}"))
        else:
            u.append("        { M m%s; q.put( std::move( m ) ); REQ( m.keep == 0 ); }" % ("( %s )" % al if args else "{}"))
        u += ["    " + after, "        REQ( ok && made - gone == i + 1 && moved == %s );" % ("0" if how == 0 else "i + 1"), "    }",
              "    for ( int i = 0; i != %d; ++i )" % n, "    {", "        int woke = 0;", "        %s" % ("q.getAndDispatch(); ++woke;" if g.flag() else "q.getAndDispatch( [ &woke ]{ ++woke; } );"),
              "        REQ( ok && !wrong && woke == 1 && sent == i + 1 && made - gone == %d - 1 - i );" % n, "        const char * name = q.getNameOfLastMessageDispatched();", "        REQ( name && std::string( name ) == \"%s\" );" % ("name of M" if named else "Unforgiven"),
              "    }", "    REQ( q.getRunningStateStatistics().runningCount == 0 );", "    }", "    REQ( ok && made == gone );"]
        return Case(True, "MessageQueue, message form %d" % form, d, "FACT( std::is_base_of< MessageBase, M >::value && std::is_nothrow_move_constructible< M >::value && std::is_nothrow_move_assignable< M >::value );", "\n".join(u), form > 0 or bool(args))
    forms = [
        ("not a message", "struct M { void dispatch() {} const char * name() const { return \"\"; } %s };", "FACT( !std::is_base_of< MessageBase, M >::value );", "both"),
        ("not a message, but like one", "struct M { virtual ~M() noexcept = default; virtual void dispatch() {} virtual const char * name() const { return \"\"; } %s };", "FACT( !std::is_base_of< MessageBase, M >::value );", "both"),
        ("it contains a message", "struct I : MessageBase { void dispatch() override {} }; struct M { I i; operator I &() { return i; } %s };", "FACT( !std::is_base_of< MessageBase, M >::value );", "both"),
        ("a pointer to a message", "struct I : MessageBase { void dispatch() override {} %s }; using M = I *;", "FACT( std::is_pointer< M >::value );", "both"),
        ("a number", "%s using M = long;", "FACT( std::is_scalar< M >::value );", "both"),
        ("a unique_ptr to a message", "struct I : MessageBase { void dispatch() override {} %s }; using M = std::unique_ptr< I >;", "FACT( !std::is_base_of< MessageBase, M >::value );", "both"),
        ("derived privately", "struct M : private MessageBase { void dispatch() override {} %s };", "FACT( !std::is_convertible< M *, MessageBase * >::value );", "both"),
        ("derived protectedly", "struct M : protected MessageBase { void dispatch() override {} %s };", "FACT( !std::is_convertible< M *, MessageBase * >::value );", "both"),
        ("an ambiguous base", "struct A : MessageBase { void dispatch() override {} }; struct B : MessageBase { void dispatch() override {} }; struct M : A, B { %s };", "FACT( !std::is_convertible< M *, MessageBase * >::value );", "both"),
        ("abstract", "struct M : MessageBase { %s virtual void more() {} };", "FACT( std::is_abstract< M >::value );", "emplace"),
        ("dispatch takes an argument", "struct M : MessageBase { %s void dispatch( int ) {} };", "FACT( std::is_abstract< M >::value );", "emplace"),
        ("it can be neither moved nor copied", "struct M : MessageBase { M() {} M( const M & ) = delete; void dispatch() override {} %s };", "FACT( !std::is_move_constructible< M >::value );", "put"),
        ("it cannot be moved", "struct M : MessageBase { M() {} M( M && ) = delete; void dispatch() override {} %s };", "FACT( !std::is_move_constructible< M >::value );", "put"),
        ("its move constructor is private", "struct M : MessageBase { M() {} void dispatch() override {} %s private: M( M && ) {} };", "FACT( !std::is_move_constructible< M >::value );", "put"),
        ("its destructor is private", "struct M : MessageBase { void dispatch() override {} %s private: ~M() override = default; };", "FACT( !std::is_destructible< M >::value );", "emplace"),
        ("no such constructor", "struct M : MessageBase { explicit M( int * ) {} M( M && ) = default; void dispatch() override {} %s };", "FACT( !std::is_default_constructible< M >::value );", "emplace"),
    ]
    what, d, fact, how = g.of(forms)
    p = payload(g)
    if what == "a number":
        p = ""
    d = d % p
    if how == "both":
        how = g.of(["emplace", "put"])
    u = "    MessageQueue q{ 2, 256 };\n" + ("    q.template emplace< M >();" if how == "emplace" else "    static M * m = nullptr;\n    q.put( std::move( *m ) );")
    return Case(False, "MessageQueue %s: %s" % (how, what), d, fact, u)


# ---------------------------------------------------------------- handles: what can be copied, moved, read through a constant
COMPONENTS = [("RingBufferSimple< S >", "a{ 4 }"), ("RingBufferGuarded< S >", "a{ 4 }"), ("ObjectPool< O >", "a{ 4 }"), ("BlockPool< S >", "a{ 4, 4 }"), ("BlockPool< O >", "a{ 4, 4 }"),
              ("MessageQueue", "a{ 4, 64 }"), ("Semaphore", "a{ 1 }"), ("Mutex", "a")]


def handles(g):
    d0, t, vals, kind = scalar(g)
    t = "double" if t == "long double" else t
    o = g.of(["struct O { int a = 1; %s };", "struct O { virtual ~O() = default; %s };", "struct O { O() {} O( const O & ) = delete; %s };"]) % payload(g)
    d = d0 + "\nusing S = %s;\n" % t + o
    k = g.n(8)
    c, init = g.of(COMPONENTS)
    if k < 3:
        use = g.of([("copied", "    %(c)s b{ a };"), ("moved", "    %(c)s b{ std::move( a ) };"), ("assigned", "    %(c)s %(b)s;\n    b = a;"), ("moved onto another", "    %(c)s %(b)s;\n    b = std::move( a );"),
                    ("swapped", "    %(c)s %(b)s;\n    std::swap( a, b );"), ("passed by value", "    void sink( %(c)s );\n    sink( a );"), ("put into a vector", "    std::vector< %(c)s > v;\n    v.push_back( std::move( a ) );"),
                    ("captured by value", "    auto f = [ a ]{};\n    (void)f;")])
        return Case(False, "%s %s" % (c, use[0]), d, "FACT( sizeof( S ) > 0 );", "    %s %s;\n" % (c, init) + use[1] % {"c": c, "b": "b" + init[1:]})
    if k == 3:
        u = ["    static_assert( !std::is_copy_constructible< %s >::value && !std::is_copy_assignable< %s >::value, \"\" );" % (c, c), "    static_assert( !std::is_move_constructible< %s >::value && !std::is_move_assignable< %s >::value, \"\" );" % (c, c),
             "    static_assert( std::is_nothrow_destructible< %s >::value, \"\" );" % c, "    static_assert( !std::is_convertible< std::size_t, %s >::value, \"\" );" % c,
             "    auto keep = std::make_unique< %s >%s;\n    REQ( keep != nullptr );" % (c, "( %s )" % init[2:-1].strip() if "{" in init else "()")]
        return Case(True, "%s is not copied or moved, and lives on the heap" % c, d, "FACT( sizeof( S ) > 0 );", "\n".join(u))
    if k == 4:
        P = g.of(["ObjectPoolPtrType< O >", "BlockPoolPtrType< O >", "BlockPoolPtrType< S >", "MessageQueue::AutoDispatchLock"])
        use = g.of([("copied", "    %s b{ a };"), ("copy assigned", "    %s b{ std::move( a ) };\n    a = b;"), ("passed by value without std::move", "    void sink( %s );\n    sink( a );")])
        make = {"O": "    ObjectPool< O > pool{ 4 };\n    auto a = pool.template createObj< O >();", "B": "    BlockPool< %s > pool{ 4, 4 };\n    auto a = pool.getBlock();" % P[-3], "M": "    MessageQueue pool{ 4, 64, true };\n    auto a = pool.getAutoDispatchLock();"}[P[0]]
        return Case(False, "%s %s" % (P, use[0]), d, "FACT( sizeof( S ) > 0 );", make + "\n" + use[1] % P)
    if k == 5:
        P, make = g.of([("ObjectPoolPtrType< O >", "    ObjectPool< O > pool{ 4 };\n    auto a = pool.template createObj< O >();"), ("BlockPoolPtrType< O >", "    BlockPool< O > pool{ 4, 4 };\n    auto a = pool.getBlock();"),
                        ("BlockPoolPtrType< S >", "    BlockPool< S > pool{ 4, 4 };\n    auto a = pool.getBlock();")])
        u = [make, "    static_assert( std::is_same< decltype( a ), %s >::value, \"\" );" % P, "    static_assert( std::is_nothrow_move_constructible< %s >::value && std::is_nothrow_move_assignable< %s >::value && std::is_default_constructible< %s >::value, \"\" );" % (P, P, P),
             "    const auto full = pool.getRunningStateStatistics().runningCount;", "    %s b{ std::move( a ) };" % P, "    REQ( !a && b );", "    %s e;" % P, "    REQ( !e );", "    e = std::move( b );", "    REQ( e && !b && pool.getRunningStateStatistics().runningCount == full );",
             "    std::vector< %s > v( 3 );" % P, "    v[ 1 ] = std::move( e );", "    v.resize( 20 );", "    std::swap( v[ 1 ], v[ 7 ] );", "    REQ( v[ 7 ] && !v[ 1 ] && pool.getRunningStateStatistics().runningCount == full );",
             "    v[ 7 ].reset();", "    REQ( pool.getRunningStateStatistics().runningCount == full + 1 );"]
        if P[0] == "O":
            u += ["    std::shared_ptr< O > s = pool.template createObj< O >();", "    REQ( s && pool.getRunningStateStatistics().runningCount == full );", "    s.reset();", "    REQ( pool.getRunningStateStatistics().runningCount == full + 1 );"]
        return Case(True, "%s is moved" % P, d, "FACT( sizeof( S ) > 0 );", "\n".join(u))
    if k == 6:
        which = g.n(4)
        if which == 0:
            u = "    MessageQueue q{ 4, 64, true };\n    using L = MessageQueue::AutoDispatchLock;\n    static_assert( std::is_move_constructible< L >::value && !std::is_copy_constructible< L >::value && !std::is_default_constructible< L >::value, \"\" );\n" \
                "    auto a = q.getAutoDispatchLock();\n    std::vector< L > v;\n    v.push_back( std::move( a ) );\n    v.pop_back();\n    auto b = q.getAutoDispatchLock();\n    L c{ std::move( b ) };\n    c.unlock();\n    c.lock();"
        elif which == 1:
            u = "    Mutex m;\n    { std::lock_guard< Mutex > l{ m }; }\n    { std::unique_lock< Mutex > l{ m, std::try_to_lock }; REQ( l.owns_lock() ); }\n    std::unique_lock< Mutex > l{ m, std::defer_lock };\n    REQ( l.try_lock() );\n    l.unlock();\n    Mutex o;\n    { std::scoped_lock< Mutex, Mutex > both{ m, o }; }\n    std::lock( m, o ); m.unlock(); o.unlock();\n    REQ( m.native_handle() != nullptr );"
        elif which == 2:
            u = "    const RingBufferSimple< S > r{ 5 };\n    REQ( r.getSize() == 8 && r.getMask() == 7 && r.getNumBits() == 3 );\n    const RingBufferGuarded< S > h{ 5 };\n    REQ( h.getSize() == 8 && h.getMask() == 7 && h.getNumBits() == 3 );\n    static_assert( noexcept( r.getSize() ) && noexcept( h.getSize() ), \"\" );"
        else:
            u = "    const ObjectPool< O > p{ 5 };\n    REQ( p.getSize() >= 5 && p.getRunningStateStatistics().size == p.getSize() );\n    const BlockPool< S > b{ 5, 3 };\n    REQ( b.getSize() >= 5 && b.getRunningStateStatistics().size == b.getSize() );\n    static_assert( noexcept( p.getSize() ) && noexcept( b.getRunningStateStatistics() ), \"\" );\n" \
                "    ObjectPool< O >::RunningStateStats s = p.getRunningStateStatistics();\n    REQ( s.runningCount == s.size && s.lowWatermark == s.size );"
        return Case(True, "used through the standard library or a constant, %d" % which, d, "FACT( sizeof( S ) > 0 );", u)
    E = g.of(["RingBufferUnderflow", "RingBufferOverflow", "RingBufferStateError", "SemaphoreAborted", "SemaphoreOverflow", "ObjectPoolElementSizeError", "MessageQueueElementSizeError", "MessageQueueDispatchLockingDisabled"])
    n = g.n(3)
    u = {"RingBufferUnderflow": "RingBufferSimple< S > r{ 2 }; r.get();", "RingBufferOverflow": "RingBufferSimple< S > r{ 2 }; for ( int i = 0; i != 3; ++i ) r.put( S{} );",
         "RingBufferStateError": "RingBufferGuarded< S > r{ 2, true }; r.put( S{} );", "SemaphoreAborted": "Semaphore s{ 1 }; s.abort(); s.take();", "SemaphoreOverflow": "Semaphore s{ 0xFFFFFFFFu }; s.give();",
         "ObjectPoolElementSizeError": "struct Big : V { char big[ 4000 ] = {}; }; ObjectPool< V > p{ 2 }; p.template createObj< Big >();", "MessageQueueElementSizeError": "struct Big : MessageBase { void dispatch() override {} char big[ 4000 ] = {}; }; MessageQueue q{ 2, 16 }; q.template emplace< Big >();",
         "MessageQueueDispatchLockingDisabled": "MessageQueue q{ 2, 16 }; auto l = q.getAutoDispatchLock();"}[E]
    catch = ["const %s & e" % E, "const std::runtime_error & e", "const std::exception & e"][n]
    return Case(True, "%s caught as %s" % (E, catch), d + "\nstruct V { virtual ~V() = default; };", "FACT( sizeof( S ) > 0 );",
                "    bool caught = false;\n    try { %s }\n    catch ( %s ) { caught = e.what() && dynamic_cast< const %s * >( &static_cast< const std::exception & >( e ) ) != nullptr; }\n    REQ( caught );\n    static_assert( std::is_copy_constructible< %s >::value, \"\" );" % (u, catch, E, E))


# ---------------------------------------------------------------- headers: any of them, in any order, in several translation units
USES = {
    "RingBufferSimple.hpp": "{ RingBufferSimple< int > r{ 4 }; r.put( 7 ); RingBufferSimple< const char * > s{ 4 }; s.put( \"x\" ); if ( r.get() != 7 || *s.get() != 'x' ) return false; }",
    "RingBufferGuarded.hpp": "{ RingBufferGuarded< int > r{ 4 }; r.put( 7 ); RingBufferGuarded< int * > s{ 4 }; s.put( nullptr ); if ( r.get() != 7 || s.get() ) return false; }",
    "Semaphore.hpp": "{ Semaphore s{ 1 }; s.take(); s.give(); if ( s.getAvailableCount() != 1 ) return false; }",
    "Mutex.hpp": "{ Mutex m; m.lock(); m.unlock(); if ( !m.try_lock() ) return false; m.unlock(); }",
    "ObjectPool.hpp": "{ ObjectPool< long > *none = nullptr; (void)none; struct A { int a = 3; }; ObjectPool< A > p{ 4 }; auto o = p.createObj< A >(); if ( o->a != 3 ) return false; }",
    "BlockPool.hpp": "{ BlockPool< long > p{ 4, 8 }; auto o = p.getBlock(); o[ 7 ] = 4; if ( o[ 7 ] != 4 ) return false; }",
    "MessageQueue.hpp": "{ struct A : MessageBase { int * p; explicit A( int * x ) : p( x ) {} void dispatch() override { ++*p; } }; MessageQueue q{ 2, sizeof( A ) }; int n = 0; q.emplace< A >( &n ); q.put( A{ &n } ); q.getAndDispatch(); q.getAndDispatch(); if ( n != 2 ) return false; }",
    "ReiserRT_CoreExceptions.hpp": "{ bool c = false; try { throw RingBufferUnderflow{ \"u\" }; } catch ( const RingBufferUnderflow & ) { c = true; } if ( !c ) return false; }",
}


def headers(g):
    units = 2 + g.n(2)
    files = {}
    incomplete = g.flag()
    for i in range(units):
        pick = []
        for _ in range(1 + g.n(6)):
            pick.append(g.of(HEADERS))
        if incomplete and i == 0:
            pick = [h for h in pick if h != "ObjectPool.hpp" and h != "BlockPool.hpp"] + ["ObjectPool.hpp", "BlockPool.hpp"]
        src = "".join('#include "%s"\n' % h for h in pick)
        if incomplete:
            src += "#include \"ObjectPoolDeleter.hpp\"\n#include \"BlockPoolDeleter.hpp\"\n#include \"ObjectPoolFwd.hpp\"\n#include \"BlockPoolFwd.hpp\"\nstruct Part;\nstruct Holder { ReiserRT::Core::ObjectPoolPtrType< Part > p; ReiserRT::Core::BlockPoolPtrType< Part > b; Holder(); ~Holder(); bool ok() const; };\n" if i else \
                   "#include \"ObjectPoolFwd.hpp\"\n#include \"BlockPoolFwd.hpp\"\nstruct Part;\nstruct Holder { ReiserRT::Core::ObjectPoolPtrType< Part > p; ReiserRT::Core::BlockPoolPtrType< Part > b; Holder(); ~Holder(); bool ok() const; };\n" \
                   "struct Part { int a = 6; };\nstatic ReiserRT::Core::ObjectPool< Part > thePool{ 4 };\nstatic ReiserRT::Core::BlockPool< Part > theBlocks{ 4, 4 };\n" \
                   "Holder::Holder() : p{ thePool.createObj< Part >() }, b{ theBlocks.getBlock() } {}\nHolder::~Holder() = default;\nbool Holder::ok() const { return p && p->a == 6 && b && b[ 3 ].a == 6; }\n"
        src += "using namespace ReiserRT::Core;\nbool unit%d()\n{\n" % i
        for h in sorted(set(pick)):
            if h in USES:
                src += "    " + USES[h] + "\n"
        if incomplete and i:
            src += "    { Holder h; if ( !h.ok() ) return false; }\n"
        src += "    return true;\n}\n"
        files["u%d.cpp" % i] = src
    files["main.cpp"] = "".join("bool unit%d();\n" % i for i in range(units)) + "int main() { return %s ? 0 : 3; }\n" % " && ".join("unit%d()" % i for i in range(units))
    return Case(True, "%d translation units" % units, files=files)


# ---------------------------------------------------------------- the library as it is shipped: shared, everything hidden that is not exported
EXCEPTIONS = ["RingBufferUnderflow", "RingBufferOverflow", "RingBufferStateError", "SemaphoreAborted", "SemaphoreOverflow", "ObjectPoolElementSizeError", "MessageQueueElementSizeError", "MessageQueueDispatchLockingDisabled"]
PARTS = [  # declarations, use
    ("", "    { Semaphore s{ 1, 3 }; int n = 0; s.take(); s.give(); s.take( Semaphore::FunctionType{ [ & ]{ ++n; } } ); s.give( Semaphore::FunctionType{ [ & ]{ ++n; } } ); REQ( n == 2 && s.getAvailableCount() == 1 );\n"
         "      s.abort(); bool c = false; try { s.take(); } catch ( const SemaphoreAborted & ) { c = true; } REQ( c ); }"),
    ("", "    { Mutex m; m.lock(); bool got = true; std::thread( [ & ]{ got = m.try_lock(); } ).join(); m.unlock(); REQ( !got && m.try_lock() ); m.unlock(); REQ( m.native_handle() != nullptr ); }"),
    ("", "    { RingBufferSimple< S > r{ 4 }; r.put( S{} ); (void)r.get(); bool c = false; try { (void)r.get(); } catch ( const RingBufferUnderflow & ) { c = true; } REQ( c ); }"),
    ("", "    { RingBufferSimple< S * > r{ 2 }; static S s{}; r.put( &s ); r.put( &s ); bool c = false; try { r.put( &s ); } catch ( const RingBufferOverflow & ) { c = true; } REQ( c && r.get() == &s ); }"),
    ("", "    { RingBufferGuarded< S > r{ 4 }; r.put( S{} ); (void)r.get(); r.put( S{} ); r.abort(); int n = 0; r.flush( [ & ]( S ) { ++n; } ); REQ( n == 1 ); bool c = false; try { (void)r.get(); } catch ( const std::runtime_error & ) { c = true; } REQ( c ); }"),
    ("", "    { static S s[ 4 ]; RingBufferGuarded< S * > r{ 4, true }; bool c = false; try { r.put( s ); } catch ( const RingBufferStateError & ) { c = true; } REQ( c );\n"
         "      r.prime( []( std::size_t i ) -> void * { return s + i; } ); for ( int i = 0; i != 4; ++i ) REQ( r.get() == s + i ); }"),
    ("struct O { int a; explicit O( int x ) : a( x ) {} virtual ~O() = default; };\nstruct O2 : O { explicit O2( int x ) : O( x ) {} };",
     "    { ObjectPool< O > p{ 3 }; { auto o = p.template createObj< O2 >( 5 ); std::unique_ptr< O, std::function< void( O * ) > > f{ std::move( o ) }; REQ( f->a == 5 ); } auto s = p.getRunningStateStatistics(); REQ( p.getSize() == s.size && s.runningCount == s.size && s.lowWatermark + 1 == s.size );\n"
     "      ObjectPoolPtrType< O > q; q = p.template createObj< O2 >( 6 ); REQ( q->a == 6 ); }"),
    ("struct V { int a = 0; virtual ~V() = default; };\nstruct Vast : V { char more[ 4000 ] = {}; };", "    { ObjectPool< V > p{ 2 }; bool c = false; try { p.template createObj< Vast >(); } catch ( const ObjectPoolElementSizeError & ) { c = true; } REQ( c ); }"),
    ("", "    { BlockPool< S > p{ 3, 4 }; { auto b = p.getBlock(); b[ 3 ] = S{}; BlockPoolPtrType< S > q{ std::move( b ) }; REQ( q && !b ); } auto s = p.getRunningStateStatistics(); REQ( p.getSize() == s.size && s.runningCount == s.size && s.lowWatermark + 1 == s.size ); }"),
    ("struct M : MessageBase { int * p; explicit M( int * x ) : p( x ) {} void dispatch() override { ++*p; } const char * name() const override { return \"mine\"; } };\nstruct N : MessageBase { using MessageBase::MessageBase; void dispatch() override {} };",
     "    { MessageQueue q{ 4, sizeof( M ) }; int n = 0, w = 0; q.template emplace< M >( &n ); q.put( M{ &n } ); q.put( N{} ); M m{ &n }; M m2{ m }; m2 = m; q.put( std::move( m2 ) );\n"
     "      q.getAndDispatch(); REQ( !std::strcmp( q.getNameOfLastMessageDispatched(), \"mine\" ) ); q.getAndDispatch( [ & ]{ ++w; } ); q.getAndDispatch(); REQ( n == 2 && w == 1 && !std::strcmp( q.getNameOfLastMessageDispatched(), N{}.name() ) );\n"
     "      auto s = q.getRunningStateStatistics(); REQ( s.size >= 4 && s.runningCount == 1 && s.highWatermark == 4 ); q.purge(); q.abort();\n"
     "      bool c = false; try { q.getAndDispatch(); } catch ( const std::runtime_error & ) { c = true; } REQ( c && n == 2 ); }"),
    ("struct P : MessageBase { int * p; explicit P( int * x ) : p( x ) {} void dispatch() override { ++*p; } };",
     "    { MessageQueue q{ 2, sizeof( P ), true }; int n = 0; q.template emplace< P >( &n ); { auto l = q.getAutoDispatchLock(); l.unlock(); l.lock(); REQ( l.native_handle() != nullptr ); auto k = std::move( l ); } q.getAndDispatch(); REQ( n == 1 ); }"),
    ("", "    { MessageQueue q{ 2, 64 }; bool c = false; try { auto l = q.getAutoDispatchLock(); } catch ( const MessageQueueDispatchLockingDisabled & ) { c = true; } REQ( c ); }"),
    ("struct W : MessageBase { char much[ 4000 ] = {}; void dispatch() override {} };", "    { MessageQueue q{ 2, 16 }; bool c = false; try { q.template emplace< W >(); } catch ( const MessageQueueElementSizeError & ) { c = true; } REQ( c ); c = false; try { q.put( W{} ); } catch ( const std::runtime_error & ) { c = true; } REQ( c ); }"),
]


def shared(g):
    t = g.of([x for x in INTS if x != "bool"] + FLOATS)
    k = g.n(3)
    d = "using S = %s;" % t
    if k == 2:                                                                    # exceptions of the library, made by the program, and carried around
        E = g.of(EXCEPTIONS)
        base = g.of([E, "std::runtime_error", "std::exception"])
        u = g.of(["    std::exception_ptr p = std::make_exception_ptr( %s{ \"some text\" } );\n    std::exception_ptr q;\n    std::thread( [ & ]{ try { std::rethrow_exception( p ); } catch ( const %s & ) { q = std::current_exception(); } } ).join();\n    REQ( q == p );",
                  "    bool c = false;\n    try { const std::string s( \"some text\" ); throw %s{ s.c_str() }; } catch ( const %s & e ) { c = !std::strcmp( e.what(), \"some text\" ); }\n    REQ( c );",
                  "    bool c = false;\n    try { throw %s{ \"some text\" }; } catch ( const %s & e ) { c = !std::strcmp( e.what(), \"some text\" ) && std::string( typeid( e ).name() ).size() > 0; }\n    REQ( c );",
                  "    %s a{ \"some text\" };\n    auto b = a;\n    b = a;\n    const %s & e = b;\n    REQ( !std::strcmp( e.what(), \"some text\" ) );"]) % (E, base)
        return Case(True, "%s as %s" % (E, base), d, "FACT( std::is_base_of< std::runtime_error, %s >::value );" % E, u)
    picks = []
    for _ in range(1 + g.n(3)):
        i = g.n(len(PARTS))
        if i not in picks:
            picks.append(i)
    return Case(True, "parts %s of %s" % (picks, t), d + "".join("\n" + PARTS[i][0] for i in picks), "FACT( sizeof( S ) > 0 );", "\n".join(PARTS[i][1] for i in picks))


SUITES = [  # name, generator, cases (quick), rule
    ("C26.rings", rings, 260, "program that makes a ring of a generated element type (numbers, enums, pointers of all depths, member pointers; or a class, union, reference, array or constant), or puts or reads a differently typed pointer; non-trivial: the element is not a plain number"),
    ("C26.pool", pool, 260, "program that creates an object of a generated class in an object pool (bases, virtual and throwing destructors, argument categories); non-trivial: not a plain class created without arguments"),
    ("C26.block", block, 160, "program that takes blocks of a generated element type from a block pool; non-trivial: the element is not a plain number"),
    ("C26.queue", queue, 220, "program that enqueues a message of a generated class; non-trivial: not a direct message without arguments"),
    ("C26.handles", handles, 160, "program that copies, moves, swaps, stores, or reads through a constant, a component or what it hands out, over generated element types; non-trivial: all"),
    ("C26.headers", headers, 20, "2 or 3 translation units with a generated choice and order of the library's headers, linked together; non-trivial: all"),
    ("C26.shared", shared, 120, "program that uses 1 to 3 parts of the library, or makes, throws and carries an exception of it, linked with the library built as it is shipped: a shared object in which everything is hidden that is not exported; non-trivial: all"),
]


class Box:
    def __init__(self, here, repo, tmp):
        self.here, self.repo, self.tmp = here, repo, tmp
        self.inc = ["-std=c++17", "-w", "-pthread", "-DREISER_RT_HAS_PTHREADS", "-I" + here + "/engine/include", "-I" + repo + "/src"]
        self.env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:detect_stack_use_after_return=0:detect_odr_violation=0")
        self.shared = ["-I" + tmp + "/exported"] + self.inc
        self.kinds = {"clang": ["clang++", "-O0", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"], "gcc": ["g++", "-O2", "-DNDEBUG"]}
        self.count = 0

    def sh(self, cmd, timeout=300, env=None):
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env or self.env)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            return "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")

    def prepare(self):
        """Library objects for both compilers, precompiled headers."""
        jobs = []
        self.lib = {"clang": [], "gcc": []}
        os.makedirs(self.tmp + "/exported", exist_ok=True)                       # the header as CMake generates it
        open(self.tmp + "/exported/ReiserRT_CoreExport.h", "w").write(open(self.here + "/engine/include/ReiserRT_CoreExport.h").read().replace("#define ReiserRT_Core_EXPORT\n", "#define ReiserRT_Core_EXPORT __attribute__((visibility(\"default\")))\n").replace("#define ReiserRT_Core_NO_EXPORT\n", "#define ReiserRT_Core_NO_EXPORT __attribute__((visibility(\"hidden\")))\n"))
        for kind, cc in self.kinds.items():
            for s in sorted(glob.glob(self.repo + "/src/**/*.cpp", recursive=True)):
                o = "%s/%s_%s.o" % (self.tmp, kind, os.path.basename(s))
                self.lib[kind].append(o)
                jobs.append(cc + (self.inc if kind == "clang" else ["-fPIC", "-fvisibility=hidden", "-fvisibility-inlines-hidden"] + self.shared) + ["-c", s, "-o", o])
        open(self.tmp + "/all.hpp", "w").write(PRELUDE)
        std = [l for l in PRELUDE.split("\n") if '"' not in l or "define" in l]
        open(self.tmp + "/std.hpp", "w").write("\n".join(l for l in std if "ReiserRT" not in l) + "\n")
        open(self.tmp + "/msg.hpp", "w").write("\n".join(l for l in std if "ReiserRT" not in l) + "\n#include \"MessageQueueBase.hpp\"\nusing namespace ReiserRT::Core;\n")
        jobs.append(["clang++"] + self.inc + ["-x", "c++-header", self.tmp + "/all.hpp", "-o", self.tmp + "/check.pch"])
        jobs.append(self.kinds["clang"] + self.inc + ["-x", "c++-header", self.tmp + "/all.hpp", "-o", self.tmp + "/run.pch"])
        for p in ("std", "msg"):
            jobs.append(["clang++"] + self.inc + ["-x", "c++-header", "%s/%s.hpp" % (self.tmp, p), "-o", "%s/%s.pch" % (self.tmp, p)])
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for cmd, (rc, out) in zip(jobs, ex.map(self.sh, jobs)):
                if rc != 0:
                    return "%s\n%s" % (" ".join(cmd), out)
        rc, out = self.sh(["g++", "-shared", "-pthread"] + self.lib["gcc"] + ["-o", self.tmp + "/libcore.so"])
        if rc != 0:
            return out
        self.lib["gcc"] = [self.tmp + "/libcore.so", "-Wl,-rpath," + self.tmp]
        return None

    def name(self, suffix):
        self.count += 1
        return "%s/p%d%s" % (self.tmp, self.count, suffix)

    def syntax(self, text, pch):
        """(compiles, output)"""
        f = self.name(".cpp")
        open(f, "w").write(text)
        rc, out = self.sh(["clang++"] + self.inc + ["-include-pch", "%s/%s.pch" % (self.tmp, pch), "-fsyntax-only", f])
        os.unlink(f)
        if rc == 0:
            return True, out
        if rc == 1 and "error:" in out:
            return False, out
        raise RuntimeError("compiler: %s %s" % (rc, out[-2000:]))

    def refused(self, c):
        """None if the compiler refuses the use and nothing but the use; a message otherwise; 'invalid' if the types alone are at fault."""
        pch = "msg" if c.suite == "C26.queue" else "std"
        good, out = self.syntax(c.program("c0", use=False), pch)
        if not good:
            return "invalid"
        good, out = self.syntax(c.program("c0") + "int main() { return c0::run() != nullptr; }\n", "check")
        return "compiles, though it should be refused" if good else None

    def batch(self, cases, kind):
        """Compiles and runs cases together. Returns {index: message} of those that failed; None if the batch did not compile or link."""
        f, exe = self.name(".cpp"), self.name("")
        text = "".join(c.program("c%d" % i) for i, c in enumerate(cases))
        text += "int main( int argc, char ** argv )\n{\n    using F = const char * (*)();\n    F all[] = { %s };\n    for ( unsigned i = argc > 1 ? std::atoi( argv[ 1 ] ) : 0; i != %d; ++i )\n    {\n" \
                "        std::printf( \"BEGIN %%u\\n\", i ); std::fflush( stdout );\n        const char * m;\n        try { m = all[ i ](); } catch ( const std::exception & e ) { static char b[ 256 ]; std::snprintf( b, sizeof b, \"exception: %%s\", e.what() ); m = b; } catch ( ... ) { m = \"exception\"; }\n" \
                "        std::printf( m ? \"FAIL %%u %%s\\n\" : \"OK %%u\\n\", i, m ); std::fflush( stdout );\n    }\n    return 0;\n}\n" % (", ".join("&c%d::run" % i for i in range(len(cases))), len(cases))
        if kind == "gcc":
            open(f, "w").write(PRELUDE + text)
            cmd = self.kinds[kind] + self.shared + [f] + self.lib[kind] + ["-o", exe]
        else:
            open(f, "w").write(text)
            cmd = self.kinds[kind] + self.inc + ["-include-pch", self.tmp + "/run.pch", f] + self.lib[kind] + ["-o", exe]
        rc, out = self.sh(cmd)
        os.unlink(f)
        if rc != 0:
            if rc == "timeout" or "error" not in out:
                raise RuntimeError("compiler: %s %s" % (rc, out[-2000:]))
            self.lastOut = out
            return None
        bad, start = {}, 0
        while start < len(cases):
            rc, out = self.sh([exe, str(start)], timeout=60)
            last = start - 1
            done = set()
            for line in out.split("\n"):
                m = re.match(r"(BEGIN|OK|FAIL) (\d+) ?(.*)", line)
                if m:
                    i = int(m.group(2))
                    last = max(last, i)
                    if m.group(1) != "BEGIN":
                        done.add(i)
                    if m.group(1) == "FAIL":
                        bad[i] = "wrong result: " + m.group(3)
            if rc == 0:
                break
            at = last if last not in done else last + 1
            if at >= len(cases):
                break
            text = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*|terminate called[^\n]*)", out)
            bad[at] = ("does not end" if rc == "timeout" else "ends abnormally (%s)" % rc) + (": " + text.group(1) if text else "")
            start = at + 1
        os.unlink(exe)
        return bad

    def units(self, c, kind="clang"):
        d = self.name("_d")
        os.mkdir(d)
        for n, s in c.files.items():
            open(d + "/" + n, "w").write(s)
        rc, out = self.sh(self.kinds[kind] + (self.inc if kind == "clang" else self.shared) + [d + "/" + n for n in c.files] + self.lib[kind] + ["-o", d + "/exe"])
        if rc != 0:
            msg = "does not compile and link: " + (re.findall(r"[^\n]*(?:error|multiple definition|undefined)[^\n]*", out) or [out[-300:]])[0]
        else:
            rc, out = self.sh([d + "/exe"], timeout=60)
            msg = None if rc == 0 else "wrong result (%s)" % rc
        for n in os.listdir(d):
            os.unlink(d + "/" + n)
        os.rmdir(d)
        return msg

    def single(self, c, kind="clang"):
        if c.files:
            return self.units(c, kind)
        if not c.accept:
            return self.refused(c)
        r = self.batch([c], kind)
        if r is None:
            e = re.findall(r"(?:error:|undefined reference)[^\n]*", self.lastOut)
            return "does not compile: " + (e[0] if e else self.lastOut[-300:])
        return r.get(0)


def make(suite, gen, choices=None, rng=None):
    g = Gen(rng, choices)
    c = gen(g)
    c.choices, c.suite = g.made, suite
    return c


def category(m):
    return None if m is None or m == "invalid" else m.split(":")[0].split("(")[0]


def shrink(box, gen, case, msg, kind, seconds):
    """Lowers choices while the failure is of the same category."""
    end, best, cat, tries = time.time() + seconds, case, category(msg), 0
    improved = True
    while improved and time.time() < end:
        improved = False
        for i in range(len(best.choices)):
            for v in sorted({0, best.choices[i] // 2, best.choices[i] - 1}):
                if not 0 <= v < best.choices[i] or time.time() >= end:
                    continue
                ch = list(best.choices)
                ch[i] = v
                c = make(case.suite, gen, ch)
                if c.accept != case.accept or len(c.choices) > len(best.choices):
                    continue
                tries += 1
                m = box.single(c, kind)
                if category(m) == cat:
                    best, msg, improved = c, m, True
                    break
            if improved:
                break
    return best, msg, tries


def run(here, pid, repo, tier, seed, t0, tmp, replay, scale, capOpt, evidenceDir, replayDir, known):
    box = Box(here, repo, tmp)
    err = box.prepare()
    if err:
        print(err)
        print("check %s: does not build" % pid)
        return 2
    if replay:
        r = json.load(open(replay))
        c = Case(r["accept"], r["what"], r.get("decl"), r.get("facts"), r.get("use"), files=r.get("files"))
        c.suite = r["suite"]
        m = box.single(c, r["compiler"])
        print("%s: %s" % (c.suite, m) if category(m) else "held")
        return 1 if category(m) else 0
    tb = time.time() - t0
    factor = float(scale or 1) * (12 if tier == "thorough" else 1)
    cap = float(capOpt or (160 if tier == "quick" else 2400))
    jobs = int(os.environ.get("VERIF_WORKERS") or min(os.cpu_count() or 4, 16))
    results, bad, samples = [], [], []
    for index, (suite, gen, want, rule) in enumerate(SUITES):
        ts = time.time()
        want = max(4, int(want * factor))
        res = {"name": suite, "flavour": "compile", "cases": 0, "requested": want, "labels": {}, "time_capped": False, "unreproduced": 0}
        failures, seen, n = [], set(), 0
        invalid = 0
        while n < want:
            if time.time() - t0 > cap:
                res["time_capped"] = True
                break
            cases = [make(suite, gen, None, random.Random("%d %s %d" % (seed, suite, i))) for i in range(n, min(want, n + 320))]
            n += len(cases)
            works = [c for c in cases if c.accept and not c.files]
            single = [c for c in cases if c.files or not c.accept]
            size = max(4, min(16, len(works) // jobs + 1))
            batches = [(works[i:i + size], "gcc" if suite == "C26.shared" or (i // size) % 4 == 3 else "clang") for i in range(0, len(works), size)]

            def doBatch(b):
                r = box.batch(*b)
                if r is None:                                                    # find the ones that do not compile
                    return [(c, m, b[1]) for c in b[0] for m in [box.single(c, b[1])] if m]
                return [(b[0][i], m, b[1]) for i, m in r.items()]

            def doSingle(ci):
                i, c = ci
                kind = "gcc" if c.files and i % 4 == 3 else "clang"
                m = box.single(c, kind)
                return [(c, m, kind)] if m else []
            with ThreadPoolExecutor(jobs) as ex:
                for r in list(ex.map(doBatch, batches)) + list(ex.map(doSingle, enumerate(single))):
                    for c, m, kind in r:
                        if m == "invalid":
                            invalid += 1
                            cases.remove(c)
                        else:
                            failures.append((c, m, kind))
            for c in cases:
                res["cases"] += 1
                key = ("must work" if c.accept else "must be refused")
                res["labels"][key] = res["labels"].get(key, 0) + 1
                if c.nontrivial:
                    seen.add(hashlib.sha256(c.text().encode()).hexdigest())
                    res["nontrivial"] = res.get("nontrivial", 0) + 1
            if not [1 for s in samples if s["suite"] == suite]:
                for c in cases[:2]:
                    samples.append({"suite": suite, "case": {"what": c.what, "must": "work" if c.accept else "be refused", "program": c.text()}})
            if failures:
                break
        if invalid:
            res["labels"]["types alone do not compile (dropped)"] = invalid
        res["distinct_nontrivial"], res["wall_s"] = len(seen), round(time.time() - ts, 2)
        res.setdefault("nontrivial", 0)
        res["rule"] = rule
        results.append(res)
        if failures:
            listed = 0
            real = []
            for c, m, kind in failures:
                hit = [what for s, rx, what in known(pid) if s == suite and rx.search(c.what + ": " + m)]
                if hit:
                    print("KNOWN-FINDING: property=%s %s" % (pid, hit[0]))
                    listed += 1
                else:
                    real.append((c, m, kind))
            if real:
                c, m, kind = min(real, key=lambda f: len(f[0].text()))
                again = box.single(c, kind)
                if not category(again):
                    again = box.single(c, kind)
                if not category(again):
                    res["unreproduced"] += 1
                    continue
                c, m, tries = shrink(box, gen, c, again, kind, 20 if tier == "quick" else 60)
                repdir = replayDir or here + "/replays"
                os.makedirs(repdir, exist_ok=True)
                path = "%s/%s-%d.json" % (repdir, suite, seed)
                json.dump({"property": pid, "suite": suite, "seed": seed, "choices": c.choices, "compiler": kind, "accept": c.accept, "what": c.what, "message": m, "decl": c.decl, "facts": c.facts, "use": c.use, "files": c.files}, open(path, "w"), indent=1)
                bad.append((suite, "%s: %s" % (c.what, m), path))
    if results and sum(r["labels"].get("types alone do not compile (dropped)", 0) for r in results) > 0.2 * sum(r["cases"] for r in results):
        print("check %s: too many programs whose types alone do not compile" % pid)
        return 2
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": sum(r["cases"] for r in results), "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
                       "rule": " | ".join("%s: %s" % (r["name"], r["rule"]) for r in results) + " (distinct: by program text)", "samples": samples,
                       "suites": [{k: r[k] for k in ("name", "flavour", "cases", "requested", "nontrivial", "distinct_nontrivial", "labels", "time_capped", "unreproduced", "wall_s")} for r in results], "build_s": round(tb, 1)},
          "assumptions": ["clang 18 and gcc 13 in C++17 mode decide what compiles", "a program refused by the compiler is refused because of its use of the library: its types alone compile"],
          "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    evdir = evidenceDir or here + "/evidence"
    os.makedirs(evdir, exist_ok=True)
    json.dump(ev, open("%s/%s.json" % (evdir, pid), "w"), indent=1)
    for suite, m, path in bad:
        print("suite %s: %s" % (suite, m))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if not bad:
        print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (pid, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    return 1 if bad else 0
