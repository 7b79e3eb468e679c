#!/usr/bin/env python3
"""Compares the abstract interpreter with what compiled code computes, on constructs that a rewritten library might use.

This tests the machinery, not the library: no check uses it."""
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import core, absint, poly
from sa.query import *

HEAD = r'''
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <numeric>
#include <tuple>
#include <type_traits>
#include <utility>
'''
# each: body of long f( int a, int b )
INT = r'''
switch( a ) { case 0: return 5; case 1: return 7; case 3: return b; default: return -1; }
long r = 0; switch( a & 3 ) { case 0: r += 1; [[fallthrough]]; case 1: r += 10; break; case 2: r += 100; break; } return r;
long r = 0; do { r += a; --b; } while( b > 0 ); return r;
long r = 0; for( int i : { 1, 2, 3, a, b } ) r = r * 3 + i; return r;
std::array< int, 4 > x{ { a, b, 3, 4 } }; long r = 0; for( auto v : x ) r = r * 5 + v; return r;
std::array< int, 4 > x{ { a, b, 3, 4 } }; return std::accumulate( x.begin(), x.end(), 0 );
int x[5] = { 5, 3, a, b, 1 }; return std::inner_product( x, x + 5, x, 0 );
int x[5] = { 5, 3, a, b, 1 }; int y[5]; std::copy( x, x + 5, y ); y[0] = 9; return y[0] * 100 + y[4] + x[2];
int x[5]; std::fill( x, x + 5, a ); x[2] = b; return x[0] + 2 * x[2] + 3 * x[4];
int x[5] = { 5, 3, a, b, 1 }; int y[5]; std::memcpy( y, x, sizeof( x ) ); return y[2] * 10 + y[3];
int x[5]; std::memset( x, 0, sizeof( x ) ); x[1] = a; return x[0] + x[1] + x[4];
auto [p, q] = std::pair< int, int >( a, b ); return p * 10 + q;
std::tuple< int, long, char > t( a, b, 'c' ); return std::get< 0 >( t ) + 10 * std::get< 1 >( t ) + std::get< 2 >( t );
return std::min( a, b ) * 100 + std::max( a, b );
return std::min( { a, b, 3 } ) * 100 + std::max( { a, b, 3 } );
int x = a, y = b; std::swap( x, y ); return x * 10 + y;
return std::abs( a - b ) + std::abs( b - a );
return ( a << 3 ) | ( b & 7 ) ^ ( a >> 1 );
unsigned u = static_cast< unsigned >( a ) - static_cast< unsigned >( b ); return u;
unsigned char c = static_cast< unsigned char >( a * 77 ); signed char d = static_cast< signed char >( a * 77 ); return c * 1000 + d;
short s = static_cast< short >( a * 30000 ); return s;
return a / ( b == 0 ? 1 : b ) * 100 + a % ( b == 0 ? 1 : b );
return static_cast< long >( a ) * 1000000007L + b;
std::size_t n = static_cast< std::size_t >( a ); return static_cast< long >( n * 3 );
struct S { int p, q; int f() const { return p * 3 + q; } }; S s{ a, b }; S t = s; t.p = 1; return s.f() * 100 + t.f();
struct B { int p; }; struct D : B { int q; }; D d; d.p = a; d.q = b; B & r = d; return r.p * 10 + d.q;
struct R { int n; long go( int k ) const { return k == 0 ? n : go( k - 1 ) + k; } }; return R{ a }.go( 5 ) + b;
auto f = [&]( int k ) { return k * a + b; }; return f( 1 ) + f( 2 );
auto f = [a, b]( auto k ) mutable { a += k; return a * b; }; return f( 1 ) + f( 2 );
auto f = []( auto && self, int n ) -> long { return n <= 1 ? 1 : n * self( self, n - 1 ); }; return f( f, 6 ) + a * b;
int x[3][4] = {}; for( int i = 0; i < 3; ++i ) for( int j = 0; j < 4; ++j ) x[i][j] = i * a + j * b; return x[2][3] + x[1][0];
int x[3][4] = {}; int * p = &x[0][0]; for( int i = 0; i < 12; ++i ) *p++ = i * a + b; return x[2][3] + x[1][0];
int x[6] = { 1, 2, 3, 4, 5, 6 }; int * p = x + 1, * q = std::end( x ); return ( q - p ) * 10 + *( q - 2 );
int x[6] = { 1, 2, 3, 4, 5, 6 }; std::reverse( x, x + 6 ); return x[0] * 10 + x[5] + a;
int x[4] = { b, 2, 9, 4 }; auto m = std::max_element( x, x + 4 ); return m - x;
int x[4] = { 7, 2, 9, 4 }; long r = 0; for( auto it = std::begin( x ); it != std::end( x ); ++it ) r += *it * a; return r;
int const table[] = { 3, 1, 4, 1, 5, 9, 2, 6 }; return table[a & 7] * 10 + table[b & 7];
static constexpr int table[] = { 3, 1, 4, 1, 5, 9, 2, 6 }; return table[a & 7] * 10 + table[b & 7];
static constexpr int table[2][3] = { { 3, 1, 4 }, { 1, 5, 9 } }; return table[a & 1][b % 3 < 0 ? 0 : b % 3];
return a < b ? 1 : a > b ? 2 : 3;
return ( a < b ) + 2 * ( a <= b ) + 4 * ( a == b ) + 8 * ( a != b );
bool p = a > 1, q = b > 1; return ( p && q ) + 2 * ( p || q ) + 4 * ( p ^ q ) + 8 * !p;
int r = 0; for( int i = 0; ; ++i ) { if( i == 3 ) continue; if( i > 6 ) break; r += i * a; } return r + b;
int r = 0, i = 0; loop: r += i * a; if( ++i < 4 ) goto loop; return r + b;
long r = 0; for( int i = 0, j = 10; i < j; ++i, --j ) r += i * j; return r + a;
long r = 1; for( unsigned e = static_cast< unsigned >( b & 7 ), x = 3; e; e >>= 1, x *= x ) if( e & 1 ) r *= x; return r;
union { int i; unsigned u; } x; x.i = a; return static_cast< long >( x.u );
enum class E { A, B, C }; E e = static_cast< E >( a & 1 ); return e == E::A ? 10 : static_cast< int >( E::C );
int volatile x = a; return a + b;
std::integer_sequence< int, 1, 2, 3 > s; return [&]< int ... I >( std::integer_sequence< int, I... > ) { return ( ( I * a ) + ... + b ); }( s );
std::array< std::array< int, 2 >, 3 > x{}; x[a & 1][1] = 7; x.back()[0] = b; long r = 0; for( auto const & row : x ) for( int v : row ) r = r * 3 + v; return r;
std::array< int, 4 > x; x.fill( a ); std::iota( x.begin(), x.begin() + 2, b ); return x[0] + x[1] * 10 + x.at( 2 ) * 100 + static_cast< long >( x.size() );
int x[4] = { 7, 2, 9, 4 }; std::transform( x, x + 4, x, [&]( int v ) { return v * a; } ); return x[0] + x[3] + b;
int x[4] = { 7, 2, 9, 4 }; return std::count_if( x, x + 4, [&]( int v ) { return v > a; } ) + std::any_of( x, x + 4, [&]( int v ) { return v == b; } );
int x[4] = { 7, 2, 9, 4 }; std::for_each( x, x + 4, [&]( int v ) { a += v; } ); return a;
int x[3] = { a, b, 1 }; auto y = x; auto & z = x; y[1] = 5; return z[0] + x[1];
struct It { int i; int operator*() const { return i; } It & operator++() { ++i; return *this; } bool operator!=( It o ) const { return i != o.i; } }; struct Rg { int n; It begin() const { return { 0 }; } It end() const { return { n }; } }; long r = 0; for( int v : Rg{ 5 } ) r += v * a; return r;
return std::invoke( []( int p, int q ) { return p - q; }, a, b );
return std::apply( []( int p, int q, int s ) { return p - q * s; }, std::make_tuple( a, b, 3 ) );
std::reference_wrapper< int > r( a ); r.get() = 4; return a + b;
long ( *f )( long ) = []( long v ) -> long { return v + 1; }; return f( a ) + f( b );
struct S { long m( long v ) const { return v * 2; } }; long ( S::* p )( long ) const = &S::m; return ( S{}.*p )( a ) + b;
int64_t big = INT64_C( 1 ) << 40; return static_cast< long >( big >> ( a & 15 ) ) + b;
uint64_t h = static_cast< uint64_t >( a ) * 0x9E3779B97F4A7C15ull; return static_cast< long >( h >> 60 );
__int128 w = static_cast< __int128 >( a ) * b; return static_cast< long >( w );
return __builtin_popcount( static_cast< unsigned >( a ) ) * 100 + __builtin_clz( static_cast< unsigned >( b ) | 1u ) + __builtin_ctz( 8u );
struct alignas( 16 ) S { char c; double d; int i; }; S s{ 'x', 2.5, a }; S t; std::memcpy( &t, &s, sizeof( S ) ); return t.c + t.i * 10 + static_cast< int >( t.d * 2 );
struct Bits { unsigned p : 3; unsigned q : 5; int r : 4; }; Bits x{}; x.p = static_cast< unsigned >( a ); x.q = static_cast< unsigned >( b ); x.r = a; return x.p * 100 + x.q * 10 + x.r;
int x[2] = { a, b }; int const (&r)[2] = x; return r[0] * 10 + std::size( r );
auto t = std::tie( a, b ); std::get< 0 >( t ) = 9; return a * 10 + b;
std::pair< int, std::array< int, 2 > > p{ a, { b, 1 } }; auto q = p; q.second[0] = 3; return p.second[0] * 10 + q.second[0];
if( int v = a * b; v > 10 ) return v; else return -v;
const char * s = "hello"; return s[a & 3] * 10 + static_cast< long >( std::strlen( s ) );
int x = a; int & y = x; const int * z = &x; y += b; return *z;
return [=] { return a; }() + [&] { return b; }();
double x = a; double y = x * 0.5; return static_cast< long >( y * 4 );
float x = static_cast< float >( a ) / 3; return static_cast< long >( x * 300 );
double x = a + 0.25; return std::isnan( x ) + 2 * std::signbit( x ) + 4 * ( std::fabs( x ) > 1 );
return static_cast< long >( std::floor( a / 2.0 ) ) * 100 + static_cast< long >( std::ceil( b / 2.0 ) );
return static_cast< long >( std::fmax( a, b ) ) + static_cast< long >( std::pow( 2.0, b & 3 ) );
return std::numeric_limits< int >::max() - a + ( std::numeric_limits< double >::epsilon() > 0 );
return std::clamp( a, 0, 2 ) * 10 + std::exchange( b, 5 ) + b;
struct N { static constexpr int f( int n ) { return n < 2 ? n : f( n - 1 ) + f( n - 2 ); } }; constexpr int k = N::f( 10 ); return k + N::f( a & 7 );
int x[3] = { a, b, 2 }; std::sort( x, x + 3 ); return x[0] * 100 + x[1] * 10 + x[2];
int n = 0; for( int i = 0; i < 100; i += 7 ) { n += i % 3 == 0; } return n + a;
unsigned i = 3; long r = 0; while( i-- ) r = r * 10 + i; return r + a;
std::size_t i = 4; long r = 0; for( ; i-- > 0; ) r = r * 10 + static_cast< long >( i ); return r + b;
int x[4]; int n = 0; for( auto & v : x ) v = n++; return x[3] * a + x[1] * b;
'''
REAL = r'''
double r = 0; for( int i = 0; i < 3; ++i ) r += x * i + y; return r;
double c[4] = { 1, x, y, x * y }; double r = 0; for( double v : c ) r = r * 2 + v; return r;
return std::fma( x, y, 1.0 );
return std::inner_product( &x, &x + 1, &y, 0.5 );
std::array< double, 3 > c{ { x, y, 2 } }; return std::accumulate( c.begin(), c.end(), 0.0 );
auto p = []( auto v ) { return v * v; }; return p( x ) - p( y );
double m[2][2] = { { x, 1 }, { y, 2 } }; return m[0][0] * m[1][1] - m[0][1] * m[1][0];
return -( x - y ) / 4 + x / ( y + 3.0 );
return std::pow( x, 2 ) + y;
double s = 1; for( int k = 0; k < 4; ++k ) { if( k == 2 ) continue; s *= ( x - k ) / ( 2 - k ); } return s;
struct V { double a, b; V operator+( V o ) const { return { a + o.a, b + o.b }; } }; V v = V{ x, y } + V{ 1, 2 }; return v.a * v.b;
return x * 2 + static_cast< float >( 0.5 ) * y;
double t[3]; t[0] = 1; for( int i = 1; i < 3; ++i ) t[i] = t[i - 1] * x; return t[2] + y;
auto [a, b] = std::make_pair( x + 1, y - 1 ); return a * b;
std::tuple< double, int > t( x, 3 ); return std::get< 0 >( t ) * std::get< 1 >( t ) + y;
double const * p = &x; double const & q = y; return *p * q;
return std::apply( []( auto ... v ) { return ( v * ... ); }, std::make_tuple( x, y, 2.0 ) );
double w = x; w += y; w *= 2; w -= 1; w /= 4; return w;
long double z = x; return static_cast< double >( z * 2 ) + y;
return ( x + y ) * ( x + y );
double a[4] = {}; a[1] = x; std::swap( a[1], a[2] ); std::copy( a, a + 3, a + 1 ); return a[3] * y + a[0];
std::complex< double > z( x, y ); z = z * z; return z.real() + z.imag();
'''


def main():
    bodies = [l for l in INT.strip().split('\n')]
    reals = [l for l in REAL.strip().split('\n')]
    pts = [(0, 1), (1, 0), (2, 3), (3, 2), (5, 5), (-1, 4), (7, -2), (100, 6)]
    src = HEAD + '#include <complex>\n'
    for i, b in enumerate(bodies):
        src += 'extern "C" long f%d( int a, int b ) { (void)a; (void)b; %s }\n' % (i, b)
    for i, b in enumerate(reals):
        src += 'extern "C" double g%d( double x, double y ) { %s }\n' % (i, b)
    main_ = 'int main() {\n'
    for i in range(len(bodies)):
        for a, b in pts:
            main_ += 'printf( "%%ld\\n", f%d( %d, %d ) );' % (i, a, b)
    for i in range(len(reals)):
        main_ += 'printf( "%%.17g\\n", g%d( 0.75, -1.5 ) );' % i
    sc = core.Scratch()
    bad = 0
    try:
        open(sc.path('t.cpp'), 'w').write('#include <cstdio>\n' + src + main_ + '}\n')
        rc, o, e = core.run([core.CLANG, '-std=c++20', '-O1', '-w', '-ffp-contract=off', sc.path('t.cpp'), '-o', sc.path('t')])
        if rc:
            print(e[:3000])
            return 1
        want = subprocess.run([sc.path('t')], stdout=subprocess.PIPE, text=True).stdout.split()
        k = 0
        import traceback

        def go():
            nonlocal k, bad
            mod = core.compile_ir(sc, 'm', src, '20')
            for i, b in enumerate(bodies):
                for p in pts:
                    ctx = core.Ctx('x')
                    w = int(want[k])
                    k += 1
                    try:
                        outs = [o for _, o in outcomes(mod, ctx, 'f%d' % i, [Int(p[0]), Int(p[1])])]
                        g = [signed(o.value, 64) if o.kind == 'ret' and isinstance(o.value, int) else (o.kind, o.detail, o.value) for o in outs]
                    except Exception as ex:
                        g = repr(ex)[:200]
                        if '-v' in sys.argv:
                            traceback.print_exc()
                    if g != [w]:
                        bad += 1
                        print('int', p, 'want', w, 'got', g, ':', b)
                        if isinstance(g, str):
                            k += len(pts) - 1 - pts.index(p)
                            break
            for i, b in enumerate(reals):
                ctx = core.Ctx('x')
                w = float(want[k])
                k += 1
                try:
                    outs = [o for _, o in outcomes(mod, ctx, 'g%d' % i, [Real('x'), Real('y')])]
                    vs = []
                    for o in outs:
                        v = o.value
                        if isinstance(v, RF):
                            at = lambda q: q.subst('x', Poly.const(0.75)).subst('y', Poly.const(-1.5))
                            v = RF(at(v.num)) * RF(at(v.den)).recip() if v.den else RF(at(v.num))
                        vs.append(v)
                    ok = len(vs) == 1 and isinstance(vs[0], RF) and vs[0].close(RF.const(w), 1e-12)
                except Exception as ex:
                    vs = repr(ex)[:200]
                    ok = False
                    if '-v' in sys.argv:
                        traceback.print_exc()
                if not ok:
                    bad += 1
                    print('real want', w, 'got', vs, ':', b)
        absint.in_thread(go)
    finally:
        sc.remove()
    print('%d constructs, %d mismatches' % (len(bodies) + len(reals), bad))
    return bad > 0


sys.exit(main())
