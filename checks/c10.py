"""C10: compile-time expansion calls its function once with all indices and arguments."""
from sa.core import around, Job, static_facts_job, GXX
from sa.query import *
from sa.wit import *

EXPLANATION = ('For sequences of length 0..8, both callable forms, several callable kinds and argument lists of every value category, a '
               'witness callable reports its own address, the address, category and value of each extra argument and the indices; the analysis '
               'derives the events (exactly one call, no copies or moves of arguments), the indices and the returned value. The integer-pack '
               'selector and the sequence alias are decided by the type checker for every position.')
ASSUMPTIONS = ['sequence lengths 0..8 and up to four extra arguments stand for all']
RULE = 'event sequence of the expansion (from the IR) and type-level facts'
FULL = True
MIN = 400

PRE = inc('seq') + '''
#include <type_traits>
extern "C" void cb( void const * self, ... );
extern "C" void copied( void const * );
struct P { long v; P( long a ) : v( a ) {} P( P const & o ) { copied( &o ); } P( P && o ) { copied( &o ); } P & operator=( P const & o ) { copied( &o ); return *this; } };
// category of an argument as the callable sees it: 0 lvalue, 1 const lvalue, 2 rvalue, 3 const rvalue
template< typename T > constexpr long cat() { return ( std::is_lvalue_reference_v< T > ? 0 : 2 ) + ( std::is_const_v< std::remove_reference_t< T > > ? 1 : 0 ); }
template< typename T > constexpr long cst() { return std::decay_t< T >::value; }
struct St { long n; St(); St( St const & o ) { copied( &o ); } St( St && o ) { copied( &o ); } };
'''


def sigs(m):
    """template parameters and argument list for m forwarding arguments"""
    tp = ', '.join('typename A%d' % k for k in range(m))
    ar = ', '.join('A%d && a%d' % (k, k) for k in range(m))
    rep = ''.join(', (void const *)&a%d, cat< A%d && >()' % (k, k) for k in range(m))
    return tp, ar, rep


def functors(m):
    tp, ar, rep = sigs(m)
    tpc = 'template< %s%stypename ... I > ' % (tp, ', ' if m else '')
    arc = ar + (', ' if m else '')
    s = ''
    for nm, cv in (('FA', ''), ('FC', ' const')):
        s += 'struct %s%d : St { %s double operator()( %sI ... i )%s { cb( this%s, cst< I >()..., (long)i... ); return 2.5; } };\n' % (nm, m, tpc, arc, cv, rep)
    for nm, cv in (('TA', ''), ('TC', ' const')):
        s += 'struct %s%d : St { template< int ... I%s > double operator()( %s )%s { cb( this%s, (long)I..., (long)I... ); return 2.5; } };\n' % (
            nm, m, (', ' + tp) if m else '', ar, cv, rep)
    # typed arguments and typed indices
    return s


ARGS = [([], []), ([0], ['x']), ([1], ['static_cast< P const & >( x )']), ([2], ['std::move( x )']), ([3], ['std::move( static_cast< P const & >( x ) )']),
        ([0, 2], ['x', 'std::move( y )']), ([1, 0], ['static_cast< P const & >( x )', 'y']), ([2, 2], ['std::move( x )', 'std::move( y )']),
        ([0, 1, 2], ['x', 'static_cast< P const & >( y )', 'std::move( z )']), ([2, 0, 3, 1], ['std::move( x )', 'y', 'std::move( static_cast< P const & >( z ) )', 'static_cast< P const & >( w )'])]


def unit(n, std, bounds):
    src = PRE + ''.join(functors(m) for m in range(5))
    fns = []
    for q, (cats, args) in enumerate(ARGS):
        m = len(cats)
        al = ''.join(', ' + a for a in args)
        for F, cv, fe in (('FA', '', 'f'), ('FC', 'const ', 'f'), ('FA', '', 'std::move( f )'), ('TA', '', 'f'), ('TC', 'const ', 'f'), ('TA', '', 'std::move( f )')):
            nm = 'e%d' % len(fns)
            src += 'extern "C" double %s( %s%d %s& f, P & x, P & y, P & z, P & w ) { return executeSequence< %d >( %s%s ); }\n' % (nm, F, m, cv, n, fe, al)
            fns.append((nm, cats, '%s%s %s' % (cv, 'indices as arguments' if F[0] == 'F' else 'indices as template arguments', 'rvalue' if 'move' in fe else '')))
    # lambdas and results
    t = '%d' % n
    src += '''
extern "C" double lam( double x ) { return executeSequence< N >( [x]( auto ... i ) { return ( x + ... + double( (int)i ) ); } ); }
extern "C" double lamref( double x ) { double y = 0; executeSequence< N >( [&]( auto ... i ) { y = ( x + ... + double( decltype( i )::value ) ); } ); return y; }
extern "C" double lamarg( double x, double y ) { return executeSequence< N >( []( double a, double b, auto ... i ) { return ( ( a - b ) + ... + double( (int)i * (int)i ) ); }, x, y ); }
struct R3 { double a; long b; double c; };
extern "C" void res( double x, R3 & out ) { out = executeSequence< N >( []( double a, auto ... i ) { return R3{ a, long( ( 0 + ... + (int)i ) ), a + a }; }, x ); }
struct TT { template< int ... I > double operator()( double a ) const { return ( a + ... + double( I * 3 ) ); } };
extern "C" double tem( double x ) { return executeSequence< N >( TT{}, x ); }
template< int K > struct Ty { template< int ... I > auto operator()( double a, std::integral_constant< int, K >, int * p ) const { *p = ( K + ... + I ); return a * K; } };
extern "C" double typed( double x, int & r ) { return executeSequence< N >( Ty< 7 >{}, x, std::integral_constant< int, 7 >{}, &r ); }
struct Ta { template< int ... I > auto operator()( double a, int * p, std::integral_constant< int, I > ... i ) const { *p = ( 7 + ... + (int)i ); return a; } };
'''.replace('N >', t + ' >').replace('N>', t + '>')
    src += 'struct Tb { template< typename ... I > auto operator()( double const * a, int * p, I ... i ) const { *p = ( 7 + ... + (int)i ); return *a; } };\n'
    src += 'extern "C" double typeda( double & x, int & r ) { return executeSequence< %d >( Tb{}, &x, &r ); }\n' % n
    ss = n * (n - 1) // 2

    def verify(mod, ctx):
        for nm, cats, what0 in fns:
            what = 'executeSequence<%d>, %s, argument categories %s' % (n, what0, cats)
            for sp, o in outcomes(mod, ctx, nm, [Buf('f', 'long', 1)] + [Buf(v, 'long', 1) for v in 'xyzw']):
                if not returns(ctx, o, what):
                    continue
                cs = o.calls()
                if len(cs) != 1 or cs[0][1] != '@cb':
                    ctx.ob(False, what + ': exactly one call, nothing copied', repr([e[1] for e in cs]), loc_str(o.loc))
                    continue
                a = cs[0][2]
                want = [(o.args[0].obj, 'callable')]
                ok = isinstance(a[0], Ptr) and a[0].obj is o.args[0].obj
                ctx.ob(ok, what + ': the callable given is called', repr(a[0]))
                for k, c in enumerate(cats):
                    p, g = a[1 + 2 * k], a[2 + 2 * k]
                    ctx.ob(isinstance(p, Ptr) and p.obj is o.args[1 + k].obj and g == c, what + ': extra argument %d' % k,
                           'is %r with category %r, expected the object given with category %d' % (p, g, c), loc_str(cs[0][3]))
                rest = list(a[1 + 2 * len(cats):])
                ctx.ob(rest == list(range(n)) * 2, what + ': indices', 'indices %r' % (rest,), loc_str(cs[0][3]))
                ctx.ob(isinstance(o.value, RF) and o.value.close(RF.const(Fraction(5, 2)), 0), what + ': returned value', repr(o.value))
        X, Y = RF.var('x'), RF.var('y')
        c = RF.const
        for f, specs, want in (('lam', [Real('x')], X + c(ss)), ('lamref', [Real('x')], X + c(ss)),
                               ('lamarg', [Real('x'), Real('y')], X - Y + c(sum(i * i for i in range(n)))), ('tem', [Real('x')], X + c(3 * ss))):
            check_fn_real(mod, ctx, f, specs, want, 0, 'executeSequence<%d> returns the value of its function (%s)' % (n, f))
        for f, want in (('typed', X * c(7)), ('typeda', None)):
            sp0 = [Real('x') if f == 'typed' else Buf('x', 'double', 1), Buf('r', 'int', 1)]
            for sp, o in outcomes(mod, ctx, f, sp0):
                if returns(ctx, o, f):
                    real_equals(ctx, o, o.value, want or RF.var('x[0]'), 0, 'executeSequence<%d> with typed arguments (%s)' % (n, f))
                    ctx.ob(is_rf(final(o, o.args[1].obj, 0, 'int'), c(7 + ss)), 'executeSequence<%d> with typed arguments (%s): indices' % (n, f),
                           repr(final(o, o.args[1].obj, 0, 'int')))
        for sp, o in outcomes(mod, ctx, 'res', [Real('x'), Buf('out', 'double', 3)]):
            if returns(ctx, o, 'res'):
                v = [final(o, o.args[1].obj, k, 'double' if k != 1 else 'long') for k in range(3)]
                ctx.ob(is_rf(v[0], X) and is_rf(v[1], c(ss)) and is_rf(v[2], X + X), 'executeSequence<%d> returns a struct unchanged' % n, repr(v))
    return Job('executeSequence %d c++%s b%d' % (n, std, bounds), src, verify, std=std, bounds=bounds)


def facts():
    fs = []
    for pack in ([4], [7, -2], [3, 1, 2], [5, 5, 0, 9], [1, 2, 3, 4, 5, 6, 7, 8, 9, 10], [2147483647, -2147483647 - 1, 0]):
        p = ', '.join(str(v) if v > -2147483648 else '-2147483647 - 1' for v in pack)
        for i, v in enumerate(pack):
            fs.append(('IntPackPeeler<%d, %s>' % (i, p), 'IntPackPeeler< %d, %s >::value() == %s' % (i, p, v if v > -2147483648 else '-2147483647 - 1')))
        fs.append(('SequenceAlias of %s' % p, 'std::is_same_v< SequenceAlias< Tag, std::integer_sequence< int, %s > >::type, Tag< %s > >' % (p, p)))
    fs.append(('SequenceAlias of nothing', 'std::is_same_v< SequenceAlias< Tag, std::integer_sequence< int > >::type, Tag<> >'))
    for ty in ('double', 'int', 'bool', 'float'):
        for n in (0, 1, 3, 6):
            fs.append(('executeSequence<%d> returns %s' % (n, ty), 'std::is_same_v< decltype( executeSequence< %d >( std::declval< Ret< %s > & >() ) ), %s >' % (n, ty, ty)))
            fs.append(('executeSequence<%d> returns %s (template form)' % (n, ty), 'std::is_same_v< decltype( executeSequence< %d >( std::declval< RetT< %s > & >() ) ), %s >' % (n, ty, ty)))
    fs.append(('executeSequence of a void function', 'std::is_void_v< decltype( executeSequence< 3 >( std::declval< Ret< void > & >() ) ) >'))
    return fs


def build(tier):
    pre = inc('seq') + ('#include <type_traits>\ntemplate< int ... I > struct Tag {};\n'
                        'template< typename T > struct Ret { template< typename ... A > T operator()( A ... ) { return T(); } };\n'
                        'template< typename T > struct RetT { template< int ... I > T operator()() { return T(); } };\n')
    jobs = []
    for n in list(range(0, 13 if tier == 'quick' else 17)) + [33, 65] + around(17, 128, 4):
        jobs.append(unit(n, '17', n % 3 == 1))
        if n < 4 or n > 9 or tier == 'thorough':
            jobs.append(unit(n, '20', False))
    for std in ('17', '20', '23'):
        jobs.append(static_facts_job('selector c++' + std, pre, facts(), std=std))
    jobs.append(static_facts_job('selector gcc', pre, facts(), compiler=GXX))
    return jobs
