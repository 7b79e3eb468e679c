"""C04: const arrays and views of const data never give write access."""
from sa.core import spikes, static_facts_job, compile_fail_job, GXX
from sa.wit import *
from .c01 import PRE, dims, prod

EXPLANATION = ('Type-level facts decided by the type checker: for every shape, element type, owner kind and access form '
               '(call, compile-time indices, chained brackets, slices of slices, mixed, data of an owning array) the '
               'accessed element is not assignable when the owner is const or has const elements, and is assignable '
               'otherwise; compile-fail witnesses write through const accesses and make mutable views of const buffers.')
ASSUMPTIONS = ['listed shapes and element types stand for all', 'casts that remove const explicitly are outside the property']
RULE = 'std::is_assignable over the type of every access expression; compile-fail witnesses'
MIN = 400


def exprs(rank, sh):
    z = ', '.join(['0'] * rank)
    out = [('call', 'A(%s)' % z), ('compile-time', 'A.template operator()<%s>()' % z), ('brackets', 'A' + '[0]' * rank)]
    for k in range(1, rank):
        out.append(('%d brackets then call' % k, 'A%s(%s)' % ('[0]' * k, ', '.join(['0'] * (rank - k)))))
        out.append(('%d brackets then compile-time' % k, 'A%s.template operator()<%s>()' % ('[0]' * k, ', '.join(['0'] * (rank - k)))))
    return out


def facts(T, sh):
    rank = len(sh)
    d = dims(sh)
    own, view = 'CArrayNd<%s,%s>' % (T, d), 'CArrayViewNd<%s,%s>' % (T, d)
    cown, cview = 'CArrayNd<%s const,%s>' % (T, d), 'CArrayViewNd<%s const,%s>' % (T, d)
    kinds = [('array', own + ' &', True), ('const array', own + ' const &', False), ('view', view + ' &', True),
             ('const view', view + ' const &', False), ('view of const', cview + ' &', False),
             ('const view of const', cview + ' const &', False), ('const temporary array', own + ' const &&', False)]
    fs = []
    for k, t, wr in kinds:
        for f, e in exprs(rank, sh):
            ex = e.replace('A', 'std::declval<%s>()' % t)
            fs.append(('%s of %s[%s], %s: %swritable' % (k, T, d, f, '' if wr else 'not '),
                       '%sstd::is_assignable_v< decltype( %s ), %s >' % ('' if wr else '!', ex, T)))
            fs.append(('%s of %s[%s], %s: element is an lvalue of type %s' % (k, T, d, f, T),
                       'std::is_same_v< decltype( %s ), %s%s & >' % (ex, T, '' if wr else ' const')))
        # what a slice itself gives, when kept
        for q in range(1, rank):
            sl = 'std::remove_reference_t< decltype( std::declval<%s>()%s ) >' % (t, '[0]' * q)
            z = ', '.join(['0'] * (rank - q))
            for cv in ('&', 'const &'):
                want = wr and cv == '&'
                fs.append(('kept slice %s of %s of %s[%s] as %s: %swritable' % ('[0]' * q, k, T, d, cv, '' if want else 'not '),
                           '%sstd::is_assignable_v< decltype( std::declval< %s %s >()( %s ) ), %s >' % ('' if want else '!', sl, cv, z, T)))
            if not wr:
                fs.append(('data of slice %s of %s of %s[%s] points to const' % ('[0]' * q, k, T, d),
                           'std::is_const_v< std::remove_pointer_t< std::decay_t< decltype( std::declval< %s & >().data() ) > > >' % sl))
    fs.append(('data of const array of %s[%s] is const' % (T, d),
               '!std::is_assignable_v< decltype( std::declval<%s const &>().data()[0] ), %s >' % (own, T)))
    fs.append(('data of array of %s[%s] is writable' % (T, d),
               'std::is_assignable_v< decltype( std::declval<%s &>().data()[0] ), %s >' % (own, T)))
    fs.append(('data of view of const %s[%s] is const' % (T, d),
               '!std::is_assignable_v< decltype( std::declval<%s &>().data()[0] ), %s >' % (cview, T)))
    return fs


def build(tier):
    jobs = []
    shapes = [(3,), (1,), (2, 3), (3, 1, 2), (2, 2, 3, 2), (1, 2, 1, 2, 3), (2, 1, 1, 2, 1, 2)]
    for sh in spikes(1, 5, 9):
        jobs.append(static_facts_job('double[%s]' % dims(sh), PRE, facts('double', sh)))
    for sh in shapes:
        for T in ('double', 'int') + (('S16', 'bool', 'char', 'float', 'double *', 'CArrayNd<double,2>', 'E2', 'S72', 'S3', 'long double', 'unsigned short') if len(sh) in (2, 4) else ('float', 'long')):
            for b in (False, True):
                jobs.append(static_facts_job('%s[%s] b%d' % (T, dims(sh), b), PRE, facts(T, sh), bounds=b))
            jobs.append(static_facts_job('%s[%s] c++20' % (T, dims(sh)), PRE, facts(T, sh), std='20'))
            if tier == 'thorough':
                jobs.append(static_facts_job('%s[%s] gcc' % (T, dims(sh)), PRE, facts(T, sh), compiler=GXX))
    for sh in shapes[1:4]:
        cs = []
        d, n, rank = dims(sh), prod(sh), len(sh)
        z = ', '.join(['0'] * rank)
        for nm, e in exprs(rank, sh):
            e = e.replace('A', 'a')
            cs.append(('write to const array[%s], %s' % (d, nm), 'void f( CArrayNd<double,%s> & a ) { %s = 1.0; }' % (d, e),
                       'void f( CArrayNd<double,%s> const & a ) { %s = 1.0; }' % (d, e)))
            cs.append(('write to const view[%s], %s' % (d, nm),
                       'void f( double (&b)[%d] ) { CArrayViewNd<double,%s> a( b ); %s = 1.0; }' % (n, d, e),
                       'void f( double (&b)[%d] ) { CArrayViewNd<double,%s> const a( b ); %s = 1.0; }' % (n, d, e)))
            cs.append(('write to view of const[%s], %s' % (d, nm),
                       'void f( double (&b)[%d] ) { CArrayViewNd<double,%s> a( b ); %s = 1.0; }' % (n, d, e),
                       'void f( double (&b)[%d] ) { CArrayViewNd<double const,%s> a( b ); %s = 1.0; }' % (n, d, e)))
        cs.append(('mutable view of const buffer [%s]' % d,
                   'auto f( double const (&b)[%d] ) { CArrayViewNd<double const,%s> a( b ); return a(%s); }' % (n, d, z),
                   'auto f( double const (&b)[%d] ) { CArrayViewNd<double,%s> a( b ); return a(%s); }' % (n, d, z)))
        cs.append(('mutable view of const pointer [%s]' % d,
                   'auto f( double const * b ) { CArrayViewNd<double const,%s> a( b ); return a(%s); }' % (d, z),
                   'auto f( double const * b ) { CArrayViewNd<double,%s> a( b ); return a(%s); }' % (d, z)))
        cs.append(('mutable view of a const array\'s data [%s]' % d,
                   'auto f( CArrayNd<double,%s> & b ) { CArrayViewNd<double,%s> a( b.data() ); return a(%s); }' % (d, d, z),
                   'auto f( CArrayNd<double,%s> const & b ) { CArrayViewNd<double,%s> a( b.data() ); return a(%s); }' % (d, d, z)))
        for k in range(0, len(cs), 5):
            jobs.append(compile_fail_job('const writes %s %d' % (d, k), PRE, cs[k:k + 5], bounds=(k % 2 == 1)))
    return jobs
