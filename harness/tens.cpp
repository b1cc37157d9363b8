// S02, M02: histories of plain tensor arithmetic: operands stay as they were, also when memory runs out in the middle.
#include CERAS_HPP
#include "sim.hpp"
#include <cstring>
#include <functional>
#include <new>
using namespace sim;
namespace
{
    typedef ceras::tensor<float> T;
    typedef std::vector<unsigned long> Shape;
    std::string raw( T const& t ) { std::string s( (char const*)t.data(), t.size() * 4 ); for ( auto d : t.shape() ) s += "," + std::to_string( d ); return s; }
    struct Op { char const* name; bool ( *fits )( T const&, T const& ); T ( *f )( T const&, T const&, unsigned ); };
    bool one( T const&, T const& ) { return true; }
    bool two_d( T const& a, T const& ) { return a.ndim() == 2; }
    bool same( T const& a, T const& b ) { return a.shape() == b.shape(); }
    bool product( T const& a, T const& b ) { return a.ndim() == 2 && b.ndim() == 2 && a.shape()[1] == b.shape()[0]; }
    bool broadcast( T const& a, T const& b )
    {
        Shape l = a.shape(), r = b.shape();
        while ( l.size() < r.size() ) l.insert( l.begin(), 1 );
        while ( r.size() < l.size() ) r.insert( r.begin(), 1 );
        for ( unsigned i = 0; i < l.size(); ++i ) if ( l[i] != r[i] && l[i] != 1 && r[i] != 1 ) return false;
        return true;
    }
    bool tile( T const& a, T const& b ) { Shape l = a.shape(), r = b.shape(); return l == r || ( a.size() > b.size() && r.size() <= l.size() && std::equal( r.rbegin(), r.rend(), l.rbegin() ) ); }
    bool joins( T const& a, T const& b ) { Shape l = a.shape(), r = b.shape(); if ( l.size() != r.size() ) return false; for ( unsigned i = 1; i < l.size(); ++i ) if ( l[i] != r[i] ) return false; return true; }
    bool vec_left( T const& a, T const& b ) { return a.ndim() == 1 && b.ndim() == 2 && a.size() == b.shape()[0]; }
    bool vec_right( T const& a, T const& b ) { return a.ndim() == 2 && b.ndim() == 1 && a.shape()[0] == 1 && a.size() == b.size(); }        // for one row only; fails visibly otherwise
    bool two_d_same( T const& a, T const& b ) { return a.ndim() == 2 && a.shape() == b.shape(); }
    bool cross( T const& a, T const& b ) { return a.ndim() == 2 && b.ndim() == 2 && a.shape()[0] == b.shape()[1]; }
    bool ones_first( T const& a, T const& ) { return a.ndim() > 1 && a.shape()[0] == 1; }
    bool joins_axis( T const& a, T const& b ) { Shape l = a.shape(), r = b.shape(); if ( l.size() != r.size() ) return false; int d = 0; for ( unsigned i = 0; i < l.size(); ++i ) d += l[i] != r[i]; return d <= 1; }
    bool joins_deeper( T const& a, T const& b ) { Shape l = a.shape(), r = b.shape(); return r.size() < l.size() && std::equal( r.rbegin(), r.rend(), l.rbegin() ); }
    bool many( T const& a, T const& ) { return a.ndim() >= 2; }
    std::vector<Op> const& ops()
    {
        static std::vector<Op> const o
        {
            { "a+b", broadcast, []( T const& a, T const& b, unsigned ) { return a + b; } },
            { "a-b", broadcast, []( T const& a, T const& b, unsigned ) { return a - b; } },
            { "a+s", one, []( T const& a, T const&, unsigned p ) { return a + ( 0.5f * p ); } },
            { "s+a", one, []( T const& a, T const&, unsigned p ) { return ( 0.5f * p ) + a; } },
            { "a-s", one, []( T const& a, T const&, unsigned p ) { return a - ( 0.5f * p ); } },
            { "s-a", one, []( T const& a, T const&, unsigned p ) { return ( 0.5f * p ) - a; } },
            { "a*s", one, []( T const& a, T const&, unsigned p ) { return a * ( 0.5f * p ); } },
            { "s*a", one, []( T const& a, T const&, unsigned p ) { return ( 0.5f * p ) * a; } },
            { "a/s", one, []( T const& a, T const&, unsigned p ) { return a / ( 0.5f * p + 1.0f ); } },
            { "-a", one, []( T const& a, T const&, unsigned ) { T r = -a; return r; } },
            { "a*b", product, []( T const& a, T const& b, unsigned ) { return a * b; } },
            { "elementwise_product", tile, []( T const& a, T const& b, unsigned ) { return ceras::elementwise_product( a, b ); } },
            { "hadamard_product", tile, []( T const& a, T const& b, unsigned ) { return ceras::hadamard_product( a, b ); } },
            { "elementwise_divide", same, []( T const& a, T const& b, unsigned ) { return ceras::elementwise_divide( a, b ); } },
            { "repeat", one, []( T const& a, T const&, unsigned p ) { return ceras::repeat( a, p + 1 ); } },
            { "reduce_sum", one, []( T const& a, T const&, unsigned ) { return ceras::reduce_sum( a ); } },
            { "reduce_mean", one, []( T const& a, T const&, unsigned ) { return ceras::reduce_mean( a ); } },
            { "concatenate", joins, []( T const& a, T const& b, unsigned ) { return ceras::concatenate( a, b ); } },
            { "repmat", two_d, []( T const& a, T const&, unsigned p ) { return ceras::repmat( a, p + 1, 2 ); } },
            { "zeros_like", one, []( T const& a, T const&, unsigned ) { return ceras::zeros_like( a ); } },
            { "ones_like", one, []( T const& a, T const&, unsigned ) { return ceras::ones_like( a ); } },
            { "copy", one, []( T const& a, T const&, unsigned ) { return ceras::copy( a ); } },
            { "deep_copy", one, []( T const& a, T const&, unsigned ) { T r = a.deep_copy(); return r; } },
            { "abs", one, []( T const& a, T const&, unsigned ) { return ceras::abs( a ); } },
            { "softmax", one, []( T const& a, T const&, unsigned ) { return ceras::softmax( a ); } },
            { "sum axis", many, []( T const& a, T const&, unsigned p ) { return ceras::sum( a, p % a.ndim(), p & 1 ); } },
            { "mean axis", many, []( T const& a, T const&, unsigned p ) { return ceras::mean( a, p % a.ndim(), p & 1 ); } },
            { "variance axis", many, []( T const& a, T const&, unsigned p ) { return ceras::variance( a, p % a.ndim(), p & 1 ); } },
            { "standard_deviation axis", many, []( T const& a, T const&, unsigned p ) { return ceras::standard_deviation( a, p % a.ndim(), p & 1 ); } },
            { "max axis", many, []( T const& a, T const&, unsigned p ) { return ceras::max( a, p % a.ndim(), p & 1 ); } },
            { "min axis", many, []( T const& a, T const&, unsigned p ) { return ceras::min( a, p % a.ndim(), p & 1 ); } },
            { "flip", one, []( T const& a, T const&, unsigned p ) { return ceras::flip( a, (int)( p % a.ndim() ) ); } },
            { "broadcast_tensor", one, []( T const& a, T const&, unsigned p ) { Shape s = a.shape(); s.insert( s.begin(), p + 1 ); return ceras::broadcast_tensor( a, s ); } },
            { "sum", one, []( T const& a, T const&, unsigned ) { T r{ Shape{ 1 } }; r[0] = ceras::sum( a ); return r; } },
            { "mean", one, []( T const& a, T const&, unsigned ) { T r{ Shape{ 1 } }; r[0] = ceras::mean( a ); return r; } },
            { "norm", one, []( T const& a, T const&, unsigned ) { T r{ Shape{ 1 } }; r[0] = ceras::norm( a ); return r; } },
            { "max", one, []( T const& a, T const&, unsigned ) { T r{ Shape{ 1 } }; r[0] = ceras::max( a ); return r; } },
            { "has_nan", one, []( T const& a, T const&, unsigned ) { T r{ Shape{ 1 } }; r[0] = ceras::has_nan( a ); return r; } },
            { "add()", broadcast, []( T const& a, T const& b, unsigned ) { return ceras::add( a, b ); } },
            { "minus()", broadcast, []( T const& a, T const& b, unsigned ) { return ceras::minus( a, b ); } },
            { "multiply()", product, []( T const& a, T const& b, unsigned ) { return ceras::multiply( a, b ); } },
            { "row vector product", vec_left, []( T const& a, T const& b, unsigned ) { return a * b; } },
            { "column vector product", vec_right, []( T const& a, T const& b, unsigned ) { return a * b; } },
            { "transposed product", two_d_same, []( T const& a, T const& b, unsigned p )
                {
                    unsigned long r = a.shape()[0], c = a.shape()[1]; bool left = p & 1;      // a' b or a b'
                    T q{ left ? Shape{ c, c } : Shape{ r, r } };
                    if ( left ) ceras::gemm( a.data(), true, b.data(), false, c, r, c, q.data() ); else ceras::gemm( a.data(), false, b.data(), true, r, c, r, q.data() );
                    return q;
                } },
            { "both transposed", cross, []( T const& a, T const& b, unsigned ) { unsigned long k = a.shape()[0], m = a.shape()[1], n = b.shape()[0]; T q{ Shape{ m, n } }; ceras::gemm( a.data(), true, b.data(), true, m, k, n, q.data() ); return q; } },
            { "views product", product, []( T const& a, T const& b, unsigned )
                {
                    T c = a.deep_copy(), d = b.deep_copy(), q{ Shape{ a.shape()[0], b.shape()[1] } };
                    ceras::view_2d<float> u{ c.data(), c.shape()[0], c.shape()[1] }, v{ d.data(), d.shape()[0], d.shape()[1] }, w{ q.data(), q.shape()[0], q.shape()[1] };
                    ceras::gemm( u, v, w ); return q;
                } },
            { "squeeze", one, []( T const& a, T const&, unsigned ) { return ceras::squeeze( a ).deep_copy(); } },
            { "squeeze axis", ones_first, []( T const& a, T const&, unsigned ) { return ceras::squeeze( a, 0 ).deep_copy(); } },
            { "as_type", one, []( T const& a, T const&, unsigned ) { return a.template as_type<double>().template as_type<float>(); } },
            { "concatenate axis", joins_axis, []( T const& a, T const& b, unsigned ) { Shape l = a.shape(), r = b.shape(); unsigned long x = 0; for ( unsigned i = 0; i < l.size(); ++i ) if ( l[i] != r[i] ) x = i; return ceras::concatenate( a, b, x ); } },
            { "concatenate deeper", joins_deeper, []( T const& a, T const& b, unsigned p ) { return p & 1 ? ceras::concatenate( a, b, a.ndim() - 1 ) : ceras::concatenate( b, a, a.ndim() - 1 ); } },
            { "flip last", one, []( T const& a, T const&, unsigned ) { return ceras::flip( a ); } },
            { "reduce", many, []( T const& a, T const&, unsigned p ) { return ceras::reduce( a, p % 3 == 2 ? (unsigned long)-1 : p % 3 % a.ndim(), 1.0f, []( float x, float y ) { return x + y; }, p & 1 ); } },
            { "statistics", one, []( T const& a, T const&, unsigned ) { T r{ Shape{ 6 } }; r[0] = ceras::var( a ); r[1] = ceras::std( a ); r[2] = ceras::amax( a ); r[3] = ceras::amin( a ); r[4] = ceras::has_inf( a ); r[5] = ceras::is_valid( a ); return r; } },
            { "reverse iteration", one, []( T const& a, T const&, unsigned ) { T r{ a.shape() }; auto o = r.begin(); for ( auto i = ceras::crbegin( a ); i != ceras::crend( a ); ++i ) *o++ = *i; return r; } },
            { "linspace", one, []( T const& a, T const&, unsigned p ) { return ceras::linspace( 0.0f, 1.0f, a.size() + 1, p & 1 ); } },
            { "printing", one, []( T const& a, T const&, unsigned ) { T r{ Shape{ 1 } }; faults( false ); std::ostringstream s; s << a; faults( true ); r[0] = s.str().size(); return r; } },
            { "reshape", one, []( T const& a, T const&, unsigned ) { return ceras::reshape( a.deep_copy(), { a.size(), 1 } ); } },
        };
        return o;
    }

    struct Step { unsigned op, a, b, to, p, kind; u64 seed; Shape s; long at, len; };
    std::vector<Step> draw( bool oom )
    {
        std::vector<Step> h; int n = 2 + pick( 14, "steps" );
        for ( int i = 0; i < n; ++i )
        {
            Step s{}; u32 k = pick( 10, "step" );
            s.kind = k < 6 ? 0 : k == 6 ? 1 : k == 7 ? 2 : k == 8 ? 3 : 4;     // operation, new values, in place, handle copy, resize
            s.op = pick( ops().size(), "operation" ); s.a = pick( 6, "a" ); s.b = pick( 6, "b" ); s.to = pick( 6, "to" ); s.p = pick( 4, "parameter" );
            s.seed = s.kind == 1 ? raw_seed( "values" ) : 0;
            if ( s.kind == 1 || s.kind == 4 ) { int d = 1 + pick( 3, "dimensions" ); for ( int j = 0; j < d; ++j ) s.s.push_back( 1 + pick( 4, "extent" ) ); }
            s.at = -1;
            if ( oom && pick( 3, "shortage" ) ) { s.at = pick( 12, "allocation" ); s.len = pick( 2, "long" ) ? 1000 : 1 + pick( 3, "length" ); }
            h.push_back( s );
        }
        return h;
    }
    void play( std::vector<Step> const& h, bool oom, bool quiet = false, bool record = false )
    {
        std::vector<T> t( 6 ); std::vector<std::string> shadow( 6 );
        auto fill = [&]( T& x, u64 seed ) { Prng r( seed ); for ( unsigned long i = 0; i < x.size(); ++i ) x.data()[i] = (float)r.range( 0.25, 3.0 ); };
        for ( unsigned i = 0; i < 6; ++i ) { static Shape const s[] = { { 2, 3 }, { 3, 2 }, { 3 }, { 1, 3 }, { 2, 3 }, { 2, 2, 3 } }; t[i] = T{ s[i] }; fill( t[i], i ); }
        for ( auto const& s : h )
        {
            auto remember = [&] { Rt rt; for ( unsigned i = 0; i < 6; ++i ) shadow[i] = raw( t[i] ); };
            auto compare = [&]( int except, char const* what ) { Rt rt; for ( unsigned i = 0; i < 6; ++i ) if ( (int)i != except && shadow[i] != raw( t[i] ) ) violation( "operand-changed", "%s changed tensor %u (operands %u and %u)", what, i, s.a, s.b ); };
            remember();
            bool failed = false;
            switch ( s.kind )
            {
                case 0:
                {
                    Op const& o = ops()[s.op];
                    if ( !o.fits( t[s.a], t[s.b] ) ) break;
                    T expect;
                    { faults( false ); T x = t[s.a].deep_copy(), y = s.a == s.b ? x : T{ t[s.b].deep_copy() }; expect = o.f( x, y, s.p ); if ( expect.size() > 600 ) { faults( true ); break; } faults( true ); }
                    compare( -1, "copying" );
                    T r;
                    if ( s.at >= 0 ) set_alloc_fail( s.at, s.len );
                    try { r = o.f( t[s.a], t[s.b], s.p ); } catch ( std::bad_alloc const& ) { failed = true; } catch ( std::length_error const& ) { failed = true; }
                    set_alloc_fail( -1, 0 );
                    compare( -1, o.name );
                    if ( failed ) r = o.f( t[s.a], t[s.b], s.p );
                    compare( -1, o.name );
                    { Rt rt; if ( raw( r ) != raw( expect ) ) violation( "value", "%s gives another result than on copies of the same operands%s", o.name, oom ? " after memory ran out" : "" ); }
                    { T keep = t[s.to]; t[s.to] = r; compare( s.to, "assigning a result" ); }
                    if ( !quiet ) out_u( 1 );
                    break;
                }
                case 1: { T n{ s.s }; fill( n, s.seed ); t[s.to] = n; compare( s.to, "assigning a new tensor" ); break; }
                case 2:     // in place on storage of its own
                {
                    T own = t[s.a].deep_copy();
                    t[s.a] = own; remember();
                    switch ( s.p | ( s.op & 3 ) << 2 )
                    {
                        case 0: t[s.a] += 0.5f; break; case 1: t[s.a] *= 2.0f; break; case 2: t[s.a].map( []( float& v ) { v = -v; } ); break; case 3: if ( same( t[s.a], t[s.b] ) ) t[s.a] += t[s.b]; break;
                        case 4: t[s.a] -= 0.5f; break; case 5: t[s.a] /= 2.0f; break; case 6: ceras::clip( t[s.a], -1.0f, 1.0f ); break; case 7: if ( same( t[s.a], t[s.b] ) ) t[s.a] -= t[s.b]; break;
                        case 8: t[s.a].reset( 0.75f ); break; case 9: t[s.a].reset(); break; case 10: for ( auto& v : t[s.a] ) v += 1.0f; break; case 11: if ( same( t[s.a], t[s.b] ) ) t[s.a] /= t[s.b]; break;
                        case 12: ceras::reshape( t[s.a], { t[s.a].size() } ); break; case 13: t[s.a].reshape( { 1, t[s.a].size() } ); break; case 14: ceras::map( t[s.a], []( float& v ) { v += 0.125f; } ); break;
                        default: t[s.a].deep_copy( t[s.b] ); break;
                    }
                    compare( s.a, "an operation in place on storage of its own" );
                    break;
                }
                case 3: t[s.to] = t[s.a]; compare( s.to, "copying a handle" ); break;
                default:
                {
                    T own = t[s.a].deep_copy(); t[s.a] = own; own = T{}; remember();
                    if ( s.at >= 0 ) set_alloc_fail( s.at, s.len );
                    try { t[s.a].resize( s.s ); } catch ( std::bad_alloc const& ) { failed = true; }
                    set_alloc_fail( -1, 0 );
                    compare( failed ? -1 : (int)s.a, failed ? "a resize that ran out of memory" : "resizing a tensor of its own" );
                    if ( failed ) { Rt rt; unsigned long n = 1; for ( auto d : t[s.a].shape() ) n *= d; if ( n != t[s.a].size() ) violation( "torn", "after a failed resize the shape announces %lu elements, there are %lu", n, t[s.a].size() ); if ( t[s.a].size() && !addressable( t[s.a].data(), t[s.a].size() * 4 ) ) violation( "torn", "after a failed resize the tensor has no storage for its %lu elements", t[s.a].size() ); }
                    else fill( t[s.a], 5 );
                    if ( t[s.a].empty() || failed ) { T n{ Shape{ 2, 3 } }; fill( n, 7 ); t[s.a] = n; }
                    break;
                }
            }
            if ( failed ) out_u( 2 );
            if ( record ) { Rt rt; for ( unsigned i = 0; i < 6; ++i ) out_s( raw( t[i] ) ); }
        }
    }
    void one_run( bool oom )
    {
        auto h = draw( oom );
        for ( auto const& s : h ) if ( s.kind == 0 ) note( "%s on %u, %u into %u%s", ops()[s.op].name, s.a, s.b, s.to, s.at >= 0 ? ", short of memory" : "" ); else note( "%s %u %u", s.kind == 1 ? "new values" : s.kind == 2 ? "in place" : s.kind == 3 ? "handle copy" : "resize", s.a, s.to );
        LifeOpts o; o.cores = 1 + pick( 3, "cores" ); o.reuse = chance( 1, 2, "reuse" ); o.fill = pick( 2, "fill" ) ? 0xFF : 0xA5;
        Outcome r = life( o, [&] { play( h, oom ); } );
        if ( r.kind == SIGV || r.kind == HANG ) violation( r.kind == HANG ? "hang" : "memory", "%s", r.what.c_str() );
        if ( r.kind != RET && r.alloc_faults == 0 ) violation( "ends-badly", "tensor arithmetic ends in %s %s", kind_name( r.kind ), r.what.c_str() );
        while ( r.log.more() ) count( r.log.u() == 1 ? "operations_compared" : "shortages_caught" );
        if ( r.kind != RET ) count( "ended_visibly" );
        std::set<int> used; for ( auto const& s : h ) if ( s.kind == 0 ) used.insert( s.op ); for ( int i : used ) cover( std::string( "tensor " ) + ops()[i].name );
        nontrivial();
    }
}
SCENARIO( S02, tensors, 1 ) { one_run( false ); }
SCENARIO( M02, tensors, 1 ) { one_run( true ); }
// ---- P02, P03: on one processor, on several, and with threads the system refuses (value-safe arithmetic)
static void tell( std::vector<Step> const& h ) { std::set<int> used; for ( auto const& s : h ) if ( s.kind == 0 ) { note( "%s on %u, %u into %u", ops()[s.op].name, s.a, s.b, s.to ); used.insert( s.op ); } else note( "%s %u %u", s.kind == 1 ? "new values" : s.kind == 2 ? "in place" : s.kind == 3 ? "handle copy" : "resize", s.a, s.to ); for ( int i : used ) cover( std::string( "tensor " ) + ops()[i].name ); }
SCENARIO( P02, tensors, 1 )
{
    auto h = draw( false ); tell( h );
    LifeOpts one; Outcome a = life( one, [&] { play( h, false, true, true ); } );
    if ( a.kind != RET ) { count( "history_cut_short" ); return; }
    LifeOpts o; default_sched( o ); if ( o.cores == 1 ) o.cores = 2 + pick( 4, "processors" );
    Outcome b = life( o, [&] { play( h, false, true, true ); } );
    if ( a.kind != b.kind ) violation( "outcome", "on one processor: %s %s; on %d: %s %s", kind_name( a.kind ), a.what.c_str(), o.cores, kind_name( b.kind ), b.what.c_str() );
    if ( a.log.b != b.log.b ) violation( "differs", "tensor arithmetic differs between one and %d processors", o.cores );
    count( "schedules_compared" ); if ( b.threads ) nontrivial();
}
SCENARIO( P03, tensors, 1 )
{
    auto h = draw( false ); tell( h );
    LifeOpts o; default_sched( o ); if ( o.cores == 1 ) o.cores = 2 + pick( 4, "processors" );
    Outcome a = life( o, [&] { play( h, false, true, true ); } );
    if ( a.kind != RET || a.threads == 0 ) { count( "history_cut_short" ); return; }
    unsigned k = 1 + pick( 3, "executions" );
    for ( unsigned i = 0; i < k; ++i )
    {
        LifeOpts q = o; q.sched = pick( 5, "schedule" );
        if ( pick( 4, "how" ) == 3 ) q.thread_fail_rate = 1 + pick( 60, "rate" );
        else { q.thread_fail_at = pick( (u32)a.threads, "refused" ); static long const len[] = { 1, 1, 3, 1000000 }; q.thread_fail_len = len[pick( 4, "length" )]; }
        Outcome b = life( q, [&] { play( h, false, true, true ); } );
        if ( b.thread_faults == 0 ) { count( "nothing_refused" ); continue; }
        fault_fired( FK_THREAD, b.thread_faults );
        if ( b.kind == HANG ) violation( "hang", "after a refused thread: %s", b.what.c_str() );
        if ( b.kind == SIGV || b.kind == VIOL ) violation( "memory", "after a refused thread: %s", b.what.c_str() );
        if ( b.kind == RET && b.log.b != a.log.b ) violation( "silently-different", "%lu threads refused, no failure is visible, but the results differ", (unsigned long)b.thread_faults );
        if ( b.kind != RET && ( b.log.b.size() > a.log.b.size() || a.log.b.compare( 0, b.log.b.size(), b.log.b ) ) ) violation( "silently-different", "%lu threads refused; before the failure becomes visible results differ", (unsigned long)b.thread_faults );
        count( b.kind == RET ? "coped" : "failed_visibly" ); nontrivial();
    }
}
// ---- M03: the same arithmetic over and over
SCENARIO( M03, tensors, 1 )
{
    auto h = draw( false );
    for ( auto const& s : h ) if ( s.kind == 0 ) note( "%s on %u, %u into %u", ops()[s.op].name, s.a, s.b, s.to ); else note( "%s %u %u", s.kind == 1 ? "new values" : s.kind == 2 ? "in place" : s.kind == 3 ? "handle copy" : "resize", s.a, s.to );
    LifeOpts o; if ( pick( 4, "threads" ) == 3 ) default_sched( o ); o.reuse = chance( 1, 2, "reuse" );
    static int const rounds = 16;
    Outcome r = life( o, [&] { for ( int i = 0; i < rounds; ++i ) { play( h, false, true ); Rt rt; out_u( live_bytes() ); } } );
    if ( r.kind == SIGV || r.kind == HANG ) violation( r.kind == HANG ? "hang" : "memory", "%s", r.what.c_str() );
    std::vector<u64> live; while ( r.log.more() ) live.push_back( r.log.u() );
    if ( r.kind != RET || live.size() != rounds ) { count( "history_cut_short" ); return; }
    if ( live[rounds - 1] > live[3] ) violation( "grows", "after 4, 8 and 16 rounds of the same arithmetic %lu, %lu and %lu bytes are in use", live[3], live[7], live[15] );
    count( "rounds", rounds ); nontrivial();
}
