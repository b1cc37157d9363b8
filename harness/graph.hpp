// Run-time built expression graphs over the library's own operators, for the graph and training harnesses.
#ifndef VERIF_GRAPH_HPP
#define VERIF_GRAPH_HPP
#include CERAS_HPP
#include "sim.hpp"
#include <cstring>
#include <cmath>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <functional>

namespace ceras { struct verif_tag {}; }     // makes the library's operators visible for Any

namespace gr
{
    typedef ceras::tensor<float> T;
    typedef ceras::variable<T> Var;
    typedef ceras::place_holder<T> Ph;
    typedef std::vector<unsigned long> Shape;
    // built with -ffast-math, as the tests are: not-a-number must be told from the bits
    inline bool is_number( float f ) { std::uint32_t u; std::memcpy( &u, &f, 4 ); return ( u & 0x7f800000u ) != 0x7f800000u; }
    inline bool tame( float f, float limit ) { return is_number( f ) && std::abs( f ) < limit; }
    using sim::u32; using sim::u64; using sim::Prng; using sim::pick; using sim::chance; using sim::Rt;

    // An expression of any kind behind one type. Copying it copies the wrapped library object, as copying an
    // expression does in user code; all work is done by the wrapped object.
    struct Any : ceras::verif_tag
    {
        typedef T tensor_type;
        typedef float value_type;
        struct Base { virtual ~Base() {} virtual T fwd() = 0; virtual void bwd( T const& ) = 0; virtual Shape shp() const = 0; virtual int num() const = 0; virtual std::string nm() const = 0; virtual Base* clone() const = 0; };
        template< typename E, bool Grad > struct Box : Base
        {
            E e;
            Box( E const& x ) : e( x ) {}
            T fwd() override { return e.forward(); }
            void bwd( T const& g ) override { if constexpr ( Grad ) e.backward( g ); else sim::harness_error( "no gradient" ); }
            Shape shp() const override { return e.shape(); }
            int num() const override { return e.id(); }
            std::string nm() const override { return e.name(); }
            Base* clone() const override { return new Box<E, Grad>( e ); }
        };
        std::unique_ptr<Base> p;
        Any() {}
        Any( Any const& o ) : p( o.p ? o.p->clone() : nullptr ) {}
        Any( Any&& ) = default;
        Any& operator = ( Any const& o ) { if ( this != &o ) p.reset( o.p ? o.p->clone() : nullptr ); return *this; }
        Any& operator = ( Any&& ) = default;
        template< typename E > requires ( !std::is_same_v<E, Any> ) explicit Any( E const& e ) : p( new Box<E, true>( e ) ) {}
        template< typename E > Any( E const& e, int ) : p( new Box<E, false>( e ) ) {}   // its gradient does not compile
        T forward() { return p->fwd(); }
        void backward( T const& g ) { p->bwd( g ); }
        Shape shape() const { return p->shp(); }
        int id() const { return p->num(); }
        std::string name() const { return p->nm(); }
    };
}
template<> struct ceras::is_constant<gr::Any> : std::true_type {};

namespace gr
{
    typedef std::vector<Any> Args;
    typedef std::function<Any( Args const& )> Fn;
    inline Any wrap( Any const& a ) { return a; }
    template< typename E > requires ( !std::is_same_v<E, Any> ) Any wrap( E const& e ) { return Any( e ); }
    inline unsigned long size_of( Shape const& s ) { unsigned long n = 1; for ( auto d : s ) n *= d; return n; }
    inline std::string str( Shape const& s ) { std::string r = "["; for ( auto d : s ) { if ( r.size() > 1 ) r += ","; r += std::to_string( d ); } return r + "]"; }

    enum { ANY = 0, POS = 1, UNIT = 2, ABOVE1 = 3 };            // domains
    enum { PHASE0 = 1, PHASE1 = 2, SHAREABLE = 4, FIXED = 8, FIXED_IMAGE = 16, LAYER = 32, SCALAR = 64, NO_GRAD = 128, FULL2D = 256, BUILD_BOUND = 512 };

    struct Kind
    {
        char const* name; int nin; int weight; unsigned pmax[4]; int dom[2]; int flags;
        std::function<Shape( std::vector<Shape> const&, unsigned const*, std::vector<Shape> const& )> infer;   // operand shapes now, parameters, operand shapes when built; empty: not valid
        std::function<Fn( unsigned const*, std::vector<Shape> const& )> make;
    };

    typedef std::vector<Shape> const& SS;
    inline Shape same( SS s, unsigned const*, SS ) { return s[0]; }
    inline float scalar_of( unsigned p ) { static float const c[] = { 2.0f, 0.5f, -1.5f, 3.0f, -0.25f, 1.0f }; return c[p % 6]; }
    // shapes that elementwise operators accept: equal, or one a suffix-like broadcast of the other
    inline Shape bcast( Shape l, Shape r )
    {
        Shape a = l, b = r;
        while ( a.size() < b.size() ) a.insert( a.begin(), 1 );
        while ( b.size() < a.size() ) b.insert( b.begin(), 1 );
        Shape o;
        for ( unsigned i = 0; i < a.size(); ++i ) { if ( a[i] != b[i] && a[i] != 1 && b[i] != 1 ) return {}; o.push_back( std::max( a[i], b[i] ) ); }
        return o;
    }

    // the element-wise product repeats the smaller operand along the leading dimensions of the larger one
    inline Shape tile( Shape const& l, Shape const& r )
    {
        if ( l == r ) return l;
        if ( size_of( l ) == size_of( r ) ) return {};
        Shape const& b = size_of( l ) > size_of( r ) ? l : r; Shape s = size_of( l ) > size_of( r ) ? r : l;
        if ( s.size() > b.size() ) return {};
        while ( !s.empty() && s[0] == 1 ) s.erase( s.begin() );
        if ( !std::equal( s.begin(), s.end(), b.end() - s.size() ) ) return {};
        return b;
    }

#ifndef VG_NO_KINDS   // the table costs a minute of compilation
    std::vector<Kind> const& kinds();
#define VG_U( NAME, DOM, FLAGS, EXPR ) K.push_back( { NAME, 1, 1, { 1, 1, 1, 1 }, { DOM, 0 }, FLAGS, same, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { auto const& x = a[0]; return wrap( EXPR ); }; } } )
#define VG_UP( NAME, DOM, FLAGS, PM, EXPR ) K.push_back( { NAME, 1, 1, { PM, 1, 1, 1 }, { DOM, 0 }, FLAGS, same, []( unsigned const* q, SS ) -> Fn { unsigned p = q[0]; return [p]( Args const& a ) { auto const& x = a[0]; (void)p; return wrap( EXPR ); }; } } )

    inline std::vector<Kind> make_kinds()
    {
        using namespace ceras;
        std::vector<Kind> K;
        // element by element, one operand
        VG_U( "negative", ANY, 0, -x );
        VG_UP( "x+a", ANY, 0, 6, x + scalar_of( p ) );
        VG_UP( "a+x", ANY, 0, 6, scalar_of( p ) + x );
        VG_UP( "x-a", ANY, 0, 6, x - scalar_of( p ) );
        VG_UP( "a-x", ANY, 0, 6, scalar_of( p ) - x );
        VG_UP( "x*a", ANY, 0, 6, x * scalar_of( p ) );
        VG_UP( "a*x", ANY, 0, 6, scalar_of( p ) * x );
        VG_UP( "x/a", ANY, 0, 6, x / scalar_of( p ) );
        VG_UP( "x+value", ANY, 0, 6, x + ceras::value<float>{ scalar_of( p ) } );
        VG_UP( "value+x", ANY, 0, 6, ceras::value<float>{ scalar_of( p ) } + x );
        VG_UP( "value*x", ANY, 0, 6, ceras::value<float>{ scalar_of( p ) } * x );
        VG_UP( "value-x", ANY, 0, 6, ceras::value<float>{ scalar_of( p ) } - x );
        VG_U( "inverse", POS, 0, ceras::inverse( x ) );
        VG_U( "square", ANY, 0, ceras::square( x ) );
        VG_U( "abs", ANY, 0, ceras::abs( x ) );
        VG_U( "fabs", ANY, 0, ceras::fabs( x ) );
        VG_U( "acos", UNIT, 0, ceras::acos( x ) );
        VG_U( "acosh", ABOVE1, 0, ceras::acosh( x ) );
        VG_U( "asin", UNIT, 0, ceras::asin( x ) );
        VG_U( "asinh", ANY, 0, ceras::asinh( x ) );
        VG_U( "atan", ANY, 0, ceras::atan( x ) );
        VG_U( "atanh", UNIT, 0, ceras::atanh( x ) );
        VG_U( "cbrt", POS, 0, ceras::cbrt( x ) );
        VG_U( "ceil", ANY, 0, ceras::ceil( x ) );
        VG_U( "cos", ANY, 0, ceras::cos( x ) );
        VG_U( "cosh", UNIT, 0, ceras::cosh( x ) );
        VG_U( "erf", ANY, 0, ceras::erf( x ) );
        VG_U( "erfc", ANY, 0, ceras::erfc( x ) );
        VG_U( "exp", UNIT, 0, ceras::exp( x ) );
        VG_U( "exp2", UNIT, 0, ceras::exp2( x ) );
        VG_U( "expm1", UNIT, 0, ceras::expm1( x ) );
        VG_U( "floor", ANY, 0, ceras::floor( x ) );
        VG_U( "llrint", ANY, 0, ceras::llrint( x ) );
        VG_U( "llround", ANY, 0, ceras::llround( x ) );
        VG_U( "log", POS, 0, ceras::log( x ) );
        VG_U( "log10", POS, 0, ceras::log10( x ) );
        VG_U( "log1p", POS, 0, ceras::log1p( x ) );
        VG_U( "log2", POS, 0, ceras::log2( x ) );
        VG_U( "lrint", ANY, 0, ceras::lrint( x ) );
        VG_U( "lround", ANY, 0, ceras::lround( x ) );
        VG_U( "nearbyint", ANY, 0, ceras::nearbyint( x ) );
        VG_U( "rint", ANY, 0, ceras::rint( x ) );
        VG_U( "round", ANY, 0, ceras::round( x ) );
        VG_U( "sin", ANY, 0, ceras::sin( x ) );
        VG_U( "sinh", UNIT, 0, ceras::sinh( x ) );
        VG_U( "sqrt", POS, 0, ceras::sqrt( x ) );
        VG_U( "tan", UNIT, 0, ceras::tan( x ) );
        VG_U( "tanh", ANY, 0, ceras::tanh( x ) );
        VG_U( "trunc", ANY, 0, ceras::trunc( x ) );
        VG_U( "sign", ANY, 0, ceras::sign( x ) );
        VG_U( "ones_like", ANY, 0, ceras::ones_like( x ) );
        VG_U( "zeros_like", ANY, 0, ceras::zeros_like( x ) );
        VG_UP( "clip", ANY, 0, 3, ceras::clip( -0.5f * p - 0.25f, 0.5f )( x ) );
        // activations
        VG_U( "relu", ANY, 0, ceras::relu( x ) );
        VG_U( "relu6", ANY, 0, ceras::relu6( x * 4.0f ) );
        VG_U( "negative_relu", ANY, 0, ceras::negative_relu( x ) );
        VG_U( "selu", ANY, 0, ceras::selu( x ) );
        VG_U( "softplus", ANY, 0, ceras::softplus( x ) );
        VG_U( "softsign", ANY, 0, ceras::softsign( x ) );
        VG_U( "sigmoid", ANY, 0, ceras::sigmoid( x ) );
        VG_U( "exponential", UNIT, 0, ceras::exponential( x ) );
        VG_U( "hard_sigmoid", ANY, 0, ceras::hard_sigmoid( x ) );
        VG_U( "gelu", ANY, 0, ceras::gelu( x ) );
        VG_U( "tank_shrink", ANY, 0, ceras::tank_shrink( x ) );
        VG_U( "gaussian", ANY, 0, ceras::gaussian( x ) );
        VG_U( "heaviside_step", ANY, 0, ceras::heaviside_step( 1.5f )( x ) );
        VG_U( "swish", ANY, 0, ceras::swish( x ) );
        VG_U( "silu", ANY, 0, ceras::silu( x ) );
        VG_U( "identity", ANY, 0, ceras::identity( x ) );
        VG_U( "softmax", ANY, 0, ceras::softmax( x ) );
        VG_U( "Softmax layer", ANY, 0, ceras::Softmax()( x ) );
        VG_U( "ReLU layer", ANY, 0, ceras::ReLU( x ) );
        // shape changes
        K.push_back( { "transpose", 1, 2, { 1, 1, 1, 1 }, {}, 0, []( SS s, unsigned const*, SS ) { return s[0].size() == 2 ? Shape{ s[0][1], s[0][0] } : Shape{}; },
                       []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( ceras::transpose( a[0] ) ); }; } } );
        K.push_back( { "flatten", 1, 2, { 1, 1, 1, 1 }, {}, 0, []( SS s, unsigned const*, SS ) { return s[0].size() > 1 ? Shape{ s[0][0], size_of( s[0] ) / s[0][0] } : Shape{}; },
                       []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( ceras::flatten( a[0] ) ); }; } } );
        K.push_back( { "expand_dims", 1, 1, { 4, 1, 1, 1 }, {}, SHAREABLE, []( SS s, unsigned const* p, SS ) { Shape o = s[0]; if ( o.size() > 3 ) return Shape{}; int ax = (int)p[0] - 1; if ( ax == -1 ) ax = o.size(); if ( ax > (int)o.size() ) return Shape{}; o.insert( o.begin() + ax, 1 ); return o; },
                       []( unsigned const* p, SS ) -> Fn { auto f = ceras::expand_dims( (int)p[0] - 1 ); return [f]( Args const& a ) { return wrap( f( a[0] ) ); }; } } );
        K.push_back( { "squeeze", 1, 1, { 4, 1, 1, 1 }, {}, SHAREABLE, []( SS s, unsigned const* p, SS ) { Shape o = s[0]; if ( p[0] >= o.size() || o.size() < 3 || o[p[0]] != 1 ) return Shape{}; o.erase( o.begin() + p[0] ); return o; },
                       []( unsigned const* p, SS ) -> Fn { auto f = ceras::squeeze( (int)p[0] ); return [f]( Args const& a ) { return wrap( f( a[0] ) ); }; } } );
        K.push_back( { "reshape", 1, 3, { 4, 1, 1, 1 }, {}, 0,
                       []( SS s, unsigned const* p, SS s0 ) { if ( s0[0].size() < 2 ) return Shape{}; unsigned long r0 = size_of( s0[0] ) / s0[0][0], r = size_of( s[0] ) / s[0][0]; if ( r != r0 ) return Shape{}; unsigned long d = p[0] == 0 ? 1 : p[0] == 1 ? 2 : p[0] == 2 ? 3 : r; if ( r % d ) return Shape{}; return p[0] == 3 ? Shape{ s[0][0], r } : Shape{ s[0][0], d, r / d }; },
                       []( unsigned const* p, SS s0 ) -> Fn { unsigned long r = size_of( s0[0] ) / s0[0][0]; unsigned long d = p[0] == 0 ? 1 : p[0] == 1 ? 2 : 3; Shape n = p[0] == 3 ? Shape{ r } : Shape{ d, r / d }; auto f = ceras::reshape( n ); return [f]( Args const& a ) { return wrap( f( a[0] ) ); }; } } );
        K.push_back( { "reshape_all", 1, 1, { 2, 1, 1, 1 }, {}, FIXED, []( SS s, unsigned const* p, SS ) { unsigned long n = size_of( s[0] ); return p[0] == 0 ? Shape{ n, 1 } : n % 2 ? Shape{} : Shape{ 2, n / 2 }; },
                       []( unsigned const* p, SS s0 ) -> Fn { unsigned long n = size_of( s0[0] ); auto f = ceras::reshape( p[0] == 0 ? Shape{ n, 1 } : Shape{ 2, n / 2 }, false ); return [f]( Args const& a ) { return wrap( f( a[0] ) ); }; } } );
        K.push_back( { "flip", 1, 2, { 4, 1, 1, 1 }, {}, SHAREABLE, []( SS s, unsigned const* p, SS ) { return p[0] < s[0].size() ? s[0] : Shape{}; },
                       []( unsigned const* p, SS ) -> Fn { auto f = ceras::flip( (int)p[0] ); return [f]( Args const& a ) { return wrap( f( a[0] ) ); }; } } );
        K.push_back( { "broadcast", 1, 1, { 3, 1, 1, 1 }, {}, FIXED, []( SS s, unsigned const* p, SS ) { Shape o = s[0]; if ( o.size() > 3 ) return Shape{}; o.insert( o.begin(), p[0] + 1 ); return o; },
                       []( unsigned const* p, SS s0 ) -> Fn { Shape o = s0[0]; o.insert( o.begin(), p[0] + 1 ); auto f = ceras::broadcast( o ); return [f]( Args const& a ) { return wrap( f( a[0] ) ); }; } } );
        // matrix products of an expression with an expression of itself
        auto square2 = []( SS s, unsigned const*, SS ) { return s[0].size() == 2 && s[0][0] == s[0][1] ? s[0] : Shape{}; };
        K.push_back( { "mish", 1, 2, { 1, 1, 1, 1 }, {}, 0, square2, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( ceras::mish( a[0] ) ); }; } } );
        K.push_back( { "lisht", 1, 2, { 1, 1, 1, 1 }, {}, 0, square2, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( ceras::lisht( a[0] ) ); }; } } );
        K.push_back( { "Conv1D", 1, 3, { 2, 2, 2, 2 }, {}, LAYER | BUILD_BOUND | FIXED_IMAGE,
                       []( SS s, unsigned const* p, SS ) { unsigned long k = p[1] + 1, st = p[2] + 1, di = p[3] + 1, e = di * ( k - 1 ) + 1; return s[0].size() == 3 && s[0][1] >= e ? Shape{ s[0][0], ( s[0][1] - e ) / st + 1, p[0] + 1ul } : Shape{}; },
                       []( unsigned const* p, SS ) -> Fn { auto f = ceras::Conv1D( p[0] + 1, p[1] + 1, p[2] + 1, "valid", p[3] + 1, true, 0.0f, 0.01f ); return [f]( Args const& a ) { return wrap( f( a[0] ) ); }; } } );
        // along an axis
        auto drop_axis = []( SS s, unsigned const* p, SS ) { Shape o = s[0]; unsigned ax = p[0] == 4 ? o.size() - 1 : p[0]; if ( o.size() < 2 || ax >= o.size() ) return Shape{}; o.erase( o.begin() + ax ); return o; };
        auto last = []( unsigned p ) { return p == 4 ? -1ul : (unsigned long)p; };
        K.push_back( { "argmax", 1, 1, { 4, 1, 1, 1 }, {}, SHAREABLE, drop_axis, []( unsigned const* p, SS ) -> Fn { auto f = ceras::argmax( p[0] ); return [f]( Args const& a ) { return wrap( f( a[0] ) ); }; } } );
        K.push_back( { "argmin", 1, 1, { 4, 1, 1, 1 }, {}, SHAREABLE, drop_axis, []( unsigned const* p, SS ) -> Fn { auto f = ceras::argmin( p[0] ); return [f]( Args const& a ) { return wrap( f( a[0] ) ); }; } } );
        K.push_back( { "reduce_min", 1, 2, { 5, 1, 1, 1 }, {}, SHAREABLE, drop_axis, [last]( unsigned const* p, SS ) -> Fn { auto f = ceras::reduce_min( last( p[0] ) ); return [f]( Args const& a ) { return wrap( f( a[0] ) ); }; } } );
        K.push_back( { "reduce_max", 1, 2, { 5, 1, 1, 1 }, {}, SHAREABLE, drop_axis, [last]( unsigned const* p, SS ) -> Fn { auto f = ceras::reduce_max( last( p[0] ) ); return [f]( Args const& a ) { return wrap( f( a[0] ) ); }; } } );
        K.push_back( { "reduce_sum", 1, 2, { 5, 1, 1, 1 }, {}, SHAREABLE, drop_axis, [last]( unsigned const* p, SS ) -> Fn { auto f = ceras::reduce_sum( last( p[0] ) ); return [f]( Args const& a ) { return wrap( f( a[0] ) ); }; } } );
        K.push_back( { "repeat", 1, 2, { 3, 5, 1, 1 }, {}, SHAREABLE, []( SS s, unsigned const* p, SS ) { Shape o = s[0]; unsigned ax = p[1] == 4 ? o.size() - 1 : p[1]; if ( ax >= o.size() ) return Shape{}; o[ax] *= p[0] + 1; return o; },
                       [last]( unsigned const* p, SS ) -> Fn { auto f = ceras::repeat( p[0] + 1, last( p[1] ) ); return [f]( Args const& a ) { return wrap( f( a[0] ) ); }; } } );
        K.push_back( { "crelu", 1, 1, { 1, 1, 1, 1 }, {}, 0, []( SS s, unsigned const*, SS ) { Shape o = s[0]; o.back() *= 2; return o; }, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( ceras::crelu( a[0] ) ); }; } } );
        // images
        auto pool = []( SS s, unsigned const* p, SS ) { Shape o = s[0]; if ( o.size() != 4 || o[1] < p[0] + 2 || o[2] < p[0] + 2 ) return Shape{}; o[1] /= p[0] + 2; o[2] /= p[0] + 2; return o; };
        K.push_back( { "max_pooling_2d", 1, 4, { 2, 1, 1, 1 }, {}, SHAREABLE, pool, []( unsigned const* p, SS ) -> Fn { auto f = ceras::max_pooling_2d( p[0] + 2 ); return [f]( Args const& a ) { return wrap( f( a[0] ) ); }; } } );
        K.push_back( { "average_pooling_2d", 1, 4, { 2, 1, 1, 1 }, {}, SHAREABLE, pool, []( unsigned const* p, SS ) -> Fn { auto f = ceras::average_pooling_2d( p[0] + 2 ); return [f]( Args const& a ) { return wrap( f( a[0] ) ); }; } } );
        K.push_back( { "up_sampling_2d", 1, 4, { 2, 1, 1, 1 }, {}, SHAREABLE, []( SS s, unsigned const* p, SS ) { Shape o = s[0]; if ( o.size() != 4 ) return Shape{}; o[1] *= p[0] + 2; o[2] *= p[0] + 2; return o; },
                       []( unsigned const* p, SS ) -> Fn { auto f = ceras::up_sampling_2d( p[0] + 2 ); return [f]( Args const& a ) { return wrap( f( a[0] ) ); }; } } );
        K.push_back( { "zero_padding_2d", 1, 4, { 2, 2, 2, 2 }, {}, SHAREABLE, []( SS s, unsigned const* p, SS ) { Shape o = s[0]; if ( o.size() != 4 ) return Shape{}; o[1] += p[0] + p[1] + 2; o[2] += p[2] + p[3] + 2; return o; },
                       []( unsigned const* p, SS ) -> Fn { auto f = ceras::zero_padding_2d( { p[0] + 1ul, p[1] + 1ul, p[2] + 1ul, p[3] + 1ul } ); return [f]( Args const& a ) { return wrap( f( a[0] ) ); }; } } );
        K.push_back( { "cropping_2d", 1, 4, { 2, 2, 2, 2 }, {}, SHAREABLE, []( SS s, unsigned const* p, SS ) { Shape o = s[0]; if ( o.size() != 4 || o[1] <= p[0] + p[1] + 2 || o[2] <= p[2] + p[3] + 2 ) return Shape{}; o[1] -= p[0] + p[1] + 2; o[2] -= p[2] + p[3] + 2; return o; },
                       []( unsigned const* p, SS ) -> Fn { auto f = ceras::cropping_2d( { p[0] + 1ul, p[1] + 1ul, p[2] + 1ul, p[3] + 1ul } ); return [f]( Args const& a ) { return wrap( f( a[0] ) ); }; } } );
        K.push_back( { "img2col", 1, 4, { 3, 3, 2, 2 }, {}, SHAREABLE,
                       []( SS s, unsigned const* p, SS ) { Shape o = s[0]; unsigned long kr = p[0] + 1, kc = p[1] + 1, pad = p[2], st = p[3] + 1; if ( o.size() != 4 || o[1] + 2 * pad < kr || o[2] + 2 * pad < kc ) return Shape{}; unsigned long r = ( o[1] + 2 * pad - kr ) / st + 1, c = ( o[2] + 2 * pad - kc ) / st + 1; return Shape{ kr * kc * o[3], o[0] * r * c }; },
                       []( unsigned const* p, SS ) -> Fn { unsigned long pad = p[2], st = p[3] + 1; auto f = ceras::img2col( p[0] + 1, p[1] + 1, pad, pad, st, st ); return [f]( Args const& a ) { return wrap( f( a[0] ) ); }; } } );
        K.push_back( { "sliding_2d", 1, 2, { 2, 1, 1, 1 }, {}, PHASE0 | SHAREABLE, []( SS s, unsigned const*, SS ) { return s[0].size() == 4 ? s[0] : Shape{}; },
                       []( unsigned const* p, SS ) -> Fn { auto f = ceras::sliding_2d( p[0] + 1 ); return [f]( Args const& a ) { return wrap( f( a[0] ) ); }; } } );
        K.push_back( { "drop_out", 1, 1, { 2, 1, 1, 1 }, {}, PHASE0 | SHAREABLE, same, []( unsigned const* p, SS ) -> Fn { auto f = ceras::drop_out( 0.25f + 0.25f * p[0] ); return [f]( Args const& a ) { return wrap( f( a[0] ) ); }; } } );
        K.push_back( { "normalization_batch", 1, 3, { 2, 1, 1, 1 }, {}, PHASE1, []( SS s, unsigned const*, SS s0 ) { return s[0].size() > 1 && s[0].back() == s0[0].back() && size_of( s[0] ) / s[0].back() > 1 ? s[0] : Shape{}; },
                       []( unsigned const* p, SS ) -> Fn { auto f = ceras::normalization_batch( 0.9 - 0.2 * p[0] ); return [f]( Args const& a ) { return wrap( f( a[0] ) ); }; } } );
        // two operands
        auto bc = []( SS s, unsigned const*, SS ) { return bcast( s[0], s[1] ); };
        auto tl = []( SS s, unsigned const*, SS ) { return tile( s[0], s[1] ); };
        auto eq = []( SS s, unsigned const*, SS ) { return s[0] == s[1] ? s[0] : Shape{}; };
        K.push_back( { "plus", 2, 8, { 1, 1, 1, 1 }, {}, 0, bc, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( a[0] + a[1] ); }; } } );
        K.push_back( { "minus", 2, 4, { 1, 1, 1, 1 }, {}, 0, bc, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( a[0] - a[1] ); }; } } );
        K.push_back( { "elementwise_product", 2, 6, { 1, 1, 1, 1 }, {}, 0, tl, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( ceras::elementwise_product( a[0], a[1] ) ); }; } } );
        K.push_back( { "divide", 2, 2, { 1, 1, 1, 1 }, { ANY, POS }, 0, tl, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( a[0] / a[1] ); }; } } );
        K.push_back( { "multiply", 2, 10, { 1, 1, 1, 1 }, {}, 0, []( SS s, unsigned const*, SS ) { return s[0].size() == 2 && s[1].size() == 2 && s[0][1] == s[1][0] ? Shape{ s[0][0], s[1][1] } : Shape{}; },
                       []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( a[0] * a[1] ); }; } } );
        K.push_back( { "maximum", 2, 3, { 1, 1, 1, 1 }, {}, 0, eq, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( ceras::maximum( a[0], a[1] ) ); }; } } );
        K.push_back( { "minimum", 2, 3, { 1, 1, 1, 1 }, {}, 0, eq, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( ceras::minimum( a[0], a[1] ) ); }; } } );
        K.push_back( { "atan2", 2, 2, { 1, 1, 1, 1 }, { POS, ANY }, 0, eq, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( ceras::atan2( a[0], a[1] ) ); }; } } );
        K.push_back( { "equal", 2, 1, { 1, 1, 1, 1 }, {}, 0, eq, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( ceras::equal( a[0], a[1], 0.5f ) ); }; } } );
        // complex expressions: several expressions that share their operands
        K.push_back( { "complex norm", 2, 2, { 1, 1, 1, 1 }, {}, 0, eq, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( ceras::norm( ceras::complex<Any, Any>{ a[0], a[1] } ) ); }; } } );
        K.push_back( { "complex abs", 2, 2, { 1, 1, 1, 1 }, { POS, POS }, 0, eq, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( ceras::abs( ceras::complex<Any, Any>{ a[0], a[1] } ) ); }; } } );
        K.push_back( { "complex polar", 2, 2, { 2, 1, 1, 1 }, {}, 0, eq, []( unsigned const* p, SS ) -> Fn { bool im = p[0]; return [im]( Args const& a ) { auto c = ceras::polar( a[0], a[1] ); return im ? wrap( ceras::imag( c ) ) : wrap( ceras::real( c ) ); }; } } );
        K.push_back( { "complex product", 2, 3, { 3, 1, 1, 1 }, {}, 0, []( SS s, unsigned const*, SS ) { return s[0].size() == 2 && s[0] == s[1] && s[0][0] == s[0][1] ? s[0] : Shape{}; },
                       []( unsigned const* p, SS ) -> Fn { unsigned w = p[0]; return [w]( Args const& a ) { auto c = ceras::complex<Any, Any>{ a[0], a[1] } * ceras::complex<Any, Any>{ a[1], a[0] }; auto d = c - ceras::conj( c ) + c; return w == 0 ? wrap( ceras::real( c ) ) : w == 1 ? wrap( ceras::imag( c ) ) : wrap( ceras::real( d ) + ceras::imag( d ) ); }; } } );
        K.push_back( { "hypot", 2, 2, { 1, 1, 1, 1 }, { POS, POS }, 0, eq, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( ceras::hypot( a[0], a[1] ) ); }; } } );
        K.push_back( { "concatenate", 2, 4, { 4, 1, 1, 1 }, {}, 0, []( SS s, unsigned const* p, SS ) { if ( s[0].size() != s[1].size() ) return Shape{}; unsigned ax = p[0] == 3 ? s[0].size() - 1 : p[0]; if ( ax >= s[0].size() ) return Shape{}; Shape o = s[0], q = s[1]; o[ax] = q[ax] = 1; if ( o != q ) return Shape{}; o[ax] = s[0][ax] + s[1][ax]; return o; },
                       []( unsigned const* p, SS ) -> Fn { unsigned long ax = p[0] == 3 ? -1ul : p[0]; return [ax]( Args const& a ) { return wrap( ceras::concatenate( a[0], a[1] )( ax ) ); }; } } );
        K.push_back( { "conv2d", 2, 6, { 2, 2, 2, 2 }, {}, FIXED_IMAGE,
                       []( SS s, unsigned const* p, SS ) { if ( s[0].size() != 4 || s[1].size() != 4 || s[0][3] != s[1][3] || s[1][1] != s[1][2] ) return Shape{}; unsigned long st = p[0] + 1, di = p[3] + 1, k1 = s[1][1], k = di * ( k1 - 1 ) + 1, pad = 0; if ( p[1] ) { if ( ( k - st ) & 1 || k < st ) return Shape{}; pad = ( ( k1 & 1 ) + ( k - st ) ) >> 1; } if ( s[0][1] + 2 * pad < k || s[0][2] + 2 * pad < k ) return Shape{}; return Shape{ s[0][0], ( s[0][1] + 2 * pad - k ) / st + 1, ( s[0][2] + 2 * pad - k ) / st + 1, s[1][0] }; },
                       []( unsigned const* p, SS s0 ) -> Fn { unsigned long st = p[0] + 1, di = p[3] + 1; std::string pad = p[1] ? "same" : "valid"; auto r = s0[0][1], c = s0[0][2]; bool general = p[2]; return [=]( Args const& a ) { return general ? wrap( ceras::general_conv2d( st, st, di, di, pad )( a[0], a[1] ) ) : wrap( ceras::conv2d( r, c, st, st, di, di, pad )( a[0], a[1] ) ); }; } } );
        K.push_back( { "conv2d_transpose", 2, 2, { 2, 1, 1, 1 }, {}, FIXED_IMAGE | NO_GRAD,
                       []( SS s, unsigned const* p, SS ) { if ( s[0].size() != 4 || s[1].size() != 4 || s[0][3] != s[1][3] || s[1][1] != s[1][2] ) return Shape{}; unsigned long k = s[1][1], st = p[0] + 1; unsigned long r = s[0][1] * st + 2 * k - 2, c = s[0][2] * st + 2 * k - 2; return Shape{ s[0][0], ( r - k ) / st + 1, ( c - k ) / st + 1, s[1][0] }; },
                       []( unsigned const* p, SS s0 ) -> Fn { unsigned long k = s0[1][1], st = p[0] + 1; return [=]( Args const& a ) { return Any( ceras::conv2d_transpose( k, k, st, st, 1, 1, "valid" )( a[0], a[1] ), 0 ); }; } } );
        // layers with weights of their own
        K.push_back( { "Dense", 1, 8, { 3, 2, 3, 1 }, {}, LAYER | SHAREABLE, []( SS s, unsigned const* p, SS s0 ) { return s[0].size() == 2 && s[0][1] == s0[0][1] ? Shape{ s[0][0], p[0] + 2ul } : Shape{}; },
                       []( unsigned const* p, SS ) -> Fn { auto f = ceras::Dense( p[0] + 2, p[1] == 0, p[2] == 1 ? 0.01f : 0.0f, p[2] == 2 ? 0.01f : 0.0f, p[2] == 2 ? 0.02f : 0.0f ); return [f]( Args const& a ) { return wrap( f( a[0] ) ); }; } } );
        K.push_back( { "Conv2D", 1, 5, { 3, 2, 2, 2 }, {}, LAYER | FIXED_IMAGE | BUILD_BOUND,
                       []( SS s, unsigned const* p, SS ) { unsigned long k = 1 + 2 * p[1], st = p[3] + 1, pad = 0; if ( s[0].size() != 4 ) return Shape{}; if ( p[2] ) { if ( k < st || ( ( k - st ) & 1 ) ) return Shape{}; pad = ( ( k & 1 ) + ( k - st ) ) >> 1; } if ( s[0][1] + 2 * pad < k || s[0][2] + 2 * pad < k ) return Shape{}; return Shape{ s[0][0], ( s[0][1] + 2 * pad - k ) / st + 1, ( s[0][2] + 2 * pad - k ) / st + 1, p[0] + 1ul }; },
                       []( unsigned const* p, SS ) -> Fn { unsigned long k = 1 + 2 * p[1], st = p[3] + 1; auto f = ceras::Conv2D( p[0] + 1, { k, k }, p[2] ? "same" : "valid", { st, st }, { 1, 1 }, true, 0.0f, 0.01f ); return [f]( Args const& a ) { return wrap( f( a[0] ) ); }; } } );
        K.push_back( { "Conv2DTranspose", 1, 2, { 3, 1, 1, 2 }, {}, LAYER | FIXED_IMAGE | BUILD_BOUND | NO_GRAD,
                       []( SS s, unsigned const* p, SS ) { if ( s[0].size() != 4 ) return Shape{}; unsigned long k = 2, st = p[3] + 1; unsigned long r = s[0][1] * st + 2 * k - 2, c = s[0][2] * st + 2 * k - 2; return Shape{ s[0][0], ( r - k ) / st + 1, ( c - k ) / st + 1, p[0] + 1ul }; },
                       []( unsigned const* p, SS ) -> Fn { unsigned long k = 2, st = p[3] + 1; auto f = ceras::Conv2DTranspose( p[0] + 1, { k, k }, "valid", { st, st } ); return [f]( Args const& a ) { return Any( f( a[0] ), 0 ); }; } } );
        K.push_back( { "Add layer", 2, 2, { 1, 1, 1, 1 }, {}, 0, bc, []( unsigned const*, SS ) -> Fn { auto f = ceras::Add(); return [f]( Args const& a ) { return wrap( f( a[0], a[1] ) ); }; } } );
        K.push_back( { "Subtract layer", 2, 2, { 1, 1, 1, 1 }, {}, 0, bc, []( unsigned const*, SS ) -> Fn { auto f = ceras::Subtract(); return [f]( Args const& a ) { return wrap( f( a[0], a[1] ) ); }; } } );
        K.push_back( { "Multiply layer", 2, 2, { 1, 1, 1, 1 }, {}, 0, tl, []( unsigned const*, SS ) -> Fn { auto f = ceras::Multiply(); return [f]( Args const& a ) { return wrap( f( a[0], a[1] ) ); }; } } );
        K.push_back( { "Reshape layer", 1, 2, { 2, 1, 1, 1 }, {}, 0, []( SS s, unsigned const* p, SS s0 ) { Shape o = s[0]; if ( o.size() < 2 || s0[0].size() < 2 ) return Shape{}; unsigned long n = size_of( o ) / o[0]; if ( n != size_of( s0[0] ) / s0[0][0] ) return Shape{}; return p[0] ? Shape{ o[0], n } : Shape{ o[0], 1, n }; },
                       []( unsigned const* p, SS s0 ) -> Fn { unsigned long n = size_of( s0[0] ) / s0[0][0]; auto f = ceras::Reshape( p[0] ? Shape{ n } : Shape{ 1, n } ); return [f]( Args const& a ) { return wrap( f( a[0] ) ); }; } } );
        K.push_back( { "reduce_mean", 1, 1, { 1, 1, 1, 1 }, {}, SCALAR, []( SS, unsigned const*, SS ) { return Shape{ 1 }; }, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( ceras::reduce_mean( a[0] ) ); }; } } );
        K.push_back( { "complex arg", 2, 1, { 1, 1, 1, 1 }, { POS, POS }, 0, eq, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( ceras::arg( ceras::complex<Any, Any>{ a[0], a[1] } ) ); }; } } );
        K.push_back( { "BatchNormalization", 1, 3, { 2, 1, 1, 1 }, {}, LAYER | PHASE1 | BUILD_BOUND, []( SS s, unsigned const*, SS ) { return s[0].size() > 1 && size_of( s[0] ) / s[0].back() > 1 ? s[0] : Shape{}; },
                       []( unsigned const* p, SS ) -> Fn { auto f = ceras::BatchNormalization( 0.9f - 0.2f * p[0] ); return [f]( Args const& a ) { return wrap( f( a[0] ) ); }; } } );
        // scalars, losses
        K.push_back( { "sum_reduce", 1, 1, { 1, 1, 1, 1 }, {}, SCALAR, []( SS, unsigned const*, SS ) { return Shape{ 1 }; }, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( ceras::sum_reduce( a[0] ) ); }; } } );
        K.push_back( { "mean_reduce", 1, 1, { 1, 1, 1, 1 }, {}, SCALAR, []( SS, unsigned const*, SS ) { return Shape{ 1 }; }, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( ceras::mean_reduce( a[0] ) ); }; } } );
        auto loss = []( SS s, unsigned const*, SS ) { return s[0] == s[1] ? Shape{ 1 } : Shape{}; };
        K.push_back( { "mean_squared_error", 2, 2, { 1, 1, 1, 1 }, {}, SCALAR, loss, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( ceras::mean_squared_error( a[0], a[1] ) ); }; } } );
        K.push_back( { "squared_loss", 2, 1, { 1, 1, 1, 1 }, {}, SCALAR, loss, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( ceras::squared_loss( a[0], a[1] ) ); }; } } );
        K.push_back( { "mean_absolute_error", 2, 1, { 1, 1, 1, 1 }, {}, SCALAR, loss, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( ceras::mean_absolute_error( a[0], a[1] ) ); }; } } );
        K.push_back( { "abs_loss", 2, 1, { 1, 1, 1, 1 }, {}, SCALAR, loss, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( ceras::abs_loss( a[0], a[1] ) ); }; } } );
        K.push_back( { "cross_entropy", 2, 1, { 1, 1, 1, 1 }, { ANY, POS }, SCALAR, loss, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( ceras::cross_entropy( a[0], a[1] ) ); }; } } );
        K.push_back( { "cross_entropy_loss", 2, 2, { 2, 1, 1, 1 }, {}, SCALAR, []( SS s, unsigned const*, SS ) { return s[0] == s[1] && s[0].size() == 2 ? Shape{ 1 } : Shape{}; }, []( unsigned const* p, SS ) -> Fn { float l = 0.1f * p[0]; return [l]( Args const& a ) { return wrap( ceras::cross_entropy_loss( a[0], a[1], l ) ); }; } } );
        K.push_back( { "binary_cross_entropy_loss", 2, 1, { 1, 1, 1, 1 }, { ANY, UNIT }, SCALAR, loss, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( ceras::binary_cross_entropy_loss( a[0], ceras::square( a[1] ) * 0.5f + 0.25f ) ); }; } } );
        K.push_back( { "hinge_loss", 2, 1, { 1, 1, 1, 1 }, {}, SCALAR, loss, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( ceras::hinge_loss( a[0], a[1] ) ); }; } } );
        K.push_back( { "mean_squared_logarithmic_error", 2, 1, { 1, 1, 1, 1 }, { POS, POS }, SCALAR, loss, []( unsigned const*, SS ) -> Fn { return []( Args const& a ) { return wrap( ceras::mean_squared_logarithmic_error( a[0], a[1] ) ); }; } } );
        return K;
    }
    inline std::vector<Kind> const& kinds() { static std::vector<Kind> const k = make_kinds(); return k; }
    inline int kind_of( char const* name ) { for ( unsigned i = 0; i < kinds().size(); ++i ) if ( !std::strcmp( kinds()[i].name, name ) ) return i; sim::harness_error( "no kind %s", name ); }
#endif
}
#endif
