// T06, T07: batch normalization and dropout against reference models, over histories of training and inference.
#define VG_NO_KINDS
#include "graph.hpp"
using namespace sim;
using namespace gr;

namespace
{
    std::string raw( T const& t ) { return std::string( (char const*)t.data(), t.size() * 4 ); }
    auto& session() { return ceras::get_default_session<T>(); }
    double const EPS = 1.0e-8;

    // ---- T06 -------------------------------------------------------------------------------------------------
    // a value with a bound for the rounding of the library
    struct V { double x, e; };
    struct Run { std::vector<V> mean, var; };             // statistics, per channel
    struct Functor { double m; std::vector<V> mean, var; bool used = false; };
    void normalise( std::vector<V>& x, unsigned long ch, std::vector<V> const& mean, std::vector<V> const& var )
    {
        for ( unsigned long i = 0; i < x.size(); ++i )
        {
            V const& m = mean[i % ch]; V const& v = var[i % ch];
            double lo = std::max( v.x - v.e, 0.0 ) + EPS, sd = std::sqrt( v.x + EPS );
            double d = x[i].x - m.x, de = x[i].e + m.e + 1.2e-7 * ( std::abs( x[i].x ) + std::abs( m.x ) );
            double r = d / sd;
            x[i] = V{ r, de / std::sqrt( lo ) + std::abs( d ) * ( 1 / std::sqrt( lo ) - 1 / std::sqrt( v.x + v.e + EPS ) ) + 3e-6 * std::abs( r ) + 1e-12 };
        }
    }
    Run statistics( std::vector<V> const& x, unsigned long ch )
    {
        Run r; unsigned long n = x.size() / ch;
        for ( unsigned long c = 0; c < ch; ++c )
        {
            double s = 0, e = 0, a = 0;
            for ( unsigned long i = 0; i < n; ++i ) { s += x[i * ch + c].x; e += x[i * ch + c].e; a += std::abs( x[i * ch + c].x ); }
            double m = s / n, me = e / n + 6e-8 * ( n + 4 ) * a / n;
            double q = 0, qe = 0;
            for ( unsigned long i = 0; i < n; ++i ) { V const& v = x[i * ch + c]; double d = v.x - m, de = v.e + me + 1.2e-7 * ( std::abs( v.x ) + std::abs( m ) ); q += d * d; qe += 2 * std::abs( d ) * de + de * de; }
            double v = q / n, ve = qe / n + 6e-8 * ( n + 8 ) * v;
            r.mean.push_back( V{ m, me } ); r.var.push_back( V{ v, ve } );
        }
        return r;
    }
    void fold( Functor& f, Run const& r )
    {
        if ( !f.used ) { f.mean.assign( r.mean.size(), V{ 0, 0 } ); f.var = f.mean; f.used = true; }
        for ( unsigned i = 0; i < f.mean.size(); ++i )
            for ( auto [g, s] : { std::pair{ &f.mean[i], &r.mean[i] }, std::pair{ &f.var[i], &r.var[i] } } )
                { double k = f.m; g->x = g->x * k + s->x * ( 1 - k ); g->e = g->e * k + s->e * ( 1 - k ) + 2e-7 * ( std::abs( g->x ) + std::abs( s->x ) ); }
    }
    struct App { unsigned functor; int source; int form; double gamma, beta; };     // source: -1 the input, else an earlier application
    struct Act { int what; unsigned app; Shape shape; u64 seed; int values; unsigned extra; };
    // plain vectors: the supervisor must not use the library's memory cache, which its children inherit
    std::vector<float> numbers( Act const& a, unsigned long rows = 0 )
    {
        Shape s = a.shape; if ( rows ) s[0] = rows; std::vector<float> t( size_of( s ) ); Prng g( a.seed );
        for ( auto& v : t )
            switch ( a.values )
            {
                case 1: v = (float)( 3 + 0.5 * g.range( -1, 1 ) ); break;
                case 2: v = (float)( 100 * g.range( -1, 1 ) ); break;
                case 3: v = (float)( 0.01 * g.range( -1, 1 ) ); break;
                case 4: v = 2.0f; break;
                case 5: v = (float)( (int)g.below( 3 ) - 1 ); break;
                default: v = (float)g.range( -1, 1 );
            }
        return t;
    }
    T data( Act const& a, unsigned long rows = 0 ) { Rt rt; Shape s = a.shape; if ( rows ) s[0] = rows; T t{ s }; auto v = numbers( a, rows ); std::memcpy( t.data(), v.data(), v.size() * 4 ); return t; }
    enum { TRAIN, INFER, PREDICT, STEP, EVALUATE, FIT, BACKWARD };
    char const* const act_name[] = { "training evaluation", "inference evaluation", "predict", "training step", "evaluate", "fit", "training evaluation and gradients" };
}

SCENARIO( T06, history, 1 )
{
    unsigned long ch = 1 + pick( 4, "channels" );
    unsigned nd = pick( 3, "dimensions" );                  // 2, 3 or 4
    static float const moms[] = { 0.9f, 0.5f, 0.98f, 0.7f, 0.999f, 0.25f };
    std::vector<Functor> fs( 1 + pick( 2, "functors" ) );
    for ( auto& f : fs ) f.m = moms[pick( 6, "momentum" )];
    std::vector<App> apps( 1 + pick( 3, "applications" ) );
    bool layer = chance( 1, 2, "layer" );                   // the layer (a functor of its own each time) or the plain operation
    for ( unsigned i = 0; i < apps.size(); ++i )
    {
        App& a = apps[i];
        a.functor = pick( fs.size(), "functor" ); a.source = i ? (int)pick( i + 1, "source" ) - 1 : -1; a.form = layer ? 2 : pick( 2, "form" );
        a.gamma = 1; a.beta = 0;
        if ( a.form == 1 ) { a.gamma = 0.5 + pick( 4, "gamma" ) * 0.75; a.beta = -1.0 + pick( 4, "beta" ) * 0.5; }
    }
    if ( layer ) { std::vector<Functor> own; for ( auto& a : apps ) { own.push_back( fs[a.functor] ); a.functor = own.size() - 1; } fs = own; }
    // an application chained to one of its own functor would fold twice per evaluation: order is the library's, so keep them apart
    for ( auto& a : apps ) for ( int s = a.source; s >= 0; s = apps[s].source ) if ( apps[s].functor == a.functor ) a.source = -1;
    Shape tail; for ( unsigned i = 0; i < nd; ++i ) tail.push_back( 1 + pick( 3, "size" ) );
    tail.push_back( ch );
    // last application is also compiled into a model, trained with learning rate zero
    std::vector<Act> acts; unsigned k = 2 + pick( 14, "acts" );
    for ( unsigned i = 0; i < k; ++i )
    {
        static int const w[] = { TRAIN, TRAIN, TRAIN, INFER, INFER, PREDICT, STEP, EVALUATE, FIT, BACKWARD, TRAIN, INFER };
        Act a; a.what = w[pick( 12, "act" )]; a.app = pick( apps.size(), "application" ); a.seed = raw_seed( "data" ); a.values = pick( 6, "values" ); a.extra = pick( 64, "extra" );
        a.shape = tail; a.shape.insert( a.shape.begin(), 1 + pick( 7, "batch" ) );
        if ( a.what >= PREDICT && a.what <= FIT ) a.app = apps.size() - 1;
        acts.push_back( a );
        cover( std::string( "T06 " ) + act_name[a.what] + "/" + ( layer ? "layer" : "operation" ) );
        note( "%s application %u shape %s values %d", act_name[a.what], a.app, str( a.shape ).c_str(), a.values );
    }
    for ( auto const& a : apps ) note( "application: functor %u momentum %g source %d form %d", a.functor, fs[a.functor].m, a.source, a.form );
    LifeOpts lo; lo.reuse = chance( 1, 2, "reuse" ); lo.fill = pick( 2, "fill" ) ? 0xFF : 0xA5;
    Outcome r = life( lo, [&]
    {
        Ph in{ tail };
        { T d = data( acts[0] ); session().bind( in, d ); }
        std::vector<decltype( ceras::normalization_batch( 0.5f ) )> raw_f; for ( auto const& f : fs ) raw_f.push_back( ceras::normalization_batch( (float)f.m ) );
        std::vector<Any> ex;
        for ( auto const& a : apps )
        {
            Any x = a.source < 0 ? Any{ in } : ex[a.source];
            if ( a.form == 2 ) ex.push_back( wrap( ceras::BatchNormalization( (float)fs[a.functor].m )( x ) ) );
            else
            {
                Any n = wrap( raw_f[a.functor]( x ) );
                if ( a.form == 1 )
                {
                    T g{ { ch } }, b{ { ch } }; for ( auto& v : g ) v = a.gamma; for ( auto& v : b ) v = a.beta;
                    Var G{ g }, B{ b };
                    n = wrap( ceras::elementwise_product( n, G ) + B );
                }
                ex.push_back( n );
            }
        }
        ceras::model<Any, Ph> m{ in, ex.back() };
        auto cm = m.compile( []( Any const& e ) { return [e]( Ph const& gt ) { return Any( ceras::MeanSquaredError()( e )( gt ) ); }; }, ceras::SGD( 1ul, 0.0f ) );
        auto log = []( T const& t ) { Rt rt; out_s( raw( t ) ); };
        for ( auto const& a : acts )
        {
            { Rt rt; out_u( 7 ); }
            T x = data( a );
            switch ( a.what )
            {
                case TRAIN: session().bind( in, x ); log( session().run( ex[a.app] ) ); break;
                case BACKWARD: { session().bind( in, x ); T y = session().run( ex[a.app] ); log( y ); ex[a.app].backward( ceras::ones_like( y ) ); break; }
                case INFER: ceras::learning_phase = 0; session().bind( in, x ); log( session().run( ex[a.app] ) ); ceras::learning_phase = 1; break;
                case PREDICT: log( a.extra & 1 ? cm.predict( x ) : m.predict( x ) ); break;
                case STEP: cm.train_on_batch( x, x ); break;
                case EVALUATE: { unsigned long bs = 1 + a.extra % 3; cm.evaluate( x, x, bs ); break; }
                case FIT: { unsigned long bs = 1 + a.extra % 3; T big = data( a, bs * 4 + ( a.extra >> 5 ) ); cm.fit( big, big, bs, 1 + ( a.extra >> 2 & 1 ), 0, ( a.extra >> 3 & 1 ) * 0.5 ); break; }
            }
            if ( ceras::learning_phase != 1 ) violation( "phase", "learning phase is %d after %s", ceras::learning_phase, act_name[a.what] );
        }
    } );
    if ( r.kind == VIOL ) violation( "phase", "%s", r.what.c_str() );
    if ( r.kind != RET ) violation( "fails", "the history ends in %s %s", kind_name( r.kind ), r.what.c_str() );
    // the reference
    std::function<std::vector<V>( unsigned, std::vector<V>, bool )> eval = [&]( unsigned i, std::vector<V> x, bool training )
    {
        App const& a = apps[i]; Functor& f = fs[a.functor];
        if ( a.source >= 0 ) x = eval( a.source, x, training );
        if ( training ) { Run s = statistics( x, ch ); normalise( x, ch, s.mean, s.var ); fold( f, s ); }
        else if ( f.used ) normalise( x, ch, f.mean, f.var );
        for ( auto& v : x ) { v.x = v.x * a.gamma + a.beta; v.e = v.e * std::abs( a.gamma ) + 2e-7 * ( std::abs( v.x ) + std::abs( a.beta ) ); }
        return x;
    };
    auto values = []( std::vector<float> const& t, unsigned long from, unsigned long n ) { std::vector<V> v; for ( unsigned long i = 0; i < n; ++i ) v.push_back( V{ t[from + i], 0 } ); return v; };
    Log& l = r.log;
    unsigned long trained = 0, at = 0;
    for ( auto const& a : acts )
    {
        if ( l.u() != 7 ) harness_error( "norm log" );
        std::vector<float> x = numbers( a );
        unsigned long width = size_of( a.shape ) / a.shape[0];
        std::vector<V> want;
        switch ( a.what )
        {
            case TRAIN: case BACKWARD: want = eval( a.app, values( x, 0, x.size() ), true ); ++trained; break;
            case INFER: case PREDICT: want = eval( a.app, values( x, 0, x.size() ), false ); break;
            case STEP: eval( a.app, values( x, 0, x.size() ), true ); ++trained; break;
            case EVALUATE: break;
            case FIT:
            {
                unsigned long bs = 1 + a.extra % 3; std::vector<float> big = numbers( a, bs * 4 + ( a.extra >> 5 ) );
                unsigned long batches = big.size() / width / bs, training = ( 1.0 - ( a.extra >> 3 & 1 ) * 0.5 ) * batches;
                for ( unsigned e = 0; e < 1 + ( a.extra >> 2 & 1 ); ++e ) for ( unsigned long b = 0; b < training; ++b ) { eval( a.app, values( big, b * bs * width, bs * width ), true ); ++trained; }
                break;
            }
        }
        if ( a.what != STEP && a.what != EVALUATE && a.what != FIT )
        {
            std::string s = l.s(); s = s.substr( 0, want.size() * 4 );
            if ( s.size() != want.size() * 4 ) violation( "size", "act %lu: the result has %lu values, not %lu", at, s.size() / 4, want.size() );
            for ( unsigned long i = 0; i < want.size(); ++i )
            {
                float f; std::memcpy( &f, s.data() + i * 4, 4 );
                if ( !( want[i].e < 0.05 * ( 1 + std::abs( want[i].x ) ) ) ) { count( "too_inexact" ); continue; }
                if ( !is_number( f ) || std::abs( f - want[i].x ) > want[i].e )
                    violation( a.what == INFER || a.what == PREDICT ? "inference-value" : "training-value", "act %lu (%s, application %u, after %lu training evaluations): value %lu is %.9g, the reference gives %.9g (+-%.2g)", at, act_name[a.what], a.app, trained, i, f, want[i].x, want[i].e );
                count( "values_compared" );
            }
            if ( trained > 1 ) nontrivial();
        }
        ++at;
    }
    count( "training_evaluations", trained );
}

// ---- T07 -----------------------------------------------------------------------------------------------------
namespace
{
    enum { DTRAIN, DBACK, DINFER, DPREDICT, DSTEP, DEVAL, DTWICE, DCROSS };
    char const* const drop_name[] = { "training evaluation", "training evaluation and gradients", "inference evaluation", "predict", "training step", "evaluate", "two training evaluations of one batch", "training evaluation, then of another layer, then gradients" };
}
SCENARIO( T07, history, 1 )
{
    static float const rates[] = { 0.5f, 0.25f, 0.1f, 0.75f, 0.9f, 0.02f, 0.98f };
    unsigned layers = 1 + pick( 3, "layers" );              // independent dropout layers on the same input
    std::vector<float> rate; for ( unsigned i = 0; i < layers; ++i ) rate.push_back( rates[pick( 7, "rate" )] );
    bool shared = layers > 1 && chance( 1, 3, "one functor" );
    if ( shared ) for ( auto& q : rate ) q = rate[0];
    Shape tail; unsigned nd = 1 + pick( 3, "dimensions" ); for ( unsigned i = 0; i < nd; ++i ) tail.push_back( 1 + pick( nd == 1 ? 40 : 5, "size" ) );
    bool sum = chance( 1, 2, "sum" );                       // the input plus a weight of zeros, or times a weight of ones: the gradient through the layer is seen in the weight
    struct A { int what; unsigned layer; unsigned long rows; u64 seed; unsigned other; bool zeros; };
    std::vector<A> acts; unsigned k = 2 + pick( 14, "acts" );
    for ( unsigned i = 0; i < k; ++i )
    {
        static int const w[] = { DTRAIN, DBACK, DBACK, DBACK, DINFER, DPREDICT, DSTEP, DEVAL, DTWICE, DTWICE, DCROSS, DCROSS };
        A a{ w[pick( 12, "act" )], pick( layers, "layer" ), 1 + pick( 8, "batch" ), raw_seed( "data" ), 0, chance( 1, 3, "zeros" ) };
        if ( a.what == DCROSS ) { a.other = pick( layers, "other layer" ); if ( a.other == a.layer ) a.what = DBACK; }
        if ( a.what == DPREDICT || a.what == DSTEP || a.what == DEVAL ) a.layer = layers - 1;
        acts.push_back( a ); note( "%s layer %u batch %lu", drop_name[a.what], a.layer, a.rows ); cover( std::string( "T07 " ) + drop_name[a.what] );
    }
    u64 seed = raw_seed( "seed" );
    LifeOpts lo; lo.reuse = chance( 1, 2, "reuse" ); lo.fill = pick( 2, "fill" ) ? 0xFF : 0xA5;
    auto numbers = [&]( A const& a ) { std::vector<float> t( size_of( tail ) * a.rows ); Prng g( a.seed ); for ( auto& v : t ) { v = (float)( g.range( 0.5, 2 ) * ( g.below( 2 ) ? 1 : -1 ) ); if ( a.zeros && g.below( 2 ) ) v = 0; } return t; };
    auto sample = [&]( A const& a ) { Rt rt; Shape s = tail; s.insert( s.begin(), a.rows ); T t{ s }; auto v = numbers( a ); std::memcpy( t.data(), v.data(), v.size() * 4 ); return t; };
    Outcome r = life( lo, [&]
    {
        ceras::random_generator.seed( (unsigned)seed );
        Ph in{ tail };
        std::vector<Any> ex;
        auto one = ceras::Dropout( rate[0] );
        Var w{ sum ? ceras::zeros<float>( tail ) : ceras::ones<float>( tail ) };
        Any x = sum ? wrap( in + w ) : wrap( ceras::elementwise_product( in, w ) );
        { T d = sample( acts[0] ); session().bind( in, d ); }
        for ( unsigned i = 0; i < layers; ++i )
        {
            if ( shared ) ex.push_back( wrap( one( x ) ) );
            else ex.push_back( i & 1 ? wrap( ceras::drop_out( rate[i] )( x ) ) : wrap( ceras::Dropout( rate[i] )( x ) ) );
        }
        ceras::model<Any, Ph> m{ in, ex.back() };
        auto cm = m.compile( []( Any const& e ) { return [e]( Ph const& gt ) { return Any( ceras::MeanSquaredError()( e )( gt ) ); }; }, ceras::SGD( 1ul, 0.0f ) );
        auto log = []( T const& t ) { Rt rt; out_s( raw( t ) ); };
        for ( auto const& a : acts )
        {
            T d = sample( a );
            switch ( a.what )
            {
                case DTRAIN: session().bind( in, d ); log( session().run( ex[a.layer] ) ); break;
                case DTWICE: session().bind( in, d ); log( session().run( ex[a.layer] ) ); log( session().run( ex[a.layer] ) ); break;
                case DBACK: case DCROSS:
                {
                    session().bind( in, d ); w.gradient().reset(); log( session().run( ex[a.layer] ) );
                    if ( a.what == DCROSS ) log( session().run( ex[a.other] ) );
                    // gradient one of unit j times a power of ten of its row would overflow: one row at a time is enough
                    T g = ceras::zeros<float>( d.shape() );
                    unsigned long width = d.size() / a.rows, row = a.seed % a.rows;
                    for ( unsigned long i = 0; i < width; ++i ) g.data()[row * width + i] = 1.0f + i;
                    ex[a.layer].backward( g );
                    log( w.gradient() ); w.gradient().reset(); break;
                }
                case DINFER: ceras::learning_phase = 0; session().bind( in, d ); log( session().run( ex[a.layer] ) ); ceras::learning_phase = 1; break;
                case DPREDICT: log( cm.predict( d ) ); break;
                case DSTEP: cm.train_on_batch( d, d ); break;
                case DEVAL: cm.evaluate( d, d, 1 ); break;
            }
            if ( ceras::learning_phase != 1 ) violation( "phase", "learning phase is %d after %s", ceras::learning_phase, drop_name[a.what] );
        }
    } );
    if ( r.kind != RET ) violation( "fails", "the history ends in %s %s", kind_name( r.kind ), r.what.c_str() );
    std::vector<double> kept( layers, 0 ), seen( layers, 0 ), kept_zero( layers, 0 ), seen_zero( layers, 0 );
    std::vector<std::vector<char>> masks; std::vector<float> mask_rate; std::vector<unsigned long> mask_size;
    unsigned at = 0;
    for ( auto const& a : acts )
    {
        std::vector<float> d = numbers( a );
        double p = rate[a.layer], scale = 1.0 / ( 1.0 - p );
        auto read = [&] { std::string s = r.log.s(); std::vector<float> f( d.size() ); if ( s.size() < d.size() * 4 ) violation( "size", "act %u: result of %lu bytes for %lu values", at, s.size(), d.size() ); std::memcpy( f.data(), s.data(), d.size() * 4 ); return f; };
        auto mask_of = [&]( std::vector<float> const& f, unsigned layer )
        {
            double p = rate[layer], scale = 1.0 / ( 1.0 - p );
            std::vector<char> q;
            for ( unsigned long i = 0; i < f.size(); ++i )
            {
                double v = d[i] * scale;
                bool zero = f[i] == 0;
                if ( d[i] == 0 ) { if ( !zero ) violation( "scale", "act %u: value %lu of zero becomes %.9g", at, i, f[i] ); q.push_back( 2 ); continue; }      // kept or dropped
                if ( !zero && !( std::abs( f[i] - v ) <= 2e-6 * std::abs( v ) ) ) violation( "scale", "act %u: value %lu of %.9g with rate %g becomes %.9g, not 0 or %.9g", at, i, d[i], p, f[i], v );
                q.push_back( !zero ); kept[layer] += !zero; seen[layer] += 1;
            }
            if ( !a.zeros ) { masks.push_back( q ); mask_rate.push_back( p ); }
            count( "masks" );
            return q;
        };
        switch ( a.what )
        {
            case DTRAIN: mask_of( read(), a.layer ); break;
            case DTWICE: mask_of( read(), a.layer ); mask_of( read(), a.layer ); break;
            case DBACK: case DCROSS:
            {
                auto q = mask_of( read(), a.layer );
                if ( a.what == DCROSS ) mask_of( read(), a.other );
                std::string s = r.log.s(); unsigned long width = d.size() / a.rows, row = a.seed % a.rows;
                if ( s.size() < width * 4 ) violation( "size", "act %u: gradient of %lu bytes for %lu weights", at, s.size(), width );
                for ( unsigned long i = 0; i < width; ++i )
                {
                    float g; std::memcpy( &g, s.data() + i * 4, 4 );
                    char& z = q[row * width + i];
                    // whether a unit of value zero is kept shows in its gradient only
                    if ( z == 2 ) { z = sum ? g != 0 : 0; if ( sum ) { kept_zero[a.layer] += z; seen_zero[a.layer] += 1; } }
                    double want = z ? ( 1.0 + i ) * scale * ( sum ? 1.0 : d[row * width + i] ) : 0.0;
                    if ( !( std::abs( g - want ) <= 4e-6 * std::abs( want ) ) ) violation( "gradient", "act %u: unit %lu %s forward with rate %g, its gradient is %.9g instead of %.9g", at, i, q[row * width + i] ? "survives" : "is dropped", p, g, want );
                }
                count( "gradients_compared" ); nontrivial(); break;
            }
            case DINFER: case DPREDICT:
            {
                auto f = read();
                for ( unsigned long i = 0; i < f.size(); ++i ) if ( f[i] != d[i] ) violation( "inference", "act %u: inference turns %.9g into %.9g", at, d[i], f[i] );
                nontrivial(); break;
            }
            default: break;
        }
        ++at;
    }
    // masks are drawn anew, at the rate asked for; the bounds are left once in 10^12 runs
    for ( bool zero : { false, true } ) for ( unsigned i = 0; i < layers; ++i ) if ( ( zero ? seen_zero : seen )[i] )
    {
        double n = ( zero ? seen_zero : seen )[i], k = ( zero ? kept_zero : kept )[i], q = 1.0 - rate[i], sd = std::sqrt( n * q * ( 1 - q ) );
        if ( std::abs( k - n * q ) > 8 * sd + 12 ) violation( "rate", "layer %u with rate %g keeps %g of %g %s", i, rate[i], k, n, zero ? "units of value zero, as their gradients show" : "units" );
        if ( zero ) count( "zero_units", seen_zero[i] );
    }
    for ( unsigned i = 0; i < masks.size(); ++i ) for ( unsigned j = 0; j < i; ++j )
    {
        // the same mask twice: on the common part, with a chance below 10^-15
        unsigned long n = std::min( masks[i].size(), masks[j].size() );
        double q = 1.0 - mask_rate[i], q2 = 1.0 - mask_rate[j], same = q * q2 + ( 1 - q ) * ( 1 - q2 );
        if ( n * -std::log( same ) < 40 ) continue;
        if ( std::equal( masks[i].begin(), masks[i].begin() + n, masks[j].begin() ) ) violation( "mask-again", "two training evaluations use the same mask on %lu units", n );
        count( "mask_pairs" );
    }
}
