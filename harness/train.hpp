// Random networks made of the library's layers, random histories of training, prediction, freezing, saving and loading,
// and the update rules of the optimizers in double precision.
#ifndef VERIF_TRAIN_HPP
#define VERIF_TRAIN_HPP
#define VG_NO_KINDS
#include "graph.hpp"
#include <new>

namespace tr
{
    using namespace gr;
    enum { DENSE, CONV, BN, DROP, ACT, POOL, UPS, FLAT, RESID, TWICE, CONCAT, SCALE, SHIFT, DENSE0, NOISE, LAYERS };
    static char const* const layer_name[] = { "dense", "conv", "batch_norm", "dropout", "activation", "pooling", "up_sampling", "flatten", "residual", "weight_twice", "concatenate", "scale", "shift", "dense_no_bias", "noise" };
    enum { MSE, MAE, CCE, BCE, HINGE, LOSSES };
    static char const* const loss_name[] = { "mse", "mae", "cce", "bce", "hinge" };
    enum { SGD, ADAM, ADAGRAD, RMS, ADADELTA, GD, OPTS };
    static char const* const opt_name[] = { "sgd", "adam", "adagrad", "rmsprop", "adadelta", "gradient_descent" };
    struct Layer { int k; unsigned p[3]; };
    struct HeadSpec { std::vector<Layer> layers; int loss = 0, opt = 0; bool low = false; float lr = 0.1f, h1 = 0, h2 = 0; bool nest = false; unsigned bs = 2, out = 2; };
    struct Spec { Shape in; std::vector<Layer> trunk; std::vector<HeadSpec> heads; u64 seed = 0; bool drop = false, bn = false; int data = 0; };      // data: what the samples look like

    // the shape (without the batch) after a layer; empty: not applicable
    inline Shape after( Shape s, Layer const& l )
    {
        switch ( l.k )
        {
            case DENSE: case DENSE0: return s.size() == 1 ? Shape{ l.p[0] + 1ul } : Shape{};
            case CONV: { if ( s.size() != 3 ) return {}; unsigned long k = l.p[1] ? 3 : 1; if ( l.p[2] == 0 && ( s[0] < k || s[1] < k ) ) return {}; return l.p[2] ? Shape{ s[0], s[1], l.p[0] + 1ul } : Shape{ s[0] - k + 1, s[1] - k + 1, l.p[0] + 1ul }; }
            case POOL: return s.size() == 3 && s[0] > 1 && s[1] > 1 ? Shape{ s[0] / 2, s[1] / 2, s[2] } : Shape{};
            case UPS: return s.size() == 3 && s[0] < 5 && s[1] < 5 ? Shape{ s[0] * 2, s[1] * 2, s[2] } : Shape{};
            case FLAT: return s.size() == 3 ? Shape{ s[0] * s[1] * s[2] } : Shape{};
            case RESID: case TWICE: return s.size() == 1 ? s : Shape{};
            case CONCAT: { if ( s.back() > 8 ) return {}; s.back() *= 2; return s; }
            default: return s;
        }
    }

    struct Want { bool drop = true, bn = true, image = true, conv_only_small = true; int max_heads = 2; int opt = -1; bool stateless = false; bool low = true; int max_layers = 4; bool noise = false; };     // noise: random expressions, which draw in inference as well
    inline Layer draw_layer( Want const& w, Shape const& s )
    {
        static int const flat[] = { DENSE, DENSE, DENSE, ACT, ACT, BN, DROP, RESID, TWICE, CONCAT, SCALE, SHIFT, DENSE0 };
        static int const image[] = { CONV, CONV, CONV, ACT, POOL, BN, DROP, UPS, CONCAT, SCALE, SHIFT, FLAT };
        for ( ;; )
        {
            Layer l{}; l.k = s.size() == 1 ? flat[pick( 13, "layer" )] : image[pick( 12, "layer" )];
            for ( unsigned i = 0; i < 3; ++i ) l.p[i] = pick( 4, "param" );
            if ( l.k == CONV ) { l.p[1] &= 1; l.p[2] &= 1; }
            if ( ( l.k == DROP && !w.drop ) || ( l.k == BN && !w.bn ) ) l.k = ACT;
            if ( w.noise && l.k == ACT && l.p[0] == 3 ) l.k = NOISE;
            Shape a = after( s, l );
            if ( !a.empty() && size_of( a ) <= 64 ) return l;
            l = Layer{ ACT, { 0, 0, 0 } }; return l;
        }
    }
    inline std::string describe( std::vector<Layer> const& v ) { std::string r; for ( auto const& l : v ) { r += std::string( layer_name[l.k] ) + "(" + std::to_string( l.p[0] ) + std::to_string( l.p[1] ) + std::to_string( l.p[2] ) + ") "; } return r; }
    inline Spec draw_spec( Want const& w )
    {
        Spec n;
        bool image = w.image && chance( 1, 3, "image" );
        n.in = image ? Shape{ 3ul + pick( 3, "rows" ), 3ul + pick( 3, "cols" ), 1ul + pick( 2, "channels" ) } : Shape{ 1ul + pick( 4, "features" ) };
        Shape s = n.in;
        unsigned k = pick( w.max_layers, "trunk" );
        for ( unsigned i = 0; i < k; ++i ) { Layer l = draw_layer( w, s ); n.trunk.push_back( l ); s = after( s, l ); }
        unsigned heads = 1 + ( w.max_heads > 1 ? pick( w.max_heads, "heads" ) : 0 );
        for ( unsigned h = 0; h < heads; ++h )
        {
            HeadSpec q; Shape t = s;
            unsigned m = pick( 3, "layers" );
            for ( unsigned i = 0; i < m; ++i ) { Layer l = draw_layer( w, t ); q.layers.push_back( l ); t = after( t, l ); }
            if ( t.size() == 3 ) { Layer l{ FLAT, { 0, 0, 0 } }; q.layers.push_back( l ); t = after( t, l ); }
            q.out = 1 + pick( 3, "outputs" );
            q.layers.push_back( Layer{ pick( 4, "bias" ) == 3 ? (int)DENSE0 : (int)DENSE, { q.out - 1, pick( 4, "penalty" ), 0 } } );
            q.loss = pick( LOSSES, "loss" );
            q.opt = w.opt >= 0 ? w.opt : w.stateless ? ( chance( 1, 3, "gd" ) && w.low ? (int)GD : (int)SGD ) : (int)pick( w.low ? OPTS : OPTS - 1, "optimizer" );
            q.low = q.opt == GD || ( w.low && chance( 1, 3, "low level" ) );
            static float const lrs[] = { 0.1f, 0.02f, 0.5f };
            q.lr = lrs[pick( 3, "lr" )];
            q.bs = 1 + pick( 4, "batch size" );
            if ( q.opt == SGD && !w.stateless ) { q.h1 = pick( 3, "momentum" ) * 0.45f; q.h2 = pick( 3, "decay" ) == 2 ? 0.125f : 0.0f; q.nest = q.h1 > 0 && chance( 1, 3, "nesterov" ); }
            if ( q.opt == ADAM ) { q.h1 = pick( 2, "beta1" ) ? 0.8f : 0.9f; q.h2 = pick( 2, "beta2" ) ? 0.95f : 0.999f; q.lr *= 0.2f; }
            if ( q.opt == ADAGRAD ) { q.h2 = pick( 3, "decay" ) == 2 ? 0.125f : 0.0f; q.lr *= 0.5f; }
            if ( q.opt == RMS ) { q.h1 = pick( 2, "rho" ) ? 0.7f : 0.9f; q.h2 = pick( 3, "decay" ) == 2 ? 0.125f : 0.0f; q.lr *= 0.2f; }
            if ( q.opt == ADADELTA ) q.h1 = pick( 2, "rho" ) ? 0.7f : 0.9f;
            n.heads.push_back( q );
        }
        n.seed = sim::raw_seed( "weights" );
        n.data = pick( 6, "samples" ); if ( n.data > 3 ) n.data = 0;
        auto scan = [&]( std::vector<Layer> const& v ) { for ( auto const& l : v ) { n.drop |= l.k == DROP; n.bn |= l.k == BN; sim::cover( std::string( "layer " ) + layer_name[l.k] ); } };
        scan( n.trunk );
        sim::note( "input %s, trunk %s", str( n.in ).c_str(), describe( n.trunk ).c_str() );
        for ( auto const& q : n.heads )
        {
            scan( q.layers );
            sim::note( "head %s: %s by %s%s lr %g (%g %g%s) batch %u", describe( q.layers ).c_str(), loss_name[q.loss], opt_name[q.opt], q.low ? " (low level)" : "", q.lr, q.h1, q.h2, q.nest ? " nesterov" : "", q.bs );
            sim::cover( std::string( opt_name[q.opt] ) + ( q.low ? "/low level/" : "/compiled/" ) + loss_name[q.loss] );
        }
        return n;
    }

    inline std::string raw( T const& t ) { return std::string( (char const*)t.data(), t.size() * 4 ); }
    inline void fill( T& t, u64 seed, int cls )
    {
        Prng r( seed );
        unsigned long cols = t.shape().back();
        for ( unsigned long i = 0; i < t.size(); ++i ) t.data()[i] = cls == 0 ? (float)r.range( -1, 1 ) : cls == 1 ? 0.0f : cls == 2 ? (float)r.below( 2 ) : cls == 3 ? ( r.below( 2 ) ? 1.0f : -1.0f ) : (float)r.range( -0.4, 0.4 );
        if ( cls == 1 ) for ( unsigned long i = 0; i < t.size() / cols; ++i ) t.data()[i * cols + r.below( cols )] = 1.0f;
    }
    inline T input_data( Spec const& n, unsigned long rows, u64 seed )
    {
        Rt rt; Shape s = n.in; s.insert( s.begin(), rows ); T t{ s }; fill( t, seed, 0 );
        unsigned long width = t.size() / rows; Prng r( seed ^ 0x5eed );
        if ( n.data == 1 ) for ( unsigned long i = 0; i < t.size(); ++i ) t.data()[i] = 0.5f * (int)( (int)r.below( 3 ) - 1 );               // few values, many zeros
        if ( n.data == 2 ) for ( unsigned long i = 0; i < rows; ++i ) t.data()[i * width] = 1.0f;                                             // a column of ones
        if ( n.data == 3 ) for ( unsigned long i = 1; i < rows; ++i ) if ( r.below( 3 ) == 0 ) std::memcpy( t.data() + i * width, t.data() + r.below( i ) * width, width * 4 );     // samples that occur again
        return t;
    }
    inline T target_data( Spec const& n, HeadSpec const& h, unsigned long rows, u64 seed )
    {
        Rt rt; T t{ { rows, h.out } }; int cls = h.loss == CCE ? 1 : h.loss == BCE ? 2 : h.loss == HINGE ? 3 : 0; fill( t, seed + 77, cls );
        if ( cls == 0 && n.data == 1 ) for ( unsigned long i = 0; i < t.size(); ++i ) t.data()[i] = 0.5f * (int)( t.data()[i] * 2.99f );
        return t;
    }

    inline ceras::ceras_private::session<T>& session() { return ceras::get_default_session<T>(); }
    inline std::vector<Var> weights() { Rt rt; std::map<int, Var> m; for ( auto const& [id, v] : session().variables_ ) m.insert( { id, v } ); std::vector<Var> r; for ( auto const& [id, v] : m ) r.push_back( v ); return r; }

    inline Any loss_of( int kind, Any const& e, Ph const& gt )
    {
        switch ( kind )
        {
            case MSE: return Any( ceras::MeanSquaredError()( e )( gt ) );
            case MAE: return Any( ceras::MeanAbsoluteError()( e )( gt ) );
            case CCE: return Any( ceras::CategoricalCrossentropy()( e )( gt ) );
            case BCE: return Any( ceras::BinaryCrossentropy()( e )( gt ) );
            default: return Any( ceras::Hinge()( e )( gt ) );
        }
    }
    struct Inference { Inference() { ceras::learning_phase = 0; } ~Inference() { ceras::learning_phase = 1; } };      // how a careful user does it
    struct LossFn { int kind; auto operator()( Any const& e ) const { int k = kind; return [k, e]( Ph const& gt ) { return loss_of( k, e, gt ); }; } };

    struct Head
    {
        HeadSpec spec;
        virtual ~Head() {}
        virtual float step( T const& x, T const& y ) = 0;
        virtual void bind( T const& x, T const& y ) = 0;
        virtual Any& loss() = 0;
        virtual T predict( T const& x ) = 0;
        virtual float evaluate( T const& x, T const& y, unsigned long bs ) = 0;
        virtual bool can_fit() const { return false; }
        virtual void fit( T const&, T const&, unsigned long, unsigned long, int, double, std::vector<float>&, std::vector<float>& ) {}
        virtual void copy() {}
    };
    template< typename Opt > struct Compiled : Head
    {
        typedef ceras::model<Any, Ph> M;
        typedef decltype( std::declval<M&>().compile( LossFn{ 0 }, std::declval<Opt const&>() ) ) CM;
        M m; CM* cm;
        Compiled( Ph const& in, Any const& out, HeadSpec const& h, Opt const& o ) : m( in, out ), cm( new CM( m.compile( LossFn{ h.loss }, o ) ) ) { spec = h; }
        ~Compiled() { delete cm; }
        float step( T const& x, T const& y ) override { return cm->train_on_batch( x, y ); }
        void bind( T const& x, T const& y ) override { session().bind( cm->input_place_holder_, x ); session().bind( cm->ground_truth_place_holder_, y ); }
        Any& loss() override { return cm->loss_; }
        T predict( T const& x ) override { return cm->predict( x ); }
        float evaluate( T const& x, T const& y, unsigned long bs ) override { return cm->evaluate( x, y, bs ); }
        bool can_fit() const override { return true; }
        void fit( T const& x, T const& y, unsigned long bs, unsigned long ep, int verbose, double split, std::vector<float>& a, std::vector<float>& b ) override { auto r = cm->fit( x, y, bs, ep, verbose, split ); a = std::get<0>( r ); b = std::get<1>( r ); }
        void copy() override { CM* n = new CM( *cm ); delete cm; cm = n; }
    };
    template< typename Opt > struct Low : Head
    {
        Ph in, gt; Any out, l; Opt opt;
        template< typename ... A > Low( Ph const& i, Any const& o, HeadSpec const& h, A ... a ) : in( i ), out( o ), l( loss_of( h.loss, out, gt ) ), opt( l, a... ) { spec = h; }
        void bind( T const& x, T const& y ) override { session().bind( in, x ); session().bind( gt, y ); }
        float step( T const& x, T const& y ) override { bind( x, y ); auto e = session().run( l ); session().run( opt ); return e.as_scalar(); }
        Any& loss() override { return l; }
        T predict( T const& x ) override { Inference i; session().bind( in, x ); T r = session().run( out ); return r; }
        float evaluate( T const& x, T const& y, unsigned long ) override { Inference i; bind( x, y ); float e = session().run( l ).as_scalar(); return e; }
    };

    struct Net
    {
        Spec const& n; Ph in; std::vector<std::unique_ptr<Head>> heads; std::vector<Any> outs; std::vector<Var> own;   // own: handles the user has
        Net( Spec const& nn ) : n( nn ), in( nn.in ) {}
        u64 next_seed = 0;
        Var var( Shape const& s, bool trainable = true, float l1 = 0, float l2 = 0 ) { T t; { Rt rt; t = T{ s }; fill( t, n.seed * 64 + ++next_seed, 4 ); } Var v{ t, l1, l2, trainable }; own.push_back( v ); return v; }
        static Any act( unsigned k, Any const& x )
        {
            switch ( k & 3 ) { case 0: return wrap( ceras::relu( x ) ); case 1: return wrap( ceras::tanh( x ) ); case 2: return wrap( ceras::sigmoid( x ) ); default: return wrap( ceras::softplus( x ) ); }
        }
        Any apply( Any const& x, Shape const& s, Layer const& l )
        {
            float const pen[] = { 0, 0, 0.01f, 0.02f };
            switch ( l.k )
            {
                case DENSE: return wrap( ceras::Dense( l.p[0] + 1, true, l.p[1] == 2 ? pen[2] : 0.0f, pen[l.p[1]] )( x ) );
                case DENSE0: return wrap( ceras::Dense( l.p[0] + 1, false )( x ) );
                case CONV: { unsigned long k = l.p[1] ? 3 : 1; return wrap( ceras::Conv2D( l.p[0] + 1, { k, k }, l.p[2] ? "same" : "valid" )( x ) ); }
                case BN: return wrap( ceras::BatchNormalization( 0.9f - 0.2f * l.p[0] )( x ) );
                case DROP: return wrap( ceras::Dropout( l.p[0] & 1 ? 0.5f : 0.25f )( x ) );
                case ACT: return act( l.p[0], x );
                case POOL: return l.p[0] & 1 ? wrap( ceras::AveragePooling2D( 2 )( x ) ) : wrap( ceras::MaxPooling2D( 2 )( x ) );
                case UPS: return wrap( ceras::UpSampling2D( 2 )( x ) );
                case FLAT: return wrap( ceras::Flatten()( x ) );
                case NOISE: switch ( l.p[1] )
                {
                    case 0: return wrap( x + wrap( ceras::random_normal_like<float>( 0.0f, 0.1f )( x ) ) );
                    case 1: return wrap( ceras::hadamard_product( x, wrap( ceras::random_normal_like<float>( 1.0f, 0.5f )( x ) ) ) );
                    case 2: return wrap( ceras::poisson( wrap( ceras::sigmoid( x ) ) ) );
                    default: return wrap( x + wrap( ceras::zeros_like( x ) ) + wrap( ceras::random_normal_like<float>( 0.0f, 1.0f )( wrap( ceras::ones_like( x ) ) ) ) );
                }
                case RESID: return wrap( x + act( l.p[0], wrap( ceras::Dense( s[0] )( x ) ) ) );
                case TWICE: { Var w = var( { s[0], s[0] }, l.p[1] != 3, 0, l.p[2] == 3 ? 0.03f : 0.0f ); return wrap( act( l.p[0], wrap( x * w ) ) * w ); }
                case CONCAT: return wrap( ceras::Concatenate()( x, act( l.p[0], x ) ) );
                case SCALE: { Var w = var( { s.back() }, l.p[1] != 3 ); return wrap( ceras::elementwise_product( x, w ) ); }
                default: { Var w = var( { s.back() }, l.p[1] != 3, l.p[2] == 3 ? 0.01f : 0.0f ); return wrap( x + w ); }
            }
        }
        void build()
        {
            { T d = input_data( n, 2, 1 ); session().bind( in, d ); }
            Any x{ in }; Shape s = n.in;
            for ( auto const& l : n.trunk ) { x = apply( x, s, l ); s = after( s, l ); }
            for ( auto const& h : n.heads )
            {
                Any y = x; Shape t = s;
                for ( auto const& l : h.layers ) { y = apply( y, t, l ); t = after( t, l ); }
                if ( h.loss == BCE ) y = wrap( ceras::sigmoid( y ) );
                outs.push_back( y );
                unsigned long bs = h.bs;
                if ( h.low ) switch ( h.opt )
                {
                    case SGD: heads.emplace_back( new Low<ceras::sgd<Any, float>>( in, y, h, bs, h.lr, h.h1, h.h2, h.nest ) ); break;
                    case ADAM: heads.emplace_back( new Low<ceras::adam<Any, float>>( in, y, h, bs, h.lr, h.h1, h.h2 ) ); break;
                    case ADAGRAD: heads.emplace_back( new Low<ceras::adagrad<Any, float>>( in, y, h, bs, h.lr, h.h2 ) ); break;
                    case RMS: heads.emplace_back( new Low<ceras::rmsprop<Any, float>>( in, y, h, bs, h.lr, h.h1, h.h2 ) ); break;
                    case ADADELTA: heads.emplace_back( new Low<ceras::adadelta<Any, float>>( in, y, h, bs, h.h1 ) ); break;
                    default: heads.emplace_back( new Low<ceras::gradient_descent<Any, float>>( in, y, h, bs, h.lr ) ); break;
                }
                else
                {
                    auto make = [&]( auto const& o ) { heads.emplace_back( new Compiled<std::remove_cvref_t<decltype( o )>>( in, y, h, o ) ); };
                    switch ( h.opt )
                    {
                        case SGD: make( ceras::SGD( bs, h.lr, h.h1, h.h2, h.nest ) ); break;
                        case ADAM: make( ceras::Adam( bs, h.lr, h.h1, h.h2 ) ); break;
                        case ADAGRAD: make( ceras::Adagrad( bs, h.lr, h.h2 ) ); break;
                        case RMS: make( ceras::RMSprop( bs, h.lr, h.h1, h.h2 ) ); break;
                        default: make( ceras::Adadelta( bs, h.h1 ) ); break;
                    }
                }
            }
        }
        std::vector<Var> all;
        // weights are given by value, so that every process starts alike
        void prepare()
        {
            build();
            all = weights();
            Rt rt; unsigned q = 0;
            for ( auto& v : all ) fill( v.data(), n.seed * 1024 + 512 + q++, 4 );
        }
    };

    // ---- histories --------------------------------------------------------------------------------------
    enum { STEP, PRED, EVALUATE, FWD0, FWD1, MANUAL, SAVE, LOAD, FREEZE, COPY, FIT, OPS };
    static char const* const op_name[] = { "step", "predict", "evaluate", "inference forward", "training forward", "gradients only", "save", "load", "freeze", "copy model", "fit" };
    struct Op { int k; unsigned head, rows; u64 seed; unsigned sel; };
    inline Op draw_op( Spec const& n, int k )
    {
        Op o{}; o.k = k; o.head = pick( n.heads.size(), "head" ); o.seed = sim::raw_seed( "data" );
        o.rows = n.heads[o.head].bs; if ( chance( 1, 3, "other size" ) ) o.rows = 1 + pick( 6, "rows" );
        if ( ( k == STEP || k == FWD1 || k == MANUAL ) && n.bn && o.rows < 2 ) o.rows = 2;
        o.sel = pick( 64, "which" );
        return o;
    }
    inline void say( Op const& o, char const* extra = "" ) { sim::note( "%s head %u rows %u sel %u%s", op_name[o.k], o.head, o.rows, o.sel, extra ); }

    inline void phase_back( char const* after ) { if ( ceras::learning_phase != 1 ) sim::violation( "phase", "learning phase is %d after %s", ceras::learning_phase, after ); }

    // performs one operation that is not a step
    inline void perform( Net& net, Op const& o )
    {
        Head& h = *net.heads[o.head];
        switch ( o.k )
        {
            case PRED: { T x = input_data( net.n, o.rows, o.seed ); T r = h.predict( x ); phase_back( "a prediction" ); break; }
            case EVALUATE: { unsigned long b = 1 + o.sel % 3; T x = input_data( net.n, o.rows, o.seed ), y = target_data( net.n, h.spec, o.rows, o.seed ); h.evaluate( x, y, b ); phase_back( "an evaluation" ); break; }
            case FWD0: { T x = input_data( net.n, o.rows, o.seed ), y = target_data( net.n, h.spec, o.rows, o.seed ); Inference i; h.bind( x, y ); session().run( h.loss() ); break; }
            case FWD1: { T x = input_data( net.n, o.rows, o.seed ), y = target_data( net.n, h.spec, o.rows, o.seed ); h.bind( x, y ); session().run( h.loss() ); break; }
            case MANUAL: { T x = input_data( net.n, o.rows, o.seed ), y = target_data( net.n, h.spec, o.rows, o.seed ); h.bind( x, y ); session().run( h.loss() ); h.loss().backward( ceras::ones<float>( { 1 } ) ); break; }
            case SAVE: session().save( "w" ); break;
            case LOAD: session().restore( "w" ); break;
            case COPY: h.copy(); break;
            case FREEZE:
            {
                bool on = o.sel & 1; unsigned i = ( o.sel >> 1 );
                std::vector<Var>& pool = ( o.seed & 1 ) && !net.own.empty() ? net.own : net.all;      // the user's own handle, or one from the session
                if ( pool.empty() ) break;
                Var v = pool[i % pool.size()];
                if ( o.seed & 2 ) v.trainable() = on; else v.trainable( on );
                break;
            }
            default: break;
        }
    }
    inline float train( Net& net, Op const& o )
    {
        Head& h = *net.heads[o.head];
        T x = input_data( net.n, o.rows, o.seed ), y = target_data( net.n, h.spec, o.rows, o.seed );
        { Rt rt; ceras::random_generator.seed( (unsigned)o.seed ); }
        return h.step( x, y );
    }

    // ---- the rules ----------------------------------------------------------------------------------------
    struct Rule
    {
        HeadSpec h; double lr; unsigned long it = 0;
        struct Hist { std::vector<double> a, b, abar; bool made = false; };
        std::map<unsigned, Hist> hist;
        Rule( HeadSpec const& hh ) : h( hh ) { lr = h.opt == ADADELTA ? 1.0 / h.bs : (double)h.lr / h.bs; }
        void begin() { if ( h.opt == SGD || h.opt == ADAGRAD || h.opt == RMS ) lr /= 1.0 + (double)h.h2 * it; }
        void end() { ++it; }
        // the new value of one element of weight i, and how far rounding may move it
        void one( unsigned i, unsigned long j, unsigned long n, double w, double g, double& to, double& tol )
        {
            Hist& q = hist[i];
            if ( !q.made ) { q.a.assign( n, 0 ); q.b.assign( n, 0 ); q.abar.assign( n, 0 ); q.made = true; }
            double const eps = 1.0e-8; double d = 0, mag = 0;
            switch ( h.opt )
            {
                case GD: d = -lr * g; mag = std::abs( d ); break;
                case SGD:
                    q.a[j] = (double)h.h1 * q.a[j] - lr * g; q.abar[j] = (double)h.h1 * q.abar[j] + lr * std::abs( g );
                    d = h.nest ? (double)h.h1 * q.a[j] - lr * g : q.a[j]; mag = q.abar[j] + lr * std::abs( g ); break;
                case ADAGRAD: q.a[j] += g * g; d = -lr * g / ( eps + std::sqrt( q.a[j] ) ); mag = std::abs( d ); break;
                case RMS: q.a[j] = it == 0 ? g * g : (double)h.h1 * q.a[j] + g * g * ( 1.0 - (double)h.h1 ); d = -lr * g / ( eps + std::sqrt( q.a[j] ) ); mag = std::abs( d ); break;
                case ADADELTA:
                {
                    q.a[j] = (double)h.h1 * q.a[j] + g * g * ( 1.0 - (double)h.h1 );
                    double s = lr * std::sqrt( ( q.b[j] + eps ) / ( q.a[j] + eps ) ) * g; d = -s; mag = std::abs( d );
                    q.b[j] = (double)h.h1 * q.b[j] + ( 1.0 - (double)h.h1 ) * s * s; break;
                }
                default:
                {
                    double b1 = h.h1, b2 = h.h2;
                    q.a[j] = b1 * q.a[j] + g * ( 1.0 - b1 ); q.abar[j] = b1 * q.abar[j] + std::abs( g ) * ( 1.0 - b1 );
                    q.b[j] = b2 * q.b[j] + g * g * ( 1.0 - b2 );
                    double l = lr * std::sqrt( 1.0 - std::pow( b2, (double)it + 1 ) ) / ( 1.0 - std::pow( b1, (double)it + 1 ) );
                    if ( it > 1 ) { d = -l * q.a[j] / ( eps + std::sqrt( q.b[j] ) ); mag = l * q.abar[j] / ( eps + std::sqrt( q.b[j] ) ); } else { d = -lr * g; mag = std::abs( d ); }
                }
            }
            to = w + d; tol = 2e-4 * mag + 3e-7 * ( std::abs( w ) + std::abs( to ) ) + 1e-12;
        }
    };
}
#endif
