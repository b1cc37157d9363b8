// T01, T02, T03, T04 and C05: training histories.
#include <set>
#include "train.hpp"
using namespace sim;
using namespace tr;

namespace
{
    std::vector<float> floats( std::string const& s ) { std::vector<float> f( s.size() / 4 ); std::memcpy( f.data(), s.data(), f.size() * 4 ); return f; }
    struct StepRec { unsigned op = 0; bool done = false; std::vector<int> flags; std::vector<std::string> before, after; float loss = 0; double left = 0; int left_at = -1; };

    void log_before( Net& net, unsigned op )
    {
        Rt rt; out_u( 1 ); out_u( op ); out_u( net.all.size() );
        for ( auto& v : net.all ) { out_u( v.trainable() ); out_s( raw( v.data() ) ); }
    }
    void log_after( Net& net, float loss )
    {
        Rt rt; out_u( 2 ); out_s( &loss, 4 );
        double left = 0; int at = -1;
        for ( unsigned i = 0; i < net.all.size(); ++i ) { auto& v = net.all[i]; if ( !v.trainable() ) continue; auto& g = v.gradient(); for ( unsigned long j = 0; j < g.size(); ++j ) { std::uint32_t u; std::memcpy( &u, &g.data()[j], 4 ); if ( u << 1 ) { left = g.data()[j]; at = i; } } }
        out_s( &left, 8 ); out_u( at + 1 );
        for ( auto& v : net.all ) out_s( raw( v.data() ) );
    }
    std::vector<StepRec> parse( Log& l )
    {
        std::vector<StepRec> r;
        while ( l.more() )
        {
            u64 t = l.u();
            if ( t == 1 ) { StepRec s; s.op = l.u(); unsigned n = l.u(); for ( unsigned i = 0; i < n; ++i ) { s.flags.push_back( l.u() ); s.before.push_back( l.s() ); } r.push_back( s ); }
            else if ( t == 2 ) { StepRec& s = r.back(); std::string f = l.s(); std::memcpy( &s.loss, f.data(), 4 ); f = l.s(); std::memcpy( &s.left, f.data(), 8 ); s.left_at = (int)l.u() - 1; for ( unsigned i = 0; i < s.before.size(); ++i ) s.after.push_back( l.s() ); s.done = true; }
            else harness_error( "train log" );
        }
        return r;
    }
    bool all_tame( std::vector<std::string> const& v, float limit ) { for ( auto const& s : v ) for ( float f : floats( s ) ) if ( !tame( f, limit ) ) return false; return true; }

    // the gradients of one step, in a fresh process; every weight trainable if all is set
    struct Grad { bool ok = false; float loss = 0; std::vector<std::vector<float>> g; };
    Grad fresh( Spec const& n, Op const& o, StepRec const& s, bool all_trainable )
    {
        LifeOpts lo;
        Outcome c = life( lo, [&]
        {
            Net net( n ); net.build(); net.all = weights();
            {
                Rt rt;
                if ( net.all.size() != s.before.size() ) harness_error( "%lu weights, then %lu", s.before.size(), net.all.size() );
                for ( unsigned i = 0; i < net.all.size(); ++i ) { auto& v = net.all[i]; if ( v.data().size() * 4 != s.before[i].size() ) harness_error( "weight size" ); std::memcpy( v.data().data(), s.before[i].data(), s.before[i].size() ); v.trainable( all_trainable || s.flags[i] ); }
                ceras::random_generator.seed( (unsigned)o.seed );
            }
            Head& h = *net.heads[o.head];
            T x = input_data( n, o.rows, o.seed ), y = target_data( n, h.spec, o.rows, o.seed );
            h.bind( x, y );
            T r = session().run( h.loss() );
            h.loss().backward( ceras::ones<float>( { 1 } ) );
            Rt rt;
            float l = r.as_scalar(); out_s( &l, 4 );
            for ( auto& v : net.all ) out_s( raw( v.gradient() ) );
        } );
        Grad g;
        if ( c.kind == VIOL ) harness_error( "fresh: %s", c.what.c_str() );
        if ( c.kind != RET ) { count( "fresh_refused" ); return g; }
        std::string f = c.log.s(); std::memcpy( &g.loss, f.data(), 4 );
        while ( c.log.more() ) g.g.push_back( floats( c.log.s() ) );
        g.ok = true;
        return g;
    }
    bool same_float( float a, float b ) { return !std::memcmp( &a, &b, 4 ) || ( !is_number( a ) && !is_number( b ) ); }

    // every step against its rule
    void judge( Spec const& n, std::vector<Op> const& ops, std::vector<StepRec> const& rec, bool constants )
    {
        std::vector<Rule> rules; for ( auto const& h : n.heads ) rules.emplace_back( h );
        for ( unsigned k = 0; k < rec.size(); ++k )
        {
            StepRec const& s = rec[k];
            if ( !s.done ) return;
            Op const& o = ops[s.op];
            HeadSpec const& h = n.heads[o.head];
            if ( !all_tame( s.before, 1e4f ) || !all_tame( s.after, 1e4f ) ) { count( "weights_too_large" ); return; }
            for ( unsigned i = 0; i < s.before.size(); ++i ) if ( !s.flags[i] && s.before[i] != s.after[i] ) violation( "frozen-changed", "step %u (operation %u, %s): weight %u is not trainable, but changed", k, s.op, opt_name[h.opt], i );
            if ( s.left_at >= 0 ) violation( "gradient-left", "step %u (operation %u, %s) leaves gradient %g of weight %d behind", k, s.op, opt_name[h.opt], s.left, s.left_at );
            Grad g = fresh( n, o, s, constants );
            if ( !g.ok ) return;
            if ( !same_float( g.loss, s.loss ) ) violation( "loss", "step %u (operation %u, %s) reports loss %.9g; the same step in a fresh process %.9g", k, s.op, loss_name[h.loss], s.loss, g.loss );
            for ( auto const& v : g.g ) for ( float f : v ) if ( !tame( f, 1e6f ) ) { count( "gradients_too_large" ); return; }
            Rule& r = rules[o.head];
            r.begin();
            for ( unsigned i = 0; i < s.before.size(); ++i )
            {
                if ( !s.flags[i] ) continue;
                std::vector<float> b = floats( s.before[i] ), a = floats( s.after[i] );
                for ( unsigned long j = 0; j < b.size(); ++j )
                {
                    double to, tol; r.one( i, j, b.size(), b[j], g.g[i].size() > j ? g.g[i][j] : 0.0, to, tol );
                    if ( std::abs( (double)a[j] - to ) > tol )
                        violation( "update", "step %u (operation %u, %s%s, update %lu of head %u): weight %u[%lu] goes from %.9g to %.9g, the rule gives %.9g (gradient %.9g)", k, s.op, opt_name[h.opt], h.low ? " low level" : "", r.it, o.head, i, j, b[j], a[j], to, g.g[i].size() > j ? g.g[i][j] : 0.0f );
                }
            }
            r.end();
            count( "steps_judged" ); nontrivial();
        }
    }
    void endings( Outcome const& r )
    {
        if ( r.kind == SIGV || r.kind == HANG ) violation( r.kind == HANG ? "hang" : "memory", "%s", r.what.c_str() );
        if ( r.kind != RET ) { count( "history_cut_short" ); note( "ends in %s %s", kind_name( r.kind ), r.what.c_str() ); }
    }
    std::vector<StepRec> run_logged( Spec const& n, std::vector<Op> const& ops, LifeOpts const& lo )
    {
        Outcome r = life( lo, [&]
        {
            Net net( n ); net.prepare();
            session().save( "w" );
            for ( unsigned i = 0; i < ops.size(); ++i )
            {
                if ( ops[i].k != STEP ) { perform( net, ops[i] ); continue; }
                log_before( net, i );
                float l = train( net, ops[i] );
                log_after( net, l );
            }
        } );
        endings( r );
        return parse( r.log );
    }
}

SCENARIO( T01, history, 1 )
{
    Want w; w.max_heads = 3;
    Spec n = draw_spec( w );
    std::vector<Op> ops;
    unsigned steps = 1 + pick( 8, "steps" ), made = 0;
    while ( made < steps )
    {
        static int const between[] = { PRED, EVALUATE, FWD0, FWD1, SAVE, LOAD, FREEZE, COPY };
        if ( chance( 1, 3, "between" ) ) ops.push_back( draw_op( n, between[pick( 8, "operation" )] ) );
        else { ops.push_back( draw_op( n, STEP ) ); ++made; }
        if ( ops.size() > 24 ) break;
    }
    for ( auto const& o : ops ) { say( o ); cover( std::string( "T01 " ) + op_name[o.k] + "/" + opt_name[n.heads[o.head].opt] ); }
    LifeOpts lo; lo.reuse = chance( 1, 2, "reuse" ); lo.fill = pick( 2, "fill" ) ? 0xFF : 0xA5;
    judge( n, ops, run_logged( n, ops, lo ), false );
}

SCENARIO( T02, history, 1 )
{
    Want w; w.max_heads = 2;
    Spec n = draw_spec( w );
    std::vector<Op> ops;
    unsigned k = 2 + pick( 12, "operations" );
    for ( unsigned i = 0; i < k; ++i )
    {
        u32 r = pick( 10, "operation" );
        ops.push_back( draw_op( n, r < 4 ? FREEZE : r < 8 ? STEP : r == 8 ? LOAD : COPY ) );
    }
    for ( auto const& o : ops ) { say( o, o.k == FREEZE ? ( o.sel & 1 ? " on" : " off" ) : "" ); cover( std::string( "T02 " ) + op_name[o.k] + "/" + opt_name[n.heads[o.head].opt] ); }
    LifeOpts lo; lo.reuse = chance( 1, 2, "reuse" );
    judge( n, ops, run_logged( n, ops, lo ), true );
}

namespace
{
    // freezing a model as a whole, which needs the expression's own type
    template< typename M > void whole_model( M& m, Ph&, std::vector<Op> const& ops, std::vector<Var> all, unsigned which, unsigned out )
    {
        HeadSpec h; h.out = out; h.loss = MSE;
        auto run = [&]( auto& cm )
        {
            for ( auto const& o : ops )
            {
                bool on = o.sel & 1;
                switch ( o.k )
                {
                    case FREEZE: if ( o.sel & 2 ) m.trainable( on ); else cm.trainable( on ); { Rt rt; out_u( 3 ); out_u( on ); } break;
                    case PRED: { T x = [&]{ Rt rt; T t{ { o.rows, 3 } }; fill( t, o.seed, 0 ); return t; }(); cm.predict( x ); break; }
                    default:
                    {
                        T x = [&]{ Rt rt; T t{ { o.rows, 3 } }; fill( t, o.seed, 0 ); return t; }(), y = target_data( Spec{}, h, o.rows, o.seed );
                        { Rt rt; out_u( 1 ); for ( auto& v : all ) out_s( raw( v.data() ) ); }
                        cm.train_on_batch( x, y );
                        { Rt rt; out_u( 2 ); for ( auto& v : all ) out_s( raw( v.data() ) ); }
                    }
                }
            }
        };
        if ( which == 0 ) { auto cm = m.compile( ceras::MeanSquaredError(), ceras::SGD( 2ul, 0.1f, 0.5f ) ); run( cm ); }
        else { auto cm = m.compile( ceras::MeanSquaredError(), ceras::Adam( 2ul, 0.05f ) ); run( cm ); }
    }
}

SCENARIO( T02, whole_model, 1 )
{
    unsigned net = pick( 3, "net" ), opt = pick( 2, "optimizer" );
    Spec n; n.in = { 3 }; n.heads.push_back( HeadSpec{} );
    std::vector<Op> ops; unsigned k = 2 + pick( 10, "operations" );
    for ( unsigned i = 0; i < k; ++i ) { u32 r = pick( 10, "operation" ); Op o = draw_op( n, r < 4 ? FREEZE : r < 9 ? STEP : PRED ); o.rows = 2 + pick( 3, "rows" ); ops.push_back( o ); say( o, o.k == FREEZE ? ( o.sel & 1 ? " on" : " off" ) : "" ); }
    LifeOpts lo;
    Outcome r = life( lo, [&]
    {
        Ph in{ Shape{ 3 } };
        { Rt rt; ceras::random_generator.seed( 7 ); }
        auto num = [&]( auto const& all ) { Rt rt; out_u( 9 ); out_u( all.size() ); };
        if ( net == 0 ) { auto m = ceras::model{ in, ceras::Dense( 2 )( ceras::tanh( ceras::Dense( 4 )( in ) ) ) }; auto all = weights(); num( all ); whole_model( m, in, ops, all, opt, 2 ); }
        else if ( net == 1 ) { auto x = ceras::sigmoid( ceras::Dense( 3, true, 0.0f, 0.01f )( in ) ); auto m = ceras::model{ in, ceras::Dense( 1 )( ceras::BatchNormalization( 0.9f )( x ) + in ) }; auto all = weights(); num( all ); whole_model( m, in, ops, all, opt, 1 ); }
        else { Var v{ ceras::ones<float>( { 3, 3 } ) }; auto m = ceras::model{ in, ceras::Dense( 2 )( ceras::softplus( in * v ) * v ) }; auto all = weights(); num( all ); whole_model( m, in, ops, all, opt, 2 ); }
    } );
    endings( r );
    bool on = true; std::vector<std::string> before; unsigned W = 0, step = 0;
    while ( r.log.more() )
    {
        u64 t = r.log.u();
        if ( t == 9 ) W = r.log.u();
        else if ( t == 3 ) on = r.log.u();
        else
        {
            std::vector<std::string> v; for ( unsigned i = 0; i < W; ++i ) { if ( !r.log.more() ) return; v.push_back( r.log.s() ); }
            if ( t == 1 ) { before = v; continue; }
            unsigned moved = 0;
            for ( unsigned i = 0; i < W; ++i ) moved += v[i] != before[i];
            if ( !on && moved ) violation( "frozen-changed", "step %u after the model has been frozen changed %u weights of %u", step, moved, W );
            if ( on && moved < W && all_tame( v, 1e3f ) )
            {
                // relu-free nets: every weight has a gradient, unless an update is below the precision of the weight
                count( "unmoved_weights", W - moved );
                if ( moved == 0 ) violation( "not-trained", "step %u changes no weight although the model is trainable", step );
            }
            ++step; count( "steps_judged" ); if ( !on ) nontrivial();
        }
    }
}

// ---- T03: the same history with and without predictions and evaluations in between -----------------------------
namespace
{
    void log_state( Net& net, float loss ) { Rt rt; out_u( 4 ); out_s( &loss, 4 ); for ( auto& v : net.all ) out_s( raw( v.data() ) ); }
    void run_plain( Spec const& n, std::vector<Op> const& ops, std::vector<char> const& use )
    {
        Net net( n ); net.prepare();
        session().save( "w" );
        { Rt rt; ceras::random_generator.seed( 5489u + (unsigned)n.seed ); }
        for ( unsigned i = 0; i < ops.size(); ++i )
        {
            if ( !use[i] ) continue;
            Op const& o = ops[i];
            Head& h = *net.heads[o.head];
            if ( o.k == STEP ) { T x = input_data( n, o.rows, o.seed ), y = target_data( n, h.spec, o.rows, o.seed ); float l = h.step( x, y ); log_state( net, l ); }
            else if ( o.k == FIT )
            {
                if ( !h.can_fit() ) continue;
                unsigned long bs = n.bn ? 2 : 1 + o.sel % 3, rows = bs * ( 1 + o.rows % 4 ) + ( o.sel >> 4 ) % 2;
                T x = input_data( n, rows, o.seed ), y = target_data( n, h.spec, rows, o.seed );
                std::vector<float> a, b; h.fit( x, y, bs, 1 + ( o.sel >> 2 ) % 2, 0, ( o.sel >> 3 ) % 2 ? 0.5 : 0.0, a, b );
                phase_back( "fitting" );
                log_state( net, a.empty() ? 0 : a.back() );
            }
            else perform( net, o );
        }
    }
}

SCENARIO( T03, insert, 1 )
{
    Want w; w.max_heads = 2;
    Spec n = draw_spec( w );
    std::vector<Op> ops; std::vector<char> all, base;
    unsigned k = 2 + pick( 7, "operations" );
    for ( unsigned i = 0; i < k; ++i )
    {
        unsigned ins = pick( 4, "insertions" );
        for ( unsigned j = 0; j < ins; ++j ) { static int const q[] = { PRED, EVALUATE, FWD0 }; ops.push_back( draw_op( n, q[pick( 3, "inserted" )] ) ); all.push_back( 1 ); base.push_back( 0 ); say( ops.back(), " (inserted)" ); }
        u32 r = pick( 12, "operation" );
        int kind = r < 8 ? STEP : r < 10 ? FIT : r == 10 ? SAVE : LOAD;
        ops.push_back( draw_op( n, kind ) ); all.push_back( 1 ); base.push_back( 1 ); say( ops.back() );
    }
    LifeOpts lo; lo.clock = pick( 5, "clock" ); lo.tty_cols = pick( 3, "terminal" ) ? 80 : -1;
    Outcome a = life( lo, [&] { run_plain( n, ops, base ); } );
    LifeOpts lo2 = lo; lo2.reuse = chance( 1, 2, "reuse" );
    Outcome b = life( lo2, [&] { run_plain( n, ops, all ); } );
    endings( a ); endings( b );
    // the insertions change how memory is reused, and nothing else
    if ( a.kind == RET && b.kind != RET ) violation( "fails", "with the inserted predictions the run ends in %s %s", kind_name( b.kind ), b.what.c_str() );
    if ( a.kind != RET ) return;
    if ( a.log.b != b.log.b )
    {
        size_t at = 0; while ( at < a.log.b.size() && at < b.log.b.size() && a.log.b[at] == b.log.b[at] ) ++at;
        violation( "influence", "inserting predictions and evaluations changes what later training gives (at byte %lu of %lu in the record of losses and weights)", at, a.log.b.size() );
    }
    count( "runs_compared" ); if ( a.log.b.size() ) nontrivial();
}

// ---- T04: fitting and evaluating against the same done batch by batch ---------------------------------------------
SCENARIO( T04, fit, 1 )
{
    Want w; w.max_heads = 1; w.low = false;
    Spec n = draw_spec( w );
    HeadSpec const& hs = n.heads[0];
    unsigned long bs = ( n.bn ? 2 : 1 ) + pick( 4, "batch" ), batches = 1 + pick( 8, "batches" ), rest = pick( bs, "leftover" ), epochs = 1 + pick( 3, "epochs" );
    if ( epochs == 3 && chance( 1, 4, "no epoch" ) ) epochs = 0;
    // splits whose product with the number of batches is exact
    double split = 0; unsigned long held = 0;
    if ( chance( 2, 3, "validation" ) )
    {
        if ( ( batches & ( batches - 1 ) ) == 0 ) { held = pick( batches + 1, "held out" ); split = (double)held / batches; }
        else { static double const s[] = { 0.5, 0.25, 0.75, 1.0 }; split = s[pick( 4, "split" )]; unsigned long tl = ( 1.0 - split ) * batches; held = batches - tl; }
    }
    unsigned long training = batches - held, rows = bs * batches + rest;
    int verbose = pick( 2, "verbose" );
    u64 dseed = sim::raw_seed( "data" );
    unsigned warm = pick( 3, "steps before" );
    note( "%lu batches of %lu (+%lu), split %g: %lu for training, %lu held out, %lu epochs", batches, bs, rest, split, training, held, epochs );
    cover( std::string( "T04 " ) + ( held ? training ? "both" : "all held out" : "no validation" ) + ( rest ? " leftover" : "" ) + ( n.bn ? " bn" : "" ) + ( n.drop ? " dropout" : "" ) + "/" + opt_name[hs.opt] );
    auto prologue = [&]( Net& net )
    {
        net.prepare();
        { Rt rt; ceras::random_generator.seed( 99u + (unsigned)n.seed ); }
        for ( unsigned i = 0; i < warm; ++i ) { T x = input_data( n, 2, 500 + i ), y = target_data( n, hs, 2, 500 + i ); net.heads[0]->step( x, y ); }
    };
    LifeOpts lo; lo.clock = pick( 5, "clock" ); static int const cols[] = { 80, -1, 0, 300, 41 }; lo.tty_cols = cols[pick( 5, "terminal" )];
    struct R { std::vector<float> tr, va; std::vector<std::string> w; float ev = 0, next = 0; bool full = false; };
    auto read = []( Log& l ) { R r; if ( !l.more() ) return r; r.tr = floats( l.s() ); r.va = floats( l.s() ); unsigned k = l.u(); for ( unsigned i = 0; i < k; ++i ) r.w.push_back( l.s() ); std::string e = l.s(); std::memcpy( &r.ev, e.data(), 4 ); if ( !l.more() ) return r; e = l.s(); std::memcpy( &r.next, e.data(), 4 ); r.full = true; return r; };      // the steps after it may end the process
    auto epilogue = [&]( Net& net, std::vector<float> const& a, std::vector<float> const& b, float ev )
    {
        std::vector<std::string> w;
        { Rt rt; out_s( a.data(), a.size() * 4 ); out_s( b.data(), b.size() * 4 ); out_u( net.all.size() ); for ( auto& v : net.all ) out_s( raw( v.data() ) ); out_s( &ev, 4 ); }
        // one more step shows the state behind the weights
        T x = input_data( n, 3, 900 ), y = target_data( n, hs, 3, 900 ); net.heads[0]->step( x, y ); float l = net.heads[0]->step( x, y );
        { Rt rt; out_s( &l, 4 ); }
    };
    Outcome fa = life( lo, [&]
    {
        Net net( n ); prologue( net );
        T x = input_data( n, rows, dseed ), y = target_data( n, hs, rows, dseed );
        std::string xs, ys; { Rt rt; xs = raw( x ); ys = raw( y ); }
        std::vector<float> a, b; net.heads[0]->fit( x, y, bs, epochs, verbose, split, a, b );
        phase_back( "fitting" );
        float ev = net.heads[0]->evaluate( x, y, bs );
        phase_back( "evaluating" );
        { Rt rt; if ( xs != raw( x ) || ys != raw( y ) ) violation( "data-changed", "fitting changed the samples or labels handed in" ); }
        epilogue( net, a, b, ev );
    } );
    endings( fa );
    Outcome fb = life( LifeOpts{}, [&]
    {
        Net net( n ); prologue( net );
        T x = input_data( n, rows, dseed ), y = target_data( n, hs, rows, dseed );
        Head& h = *net.heads[0];
        unsigned long xw = x.size() / rows, yw = y.size() / rows;
        auto part = [&]( T const& t, unsigned long i, unsigned long width ) { Rt rt; Shape s = t.shape(); s[0] = bs; T r{ s }; std::memcpy( r.data(), t.data() + i * bs * width, bs * width * 4 ); return r; };
        std::vector<float> a, b;
        for ( unsigned long e = 0; e < epochs; ++e )
        {
            float ta = 0, tb = 0;
            for ( unsigned long i = 0; i < batches; ++i )
            {
                T px = part( x, i, xw ), py = part( y, i, yw );
                if ( i < training ) ta += h.step( px, py ); else tb += h.evaluate( px, py, bs );
            }
            a.push_back( training ? ta / training : 0 ); b.push_back( held ? tb / held : 0 );
        }
        float ev = 0;
        for ( unsigned long i = 0; i < batches; ++i ) { T px = part( x, i, xw ), py = part( y, i, yw ); ev += h.evaluate( px, py, bs ); }
        epilogue( net, a, b, ev / batches );
    } );
    endings( fb );
    R a = read( fa.log ), b = read( fb.log );
    if ( fb.kind != RET || !b.full || !all_tame( b.w, 1e4f ) ) { count( "reference_refused" ); return; }
    if ( fa.kind != RET || !a.full ) violation( "fit-fails", "fitting ends in %s %s; batch by batch it succeeds", kind_name( fa.kind ), fa.what.c_str() );
    if ( a.tr.size() != epochs || a.va.size() != epochs ) violation( "report", "%lu and %lu losses reported for %lu epochs", a.tr.size(), a.va.size(), epochs );
    auto close = []( float x, float y ) { return std::abs( (double)x - y ) <= 2e-6 * ( std::abs( (double)x ) + std::abs( (double)y ) ) + 1e-9; };
    for ( unsigned i = 0; i < a.w.size(); ++i ) if ( a.w[i] != b.w[i] )
    {
        auto p = floats( a.w[i] ), q = floats( b.w[i] ); unsigned j = 0; while ( j < p.size() && same_float( p[j], q[j] ) ) ++j;
        violation( "fit-weights", "after fitting weight %u[%u] is %.9g; batch by batch %.9g", i, j, p[j], q[j] );
    }
    for ( unsigned long e = 0; e < epochs; ++e )
    {
        if ( training && is_number( b.tr[e] ) && !close( a.tr[e], b.tr[e] ) ) violation( "fit-loss", "training loss of epoch %lu is reported as %.9g; the mean over its batches is %.9g", e, a.tr[e], b.tr[e] );
        if ( held && is_number( b.va[e] ) && !close( a.va[e], b.va[e] ) ) violation( "fit-loss", "validation loss of epoch %lu is reported as %.9g; the mean over its batches is %.9g", e, a.va[e], b.va[e] );
    }
    if ( is_number( b.ev ) && !close( a.ev, b.ev ) ) violation( "evaluate", "evaluating reports %.9g; the mean over the batches is %.9g", a.ev, b.ev );
    if ( !same_float( a.next, b.next ) ) violation( "fit-state", "steps after fitting give loss %.9g; after the same batch by batch %.9g", a.next, b.next );
    count( "fits_compared" ); count( "epochs", epochs ); nontrivial();
}

// ---- C05: resumed from a checkpoint against never interrupted --------------------------------------------------------
namespace
{
    struct Plan { Spec n; std::vector<Op> steps; std::vector<char> save; };
    // steps from..; the record of losses and weights
    void train_from( Plan const& p, Net& net, unsigned from )
    {
        for ( unsigned i = from; i < p.steps.size(); ++i )
        {
            float l = 0;
            if ( p.steps[i].k == STEP ) l = train( net, p.steps[i] ); else perform( net, p.steps[i] );
            { Rt rt; out_u( i ); out_s( &l, 4 ); for ( auto& v : net.all ) out_s( raw( v.data() ) ); }
            if ( p.save[i] ) { session().save( "ckpt" ); { Rt rt; out_u( 1000 + i ); } }
        }
        T x = input_data( p.n, 3, 31 );
        for ( auto& h : net.heads ) { T r = h->predict( x ); Rt rt; out_u( 500 ); out_s( raw( r ) ); }
    }
    struct State { float loss = 0; std::vector<std::string> w; };
    struct History { std::map<unsigned, State> at; int saved = -1; std::vector<std::string> pred; };
    History parse_history( Log& l, unsigned W )
    {
        History h;
        while ( l.more() )
        {
            u64 t = l.u();
            if ( t == 500 ) { h.pred.push_back( l.s() ); continue; }
            if ( t >= 1000 ) { h.saved = (int)( t - 1000 ); continue; }
            State s; std::string f = l.s(); std::memcpy( &s.loss, f.data(), 4 );
            for ( unsigned i = 0; i < W; ++i ) s.w.push_back( l.s() );
            h.at[t] = s;
        }
        return h;
    }
    void resume( bool bn )
    {
        Plan p;
        Want w; w.max_heads = 2; w.bn = bn; w.stateless = true;
        p.n = draw_spec( w );
        if ( bn && !p.n.bn ) skip();
        unsigned k = 2 + pick( 7, "steps" );
        for ( unsigned i = 0; i < k; ++i ) { static int const q[] = { STEP, STEP, STEP, STEP, PRED, EVALUATE }; p.steps.push_back( draw_op( p.n, q[pick( 6, "operation" )] ) ); p.save.push_back( chance( 1, 2, "save" ) ); say( p.steps.back(), p.save.back() ? " then save" : "" ); }
        LifeOpts lo;
        unsigned W = 0;
        u64 ops0 = 0;
        auto first = [&] { Net net( p.n ); net.prepare(); { Rt rt; out_u( net.all.size() ); for ( auto& v : net.all ) out_s( raw( v.data() ) ); } train_from( p, net, 0 ); };
        Outcome a = life( lo, first );
        endings( a );
        if ( a.kind != RET ) { count( "reference_refused" ); return; }
        ops0 = a.fs_ops;
        W = a.log.u(); std::vector<std::string> initial; for ( unsigned i = 0; i < W; ++i ) initial.push_back( a.log.s() );
        History whole = parse_history( a.log, W );
        for ( auto const& [i, s] : whole.at ) if ( !all_tame( s.w, 1e4f ) ) { count( "weights_too_large" ); return; }
        // interrupted runs: crash, resume, perhaps crash again
        clear_scratch();
        int base = -1;                         // weights of the last completed checkpoint (-1: none)
        unsigned crashes = 1 + pick( 3, "crashes" );
        for ( unsigned c = 0; c <= crashes; ++c )
        {
            LifeOpts l2 = lo;
            if ( c < crashes ) { l2.crash_op = pick( (u32)std::max<u64>( ops0, 1 ), "crash at" ); l2.crash_mode = pick( 3, "crash mode" ); }
            l2.reuse = chance( 1, 2, "reuse" );
            bool have = exists( "ckpt" );
            if ( !have && base >= 0 ) violation( "checkpoint-lost", "the checkpoint of step %d is gone after a crash", base );
            Outcome r = life( l2, [&]
            {
                Net net( p.n ); net.prepare();
                int from = 0;
                if ( have )
                {
                    session().restore( "ckpt" );
                    Rt rt;
                    // which step is it the checkpoint of
                    from = -1;
                    for ( auto const& [i, s] : whole.at ) { bool eq = p.save[i] && (int)i >= base; for ( unsigned q = 0; eq && q < W; ++q ) eq = raw( net.all[q].data() ) == s.w[q]; if ( eq ) { from = i + 1; break; } }
                    if ( from < 0 ) violation( "resume-weights", "the checkpoint loads weights that the run never had at a save from step %d on", base );
                }
                { Rt rt; out_u( W ); out_u( from ); }
                train_from( p, net, from );
            } );
            if ( r.kind == SIGV || r.kind == HANG ) violation( "memory", "%s", r.what.c_str() );
            if ( c < crashes && r.kind == CRASH ) { fault_fired( FK_CRASH ); count( "crashes" ); }
            else if ( r.kind != RET ) violation( "resume-fails", "a resumed run ends in %s %s", kind_name( r.kind ), r.what.c_str() );
            if ( !r.log.more() ) continue;
            r.log.u(); int from = r.log.u();
            History h = parse_history( r.log, W );
            for ( auto const& [i, s] : h.at )
            {
                State const& t = whole.at[i];
                if ( !same_float( s.loss, t.loss ) ) violation( "resume-loss", "resumed at step %d, step %u has loss %.9g; uninterrupted %.9g", from, i, s.loss, t.loss );
                if ( s.w != t.w ) violation( "resume-weights", "resumed at step %d, the weights after step %u differ from the uninterrupted run", from, i );
                count( "steps_compared" ); if ( from > 0 ) nontrivial();
            }
            if ( r.kind == RET && h.pred != whole.pred ) violation( "resume-prediction", "resumed at step %d, the predictions at the end differ from those of the uninterrupted run", from );
            if ( h.saved >= 0 ) base = std::max( base, h.saved );
            if ( r.kind == RET ) break;
        }
    }
}
SCENARIO( C05, resume, 4 ) { resume( false ); }
SCENARIO( C05, resume_bn, 1 ) { resume( true ); }

// ---- M02: training in which memory runs out -------------------------------------------------------------------------
SCENARIO( M02, training, 1 )
{
    Want w; w.max_heads = 2;
    Spec n = draw_spec( w );
    std::vector<Op> ops; unsigned k = 2 + pick( 7, "operations" );
    for ( unsigned i = 0; i < k; ++i ) { static int const q[] = { STEP, STEP, STEP, STEP, PRED, EVALUATE, FWD1 }; ops.push_back( draw_op( n, q[pick( 7, "operation" )] ) ); say( ops.back() ); }
    struct Oom { unsigned op; long at, len; };
    std::vector<Oom> plan;
    auto program = [&]
    {
        Net net( n ); net.prepare();
        for ( unsigned i = 0; i < ops.size(); ++i )
        {
            Op const& o = ops[i];
            auto it = std::find_if( plan.begin(), plan.end(), [i]( Oom const& q ) { return q.op == i; } );
            T x = input_data( n, o.rows, o.seed ), y = target_data( n, net.heads[o.head]->spec, o.rows, o.seed );
            log_before( net, i );
            { Rt rt; ceras::random_generator.seed( (unsigned)o.seed ); }
            u64 before = alloc_count(); bool failed = false; float l = 0;
            if ( it != plan.end() ) set_alloc_fail( it->at, it->len );
            try { if ( o.k == STEP ) l = net.heads[o.head]->step( x, y ); else perform( net, o ); }
            catch ( std::bad_alloc const& ) { failed = true; }
            set_alloc_fail( -1, 0 );
            if ( o.k == FWD1 ) ceras::learning_phase = 1;
            if ( failed && ceras::learning_phase != 1 ) violation( "phase", "learning phase is %d after %s ran out of memory", ceras::learning_phase, op_name[o.k] );
            log_after( net, l );
            Rt rt; out_u( 6 ); out_u( failed ); out_u( alloc_count() - before );
        }
    };
    struct Rec { StepRec s; bool failed = false; u64 allocs = 0; };
    auto read = [&]( Log& l )
    {
        std::vector<Rec> r;
        while ( l.more() )
        {
            u64 t = l.u();
            if ( t == 1 ) { Rec q; q.s.op = l.u(); unsigned c = l.u(); for ( unsigned i = 0; i < c; ++i ) { q.s.flags.push_back( l.u() ); q.s.before.push_back( l.s() ); } r.push_back( q ); }
            else if ( t == 2 ) { StepRec& s = r.back().s; std::string f = l.s(); std::memcpy( &s.loss, f.data(), 4 ); f = l.s(); std::memcpy( &s.left, f.data(), 8 ); s.left_at = (int)l.u() - 1; for ( unsigned i = 0; i < s.before.size(); ++i ) s.after.push_back( l.s() ); s.done = true; }
            else if ( t == 6 ) { r.back().failed = l.u(); r.back().allocs = l.u(); }
            else harness_error( "train log" );
        }
        return r;
    };
    Outcome a = life( LifeOpts{}, program );
    if ( a.kind != RET ) { count( "history_cut_short" ); return; }
    auto ra = read( a.log );
    unsigned m = 1 + pick( 3, "shortages" );
    for ( unsigned i = 0; i < m; ++i )
    {
        unsigned at = pick( ops.size(), "operation" );
        if ( !ra[at].allocs || std::any_of( plan.begin(), plan.end(), [at]( Oom const& q ) { return q.op == at; } ) ) continue;
        u32 l = pick( 4, "length" );
        // the library refuses after clean-up and a second try, so that one failure alone seldom shows
        // the last allocations of a step are those of the optimizer
        u64 from = chance( 1, 2, "end of the operation" ) ? ra[at].allocs - std::min<u64>( ra[at].allocs, 4 + ra[at].allocs / 8 ) : 0;
        plan.push_back( { at, (long)( from + pick( ra[at].allocs - from, "allocation" ) ), l == 0 ? 1 : l == 1 ? 2 : l == 2 ? 4 : 1000000 } );
        note( "memory ends at allocation %ld of operation %u, for %ld allocations", plan.back().at, at, plan.back().len );
        cover( std::string( "M02 " ) + op_name[ops[at].k] + "/" + opt_name[n.heads[ops[at].head].opt] );
    }
    if ( plan.empty() ) return;
    LifeOpts o; o.reuse = chance( 1, 2, "reuse" );
    Outcome b = life( o, program );
    if ( b.kind == SIGV || b.kind == HANG ) violation( b.kind == HANG ? "hang" : "memory", "%s", b.what.c_str() );
    auto rb = read( b.log );
    bool any = false;
    // A step that ran out of memory may or may not count for the schedule of the learning rate and for the bias correction:
    // both are followed, and every later step has to agree with one of them.
    std::vector<std::vector<Rule>> rules; for ( auto const& h : n.heads ) rules.emplace_back( 1, Rule{ h } );
    std::set<std::pair<unsigned, unsigned>> unknown;       // (head, weight): not known whether the failed step has reached it
    for ( unsigned q = 0; q < rb.size(); ++q )
    {
        Rec const& e = rb[q]; StepRec const& s = e.s; Op const& op = ops[s.op];
        if ( !s.done ) break;
        any |= e.failed;
        if ( !all_tame( s.before, 1e4f ) || !all_tame( s.after, 1e4f ) ) { count( "weights_too_large" ); return; }
        if ( op.k != STEP )
        {
            if ( s.before != s.after ) violation( "weight-changed", "%s%s changed a weight", op_name[op.k], e.failed ? " that ran out of memory" : "" );
            continue;
        }
        Grad g = fresh( n, op, s, false );
        if ( !g.ok ) return;
        if ( !e.failed && !same_float( g.loss, s.loss ) ) violation( "loss", "%sstep %u reports loss %.9g; the same step in a fresh process %.9g", any ? "after a shortage of memory " : "", q, s.loss, g.loss );
        for ( auto const& v : g.g ) for ( float f : v ) if ( !tame( f, 1e6f ) ) { count( "gradients_too_large" ); return; }
        std::vector<Rule> next; std::string wrong;
        bool moved = s.before != s.after;
        for ( unsigned i = 0; i < s.before.size(); ++i ) if ( !s.flags[i] && s.before[i] != s.after[i] ) violation( "weight-changed", "weight %u is not trainable, but changed", i );
        for ( Rule const& was : rules[op.head] )
        {
            Rule r = was; r.begin();
            bool fits = true;
            for ( unsigned i = 0; fits && i < s.before.size(); ++i )
            {
                if ( !s.flags[i] ) continue;
                std::vector<float> vb = floats( s.before[i] ), va = floats( s.after[i] );
                bool kept = e.failed && s.before[i] == s.after[i];             // left as it was
                Rule::Hist old; if ( kept ) old = r.hist[i];
                bool visible = false;
                for ( unsigned long j = 0; fits && j < vb.size(); ++j )
                {
                    double to, tol; r.one( i, j, vb.size(), vb[j], g.g[i].size() > j ? g.g[i][j] : 0.0, to, tol );
                    visible |= std::abs( vb[j] - to ) > tol;
                    if ( kept || unknown.count( { op.head, i } ) || std::abs( (double)va[j] - to ) <= tol ) continue;
                    char buf[512]; std::snprintf( buf, sizeof buf, "%s step %u (operation %u, %s): weight %u[%lu] goes from %.9g to %.9g, the rule gives %.9g (gradient %.9g)", e.failed ? "out of memory in" : any ? "after a shortage of memory" : "before any shortage", q, s.op, opt_name[n.heads[op.head].opt], i, j, vb[j], va[j], to, g.g[i].size() > j ? g.g[i][j] : 0.0f );
                    wrong = buf; fits = false;
                }
                if ( !kept ) continue;
                r.hist[i] = old;
                if ( !visible ) unknown.insert( { op.head, i } );
            }
            if ( !fits ) continue;
            if ( !e.failed ) { r.end(); next.push_back( r ); continue; }
            next.push_back( r ); r.end();
            if ( !moved ) { next.push_back( was ); next.back().hist = r.hist; } else next.push_back( r );
        }
        if ( next.empty() ) violation( e.failed ? "half-updated" : "update", "%s", wrong.c_str() );
        rules[op.head] = std::move( next );
        if ( e.failed ) { count( "failed_steps_judged" ); } else { count( "steps_judged" ); if ( any ) nontrivial(); }
    }
    if ( b.kind != RET ) { count( "ended_visibly" ); nontrivial(); } else if ( any ) count( "went_on" ); else count( "coped" );
}

// ---- M03: the same training work over and over ------------------------------------------------------------------------
SCENARIO( M03, training, 1 )
{
    Want w; w.max_heads = 2;
    Spec n = draw_spec( w );
    std::vector<Op> ops; unsigned k = 1 + pick( 5, "operations" );
    for ( unsigned i = 0; i < k; ++i ) { static int const q[] = { STEP, STEP, STEP, PRED, EVALUATE, FWD0, FWD1, MANUAL, SAVE, LOAD, FIT }; ops.push_back( draw_op( n, q[pick( 11, "operation" )] ) ); say( ops.back() ); cover( std::string( "M03 " ) + op_name[ops.back().k] + "/" + opt_name[n.heads[ops.back().head].opt] ); }
    static int const rounds = 16;
    LifeOpts lo; if ( pick( 4, "threads" ) == 3 ) default_sched( lo ); lo.reuse = chance( 1, 2, "reuse" ); lo.clock = pick( 5, "clock" );
    Outcome r = life( lo, [&]
    {
        Net net( n ); net.prepare(); session().save( "w" );
        for ( int i = 0; i < rounds; ++i )
        {
            for ( auto const& o : ops )
            {
                Head& h = *net.heads[o.head];
                if ( o.k == STEP ) { train( net, o ); continue; }
                if ( o.k != FIT ) { perform( net, o ); continue; }
                if ( !h.can_fit() ) continue;
                unsigned long bs = 2 + o.sel % 3, rows = bs * ( 1 + o.rows % 3 ) + ( o.sel >> 3 ) % 2;
                T x = input_data( n, rows, o.seed ), y = target_data( n, h.spec, rows, o.seed );
                std::vector<float> a, b; h.fit( x, y, bs, 1 + o.sel % 2, o.sel >> 4 & 1, ( o.sel >> 5 & 1 ) * 0.5, a, b );
            }
            Rt rt; out_u( live_bytes() );
        }
    } );
    endings( r );
    std::vector<u64> live; while ( r.log.more() ) live.push_back( r.log.u() );
    if ( r.kind != RET || live.size() != rounds ) return;
    if ( live[rounds - 1] > live[3] ) violation( "grows", "after 4, 8 and 16 rounds of the same work %lu, %lu and %lu bytes are in use", live[3], live[7], live[15] );
    count( "rounds", rounds ); nontrivial();
}
