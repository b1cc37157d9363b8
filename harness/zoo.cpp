// S01, S02, S03, P02, M02: random graphs under random histories, judged by each operation alone in a fresh process.
#include "zoo.hpp"
#include <new>
using namespace sim;
using namespace gr;

namespace
{
    std::string names_below( Graph const& g, int r )
    {
        std::set<int> b; g.below( r, b ); std::string s;
        for ( int i : b ) if ( g.n[i].what == OP ) { s += g.k( i ).name; s += ' '; }
        return s;
    }
    void cover_graph( Graph const& g, std::vector<Step> const& h )
    {
        static char const* nm[] = { "evaluate", "gradients", "bind", "new data", "overwrite", "set weight", "train", "save+load", "predict", "scribble", "freeze" };
        std::set<int> acts; for ( auto const& s : h ) acts.insert( s.act );
        std::set<int> b; for ( int r : g.roots ) g.below( r, b );
        for ( int i : b ) if ( g.n[i].what == OP ) for ( int a : { EVAL, GRAD, REBIND, TRAIN } ) if ( acts.count( a ) ) cover( std::string( g.k( i ).name ) + ( g.n[i].share >= 0 ? " shared / " : " / " ) + nm[a] );
    }
    struct Ref { bool ok = false, sane = false, gsane = false; std::string r; double top = 0; std::vector<std::pair<double, std::vector<double>>> g; };
    Ref isolated( Graph const& g, Record const& rec )
    {
        LifeOpts o; o.cores = 1;
        Outcome c = life( o, [&] { reference( g, rec ); } );
        Ref f;
        if ( c.kind == VIOL ) harness_error( "reference: %s", c.what.c_str() );
        if ( c.kind != RET ) { count( "reference_refused" ); note( "reference for n%d: %s %s", rec.root, kind_name( c.kind ), c.what.c_str() ); return f; }
        u64 t = c.log.u();
        if ( t == 7 ) { int i = c.log.u(); std::string s = c.log.s(); count( "reference_shape" ); note( "n%d has shape %s", i, s.c_str() ); return f; }
        f.sane = t == 5; f.r = c.log.s(); f.ok = true;
        if ( !c.log.more() ) return f;
        f.gsane = c.log.u() == 8;
        std::string d = c.log.s(); std::memcpy( &f.top, d.data(), 8 );
        while ( c.log.more() )
        {
            std::string m = c.log.s(), v = c.log.s();
            double mm; std::memcpy( &mm, m.data(), 8 );
            std::vector<double> x( v.size() / 8 ); std::memcpy( x.data(), v.data(), v.size() );
            f.g.push_back( { mm, x } );
        }
        return f;
    }
    std::string hex_at( std::string const& s, size_t i ) { float f = 0; if ( i * 4 + 4 <= s.size() ) std::memcpy( &f, s.data() + i * 4, 4 ); char b[64]; std::snprintf( b, sizeof b, "%.9g", f ); return b; }
    // bits equal, except that NaNs are all alike and zeros are
    bool same_values( std::string const& a, std::string const& b, size_t& at )
    {
        if ( a.size() != b.size() ) { at = 0; return false; }
        for ( size_t i = 0; i + 4 <= a.size(); i += 4 )
        {
            float x, y; std::memcpy( &x, &a[i], 4 ); std::memcpy( &y, &b[i], 4 );
            if ( !std::memcmp( &a[i], &b[i], 4 ) || ( is_number( x ) && is_number( y ) && x == y ) || ( !is_number( x ) && !is_number( y ) ) ) continue;
            at = i / 4; return false;
        }
        return true;
    }

    std::string first_difference( Record const& a, Record const& b )
    {
        auto in = []( std::string const& x, std::string const& y ) { for ( size_t i = 0; i * 4 < x.size(); ++i ) if ( y.size() < i * 4 + 4 || std::memcmp( &x[i * 4], &y[i * 4], 4 ) ) return "[" + std::to_string( i ) + "] of " + std::to_string( x.size() / 4 ) + " is " + hex_at( x, i ) + " or " + hex_at( y, i ); return std::string( "length" ); };
        if ( a.r != b.r ) return "result " + in( a.r, b.r );
        for ( unsigned i = 0; i < a.g.size(); ++i ) if ( a.g[i] != b.g[i] ) return "gradient of n" + std::to_string( a.w[i].first.first ) + " " + in( a.g[i], b.g[i] );
        return "count";
    }

    // compares what a run recorded with the isolated reference; returns false where the comparison ends early
    bool judge_values( Graph const& g, std::vector<Record> const& rs, Outcome const& r, char const* where, int budget, bool may_end = false )
    {
        for ( unsigned i = 0; i < rs.size(); ++i )
        {
            Record const& q = rs[i];
            if ( q.failed ) continue;
            if ( budget-- <= 0 ) return false;
            Record v = q; v.grad = false;
            Ref f = isolated( g, v );
            if ( !f.ok ) return false;
            if ( !q.done )
            {
                if ( f.sane && r.kind != RET && !may_end ) violation( "evaluation-fails", "%sevaluation %u of %s (%s) ends in %s %s; alone in a fresh process it succeeds", where, i, describe( g, q.root ).c_str(), names_below( g, q.root ).c_str(), kind_name( r.kind ), r.what.c_str() );
                return false;
            }
            if ( q.s != g.n[q.root].s[q.binding] ) violation( "shape", "%sevaluation %u of %s yields shape %s; fresh: %s", where, i, describe( g, q.root ).c_str(), str( q.s ).c_str(), str( g.n[q.root].s[q.binding] ).c_str() );
            if ( !f.sane ) { count( "values_too_large" ); continue; }
            size_t at = 0;
            if ( !same_values( q.r, f.r, at ) )
                violation( "value", "%sevaluation %u of %s (%s) gives %s at [%lu]; fresh: %s", where, i, describe( g, q.root ).c_str(), names_below( g, q.root ).c_str(), hex_at( q.r, at ).c_str(), at, hex_at( f.r, at ).c_str() );
            count( "evaluations_compared" );
        }
        return true;
    }
    bool stochastic_only_phase0( Graph const& ) { return true; }
}

SCENARIO( S01, history, 1 )
{
    GenOpts go; go.grad = chance( 2, 3, "gradients" );
    if ( chance( 1, 3, "small graph" ) ) go.max_ops = 2;
    Graph g = generate( go );
    auto h = generate_history( g, 10, false );
    cover_graph( g, h );
    LifeOpts o; o.reuse = chance( 1, 2, "reuse" ); o.fill = pick( 2, "fill" ) ? 0xFF : 0xA5;
    Outcome r = life( o, [&] { Subject s( g ); s.run( h ); } );
    if ( r.kind == SIGV || r.kind == HANG ) violation( r.kind == HANG ? "hang" : "memory", "%s", r.what.c_str() );
    auto rs = parse( g, r.log );
    judge_values( g, rs, r, "", 14 );
}

SCENARIO( S02, history, 1 )
{
    GenOpts go; go.grad = chance( 4, 5, "gradients" ); go.random = chance( 1, 2, "random" );
    if ( chance( 1, 3, "small graph" ) ) go.max_ops = 2;
    Graph g = generate( go );
    auto h = generate_history( g, 14, chance( 1, 3, "write into results" ) );
    cover_graph( g, h );
    LifeOpts o; o.reuse = chance( 1, 2, "reuse" );
    Outcome r = life( o, [&] { Subject s( g ); s.check = true; s.run( h ); } );
    if ( r.kind != RET ) { count( "history_cut_short" ); note( "ends in %s %s", kind_name( r.kind ), r.what.c_str() ); }
    count( "steps_checked", h.size() );
    if ( g.roots.size() ) nontrivial();
}

SCENARIO( S03, history, 1 )
{
    GenOpts go; go.max_ops = chance( 1, 3, "small graph" ) ? 3 : 9;
    Graph g = generate( go );
    if ( !g.grad ) skip();
    auto h = generate_history( g, 10, false );
    bool any = false; for ( auto const& s : h ) if ( s.act == GRAD ) any = true;
    if ( !any ) { for ( auto& s : h ) if ( s.act == EVAL ) { s.act = GRAD; s.phase = 1; any = true; } }
    if ( !any ) skip();
    cover_graph( g, h );
    LifeOpts o; o.reuse = chance( 1, 2, "reuse" ); o.fill = pick( 2, "fill" ) ? 0xFF : 0xA5;
    Outcome r = life( o, [&] { Subject s( g ); s.run( h ); } );
    if ( r.kind == SIGV || r.kind == HANG ) violation( r.kind == HANG ? "hang" : "memory", "%s", r.what.c_str() );
    auto rs = parse( g, r.log );
    int budget = 12;
    for ( unsigned i = 0; i < rs.size() && budget > 0; ++i )
    {
        Record const& q = rs[i];
        if ( !q.grad && q.done ) continue;
        --budget;
        Ref f = isolated( g, q );
        if ( !f.ok || !f.sane ) { if ( !q.done || !f.ok ) break; continue; }
        if ( !q.done )
        {
            if ( q.grad ? f.gsane : true ) if ( r.kind != RET ) violation( "gradient-fails", "step %u on %s (%s) ends in %s %s; alone in a fresh process it succeeds", i, describe( g, q.root ).c_str(), names_below( g, q.root ).c_str(), kind_name( r.kind ), r.what.c_str() );
            break;
        }
        size_t at = 0;
        if ( q.s != g.n[q.root].s[q.binding] || !same_values( q.r, f.r, at ) ) { count( "forward_differs" ); break; }   // S01 reports that
        if ( !f.gsane ) { count( "gradients_too_large" ); continue; }
        for ( unsigned k = 0; k < q.w.size(); ++k )
        {
            Node const& n = g.n[q.w[k].first.first];
            if ( n.what == VAR && !n.trainable ) continue;
            auto const& [own, x] = f.g[k];
            std::string const& b = q.g[k];
            if ( x.empty() ) continue;
            if ( own > 1e20 || own > 0.1 * f.top + 1e-3 ) { count( "gradients_cancelled" ); continue; }
            if ( b.size() != x.size() * 4 ) violation( "gradient-shape", "step %u: the gradient of weight %d of n%d has %lu elements, not %lu", i, q.w[k].first.second, q.w[k].first.first, b.size() / 4, x.size() );
            for ( unsigned long e = 0; e < x.size(); ++e )
            {
                float y; std::memcpy( &y, b.data() + e * 4, 4 );
                double tol = 1e-3 * std::abs( x[e] ) + own + 2e-6 * f.top + 1e-7;
                if ( !is_number( y ) || std::abs( y - x[e] ) > tol )
                    violation( "gradient", "step %u: gradient [%lu] of weight %d of n%d under %s (%s) is %.9g; fresh: %.9g", i, e, q.w[k].first.second, q.w[k].first.first, describe( g, q.root ).c_str(), names_below( g, q.root ).c_str(), y, x[e] );
            }
            count( "gradients_compared" );
        }
    }
}

SCENARIO( P02, history, 1 )
{
    GenOpts go; go.max_ops = 10; go.max_size = 700; go.grad = chance( 3, 4, "gradients" ); go.random = chance( 1, 2, "random" );
    Graph g = generate( go );
    auto h = generate_history( g, 7, false );
    cover_graph( g, h );
    LifeOpts one; one.cores = 1;
    Outcome a = life( one, [&] { Subject s( g ); s.run( h ); } );
    if ( a.kind == SIGV || a.kind == HANG ) { count( "history_cut_short" ); return; }
    int k = 1 + pick( 2, "schedules" );
    for ( int i = 0; i < k; ++i )
    {
        LifeOpts o; default_sched( o ); if ( o.cores == 1 ) o.cores = 2;
        Outcome b = life( o, [&] { Subject s( g ); s.run( h ); } );
        if ( a.kind != b.kind ) violation( "outcome", "on one processor: %s %s; on %d: %s %s", kind_name( a.kind ), a.what.c_str(), o.cores, kind_name( b.kind ), b.what.c_str() );
        if ( a.kind == RET && a.log.b != b.log.b )
        {
            Log la = a.log, lb = b.log; auto ra = parse( g, la ), rb = parse( g, lb );
            for ( unsigned q = 0; q < std::min( ra.size(), rb.size() ); ++q ) if ( ra[q].r != rb[q].r || ra[q].g != rb[q].g ) violation( "differs", "step %u on %s (%s) differs between one and %d processors: %s", q, describe( g, ra[q].root ).c_str(), names_below( g, ra[q].root ).c_str(), o.cores, first_difference( ra[q], rb[q] ).c_str() );
            violation( "differs", "weights differ between one and %d processors", o.cores );
        }
        count( "schedules_compared" );
    }
}

SCENARIO( P03, graph, 2 )
{
    GenOpts go; go.max_ops = 8; go.max_size = 700; go.grad = chance( 3, 4, "gradients" );
    Graph g = generate( go );
    auto h = generate_history( g, 6, false );
    cover_graph( g, h );
    LifeOpts o; default_sched( o ); if ( o.cores == 1 ) o.cores = 2 + pick( 4, "processors" );
    Outcome a = life( o, [&] { Subject s( g ); s.run( h ); } );
    if ( a.kind != RET ) { count( "history_cut_short" ); return; }
    if ( a.threads == 0 ) return;
    LifeOpts q = o; q.sched = pick( 5, "schedule" );
    if ( pick( 4, "how" ) == 3 ) q.thread_fail_rate = 1 + pick( 100, "rate" );
    else { q.thread_fail_at = pick( (u32)a.threads, "refused" ); static long const len[] = { 1, 1, 3, 1000000 }; q.thread_fail_len = len[pick( 4, "length" )]; }
    Outcome b = life( q, [&] { Subject s( g ); s.run( h ); } );
    if ( b.thread_faults == 0 ) { count( "nothing_refused" ); return; }
    fault_fired( FK_THREAD, b.thread_faults );
    if ( b.kind == HANG ) violation( "hang", "after a refused thread: %s", b.what.c_str() );
    if ( b.kind == SIGV || b.kind == VIOL ) violation( "memory", "after a refused thread: %s", b.what.c_str() );
    bool prefix = b.log.b.size() <= a.log.b.size() && !a.log.b.compare( 0, b.log.b.size(), b.log.b );
    if ( !prefix || ( b.kind == RET && b.log.b.size() != a.log.b.size() ) ) violation( "silently-different", "%lu threads refused (%s), results before any failure is visible differ from those with all threads", (unsigned long)b.thread_faults, kind_name( b.kind ) );
    count( b.kind == RET ? "coped" : "failed_visibly" ); nontrivial();
}

SCENARIO( M02, graph, 3 )
{
    GenOpts go; go.max_ops = chance( 1, 2, "small graph" ) ? 3 : 8; go.grad = chance( 2, 3, "gradients" );
    Graph g = generate( go );
    auto h = generate_history( g, 8, false );
    cover_graph( g, h );
    LifeOpts one; one.cores = 1;
    Outcome a = life( one, [&] { Subject s( g ); s.run_short_of_memory( h, {} ); } );
    if ( a.kind != RET ) { count( "history_cut_short" ); return; }
    Extra ha; parse( g, a.log, &ha );
    // where the memory ends
    std::vector<Subject::Oom> plan;
    int k = 1 + pick( 3, "shortages" );
    for ( int i = 0; i < k; ++i )
    {
        int s = pick( h.size(), "in step" );
        if ( ha.allocs[s] == 0 ) continue;
        bool taken = false; for ( auto& o : plan ) if ( o.step == s ) taken = true;
        if ( taken ) continue;
        u32 at = pick( 3, "where" ) == 0 ? ha.allocs[s] - 1 - pick( std::min<u64>( ha.allocs[s], 6 ), "from end" ) : pick( ha.allocs[s], "allocation" );
        u32 l = pick( 4, "length" );
        plan.push_back( { s, (long)at, l == 0 ? 1 : l == 1 ? 2 : l == 2 ? 4 : 1000000 } );
        note( "memory ends at allocation %u of step %d, for %ld allocations", at, s, plan.back().len );
    }
    if ( plan.empty() ) return;
    std::sort( plan.begin(), plan.end(), []( auto const& x, auto const& y ) { return x.step < y.step; } );
    LifeOpts o; if ( pick( 4, "threads" ) == 3 ) default_sched( o ); o.reuse = chance( 1, 2, "reuse" );
    Outcome b = life( o, [&] { Subject s( g ); s.run_short_of_memory( h, plan ); } );
    if ( b.kind == SIGV || b.kind == HANG ) violation( b.kind == HANG ? "hang" : "memory", "%s", b.what.c_str() );
    Extra hb; auto rs = parse( g, b.log, &hb );
    if ( b.kind != RET ) count( "ended_visibly" ); else if ( hb.any_failed ) count( "went_on" ); else count( "coped" );
    // a training step that ran out of memory: every weight as before or as after
    unsigned t = 0;
    for ( unsigned i = 0; i < h.size() && i <= (unsigned)plan[0].step; ++i )
    {
        if ( h[i].act != TRAIN ) continue;
        if ( 2 * t + 1 >= hb.weights.size() || 2 * t + 1 >= ha.weights.size() ) break;
        for ( unsigned n = 0; n < hb.weights[2 * t + 1].size() && n < ha.weights[2 * t + 1].size(); ++n )
            for ( unsigned q = 0; q < hb.weights[2 * t + 1][n].size(); ++q )
            {
                std::string const& now = hb.weights[2 * t + 1][n][q];
                if ( hb.weights[2 * t].size() != hb.weights[2 * t + 1].size() || q >= hb.weights[2 * t][n].size() ) continue;     // made in this step
                if ( now != hb.weights[2 * t][n][q] && ( q >= ha.weights[2 * t + 1][n].size() || now != ha.weights[2 * t + 1][n][q] ) ) violation( "weight-changed", "after a training step that ran out of memory a weight is neither as before nor as after the step" );
            }
        ++t;
    }
    judge_values( g, rs, b, "after a shortage of memory: ", 12, true );
}

// ---- M03: the same work over and over --------------------------------------------------------------------------------
SCENARIO( M03, graph, 2 )
{
    GenOpts go; go.grad = chance( 2, 3, "gradients" ); go.random = chance( 1, 2, "random" );
    if ( chance( 1, 3, "small graph" ) ) go.max_ops = 2;
    Graph g = generate( go );
    auto h = generate_history( g, 6, false );
    cover_graph( g, h );
    int temporary = pick( 4, "temporary" );                 // expressions built on others and dropped again, every round
    LifeOpts o; if ( pick( 4, "threads" ) == 3 ) default_sched( o ); o.reuse = chance( 1, 2, "reuse" );
    static int const rounds = 16;
    Outcome r = life( o, [&]
    {
        Subject s( g );
        s.quiet = true;
        for ( int i = 0; i < rounds; ++i )
        {
            if ( i == 0 ) s.run( h ); else for ( auto const& q : h ) s.step( q );
            if ( temporary )
            {
                Any& x = s.build( g.roots[0] );
                Any t = temporary == 1 ? wrap( ceras::square( x ) ) : temporary == 2 ? wrap( x + x ) : wrap( ceras::mean_reduce( x * 2.0f ) );
                ceras::learning_phase = g.phases == 1 ? 0 : 1;
                T v = ceras::get_default_session<T>().run( t );
                if ( g.grad ) t.backward( ceras::ones<float>( v.shape() ) );
                ceras::learning_phase = 1;
            }
            s.held.clear();
            Rt rt; out_u( live_bytes() );
        }
    } );
    if ( r.kind == SIGV || r.kind == HANG ) violation( r.kind == HANG ? "hang" : "memory", "%s", r.what.c_str() );
    std::vector<u64> live; while ( r.log.more() ) live.push_back( r.log.u() );
    if ( r.kind != RET || live.size() != rounds ) { count( "history_cut_short" ); note( "ends in %s %s", kind_name( r.kind ), r.what.c_str() ); return; }
    if ( live[rounds - 1] > live[3] ) violation( "grows", "after 4, 8 and 16 rounds of the same work %lu, %lu and %lu bytes are in use (%s)", live[3], live[7], live[15], names_below( g, g.roots[0] ).c_str() );
    count( "rounds", rounds ); nontrivial();
}
