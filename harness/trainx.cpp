// T05, P02, P03 on training programs. Built with value-safe arithmetic (see DESIGN.md).
#include "train.hpp"
using namespace sim;
using namespace tr;

namespace
{
    struct Program { Spec n; std::vector<Op> ops; u64 seed; int seeding; bool own_weights; std::vector<int> extra; };

    Program draw_program( bool randoms )
    {
        Program p;
        Want w; w.max_heads = 2; w.noise = randoms;
        p.n = draw_spec( w );
        unsigned k = 1 + pick( 7, "operations" );
        for ( unsigned i = 0; i < k; ++i )
        {
            static int const q[] = { STEP, STEP, STEP, FIT, PRED, EVALUATE, FWD1, SAVE, LOAD, COPY, FREEZE, STEP };
            p.ops.push_back( draw_op( p.n, q[pick( 12, "operation" )] ) ); say( p.ops.back() );
        }
        p.seed = raw_seed( "seed" ) % 100000; p.seeding = pick( 3, "seeding" ); p.own_weights = !randoms || chance( 1, 4, "given weights" );
        if ( randoms ) { unsigned e = pick( 4, "extras" ); for ( unsigned i = 0; i < e; ++i ) p.extra.push_back( pick( 9, "extra" ) ); }
        return p;
    }
    void random_tensor( int kind )
    {
        T r;
        switch ( kind )
        {
            case 0: r = ceras::random<float>( { 7, 3 } ); break;
            case 1: r = ceras::randn<float>( { 5, 5 } ); break;
            case 2: r = ceras::glorot_uniform<float>( { 4, 6 } ); break;
            case 3: r = ceras::truncated_normal<float>( { 9 }, 0.0f, 1.0f, -1.0f, 1.0f ); break;
            case 4: r = ceras::poisson( ceras::ones<float>( { 12 } ) * 4.0f ); break;
            case 5: r = ceras::random_like( ceras::ones<float>( { 3, 3 } ) ); break;
            case 6: r = ceras::randn_like( ceras::ones<float>( { 3, 3 } ), 1.0f, 2.0f ); break;
            case 7: r = ceras::rand<float>( { 17 }, -2.0f, 5.0f ); break;
            default: { auto c = ceras::random<double>( { 11 } ); Rt rt; out_s( std::string( (char const*)c.data(), c.size() * 8 ) ); return; }
        }
        Rt rt; out_u( kind ); out_s( raw( r ) );
    }
    void run_program( Program const& p )
    {
        if ( p.seeding == 0 ) ceras::random_generator.seed( p.seed ); else ceras::random_seed = p.seed;
        unsigned e = 0;
        if ( p.extra.size() > e ) random_tensor( p.extra[e++] );
        if ( p.seeding == 2 ) ceras::random_seed = p.seed + 1;           // seeding again starts again
        Net net( p.n );
        if ( p.own_weights ) net.prepare(); else { net.build(); net.all = weights(); }
        auto log = [&]( unsigned i, float l ) { Rt rt; out_u( i ); out_s( &l, 4 ); for ( auto& v : net.all ) out_s( raw( v.data() ) ); };
        log( 0, 0 );
        if ( p.extra.size() > e ) random_tensor( p.extra[e++] );
        session().save( "w" );
        for ( unsigned i = 0; i < p.ops.size(); ++i )
        {
            Op const& o = p.ops[i]; Head& h = *net.heads[o.head];
            float l = 0;
            switch ( o.k )
            {
                case STEP: { T x = input_data( p.n, o.rows, o.seed ), y = target_data( p.n, h.spec, o.rows, o.seed ); l = h.step( x, y ); break; }
                case FIT:
                {
                    if ( !h.can_fit() ) break;
                    unsigned long bs = 2 + o.sel % 2, rows = bs * ( 1 + o.rows % 4 );
                    T x = input_data( p.n, rows, o.seed ), y = target_data( p.n, h.spec, rows, o.seed );
                    std::vector<float> a, b; h.fit( x, y, bs, 1 + ( o.sel >> 2 ) % 2, ( o.sel >> 4 ) & 1, ( o.sel >> 3 ) % 2 ? 0.5 : 0.0, a, b );
                    { Rt rt; out_s( a.data(), a.size() * 4 ); if ( ( o.sel >> 3 ) % 2 ) out_s( b.data(), b.size() * 4 ); }
                    break;
                }
                case PRED: { T x = input_data( p.n, o.rows, o.seed ); T r = h.predict( x ); { Rt rt; out_s( raw( r ) ); } break; }
                case EVALUATE: { unsigned long bs = 1 + o.sel % 3; if ( o.rows < bs ) break; T x = input_data( p.n, o.rows, o.seed ), y = target_data( p.n, h.spec, o.rows, o.seed ); l = h.evaluate( x, y, bs ); break; }
                case FWD1: { T x = input_data( p.n, o.rows, o.seed ), y = target_data( p.n, h.spec, o.rows, o.seed ); h.bind( x, y ); l = session().run( h.loss() ).as_scalar(); break; }
                default: perform( net, o );
            }
            log( i + 1, l );
        }
        if ( p.extra.size() > e ) random_tensor( p.extra[e++] );
        session().save( "final" );
    }
    std::string where( Program const& p, std::string const& a, std::string const& b )
    {
        size_t at = 0; while ( at < a.size() && at < b.size() && a[at] == b[at] ) ++at;
        return "at byte " + std::to_string( at ) + " of the record of " + std::to_string( a.size() );
    }
    void cover_program( char const* id, Program const& p ) { for ( auto const& o : p.ops ) cover( std::string( id ) + " " + op_name[o.k] + "/" + opt_name[p.n.heads[o.head].opt] ); auto layers = [id]( std::vector<Layer> const& v ) { for ( auto const& l : v ) cover( std::string( id ) + " " + layer_name[l.k] ); }; layers( p.n.trunk ); for ( auto const& h : p.n.heads ) layers( h.layers ); }
}

SCENARIO( T05, environment, 1 )
{
    Program p = draw_program( true );
    cover_program( "T05", p );
    LifeOpts one;
    Outcome a = life( one, [&] { run_program( p ); } );
    if ( a.kind != RET ) { count( "history_cut_short" ); note( "ends in %s %s", kind_name( a.kind ), a.what.c_str() ); return; }
    std::string wa, fa; read_file( "w", wa ); read_file( "final", fa );
    unsigned k = 1 + pick( 2, "executions" );
    for ( unsigned i = 0; i < k; ++i )
    {
        clear_scratch();
        LifeOpts o; if ( pick( 2, "threads" ) ) default_sched( o );
        o.clock = pick( 5, "clock" ); o.clock_base = 1000000000l + (long)pick( 1000000000, "date" );
        o.reuse = chance( 1, 2, "reuse" ); static unsigned char const fills[] = { 0xA5, 0xFF, 0x00, 0x3F }; o.fill = fills[pick( 4, "fill" )]; o.arena_shift = 16ul * pick( 4000, "shift" );
        static int const cols[] = { 80, -1, 0, 300 }; o.tty_cols = cols[pick( 4, "terminal" )];
        if ( pick( 4, "disk" ) == 3 ) { o.r_short = 200; o.r_eintr = 100; }
        note( "execution %u: %d processors, clock %d from %ld, reuse %d fill %d shift %lu terminal %d", i, o.cores, o.clock, o.clock_base, o.reuse, o.fill, (unsigned long)o.arena_shift, o.tty_cols );
        Outcome b = life( o, [&] { run_program( p ); } );
        if ( b.kind != RET ) violation( "outcome", "the same program with the same seed ends in %s %s on another execution", kind_name( b.kind ), b.what.c_str() );
        if ( a.log.b != b.log.b ) violation( "differs", "the same program with the same seed gives other weights, losses or results %s", where( p, a.log.b, b.log.b ).c_str() );
        std::string wb, fb; read_file( "w", wb ); read_file( "final", fb );
        if ( wa != wb || fa != fb ) violation( "file-differs", "the same program with the same seed saves other files (%lu and %lu bytes, %lu and %lu)", wa.size(), wb.size(), fa.size(), fb.size() );
        count( "executions_compared" ); nontrivial();
    }
}

SCENARIO( P02, training, 1 )
{
    Program p = draw_program( false );
    cover_program( "P02", p );
    LifeOpts one;
    Outcome a = life( one, [&] { run_program( p ); } );
    if ( a.kind != RET ) { count( "history_cut_short" ); return; }
    LifeOpts o; default_sched( o ); if ( o.cores == 1 ) o.cores = 2;
    clear_scratch();
    Outcome b = life( o, [&] { run_program( p ); } );
    if ( a.kind != b.kind ) violation( "outcome", "on one processor: %s %s; on %d: %s %s", kind_name( a.kind ), a.what.c_str(), o.cores, kind_name( b.kind ), b.what.c_str() );
    if ( a.log.b != b.log.b ) violation( "differs", "training differs between one and %d processors %s", o.cores, where( p, a.log.b, b.log.b ).c_str() );
    count( "schedules_compared" ); if ( b.threads ) nontrivial();
}

SCENARIO( P03, training, 2 )
{
    Program p = draw_program( false );
    cover_program( "P03", p );
    LifeOpts o; default_sched( o ); if ( o.cores == 1 ) o.cores = 2 + pick( 4, "processors" );
    Outcome a = life( o, [&] { run_program( p ); } );
    if ( a.kind != RET ) { count( "history_cut_short" ); return; }
    if ( a.threads == 0 ) return;
    unsigned k = 1 + pick( 3, "executions" );
    for ( unsigned i = 0; i < k; ++i )
    {
        clear_scratch();
        LifeOpts q = o; q.sched = pick( 5, "schedule" );
        if ( pick( 4, "how" ) == 3 ) q.thread_fail_rate = 1 + pick( 60, "rate" );
        else { q.thread_fail_at = pick( (u32)std::min<u64>( a.threads, 1000000 ), "refused" ); static long const len[] = { 1, 1, 3, 1000000 }; q.thread_fail_len = len[pick( 4, "length" )]; }
        Outcome b = life( q, [&] { run_program( p ); } );
        if ( b.thread_faults == 0 ) { count( "nothing_refused" ); continue; }
        fault_fired( FK_THREAD, b.thread_faults );
        if ( b.kind == HANG ) violation( "hang", "after a refused thread: %s", b.what.c_str() );
        if ( b.kind == SIGV || b.kind == VIOL ) violation( "memory", "after a refused thread: %s", b.what.c_str() );
        if ( b.kind == RET && b.log.b != a.log.b ) violation( "silently-different", "%lu threads refused, no failure is visible, but the results differ %s", (unsigned long)b.thread_faults, where( p, a.log.b, b.log.b ).c_str() );
        if ( b.kind != RET && ( b.log.b.size() > a.log.b.size() || a.log.b.compare( 0, b.log.b.size(), b.log.b ) ) ) violation( "silently-different", "%lu threads refused; before the failure becomes visible results differ %s", (unsigned long)b.thread_faults, where( p, a.log.b, b.log.b ).c_str() );
        count( b.kind == RET ? "coped" : "failed_visibly" ); nontrivial();
    }
}
