// U01: loops through a progress bar under a simulated clock and terminal.
#include CERAS_HPP
#include "sim.hpp"
#include <list>
using namespace sim;

namespace
{
    struct Plan { int form, stream, sink; u32 n; bool suffix, prefix, mini, again; int stop, bar, set; double to; };
    u32 draw_n() { switch ( pick( 3, "nclass" ) ) { case 0: return pick( 6, "n" ); case 1: return pick( 40, "n" ); default: return pick( 400, "n" ); } }
    void want( u32 i, long got, char const* what ) { if ( (long)i != got ) violation( "wrong-element", "%s: visit %u is element %ld", what, i, got ); }

    template< typename Bar, typename Get > void loop( Bar& bar, Plan const& p, std::ostream& os, Get get, char const* what, u32 n )
    {
        if ( p.sink ) bar.set_ostream( os );
        if ( p.prefix ) bar.set_prefix( "epoch 1: " );
        if ( p.mini ) bar.set_min_update_time( 0.0 );
        if ( p.bar >= 0 ) bar.set_bar_size( p.bar );
        for ( int round = 0; round <= p.again; ++round )
        {
            u32 i = 0;
            for ( auto x : bar )
            {
                if ( i >= n ) violation( "too-many", "%s: more than %u visits", what, n );
                want( i, (long)get( x ), what );
                if ( p.suffix ) bar << " loss=" << i;
                if ( (int)i == p.set ) bar.manually_set_progress( p.to );
                ++i;
                if ( round == 0 && p.again && (int)i == p.stop ) break;
            }
            bool broken = round == 0 && p.again && p.stop >= 1 && (u32)p.stop <= n;
            if ( !broken && i != n ) violation( "left-out", "%s: %u of %u elements visited", what, i, n );
        }
    }
}

SCENARIO( U01, bar, 1 )
{
    Plan p;
    p.form = pick( 11, "form" ); p.n = draw_n(); p.sink = pick( 2, "stream" );
    p.suffix = chance( 1, 2, "suffix" ); p.prefix = chance( 1, 3, "prefix" ); p.mini = chance( 1, 2, "always draw" );
    p.again = chance( 1, 4, "again" ); p.stop = 1 + pick( 20, "stop" ); p.bar = pick( 4, "bar" ) == 3 ? (int)pick( 120, "bar size" ) : -1; p.stream = 0;
    p.set = chance( 1, 4, "set progress" ) ? (int)pick( 20, "when" ) : -1; p.to = ( (int)pick( 9, "to" ) - 2 ) / 4.0;
    long total = pick( 3, "total" ) == 0 ? (long)p.n / 2 : (long)pick( 800, "total" );
    LifeOpts o;
    o.clock = pick( 6, "clock" );
    switch ( pick( 6, "terminal" ) ) { case 0: o.tty_cols = 80; break; case 1: o.tty_cols = -1; break; case 2: o.tty_cols = pick( 45, "columns" ); break; case 3: o.tty_cols = 0; break; case 4: o.tty_cols = pick( 400, "columns" ); break; default: o.tty_cols = 30000 + pick( 35536, "columns" ); p.n %= 4; p.again = false; if ( p.form == 8 ) p.form = 0; break; }
    o.fill = pick( 2, "fill" ) ? 0xA5 : 0;
    o.max_steps = 400000000ull;
    static char const* names[] = { "trange(int)", "trange(unsigned long)", "trange(long,long)", "vector", "const vector", "rvalue vector", "list", "iterator pair", "nested", "iterator pair with total", "unsigned" };
    note( "%s n=%u clock=%d columns=%d%s", names[p.form], p.n, o.clock, o.tty_cols, p.again ? " twice" : "" );
    if ( o.tty_cols < 0 ) fault_fired( FK_TTY );
    Outcome r = life( o, [&]
    {
        std::ostringstream os;
        std::vector<int> v; std::list<int> l;
        { Rt rt; for ( u32 i = 0; i < p.n; ++i ) { v.push_back( i ); l.push_back( i ); } }
        auto id = []( auto x ) { return (long)x; };
        // garbage left on the stack by whatever ran before
        { volatile char junk[2048]; for ( unsigned i = 0; i < sizeof junk; ++i ) junk[i] = (char)o.fill; }
        switch ( p.form )
        {
            case 0: { auto b = tq::trange( (int)p.n ); loop( b, p, os, id, "trange(int)", p.n ); break; }
            case 1: { auto b = tq::trange( (unsigned long)p.n ); loop( b, p, os, id, "trange(unsigned long)", p.n ); break; }
            case 2: { auto b = tq::trange( -7l, (long)p.n - 7 ); loop( b, p, os, []( long x ) { return x + 7; }, "trange(long,long)", p.n ); break; }
            case 3: { auto b = tq::dm( v ); loop( b, p, os, id, "vector", p.n ); break; }
            case 4: { std::vector<int> const& c = v; auto b = tq::dm_for_lvalues<std::vector<int>::const_iterator>( c ); loop( b, p, os, id, "const vector", p.n ); break; }
            case 5: { auto b = tq::dm( std::vector<int>( v ) ); Plan q = p; q.again = false; loop( b, q, os, id, "rvalue vector", p.n ); break; }
            case 6: { auto b = tq::dm( l ); loop( b, p, os, id, "list", p.n ); break; }
            case 7: { auto b = tq::dm( v.begin(), v.end() ); loop( b, p, os, id, "iterator pair", p.n ); break; }
            case 8:
            {
                u32 outer = 0;
                for ( int i : tq::trange( 3 ) )
                {
                    want( outer++, i, "outer" );
                    auto b = tq::trange( p.n ); loop( b, p, os, id, "inner", p.n );
                }
                if ( outer != 3 ) violation( "left-out", "outer loop: %u of 3", outer );
                break;
            }
            case 9: { auto b = tq::dm( v.begin(), v.end(), (tq::index)total ); loop( b, p, os, id, "iterator pair with total", p.n ); break; }
            default: { auto b = tq::trange( p.n ); loop( b, p, os, id, "trange(unsigned)", p.n ); break; }
        }
        out_u( 1 );
    } );
    if ( r.kind != RET ) violation( "loop-fails", "the loop ends as %s %s", kind_name( r.kind ), r.what.c_str() );
    if ( r.max_live > ( 64ul << 20 ) ) violation( "unreasonable-memory", "the loop allocates %lu bytes", (unsigned long)r.max_live );
    cover( std::string( names[p.form] ) + " clock " + std::to_string( o.clock ) + ( o.tty_cols < 0 ? " no terminal" : o.tty_cols < 40 ? " narrow" : o.tty_cols > 1000 ? " very wide" : " ordinary" ) );
    nontrivial();
}

SCENARIO( U01, timer, 1 )
{
    // a loop over a period of time ends when the clock says that it is over, and not before
    double seconds = pick( 400, "duration" ) / ( pick( 2, "short" ) ? 100000.0 : 8000.0 );
    bool bar = chance( 2, 3, "bar" ), suffix = chance( 1, 2, "suffix" ), mini = chance( 1, 2, "always draw" );
    LifeOpts o; static int const clocks[] = { 0, 1, 2 }; o.clock = clocks[pick( 3, "clock" )];
    if ( mini && seconds > 0.004 ) seconds = 0.004;
    switch ( pick( 4, "terminal" ) ) { case 0: o.tty_cols = 80; break; case 1: o.tty_cols = -1; break; case 2: o.tty_cols = pick( 45, "columns" ); break; default: o.tty_cols = pick( 400, "columns" ); }
    o.max_steps = 400000000ull;
    note( "timer %g s clock=%d columns=%d%s", seconds, o.clock, o.tty_cols, bar ? "" : " without bar" );
    if ( o.tty_cols < 0 ) fault_fired( FK_TTY );
    Outcome r = life( o, [&]
    {
        std::ostringstream os; unsigned long visits = 0; double last = 0;
        auto t0 = std::chrono::steady_clock::now();
        auto seen = [&]( double t ) { ++visits; if ( t < last ) violation( "timer-backwards", "visit %lu is at %g s, the one before at %g s", visits, t, last ); last = t; };
        if ( bar )
        {
            auto d = tq::dm( tq::timer( seconds ) );
            d.set_ostream( os ); if ( mini ) d.set_min_update_time( 0.0 );
            for ( auto t : d ) { seen( t ); if ( suffix ) d << " visit " << visits; }
        }
        else for ( auto t : tq::timer( seconds ) ) seen( t );
        double gone = std::chrono::duration<double>( std::chrono::steady_clock::now() - t0 ).count();
        if ( gone < seconds ) violation( "too-early", "a loop of %g s ends after %g s", seconds, gone );
        out_u( visits );
    } );
    if ( r.kind != RET ) violation( "loop-fails", "the loop ends as %s %s", kind_name( r.kind ), r.what.c_str() );
    if ( r.max_live > ( 64ul << 20 ) ) violation( "unreasonable-memory", "the loop allocates %lu bytes", (unsigned long)r.max_live );
    cover( std::string( "timer" ) + ( bar ? " bar" : "" ) + " clock " + std::to_string( o.clock ) );
    count( "timed_visits", r.log.u() ); nontrivial();
}
