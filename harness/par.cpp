// P01, P03: the parallel loop and for_each under the simulated scheduler.
#include CERAS_HPP
#include "sim.hpp"
using namespace sim;

namespace
{
    struct Shape { unsigned long first, len, threshold; int form; bool at_end = false; };

    Shape draw_shape( int cores )
    {
        Shape s;
        switch ( pick( 200, "lenclass" ) % 7 )
        {
            case 6: s.len = pick( 20, "longer" ) ? pick( 5000, "len" ) : pick( 90000, "len" ); break;
            case 0: s.len = pick( 12, "len" ); break;
            case 1: s.len = cores + pick( 5, "len" ) - ( cores > 2 ? 2 : 0 ); break;
            case 2: s.len = cores * ( 1 + pick( 5, "mul" ) ) + pick( 3, "len" ); break;
            case 3: s.len = pick( 70, "len" ); break;
            case 4: s.len = 9 + pick( 30, "len" ); break;
            default: s.len = pick( 300, "len" ); break;
        }
        switch ( pick( 5, "firstclass" ) )
        {
            case 0: case 1: s.first = 0; break;
            case 2: s.first = pick( 40, "first" ); break;
            case 3: s.first = 1000000007ul * ( 1 + pick( 100, "first" ) ); break;
            default: s.first = pick( 40, "from the end" ); s.at_end = true; break;        // the last index is (almost) the largest of its type
        }
        static unsigned long const th[] = { 8, 0, 1, 3, 16, 100 };
        s.threshold = th[pick( 6, "threshold" )];
        s.form = pick( 9, "form" );
        if ( s.len > 5000 && s.form > 4 && s.form < 8 ) s.form = 1;
        return s;
    }

    // runs the loop, checks the calls
    template< typename Int > void body( Shape s, bool with_first, bool with_threshold, bool alone = true )
    {
        std::vector<unsigned char> hits;        // plain memory: unsynchronised double calls are races as well
        unsigned long const most = std::numeric_limits<Int>::max();
        if ( s.len > most ) s.len = most;
        unsigned long first = with_first ? s.first : 0;
        if ( with_first && s.at_end ) first = first + s.len > most ? most - s.len : most - s.len - first;
        else if ( first > most - s.len ) first %= most - s.len + 1;
        { Rt rt; hits.assign( s.len, 0 ); }
        auto fn = [&]( auto i )
        {
            unsigned long k = (unsigned long)i - first;
            if ( k >= s.len ) violation( "index-outside", "index %lu is outside [%lu,%lu)", (unsigned long)i, first, first + s.len );
            unsigned char v = hits[k];
            hits[k] = v + 1;
        };
        if ( with_first && with_threshold ) ceras::parallel( fn, (Int)first, (Int)( first + s.len ), s.threshold );
        else if ( with_first ) ceras::parallel( fn, (Int)first, (Int)( first + s.len ) );
        else ceras::parallel( fn, (Int)s.len );
        if ( alone && live_threads() != 1 ) violation( "workers-left", "%d workers still run when the loop has returned", live_threads() - 1 );
        for ( unsigned long k = 0; k < s.len; ++k )
        {
            unsigned char h = hits[k];
            if ( h != 1 ) violation( h ? "index-repeated" : "index-left-out", "index %lu of [%lu,%lu) was done %d times", first + k, first, first + s.len, h );
        }
    }

    void one_shape( Shape const& s )
    {
        switch ( s.form )
        {
            case 0: body<unsigned long>( s, false, false ); break;
            case 1: body<unsigned long>( s, true, true ); break;
            case 2: body<unsigned long>( s, true, false ); break;
            case 3: body<unsigned int>( s, true, true ); break;
            case 4: body<unsigned short>( s, true, true ); break;
            case 5: body<unsigned char>( s, true, true ); break;
            case 6:
            {   // a loop inside a loop
                unsigned long const rows = s.len % 11, cols = 3 + s.len % 17;
                std::vector<int> c; { Rt rt; c.assign( rows * cols, 0 ); }
                ceras::parallel( [&]( unsigned long r ) { ceras::parallel( [&]( unsigned long k ) { c[r * cols + k] += 1; }, 0ul, cols, s.threshold ); }, 0ul, rows, s.threshold % 4 );
                if ( live_threads() != 1 ) violation( "workers-left", "%d workers still run when the loop has returned", live_threads() - 1 );
                for ( unsigned long i = 0; i < c.size(); ++i ) if ( c[i] != 1 ) violation( c[i] ? "index-repeated" : "index-left-out", "nested loops: element %lu of %lu x %lu was done %d times", i, rows, cols, c[i] );
                break;
            }
            case 7:
            {   // two threads of the program, each with a loop of its own
                Shape t = s; t.len = ( t.len * 7 + 5 ) % 90; t.threshold = 8 - t.threshold % 8;
                std::thread other( [&]{ body<unsigned long>( t, true, true, false ); } );
                body<unsigned long>( s, true, true, false );
                other.join();
                if ( live_threads() != 1 ) violation( "workers-left", "%d workers still run when both loops have returned", live_threads() - 1 );
                break;
            }
            default:
            {   // for_each over two and three ranges, containers without synchronisation
                std::vector<int> a, b, c;
                { Rt rt; for ( unsigned long i = 0; i < s.len; ++i ) { a.push_back( i * 3 ); b.push_back( i + 7 ); c.push_back( 0 ); } }
                ceras::for_each( a.begin(), a.end(), b.begin(), c.begin(), []( int x, int y, int& z ) { z += x * 2 + y; } );
                if ( live_threads() != 1 ) violation( "workers-left", "%d workers still run when for_each has returned", live_threads() - 1 );
                for ( unsigned long i = 0; i < s.len; ++i )
                    if ( c[i] != (int)( i * 6 + i + 7 ) ) violation( c[i] ? "index-repeated" : "index-left-out", "for_each: element %lu of %lu has %d", i, s.len, c[i] );
                ceras::for_each( a.begin(), a.end(), c.begin(), []( int x, int& z ) { z -= x; } );
                for ( unsigned long i = 0; i < s.len; ++i )
                    if ( c[i] != (int)( i * 4 + 7 ) ) violation( "index-repeated", "for_each: element %lu of %lu has %d", i, s.len, c[i] );
            }
        }
    }
    // A range of more than 2^32 indices, in the binary without instrumentation (so that this takes seconds, not minutes): threads switch
    // at their start, end and joins only, and the calls are checked through their number, their sum and the sum of their squares.
    struct Tally
    {
        unsigned long n = 0, sum = 0, squares = 0, first, last; bool outside = false;
        void add( unsigned long i ) { ++n; sum += i; squares += i * i; outside |= i < first || i >= last; }
    };
    void huge( unsigned long first, unsigned long len )
    {
        Tally t; t.first = first; t.last = first + len;
        Tally* p = &t;
        ceras::parallel( [p]( unsigned long i ) { p->add( i ); }, first, first + len );
        if ( live_threads() != 1 ) violation( "workers-left", "%d workers still run when the loop has returned", live_threads() - 1 );
        if ( t.outside ) violation( "index-outside", "an index outside [%lu,%lu) was done", first, first + len );
        if ( t.n != len ) violation( t.n < len ? "index-left-out" : "index-repeated", "%lu calls for the %lu indices from %lu", t.n, len, first );
        unsigned long sum = 0, squares = 0;
        {   // closed forms modulo 2^64, by way of 128 bits
            unsigned __int128 const a = first, n = len;
            sum = (unsigned long)( n * a + n * ( n - 1 ) / 2 );
            unsigned __int128 x = n - 1, y = n, z = 2 * n - 1;      // sum of k*k for k < n is x*y*z/6
            ( x % 2 ? y : x ) /= 2;
            if ( x % 3 == 0 ) x /= 3; else if ( y % 3 == 0 ) y /= 3; else z /= 3;
            squares = (unsigned long)( n * a * a + a * n * ( n - 1 ) + x * y * z );
        }
        if ( t.sum != sum || t.squares != squares ) violation( "index-repeated", "the %lu calls from %lu are not one for each index", len, first );
    }
    char const* form_name( Shape const& s ) { static char const* n[] = { "from0", "range+threshold", "range", "uint", "ushort", "uchar", "nested", "two callers", "for_each" }; return n[s.form]; }
}

SCENARIO( P01, loop, 1 )
{
    LifeOpts o; default_sched( o );
#ifdef PLAIN
    if ( pick( 4000, "huge" ) == 3999 )
    {
        unsigned long const len = ( 1ul << 32 ) + ( chance( 2, 3, "just above" ) ? pick( o.cores + 2, "len" ) : pick( 300, "len" ) - 150 ), first = pick( 2, "first" ) ? pick( 1000, "first" ) : 0;
        note( "loop [%lu,+%lu) on %d processors", first, len, o.cores );
        Outcome r = life( o, [&] { huge( first, len ); } );
        if ( r.kind != RET ) violation( "failure", "the loop fails: %s %s", kind_name( r.kind ), r.what.c_str() );
        cover( "more than 2^32 indices" ); nontrivial(); nontrivial(); count( "huge_loops" );
        return;
    }
#endif
    unsigned n = 1 + pick( 3, "loops" );
    std::vector<Shape> ss;
    for ( unsigned i = 0; i < n; ++i ) { ss.push_back( draw_shape( o.cores ) ); note( "loop %s [%lu%s,+%lu) threshold %lu on %d processors", form_name( ss.back() ), ss.back().first, ss.back().at_end ? " from the end" : "", ss.back().len, ss.back().threshold, o.cores ); }
    Outcome r = life( o, [&] { for ( auto& s : ss ) one_shape( s ); } );
    if ( r.kind != RET ) violation( "failure", "the loop fails: %s %s", kind_name( r.kind ), r.what.c_str() );
    cover( std::string( form_name( ss[0] ) ) + ( ss[0].len <= 8 ? " sequential" : ss[0].len <= (unsigned)o.cores ? " one-per-thread" : " sliced" ) + " sched" + std::to_string( o.sched ) );
}

SCENARIO( P03, loop, 3 )
{
    LifeOpts o; default_sched( o ); if ( o.cores == 1 ) o.cores = 2 + pick( 6, "processors" );
    unsigned n = 1 + pick( 3, "loops" );
    std::vector<Shape> ss;
    for ( unsigned i = 0; i < n; ++i ) { ss.push_back( draw_shape( o.cores ) ); note( "loop %s [%lu%s,+%lu) threshold %lu on %d processors", form_name( ss.back() ), ss.back().first, ss.back().at_end ? " from the end" : "", ss.back().len, ss.back().threshold, o.cores ); }
    if ( pick( 3, "how" ) == 2 ) o.thread_fail_rate = 1 + pick( 500, "rate" );
    else { o.thread_fail_at = pick( o.cores * n + 2, "refused" ); static long const len[] = { 1, 1, 3, 1000000 }; o.thread_fail_len = len[pick( 4, "length" )]; }
    Outcome r = life( o, [&] { for ( auto& s : ss ) one_shape( s ); } );
    if ( r.kind == HANG ) violation( "hang", "after a refused thread: %s", r.what.c_str() );
    if ( r.kind == SIGV ) violation( "memory", "%s", r.what.c_str() );
    if ( r.thread_faults == 0 ) { if ( r.kind != RET ) violation( "failure", "the loop fails: %s %s", kind_name( r.kind ), r.what.c_str() ); count( "nothing_refused" ); return; }
    fault_fired( FK_THREAD, r.thread_faults );
    count( r.kind == RET ? "coped" : "failed_visibly" ); nontrivial();
    cover( std::string( "P03 " ) + form_name( ss[0] ) + ( r.kind == RET ? " coped" : " failed" ) );
}
