// C06 tensor text files, C07 compressed streams, C08 data-set files.
#include CERAS_HPP
#include "sim.hpp"
#include <algorithm>
#include <cstring>
#include <fstream>
#include <set>
#include <sstream>
using namespace sim;

namespace
{
    LifeOpts base_opts() { LifeOpts o; return o; }
    void draw_soft( LifeOpts& o )
    {
        if ( chance( 1, 3, "soft" ) ) { o.r_eintr = 30 * pick( 10, "eintr" ); o.r_short = 60 * pick( 12, "short" ); }
    }
    void draw_hard( LifeOpts& o, u32 ops, u32 bytes )
    {
        switch ( pick( 4, "fault kind" ) )
        {
            case 0: o.fail_op = pick( ops, "fail at" ); o.fail_len = 1; break;
            case 1: o.fail_op = pick( ops, "fail at" ); o.fail_len = 1000000; break;
            case 2: o.disk_budget = pick( bytes, "space" ); break;
            default: { u32 q = 20 + pick( 150, "rate" ); o.r_read_eio = pick( 2, "r" ) * q; o.r_open = pick( 2, "r" ) * q; o.r_eio = pick( 2, "r" ) * q; o.r_close = pick( 2, "r" ) * q; break; }
        }
    }
}

// =================================================================================================== C06
namespace
{
    typedef std::vector<unsigned long> Shape;
    template< typename F > F value( Prng& r, int c )
    {
        int const emin = sizeof( F ) == 4 ? -37 : -307, emax = sizeof( F ) == 4 ? 38 : 308;
        switch ( c )
        {
            case 0: return (F)r.range( -1, 1 );
            case 1: return (F)( (int)r.below( 7 ) - 3 );
            case 2: return (F)( r.range( -1, 1 ) * std::pow( 10.0, r.range( emin, emax ) ) );
            case 3:
                for ( ;; )
                {
                    u64 b = r.next(); F f; std::memcpy( &f, &b, sizeof f );
                    u64 e = sizeof( F ) == 4 ? ( b >> 23 ) & 0xFF : ( b >> 52 ) & 0x7FF, top = sizeof( F ) == 4 ? 0xFF : 0x7FF;
                    if ( e != 0 && e != top ) return f;
                }
            case 4: { static F const v[] = { F( 0 ), -F( 0 ), F( 1 ), std::numeric_limits<F>::min(), std::numeric_limits<F>::max(), -std::numeric_limits<F>::max(), F( 0.1 ), F( 1 ) + std::numeric_limits<F>::epsilon(), F( 1 ) / 3 }; return v[r.below( 9 )]; }
            default: return F( 1 ) + std::numeric_limits<F>::epsilon() * (F)r.below( 1000 );
        }
    }
    template< typename F > void text_tensor()
    {
        typedef ceras::tensor<F> T;
        Shape s; unsigned long n = 1;
        unsigned rank = 1 + pick( 4, "rank" );
        for ( unsigned k = 0; k < rank; ++k ) { s.push_back( 1 + pick( rank > 2 ? 4 : 12, "dim" ) ); n *= s.back(); }
        if ( pick( 10, "large" ) == 9 ) { s = { 30ul + pick( 40, "dim" ), 50ul }; n = s[0] * 50; }
        int vc = pick( 6, "values" );
        u64 seed = raw_seed( "values" );
        std::string want, shape;
        { Prng r( seed ); for ( unsigned long i = 0; i < n; ++i ) { F f = value<F>( r, vc ); want.append( (char*)&f, sizeof f ); } }
        for ( auto d : s ) shape += std::to_string( d ) + " ";
        note( "tensor of shape %s values %d, %lu bytes each", shape.c_str(), vc, (unsigned long)sizeof( F ) );
        auto save = [&] { faults( false ); T t{ s }; { Rt rt; std::memcpy( t.data(), want.data(), want.size() ); } faults( true ); ceras::save_tensor( "t.txt", t ); faults( false ); };
        unsigned into = pick( 4, "into" );                    // a new tensor, or one that has another shape, or this shape, already
        Shape other = s; if ( into == 1 ) { std::reverse( other.begin(), other.end() ); if ( chance( 1, 2, "split" ) ) other.push_back( 1 ); } else if ( into == 2 ) { other = { n + pick( 3, "more" ) }; }
        auto load = [&]
        {
            faults( false ); T t{ other }; faults( true );
            if ( into == 0 ) t = ceras::load_tensor<F>( "t.txt" );
            else { std::ifstream f( "t.txt" ); ceras::read_tensor( f, t ); }
            faults( false );
            std::string b, sh;
            { Rt rt; b.assign( (char const*)t.data(), t.size() * sizeof( F ) ); for ( auto d : t.shape() ) sh += std::to_string( d ) + " "; }
            out_s( b ); out_s( sh );
        };
        auto diff = [&]( std::string const& got, std::string const& sh )
        {
            char b[300];
            if ( sh != shape ) { std::snprintf( b, sizeof b, "the shape is %s instead of %s", sh.c_str(), shape.c_str() ); return std::string( b ); }
            for ( unsigned long i = 0; i < n; ++i )
                if ( got.size() != want.size() || std::memcmp( &got[i * sizeof( F )], &want[i * sizeof( F )], sizeof( F ) ) )
                { F x = 0, y; if ( got.size() == want.size() ) std::memcpy( &x, &got[i * sizeof( F )], sizeof( F ) ); std::memcpy( &y, &want[i * sizeof( F )], sizeof( F ) ); std::snprintf( b, sizeof b, "element %lu is %.17g instead of %.17g", i, (double)x, (double)y ); return std::string( b ); }
            return std::string();
        };
        bool write_faults = chance( 1, 3, "write faults" );
        LifeOpts o = base_opts(); draw_soft( o );
        if ( write_faults ) draw_hard( o, 5 + n * 10 / 8192, n * 12 + 10 );
        Outcome w = life( o, save );
        if ( w.kind != RET && w.kind != EXC && w.kind != ABORT ) violation( "ends-badly", "saving ends as %s %s", kind_name( w.kind ), w.what.c_str() );
        if ( w.kind != RET && !w.fs_faults ) violation( "failure-without-cause", "saving on a healthy disk ends as %s %s", kind_name( w.kind ), w.what.c_str() );
        if ( w.kind == RET )
        {
            LifeOpts q = base_opts(); draw_soft( q );
            Outcome l = life( q, load );
            if ( l.kind != RET ) violation( w.fs_faults ? "silent-failure" : "failure-without-cause", "the save returned, but reading back ends as %s %s", kind_name( l.kind ), l.what.c_str() );
            std::string got = l.log.s(), sh = l.log.s(), d = diff( got, sh );
            if ( !d.empty() ) violation( w.fs_faults ? "silent-failure" : "differs", "the save returned, but reading back, %s", d.c_str() );
        }
        cover( std::string( "save " ) + kind_name( w.kind ) + ( w.fs_faults ? " fault" : "" ) + " values " + std::to_string( vc ) );
        if ( w.kind != RET ) { Outcome again = life( base_opts(), save ); if ( again.kind != RET ) violation( "failure-without-cause", "saving on a healthy disk ends as %s", kind_name( again.kind ) ); }
        std::string whole, file;
        if ( !read_file( "t.txt", whole ) ) violation( "differs", "there is no file after a save" );
        unsigned rounds = 1 + pick( 4, "rounds" );
        for ( unsigned k = 0; k < rounds; ++k )
        {
            file = whole; bool only_safe = false, removed = false;
            LifeOpts q = base_opts(); draw_soft( q );
            int mode = pick( 6, "damage" );
            switch ( mode )
            {
                case 0: file.resize( whole.size() - 1 - pick( std::min<u32>( whole.size(), 24 ), "cut" ) ); fault_fired( FK_TRUNC ); break;
                case 1: file.resize( pick( whole.size(), "length" ) ); fault_fired( FK_TRUNC ); break;
                case 2: removed = true; break;
                case 3: draw_hard( q, 6, 100 ); break;
                case 4:
                {
                    Prng p( raw_seed( "edit" ) ); unsigned m = 1 + pick( 4, "edits" );
                    for ( unsigned i = 0; i < m && !file.empty(); ++i )
                    {
                        u32 at = p.below( pick( 2, "early" ) ? std::min<u32>( file.size(), 10 ) : file.size() );
                        switch ( pick( 4, "edit" ) ) { case 0: file[at] = (char)p.next(); break; case 1: file[at] = "0123456789 \n-.e"[p.below( 15 )]; break; case 2: file.erase( at, 1 + p.below( 6 ) ); break;
                            default: { static char const* t[] = { "99999999999999999", "-1 ", " ", "\n", "nan ", "18446744073709551615 ", "0 ", "4294967296 4294967296 " }; file.insert( at, t[p.below( 8 )] ); } }
                    }
                    only_safe = true; fault_fired( FK_FLIP ); break;
                }
                default: { Prng p( raw_seed( "garbage" ) ); file.clear(); unsigned m = pick( 200, "garbage" ); int g = pick( 3, "kind" ); for ( unsigned i = 0; i < m; ++i ) file.push_back( g == 0 ? (char)p.next() : g == 1 ? "0123456789 \n-.e"[p.below( 15 )] : '\n' ); only_safe = true; fault_fired( FK_FLIP ); }
            }
            if ( removed ) remove_file( "t.txt" ); else write_file( "t.txt", file );
            Outcome l = life( q, load );
            if ( l.kind != RET && l.kind != EXC && l.kind != ABORT ) violation( "ends-badly", "reading ends as %s %s", kind_name( l.kind ), l.what.c_str() );
            bool damaged = removed || file != whole || l.fs_faults;
            if ( l.kind == RET && !only_safe )
            {
                if ( removed ) violation( "read-as-whole", "a missing file is read as if it were there" );
                std::string got = l.log.s(), sh = l.log.s(), d = diff( got, sh );
                if ( !d.empty() ) violation( damaged ? "read-as-whole" : "differs", "reading a %s file returns, but %s", damaged ? "damaged" : "whole", d.c_str() );
            }
            if ( l.kind != RET && !damaged ) violation( "failure-without-cause", "reading a whole file ends as %s %s", kind_name( l.kind ), l.what.c_str() );
            cover( "damage " + std::to_string( mode ) + " " + kind_name( l.kind ) );
        }
    }
}
#ifndef CERAS_SIM_LZW_DMS
namespace
{
    // several tensors one after the other in one stream, read into the same tensor
    template< typename F > void text_stream()
    {
        typedef ceras::tensor<F> T;
        unsigned k = 1 + pick( 5, "tensors" );
        std::vector<Shape> shapes; std::vector<std::string> want, names; unsigned long bytes = 0;
        for ( unsigned q = 0; q < k; ++q )
        {
            Shape s; unsigned rank = 1 + pick( 3, "rank" ); unsigned long n = 1;
            for ( unsigned d = 0; d < rank; ++d ) { s.push_back( 1 + pick( 4, "dim" ) ); n *= s.back(); }
            if ( q && chance( 1, 3, "reversed" ) ) { s = shapes.back(); std::reverse( s.begin(), s.end() ); n = 1; for ( auto d : s ) n *= d; }
            Prng r( raw_seed( "values" ) ); std::string w, sh; int vc = pick( 6, "values" );
            for ( unsigned long i = 0; i < n; ++i ) { F f = value<F>( r, vc ); w.append( (char*)&f, sizeof f ); }
            for ( auto d : s ) sh += std::to_string( d ) + " ";
            shapes.push_back( s ); want.push_back( w ); names.push_back( sh ); bytes += n * 12 + 10;
            note( "tensor %u of shape %s", q, sh.c_str() );
        }
        bool one = chance( 1, 2, "same tensor" );
        auto save = [&]
        {
            std::ofstream f( "s.txt" ); f.precision( std::numeric_limits<F>::max_digits10 );
            for ( unsigned q = 0; q < k; ++q ) { faults( false ); T t{ shapes[q] }; { Rt rt; std::memcpy( t.data(), want[q].data(), want[q].size() ); } faults( true ); ceras::write_tensor( f, t ); }
            f.close(); out_u( f.good() );
        };
        LifeOpts o = base_opts(); draw_soft( o );
        if ( chance( 1, 4, "write faults" ) ) draw_hard( o, 6, bytes );
        Outcome w = life( o, save );
        if ( w.kind != RET && w.kind != EXC && w.kind != ABORT ) violation( "ends-badly", "writing ends as %s %s", kind_name( w.kind ), w.what.c_str() );
        if ( ( w.kind != RET || !w.log.u() ) ) { if ( !w.fs_faults ) violation( "failure-without-cause", "writing on a healthy disk ends as %s %s", kind_name( w.kind ), w.what.c_str() ); count( "write_failed" ); nontrivial(); return; }
        std::string whole; if ( !read_file( "s.txt", whole ) ) violation( "differs", "there is no file after writing" );
        bool cut = chance( 1, 3, "cut" ) && !whole.empty();
        if ( cut ) { whole.resize( pick( whole.size(), "length" ) ); write_file( "s.txt", whole ); fault_fired( FK_TRUNC ); }
        LifeOpts q = base_opts(); draw_soft( q );
        if ( chance( 1, 4, "read faults" ) ) draw_hard( q, 6, 100 );
        Outcome l = life( q, [&]
        {
            std::ifstream f( "s.txt" ); T all;
            for ( unsigned i = 0; i < k; ++i )
            {
                T mine; T& t = one ? all : mine;
                ceras::read_tensor( f, t );
                std::string b, sh;
                { Rt rt; b.assign( (char const*)t.data(), t.size() * sizeof( F ) ); for ( auto d : t.shape() ) sh += std::to_string( d ) + " "; }
                out_s( b ); out_s( sh );
            }
        } );
        if ( l.kind != RET && l.kind != EXC && l.kind != ABORT ) violation( "ends-badly", "reading ends as %s %s", kind_name( l.kind ), l.what.c_str() );
        if ( l.kind != RET && !cut && !l.fs_faults ) violation( "failure-without-cause", "reading the whole stream ends as %s %s", kind_name( l.kind ), l.what.c_str() );
        for ( unsigned i = 0; i < k && l.log.more(); ++i )
        {
            std::string b = l.log.s(), sh = l.log.s();
            if ( sh != names[i] ) violation( cut ? "read-as-whole" : "differs", "tensor %u of the stream has the shape %s instead of %s", i, sh.c_str(), names[i].c_str() );
            if ( b != want[i] ) violation( cut ? "read-as-whole" : "differs", "tensor %u of the stream comes back with other values", i );
            count( "stream_tensors_compared" );
        }
        cover( std::string( "stream " ) + kind_name( l.kind ) + ( cut ? " cut" : "" ) );
        if ( cut || l.fs_faults ) nontrivial();
    }
}
SCENARIO( C06, stream_float, 1 ) { text_stream<float>(); }
SCENARIO( C06, stream_double, 1 ) { text_stream<double>(); }
SCENARIO( C06, text_float, 1 ) { text_tensor<float>(); }
SCENARIO( C06, text_double, 1 ) { text_tensor<double>(); }
#endif

// =================================================================================================== C07
namespace
{
    struct Source : std::streambuf           // hands out its bytes in pieces, may fail or stop
    {
        std::string b; size_t at = 0; u32 piece; long fail_at; int how; bool failed = false;
        Source( std::string const& s, u32 p, long f, int h ) : b( s ), piece( p ), fail_at( f ), how( h ) {}
        int_type underflow() override
        {
            if ( gptr() < egptr() ) return traits_type::to_int_type( *gptr() );
            if ( fail_at >= 0 && (long)at >= fail_at ) { failed = true; if ( how == 0 ) return traits_type::eof(); throw std::runtime_error( "source broken" ); }
            if ( at >= b.size() ) return traits_type::eof();
            size_t n = std::min<size_t>( piece, b.size() - at );
            if ( fail_at >= 0 ) n = std::min<size_t>( n, fail_at - at );
            setg( &b[at], &b[at], &b[at] + n ); at += n;
            return traits_type::to_int_type( *gptr() );
        }
    };
    struct Sink : std::streambuf
    {
        std::string b; u32 piece; long fail_at; int how; bool failed = false;
        Sink( u32 p, long f, int h ) : piece( p ), fail_at( f ), how( h ) {}
        bool room( size_t n ) { if ( fail_at >= 0 && (long)( b.size() + n ) > fail_at ) { failed = true; if ( how ) throw std::runtime_error( "sink broken" ); return false; } return true; }
        int_type overflow( int_type c ) override { if ( c == traits_type::eof() ) return traits_type::not_eof( c ); if ( !room( 1 ) ) return traits_type::eof(); { Rt rt; b.push_back( (char)c ); } return c; }
        std::streamsize xsputn( char const* s, std::streamsize n ) override { std::streamsize k = 0; for ( ; k < n; ++k ) if ( traits_type::eq_int_type( overflow( traits_type::to_int_type( s[k] ) ), traits_type::eof() ) ) break; return k; }
    };
    std::string content( bool big )
    {
        std::string s; unsigned n;
        switch ( pick( 5, "lenclass" ) ) { case 0: n = pick( 6, "len" ); break; case 1: n = pick( 60, "len" ); break; case 2: n = pick( 700, "len" ); break; case 3: n = pick( 3000, "len" ); break; default: n = 1000 + pick( 9000, "len" ); }
        if ( big ) n = 1500000 + pick( 3000000, "len" );
        Prng r( raw_seed( "content" ) );
        int c = pick( 7, "content" );
        static char const* names[] = { "zeros", "random", "two letters", "digits", "periodic", "runs", "all bytes in turn" };
        unsigned per = 1 + pick( 20, "period" );
        for ( unsigned i = 0; i < n; ++i )
            switch ( c )
            {
                case 0: s.push_back( 0 ); break;
                case 1: s.push_back( (char)r.next() ); break;
                case 2: s.push_back( "ab"[r.below( 2 )] ); break;
                case 3: s.push_back( "0123456789 .-e\n"[r.below( 15 )] ); break;
                case 4: s.push_back( i < per ? (char)r.next() : s[i - per] ); break;
                case 5: s.push_back( i && r.below( 30 ) ? s[i - 1] : (char)r.next() ); break;
                default: s.push_back( (char)i ); break;
            }
        note( "content: %u bytes, %s", n, names[c] );
        cover( std::string( names[c] ) + ( n > 3000 ? " long" : n > 200 ? " middle" : " short" ) );
        return s;
    }
    u32 piece() { switch ( pick( 3, "piece" ) ) { case 0: return 1u << 20; case 1: return 1 + pick( 7, "size" ); default: return 1 + pick( 600, "size" ); } }
    struct Res { bool exc = false; int ret = 0; bool in_bad = false, out_bad = false, fired = false; };
    struct Job { u32 ip, op; long fi = -1, fo = -1; int hi = 0, ho = 0; };

    // runs in a lifetime
    Res expand( std::string const& in, Job const& j, std::string& out )
    {
        Source src( in, j.ip, j.fi, j.hi ); Sink dst( j.op, j.fo, j.ho );
        std::istream is( &src ); std::ostream os( &dst );
        Res r;
        try { r.ret = lzw::decompress( is, os ); } catch ( std::exception const& ) { r.exc = true; }
        r.in_bad = is.bad(); r.out_bad = !os.good(); r.fired = src.failed || dst.failed;
        Rt rt; out = dst.b;
        return r;
    }
    Res pack( std::string const& in, Job const& j, std::string& out )
    {
        Source src( in, j.ip, j.fi, j.hi ); Sink dst( j.op, j.fo, j.ho );
        std::istream is( &src ); std::ostream os( &dst );
        Res r;
        try { lzw::compress( is, os ); } catch ( std::exception const& ) { r.exc = true; }
        r.in_bad = is.bad(); r.out_bad = !os.good(); r.fired = src.failed || dst.failed;
        Rt rt; out = dst.b;
        return r;
    }
    void put( Res const& r, std::string const& s ) { out_u( r.exc ); out_u( (u64)(long)r.ret ); out_u( r.in_bad ); out_u( r.out_bad ); out_u( r.fired ); out_s( s ); }
    Res take( Log& l, std::string& s ) { Res r; r.exc = l.u(); r.ret = (int)(long)l.u(); r.in_bad = l.u(); r.out_bad = l.u(); r.fired = l.u(); s = l.s(); return r; }
    bool visible( Res const& r ) { return r.exc || r.ret != 0 || r.in_bad || r.out_bad; }
    std::string diff( std::string const& a, std::string const& b )
    {
        char t[200]; size_t i = 0; while ( i < a.size() && i < b.size() && a[i] == b[i] ) ++i;
        if ( i == a.size() && i == b.size() ) return "";
        std::snprintf( t, sizeof t, "%lu bytes instead of %lu, first difference at %lu", a.size(), b.size(), i );
        return t;
    }
    std::string packed( std::string const& s )
    {
        Job j{ piece(), 1u << 20 };
        std::string c;
        Outcome r = life( base_opts(), [&] { std::string o; Res x = pack( s, j, o ); put( x, o ); } );
        if ( r.kind != RET ) violation( "pack-fails", "compressing ends as %s %s", kind_name( r.kind ), r.what.c_str() );
        Res x = take( r.log, c );
        if ( visible( x ) ) violation( "pack-fails", "compressing fails on healthy streams" );
        return c;
    }
    void round_trip( bool big )
    {
        std::string s = content( big ), c = packed( s ), o;
        Job j{ piece(), piece() };
        bool second = chance( 1, 3, "twice in a process" );
        Outcome r = life( base_opts(), [&] { std::string t; if ( second ) { Res y = expand( c, j, t ); put( y, t ); } std::string u; Res x = expand( c, j, u ); put( x, u ); } );
        if ( r.kind != RET ) violation( "expand-fails", "expanding what the compressor produced ends as %s %s", kind_name( r.kind ), r.what.c_str() );
        for ( int k = 0; k <= second; ++k )
        {
            Res x = take( r.log, o );
            if ( visible( x ) ) violation( "expand-fails", "expanding what the compressor produced fails (%s)", diff( o, s ).c_str() );
            std::string d = diff( o, s );
            if ( !d.empty() ) violation( "differs", "%s", d.c_str() );
        }
        nontrivial();
    }
}
SCENARIO( C07, round_trip, 40 ) { round_trip( false ); }
#ifndef CERAS_SIM_LZW_DMS
SCENARIO( C07, round_trip_big, 1 ) { round_trip( true ); }
#endif
SCENARIO( C07, broken_streams, 40 )
{
    std::string s = content( false );
    bool packing = chance( 1, 3, "break the compressor" );
    std::string c = packed( s ), o;
    std::string const& in = packing ? s : c;
    std::string const& out = packing ? c : s;
    Job j{ piece(), piece() };
    int where = pick( 3, "where" );
    if ( where == 0 ) { j.fi = pick( in.size() + 1, "at" ); j.hi = packing ? 1 : pick( 2, "how" ); }
    else if ( where == 1 ) { j.fo = pick( out.size() + 1, "at" ); j.ho = pick( 2, "how" ); }
    else { j.fi = in.size() - pick( std::min<u32>( in.size(), 5 ) + 1, "before the end" ); j.hi = packing ? 1 : pick( 2, "how" ); }
    note( "%s, input %s at %ld, output breaks at %ld", packing ? "compress" : "expand", j.hi ? "breaks" : "ends", j.fi, j.fo );
    if ( j.fi >= 0 ) fault_fired( j.hi ? FK_READ_EIO : FK_TRUNC ); else fault_fired( FK_EIO );
    Outcome r = life( base_opts(), [&] { std::string u; Res x = packing ? pack( in, j, u ) : expand( in, j, u ); put( x, u ); } );
    if ( r.kind != RET && r.kind != ABORT && r.kind != EXC ) violation( "ends-badly", "%s ends as %s %s", packing ? "compressing" : "expanding", kind_name( r.kind ), r.what.c_str() );
    nontrivial();
    cover( std::string( packing ? "pack " : "expand " ) + ( where == 1 ? "sink" : j.hi ? "source breaks" : "source ends" ) + " " + kind_name( r.kind ) );
    if ( r.kind != RET ) return;
    Res x = take( r.log, o );
    if ( visible( x ) ) return;
    std::string d = diff( o, out );
    if ( !d.empty() ) violation( "silent", "%s with a broken stream ends as an ordinary success with %s", packing ? "compressing" : "expanding", d.c_str() );
}
SCENARIO( C07, damaged_bytes, 40 )
{
    std::string s = content( false ), c = packed( s );
    Prng p( raw_seed( "damage" ) );
    int how = pick( 4, "how" );
    unsigned n = 1 + pick( 6, "count" );
    if ( how == 3 ) { c.clear(); n = pick( 2500, "length" ); int bias = pick( 3, "bias" ); for ( unsigned i = 0; i < n; ++i ) c.push_back( bias == 0 ? (char)p.next() : bias == 1 ? (char)0xFF : (char)( p.next() & p.next() & p.next() ) ); }
    else for ( unsigned i = 0; i < n && !c.empty(); ++i )
    {
        u32 at = p.below( c.size() );
        if ( how == 0 ) c[at] ^= 1 << p.below( 8 ); else if ( how == 1 ) c[at] = (char)p.next(); else c.erase( at, 1 + p.below( 3 ) );
    }
    fault_fired( FK_FLIP );
    Job j{ piece(), piece() };
    Outcome r = life( base_opts(), [&] { std::string u; Res x = expand( c, j, u ); out_u( visible( x ) ); } );
    if ( r.kind != RET && r.kind != ABORT && r.kind != EXC ) violation( "ends-badly", "expanding damaged data ends as %s %s", kind_name( r.kind ), r.what.c_str() );
    cover( std::string( "damage " ) + kind_name( r.kind ) );
    nontrivial();
}
SCENARIO( C07, files, 20 )
{
    std::string s = content( false ), c = packed( s ), o;
    bool packing = chance( 1, 2, "compress" );
    std::string const& out = packing ? c : s;
    LifeOpts q = base_opts(); draw_soft( q );
    if ( chance( 1, 2, "hard" ) ) draw_hard( q, 8, out.size() + 2 );
    write_file( "in", packing ? s : c );
    Outcome r = life( q, [&]
    {
        bool ok = true;
        {
            std::ifstream is( "in", std::ios::binary ); std::ofstream os( "out", std::ios::binary );
            ok = is.good() && os.good();
            if ( ok ) { if ( packing ) lzw::compress( is, os ); else ok = lzw::decompress( is, os ) == 0; os.close(); ok = ok && !is.bad() && os.good(); }
        }
        faults( false );
        out_u( ok );
    } );
    if ( r.kind != RET && r.kind != ABORT && r.kind != EXC ) violation( "ends-badly", "ends as %s %s", kind_name( r.kind ), r.what.c_str() );
    bool ok = r.kind == RET && r.log.u();
    cover( std::string( "files " ) + ( ok ? "ok" : "fails" ) + ( r.fs_faults ? " fault" : "" ) );
    if ( !ok && !r.fs_faults ) violation( "failure-without-cause", "%s fails though the disk only interrupted or split transfers", packing ? "compressing" : "expanding" );
    if ( !ok ) return;
    read_file( "out", o );
    std::string d = diff( o, out );
    if ( !d.empty() ) violation( "silent", "%s ends as an ordinary success with %s", packing ? "compressing" : "expanding", d.c_str() );
    nontrivial();
}

// =================================================================================================== C08
#ifndef CERAS_SIM_LZW_DMS
namespace
{
    char const* const set_files[] = { "train-images-idx3-ubyte", "train-labels-idx1-ubyte", "t10k-images-idx3-ubyte", "t10k-labels-idx1-ubyte" };
    void be32( std::string& s, u32 v ) { for ( int k = 3; k >= 0; --k ) s.push_back( (char)( v >> ( 8 * k ) ) ); }
    std::string images( u32 n, u64 seed ) { std::string s; be32( s, 2051 ); be32( s, n ); be32( s, 28 ); be32( s, 28 ); Prng r( seed ); for ( u32 i = 0; i < n * 784; ++i ) s.push_back( (char)r.next() ); return s; }
    std::string labels( u32 n, u64 seed ) { std::string s; be32( s, 2049 ); be32( s, n ); Prng r( seed ); for ( u32 i = 0; i < n; ++i ) s.push_back( (char)r.below( 10 ) ); return s; }
    std::string one_hot( std::string const& f ) { std::string s; for ( size_t i = 8; i < f.size(); ++i ) for ( int k = 0; k < 10; ++k ) s.push_back( f[i] == k ); return s; }
}
SCENARIO( C08, load, 1 )
{
    bool fashion = chance( 1, 2, "fashion" );
    u32 n1 = 1 + pick( 5, "training samples" ), n2 = 1 + pick( 3, "test samples" );
    if ( pick( 20, "empty" ) == 19 ) n2 = 0;
    u64 seed = raw_seed( "data" );
    std::string f[4] = { images( n1, seed ), labels( n1, seed + 1 ), images( n2, seed + 2 ), labels( n2, seed + 3 ) }, w[4];
    for ( int k = 0; k < 4; ++k ) w[k] = f[k];
    int mode = pick( 8, "damage" ), k = pick( 4, "file" );
    bool damaged = false, missing = false;
    LifeOpts o = base_opts(); draw_soft( o );
    o.fill = pick( 2, "fill" ) ? 0xA5 : 0;
    u32 head = k % 2 ? 8 : 16;
    switch ( mode )
    {
        case 0: break;
        case 1: w[k].resize( pick( w[k].size(), "length" ) ); fault_fired( FK_TRUNC ); break;
        case 2: w[k].resize( w[k].size() - 1 - pick( std::min<u32>( w[k].size(), 30 ), "cut" ) ); fault_fired( FK_TRUNC ); break;
        case 3: w[k] += std::string( 1 + pick( k % 2 ? 5 : 1700, "extra" ), (char)pick( 256, "byte" ) ); fault_fired( FK_FLIP ); break;
        case 4: missing = true; break;
        case 5: { k |= 1; if ( w[k].size() > 8 ) w[k][8 + pick( w[k].size() - 8, "at" )] = (char)( 10 + pick( 246, "label" ) ); fault_fired( FK_FLIP ); break; }
        case 6: draw_hard( o, 16, 100000 ); break;
        default: { u32 v = pick( 2, "announced" ) ? 0xFFFFFFFFu : pick( 20, "announced" ); for ( int b = 0; b < 4; ++b ) w[k][4 + b] = (char)( v >> ( 8 * ( 3 - b ) ) ); fault_fired( FK_FLIP ); }
    }
    (void)head;
    for ( int i = 0; i < 4; ++i ) { damaged = damaged || w[i] != f[i]; if ( !( missing && i == k ) ) write_file( set_files[i], w[i] ); }
    damaged = damaged || missing;
    int before = pick( 5, "loaded before" ); if ( before > 2 ) before = 0;
    std::string v[4]; if ( before ) { u32 m1 = pick( 2, "other size" ) ? n1 : 1 + pick( 5, "training samples" ), m2 = 1 + pick( 3, "test samples" ); v[0] = images( m1, seed + 10 ); v[1] = labels( m1, seed + 11 ); v[2] = images( m2, seed + 12 ); v[3] = labels( m2, seed + 13 ); }
    note( "%s, %u and %u samples, damage %d to %s", fashion ? "fashion_mnist" : "mnist", n1, n2, mode, mode ? set_files[k] : "none" );
    Outcome r = life( o, [&]
    {
        if ( before )
        {   // the same program has loaded other files of these names, which have been replaced
            faults( false );
            for ( int i = 0; i < 4; ++i ) write_file( set_files[i], v[i] );
            auto [a, b, c, d] = fashion == ( before == 1 ) ? ceras::dataset::fashion_mnist::load_data( "." ) : ceras::dataset::mnist::load_data( "." );
            ceras::tensor<std::uint8_t> const* t[] = { &a, &b, &c, &d };
            for ( int i = 0; i < 4; ++i ) { Rt rt; std::string const s( (char const*)t[i]->data(), t[i]->size() ); if ( s != ( i % 2 ? one_hot( v[i] ) : v[i].substr( 16 ) ) ) violation( "silent", "loading returns other samples than %s contains", set_files[i] ); }
            for ( int i = 0; i < 4; ++i ) if ( missing && i == k ) remove_file( set_files[i] ); else write_file( set_files[i], w[i] );
            faults( true );
        }
        auto [a, b, c, d] = fashion ? ceras::dataset::fashion_mnist::load_data( "." ) : ceras::dataset::mnist::load_data( "." );
        faults( false );
        ceras::tensor<std::uint8_t> const* t[] = { &a, &b, &c, &d };
        for ( auto p : t ) { std::string s, sh; { Rt rt; s.assign( (char const*)p->data(), p->size() ); for ( auto x : p->shape() ) sh += std::to_string( x ) + " "; } out_s( s ); out_s( sh ); }
    } );
    if ( r.kind != RET && r.kind != EXC && r.kind != ABORT ) violation( "ends-badly", "loading ends as %s %s", kind_name( r.kind ), r.what.c_str() );
    if ( r.kind != RET && !damaged && !r.fs_faults ) violation( "failure-without-cause", "loading whole files ends as %s %s", kind_name( r.kind ), r.what.c_str() );
    cover( "damage " + std::to_string( mode ) + " " + kind_name( r.kind ) + ( r.fs_faults ? " fault" : "" ) + ( before ? " again" : "" ) );
    nontrivial();
    if ( r.kind != RET ) return;
    if ( damaged ) violation( "silent", "loading a damaged data set (%s) returns as if it had succeeded", missing ? "missing file" : mode == 5 ? "impossible label" : mode == 3 ? "longer than announced" : mode == 7 ? "other number announced" : "short file" );
    for ( int i = 0; i < 4; ++i )
    {
        std::string s = r.log.s(), sh = r.log.s();
        u32 n = i < 2 ? n1 : n2;
        std::string ws = std::to_string( n ) + ( i % 2 ? " 10 " : " 28 28 " );
        if ( s != ( i % 2 ? one_hot( f[i] ) : f[i].substr( 16 ) ) || sh != ws ) violation( "silent", "loading returns other samples than %s contains", set_files[i] );
    }
}

// =================================================================================================== M02
// memory runs out while files are written or read
SCENARIO( M02, files, 1 )
{
    typedef ceras::tensor<float> T;
    enum { SAVE_T, LOAD_T, SET, PACK, UNPACK, OPS };
    static char const* const nm[] = { "saving a tensor", "loading a tensor", "loading a data set", "compressing", "expanding" };
    int const op = pick( OPS, "operation" );
    u32 n1 = 1 + pick( 4, "training samples" ), n2 = 1 + pick( 3, "test samples" ), rows = 1 + pick( 40, "rows" );
    u64 seed = raw_seed( "data" );
    std::string f[4] = { images( n1, seed ), labels( n1, seed + 1 ), images( n2, seed + 2 ), labels( n2, seed + 3 ) };
    for ( int k = 0; k < 4; ++k ) write_file( set_files[k], f[k] );
    std::string const plain = content( false );
    write_file( "p", plain );
    static long const lens[] = { 1, 2, 4, 1000000 };
    long const len = lens[pick( 4, "length" )];
    u32 const sel = pick( 1000, "allocation" );
    note( "memory ends %u/1000 into %s, for %ld allocations", sel, nm[op], len );
    LifeOpts o = base_opts(); o.reuse = chance( 1, 2, "reuse" );
    Outcome r = life( o, [&]
    {
        T t{ { rows, 5 } }; { Rt rt; Prng q( seed + 9 ); for ( unsigned long i = 0; i < t.size(); ++i ) t.data()[i] = (float)q.range( -1, 1 ); }
        auto bytes = [&]( auto const& x ) { Rt rt; return std::string( (char const*)x.data(), x.size() * sizeof( *x.data() ) ); };
        std::string const mine = bytes( t );
        ceras::save_tensor( "t", t ); ceras::save_tensor( "u", t );
        { std::ifstream is( "p", std::ios::binary ); std::ofstream os( "c", std::ios::binary ); lzw::compress( is, os ); }
        // returns what the operation gave, in its bytes; "" when it failed visibly
        auto work = [&]() -> std::string
        {
            switch ( op )
            {
                case SAVE_T: ceras::save_tensor( "u", t ); return "saved";
                case LOAD_T: { T x = ceras::load_tensor<float>( "t" ); return bytes( x ); }
                case SET:
                {
                    auto [a, b, c, d] = ceras::dataset::mnist::load_data( "." );
                    return bytes( a ) + bytes( b ) + bytes( c ) + bytes( d );
                }
                case PACK: { std::ifstream is( "p", std::ios::binary ); std::ofstream os( "d", std::ios::binary ); lzw::compress( is, os ); os.close(); return !is.bad() && os.good() ? "packed" : ""; }
                default: { std::ifstream is( "c", std::ios::binary ); std::ofstream os( "e", std::ios::binary ); int k = lzw::decompress( is, os ); os.close(); return k == 0 && !is.bad() && os.good() ? "expanded" : ""; }
            }
        };
        auto check = [&]( std::string const& got, char const* when )
        {
            std::string bad;
            if ( op == SAVE_T ) { T x = ceras::load_tensor<float>( "u" ); if ( bytes( x ) != mine ) bad = "the file holds other values"; }
            else if ( op == LOAD_T ) { if ( got != mine ) bad = "the values differ"; }
            else if ( op == SET ) { if ( got != f[0].substr( 16 ) + one_hot( f[1] ) + f[2].substr( 16 ) + one_hot( f[3] ) ) bad = "the samples differ"; }
            else
            {
                if ( op == PACK ) { std::ifstream is( "d", std::ios::binary ); std::ofstream os( "e", std::ios::binary ); if ( lzw::decompress( is, os ) ) bad = "the packed file does not expand"; }
                Rt rt; std::string e; { std::ifstream is( "e", std::ios::binary ); std::stringstream x; x << is.rdbuf(); e = x.str(); }
                if ( bad.empty() && e != plain ) bad = "the bytes differ";
            }
            if ( !bad.empty() ) violation( "silent", "%s %s returns, but %s", nm[op], when, bad.c_str() );
        };
        u64 n0 = alloc_count(); std::string got = work(); u64 n = alloc_count() - n0;
        check( got, "with enough memory" );
        bool failed = false;
        set_alloc_fail( (long)( sel * ( n + 1 ) / 1000 ), len );
        try { got = work(); failed = got.empty(); } catch ( std::exception const& ) { failed = true; }
        set_alloc_fail( -1, 0 );
        if ( open_files() ) violation( "open-file", "%d files are open after memory ran out", open_files() );
        if ( !failed ) check( got, "although memory ran out" );
        if ( bytes( t ) != mine ) violation( "weight-changed", "the tensor held by the program has changed" );
        got = work();
        if ( got.empty() ) violation( "later-differs", "%s fails after memory ran out once", nm[op] );
        check( got, "after memory ran out once" );
    } );
    if ( r.kind != RET && r.kind != EXC && r.kind != ABORT ) violation( "memory", "ends as %s %s", kind_name( r.kind ), r.what.c_str() );
    if ( r.kind != RET && !r.alloc_faults ) violation( "failure-without-cause", "ends as %s %s although memory suffices", kind_name( r.kind ), r.what.c_str() );
    if ( r.kind == EXC ) violation( "later-differs", "an exception (%s) after memory ran out once", r.what.c_str() );
    cover( std::string( "M02 " ) + nm[op] + " " + kind_name( r.kind ) );
    nontrivial();
}

// =================================================================================================== M03
// the same files over and over, with failures that the program catches
SCENARIO( M03, files, 1 )
{
    typedef ceras::tensor<float> T;
    u32 n1 = 1 + pick( 4, "training samples" ), n2 = 1 + pick( 3, "test samples" );
    u64 seed = raw_seed( "data" );
    std::string f[4] = { images( n1, seed ), labels( n1, seed + 1 ), images( n2, seed + 2 ), labels( n2, seed + 3 ) };
    for ( int k = 0; k < 4; ++k ) write_file( set_files[k], f[k] );
    enum { SAVE_T, LOAD_T, SET, PACK, UNPACK, SAVE_W, LOAD_W, LOAD_DAMAGED, SAVE_FAILS, OPS };
    static char const* const nm[] = { "save a tensor", "load a tensor", "load a data set", "compress", "expand", "save weights", "load weights", "load damaged weights", "save weights on a failing disk" };
    struct Op { int k; u32 at, len; };
    std::vector<Op> ops; unsigned k = 1 + pick( 5, "operations" );
    for ( unsigned i = 0; i < k; ++i ) { Op o{ (int)pick( OPS, "operation" ), pick( 40, "at" ), 1 + pick( 3, "length" ) }; ops.push_back( o ); note( "%s", nm[o.k] ); cover( std::string( "M03 " ) + nm[o.k] ); }
    LifeOpts o = base_opts(); draw_soft( o ); o.reuse = chance( 1, 2, "reuse" );
    static int const rounds = 16;
    Outcome r = life( o, [&]
    {
        T t{ { 7, 5 } }; for ( unsigned long i = 0; i < t.size(); ++i ) t.data()[i] = 0.37f * i;
        ceras::variable<T> v{ t.deep_copy() }, v2{ ceras::ones<float>( { 3, 4 } ) };
        auto& ss = ceras::get_default_session<T>();
        ceras::save_tensor( "t", t );
        ss.save( "w" ); ss.save( "damaged" );
        { std::ifstream is( "t", std::ios::binary ); std::ofstream os( "c", std::ios::binary ); lzw::compress( is, os ); }
        faults( false );
        { std::string b; { std::ifstream is( "damaged", std::ios::binary ); std::stringstream x; x << is.rdbuf(); b = x.str(); } b.resize( b.size() / 2 ); std::ofstream os( "damaged", std::ios::binary ); os << b; }
        faults( true );
        for ( int i = 0; i < rounds; ++i )
        {
            for ( auto const& q : ops )
            {
                try
                {
                    switch ( q.k )
                    {
                        case SAVE_T: ceras::save_tensor( "t", t ); break;
                        case LOAD_T: { T u = ceras::load_tensor<float>( "t" ); break; }
                        case SET: { auto d = ceras::dataset::mnist::load_data( "." ); break; }
                        case PACK: { std::ifstream is( "t", std::ios::binary ); std::ofstream os( "c", std::ios::binary ); lzw::compress( is, os ); break; }
                        case UNPACK: { std::ifstream is( "c", std::ios::binary ); std::ofstream os( "e", std::ios::binary ); lzw::decompress( is, os ); break; }
                        case SAVE_W: ss.save( "w" ); break;
                        case LOAD_W: ss.restore( "w" ); break;
                        case LOAD_DAMAGED: ss.restore( "damaged" ); break;
                        default: set_fs_fail( q.at % 12, q.len ); ss.save( "w2" ); break;
                    }
                }
                catch ( std::exception const& ) { if ( q.k != LOAD_DAMAGED && q.k != SAVE_FAILS ) throw; }
                set_fs_fail( -1, 0 );
                if ( open_files() ) violation( "open-file", "after %s in round %d %d files are still open", nm[q.k], i + 1, open_files() );
            }
            Rt rt; out_u( live_bytes() );
        }
    } );
    if ( r.kind == SIGV || r.kind == HANG || r.kind == VIOL ) violation( r.kind == HANG ? "hang" : "memory", "%s", r.what.c_str() );
    std::vector<u64> live; while ( r.log.more() ) live.push_back( r.log.u() );
    if ( r.kind != RET || live.size() != rounds ) { count( "history_cut_short" ); note( "ends in %s %s", kind_name( r.kind ), r.what.c_str() ); return; }
    if ( live[rounds - 1] > live[3] ) violation( "grows", "after 4, 8 and 16 rounds of the same work %lu, %lu and %lu bytes are in use", live[3], live[7], live[15] );
    count( "rounds", rounds ); nontrivial();
}
#endif
