// I01 image files.
#include CERAS_HPP
#include CERAS_IMAGEIO
#include "sim.hpp"
#include <cstring>
#include <fstream>
using namespace sim;

namespace
{
    typedef ceras::tensor<unsigned char> Img;
    struct Picture { unsigned long w = 0, h = 0, ch = 0; std::string px; };
    Picture draw_picture( unsigned forced_ch, bool allow_flat, u32 big )
    {
        Picture p;
        p.w = 1 + pick( 12, "width" ); p.h = 1 + pick( 12, "height" );
        if ( pick( 8, "large" ) == 7 ) { p.w = 20 + pick( 5 * big, "width" ); p.h = 10 + pick( big, "height" ); }
        if ( forced_ch ) p.ch = forced_ch; else { static unsigned long const c[] = { 3, 1, 4, 0 }; p.ch = c[pick( allow_flat ? 4 : 3, "channels" )]; }
        unsigned long const n = p.w * p.h * ( p.ch ? p.ch : 1 );
        Prng r( raw_seed( "pixels" ) ); int c = pick( 5, "content" );
        for ( unsigned long i = 0; i < n; ++i )
            p.px.push_back( c == 0 ? (char)r.next() : c == 1 ? (char)( i * 7 ) : c == 2 ? (char)( r.below( 9 ) ? 0 : 200 ) : c == 3 ? ( i && r.below( 12 ) ? p.px[i - 1] : (char)r.next() ) : (char)0 );
        note( "image %lu x %lu, %lu channels, content %d", p.w, p.h, p.ch, c );
        return p;
    }
    std::vector<unsigned long> shape_of( Picture const& p ) { std::vector<unsigned long> s{ p.w, p.h }; if ( p.ch ) s.push_back( p.ch ); return s; }
    void draw_soft( LifeOpts& o ) { if ( chance( 1, 3, "soft" ) ) { o.r_eintr = 30 * pick( 10, "eintr" ); o.r_short = 60 * pick( 12, "short" ); } }
    void draw_hard( LifeOpts& o, u32 ops, u32 bytes )
    {
        switch ( pick( 4, "fault kind" ) )
        {
            case 0: o.fail_op = pick( ops, "fail at" ); o.fail_len = 1; break;
            case 1: o.fail_op = pick( ops, "fail at" ); o.fail_len = 1000000; break;
            case 2: o.disk_budget = pick( bytes, "space" ); break;
            default: { u32 q = 20 + pick( 150, "rate" ); o.r_read_eio = pick( 2, "r" ) * q; o.r_open = pick( 2, "r" ) * q; o.r_eio = pick( 2, "r" ) * q; o.r_close = pick( 2, "r" ) * q; break; }
        }
    }
    enum { PNG, TGA, BMP, NO_EXT, OTHER_EXT, HDR, JPG, FORMATS };
    char const* const given[] = { "a.png", "b.tga", "c.bmp", "plain", "d.xyz", "e.hdr", "f.jpg" };
    char const* const found[] = { "a.png", "b.tga", "c.bmp", "plain.png", "d.xyz.png", "e.hdr", "f.jpg" };

    // what reading back has to give, empty if the format does not keep pixels
    Picture kept( Picture const& p, int format )
    {
        Picture q = p; if ( q.ch == 0 ) q.ch = 1;
        if ( format == HDR || format == JPG || ( format == BMP && q.ch == 4 ) ) q.px.clear();
        else if ( format == BMP && q.ch == 1 ) { q.px.clear(); for ( char c : p.px ) q.px.append( 3, c ); q.ch = 3; }
        return q;
    }
    void put( Img const& t ) { std::string b, sh; { Rt rt; b.assign( (char const*)t.data(), t.size() ); for ( auto d : t.shape() ) sh += std::to_string( d ) + " "; } out_u( t.size() ); out_s( b ); out_s( sh ); }
    std::string diff( Picture const& q, std::string const& b, std::string const& sh, int tolerance )
    {
        std::string want = std::to_string( q.w ) + " " + std::to_string( q.h ) + " " + std::to_string( q.ch ) + " ";
        char t[200];
        if ( q.px.empty() ) return "";
        if ( sh != want ) return "the shape is " + sh + "instead of " + want;
        for ( size_t i = 0; i < q.px.size(); ++i )
        {
            int const x = (unsigned char)b[i], y = (unsigned char)q.px[i];
            if ( std::abs( x - y ) > tolerance ) { std::snprintf( t, sizeof t, "value %lu is %d instead of %d", i, x, y ); return t; }
        }
        return "";
    }
    bool ended( int k ) { return k == RET || k == EXC || k == ABORT; }
}

SCENARIO( I01, round_trip, 3 )
{
    int const format = pick( FORMATS, "format" );
    Picture p = draw_picture( 0, true, 60 );
    int const entry = pick( 3, "entry" );                  // 8-bit image, float image, directly
    LifeOpts o; draw_soft( o );
    if ( chance( 1, 2, "write faults" ) ) draw_hard( o, 6, p.px.size() + 100 );
    o.fill = pick( 2, "fill" ) ? 0xA5 : 0;
    int const there = pick( 3, "there already" );
    if ( there == 1 ) write_file( found[format], std::string( 1 + pick( 5000, "length" ), 'x' ) );
    bool const as_float = entry == 1;
    Picture want = kept( p, format );
    if ( as_float && !want.px.empty() )
    {   // grey levels between the smallest and the largest value
        int mn = 255, mx = 0; for ( char c : p.px ) { mn = std::min<int>( mn, (unsigned char)c ); mx = std::max<int>( mx, (unsigned char)c ); }
        for ( char& c : want.px ) c = (char)(int)( 255.0 * ( (unsigned char)c - mn ) / ( mx - mn + 1.0e-10 ) );
    }
    Outcome w = life( o, [&]
    {
        faults( false );
        Img t{ shape_of( p ) }; { Rt rt; std::memcpy( t.data(), p.px.data(), p.px.size() ); }
        ceras::tensor<float> f{ shape_of( p ) }; { Rt rt; for ( size_t i = 0; i < p.px.size(); ++i ) f.data()[i] = (unsigned char)p.px[i]; }
        if ( there == 2 ) { Img u{ std::vector<unsigned long>{ 9, 9, 3 } }; { Rt rt; std::memset( u.data(), 77, u.size() ); } ceras::imageio::imwrite( given[format], u ); Img v = ceras::imageio::imread( found[format] ); out_u( v.size() ); }
        faults( true );
        bool ok;
        if ( as_float ) ok = ceras::imageio::imwrite( given[format], f );
        else if ( entry == 0 ) ok = ceras::imageio::imwrite( given[format], t );
        else if ( format == HDR ) ok = ceras::imageio::direct_imwrite( given[format], f );
        else ok = ceras::imageio::direct_imwrite( given[format], t );
        faults( false );
        out_u( ok );
        { Rt rt; if ( std::memcmp( t.data(), p.px.data(), p.px.size() ) ) violation( "alters", "writing an image alters it" ); }
        if ( open_files() ) violation( "open-file", "after writing an image %d files are open", open_files() );
        if ( ok && there == 2 ) put( ceras::imageio::imread( found[format] ) );
    } );
    if ( !ended( w.kind ) ) violation( "ends-badly", "writing %s ends as %s %s", given[format], kind_name( w.kind ), w.what.c_str() );
    if ( there == 2 && w.log.more() && w.log.u() == 0 ) violation( "failure-without-cause", "a freshly written image %s is not read", given[format] );
    bool const ok = w.kind == RET && w.log.u();
    if ( !ok && !w.fs_faults ) violation( "failure-without-cause", "writing %s on a healthy disk fails (%s)", given[format], kind_name( w.kind ) );
    cover( std::string( given[format] ) + ( ok ? " ok" : " fails" ) + ( w.fs_faults ? " fault" : "" ) + ( as_float ? " float" : "" ) );
    nontrivial();
    if ( !ok ) return;
    auto check = [&]( Log& l, char const* who )
    {
        if ( l.u() == 0 ) violation( w.fs_faults ? "silent-failure" : "differs", "writing %s succeeded, but %s finds no image", given[format], who );
        std::string b = l.s(), sh = l.s(), d = diff( want, b, sh, as_float );
        if ( !d.empty() ) violation( w.fs_faults ? "silent-failure" : "differs", "writing %s succeeded, but when %s reads it back, %s", given[format], who, d.c_str() );
        count( "images_compared" );
    };
    if ( there == 2 ) check( w.log, "the same process" );
    LifeOpts q; draw_soft( q );
    Outcome r = life( q, [&] { Img t = ceras::imageio::imread( found[format] ); faults( false ); put( t ); } );
    if ( r.kind != RET ) violation( "ends-badly", "reading a written image ends as %s %s", kind_name( r.kind ), r.what.c_str() );
    check( r.log, "another process" );
}
SCENARIO( I01, damaged, 3 )
{
    int const format = pick( FORMATS, "format" );
    Picture p = draw_picture( 0, true, 20 ), want = kept( p, format );
    if ( want.px.empty() && format < HDR ) { p.ch = 3; unsigned long n = p.w * p.h * 3; p.px.resize( n ); want = kept( p, format ); }
    Outcome w = life( LifeOpts{}, [&] { Img t{ shape_of( p ) }; { Rt rt; std::memcpy( t.data(), p.px.data(), p.px.size() ); } out_u( ceras::imageio::imwrite( given[format], t ) ); } );
    std::string whole;
    if ( w.kind != RET || !w.log.u() || !read_file( found[format], whole ) ) violation( "failure-without-cause", "writing %s on a healthy disk fails (%s)", given[format], kind_name( w.kind ) );
    if ( want.px.empty() )      // a format that keeps pixels only roughly: what the whole file gives
    {
        Outcome f = life( LifeOpts{}, [&] { put( ceras::imageio::imread( found[format] ) ); } );
        if ( f.kind != RET || !f.log.u() ) violation( "failure-without-cause", "a whole image file %s is not read (%s)", found[format], kind_name( f.kind ) );
        want.px = f.log.s();
        std::string sh = f.log.s();
        if ( std::sscanf( sh.c_str(), "%lu %lu %lu", &want.w, &want.h, &want.ch ) != 3 || want.w != p.w || want.h != p.h ) violation( "differs", "the image read back from %s has the shape %s", found[format], sh.c_str() );
    }
    unsigned rounds = 1 + pick( 4, "rounds" );
    for ( unsigned k = 0; k < rounds; ++k )
    {
        std::string file = whole; bool only_safe = false, removed = false;
        LifeOpts q; draw_soft( q ); q.fill = pick( 2, "fill" ) ? 0xA5 : 0; q.mem_limit = 64u << 20;
        int const mode = pick( 6, "damage" );
        if ( mode > 3 ) { q.give_up = true; q.max_steps = 3000000; }
        switch ( mode )
        {
            case 0: file.resize( whole.size() - 1 - pick( std::min<u32>( whole.size(), 24 ), "cut" ) ); fault_fired( FK_TRUNC ); break;
            case 1: file.resize( pick( whole.size(), "length" ) ); fault_fired( FK_TRUNC ); break;
            case 2: removed = true; break;
            case 3: draw_hard( q, 6, 100 ); break;
            case 4:
            {
                Prng e( raw_seed( "edit" ) ); unsigned m = 1 + pick( 4, "edits" ); bool const early = pick( 2, "early" );
                for ( unsigned i = 0; i < m; ++i ) { u32 at = e.below( early ? std::min<u32>( file.size(), 60 ) : file.size() ); switch ( e.below( 3 ) ) { case 0: file[at] = (char)e.next(); break; case 1: file[at] ^= 1 << e.below( 8 ); break; default: file[at] = e.below( 2 ) ? 0 : (char)255; } }
                only_safe = true; fault_fired( FK_FLIP ); break;
            }
            default: { Prng g( raw_seed( "garbage" ) ); unsigned m = pick( 300, "garbage" ); file.resize( pick( std::min<u32>( file.size(), 60 ), "kept" ) ); for ( unsigned i = 0; i < m; ++i ) file.push_back( (char)g.next() ); only_safe = true; fault_fired( FK_FLIP ); }
        }
        if ( removed ) remove_file( found[format] ); else write_file( found[format], file );
        Outcome l = life( q, [&] { Img t = ceras::imageio::imread( found[format] ); faults( false ); if ( open_files() ) violation( "open-file", "after reading an image %d files are open", open_files() ); put( t ); } );
        if ( only_safe && l.kind == HANG ) { count( "huge_images_given_up" ); continue; }
        if ( !ended( l.kind ) ) violation( "ends-badly", "reading ends as %s %s", kind_name( l.kind ), l.what.c_str() );
        bool const damaged = removed || file != whole || l.fs_faults;
        bool const got = l.kind == RET && l.log.u() != 0;
        cover( std::string( found[format] ) + " damage " + std::to_string( mode ) + ( got ? " read" : " refused" ) );
        if ( !got && !damaged ) violation( "failure-without-cause", "a whole image file is not read (%s)", kind_name( l.kind ) );
        if ( !got || only_safe ) continue;
        std::string b = l.log.s(), sh = l.log.s(), d = diff( want, b, sh, 0 );
        if ( !d.empty() ) violation( damaged ? "read-as-whole" : "differs", "reading a %s image file %s returns, but %s", damaged ? "damaged" : "whole", found[format], d.c_str() );
        count( "images_compared" );
    }
    nontrivial();
}

// ---- M02: memory runs out while an image is written or read ------------------------------------------------------
SCENARIO( M02, images, 1 )
{
    int const format = pick( FORMATS, "format" );
    Picture p = draw_picture( 0, true, 20 ), want = kept( p, format );
    bool const writing = chance( 1, 2, "write" ), as_float = chance( 1, 4, "float" );
    static long const lens[] = { 1, 2, 4, 1000000 };
    long const len = lens[pick( 4, "length" )];
    u32 const sel = pick( 1000, "allocation" );
    note( "memory ends %u/1000 into %s %s, for %ld allocations", sel, writing ? "writing" : "reading", given[format], len );
    LifeOpts o; o.reuse = chance( 1, 2, "reuse" );
    Outcome r = life( o, [&]
    {
        Img t{ shape_of( p ) }; { Rt rt; std::memcpy( t.data(), p.px.data(), p.px.size() ); }
        ceras::tensor<float> f{ shape_of( p ) }; { Rt rt; for ( size_t i = 0; i < p.px.size(); ++i ) f.data()[i] = (unsigned char)p.px[i]; }
        auto write = [&] { return as_float ? ceras::imageio::imwrite( given[format], f ) : ceras::imageio::imwrite( given[format], t ); };
        u64 n0 = alloc_count(); bool ok = write(); u64 n1 = alloc_count();
        Img first = ceras::imageio::imread( found[format] ); u64 n2 = alloc_count();
        if ( !ok || first.size() == 0 ) violation( "failure-without-cause", "an image is not written or read although memory suffices" );
        auto same = [&]( Img const& x )
        {
            auto const xs = x.shape(), fs = first.shape();
            Rt rt;
            return x.size() == first.size() && !std::memcmp( x.data(), first.data(), x.size() ) && xs.size() == fs.size() && std::equal( xs.begin(), xs.end(), fs.begin() );
        };
        bool failed = false; Img got;
        u64 const n = writing ? n1 - n0 : n2 - n1;
        out_u( n );
        set_alloc_fail( (long)( sel * ( n + 1 ) / 1000 ), len );
        try { if ( writing ) failed = !write(); else { got = ceras::imageio::imread( found[format] ); failed = got.size() == 0; } } catch ( std::exception const& ) { failed = true; }
        set_alloc_fail( -1, 0 );
        if ( open_files() ) violation( "open-file", "%d files are open after memory ran out", open_files() );
        { Rt rt; if ( std::memcmp( t.data(), p.px.data(), p.px.size() ) ) violation( "weight-changed", "the image held by the program has changed" ); }
        if ( !failed && !writing && !same( got ) ) violation( "silent", "reading ran out of memory and returns another image" );
        if ( !failed && writing && !same( ceras::imageio::imread( found[format] ) ) ) violation( "silent", "writing ran out of memory, reports success, and the file holds another image" );
        if ( !write() || !same( ceras::imageio::imread( found[format] ) ) ) violation( "later-differs", "after memory ran out, an image is not written and read as before" );
    } );
    if ( !ended( r.kind ) ) violation( "memory", "ends as %s %s", kind_name( r.kind ), r.what.c_str() );
    if ( r.kind != RET && !r.alloc_faults ) violation( "failure-without-cause", "ends as %s %s although memory suffices", kind_name( r.kind ), r.what.c_str() );
    cover( std::string( "M02 " ) + ( writing ? "write " : "read " ) + given[format] + " " + kind_name( r.kind ) );
    nontrivial();
}

// ---- I02: resized images ----------------------------------------------------------------------------------------
namespace
{
    struct Resize { Picture p; std::vector<unsigned long> to; };
    Resize draw_resize()
    {
        Resize r; r.p = draw_picture( 0, true, 12 );
        auto side = [&]( unsigned long from ) { switch ( pick( 6, "to" ) ) { case 0: return 1ul + pick( 4, "side" ); case 1: return from; case 2: return from + 1 + pick( 5, "side" ); case 3: return 2 * from; case 4: return 1 + from / 2; default: return 1ul + pick( 40, "side" ); } };
        unsigned long const w = side( r.p.w ), h = side( r.p.h );
        r.to = { w, h }; if ( r.p.ch ) r.to.push_back( r.p.ch );
        note( "resized to %lu x %lu", w, h );
        return r;
    }
    Img image_of( Picture const& p ) { Img t{ shape_of( p ) }; Rt rt; std::memcpy( t.data(), p.px.data(), p.px.size() ); return t; }
    bool equal( Img const& x, Img const& y )
    {
        auto const xs = x.shape(), ys = y.shape();
        Rt rt;
        return x.size() == y.size() && !std::memcmp( x.data(), y.data(), x.size() ) && xs.size() == ys.size() && std::equal( xs.begin(), xs.end(), ys.begin() );
    }
}
SCENARIO( I02, resize, 1 )
{
    Resize z = draw_resize();
    Resize other = draw_resize(); if ( chance( 1, 2, "same size" ) ) other.to = z.to, other.p.ch != z.p.ch ? (void)( other.p = z.p, other.p.px[0] ^= 64 ) : (void)0;
    unsigned long const ch = z.p.ch ? z.p.ch : 1;
    bool const constant = chance( 1, 5, "one colour" );
    if ( constant ) for ( unsigned long i = 0; i < z.p.px.size(); ++i ) z.p.px[i] = z.p.px[i % ch];
    LifeOpts o; o.fill = pick( 2, "fill" ) ? 0xA5 : 0xFF; o.reuse = chance( 1, 2, "reuse" );
    bool const before = chance( 1, 2, "another before" );
    Outcome a = life( o, [&]
    {
        Img earlier; std::string held;
        if ( before ) { Img t = image_of( other.p ); earlier = ceras::imageio::imresize( t, other.to ); Rt rt; held.assign( (char const*)earlier.data(), earlier.size() ); }
        Img t = image_of( z.p );
        Img u = ceras::imageio::imresize( t, z.to );
        { Rt rt; if ( std::memcmp( held.data(), earlier.data(), held.size() ) ) violation( "result-changed", "an image resized earlier changes when another is resized" ); }
        { Rt rt; if ( std::memcmp( t.data(), z.p.px.data(), z.p.px.size() ) ) violation( "alters", "resizing an image alters it" ); }
        put( u );
        if ( !equal( u, ceras::imageio::imresize( t, z.to ) ) ) violation( "differs", "the same image resized again is another" );
        // every channel by itself
        for ( unsigned long c = 0; c < ch; ++c )
        {
            Picture q; q.w = z.p.w; q.h = z.p.h; q.ch = c % 2; for ( unsigned long i = c; i < z.p.px.size(); i += ch ) q.px.push_back( z.p.px[i] );
            std::vector<unsigned long> to{ z.to[0], z.to[1] }; if ( q.ch ) to.push_back( 1 );
            Img s = ceras::imageio::imresize( image_of( q ), to );
            put( s );
        }
    } );
    if ( a.kind != RET ) violation( "ends-badly", "resizing ends as %s %s", kind_name( a.kind ), a.what.c_str() );
    std::string want; for ( auto d : z.to ) want += std::to_string( d ) + " ";
    unsigned long const n = z.to[0] * z.to[1];
    if ( a.log.u() != n * ch ) violation( "shape", "the resized image has another size" );
    std::string b = a.log.s(), sh = a.log.s();
    if ( sh != want ) violation( "shape", "the resized image has the shape %s instead of %s", sh.c_str(), want.c_str() );
    if ( constant ) for ( unsigned long i = 0; i < b.size(); ++i ) if ( std::abs( (int)(unsigned char)b[i] - (int)(unsigned char)z.p.px[i % ch] ) > 1 ) violation( "one-colour", "an image of one colour has another after resizing, %d instead of %d", (unsigned char)b[i], (unsigned char)z.p.px[i % ch] );
    for ( unsigned long c = 0; c < ch; ++c )
    {
        if ( a.log.u() != n ) violation( "shape", "a resized channel has another size" );
        std::string s = a.log.s(); a.log.s();
        for ( unsigned long i = 0; i < n; ++i ) if ( std::abs( (int)(unsigned char)s[i] - (int)(unsigned char)b[i * ch + c] ) > 1 ) violation( "channels", "pixel %lu of channel %lu is %d, but %d if the channel is resized alone", i, c, (unsigned char)b[i * ch + c], (unsigned char)s[i] );
    }
    // another process, other rubbish in memory
    LifeOpts q; q.fill = 0; q.reuse = true;
    Outcome d = life( q, [&] { put( ceras::imageio::imresize( image_of( z.p ), z.to ) ); } );
    if ( d.kind != RET ) violation( "ends-badly", "resizing in another process ends as %s %s", kind_name( d.kind ), d.what.c_str() );
    d.log.u();
    if ( d.log.s() != b ) violation( "differs", "the same image is resized to another in another process" );
    cover( std::string( "resize " ) + std::to_string( z.p.ch ) + ( z.to[0] < z.p.w ? " narrower" : z.to[0] > z.p.w ? " wider" : "" ) + ( z.to[1] < z.p.h ? " lower" : z.to[1] > z.p.h ? " higher" : "" ) + ( constant ? " one colour" : "" ) + ( before ? " after another" : "" ) );
    nontrivial();
}
SCENARIO( I02, memory_runs_out, 1 )
{
    Resize z = draw_resize();
    u32 const sel = pick( 1000, "allocation" );
    static long const lens[] = { 1, 2, 1000000 };
    long const len = lens[pick( 3, "length" )];
    LifeOpts o; o.reuse = chance( 1, 2, "reuse" ); o.fill = pick( 2, "fill" ) ? 0xA5 : 0;
    Outcome r = life( o, [&]
    {
        Img t = image_of( z.p );
        u64 const n0 = alloc_count(); Img first = ceras::imageio::imresize( t, z.to ); u64 const n = alloc_count() - n0;
        Img got; bool failed = false;
        set_alloc_fail( (long)( sel * ( n + 1 ) / 1000 ), len );
        try { got = ceras::imageio::imresize( t, z.to ); failed = got.size() == 0; } catch ( std::exception const& ) { failed = true; }
        set_alloc_fail( -1, 0 );
        { Rt rt; if ( std::memcmp( t.data(), z.p.px.data(), z.p.px.size() ) ) violation( "alters", "resizing an image alters it" ); }
        if ( !failed && !equal( got, first ) ) violation( "silent", "resizing ran out of memory and returns another image" );
        if ( !equal( ceras::imageio::imresize( t, z.to ), first ) ) violation( "later-differs", "after memory ran out, an image is resized to another" );
        out_u( failed );
    } );
    if ( !ended( r.kind ) ) violation( "ends-badly", "resizing ends as %s %s", kind_name( r.kind ), r.what.c_str() );
    if ( r.kind != RET && !r.alloc_faults ) violation( "failure-without-cause", "resizing ends as %s %s although memory suffices", kind_name( r.kind ), r.what.c_str() );
    cover( std::string( "resize short of memory " ) + kind_name( r.kind ) );
    nontrivial();
}

// ---- M03: the same images over and over -------------------------------------------------------------------------
SCENARIO( M03, images, 1 )
{
    enum { WRITE, READ, RESIZE, WRITE_FAILS, READ_FAILS, READ_DAMAGED, READ_NONE, OPS };
    static char const* const spoilt[] = { "u.png", "u.tga", "u.bmp", "u", "u.xyz", "u.hdr", "u.jpg" };   // what it holds differs from round to round
    static char const* const nm[] = { "write", "read", "resize", "write on a failing disk", "read from a failing disk", "read a damaged file", "read no file" };
    int const format = pick( FORMATS, "format" );
    Resize z = draw_resize();
    struct Op { int k; u32 at, len; };
    std::vector<Op> ops; unsigned k = 1 + pick( 4, "operations" );
    for ( unsigned i = 0; i < k; ++i ) { Op q{ (int)pick( OPS, "operation" ), pick( 40, "at" ), 1 + pick( 3, "length" ) }; ops.push_back( q ); note( "%s %s", nm[q.k], given[format] ); cover( std::string( "M03 image " ) + nm[q.k] ); }
    u32 const cut = pick( 1000, "cut" ); bool const edited = chance( 2, 3, "edited" ); unsigned const edits = 1 + pick( 2, "edits" ); u64 const edit_seed = raw_seed( "edit" );
    LifeOpts o; o.give_up = true; o.max_steps = 20000000; o.mem_limit = 16u << 20; o.reuse = chance( 1, 2, "reuse" );
    static int const rounds = 16;
    Outcome r = life( o, [&]
    {
        Img t = image_of( z.p );
        faults( false );
        ceras::imageio::imwrite( given[format], t );
        { std::string b; { std::ifstream is( found[format], std::ios::binary ); std::stringstream x; x << is.rdbuf(); b = x.str(); } 
            if ( !edited ) b.resize( b.size() * cut / 1000 );
            else { Prng e( edit_seed ); for ( unsigned i = 0; i < edits; ++i ) { u32 const at = e.below( cut % 3 ? std::min<u32>( b.size(), 60 ) : b.size() ); if ( e.below( 2 ) ) b[at] = (char)( b[at] + (int)e.below( 9 ) - 4 ); else b[at] = (char)e.next(); } }
          std::ofstream os( "damaged", std::ios::binary ); os << b; }
        faults( true );
        for ( int i = 0; i < rounds; ++i )
        {
            for ( auto const& q : ops )
            {
                if ( q.k == WRITE_FAILS || q.k == READ_FAILS ) set_fs_fail( q.at % 8, q.len );
                if ( q.k == WRITE || q.k == WRITE_FAILS ) ceras::imageio::imwrite( q.k == WRITE ? given[format] : spoilt[format], t );
                else if ( q.k == RESIZE ) { Img u = ceras::imageio::imresize( t, z.to ); }
                else { Img u = ceras::imageio::imread( q.k == READ_NONE ? "none" : q.k == READ_DAMAGED ? "damaged" : found[format] ); }
                set_fs_fail( -1, 0 );
                if ( open_files() ) violation( "open-file", "after %s in round %d %d files are still open", nm[q.k], i + 1, open_files() );
            }
            Rt rt; out_u( live_bytes() );
        }
    } );
    if ( r.kind == SIGV || r.kind == VIOL ) violation( "memory", "%s", r.what.c_str() );
    std::vector<u64> live; while ( r.log.more() ) live.push_back( r.log.u() );
    if ( r.kind != RET || live.size() != rounds ) { count( "history_cut_short" ); note( "ends in %s %s", kind_name( r.kind ), r.what.c_str() ); return; }
    if ( live[rounds - 1] > live[3] ) violation( "grows", "after 4, 8 and 16 rounds of the same work %lu, %lu and %lu bytes are in use", live[3], live[7], live[15] );
    count( "rounds", rounds ); nontrivial();
}
