// C01-C04: saving and loading weights on a simulated disk.
#include CERAS_HPP
#include "sim.hpp"
#include <cstring>
#include <map>
#include <set>
#include <algorithm>
using namespace sim;

namespace
{
    typedef ceras::tensor<float> T;
    typedef std::vector<unsigned long> Shape;
    struct World { int kind = 0; int vclass = 0; std::vector<Shape> shapes; unsigned frozen = 0; };      // frozen: bit per weight

    World draw_world( bool allow_large = true )
    {
        World w;
        w.kind = pick( 4, "model" ) == 3 ? 1 + pick( 2, "layers" ) : 0;
        w.vclass = pick( 6, "values" );
        if ( chance( 1, 3, "frozen" ) ) w.frozen = pick( 64, "which" );
        if ( w.kind == 0 )
        {
            unsigned n = 1 + pick( 6, "variables" );
            for ( unsigned i = 0; i < n; ++i )
            {
                Shape s;
                unsigned rank = 1 + pick( 4, "rank" );
                for ( unsigned k = 0; k < rank; ++k ) s.push_back( 1 + pick( rank > 2 ? 3 : 7, "dim" ) );
                if ( allow_large && pick( 12, "large" ) == 11 ) s = Shape{ 40ul + pick( 60, "dim" ), 40ul };
                w.shapes.push_back( s );
            }
        }
        else if ( w.kind == 1 ) w.shapes = { { 7, 5 }, { 1, 5 }, { 5, 3 }, { 1, 3 } };
        else w.shapes = { { 4, 3, 3, 2 }, { 1, 1, 4 }, { 4 }, { 4 }, { 64, 3 }, { 1, 3 } };
        return w;
    }
    unsigned long size_of( Shape const& s ) { unsigned long n = 1; for ( auto d : s ) n *= d; return n; }
    unsigned long size_of( World const& w ) { unsigned long n = 0; for ( auto& s : w.shapes ) n += size_of( s ); return n; }

    // the values are made without library code: the supervisor knows them independently
    float value( Prng& r, int vclass )
    {
        switch ( vclass )
        {
            case 0: return (float)r.range( -1, 1 );
            case 1: return (float)( (int)r.below( 7 ) - 3 );                                 // integers, repeated
            case 2: { double e = r.range( -37, 38 ); return (float)( r.range( -1, 1 ) * std::pow( 10.0, e ) ); }
            case 3: { std::uint32_t b; float f; do { b = (std::uint32_t)r.next(); std::memcpy( &f, &b, 4 ); } while ( ( b & 0x7F800000u ) == 0x7F800000u || ( b & 0x7F800000u ) == 0 ); return f; }  // any normal float
            case 4: { static float const c[] = { 0.0f, -0.0f, 1.0f, 1.17549435e-38f, 3.40282347e38f, -3.40282347e38f, 0.1f, 1.0000001f, 0.99999994f, 16777217.0f }; return c[r.below( 10 )]; }
            default: return (float)( 1.0 + r.below( 1000 ) * 1.1920929e-7 );                  // neighbours
        }
    }
    std::string weights( World const& w, u64 seed )
    {
        Prng r( seed );
        std::string b;
        for ( auto const& s : w.shapes )
            for ( unsigned long i = 0; i < size_of( s ); ++i )
            {
                float f = value( r, w.vclass );
                b.append( (char const*)&f, 4 );
            }
        return b;
    }

    // ---- inside a lifetime -------------------------------------------------------------------------
    std::vector<ceras::variable<T>> g_vars;
    std::function<void( std::string const& )> g_save, g_load;

    void build( World const& w, int entry )
    {
        using namespace ceras;
        auto& ss = get_default_session<T>();
        g_save = [&ss, entry]( std::string const& p ) { if ( entry & 1 ) ss.serialize( p ); else ss.save( p ); };
        g_load = [&ss, entry]( std::string const& p ) { if ( entry & 2 ) ss.deserialize( p ); else ss.restore( p ); };
        if ( w.kind == 0 )
        {
            unsigned i = 0;
            for ( auto const& s : w.shapes ) { g_vars.push_back( variable<T>{ zeros<float>( s ), 0.0f, 0.0f, !( w.frozen >> i & 1 ) } ); ++i; }
            return;
        }
        if ( w.kind == 1 )
        {
            auto input = Input( { 7ul } );
            auto out = Dense( 3, 5 )( relu( Dense( 5, 7 )( input ) ) );
            auto m = std::make_shared<decltype( model{ input, out } )>( model{ input, out } );
            g_save = [m]( std::string const& p ) { m->save_weights( p ); };
            g_load = [m]( std::string const& p ) { m->load_weights( p ); };
        }
        else
        {
            auto input = Input( { 6ul, 6ul, 2ul } );
            auto l1 = relu( BatchNormalization( 0.9f )( Conv2D( 4, { 3, 3 }, "valid" )( input ) ) );
            auto out = Dense( 3, 64 )( Flatten()( l1 ) );
            auto m = std::make_shared<decltype( model{ input, out } )>( model{ input, out } );
            g_save = [m]( std::string const& p ) { m->save_weights( p ); };
            g_load = [m]( std::string const& p ) { m->load_weights( p ); };
        }
        std::map<int, variable<T>> all;
        for ( auto& [id, v] : ss.variables_ ) all.insert( { id, v } );
        for ( auto& [id, v] : all ) g_vars.push_back( v );
        if ( g_vars.size() != w.shapes.size() ) harness_error( "model %d has %lu variables", w.kind, g_vars.size() );
        for ( unsigned i = 0; i < g_vars.size(); ++i ) if ( g_vars[i].data().size() != size_of( w.shapes[i] ) ) harness_error( "model %d: variable %u has %lu elements", w.kind, i, g_vars[i].data().size() );
        for ( unsigned i = 0; i < g_vars.size(); ++i ) if ( w.frozen >> i & 1 ) g_vars[i].trainable( false );
    }
    void set( std::string const& b )
    {
        Rt rt;
        unsigned long at = 0;
        for ( auto& v : g_vars ) { auto& d = v.data(); std::memcpy( d.data(), b.data() + at, d.size() * 4 ); at += d.size() * 4; }
    }
    std::string dump()
    {
        Rt rt;
        std::string b;
        for ( auto& v : g_vars ) { auto& d = v.data(); b.append( (char const*)d.data(), d.size() * 4 ); }
        return b;
    }
    std::string dump_shapes()
    {
        Rt rt;
        std::string b;
        for ( auto& v : g_vars ) { for ( auto s : v.data().shape() ) b += std::to_string( s ) + ","; b += ";"; }
        return b;
    }
    std::string shapes_text( World const& w )
    {
        std::string b;
        for ( auto& v : w.shapes ) { for ( auto s : v ) b += std::to_string( s ) + ","; b += ";"; }
        return b;
    }

    // ---- supervisor --------------------------------------------------------------------------------
    char const* const paths[] = { "weights", "model.ckpt", "a.b.c", "w" };
    LifeOpts base_opts() { LifeOpts o; o.fill = 0xA5; return o; }

    std::string describe( std::string const& got, std::string const& want )
    {
        char b[200];
        if ( got.size() != want.size() ) { std::snprintf( b, sizeof b, "%lu bytes instead of %lu", got.size(), want.size() ); return b; }
        for ( unsigned long i = 0; i < got.size() / 4; ++i )
            if ( std::memcmp( &got[i * 4], &want[i * 4], 4 ) )
            {
                float a, c; std::memcpy( &a, &got[i * 4], 4 ); std::memcpy( &c, &want[i * 4], 4 );
                std::snprintf( b, sizeof b, "element %lu is %.9g (%a) instead of %.9g (%a)", i, a, a, c, c );
                return b;
            }
        return "equal";
    }

    // loads in a fresh process; returns the outcome, bits and shapes
    Outcome load_in_fresh( World const& w, int entry, std::string const& path, LifeOpts o, std::string& bits, std::string& shapes )
    {
        Outcome r = life( o, [&]
        {
            faults( false );
            build( w, entry );
            set( weights( w, 0xDEAD ) );
            faults( true );
            g_load( path );
            faults( false );
            out_s( dump() );
            out_s( dump_shapes() );
        } );
        if ( r.kind == RET ) { bits = r.log.s(); shapes = r.log.s(); }
        return r;
    }
    void check_tidy( std::set<std::string> const& want, char const* after )
    {
        for ( auto const& f : list_files() ) if ( !want.count( f ) ) violation( "file-left-behind", "%s leaves the file %s behind", after, f.c_str() );
        for ( auto const& f : want ) if ( !exists( f ) ) violation( "file-missing", "%s: the checkpoint %s is gone", after, f.c_str() );
    }
    void draw_soft( LifeOpts& o )
    {
        if ( chance( 1, 4, "soft" ) ) { o.r_eintr = 30 * pick( 8, "eintr" ); o.r_short = 60 * pick( 8, "short" ); }
    }
    void note_world( World const& w ) { note( "model %d, %lu variables, %lu elements, values %d, frozen %x", w.kind, (unsigned long)w.shapes.size(), size_of( w ), w.vclass, w.frozen ); }
}

// ---------------------------------------------------------------------------------------------------
SCENARIO( C01, crash, 1 )
{
    World w = draw_world();
    note_world( w );
    int entry = pick( 4, "entry" );
    std::string path = paths[pick( 4, "path" )];
    std::vector<std::string> cand;              // what may be in the checkpoint
    bool may_miss = true;
    u64 seed = raw_seed( "values" );
    unsigned long est = 14;
    if ( pick( 5, "previous" ) != 4 )
    {
        std::string b = weights( w, seed );
        Outcome r = life( base_opts(), [&] { faults( false ); build( w, entry ); set( b ); faults( true ); g_save( path ); } );
        if ( r.kind != RET ) violation( "save-fails", "saving on a healthy disk ends as %s %s", kind_name( r.kind ), r.what.c_str() );
        cand = { b }; may_miss = false; est = r.fs_ops;
    }
    unsigned rounds = 1 + pick( 3, "rounds" );
    for ( unsigned k = 1; k <= rounds; ++k )
    {
        std::string b = weights( w, seed + k );
        LifeOpts o = base_opts();
        o.crash_op = pick( est + 2, "crash at" );
        o.crash_mode = pick( 3, "crash mode" );
        draw_soft( o );
        bool load_first = !may_miss && cand.size() == 1 && chance( 1, 3, "load first" );
        Outcome r = life( o, [&] { faults( false ); build( w, entry ); if ( load_first ) g_load( path ); set( b ); faults( true ); g_save( path ); faults( false ); } );
        if ( r.kind == CRASH ) { cand.push_back( b ); cover( "killed at operation " + std::to_string( o.crash_op < 40 ? o.crash_op : 40 ) + " mode " + std::to_string( o.crash_mode ) ); }
        else if ( r.kind == RET ) { cand = { b }; may_miss = false; est = r.fs_ops; }
        else violation( "later-save-fails", "after the crash, saving on a healthy disk ends as %s %s", kind_name( r.kind ), r.what.c_str() );
        if ( chance( 1, 4, "look later" ) && k < rounds ) continue;
        if ( chance( 1, 6, "killed loader" ) )
        {   // somebody starts loading and is killed as well
            LifeOpts q = base_opts(); q.crash_op = pick( 14, "loader crash at" ); q.crash_mode = pick( 3, "crash mode" );
            std::string x, y;
            if ( exists( path ) ) { Outcome l = load_in_fresh( w, entry, path, q, x, y ); if ( l.kind != CRASH && l.kind != RET ) violation( "checkpoint-lost", "after the crash, loading ends as %s %s", kind_name( l.kind ), l.what.c_str() ); }
        }
        std::string got, sh;
        if ( !exists( path ) )
        {
            if ( !may_miss ) violation( "checkpoint-lost", "after the crash there is no checkpoint any more" );
            continue;
        }
        Outcome l = load_in_fresh( w, entry, path, base_opts(), got, sh );
        if ( l.kind != RET ) violation( "checkpoint-lost", "after the crash, loading ends as %s %s", kind_name( l.kind ), l.what.c_str() );
        bool ok = false;
        for ( auto const& c : cand ) ok = ok || c == got;
        if ( !ok ) violation( "checkpoint-mixed", "after the crash, the loaded weights are neither the old nor the new ones (%s)", describe( got, cand.back() ).c_str() );
        if ( sh != shapes_text( w ) ) violation( "checkpoint-mixed", "after the crash, the loaded shapes differ" );
        cand = { got }; may_miss = false;
    }
    // with the files left behind, a save that is not disturbed must work
    if ( chance( 1, 2, "final save" ) )
    {
        std::string b = weights( w, seed + 100 ), got, sh;
        Outcome r = life( base_opts(), [&] { faults( false ); build( w, entry ); set( b ); g_save( path ); } );
        if ( r.kind != RET ) violation( "later-save-fails", "saving after crashes ends as %s %s", kind_name( r.kind ), r.what.c_str() );
        Outcome l = load_in_fresh( w, entry, path, base_opts(), got, sh );
        if ( l.kind != RET || got != b ) violation( "later-save-fails", "a save after crashes does not give its weights back: %s, %s", kind_name( l.kind ), describe( got, b ).c_str() );
    }
}

// ---------------------------------------------------------------------------------------------------
SCENARIO( C02, disk_error, 1 )
{
    World w = draw_world();
    note_world( w );
    int entry = pick( 4, "entry" );
    std::string path = paths[pick( 4, "path" )];
    u64 seed = raw_seed( "values" );
    std::string prev; bool has = false; unsigned long est = 14, bytes = 400;
    if ( pick( 5, "previous" ) != 4 )
    {
        prev = weights( w, seed );
        Outcome r = life( base_opts(), [&] { faults( false ); build( w, entry ); set( prev ); faults( true ); g_save( path ); } );
        if ( r.kind != RET ) violation( "save-fails", "saving on a healthy disk ends as %s %s", kind_name( r.kind ), r.what.c_str() );
        has = true; est = r.fs_ops; bytes = r.write_bytes;
    }
    unsigned rounds = 1 + pick( 3, "rounds" );
    for ( unsigned k = 1; k <= rounds; ++k )
    {
        std::string b = weights( w, seed + k );
        LifeOpts o = base_opts();
        int mode = pick( 5, "fault kind" );
        switch ( mode )
        {
            case 0: o.fail_op = pick( est + 1, "fail at" ); o.fail_len = 1; break;
            case 1: o.fail_op = pick( est + 1, "fail at" ); o.fail_len = 1000000; break;        // the disk breaks for good
            case 2: o.disk_budget = pick( bytes + bytes / 8 + 2, "space" ); break;
            case 3: { u32 r = 20 + pick( 120, "rate" ); o.r_eio = pick( 2, "r" ) * r; o.r_open = pick( 2, "r" ) * r; o.r_close = pick( 2, "r" ) * r; o.r_rename = pick( 2, "r" ) * r * 3; o.r_unlink = pick( 2, "r" ) * r; o.r_read_eio = pick( 2, "r" ) * r; break; }
            default: o.r_eintr = 20 * pick( 15, "eintr" ); o.r_short = 40 * pick( 15, "short" ); break;
        }
        if ( mode != 4 ) draw_soft( o );
        bool again = chance( 1, 2, "retry in the same process" );
        bool caught_again = false, second = false;
        std::string b2 = weights( w, seed + 1000 + k );
        Outcome r = life( o, [&]
        {
            faults( false ); build( w, entry ); set( b ); faults( true );
            bool failed = false;
            try { g_save( path ); } catch ( std::exception const& ) { failed = true; }
            faults( false );
            out_u( failed );
            if ( failed && again )
            {   // the program caught the failure; the disk works again
                out_s( dump() );
                set( b2 );
                g_save( path );
                out_u( 7 );
            }
        } );
        bool failed;
        if ( r.kind == RET )
        {
            failed = r.log.u();
            if ( failed && again )
            {
                second = true;
                std::string d = r.log.s();
                if ( d != b ) violation( "weights-changed", "the failed save changed the weights in memory: %s", describe( d, b ).c_str() );
                caught_again = r.log.more() && r.log.u() == 7;
            }
        }
        else if ( r.kind == EXC || r.kind == ABORT )
        {
            failed = true;
            if ( r.log.more() ) violation( "next-save-fails", "once the disk works again, saving ends as %s %s", kind_name( r.kind ), r.what.c_str() );
        }
        else violation( "save-ends-badly", "saving with disk errors ends as %s %s", kind_name( r.kind ), r.what.c_str() );
        if ( failed && r.fs_faults == 0 ) violation( "failure-without-cause", "saving fails (%s %s) though the disk only interrupted or split transfers", kind_name( r.kind ), r.what.c_str() );
        cover( std::string( failed ? "fails visibly" : r.fs_faults ? "succeeds despite" : "no fault" ) + " mode " + std::to_string( mode ) + ( has ? " over a checkpoint" : " first" ) );
        std::string got, sh;
        std::string want = second ? b2 : failed ? prev : b;
        if ( failed && !second && !has )
        {
            if ( !exists( path ) ) continue;
            Outcome l = load_in_fresh( w, entry, path, base_opts(), got, sh );   // nothing was promised, but it may not pass for a whole one
            if ( l.kind == RET && got != b ) violation( "failed-save-loads", "the save failed, yet other weights load: %s", describe( got, b ).c_str() );
            if ( l.kind == RET ) { has = true; prev = b; }
            continue;
        }
        Outcome l = load_in_fresh( w, entry, path, base_opts(), got, sh );
        // a failure reported after the new checkpoint was already in place is a failure, but no loss
        if ( failed && !second && l.kind == RET && got == b ) want = b;
        if ( l.kind != RET )
            violation( second ? "next-save-fails" : failed ? "previous-lost" : "silent-failure", "%s, but loading ends as %s %s", second ? "the save after the failed one returned" : failed ? "the save failed" : "the save returned as if it had succeeded", kind_name( l.kind ), l.what.c_str() );
        if ( got != want )
            violation( second ? "next-save-fails" : failed ? "previous-lost" : "silent-failure", "%s, but %s", second ? "the save after the failed one returned" : failed ? "the save failed" : "the save returned as if it had succeeded", describe( got, want ).c_str() );
        if ( want == b && want != prev && failed && !second && has ) violation( "previous-lost", "the save failed, but the previous checkpoint is gone" );
        prev = want; has = true;
        (void)caught_again;
    }
    // once the disk works again the next save succeeds
    std::string b = weights( w, seed + 500 ), got, sh;
    Outcome r = life( base_opts(), [&] { faults( false ); build( w, entry ); set( b ); g_save( path ); } );
    if ( r.kind != RET ) violation( "next-save-fails", "once the disk works again, saving ends as %s %s", kind_name( r.kind ), r.what.c_str() );
    Outcome l = load_in_fresh( w, entry, path, base_opts(), got, sh );
    if ( l.kind != RET || got != b ) violation( "next-save-fails", "once the disk works again, a save does not give its weights back: %s, %s", kind_name( l.kind ), describe( got, b ).c_str() );
}

// ---------------------------------------------------------------------------------------------------
SCENARIO( C03, damaged, 1 )
{
    World w = draw_world();
    note_world( w );
    int entry = pick( 4, "entry" );
    std::string path = paths[pick( 4, "path" )];
    u64 seed = raw_seed( "values" );
    std::string b = weights( w, seed );
    Outcome r = life( base_opts(), [&] { faults( false ); build( w, entry ); set( b ); g_save( path ); } );
    if ( r.kind != RET ) violation( "save-fails", "saving on a healthy disk ends as %s %s", kind_name( r.kind ), r.what.c_str() );
    std::string whole, file;
    if ( !read_file( path, whole ) ) violation( "save-fails", "no checkpoint after a save" );
    unsigned rounds = 1 + pick( 4, "rounds" );
    for ( unsigned k = 0; k < rounds; ++k )
    {
        file = whole;
        LifeOpts o = base_opts();
        bool only_safe = false, removed = false;      // only_safe: arbitrary bytes, no claim about the values
        int mode = pick( 8, "damage" );
        switch ( mode )
        {
            case 0: file.resize( whole.size() - 1 - pick( std::min<u32>( whole.size(), 40 ), "cut" ) ); fault_fired( FK_TRUNC ); break;        // near the end
            case 1: file.resize( pick( whole.size(), "length" ) ); fault_fired( FK_TRUNC ); break;
            case 2: removed = true; break;
            case 3: o.fail_op = pick( 16, "fail at" ); o.fail_len = pick( 2, "len" ) ? 100000 : 1; break;
            case 4: { u32 q = 20 + pick( 150, "rate" ); o.r_read_eio = pick( 2, "r" ) * q; o.r_open = pick( 2, "r" ) * q; o.r_eio = pick( 2, "r" ) * q; o.r_close = pick( 2, "r" ) * q; o.r_unlink = pick( 2, "r" ) * q; break; }
            case 5: o.disk_budget = pick( w.kind * 400 + size_of( w ) * 14 + 10, "space" ); break;
            case 6:
            {   // flipped and overwritten bytes
                Prng p( raw_seed( "flips" ) );
                unsigned n = 1 + pick( 4, "flips" );
                for ( unsigned i = 0; i < n && !file.empty(); ++i ) { u32 at = p.below( pick( 2, "early" ) ? std::min<u32>( file.size(), 12 ) : file.size() ); file[at] = pick( 2, "how" ) ? (char)p.next() : file[at] ^ ( 1 << p.below( 8 ) ); }
                only_safe = true; fault_fired( FK_FLIP );
                break;
            }
            default:
            {   // garbage of any length, or whole with a tail
                Prng p( raw_seed( "garbage" ) );
                if ( pick( 2, "tail" ) == 0 ) file.clear();
                unsigned n = 1 + pick( 300, "garbage" );
                int g = pick( 3, "garbage kind" );
                for ( unsigned i = 0; i < n; ++i ) file.push_back( g == 0 ? (char)p.next() : g == 1 ? (char)0xFF : (char)0 );
                only_safe = true; fault_fired( FK_FLIP );
            }
        }
        if ( removed ) remove_file( path ); else write_file( path, file );
        draw_soft( o );
        std::string got, sh;
        Outcome l = load_in_fresh( w, entry, path, o, got, sh );
        if ( l.kind != RET && l.kind != EXC && l.kind != ABORT ) violation( "load-ends-badly", "loading ends as %s %s", kind_name( l.kind ), l.what.c_str() );
        bool damaged = removed || file != whole || l.fs_faults;
        if ( l.kind == RET && !only_safe && ( got != b || sh != shapes_text( w ) ) )
            violation( "loaded-as-whole", "loading returns as if it had succeeded, but %s", describe( got, b ).c_str() );
        if ( l.kind == RET && removed ) violation( "loaded-as-whole", "loading a missing checkpoint returns as if it had succeeded" );
        if ( l.kind != RET && !damaged ) violation( "whole-refused", "loading a whole checkpoint ends as %s %s", kind_name( l.kind ), l.what.c_str() );
        cover( "damage " + std::to_string( mode ) + " " + kind_name( l.kind ) );
        std::string after;
        bool there = read_file( path, after );
        if ( removed ? there : !there || after != file ) violation( "load-changes-file", "loading changed the checkpoint file" );
    }
    write_file( path, whole );
    std::string got, sh;
    Outcome l = load_in_fresh( w, entry, path, base_opts(), got, sh );
    if ( l.kind != RET || got != b ) violation( "whole-refused", "after failed loads, the whole checkpoint does not load: %s %s", kind_name( l.kind ), describe( got, b ).c_str() );
}

// well-formed compression around damaged content
SCENARIO( C03, damaged_text, 1 )
{
    World w = draw_world( false );
    note_world( w );
    int entry = pick( 4, "entry" );
    u64 seed = raw_seed( "values" );
    std::string b = weights( w, seed );
    Outcome r = life( base_opts(), [&]
    {
        faults( false ); build( w, entry ); set( b ); g_save( "w" );
        std::ifstream f( "w", std::ios::binary ); std::stringstream s; lzw::decompress( f, s ); out_s( s.str() );
    } );
    if ( r.kind != RET ) violation( "save-fails", "saving on a healthy disk ends as %s %s", kind_name( r.kind ), r.what.c_str() );
    std::string text = r.log.s();
    auto listed = []( std::string const& t ) { std::stringstream ss( t.substr( 0, t.find( '\n' ) ) ); return std::vector<int>( std::istream_iterator<int>( ss ), std::istream_iterator<int>() ); };
    std::vector<int> const known = listed( text );
    Prng p( raw_seed( "text" ) );
    unsigned n = 1 + pick( 3, "edits" );
    bool cut = false;
    for ( unsigned i = 0; i < n && !text.empty(); ++i )
        switch ( pick( 8, "edit" ) )
        {
            case 7: { u32 a = pick( text.find( '\n' ) == std::string::npos ? text.size() : text.find( '\n' ) + 1, "at" ); text.insert( a, std::string( 1, "0123456789 "[pick( 11, "char" )] ) ); break; }      // a digit more in the list of ids
            case 0: text.resize( pick( text.size(), "cut" ) ); cut = true; break;
            case 1: { static char const* t[] = { "99999999999999", "-1", " ", "\n", "nan", "x", "18446744073709551615", "0", "4294967296 4294967296", "1e99" }; text.insert( pick( text.size(), "at" ), t[pick( 10, "token" )] ); break; }
            case 2: text[pick( text.size(), "at" )] = "0123456789 \n-.e"[pick( 15, "char" )]; break;
            case 3: { u32 a = pick( text.size(), "at" ); text.erase( a, 1 + pick( 20, "erase" ) ); break; }
            case 4: { u32 a = pick( std::min<u32>( text.size(), 16 ), "at" ); text.erase( a, 1 + pick( 4, "erase" ) ); break; }      // the list of ids
            case 5: text = text.substr( 0, text.find( '\n' ) ) + "\n"; break;
            default: text += std::string( 1 + pick( 50, "more" ), "1 \n"[pick( 3, "char" )] ); break;
        }
    fault_fired( FK_FLIP );
    LifeOpts o = base_opts();
    Outcome l = life( o, [&]
    {
        faults( false );
        { std::stringstream s( text ); std::ofstream f( "w", std::ios::binary ); lzw::compress( s, f ); }
        build( w, entry ); set( weights( w, 0xDEAD ) );
        faults( true );
        g_load( "w" );
        faults( false );
    } );
    if ( l.kind != RET && l.kind != EXC && l.kind != ABORT ) violation( "load-ends-badly", "loading ends as %s %s", kind_name( l.kind ), l.what.c_str() );
    unsigned unknown = 0;
    for ( int id : listed( text ) ) if ( std::find( known.begin(), known.end(), id ) == known.end() ) ++unknown;
    if ( unknown ) { count( "unknown_weights_listed" ); if ( l.kind == RET ) violation( "unknown-weight-loaded", "a checkpoint that lists a weight which the program does not have is loaded as if it were whole" ); }
    cover( std::string( "text " ) + ( unknown ? "unknown id " : "" ) + kind_name( l.kind ) );
    (void)cut;
}

// ---------------------------------------------------------------------------------------------------
static void c04_history( World const& w )
{
    note_world( w );
    int entry = pick( 4, "entry" );
    u64 seed = raw_seed( "values" );
    std::map<std::string, std::string> disk;      // the model: path -> weights
    unsigned lives = 1 + pick( 3, "processes" );
    unsigned serial = 0;
    for ( unsigned p = 0; p <= lives; ++p )
    {
        struct Op { int what; std::string path, bits; };
        std::vector<Op> ops;
        unsigned n = 1 + pick( 5, "operations" );
        if ( p == lives ) { for ( auto& [k, v] : disk ) ops.push_back( { 1, k, v } ); }     // the last one reads everything
        else
            for ( unsigned i = 0; i < n; ++i )
            {
                std::string path = paths[pick( 4, "path" )];
                int what = pick( 3, "op" );
                if ( what == 1 && !disk.count( path ) ) what = 0;
                if ( what == 0 ) { std::string b = weights( w, seed + ( pick( 4, "same" ) ? ++serial : 0 ) ); ops.push_back( { 0, path, b } ); disk[path] = b; }
                else if ( what == 1 ) ops.push_back( { 1, path, disk[path] } );
                else ops.push_back( { 2, path, "" } );                                            // save what is there now
                if ( what == 2 ) disk[path] = "?";
                if ( what == 2 )
                {   // the weights at this time: those of the latest operation before
                    std::string now = weights( w, seed );
                    for ( auto& q : ops ) if ( q.what != 2 ) now = q.bits;
                    ops.back().bits = now; disk[path] = now;
                }
            }
        LifeOpts o = base_opts(); draw_soft( o );
        o.cores = 1 + pick( 3, "cores" );
        if ( chance( 1, 4, "reuse" ) ) o.reuse = true;
        bool other = chance( 1, 4, "frozen differently" ); unsigned frozen = other ? pick( 64, "which" ) : 0;
        Outcome r = life( o, [&]
        {
            World mine = w; if ( other ) mine.frozen = frozen;
            build( mine, entry );
            set( weights( w, seed ) );
            for ( auto const& op : ops )
            {
                if ( op.what == 0 ) { set( op.bits ); g_save( op.path ); }
                else if ( op.what == 1 ) g_load( op.path );
                else g_save( op.path );
                std::string d = dump();
                if ( d != op.bits ) violation( op.what == 1 ? "load-differs" : "save-changes-weights", "after %s %s: %s", op.what == 1 ? "loading" : "saving", op.path.c_str(), describe( d, op.bits ).c_str() );
                if ( dump_shapes() != shapes_text( w ) ) violation( "load-differs", "the shapes have changed to %s", dump_shapes().c_str() );
            }
        } );
        if ( r.kind != RET ) violation( "fails", "saving and loading on a healthy disk ends as %s %s", kind_name( r.kind ), r.what.c_str() );
        std::set<std::string> want;
        for ( auto& [k, v] : disk ) want.insert( k );
        check_tidy( want, "a successful save or load" );
    }
    cover( "model " + std::to_string( w.kind ) + " values " + std::to_string( w.vclass ) + ( size_of( w ) > 2000 ? " large" : "" ) );
    nontrivial();
}
SCENARIO( C04, history, 60 ) { c04_history( draw_world() ); }
#ifndef CERAS_SIM_LZW_DMS
// enough text to fill the compressor's dictionary more than once
SCENARIO( C04, huge, 1 )
{
    World w; w.vclass = pick( 4, "values" );
    w.shapes = { { 3, 2 }, { 300ul + pick( 400, "rows" ), 1000ul }, { 5 } };
    std::string b = weights( w, raw_seed( "values" ) ), got, sh;
    note_world( w );
    Outcome r = life( base_opts(), [&] { build( w, 0 ); set( b ); g_save( "w" ); if ( dump() != b ) violation( "save-changes-weights", "saving changed the weights" ); } );
    if ( r.kind != RET ) violation( "fails", "saving on a healthy disk ends as %s %s", kind_name( r.kind ), r.what.c_str() );
    Outcome l = load_in_fresh( w, 0, "w", base_opts(), got, sh );
    if ( l.kind != RET ) violation( "fails", "loading on a healthy disk ends as %s %s", kind_name( l.kind ), l.what.c_str() );
    if ( got != b || sh != shapes_text( w ) ) violation( "load-differs", "%s", describe( got, b ).c_str() );
    check_tidy( { "w" }, "a successful save or load" );
    nontrivial();
}
#endif

// ---- M02: memory runs out while weights are saved or loaded -------------------------------------------------------
SCENARIO( M02, checkpoint, 1 )
{
    World w = draw_world();
    note_world( w );
    int entry = pick( 4, "entry" );
    std::string path = paths[pick( 4, "path" )];
    u64 seed = raw_seed( "values" );
    std::string const a = weights( w, seed ), b = weights( w, seed + 1 ), c = weights( w, seed + 2 );
    u64 in_save = 0, in_load = 0;
    {
        Outcome r = life( base_opts(), [&] { build( w, entry ); set( a ); u64 n0 = alloc_count(); g_save( path ); u64 n1 = alloc_count(); g_load( path ); u64 n2 = alloc_count(); Rt rt; out_u( n1 - n0 ); out_u( n2 - n1 ); } );
        if ( r.kind != RET ) { count( "history_cut_short" ); return; }
        in_save = r.log.u(); in_load = r.log.u();
    }
    static long const lens[] = { 1, 2, 4, 1000000 };
    auto where = [&]( u64 n ) { return (long)( pick( 3, "near the end" ) == 2 ? n - std::min<u64>( n, 1 + pick( 30, "allocation" ) ) : pick( (u32)n + 1, "allocation" ) ); };
    bool const loading = chance( 1, 2, "load" );
    long const at = where( loading ? in_load : in_save ), len = lens[pick( 4, "length" )];
    bool const reuse = chance( 1, 2, "reuse" ), again = chance( 1, 2, "again" );
    note( "memory ends at allocation %ld of %lu, for %ld allocations, while %s", at, (unsigned long)( loading ? in_load : in_save ), len, loading ? "loading" : "saving" );
    LifeOpts o = base_opts(); o.reuse = reuse;
    std::string whole; read_file( path, whole );
    Outcome r = life( o, [&]
    {
        build( w, entry );
        set( loading ? c : b );
        bool failed = false;
        set_alloc_fail( at, len );
        try { if ( loading ) g_load( path ); else g_save( path ); } catch ( std::exception const& ) { failed = true; }
        set_alloc_fail( -1, 0 );
        if ( open_files() ) violation( "open-file", "after %s ran out of memory %d files are open", loading ? "loading" : "saving", open_files() );
        out_u( failed ); out_s( dump() ); out_s( dump_shapes() );
        if ( again ) { if ( loading ) g_load( path ); else g_save( path ); out_s( dump() ); }
    } );
    if ( r.kind != RET && r.kind != ABORT ) violation( r.kind == HANG ? "hang" : "memory", "ends as %s %s", kind_name( r.kind ), r.what.c_str() );
    cover( std::string( loading ? "M02 load " : "M02 save " ) + kind_name( r.kind ) + ( r.alloc_faults ? " short" : "" ) );
    nontrivial();
    bool const ended = r.log.more();                       // the operation came back, successfully or with an exception
    bool failed = true; std::string got, sh;
    if ( ended ) { failed = r.log.u(); got = r.log.s(); sh = r.log.s(); if ( sh != shapes_text( w ) ) violation( "weight-changed", "a weight has another shape after %s ran out of memory", loading ? "loading" : "saving" ); }
    else if ( !r.alloc_faults ) violation( "failure-without-cause", "%s ends as %s although memory has not run out", loading ? "loading" : "saving", kind_name( r.kind ) );
    if ( ended && failed && !r.alloc_faults ) violation( "failure-without-cause", "%s fails although memory has not run out", loading ? "loading" : "saving" );
    bool const repeated = ended && r.log.more(); std::string const later = repeated ? r.log.s() : std::string();
    if ( ended && again && !repeated ) violation( "later-differs", "after %s had run out of memory, it fails with enough of it: %s", loading ? "loading" : "saving", r.what.c_str() );
    if ( loading )
    {
        std::string now; read_file( path, now );
        if ( now != whole ) violation( "file-changed", "loading that ran out of memory has changed the checkpoint" );
        if ( ended && !failed && got != a ) violation( "silent", "loading ran out of memory, returned, and the weights are not those of the checkpoint (%s)", describe( got, a ).c_str() );
        unsigned long p = 0; unsigned i = 0;
        if ( ended ) for ( auto const& s : w.shapes ) { unsigned long n = size_of( s ) * 4; std::string x = got.substr( p, n ); if ( x != a.substr( p, n ) && x != c.substr( p, n ) ) violation( "weight-torn", "weight %u is neither what it was nor what the checkpoint holds after loading ran out of memory", i ); p += n; ++i; }
        if ( repeated && later != a ) violation( "later-differs", "loading again gives other weights (%s)", describe( later, a ).c_str() );
        return;
    }
    if ( ended && got != b ) violation( "weight-changed", "saving that ran out of memory has changed the weights (%s)", describe( got, b ).c_str() );
    std::string bits, shapes;
    Outcome l = load_in_fresh( w, entry, path, base_opts(), bits, shapes );
    if ( l.kind != RET ) violation( "checkpoint-lost", "after saving had run out of memory, loading ends as %s %s", kind_name( l.kind ), l.what.c_str() );
    if ( bits != b && ( bits != a || ( ended && !failed ) || repeated ) ) violation( bits == a ? "silent" : "checkpoint-mixed", "after saving had run out of memory and %s, a fresh process loads %s (%s)", repeated ? "succeeded later" : ended && !failed ? "returned" : "failed", bits == a ? "the previous weights" : "something else", describe( bits, b ).c_str() );
}
