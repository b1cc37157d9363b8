// M01: the caching allocator against a model of the blocks in use.
#include CERAS_HPP
#include "sim.hpp"
#include <cstring>
#include <map>
using namespace sim;

namespace
{
    struct Odd { char c[13]; };
    struct Block { char* p; unsigned long n, bytes; int type; unsigned char pat; };
    template< typename T > char* get( unsigned long n ) { ceras::cached_allocator<T> a; return reinterpret_cast<char*>( a.allocate( n ) ); }
    template< typename T > void put( char* p, unsigned long n ) { ceras::cached_allocator<T> a; a.deallocate( reinterpret_cast<T*>( p ), n ); }
    struct Elem { char const* name; unsigned long size, align; char* ( *get )( unsigned long ); void ( *put )( char*, unsigned long ); };
    Elem const kinds[] =
    {
        { "float", 4, alignof( float ), get<float>, put<float> }, { "double", 8, alignof( double ), get<double>, put<double> },
        { "char", 1, 1, get<char>, put<char> }, { "unsigned long", 8, 8, get<unsigned long>, put<unsigned long> },
        { "long double", 16, alignof( long double ), get<long double>, put<long double> }, { "struct of 13", 13, 1, get<Odd>, put<Odd> },
    };
    void check( Block const& b )
    {
        if ( !addressable( b.p, b.bytes ) ) violation( "block-not-usable", "a block of %lu bytes still in use is no longer (wholly) inside live memory", b.bytes );
        for ( unsigned long i = 0; i < b.bytes; ++i )
            if ( (unsigned char)b.p[i] != (unsigned char)( b.pat + i ) ) violation( "block-overwritten", "byte %lu of a block of %lu bytes still in use has changed", i, b.bytes );
    }
    struct Act { int what; unsigned kind; unsigned long n; unsigned victim; };
}

SCENARIO( M01, history, 3 )
{
    // plan: a history of allocations, releases, failing system allocations
    unsigned steps = 3 + pick( 60, "steps" );
    unsigned sizes = 1 + pick( 5, "sizes" );
    std::vector<unsigned long> pool;
    for ( unsigned i = 0; i < sizes; ++i ) pool.push_back( pick( 8, "sizeclass" ) == 7 ? 4096ul + pick( 100000, "size" ) : pick( 60, "size" ) );
    std::vector<Act> acts; bool absurd = false;
    unsigned oom = pick( 3, "memory" );          // 0 plenty, 1 sometimes, 2 often
    for ( unsigned i = 0; i < steps; ++i )
    {
        Act a; u32 r = pick( 100, "act" );
        a.what = r < 49 ? 0 : r == 49 ? 3 : r < 88 ? 1 : 2;
        if ( a.what == 2 && !oom ) a.what = 0;
        a.kind = pick( 6, "kind" ); a.n = pool[pick( sizes, "n" )]; a.victim = pick( 1000, "victim" );
        if ( a.what == 3 )      // far more than there can be; the number of bytes may not even be a number
        {
            unsigned long const size = kinds[a.kind].size, most = ~0ul / size;
            switch ( pick( 5, "how much" ) ) { case 0: a.n = most + 1 + pick( 100, "more" ); break; case 1: a.n = most; break; case 2: a.n = most / 2 + 1; break; case 3: a.n = ~0ul - pick( 100, "less" ); break; default: a.n = ( 1ul << 62 ) + pick( 100, "more" ); }
            absurd = true;
        }
        acts.push_back( a );
    }
    LifeOpts o;
    o.reuse = chance( 1, 2, "reuse" );
    o.fill = pick( 2, "fill" ) ? 0xA5 : 0xFF;
    o.run_exit = chance( 1, 2, "exit" );
    bool release_all = chance( 1, 2, "release all" );
    u32 fail_len[64]; for ( auto& f : fail_len ) f = 1;
    for ( unsigned i = 0; i < 8; ++i ) fail_len[i] = 1 + pick( 3, "failures in a row" );
    Outcome r = life( o, [&]
    {
        std::vector<Block> live;
        unsigned char pat = 1; unsigned fails = 0, reused = 0, got_oom = 0, after_oom = 0;
        for ( auto const& a : acts )
        {
            Elem const& k = kinds[a.kind];
            if ( a.what == 1 )
            {
                if ( live.empty() ) continue;
                Block b;
                { Rt rt; unsigned v = a.victim % live.size(); b = live[v]; check( b ); live.erase( live.begin() + v ); }
                kinds[b.type].put( b.p, b.n );
                continue;
            }
            u64 before = alloc_fault_count();
            if ( a.what == 2 ) set_alloc_fail( a.victim % 4, fail_len[fails++ % 8] );
            char* p = nullptr;
            try { p = k.get( a.n ); } catch ( std::bad_alloc const& ) { ++got_oom; }
            set_alloc_fail( -1, 0 );
            if ( alloc_fault_count() > before ) ++after_oom;
            {
                Rt rt;
                for ( auto const& b : live ) check( b );
                if ( !p ) continue;
                if ( a.n > ( 1ul << 40 ) ) violation( "block-too-small", "a block for %lu x %s was handed out", a.n, k.name );
                Block b{ p, a.n, a.n * k.size, (int)a.kind, pat++ };
                if ( reinterpret_cast<std::uintptr_t>( p ) % k.align ) violation( "misaligned", "a block for %lu x %s is not aligned to %lu", a.n, k.name, k.align );
                if ( !addressable( p, b.bytes ) ) violation( "block-too-small", "a block for %lu x %s is not wholly inside live memory", a.n, k.name );
                for ( auto const& l : live )
                    if ( l.bytes && b.bytes && l.p < p + b.bytes && p < l.p + l.bytes ) violation( "block-in-use", "a block of %lu bytes overlaps one of %lu bytes that is still in use", b.bytes, l.bytes );
                for ( unsigned long i = 0; i < b.bytes; ++i ) if ( p[i] ) violation( "not-zeroed", "byte %lu of a new block for %lu x %s is not zero", i, a.n, k.name );
                for ( unsigned long i = 0; i < b.bytes; ++i ) p[i] = (char)( b.pat + i );
                live.push_back( b );
            }
        }
        if ( release_all ) for ( auto const& b : live ) { { Rt rt; check( b ); } kinds[b.type].put( b.p, b.n ); }
        out_u( got_oom ); out_u( after_oom ); (void)reused;
    } );
    if ( r.kind != RET && r.kind != EXC && r.kind != ABORT ) violation( "ends-badly", "the history ends as %s %s", kind_name( r.kind ), r.what.c_str() );
    if ( r.kind != RET && r.alloc_faults == 0 && !absurd ) violation( "failure-without-cause", "allocating ends as %s %s though memory never ran out", kind_name( r.kind ), r.what.c_str() );
    cover( std::string( absurd ? "absurd memory " : "memory " ) + std::to_string( oom ) + " " + kind_name( r.kind ) + ( o.run_exit ? " exit" : "" ) );
    nontrivial();
}

// a machine with little memory: what the program has released can be handed out again, whatever size is asked for next
SCENARIO( M01, little_memory, 1 )
{
    unsigned long const unit = 4096;
    unsigned steps = 3 + pick( 40, "steps" );
    unsigned long limit = unit * ( 4 + pick( 30, "memory" ) );
    struct Step { bool get; unsigned kind; unsigned long n; unsigned victim; };
    std::vector<Step> acts;
    for ( unsigned i = 0; i < steps; ++i ) acts.push_back( { pick( 100, "act" ) < 58, pick( 6, "kind" ), unit * ( 1 + pick( 6, "size" ) ) + pick( 3, "odd" ) * 200, pick( 1000, "victim" ) } );
    bool tensors = chance( 1, 3, "tensors" );
    LifeOpts o; o.reuse = chance( 1, 2, "reuse" ); o.fill = pick( 2, "fill" ) ? 0xA5 : 0xFF; o.run_exit = chance( 1, 2, "exit" );
    Outcome r = life( o, [&]
    {
        std::vector<Block> live; unsigned char pat = 1; unsigned long in_use = 0, full = 0, got = 0;
        std::vector<ceras::tensor<float>> ts;
        { Rt rt; live.reserve( 100 ); }
        ts.reserve( 100 );
        set_large_limit( unit, limit );
        for ( auto const& a : acts )
        {
            Elem const& k = kinds[tensors ? 0 : a.kind]; unsigned long const n = a.n / k.size + 1, bytes = n * k.size;
            if ( !a.get )
            {
                if ( live.empty() ) continue;
                unsigned const v = a.victim % live.size();
                Block b; { Rt rt; b = live[v]; check( b ); live.erase( live.begin() + v ); }
                in_use -= b.bytes;
                if ( tensors ) ts.erase( ts.begin() + v ); else kinds[b.type].put( b.p, b.n );
                continue;
            }
            if ( in_use + bytes > limit ) { ++full; continue; }      // does not fit: whatever happens is not judged here
            char* p = nullptr;
            try { if ( tensors ) { ts.push_back( ceras::tensor<float>{ std::vector<unsigned long>{ n, 1ul } } ); p = reinterpret_cast<char*>( ts.back().data() ); } else p = k.get( n ); }
            catch ( std::bad_alloc const& ) { violation( "refused", "%lu bytes are refused although only %lu of %lu are in use", bytes, in_use, limit ); }
            in_use += bytes; ++got;
            Rt rt;
            for ( auto const& b : live ) check( b );
            Block b{ p, n, bytes, (int)( tensors ? 0 : a.kind ), pat++ };
            if ( !addressable( p, b.bytes ) ) violation( "block-too-small", "a block for %lu x %s is not wholly inside live memory", n, k.name );
            for ( auto const& l : live ) if ( l.p < p + b.bytes && p < l.p + l.bytes ) violation( "block-in-use", "a block of %lu bytes overlaps one of %lu bytes that is still in use", b.bytes, l.bytes );
            for ( unsigned long i = 0; i < b.bytes; ++i ) if ( p[i] ) violation( "not-zeroed", "byte %lu of a new block for %lu x %s is not zero", i, n, k.name );
            for ( unsigned long i = 0; i < b.bytes; ++i ) p[i] = (char)( b.pat + i );
            live.push_back( b );
        }
        { Rt rt; for ( auto const& b : live ) check( b ); }
        set_large_limit( ~0ul, ~0ul );
        out_u( got ); out_u( full );
    } );
    if ( r.kind == ABORT || r.kind == EXC ) violation( "refused", "the program ends as %s %s although what it asks for fits into memory", kind_name( r.kind ), r.what.c_str() );
    if ( r.kind != RET ) violation( "ends-badly", "the history ends as %s %s", kind_name( r.kind ), r.what.c_str() );
    cover( std::string( "little memory " ) + ( tensors ? "tensors" : "blocks" ) + ( r.alloc_faults ? " reclaimed" : "" ) );
    nontrivial();
}

// the same through tensors: copies, resizing, temporary results, memory running out, leaving the process
SCENARIO( M01, tensors, 1 )
{
    unsigned steps = 2 + pick( 25, "steps" );
    struct Op { int what; unsigned a, b; unsigned long r, c; };
    std::vector<Op> ops;
    for ( unsigned i = 0; i < steps; ++i ) ops.push_back( { (int)pick( 9, "op" ), pick( 5, "a" ), pick( 5, "b" ), 1ul + pick( 6, "rows" ), 1ul + pick( 6, "cols" ) } );
    LifeOpts o;
    o.reuse = chance( 1, 2, "reuse" );
    o.fill = pick( 2, "fill" ) ? 0xA5 : 0xFF;
    o.run_exit = true;
    o.cores = 1 + pick( 4, "cores" );
    bool use_session = chance( 1, 2, "session" );
    bool oom = chance( 1, 2, "memory" );
    u32 period = 1 + pick( 12, "period" );
    u32 at = pick( 12, "failing allocation" ), len = 1 + pick( 2, "in a row" );
    Outcome r = life( o, [&]
    {
        typedef ceras::tensor<float> T;
        std::vector<T> ts( 5 );
        std::vector<std::vector<float>> model( 5 );
        auto remember = [&]( unsigned k ) { Rt rt; model[k].assign( ts[k].data(), ts[k].data() + ts[k].size() ); };
        auto verify = [&] { Rt rt; for ( unsigned k = 0; k < 5; ++k ) { if ( ts[k].size() != model[k].size() || std::memcmp( ts[k].data(), model[k].data(), 4 * model[k].size() ) ) violation( "block-overwritten", "tensor %u has changed although nobody wrote to it", k ); } };
        for ( unsigned k = 0; k < 5; ++k ) { ts[k] = ceras::ones<float>( { 2, 2 } ); remember( k ); }
        u32 n = 0; u64 failed = 0;
        for ( auto const& op : ops )
        {
            if ( oom && ++n % period == 0 ) set_alloc_fail( at, len );
            try
            {
                T t;
                switch ( op.what )
                {
                    case 0: t = ceras::random<float>( { op.r, op.c } ); break;
                    case 1: t = ceras::zeros<float>( { op.r, op.c } ); for ( auto v : t ) if ( v != 0.0f ) violation( "not-zeroed", "zeros() holds %g", v ); break;
                    case 2: t = ts[op.b].deep_copy(); break;
                    case 3: t = T{ std::vector<unsigned long>{ op.r, op.c } }; for ( auto v : t ) if ( v != 0.0f ) violation( "not-zeroed", "a new tensor holds %g", v ); break;
                    case 4: t = ts[op.b].deep_copy(); t.resize( { op.r, op.c } ); break;
                    case 5: t = ceras::random<float>( { op.r, op.c } ) * ceras::random<float>( { op.c, op.r } ); break;
                    case 6: t = ceras::concatenate( ceras::ones<float>( { op.r, op.c } ), ceras::zeros<float>( { op.r, op.c } ) ); break;
                    case 7: { std::vector<unsigned long> deep( 30 + op.r, 1ul ); deep[op.c] = op.r; t = ts[op.b].deep_copy(); t.resize( deep ); T u{ t.shape() }; u.deep_copy( t ); ts[op.a] = u; remember( op.a ); t.reshape( { op.r, 1 } ); break; }   // a shape that does not fit into its buffer
                    default: { std::vector<T> many; for ( unsigned long i = 0; i < op.r; ++i ) many.push_back( T{ std::vector<unsigned long>{ op.r, op.c } } ); t = many.back(); } break;
                }
                set_alloc_fail( -1, 0 );
                ts[op.a] = t;
                remember( op.a );
            }
            catch ( std::bad_alloc const& ) { set_alloc_fail( -1, 0 ); ++failed; }
            verify();
        }
        if ( use_session ) { ceras::variable<T> v{ ceras::random<float>( { 3, 3 } ) }; auto e = v * v; auto& s = ceras::get_default_session<T>(); auto y = s.run( e ); (void)y; }
        out_u( failed );
    } );
    if ( r.kind != RET && r.kind != EXC && r.kind != ABORT ) violation( "ends-badly", "the history ends as %s %s", kind_name( r.kind ), r.what.c_str() );
    if ( r.kind != RET && r.alloc_faults == 0 ) violation( "failure-without-cause", "tensor work ends as %s %s though memory never ran out", kind_name( r.kind ), r.what.c_str() );
    cover( std::string( "tensors " ) + ( oom ? "oom " : "" ) + kind_name( r.kind ) );
    nontrivial();
}
