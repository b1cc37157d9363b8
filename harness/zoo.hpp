// Random expression graphs, histories of evaluations over them, and the isolated reference they are judged by.
#ifndef VERIF_ZOO_HPP
#define VERIF_ZOO_HPP
#include "graph.hpp"

namespace gr
{
    enum What { PH, VAR, CONSTANT, OP };
    struct Node
    {
        int what = OP, kind = -1; int a[2] = { -1, -1 }; unsigned p[4] = { 0, 0, 0, 0 };
        std::vector<Shape> s;          // shape per binding
        int share = -1;                // node whose functor is used again
        float l1 = 0, l2 = 0; bool trainable = true;
        u64 seed = 0; int vclass = 0;
    };
    struct Graph
    {
        std::vector<Node> n; int nb = 1; std::vector<int> roots; int phases = 3;   // bit 0: phase 0, bit 1: phase 1
        bool grad = true, early = true;   // early: built before anything is bound
        Kind const& k( int i ) const { return kinds()[n[i].kind]; }
        void below( int r, std::set<int>& out ) const { if ( r < 0 || out.count( r ) ) return; out.insert( r ); below( n[r].a[0], out ); below( n[r].a[1], out ); }
    };
    inline std::string describe( Graph const& g, int i )
    {
        Node const& n = g.n[i]; std::string r = "n" + std::to_string( i ) + "=";
        if ( n.what == PH ) r += "input"; else if ( n.what == VAR ) r += "weight"; else if ( n.what == CONSTANT ) r += "constant";
        else { r += g.k( i ).name; r += "("; for ( int j = 0; j < g.k( i ).nin; ++j ) r += ( j ? ",n" : "n" ) + std::to_string( n.a[j] ); for ( int j = 0; j < 4; ++j ) if ( g.k( i ).pmax[j] > 1 ) r += ";" + std::to_string( n.p[j] ); r += ")"; if ( n.share >= 0 ) r += " functor of n" + std::to_string( n.share ); }
        for ( auto const& s : n.s ) { r += " " + str( s ); if ( n.what == VAR || n.what == CONSTANT ) break; }
        return r;
    }

    inline float value_of( Prng& r, int vclass ) { return vclass == 0 ? (float)r.range( -2, 2 ) : vclass == 1 ? 0.5f * (int)( (int)r.below( 9 ) - 4 ) : (float)r.range( 0.2, 1.5 ); }
    inline std::string bytes_for( Shape const& s, u64 seed, int vclass )
    {
        Prng r( seed ); std::string b; unsigned long n = size_of( s );
        for ( unsigned long i = 0; i < n; ++i ) { float f = value_of( r, vclass ); b.append( (char const*)&f, 4 ); }
        return b;
    }


    // ---- generation (supervisor) -------------------------------------------------------------------
    struct GenOpts { int max_ops = 12; bool grad = true; unsigned long max_size = 420; int nb_max = 3; bool layers = true; int min_ops = 1; bool random = false; };     // random: operations that draw numbers in training are used in training as well
    inline Graph generate( GenOpts const& go )
    {
        Graph g;
        g.nb = 1 + pick( go.nb_max, "bindings" );
        bool image = chance( 1, 2, "image" );
        bool fixed_image = !image || chance( 1, 2, "image size fixed" );
        int mode = pick( 6, "phases" );                 // 5: inference only, 3,4: training only
        g.phases = mode == 5 ? 1 : mode >= 3 ? 2 : 3;
        g.grad = go.grad && g.phases != 1;
        bool bound_early = false;
        std::vector<unsigned long> B, R, C;
        unsigned long CH = 1 + pick( 3, "channels" ), K = 1 + pick( 6, "columns" );
        for ( int b = 0; b < g.nb; ++b )
        {
            B.push_back( 1 + pick( 5, "batch" ) );
            bool keep = b && fixed_image;
            R.push_back( keep ? R[0] : 2 + pick( 6, "rows" ) ); C.push_back( keep ? C[0] : 2 + pick( 6, "cols" ) );
            if ( b && image && !fixed_image && chance( 1, 3, "transposed image" ) ) { R[b] = C[0]; C[b] = R[0]; B[b] = B[0]; }    // same number of elements in another arrangement
        }
        auto ph = [&]( bool img ) { Node n; n.what = PH; n.seed = sim::raw_seed( "input" ); n.vclass = pick( 3, "values" ); for ( int b = 0; b < g.nb; ++b ) n.s.push_back( img ? Shape{ B[b], R[b], C[b], CH } : Shape{ B[b], K } ); g.n.push_back( n ); return (int)g.n.size() - 1; };
        auto leaf = [&]( int what, Shape const& s ) { Node n; n.what = what; n.seed = sim::raw_seed( "leaf" ); n.vclass = pick( 3, "values" ); n.s.assign( g.nb, s ); if ( what == VAR ) { u32 r = pick( 6, "penalty" ); if ( r == 4 ) n.l1 = 0.05f; if ( r == 5 ) n.l2 = 0.1f; if ( r == 3 && pick( 3, "both" ) == 2 ) n.l1 = n.l2 = 0.07f; n.trainable = pick( 8, "trainable" ) != 7; } g.n.push_back( n ); return (int)g.n.size() - 1; };
        ph( image );
        if ( chance( 1, 3, "second input" ) ) ph( image );
        auto constant_shape = [&]( int i ) { for ( auto const& s : g.n[i].s ) if ( s != g.n[i].s[0] ) return false; return true; };
        std::map<int,int> uses;
        auto operand = [&]() -> int
        {
            int r = pick( 4, "operand" ), m = g.n.size();
            if ( r <= 1 ) return m - 1;
            if ( r == 2 ) return std::max( 0, m - 1 - (int)pick( 4, "back" ) );
            return pick( m, "any" );
        };
        std::vector<int> pool; for ( unsigned i = 0; i < kinds().size(); ++i ) for ( int w = 0; w < kinds()[i].weight; ++w ) pool.push_back( i );
        auto add = [&]( int kind, int a0, int a1, unsigned const* p, int share ) -> int
        {
            Kind const& k = kinds()[kind];
            Node n; n.kind = kind; n.a[0] = a0; n.a[1] = k.nin > 1 ? a1 : -1; n.share = share;
            for ( int i = 0; i < 4; ++i ) n.p[i] = p ? p[i] : 0;
            std::vector<Shape> s0; for ( int i = 0; i < k.nin; ++i ) s0.push_back( g.n[n.a[i]].s[0] );
            for ( int b = 0; b < g.nb; ++b )
            {
                std::vector<Shape> s; for ( int i = 0; i < k.nin; ++i ) s.push_back( g.n[n.a[i]].s[b] );
                Shape o = k.infer( s, n.p, s0 );
                if ( o.empty() || size_of( o ) > go.max_size || size_of( o ) == 0 ) return -1;
                if ( ( k.flags & FIXED ) && s != s0 ) return -1;
                if ( k.flags & FIXED_IMAGE ) for ( unsigned i = 1; i < s[0].size(); ++i ) if ( s[0][i] != s0[0][i] ) return -1;
                if ( ( k.flags & LAYER ) && s[0].back() != s0[0].back() ) return -1;
                n.s.push_back( o );
            }
            if ( k.flags & ( BUILD_BOUND | FIXED_IMAGE | LAYER ) ) bound_early = true;
            n.seed = ( k.flags & LAYER ) ? sim::raw_seed( "layer" ) : 0;
            g.n.push_back( n );
            return g.n.size() - 1;
        };
        auto squash = [&]( int i, int dom ) -> int
        {
            if ( dom == ANY ) return i;
            if ( dom == UNIT ) { unsigned p1[4] = { 1 }; int t = add( kind_of( "tanh" ), i, -1, nullptr, -1 ); return t < 0 ? t : add( kind_of( "x*a" ), t, -1, p1, -1 ); }
            unsigned pa[4] = { dom == POS ? 1u : 0u }; int t = add( kind_of( "sigmoid" ), i, -1, nullptr, -1 );
            return t < 0 ? t : add( kind_of( "x+a" ), t, -1, pa, -1 );
        };
        int want = go.min_ops + pick( go.max_ops - go.min_ops + 1, "operations" ), made = 0;
        for ( int tries = 0; made < want && tries < want * 12; ++tries )
        {
            int kind = pool[pick( pool.size(), "kind" )];
            Kind const& k = kinds()[kind];
            if ( ( k.flags & PHASE0 ) && g.phases != 1 && !go.random ) continue;
            if ( ( k.flags & PHASE1 ) && g.phases != 2 ) continue;
            if ( ( k.flags & NO_GRAD ) && g.grad ) continue;
            if ( ( k.flags & LAYER ) && !go.layers ) continue;
            if ( k.flags & SCALAR ) continue;
            unsigned p[4]; for ( int i = 0; i < 4; ++i ) p[i] = k.pmax[i] > 1 ? pick( k.pmax[i], "param" ) : 0;
            int a0 = operand(), a1 = -1;
            unsigned mark = g.n.size();
            if ( k.nin == 2 )
            {
                std::string nm = k.name; Shape const& s = g.n[a0].s[0];
                bool cs = true; for ( auto const& q : g.n[a0].s ) if ( q.back() != s.back() ) cs = false;
                if ( nm == "multiply" )
                {
                    if ( g.n[a0].s[0].size() != 2 ) continue;
                    if ( cs && chance( 3, 4, "weight" ) ) { unsigned long cols = 1 + pick( 5, "cols" ); a1 = leaf( VAR, { s[1], cols } ); }
                    else a1 = operand();
                }
                else if ( nm == "conv2d" || nm == "conv2d_transpose" )
                {
                    if ( s.size() != 4 ) continue;
                    unsigned long kk = 1 + pick( 3, "kernel" ), nc = 1 + pick( 3, "filters" ), ch = s[3];
                    a1 = leaf( VAR, { nc, kk, kk, ch } );
                }
                else
                {
                    int r = pick( 6, "second operand" );
                    if ( r <= 1 ) a1 = operand();
                    else if ( r == 2 ) a1 = a0;
                    else if ( r == 3 && cs ) { unsigned long c = s.back(); a1 = leaf( VAR, { c } ); }
                    else if ( r == 4 && cs && s.size() == 2 ) { unsigned long c = s.back(); a1 = leaf( VAR, { 1, c } ); }
                    else if ( constant_shape( a0 ) ) { Shape c = s; a1 = leaf( pick( 3, "constant" ) == 2 ? CONSTANT : VAR, c ); }
                    else { for ( int t = 0; t < 6; ++t ) { a1 = operand(); if ( g.n[a1].s == g.n[a0].s ) break; } }
                    if ( chance( 1, 4, "swap" ) && g.n[a0].s == g.n[a1].s ) std::swap( a0, a1 );
                }
            }
            int share = -1;
            if ( ( k.flags & SHAREABLE ) && chance( 1, 3, "share functor" ) ) for ( unsigned i = 0; i < g.n.size(); ++i ) if ( g.n[i].kind == kind ) { share = i; for ( int j = 0; j < 4; ++j ) p[j] = g.n[i].p[j]; }
            int b0 = squash( a0, k.dom[0] ), b1 = k.nin > 1 ? ( a1 == a0 && k.dom[0] == k.dom[1] ? b0 : squash( a1, k.dom[1] ) ) : -1;
            int i = b0 < 0 || ( k.nin > 1 && b1 < 0 ) ? -1 : add( kind, b0, b1, p, share );
            if ( i < 0 ) { g.n.resize( mark ); continue; }
            ++made;
        }
        // roots: the last node, perhaps others; some made scalar by a reduction or a loss
        int m = g.n.size();
        int nr = 1 + pick( 3, "roots" );
        std::vector<int> scalars; for ( unsigned i = 0; i < kinds().size(); ++i ) if ( kinds()[i].flags & SCALAR ) for ( int w = 0; w < kinds()[i].weight; ++w ) scalars.push_back( i );
        for ( int r = 0; r < nr; ++r )
        {
            int base = r == 0 ? m - 1 : (int)pick( m, "root" );
            if ( g.n[base].what != OP ) { if ( r ) continue; }
            int root = base;
            if ( chance( 2, 3, "scalar root" ) )
            {
                int kind = scalars[pick( scalars.size(), "scalar" )];
                Kind const& k = kinds()[kind];
                unsigned p[4] = { k.pmax[0] > 1 ? pick( k.pmax[0], "param" ) : 0u, 0, 0, 0 };
                int a1 = -1; unsigned mark = g.n.size();
                if ( k.nin == 2 )
                {
                    for ( int i = 0; i < m; ++i ) if ( i != base && g.n[i].s == g.n[base].s && chance( 1, 2, "target" ) ) { a1 = i; break; }
                    if ( a1 < 0 && constant_shape( base ) ) { Shape c = g.n[base].s[0]; a1 = leaf( CONSTANT, c ); }
                    if ( a1 < 0 ) a1 = base;
                }
                int b0 = squash( base, k.dom[0] ), b1 = k.nin > 1 ? squash( a1, k.dom[1] ) : -1;
                int i = b0 < 0 || ( k.nin > 1 && b1 < 0 ) ? -1 : add( kind, b0, b1, p, -1 );
                if ( i < 0 ) g.n.resize( mark ); else root = i;
            }
            if ( g.n[root].what == OP ) g.roots.push_back( root );
        }
        if ( g.roots.empty() ) sim::skip();
        g.early = !bound_early && chance( 1, 3, "build before binding" );
        for ( unsigned i = 0; i < g.n.size(); ++i ) sim::note( "%s", describe( g, i ).c_str() );
        for ( int r : g.roots ) sim::note( "root n%d", r );
        return g;
    }

    // ---- a history -----------------------------------------------------------------------------------
    enum Act { EVAL, GRAD, REBIND, NEWDATA, OVERWRITE, SETW, TRAIN, SAVELOAD, PREDICT, SCRIBBLE, FREEZE, ACTS };
    struct Step { int act; int root; int phase; int binding; u64 seed; u32 sel; };
    inline std::vector<Step> generate_history( Graph const& g, int max_steps, bool scribble )
    {
        std::vector<Step> h;
        int n = 2 + pick( max_steps - 1, "steps" );
        for ( int i = 0; i < n; ++i )
        {
            Step s; u32 r = pick( 100, "step" );
            s.act = r < 26 ? EVAL : r < 50 ? ( g.grad ? GRAD : EVAL ) : r < 66 ? REBIND : r < 72 ? NEWDATA : r < 78 ? OVERWRITE : r < 84 ? SETW : r < 90 ? ( g.grad ? TRAIN : EVAL ) : r < 92 ? SAVELOAD : r < 96 ? PREDICT : scribble ? SCRIBBLE : EVAL;
            if ( s.act == PREDICT && g.phases == 2 ) s.act = EVAL;
            s.root = g.roots[pick( g.roots.size(), "root" )];
            s.phase = g.phases == 3 ? (int)pick( 2, "phase" ) ^ 1 : g.phases == 1 ? 0 : 1;
            s.binding = pick( g.nb, "binding" ); s.seed = 0; s.sel = 0;
            if ( s.act == NEWDATA || s.act == OVERWRITE || s.act == SETW ) { s.seed = sim::raw_seed( "values" ); s.sel = pick( 64, "which" ); }
            if ( s.act == GRAD || s.act == TRAIN ) s.phase = 1;
            // something else is evaluated on the same inputs between the evaluation and its backward pass
            if ( s.act == GRAD && pick( 4, "look" ) == 3 ) s.sel = 1 + pick( g.roots.size(), "other root" ) * 2 + ( g.phases == 3 ? pick( 2, "in inference" ) : 0 );
            h.push_back( s );
        }
        static char const* nm[] = { "evaluate", "evaluate with gradients", "bind sizes", "bind new data", "overwrite data", "set weight", "train", "save and load", "predict", "write into a result", "freeze" };
        for ( auto const& s : h ) { sim::note( "%s root n%d phase %d sizes %d", nm[s.act], s.root, s.phase, s.binding ); if ( s.act == GRAD && s.sel ) sim::note( "  evaluating n%d in %s before its backward pass", g.roots[( s.sel - 1 ) / 2], ( s.sel - 1 ) & 1 ? "inference" : "training" ); }
        return h;
    }

    // ---- running a history in a lifetime ---------------------------------------------------------------
    inline std::string raw( T const& t ) { return std::string( (char const*)t.data(), t.size() * 4 ); }
    inline T make_tensor( Shape const& s, std::string const& b ) { T t{ s }; if ( t.size() * 4 != b.size() ) sim::harness_error( "tensor of %lu elements for %lu bytes", t.size(), b.size() ); std::memcpy( t.data(), b.data(), b.size() ); return t; }

    struct Subject
    {
        Graph const& g;
        std::vector<std::unique_ptr<Any>> e;                    // expressions, as far as built
        std::vector<Fn> f;                                      // functors
        std::map<int, Ph> ph; std::map<int, std::vector<T>> data; // inputs: the caller's own tensors, per sizes
        std::map<int, std::vector<Var>> w;                      // weights per node (a VAR node, or a layer)
        int binding = 0;
        std::map<int, std::string> shadow_in, shadow_w;         // what inputs and weights must hold
        struct Held { T t; std::string b; Shape s; std::string why; };
        std::vector<Held> held;
        bool quiet = false;                                     // M03: nothing is recorded
        bool check = false;                                     // S02: compare after every step
        Subject( Graph const& gg ) : g( gg ), e( gg.n.size() ), f( gg.n.size() ) {}

        void leaves()
        {
            for ( unsigned i = 0; i < g.n.size(); ++i )
            {
                Node const& n = g.n[i];
                if ( n.what == PH )
                {
                    Shape hint = n.s[0]; hint.erase( hint.begin() );
                    hint.insert( hint.begin(), -1ul );
                    ph.emplace( i, Ph{ hint } );
                    for ( int b = 0; b < g.nb; ++b ) { Rt rt; data[i].push_back( make_tensor( n.s[b], bytes_for( n.s[b], n.seed * 16 + b, n.vclass ) ) ); }
                }
                if ( n.what == VAR )
                {
                    Var v{ make_tensor( n.s[0], bytes_for( n.s[0], n.seed, n.vclass ) ), n.l1, n.l2, n.trainable };
                    w[i].push_back( v );
                }
            }
        }
        void bind( int b )
        {
            auto& ss = ceras::get_default_session<T>();
            binding = b;
            for ( auto& [i, p] : ph ) ss.bind( p, data[i][b] );
        }
        static int last_variable() { int m = -1; for ( auto const& [id, v] : ceras::get_default_session<T>().variables_ ) m = std::max( m, id ); return m; }
        static std::vector<Var> variables_after( int m ) { std::map<int, Var> o; for ( auto const& [id, v] : ceras::get_default_session<T>().variables_ ) if ( id > m ) o.insert( { id, v } ); std::vector<Var> r; for ( auto const& [id, v] : o ) r.push_back( v ); return r; }
        Any& build( int i )
        {
            if ( e[i] ) return *e[i];
            Node const& n = g.n[i];
            Any made;
            if ( n.what == PH ) made = Any( ph.at( i ) );
            else if ( n.what == VAR ) made = Any( w[i][0] );
            else if ( n.what == CONSTANT ) made = Any( ceras::constant<T>{ make_tensor( n.s[0], bytes_for( n.s[0], n.seed, n.vclass ) ) } );
            else
            {
                Kind const& k = g.k( i );
                Args a; for ( int j = 0; j < k.nin; ++j ) a.push_back( build( n.a[j] ) );
                int before = ( k.flags & LAYER ) ? last_variable() : 0;
                Fn fn;
                if ( n.share >= 0 && f[n.share] ) fn = f[n.share];
                else { std::vector<Shape> s0; for ( int j = 0; j < k.nin; ++j ) s0.push_back( g.n[n.a[j]].s[0] ); fn = k.make( n.p, s0 ); f[i] = fn; if ( n.share >= 0 ) f[n.share] = fn; }
                made = fn( a );
                if ( k.flags & LAYER )
                {
                    w[i] = variables_after( before );
                    Rt rt; unsigned q = 0;
                    for ( auto& v : w[i] ) { auto& d = v.data(); std::string b = bytes_for( d.shape(), n.seed * 8 + q++, 0 ); std::memcpy( d.data(), b.data(), b.size() ); }
                }
            }
            e[i] = std::make_unique<Any>( made );
            return *e[i];
        }
        std::vector<std::pair<int,int>> weights_of( int root ) { std::set<int> b; g.below( root, b ); std::vector<std::pair<int,int>> r; for ( auto& [i, v] : w ) if ( b.count( i ) ) for ( unsigned q = 0; q < v.size(); ++q ) r.push_back( { i, (int)q } ); return r; }

        // S02
        int key( int i, int q ) { return i * 64 + q; }
        void remember()
        {
            Rt rt;
            shadow_in.clear(); shadow_w.clear();
            for ( auto& [i, v] : data ) for ( unsigned b = 0; b < v.size(); ++b ) shadow_in[key( i, b )] = raw( v[b] ) + str( v[b].shape() );
            for ( auto& [i, v] : w ) for ( unsigned q = 0; q < v.size(); ++q ) shadow_w[key( i, q )] = raw( v[q].data() ) + str( v[q].data().shape() );
        }
        void compare( char const* after, bool weights, bool inputs = true )
        {
            Rt rt;
            if ( inputs ) for ( auto& [i, v] : data ) for ( unsigned b = 0; b < v.size(); ++b ) if ( shadow_in[key( i, b )] != raw( v[b] ) + str( v[b].shape() ) ) sim::violation( "input-changed", "input n%d changed during %s", i, after );
            if ( weights ) for ( auto& [i, v] : w ) for ( unsigned q = 0; q < v.size(); ++q ) if ( shadow_w.count( key( i, q ) ) && shadow_w[key( i, q )] != raw( v[q].data() ) + str( v[q].data().shape() ) ) sim::violation( "weight-changed", "weight %u of n%d changed during %s", q, i, after );
            for ( auto& h : held ) if ( raw( h.t ) != h.b || h.t.shape() != h.s ) sim::violation( "result-changed", "a result of %s handed out before changed during %s", h.why.c_str(), after );
        }
        void hold( T const& r, std::string const& why ) { Rt rt; held.push_back( { r, raw( r ), r.shape(), why } ); if ( held.size() > 12 ) held.erase( held.begin() ); }

        void log_leaves( int root, int phase, int b, bool grad )
        {
            if ( quiet ) return;
            Rt rt;
            sim::out_u( 1 ); sim::out_u( root ); sim::out_u( phase ); sim::out_u( b ); sim::out_u( grad );
            for ( auto& [i, v] : data ) sim::out_s( raw( v[b] ) );
            auto ws = weights_of( root );
            sim::out_u( ws.size() );
            for ( auto [i, q] : ws ) { sim::out_u( i ); sim::out_u( q ); sim::out_s( raw( w[i][q].data() ) ); }
        }
        void log_result( T const& r, int root, bool grad )
        {
            if ( quiet ) return;
            Rt rt;
            sim::out_u( 2 ); Shape s = r.shape(); sim::out_u( s.size() ); for ( auto d : s ) sim::out_u( d ); sim::out_s( raw( r ) );
            if ( grad ) for ( auto [i, q] : weights_of( root ) ) sim::out_s( raw( w[i][q].gradient() ) );
        }
        // new values for all, one, all but the first or all but the last
        static std::string changed( std::string const& old, std::string now, Step const& s )
        {
            u32 m = s.sel >> 2 & 7; u64 n = now.size() / 4, at = s.seed % n;
            if ( m == 5 ) { std::string r = old; std::memcpy( &r[at * 4], &now[at * 4], 4 ); return r; }
            if ( m == 6 ) std::memcpy( &now[0], &old[0], 4 );
            if ( m == 7 ) std::memcpy( &now[now.size() - 4], &old[now.size() - 4], 4 );
            return now;
        }
        void step( Step const& s )
        {
            auto& ss = ceras::get_default_session<T>();
            if ( check ) remember();
            switch ( s.act )
            {
                case EVAL: case GRAD:
                {
                    Any& x = build( s.root );
                    if ( check ) remember();
                    log_leaves( s.root, s.phase, binding, s.act == GRAD );
                    ceras::learning_phase = s.phase;
                    T r = ss.run( x );
                    hold( r, "n" + std::to_string( s.root ) );
                    if ( s.act == GRAD )
                    {
                        if ( check ) compare( "an evaluation", true );
                        if ( s.sel )
                        {
                            int q = g.roots[( s.sel - 1 ) / 2];
                            Any& y = build( q );
                            if ( check ) remember();
                            ceras::learning_phase = ( s.sel - 1 ) & 1 ? 0 : 1;
                            hold( ss.run( y ), "n" + std::to_string( q ) );
                            ceras::learning_phase = 1;
                            if ( check ) compare( "an evaluation before a backward pass", true );
                        }
                        T go = ceras::ones<float>( r.shape() );
                        x.backward( go );
                        if ( check ) { Rt rt; for ( unsigned long q = 0; q < go.size(); ++q ) if ( go.data()[q] != 1.0f ) sim::violation( "gradient-changed", "the gradient handed to a backward pass of n%d was overwritten", s.root ); }
                    }
                    log_result( r, s.root, s.act == GRAD );
                    if ( check ) compare( s.act == GRAD ? "a backward pass" : "an evaluation", true );
                    ceras::learning_phase = 1;
                    break;
                }
                case TRAIN:
                {
                    Any& x = build( s.root );
                    if ( g.n[s.root].s[binding] != Shape{ 1 } ) break;
                    if ( check ) remember();
                    log_leaves( s.root, 1, binding, false );
                    ceras::sgd<Any, float> opt{ x, 1, 0.01f };
                    ceras::learning_phase = 1;
                    T r = ss.run( x );
                    hold( r, "n" + std::to_string( s.root ) );
                    log_result( r, s.root, false );
                    ss.run( opt );
                    if ( check ) compare( "a training step", false );
                    break;
                }
                case PREDICT:
                {
                    if ( ph.size() != 1 ) break;
                    Any& x = build( s.root );
                    if ( check ) remember();
                    auto& [i, p] = *ph.begin();
                    log_leaves( s.root, 0, s.binding, false );
                    binding = s.binding;
                    ceras::model<Any, Ph> m{ p, x };
                    T r = m.predict( data[i][s.binding] );
                    hold( r, "predict n" + std::to_string( s.root ) );
                    log_result( r, s.root, false );
                    if ( check ) compare( "a prediction", true );
                    break;
                }
                case REBIND: bind( s.binding ); break;
                case NEWDATA:
                {
                    for ( auto& [i, v] : data ) { Rt rt; v[s.binding] = make_tensor( g.n[i].s[s.binding], changed( raw( v[s.binding] ), bytes_for( g.n[i].s[s.binding], s.seed + i, g.n[i].vclass ), s ) ); }
                    bind( s.binding );
                    break;
                }
                case OVERWRITE:
                {
                    Rt rt; unsigned c = 0;
                    for ( auto& [i, v] : data ) { if ( ( s.sel >> c++ ) & 1 ) continue; auto& t = v[binding]; std::string b = changed( raw( t ), bytes_for( t.shape(), s.seed + i, g.n[i].vclass ), s ); std::memcpy( t.data(), b.data(), b.size() ); }
                    break;
                }
                case SETW:
                {
                    Rt rt; if ( w.empty() ) break;
                    auto it = w.begin(); std::advance( it, s.sel % w.size() );
                    for ( auto& v : it->second ) { auto& d = v.data(); std::string b = changed( raw( d ), bytes_for( d.shape(), s.seed, 0 ), s ); std::memcpy( d.data(), b.data(), b.size() ); }
                    break;
                }
                case SAVELOAD: ss.save( "w" ); ss.restore( "w" ); if ( check ) compare( "saving and loading", true ); break;
                case SCRIBBLE:
                    for ( auto& h : held ) { Rt rt; for ( unsigned long i = 0; i < h.t.size(); ++i ) h.t.data()[i] = 1000.0f + i; h.b = raw( h.t ); }
                    if ( check ) compare( "writing into a result", true );
                    break;
            }
        }
        // M02: the same history, where the system runs out of memory in some steps and the program goes on afterwards
        struct Oom { int step; long at, len; };
        void log_weights() { Rt rt; sim::out_u( 6 ); sim::out_u( w.size() ); for ( auto& [i, v] : w ) { sim::out_u( i ); sim::out_u( v.size() ); for ( auto& q : v ) sim::out_s( raw( q.data() ) ); } }
        void run_short_of_memory( std::vector<Step> const& h, std::vector<Oom> const& plan )
        {
            leaves();
            if ( g.early ) for ( int r : g.roots ) build( r );
            bind( 0 );
            for ( unsigned i = 0; i < h.size(); ++i )
            {
                u64 before = sim::alloc_count();
                bool failed = false;
                auto it = std::find_if( plan.begin(), plan.end(), [i]( Oom const& o ) { return o.step == (int)i; } );
                remember();
                if ( h[i].act == TRAIN ) log_weights();
                if ( it != plan.end() ) sim::set_alloc_fail( it->at, it->len );
                try { step( h[i] ); } catch ( std::bad_alloc const& ) { failed = true; } catch ( std::length_error const& ) { failed = true; }
                sim::set_alloc_fail( -1, 0 );
                sim::out_u( 5 ); sim::out_u( sim::alloc_count() - before );
                if ( failed )
                {
                    Rt rt; sim::out_u( 4 );
                    if ( ceras::learning_phase != 1 && h[i].act == PREDICT ) sim::violation( "mode", "after a prediction that ran out of memory the library stays in inference mode" );
                    compare( "a step that ran out of memory", h[i].act != TRAIN && h[i].act != SETW, h[i].act != NEWDATA && h[i].act != OVERWRITE );
                    ceras::learning_phase = 1;
                    if ( h[i].act == REBIND || h[i].act == NEWDATA || h[i].act == PREDICT ) bind( binding );    // the caller tries again
                }
                if ( h[i].act == TRAIN ) log_weights();
            }
            sim::out_u( 3 );
        }
        void run( std::vector<Step> const& h )
        {
            leaves();
            if ( g.early ) { for ( int r : g.roots ) build( r ); bind( 0 ); } else bind( 0 );
            for ( auto const& s : h ) step( s );
            if ( !quiet ) sim::out_u( 3 );
        }
    };

    // ---- reading the log (supervisor) -------------------------------------------------------------------
    struct Record { int root, phase, binding; bool grad; std::map<int, std::string> in; std::vector<std::pair<std::pair<int,int>, std::string>> w; bool done = false, failed = false; Shape s; std::string r; std::vector<std::string> g; };
    struct Extra { std::vector<u64> allocs; std::vector<std::vector<std::vector<std::string>>> weights; bool any_failed = false; };   // per step; before and after each training step
    inline std::vector<Record> parse( Graph const& g, sim::Log& l, Extra* x = nullptr )
    {
        std::vector<Record> out;
        std::vector<int> phs; for ( unsigned i = 0; i < g.n.size(); ++i ) if ( g.n[i].what == PH ) phs.push_back( i );
        while ( l.more() )
        {
            u64 t = l.u();
            if ( t == 3 ) break;
            if ( t == 1 )
            {
                Record r; r.root = l.u(); r.phase = l.u(); r.binding = l.u(); r.grad = l.u();
                for ( int i : phs ) r.in[i] = l.s();
                u64 n = l.u(); for ( u64 i = 0; i < n; ++i ) { int a = l.u(), q = l.u(); r.w.push_back( { { a, q }, l.s() } ); }
                out.push_back( r );
            }
            else if ( t == 2 )
            {
                Record& r = out.back(); u64 n = l.u(); for ( u64 i = 0; i < n; ++i ) r.s.push_back( l.u() ); r.r = l.s();
                if ( r.grad ) for ( unsigned i = 0; i < r.w.size(); ++i ) r.g.push_back( l.s() );
                r.done = true;
            }
            else if ( t == 4 ) { if ( !out.empty() && !out.back().done ) out.back().failed = true; if ( x ) x->any_failed = true; }
            else if ( t == 5 ) { u64 a = l.u(); if ( x ) x->allocs.push_back( a ); }
            else if ( t == 6 ) { std::vector<std::vector<std::string>> a; u64 n = l.u(); while ( n-- ) { l.u(); u64 m = l.u(); a.push_back( {} ); while ( m-- ) a.back().push_back( l.s() ); } if ( x ) x->weights.push_back( a ); }
            else sim::harness_error( "log tag %llu", (unsigned long long)t );
        }
        return out;
    }

    // ---- the reference: every operation alone, on fresh objects --------------------------------------------
    inline void reference( Graph const& g, Record const& rec )
    {
        auto& ss = ceras::get_default_session<T>();
        std::set<int> below; g.below( rec.root, below );
        std::map<int, T> val; std::map<int, std::vector<std::string>> lw;
        for ( auto const& [k, b] : rec.w ) { lw[k.first].resize( std::max<size_t>( lw[k.first].size(), k.second + 1 ) ); lw[k.first][k.second] = b; }
        auto make = [&]( int i, Args const& a, std::vector<Var>* vars ) -> Any
        {
            Node const& n = g.n[i]; Kind const& k = g.k( i );
            std::vector<Shape> s0; for ( int j = 0; j < k.nin; ++j ) s0.push_back( g.n[n.a[j]].s[0] );
            int before = ( k.flags & LAYER ) ? Subject::last_variable() : 0;
            Any x = k.make( n.p, s0 )( a );
            if ( k.flags & LAYER )
            {
                std::vector<Var> v = Subject::variables_after( before );
                if ( v.size() != lw[i].size() ) sim::harness_error( "layer %s has %lu weights, not %lu", k.name, v.size(), lw[i].size() );
                for ( unsigned q = 0; q < v.size(); ++q ) { if ( v[q].data().size() * 4 != lw[i][q].size() ) throw std::runtime_error( "the announced shape of the operand is not the shape of its value" ); std::memcpy( v[q].data().data(), lw[i][q].data(), lw[i][q].size() ); }
                if ( vars ) *vars = v;
            }
            return x;
        };
        bool sane = true;
        for ( int i : below )
        {
            Node const& n = g.n[i];
            if ( n.what == PH ) { val[i] = make_tensor( n.s[rec.binding], rec.in.at( i ) ); continue; }
            if ( n.what == VAR ) { val[i] = make_tensor( n.s[0], lw[i][0] ); continue; }
            if ( n.what == CONSTANT ) { val[i] = make_tensor( n.s[0], bytes_for( n.s[0], n.seed, n.vclass ) ); continue; }
            Args a; for ( int j = 0; j < g.k( i ).nin; ++j ) a.push_back( Any( ceras::constant<T>{ val[n.a[j]].deep_copy() } ) );
            Any x = make( i, a, nullptr );
            ceras::learning_phase = rec.phase;
            T r = ss.run( x );
            val[i] = make_tensor( r.shape(), raw( r ) );
            if ( r.shape() != n.s[rec.binding] ) { sim::out_u( 7 ); sim::out_u( i ); sim::out_s( str( r.shape() ) ); return; }
            for ( unsigned long q = 0; q < r.size(); ++q ) if ( !tame( r[q], 1e5f ) ) sane = false;
        }
        sim::out_u( sane ? 5 : 6 );
        { Rt rt; T const& r = val[rec.root]; sim::out_s( raw( r ) ); }
        if ( !rec.grad || !sane ) return;
        // gradients: the vector-Jacobian product of each operation alone, summed over its uses
        std::map<int, std::vector<double>> G; std::map<std::pair<int,int>, std::vector<double>> WG; double top = 0;
        G[rec.root].assign( val[rec.root].size(), 1.0 );
        std::map<std::pair<int,int>, double> wtop, werr; std::map<int, double> err;      // absolute error bounds of what has been summed
        auto peak = []( auto const& t, unsigned long n ) { double m = 0; for ( unsigned long q = 0; q < n; ++q ) m = std::max( m, std::abs( (double)t[q] ) ); return m; };
        err[rec.root] = 0;
        auto into = [&]( std::vector<double>& d, T const& t, double* mx, double& e, double rel )
        {
            e += peak( t, t.size() ) * ( rel + 2e-6 );
            if ( t.size() == 0 ) return;
            if ( d.empty() ) d.assign( t.size(), 0.0 );
            if ( d.size() != t.size() ) sim::harness_error( "gradient size" );
            for ( unsigned long q = 0; q < t.size(); ++q ) { d[q] += t[q]; top = std::max( top, (double)std::abs( t[q] ) ); if ( mx ) *mx = std::max( *mx, (double)std::abs( t[q] ) ); if ( !tame( t[q], 1e6f ) ) sane = false; }
        };
        for ( auto it = below.rbegin(); it != below.rend(); ++it )
        {
            int i = *it; Node const& n = g.n[i];
            if ( n.what != OP || !G.count( i ) || G[i].empty() ) continue;
            std::vector<Var> in, own;
            Args a; for ( int j = 0; j < g.k( i ).nin; ++j ) { in.push_back( Var{ val[n.a[j]].deep_copy() } ); a.push_back( Any( in.back() ) ); }
            Any x = make( i, a, &own );
            ceras::learning_phase = 1;
            T r = ss.run( x );
            double gp = peak( G[i], G[i].size() ), rel = gp > 0 ? err[i] / gp : err[i] > 0 ? 1.0 : 0.0;     // cancelled contributions leave a large relative error
            if ( gp == 0 && err[i] > 0 ) { for ( auto const& [k, b] : rec.w ) werr[k] = 1e30; }
            T gt{ r.shape() }; for ( unsigned long q = 0; q < gt.size(); ++q ) gt.data()[q] = (float)G[i][q];
            x.backward( gt );
            for ( int j = 0; j < g.k( i ).nin; ++j ) { int s = n.a[j]; if ( g.n[s].what == VAR ) into( WG[{ s, 0 }], in[j].gradient(), &wtop[{ s, 0 }], werr[{ s, 0 }], rel ); else into( G[s], in[j].gradient(), nullptr, err[s], rel ); }
            for ( unsigned q = 0; q < own.size(); ++q ) into( WG[{ i, (int)q }], own[q].gradient(), &wtop[{ i, (int)q }], werr[{ i, (int)q }], rel );
        }
        sim::out_u( sane ? 8 : 9 );
        double dtop = top; sim::out_s( &dtop, 8 );
        for ( auto const& [k, b] : rec.w )
        {
            Node const& n = g.n[k.first];
            std::vector<double> d = WG[k];
            if ( n.what == VAR && !d.empty() )
                for ( unsigned long q = 0; q < d.size(); ++q ) { float x; std::memcpy( &x, b.data() + q * 4, 4 ); if ( n.l1 > 0 ) d[q] += x >= 0 ? n.l1 : -n.l1; if ( n.l2 > 0 ) d[q] += 2.0 * x * n.l2; }
            double m = 2e-5 * wtop[k] + 4 * werr[k]; sim::out_s( &m, 8 );
            sim::out_s( d.data(), d.size() * 8 );
        }
    }
}
#endif
