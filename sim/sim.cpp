// Deterministic simulator: runtime. Compiled without instrumentation and linked with an instrumented harness.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <new>
#include <map>
#include <set>
#include <thread>
#include <random>
#include <unordered_set>
#include <algorithm>
#include <exception>
#include <stdexcept>
#include <typeinfo>
#include <dlfcn.h>
#include <dirent.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <ucontext.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <linux/futex.h>

// direct system call: never intercepted
static inline long raw6( long num, long a0, long a1, long a2, long a3, long a4, long a5 )
{
    long ret;
    register long r10 __asm__( "r10" ) = a3; register long r8 __asm__( "r8" ) = a4; register long r9 __asm__( "r9" ) = a5;
    __asm__ volatile( "syscall" : "=a"( ret ) : "a"( num ), "D"( a0 ), "S"( a1 ), "d"( a2 ), "r"( r10 ), "r"( r8 ), "r"( r9 ) : "rcx", "r11", "memory" );
    if ( ret < 0 && ret > -4096 ) { errno = (int)-ret; return -1; }
    return ret;
}
template< typename... A > static inline long raw( long num, A... a )
{
    long v[6] = { 0, 0, 0, 0, 0, 0 }; int i = 0; (void)i;
    ( ( v[i++] = (long)a ), ... );
    return raw6( num, v[0], v[1], v[2], v[3], v[4], v[5] );
}

namespace sim
{
// =====================================================================================================
// shared state
// =====================================================================================================
static const int MAXLIFE = 200;
static const int MAXSTREAM = 1 + 3 * MAXLIFE;
static const u32 POOL = 1u << 20;          // tape entries of a run, all streams together
static const u32 MAXT = 256;
static const size_t LOGCAP = 96u << 20;
static const size_t NOTECAP = 256u << 10;

struct TapeHead { u32 n; u32 pos; u64 rng; };   // entries are kept in the pool as (stream<<0, value) pairs
struct PoolEntry { u32 stream, value; };

static char const* fk_names[FK_COUNT] = { "eintr", "short_transfer", "write_eio", "enospc", "open_refused", "close_failed", "rename_failed", "unlink_failed", "read_eio", "crash", "crash_torn_write", "disk_full", "thread_refused", "alloc_failed", "clock_jump_forward", "clock_jump_back", "clock_stall", "tty_failed", "file_truncated", "file_corrupted", "preemption" };

struct Shared
{
    // tapes
    TapeHead heads[MAXSTREAM];
    u32 pool_n;
    PoolEntry pool[POOL];
    // verdict
    int  verdict;                 // 0 none, 1 violation, 2 harness error, 3 skip, 4 known
    char vkind[96];
    char vtext[2048];
    u64  hash;
    int  nontrivial;
    // child end
    int  end_kind;
    char end_text[512];
    u64 sig_pc;
    u64  fs_ops, allocs, threads, steps, write_bytes, switches, fs_faults, alloc_faults, thread_faults, preempts, max_live;
    u64  sim_ns;
    u64  total_steps, total_switches, total_lives;
    u64  fk[FK_COUNT];
    // notes
    u32  note_n;
    char notes[NOTECAP];
    // counters (name -> value), covers
    u32  ncount;
    struct { char name[56]; u64 v; } counters[256];
    u32  ncover;
    u64  covers[4096];
    char covernames[4096][48];
    // log
    u64  log_n;
    char log[LOGCAP];
};
static Shared* S;

static bool g_child = false;         // in a simulated lifetime
static bool g_active = false;        // interposition active
static int  g_rt = 0;                // runtime depth: no scheduling, no faults, real malloc
static bool g_faults = true;
static bool g_verbose = false;
static LifeOpts O;
static int  g_life = 0;              // index of the current lifetime
static u64  g_seed = 0;
static bool g_replay = false;
static std::vector<std::vector<u32>>* g_tape_in = nullptr;
static char const* g_prop = "";
static char const* g_scen = "";
static char g_scratch[256];

static inline u64 mix( u64 h, u64 v ) { h ^= v + 0x9E3779B97F4A7C15ull + ( h << 6 ) + ( h >> 2 ); h *= 0xFF51AFD7ED558CCDull; return h ^ ( h >> 33 ); }
static inline void hmix( u64 v ) { S->hash = mix( S->hash, v ); }

void hash( void const* p, size_t n )
{
    unsigned char const* c = (unsigned char const*)p;
    u64 h = 1469598103934665603ull;
    for ( size_t i = 0; i < n; ++i ) h = ( h ^ c[i] ) * 1099511628211ull;
    hmix( h );
}

void rt_enter() { ++g_rt; }
void rt_leave() { --g_rt; }

// ---- choices -----------------------------------------------------------------------------------------
static u32 choose( u32 stream, u32 n )
{
    if ( n <= 1 ) return 0;
    TapeHead& h = S->heads[stream];
    u32 v = 0;
    if ( g_replay )
    {
        if ( stream < g_tape_in->size() && h.pos < (*g_tape_in)[stream].size() )
            v = (*g_tape_in)[stream][h.pos] % n;
        ++h.pos;
    }
    else
    {
        if ( h.n == 0 && h.rng == 0 ) h.rng = mix( mix( g_seed, 0xABCDEF12345ull ), stream * 7919 + 1 ) | 1;
        Prng p{ 0 }; p.s = h.rng; u64 r = p.next(); h.rng = p.s;
        v = (u32)( ( ( r >> 32 ) * (u64)n ) >> 32 );
    }
    if ( S->pool_n < POOL )
    {
        S->pool[S->pool_n].stream = stream; S->pool[S->pool_n].value = v; ++S->pool_n; ++h.n;
    }
    else v = 0;
    hmix( ( (u64)stream << 32 ) ^ v );
    return v;
}
static inline u32 st_sched() { return 1 + 3 * g_life; }
static inline u32 st_fault() { return 2 + 3 * g_life; }
static inline u32 st_data() { return 3 + 3 * g_life; }

u32 pick( u32 n, char const* ) { Rt rt; return choose( g_child ? st_data() : 0, n ); }
bool chance( u32 num, u32 den, char const* l ) { return pick( den, l ) >= den - num; }
u64 raw_seed( char const* l ) { return pick( 1u << 30, l ); }
u64 run_seed() { return g_seed; }

// ---- notes, counters ---------------------------------------------------------------------------------
static void vnote( char const* fmt, va_list ap )
{
    char buf[700];
    int n = vsnprintf( buf, sizeof buf - 2, fmt, ap );
    if ( n < 0 ) return;
    if ( n > (int)sizeof buf - 2 ) n = sizeof buf - 2;
    hash( buf, n );
    buf[n++] = '\n';
    if ( S->note_n + n < NOTECAP ) { memcpy( S->notes + S->note_n, buf, n ); S->note_n += n; }
    if ( g_verbose ) { static int fd = -1; if ( fd < 0 ) fd = 2; (void)!raw( SYS_write, fd, buf, (size_t)n ); }
}
void note( char const* fmt, ... ) { Rt rt; va_list ap; va_start( ap, fmt ); vnote( fmt, ap ); va_end( ap ); }
void count( char const* name, u64 n )
{
    for ( u32 i = 0; i < S->ncount; ++i ) if ( !strcmp( S->counters[i].name, name ) ) { S->counters[i].v += n; return; }
    if ( S->ncount < 256 ) { strncpy( S->counters[S->ncount].name, name, 55 ); S->counters[S->ncount].name[55] = 0; S->counters[S->ncount].v = n; ++S->ncount; }
}
void cover( char const* cell )
{
    u64 h = 1469598103934665603ull; for ( char const* c = cell; *c; ++c ) h = ( h ^ (unsigned char)*c ) * 1099511628211ull;
    for ( u32 i = 0; i < S->ncover; ++i ) if ( S->covers[i] == h ) return;
    if ( S->ncover < 4096 ) { S->covers[S->ncover] = h; strncpy( S->covernames[S->ncover], cell, 47 ); S->covernames[S->ncover][47] = 0; ++S->ncover; }
}
void cover( std::string const& c ) { cover( c.c_str() ); }
void nontrivial() { S->nontrivial = 1; }
void fault_fired( int fk, u64 n ) { S->fk[fk] += n; S->nontrivial = 1; }

// ---- verdicts ----------------------------------------------------------------------------------------
struct RunEnd {};
[[noreturn]] static void end_verdict()
{
    if ( g_child ) { raw( SYS_exit_group, 66 ); }
    throw RunEnd{};
}
void violation( char const* kind, char const* fmt, ... )
{
    ++g_rt;
    if ( S->verdict == 0 )
    {
        S->verdict = 1;
        strncpy( S->vkind, kind, sizeof S->vkind - 1 );
        va_list ap; va_start( ap, fmt ); vsnprintf( S->vtext, sizeof S->vtext, fmt, ap ); va_end( ap );
        note( "VIOLATION [%s] %s", S->vkind, S->vtext );
    }
    if ( !g_child ) --g_rt;
    end_verdict();
}
void known( char const* id, char const* fmt, ... )
{
    Rt rt; (void)id; va_list ap; va_start( ap, fmt ); vnote( fmt, ap ); va_end( ap );
}
void harness_error( char const* fmt, ... )
{
    ++g_rt;
    S->verdict = 2;
    strcpy( S->vkind, "harness-error" );
    va_list ap; va_start( ap, fmt ); vsnprintf( S->vtext, sizeof S->vtext, fmt, ap ); va_end( ap );
    if ( !g_child ) --g_rt;
    end_verdict();
}
void skip() { if ( S->verdict == 0 ) S->verdict = 3; end_verdict(); }

char const* kind_name( int k ) { static char const* n[] = { "returned", "exception", "abort", "crash", "signal", "hang", "violation" }; return n[k]; }

// ---- result log --------------------------------------------------------------------------------------
static void log_raw( void const* p, size_t n ) { if ( S->log_n + n > LOGCAP ) harness_error( "log full" ); memcpy( S->log + S->log_n, p, n ); S->log_n += n; }
void out_u( u64 v ) { Rt rt; log_raw( &v, 8 ); hmix( v ); }
void out_s( void const* p, size_t n ) { Rt rt; u64 m = n; log_raw( &m, 8 ); log_raw( p, n ); hash( p, n ); }
void out_s( std::string const& s ) { out_s( s.data(), s.size() ); }
u64 Log::u() { if ( pos + 8 > b.size() ) harness_error( "log underrun" ); u64 v; memcpy( &v, b.data() + pos, 8 ); pos += 8; return v; }
std::string Log::s() { u64 n = u(); if ( pos + n > b.size() ) harness_error( "log underrun" ); std::string r = b.substr( pos, n ); pos += n; return r; }

// =====================================================================================================
// memory
// =====================================================================================================
static char* const ARENA = (char*)0x100000000000ull;
static const u64 ARENA_SIZE = 6ull << 30;
static unsigned char* const SHADOW = (unsigned char*)0x200000000000ull;  // one byte for 8
static u64* const RACE = (u64*)0x300000000000ull;                        // 8 cells for 8 bytes
static char* const STACKS = (char*)0x500000000000ull;
static const u64 STACK_SZ = 1ull << 20, MAIN_STACK = 64ull << 20;
static u64 a_top = 0, a_live = 0, a_count = 0, a_maxlive = 0;
static long a_fail_at = -1, a_fail_len = 0; static u64 a_faults = 0;
static u64 a_large = 0, a_large_min = ~0ull, a_large_limit = ~0ull;   // blocks of at least a_large_min bytes may hold a_large_limit bytes together

struct Hdr { u64 size, total, magic; void* next; };          // 32 bytes just before the block
static const u64 M_LIVE = 0x4C49564542304F4Bull, M_FREE = 0x4652454542304F4Bull;
static const int NCLS = 4096;
static Hdr* a_free[NCLS];

static inline bool in_arena( void const* p ) { return (u64)( (char*)p - ARENA ) < ARENA_SIZE; }

static void poison( char* p, u64 n, unsigned char v ) { memset( SHADOW + ( p - ARENA ) / 8, v, n / 8 ); }
static void unpoison( char* p, u64 n )
{
    u64 g = ( p - ARENA ) / 8;
    memset( SHADOW + g, 0, n / 8 );
    if ( n % 8 ) SHADOW[g + n / 8] = (unsigned char)( n % 8 );
}

struct Thr;
static bool g_mt = false;                                    // more than one simulated thread alive
static u64 g_era = 0;
static void race_reset( char* p, u64 n )
{
    if ( !g_mt ) return;
    u64 w0 = ( p - ARENA ) / 8, w1 = ( p + n - ARENA + 7 ) / 8;
    memset( RACE + w0 * 8, 0, ( w1 - w0 ) * 64 );
}

static void* arena_alloc( u64 n, u64 align )
{
    ++a_count;
    S->allocs = a_count;
    if ( g_faults && a_fail_at >= 0 && (long)a_count - 1 >= a_fail_at && (long)a_count - 1 < a_fail_at + a_fail_len )
    {
        ++a_faults; ++S->fk[FK_ALLOC]; S->nontrivial = 1; S->alloc_faults = a_faults;
        note( "L%d alloc #%ld of %lu bytes refused", g_life, (long)a_count - 1, (unsigned long)n );
        return nullptr;
    }
    if ( g_faults && n >= a_large_min && a_large + n > a_large_limit )
    {
        ++a_faults; ++S->fk[FK_ALLOC]; S->nontrivial = 1; S->alloc_faults = a_faults;
        note( "L%d alloc #%ld of %lu bytes refused: %lu bytes are in use", g_life, (long)a_count - 1, (unsigned long)n, (unsigned long)a_large );
        return nullptr;
    }
    if ( n > ( 1ull << 30 ) || a_live + n > O.mem_limit ) { note( "L%d alloc of %lu bytes: out of simulated memory", g_life, (unsigned long)n ); return nullptr; }
    u64 body = ( n + 15 ) / 16 * 16 + 16;                    // red zone after
    if ( n == 0 ) body = 32;
    u64 total = body + 32;
    char* user = nullptr;
    bool small = align <= 16;
    u64 cls = body / 16;
    if ( small && cls < (u64)NCLS && a_free[cls] && ( O.reuse || a_top > ARENA_SIZE / 4 ) )
    {
        Hdr* h = a_free[cls]; a_free[cls] = (Hdr*)h->next;
        user = (char*)( h + 1 );
        h->size = n; h->magic = M_LIVE;
    }
    else
    {
        u64 base = a_top;
        u64 up = base + 32;
        if ( align > 16 ) up = ( up + align - 1 ) / align * align;
        if ( up + body > ARENA_SIZE ) return nullptr;
        a_top = up + body;
        user = ARENA + up;
        Hdr* h = (Hdr*)user - 1;
        h->size = n; h->total = total; h->magic = M_LIVE; h->next = nullptr;
        poison( ARENA + base, up - base, 0xFA );
    }
    poison( user, body, 0xFA );
    unpoison( user, n );
    race_reset( user, n );
    if ( n <= 1u << 22 ) memset( user, O.fill, n ); else memset( user, O.fill, 1u << 22 );
    a_live += n;
    if ( n >= a_large_min ) a_large += n;
    if ( a_live > a_maxlive ) { a_maxlive = a_live; S->max_live = a_live; }
    return user;
}
static void arena_free( void* p )
{
    Hdr* h = (Hdr*)p - 1;
    if ( ( (u64)p & 15 ) || ( h->magic != M_LIVE && h->magic != M_FREE ) ) violation( "memory-bad-free", "release of an address that no allocation returned: offset %lu", (unsigned long)( (char*)p - ARENA ) );
    if ( h->magic == M_FREE ) violation( "memory-double-free", "a block of %lu bytes is released twice", (unsigned long)h->size );
    h->magic = M_FREE;
    a_live -= h->size;
    if ( h->size >= a_large_min ) a_large -= h->size;
    u64 body = ( h->size + 15 ) / 16 * 16 + 16; if ( h->size == 0 ) body = 32;
    poison( (char*)p, body, 0xFD );
    u64 cls = body / 16;
    if ( cls < (u64)NCLS ) { h->next = a_free[cls]; a_free[cls] = h; }
}
bool block_of( void const* p, u64& base, u64& size, bool& live )
{
    if ( !in_arena( p ) ) return false;
    Rt rt;
    u64 g = ( (char*)p - ARENA ) / 16 * 16;
    for ( u64 back = 0; back < ( 1u << 26 ) && back <= g; back += 16 )
    {
        Hdr* h = (Hdr*)( ARENA + g - back ) - 1;
        if ( (char*)h < ARENA ) break;
        if ( h->magic == M_LIVE || h->magic == M_FREE )
        {
            base = g - back; size = h->size; live = h->magic == M_LIVE;
            return (u64)( (char*)p - ARENA ) < base + size || size == 0;
        }
    }
    return false;
}

static u64 g_steps = 0;
[[noreturn]] static void bad_access( char const* a, u64 n, bool w, void* pc )
{
    unsigned char s = SHADOW[( a - ARENA ) / 8];
    if ( s < 8 && ( a - ARENA ) / 8 != ( a + n - 1 - ARENA ) / 8 ) s = SHADOW[( a + n - 1 - ARENA ) / 8];
    violation( s == 0xFD ? ( w ? "memory-write-after-free" : "memory-read-after-free" ) : ( w ? "memory-write-out-of-bounds" : "memory-read-out-of-bounds" ),
               "%s of %lu bytes at arena offset %lu %s (pc %p)", w ? "write" : "read", (unsigned long)n, (unsigned long)( a - ARENA ), s == 0xFD ? "in a released block" : "outside any live block", pc );
}
static inline void check_small( char const* a, u64 n, bool w, void* pc )
{
    u64 o = (u64)( a - ARENA );
    if ( o < ARENA_SIZE )
    {
        unsigned char s = SHADOW[o >> 3];
        u64 e = o + n - 1;
        if ( ( o >> 3 ) != ( e >> 3 ) )
        {
            if ( s || ( SHADOW[e >> 3] && ( SHADOW[e >> 3] >= 8 || ( e & 7 ) >= SHADOW[e >> 3] ) ) ) bad_access( a, n, w, pc );
            for ( u64 g = ( o >> 3 ) + 1; g < ( e >> 3 ); ++g ) if ( SHADOW[g] ) bad_access( a, n, w, pc );
        }
        else if ( s && ( s >= 8 || ( e & 7 ) >= s ) ) bad_access( a, n, w, pc );
    }
}
static void check_range( char const* a, u64 n, bool w, void* pc )
{
    if ( n == 0 ) return;
    u64 o = (u64)( a - ARENA );
    if ( o >= ARENA_SIZE ) return;
    u64 g0 = o >> 3, g1 = ( o + n - 1 ) >> 3;
    if ( g0 == g1 ) { check_small( a, n, w, pc ); return; }
    u64 g = g0;
    while ( g < g1 && ( g & 7 ) ) { if ( SHADOW[g] ) bad_access( ARENA + g * 8, 8, w, pc ); ++g; }
    while ( g + 8 <= g1 ) { if ( *(u64*)( SHADOW + g ) ) { while ( !SHADOW[g] ) ++g; if ( g < g1 ) bad_access( ARENA + g * 8, 8, w, pc ); break; } g += 8; }
    while ( g < g1 ) { if ( SHADOW[g] ) bad_access( ARENA + g * 8, 8, w, pc ); ++g; }
    unsigned char s = SHADOW[g1];
    if ( s && ( s >= 8 || ( ( o + n - 1 ) & 7 ) >= s ) ) bad_access( ARENA + g1 * 8, ( ( o + n - 1 ) & 7 ) + 1, w, pc );
}
bool addressable( void const* p, size_t n )
{
    char const* a = (char const*)p;
    for ( size_t i = 0; i < n; ++i )
    {
        u64 o = (u64)( a + i - ARENA );
        if ( o >= ARENA_SIZE ) return false;
        unsigned char s = SHADOW[o >> 3];
        if ( s && ( s >= 8 || ( o & 7 ) >= s ) ) return false;
    }
    return true;
}

// =====================================================================================================
// threads
// =====================================================================================================
typedef int ( *create_t )( pthread_t*, pthread_attr_t const*, void* ( * )( void* ), void* );
typedef int ( *join_t )( pthread_t, void** );
typedef int ( *detach_t )( pthread_t );
static create_t real_create; static join_t real_join; static detach_t real_detach;

struct VC { u32 c[MAXT]; };
struct Dtor { void ( *f )( void* ); void* o; Dtor* next; };
enum { T_FREE, T_RUN, T_BLOCKED, T_DONE };
struct Thr
{
    int state; u32 id; pthread_t real; int go; VC vc; void* wait; void* ( *fn )( void* ); void* arg; void* ret;
    bool detached; int prio; int saved_rt; Dtor* dtors; bool timed; bool timed_out; bool stack_used;
};
static Thr T[MAXT];
static u32 t_clk[MAXT];
static u32 cur = 0;
static int n_alive = 0;              // not yet joined (or detached and unfinished)
static int n_unfinished = 0;
static u64 t_created = 0, t_switches = 0, t_preempts = 0, t_faults = 0;
static long t_fail_at = -1, t_fail_len = 0;
static long countdown = 0;           // accesses until the next preemption; 0 = none
static int pct_left = 0;
struct SyncVar { void* addr; VC vc; int owner; int count; };
static const int NSYNC = 512;
static SyncVar* sync_tab[NSYNC];

int live_threads() { return n_unfinished; }
u64 thread_count() { return t_created; }
void set_cores( int c ) { O.cores = c; }

static SyncVar* sync_of( void* a )
{
    u64 h = ( (u64)a >> 2 ) * 0x9E3779B97F4A7C15ull >> 40;
    for ( int i = 0; i < NSYNC; ++i )
    {
        SyncVar*& s = sync_tab[( h + i ) % NSYNC];
        if ( !s ) { s = (SyncVar*)calloc( 1, sizeof( SyncVar ) ); s->addr = a; s->owner = -1; return s; }
        if ( s->addr == a ) return s;
    }
    harness_error( "too many synchronisation objects" );
}
static void vc_join( VC& a, VC const& b ) { for ( u32 i = 0; i < MAXT; ++i ) if ( b.c[i] > a.c[i] ) a.c[i] = b.c[i]; }
static inline void vc_tick( u32 t ) { T[t].vc.c[t] = ++t_clk[t]; if ( t_clk[t] >= ( 1u << 20 ) ) harness_error( "clock overflow" ); }
static void acquire( void* a ) { if ( g_mt ) vc_join( T[cur].vc, sync_of( a )->vc ); }
static void release( void* a ) { if ( g_mt ) { SyncVar* s = sync_of( a ); vc_join( s->vc, T[cur].vc ); vc_tick( cur ); } }

static void futex_wait( int* p, int v ) { while ( __atomic_load_n( p, __ATOMIC_ACQUIRE ) == v ) raw( SYS_futex, p, FUTEX_WAIT_PRIVATE, v, 0, 0, 0 ); }
static void hand_over( u32 to )
{
    u32 me = cur;
    T[me].saved_rt = g_rt;
    ++t_switches; S->switches = t_switches;
    hmix( 0x5115 + to );
    cur = to;
    g_rt = T[to].saved_rt;
    __atomic_store_n( &T[to].go, 1, __ATOMIC_RELEASE );
    raw( SYS_futex, &T[to].go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0 );
}
static void wait_turn( u32 me )
{
    futex_wait( &T[me].go, 0 );
    T[me].go = 0;
}
static void switch_to( u32 to )
{
    if ( to == cur ) return;
    u32 me = cur;
    hand_over( to );
    wait_turn( me );
}
static void arm()
{
    countdown = 0;
    if ( !g_mt ) return;
    if ( O.sched == 1 ) { u32 d = choose( st_sched(), 2 * O.sched_dist + 1 ); countdown = d; }
    else if ( O.sched == 2 ) { if ( pct_left > 0 ) { u32 d = choose( st_sched(), 4 * O.sched_dist + 1 ); countdown = d; if ( d ) --pct_left; } }
    else if ( O.sched == 3 ) countdown = O.sched_dist + 1;
}
// choose the next thread among the runnable ones; -1 if there is none
static int pick_next( bool voluntary )
{
    u32 c[MAXT]; u32 n = 0;
    if ( T[cur].state == T_RUN ) c[n++] = cur;
    for ( u32 i = 0; i < MAXT; ++i ) if ( T[i].state == T_RUN && i != cur ) c[n++] = i;
    if ( n == 0 ) return -1;
    if ( n == 1 ) return c[0];
    switch ( O.sched )
    {
        case 0: return c[0];
        case 4: return T[cur].state == T_RUN ? (int)cur : (int)c[n - 1];
        case 1: return c[choose( st_sched(), n )];
        case 2: { u32 b = c[0]; for ( u32 i = 1; i < n; ++i ) if ( T[c[i]].prio > T[b].prio ) b = c[i]; return b; }
        default:
        {
            if ( voluntary && T[cur].state == T_RUN ) return cur;
            u32 best = MAXT, low = MAXT;
            for ( u32 i = 0; i < n; ++i ) { if ( c[i] > cur && c[i] < best ) best = c[i]; if ( c[i] < low && c[i] != cur ) low = c[i]; }
            return best < MAXT ? best : low;
        }
    }
}
static void deadlock()
{
    bool timed = false;
    for ( u32 i = 0; i < MAXT; ++i ) if ( T[i].state == T_BLOCKED && T[i].timed ) { T[i].state = T_RUN; T[i].timed_out = true; timed = true; break; }
    if ( !timed ) violation( "deadlock", "no thread can run: every simulated thread waits" );
}
static void reschedule( bool voluntary )
{
    for ( ;; )
    {
        int n = pick_next( voluntary );
        if ( n >= 0 ) { if ( (u32)n != cur ) switch_to( n ); break; }
        deadlock();
    }
    if ( countdown == 0 ) arm();
}
static void block_on( void* w, bool timed = false )
{
    T[cur].wait = w; T[cur].state = T_BLOCKED; T[cur].timed = timed; T[cur].timed_out = false;
    reschedule( true );
}
static int wake( void* w, int max )
{
    int k = 0;
    for ( u32 i = 0; i < MAXT && k < max; ++i ) if ( T[i].state == T_BLOCKED && T[i].wait == w ) { T[i].state = T_RUN; T[i].wait = nullptr; ++k; }
    return k;
}
static void preempt()
{
    Rt rt;
    ++t_preempts; S->preempts = t_preempts; ++S->fk[FK_PREEMPT]; S->nontrivial = 1;
    countdown = 0;
    hmix( 0xBEE + g_steps );
    if ( O.sched == 2 ) { int low = 0; for ( u32 i = 0; i < MAXT; ++i ) if ( T[i].state != T_FREE && T[i].prio < low ) low = T[i].prio; T[cur].prio = low - 1; }
    reschedule( false );
    if ( countdown == 0 ) arm();
}
static void sched_point() { if ( g_mt && g_rt == 1 && g_child ) { if ( O.sched == 1 ) { reschedule( false ); } } }   // called inside one Rt

static void* tramp( void* a )
{
    Thr* t = (Thr*)a;
    wait_turn( t->id );
    void* r = t->fn( t->arg );
    for ( Dtor* d = t->dtors; d; ) { Dtor* n = d->next; t->dtors = n; d->f( d->o ); free( d ); d = t->dtors; }
    ++g_rt;
    t->ret = r;
    t->state = T_DONE;
    vc_tick( t->id );
    --n_unfinished;
    note( "L%d t%u ends", g_life, t->id );
    if ( t->detached ) --n_alive;
    wake( t, 1000 );
    for ( ;; )
    {
        int n = pick_next( true );
        if ( n >= 0 )
        {
            countdown = 0;
            u32 save = cur; (void)save;
            T[t->id].saved_rt = 1;
            ++t_switches; S->switches = t_switches; hmix( 0x5115 + n );
            cur = n; g_rt = T[n].saved_rt;
            __atomic_store_n( &T[n].go, 1, __ATOMIC_RELEASE );
            raw( SYS_futex, &T[n].go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0 );
            return r;
        }
        deadlock();
    }
}

static u32 pct_prio() { return choose( st_sched(), 1000 ); }

static int sim_create( pthread_t* out, pthread_attr_t const* attr, void* ( *fn )( void* ), void* arg )
{
    Rt rt;
    u64 idx = t_created++;
    S->threads = t_created;
    S->sim_ns += 20000;
    bool refuse = false;
    if ( g_faults )
    {
        if ( t_fail_at >= 0 && (long)idx >= t_fail_at && (long)idx < t_fail_at + t_fail_len ) refuse = true;
        if ( O.thread_fail_rate && choose( st_fault(), 1024 ) >= 1024 - O.thread_fail_rate ) refuse = true;
    }
    if ( refuse ) { ++S->fk[FK_THREAD]; ++t_faults; S->thread_faults = t_faults; S->nontrivial = 1; note( "L%d thread start #%lu refused", g_life, (unsigned long)idx ); return EAGAIN; }
    if ( n_alive == 1 )      // the caller is alone: everything so far happened before
    {
        ++g_era; if ( g_era >= ( 1u << 22 ) ) harness_error( "era overflow" );
        memset( t_clk, 0, sizeof t_clk );
        for ( int i = 0; i < NSYNC; ++i ) if ( sync_tab[i] ) memset( &sync_tab[i]->vc, 0, sizeof( VC ) );
        memset( &T[cur].vc, 0, sizeof( VC ) ); vc_tick( cur );
        pct_left = 3;
        if ( O.sched == 2 ) T[cur].prio = pct_prio();
    }
    u32 id = 0;
    for ( u32 i = 1; i < MAXT; ++i ) if ( T[i].state == T_FREE && !T[i].stack_used ) { id = i; break; }
    if ( !id ) return EAGAIN;
    Thr& t = T[id];
    t.id = id; t.go = 0; t.fn = fn; t.arg = arg; t.detached = false; t.dtors = nullptr; t.saved_rt = 0; t.wait = nullptr;
    t.vc = T[cur].vc; vc_tick( cur );
    t.vc.c[id] = ++t_clk[id];
    t.prio = O.sched == 2 ? (int)pct_prio() : 0;
    pthread_attr_t at; pthread_attr_init( &at );
    pthread_attr_setstack( &at, STACKS + MAIN_STACK + id * STACK_SZ, STACK_SZ );
    if ( attr ) { int d; pthread_attr_getdetachstate( attr, &d ); t.detached = d == PTHREAD_CREATE_DETACHED; }
    int rc = real_create( &t.real, &at, tramp, &t );
    pthread_attr_destroy( &at );
    if ( rc ) harness_error( "the host refused a thread: %d", rc );
    if ( t.detached ) { real_detach( t.real ); t.stack_used = true; }
    t.state = T_RUN;
    *out = t.real;
    ++n_alive; ++n_unfinished;
    g_mt = true;
    note( "L%d t%u starts t%u", g_life, cur, id );
    if ( O.sched == 1 || O.sched == 2 ) reschedule( true ); else if ( countdown == 0 ) arm();
    return 0;
}
static Thr* by_real( pthread_t p ) { for ( u32 i = 0; i < MAXT; ++i ) if ( T[i].state != T_FREE && pthread_equal( T[i].real, p ) ) return &T[i]; return nullptr; }
static int sim_join( pthread_t p, void** ret )
{
    Rt rt;
    Thr* t = by_real( p );
    if ( !t || t->detached ) return EINVAL;
    while ( t->state != T_DONE ) block_on( t );
    void* r; real_join( t->real, &r );
    if ( ret ) *ret = t->ret;
    vc_join( T[cur].vc, t->vc );
    t->state = T_FREE;
    --n_alive;
    if ( n_alive == 1 ) { g_mt = false; countdown = 0; }
    return 0;
}

// ---- race detection ----------------------------------------------------------------------------------
// cell: era 22 | tid 8 | clk 20 | mask 8 | write 1 | atomic 1
static inline u64 cell( u64 era, u64 tid, u64 clk, u64 mask, u64 w, u64 at ) { return ( era << 42 ) | ( tid << 34 ) | ( clk << 14 ) | ( mask << 6 ) | ( w << 1 ) | at; }
static const u32 HT = 1u << 15;
static u64* ht_tags; static u64* ht_cells;
static void race_word( u64 word, u32 mask, bool w, bool at, void* pc )
{
    u64* c;
    u64 a = word << 3;
    if ( a - (u64)ARENA < ARENA_SIZE ) c = RACE + ( ( a - (u64)ARENA ) >> 3 ) * 8;
    else
    {
        u32 h = (u32)( ( word * 0x9E3779B97F4A7C15ull ) >> 49 );
        c = ht_cells + h * 8;
        if ( ht_tags[h] != word ) { ht_tags[h] = word; memset( c, 0, 64 ); }
    }
    u64 me = cur, clk = t_clk[cur];
    int slot = -1;
    for ( int i = 0; i < 8; ++i )
    {
        u64 v = c[i];
        if ( ( v >> 42 ) != g_era ) { if ( slot < 0 ) slot = i; continue; }
        u32 vm = ( v >> 6 ) & 0xFF;
        if ( !( vm & mask ) ) continue;
        u32 vt = ( v >> 34 ) & 0xFF; u32 vclk = ( v >> 14 ) & 0xFFFFF; bool vw = ( v >> 1 ) & 1, va = v & 1;
        if ( vt == me )
        {
            if ( vclk == clk && ( vm & mask ) == mask && ( vw || !w ) && va == at ) return;
            if ( vm == mask && ( w || !vw ) ) slot = i;
            continue;
        }
        if ( ( vw || w ) && !( va && at ) && vclk > T[me].vc.c[vt] )
            violation( "data-race", "threads t%u and t%u access the same memory without synchronisation, one of them writing (pc %p)", vt, (u32)me, pc );
    }
    if ( slot < 0 ) { slot = (int)( ( word + clk + me ) & 7 ); }
    c[slot] = cell( g_era, me, clk, mask, w, at );
}
static inline void race_access( char const* a, u64 n, bool w, bool at, void* pc )
{
    if ( !O.races ) return;
    u64 b = (u64)a, e = b + n;
    while ( b < e )
    {
        u64 word = b >> 3; u32 off = b & 7; u64 k = 8 - off; if ( k > e - b ) k = e - b;
        race_word( word, ( ( 1u << k ) - 1 ) << off, w, at, pc );
        b += k;
    }
}
static inline void access( void const* p, u64 n, bool w, void* pc, bool at = false )
{
    if ( !g_active || g_rt ) return;
    if ( ++g_steps > O.max_steps ) { if ( O.give_up ) { S->steps = g_steps; S->end_kind = HANG; raw( SYS_exit_group, 0 ); } violation( "no-progress", "no end after %lu memory accesses", (unsigned long)g_steps ); }
    if ( g_mt )
    {
        if ( countdown && --countdown == 0 ) preempt();
        check_small( (char const*)p, n, w, pc );
        race_access( (char const*)p, n, w, at, pc );
    }
    else check_small( (char const*)p, n, w, pc );
}
static void access_range( void const* p, u64 n, bool w, void* pc )
{
    if ( !g_active || g_rt || !n ) return;
    g_steps += 1 + n / 8;
    if ( g_mt ) { if ( countdown && --countdown == 0 ) preempt(); }
    check_range( (char const*)p, n, w, pc );
    if ( g_mt ) race_access( (char const*)p, n, w, false, pc );
}

// =====================================================================================================
// disk
// =====================================================================================================
struct Fd { bool used; char name[120]; bool wr; };
static const int MAXFD = 256;
static Fd fds[MAXFD];
struct Fp { FILE* f; int fd; };
static Fp fps[64];
static u64 fs_ops = 0, fs_faults_n = 0, fs_wbytes = 0; static long fs_fail_at = -1, fs_fail_len = 0; static long disk_left = -1; static int eintr_run = 0;

u64 fs_op_count() { return fs_ops; }
u64 alloc_count() { return a_count; }
u64 live_bytes() { return a_live; }
int open_files() { int n = 0; for ( auto const& f : fds ) n += f.used; return n; }
u64 alloc_fault_count() { return a_faults; }
u64 steps() { return g_steps; }
bool in_child() { return g_child; }
void faults( bool on ) { g_faults = on; }
void set_alloc_fail( long at, long len ) { a_fail_at = at < 0 ? -1 : (long)a_count + at; a_fail_len = len; }
void set_large_limit( u64 min, u64 limit ) { a_large_min = min; a_large_limit = limit; a_large = 0; }
void set_thread_fail( long at, long len ) { t_fail_at = at < 0 ? -1 : (long)t_created + at; t_fail_len = len; }
void set_fs_fail( long at, long len ) { fs_fail_at = at < 0 ? -1 : (long)fs_ops + at; fs_fail_len = len; }

static bool sim_on() { return g_active && g_child; }
enum { P_SIM, P_PASS, P_DENY };
static int map_path( char const* p, char* out, size_t cap, bool writing )
{
    // relative paths live in the scratch directory (the working directory); /tmp is moved into it
    size_t sl = strlen( g_scratch );
    if ( p[0] != '/' ) { snprintf( out, cap, "%s/%s", g_scratch, p ); if ( strstr( p, ".." ) && writing ) return P_DENY; return P_SIM; }
    if ( !strncmp( p, g_scratch, sl ) ) { snprintf( out, cap, "%s", p ); return P_SIM; }
    if ( !strncmp( p, "/tmp/", 5 ) || !strncmp( p, "/var/tmp/", 9 ) || !strncmp( p, "/dev/shm/", 9 ) ) { snprintf( out, cap, "%s/%s", g_scratch, strrchr( p, '/' ) + 1 ); return P_SIM; }
    snprintf( out, cap, "%s", p );
    if ( !strncmp( p, "/dev/", 5 ) ) return P_PASS;
    return writing ? P_DENY : P_PASS;
}
static char const* base_name( char const* p ) { char const* b = strrchr( p, '/' ); return b ? b + 1 : p; }

[[noreturn]] static void sim_crash( char const* how )
{
    S->nontrivial = 1;
    note( "L%d process dies %s", g_life, how );
    S->end_kind = CRASH;
    raw( SYS_exit_group, 77 );
    __builtin_unreachable();
}
enum { A_OK, A_ERR, A_SHORT, A_CRASH_AFTER, A_TORN };
static int op_errno;
// kind of operation: 'o' open, 'w' write, 'r' read, 'c' close, 'n' rename, 'u' unlink, 't' truncate, 's' sync
static int op_begin( char k, char const* name, u64 n )
{
    if ( !g_faults ) return A_OK;
    long idx = fs_ops++;
    S->fs_ops = fs_ops;
    S->sim_ns += 50000;
    op_errno = 0;
    if ( idx == O.crash_op )
    {
        if ( O.crash_mode == 0 ) { ++S->fk[FK_CRASH]; char b[200]; snprintf( b, sizeof b, "before operation #%ld %c(%s,%lu)", idx, k, name, (unsigned long)n ); sim_crash( b ); }
        if ( O.crash_mode == 2 && k == 'w' && n > 1 ) return A_TORN;
        return A_CRASH_AFTER;
    }
    int act = A_OK;
    if ( fs_fail_at >= 0 && idx >= fs_fail_at && idx < fs_fail_at + fs_fail_len )
    {
        act = A_ERR;
        u32 v = choose( st_fault(), 2 );
        switch ( k )
        {
            case 'o': op_errno = v ? ENOSPC : EACCES; ++S->fk[FK_OPEN]; break;
            case 'w': op_errno = v ? EIO : ENOSPC; ++S->fk[v ? FK_EIO : FK_ENOSPC]; break;
            case 'r': op_errno = EIO; ++S->fk[FK_READ_EIO]; break;
            case 'c': op_errno = v ? ENOSPC : EIO; ++S->fk[FK_CLOSE]; break;
            case 'n': op_errno = v ? ENOSPC : EIO; ++S->fk[FK_RENAME]; break;
            case 'u': op_errno = v ? EACCES : EIO; ++S->fk[FK_UNLINK]; break;
            default: op_errno = EIO; ++S->fk[FK_EIO]; break;
        }
    }
    else
    {
        u32 e = ( k == 'w' || k == 'r' ) ? O.r_eintr : 0, sh = ( k == 'w' || k == 'r' ) && n > 1 ? O.r_short : 0, hard = 0; int fk = 0;
        switch ( k )
        {
            case 'o': hard = O.r_open; fk = FK_OPEN; break;
            case 'w': hard = O.r_eio; fk = FK_EIO; break;
            case 'r': hard = O.r_read_eio; fk = FK_READ_EIO; break;
            case 'c': hard = O.r_close; fk = FK_CLOSE; break;
            case 'n': hard = O.r_rename; fk = FK_RENAME; break;
            case 'u': hard = O.r_unlink; fk = FK_UNLINK; break;
        }
        if ( e + sh + hard )
        {
            u32 v = 1023 - choose( st_fault(), 1024 ) ; // large draw = fault; a zeroed tape means none
            v = 1023 - v;
            if ( v >= 1024 - hard ) { act = A_ERR; op_errno = k == 'o' ? EMFILE : EIO; ++S->fk[fk]; }
            else if ( v >= 1024 - hard - e && eintr_run < 3 ) { act = A_ERR; op_errno = EINTR; ++eintr_run; ++S->fk[FK_EINTR]; }
            else if ( v >= 1024 - hard - e - sh && v < 1024 - hard - e ) { act = A_SHORT; ++S->fk[FK_SHORT]; }
            if ( op_errno != EINTR ) eintr_run = 0;
        }
    }
    if ( act == A_ERR && op_errno != EINTR ) { ++fs_faults_n; S->fs_faults = fs_faults_n; }
    if ( act != A_OK ) S->nontrivial = 1;
    note( "L%d #%ld %c(%s,%lu)%s", g_life, idx, k, name, (unsigned long)n, act == A_ERR ? ( op_errno == EINTR ? " -> EINTR" : op_errno == ENOSPC ? " -> ENOSPC" : op_errno == EIO ? " -> EIO" : " -> refused" ) : act == A_SHORT ? " -> short" : "" );
    return act;
}
static void op_end( int act, char k, char const* name )
{
    if ( act == A_CRASH_AFTER ) { ++S->fk[FK_CRASH]; char b[200]; snprintf( b, sizeof b, "after %c(%s)", k, name ); sim_crash( b ); }
}
static long size_of( char const* path ) { struct stat st; return ::stat( path, &st ) == 0 && S_ISREG( st.st_mode ) ? (long)st.st_size : 0; }
static bool exists_raw( char const* path ) { return raw( SYS_access, path, F_OK ) == 0; }

static int sim_open( char const* path, int flags, unsigned mode )
{
    bool wr = ( flags & O_ACCMODE ) != O_RDONLY || ( flags & O_CREAT );
    char full[512];
    int m = map_path( path, full, sizeof full, wr );
    if ( !sim_on() || m == P_PASS ) return (int)raw( SYS_openat, AT_FDCWD, sim_on() ? full : path, flags, mode );
    Rt rt;
    if ( m == P_DENY ) { note( "L%d open of %s for writing denied by the sandbox", g_life, path ); errno = EACCES; return -1; }
    if ( flags & O_DIRECTORY ) return (int)raw( SYS_openat, AT_FDCWD, full, flags, mode );
    bool there = exists_raw( full );
    int act = A_OK;
    if ( there || ( flags & O_CREAT ) ) act = op_begin( 'o', base_name( full ), (u64)( wr ? 1 : 0 ) );
    if ( act == A_ERR ) { errno = op_errno; return -1; }
    if ( ( flags & O_TRUNC ) && there && disk_left >= 0 ) disk_left += size_of( full );
    int fd = (int)raw( SYS_openat, AT_FDCWD, full, flags, mode );
    if ( fd >= 0 && fd < MAXFD ) { fds[fd].used = true; snprintf( fds[fd].name, sizeof fds[fd].name, "%s", base_name( full ) ); fds[fd].wr = wr; }
    op_end( act, 'o', base_name( full ) );
    return fd;
}
static ssize_t sim_write( int fd, void const* buf, size_t n, long off = -1 )
{
    if ( !sim_on() || fd < 0 || fd >= MAXFD || !fds[fd].used ) return raw( SYS_write, fd, buf, n );
    Rt rt;
    if ( n == 0 ) return 0;
    int act = op_begin( 'w', fds[fd].name, n );
    if ( act == A_ERR ) { errno = op_errno; return -1; }
    size_t k = n;
    if ( act == A_SHORT ) k = 1 + choose( st_fault(), n - 1 > 0xFFFFFFFFu ? 0xFFFFFFFFu : (u32)( n - 1 ) );
    if ( g_faults && disk_left >= 0 )
    {
        if ( disk_left == 0 ) { ++S->fk[FK_FULL]; ++fs_faults_n; S->fs_faults = fs_faults_n; S->nontrivial = 1; note( "L%d disk full", g_life ); errno = ENOSPC; return -1; }
        if ( (long)k > disk_left ) k = disk_left;
    }
    if ( act == A_TORN )
    {
        k = 1 + choose( st_fault(), n - 1 > 0xFFFFFFFFu ? 0xFFFFFFFFu : (u32)( n - 1 ) );
    }
    ssize_t r = off < 0 ? raw( SYS_write, fd, buf, k ) : raw( SYS_pwrite64, fd, buf, k, off );
    if ( r > 0 ) { fs_wbytes += r; S->write_bytes = fs_wbytes; if ( disk_left >= 0 && g_faults ) disk_left -= r; hash( buf, r ); }
    if ( act == A_TORN ) { ++S->fk[FK_TORN]; char b[200]; snprintf( b, sizeof b, "in the middle of a write to %s after %lu of %lu bytes", fds[fd].name, (unsigned long)k, (unsigned long)n ); sim_crash( b ); }
    op_end( act, 'w', fds[fd].name );
    return r;
}
static ssize_t sim_read( int fd, void* buf, size_t n, long off = -1 )
{
    if ( !sim_on() || fd < 0 || fd >= MAXFD || !fds[fd].used ) return off < 0 ? raw( SYS_read, fd, buf, n ) : raw( SYS_pread64, fd, buf, n, off );
    Rt rt;
    int act = op_begin( 'r', fds[fd].name, n );
    if ( act == A_ERR ) { errno = op_errno; return -1; }
    size_t k = n;
    if ( act == A_SHORT ) k = 1 + choose( st_fault(), (u32)std::min<size_t>( n - 1, 0xFFFFFFFFu ) );
    ssize_t r = off < 0 ? raw( SYS_read, fd, buf, k ) : raw( SYS_pread64, fd, buf, k, off );
    op_end( act, 'r', fds[fd].name );
    return r;
}
static int sim_close( int fd )
{
    if ( !sim_on() || fd < 0 || fd >= MAXFD || !fds[fd].used ) return (int)raw( SYS_close, fd );
    Rt rt;
    int act = op_begin( 'c', fds[fd].name, 0 );
    fds[fd].used = false;
    if ( act == A_ERR && fds[fd].wr && op_errno != EINTR )
    {   // a failed close may mean that the last of the data never reached the disk
        struct stat st;
        if ( choose( st_fault(), 4 ) != 0 && ::fstat( fd, &st ) == 0 && S_ISREG( st.st_mode ) && st.st_size > 0 )
        {
            u64 lost = 1 + choose( st_fault(), (u32)std::min<u64>( st.st_size, 8192 ) );
            raw( SYS_ftruncate, fd, st.st_size - std::min<u64>( lost, st.st_size ) );
            note( "L%d close of %s fails, its last %lu bytes are lost", g_life, fds[fd].name, (unsigned long)lost );
        }
    }
    raw( SYS_close, fd );
    if ( act == A_ERR ) { errno = op_errno; return -1; }
    op_end( act, 'c', fds[fd].name );
    return 0;
}
static int sim_rename( char const* a, char const* b )
{
    char fa[512], fb[512];
    if ( !sim_on() ) return (int)raw( SYS_rename, a, b );
    Rt rt;
    if ( map_path( a, fa, sizeof fa, true ) != P_SIM || map_path( b, fb, sizeof fb, true ) != P_SIM ) { errno = EACCES; return -1; }
    int act = op_begin( 'n', base_name( fa ), 0 );
    if ( act == A_ERR ) { errno = op_errno; return -1; }
    if ( disk_left >= 0 ) disk_left += size_of( fb );
    int r = (int)raw( SYS_rename, fa, fb );
    op_end( act, 'n', base_name( fa ) );
    return r;
}
static int sim_unlink( char const* a )
{
    char fa[512];
    if ( !sim_on() ) return (int)raw( SYS_unlink, a );
    Rt rt;
    if ( map_path( a, fa, sizeof fa, true ) != P_SIM ) { errno = EACCES; return -1; }
    if ( !exists_raw( fa ) ) { errno = ENOENT; return -1; }
    int act = op_begin( 'u', base_name( fa ), 0 );
    if ( act == A_ERR ) { errno = op_errno; return -1; }
    if ( disk_left >= 0 ) disk_left += size_of( fa );
    int r = (int)raw( SYS_unlink, fa );
    op_end( act, 'u', base_name( fa ) );
    return r;
}
static int fp_fd( FILE* f ) { for ( auto& e : fps ) if ( e.f == f ) return e.fd; return -1; }
static ssize_t ck_read( void* c, char* b, size_t n ) { return sim_read( (int)(long)c, b, n ); }
static ssize_t ck_write( void* c, char const* b, size_t n ) { ssize_t r = sim_write( (int)(long)c, b, n ); return r < 0 ? 0 : r; }
static int ck_seek( void* c, off64_t* o, int w ) { off64_t r = raw( SYS_lseek, (int)(long)c, *o, w ); if ( r < 0 ) return -1; *o = r; return 0; }
static int ck_close( void* c ) { return sim_close( (int)(long)c ); }
static FILE* wrap_fd( int fd, char const* mode )
{
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    FILE* f = fopencookie( (void*)(long)fd, mode, io );
    if ( !f ) { raw( SYS_close, fd ); return nullptr; }
    for ( auto& e : fps ) if ( !e.f ) { e.f = f; e.fd = fd; return f; }
    harness_error( "too many open streams" );
}
static FILE* ( *real_fopen64 )( char const*, char const* );
static int ( *real_fclose )( FILE* );
static int ( *real_fileno )( FILE* );
static FILE* sim_fopen( char const* path, char const* mode )
{
    if ( !sim_on() ) return real_fopen64 ? real_fopen64( path, mode ) : fopen64( path, mode );
    int fl = 0; bool plus = strchr( mode, '+' ) != nullptr;
    switch ( mode[0] )
    {
        case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
        case 'w': fl = ( plus ? O_RDWR : O_WRONLY ) | O_CREAT | O_TRUNC; break;
        case 'a': fl = ( plus ? O_RDWR : O_WRONLY ) | O_CREAT | O_APPEND; break;
        default: errno = EINVAL; return nullptr;
    }
    if ( strchr( mode, 'x' ) ) fl |= O_EXCL;
    char full[512];
    int m = map_path( path, full, sizeof full, fl != O_RDONLY );
    if ( m == P_PASS ) return real_fopen64( path, mode );
    int fd = sim_open( path, fl, 0666 );
    if ( fd < 0 ) return nullptr;
    return wrap_fd( fd, mode );
}

// =====================================================================================================
// clock
// =====================================================================================================
static u64 clk_ns = 0; static long clk_off = 0; static u64 clk_last = 0; static int clk_stall = 0;
static void read_clock( struct timespec* ts, bool wall )
{
    Rt rt;
    u64 base = clk_ns + g_steps * 2 + S->sim_ns;
    if ( O.clock == 0 || !g_faults ) clk_ns += 1000;
    else if ( O.clock == 5 ) { if ( !clk_stall ) { ++S->fk[FK_CLOCK_STALL]; S->nontrivial = 1; } clk_stall = 1000000000; }
    else
    {
        u32 v = choose( st_fault(), 16 );
        int mode = O.clock;
        if ( mode == 4 ) mode = 1 + (int)choose( st_fault(), 3 );
        clk_ns += 1000;
        if ( v >= 10 )
        {
            static long const mag[] = { 1000000L, 100000000L, 5000000000L, 3600000000000L, 315360000000000000L };
            if ( mode == 1 ) { clk_stall = 1 + choose( st_fault(), 20 ); ++S->fk[FK_CLOCK_STALL]; S->nontrivial = 1; }
            else
            {
                long d = mag[choose( st_fault(), 5 )];
                if ( mode == 2 ) { if ( clk_off < (long)2e18 ) clk_off += d; ++S->fk[FK_CLOCK_JUMP]; } else { if ( clk_off - d > -(long)( clk_ns + S->sim_ns ) - 1600000000000000000L ) clk_off -= d; ++S->fk[FK_CLOCK_BACK]; }
                S->nontrivial = 1;
            }
        }
    }
    u64 now;
    if ( clk_stall > 0 && clk_last ) { --clk_stall; now = clk_last; }
    else now = base;
    clk_last = now;
    long t = (long)now + clk_off + ( wall ? O.clock_base : 100000 ) * 1000000000L;
    ts->tv_sec = t / 1000000000L; ts->tv_nsec = t % 1000000000L;
    if ( ts->tv_nsec < 0 ) { ts->tv_nsec += 1000000000L; --ts->tv_sec; }
}

} // namespace sim

using namespace sim;

// =====================================================================================================
// interposition
// =====================================================================================================
#define PC __builtin_return_address( 0 )
extern "C" { void* __real_malloc( size_t ); void __real_free( void* ); void* __real_calloc( size_t, size_t ); void* __real_realloc( void*, size_t ); }

// ---- operator new / delete ---------------------------------------------------------------------------
static void* new_impl( size_t n, size_t al, bool nothrow )
{
    if ( !g_active || g_rt )
    {
        void* p = al > 16 ? aligned_alloc( al, ( n + al - 1 ) / al * al ) : __real_malloc( n ? n : 1 );
        if ( !p && !nothrow ) throw std::bad_alloc{};
        return p;
    }
    void* p;
    { Rt rt; p = arena_alloc( n, al ); }
    if ( !p && !nothrow ) throw std::bad_alloc{};
    return p;
}
static void del_impl( void* p )
{
    if ( !p ) return;
    if ( in_arena( p ) ) { if ( g_child ) { Rt rt; arena_free( p ); } return; }
    __real_free( p );
}
void* operator new( size_t n ) { return new_impl( n, 16, false ); }
void* operator new[]( size_t n ) { return new_impl( n, 16, false ); }
void* operator new( size_t n, std::nothrow_t const& ) noexcept { return new_impl( n, 16, true ); }
void* operator new[]( size_t n, std::nothrow_t const& ) noexcept { return new_impl( n, 16, true ); }
void* operator new( size_t n, std::align_val_t a ) { return new_impl( n, (size_t)a, false ); }
void* operator new[]( size_t n, std::align_val_t a ) { return new_impl( n, (size_t)a, false ); }
void* operator new( size_t n, std::align_val_t a, std::nothrow_t const& ) noexcept { return new_impl( n, (size_t)a, true ); }
void* operator new[]( size_t n, std::align_val_t a, std::nothrow_t const& ) noexcept { return new_impl( n, (size_t)a, true ); }
void operator delete( void* p ) noexcept { del_impl( p ); }
void operator delete[]( void* p ) noexcept { del_impl( p ); }
void operator delete( void* p, size_t ) noexcept { del_impl( p ); }
void operator delete[]( void* p, size_t ) noexcept { del_impl( p ); }
void operator delete( void* p, std::nothrow_t const& ) noexcept { del_impl( p ); }
void operator delete[]( void* p, std::nothrow_t const& ) noexcept { del_impl( p ); }
void operator delete( void* p, std::align_val_t ) noexcept { del_impl( p ); }
void operator delete[]( void* p, std::align_val_t ) noexcept { del_impl( p ); }
void operator delete( void* p, size_t, std::align_val_t ) noexcept { del_impl( p ); }
void operator delete[]( void* p, size_t, std::align_val_t ) noexcept { del_impl( p ); }

extern "C"
{
// ---- malloc family as used by the harness object (linker option --wrap) --------------------------------
void* __real_malloc( size_t ); void __real_free( void* ); void* __real_calloc( size_t, size_t ); void* __real_realloc( void*, size_t );
void* __wrap_malloc( size_t n ) { if ( !g_active || g_rt ) return __real_malloc( n ); Rt rt; void* p = arena_alloc( n, 16 ); if ( !p ) errno = ENOMEM; return p; }
void __wrap_free( void* p ) { if ( p && in_arena( p ) ) { if ( g_child ) { Rt rt; arena_free( p ); } return; } __real_free( p ); }
void* __wrap_calloc( size_t a, size_t b )
{
    if ( !g_active || g_rt ) return __real_calloc( a, b );
    if ( b && a > ~0ull / b ) return nullptr;
    void* p; { Rt rt; p = arena_alloc( a * b, 16 ); } if ( p ) memset( p, 0, a * b ); return p;
}
void* __wrap_realloc( void* p, size_t n )
{
    if ( ( !p && ( !g_active || g_rt ) ) || ( p && !in_arena( p ) ) ) return __real_realloc( p, n );
    Rt rt;
    void* q = arena_alloc( n, 16 );
    if ( q && p ) { Hdr* h = (Hdr*)p - 1; memcpy( q, p, h->size < n ? h->size : n ); arena_free( p ); }
    return q;
}
void* __real_memcpy( void*, void const*, size_t ); void* __real_memmove( void*, void const*, size_t ); void* __real_memset( void*, int, size_t ); int __real_memcmp( void const*, void const*, size_t );
void* __wrap_memcpy( void* d, void const* s, size_t n ) { access_range( s, n, false, PC ); access_range( d, n, true, PC ); return __real_memcpy( d, s, n ); }
void* __wrap_memmove( void* d, void const* s, size_t n ) { access_range( s, n, false, PC ); access_range( d, n, true, PC ); return __real_memmove( d, s, n ); }
void* __wrap_memset( void* d, int v, size_t n ) { access_range( d, n, true, PC ); return __real_memset( d, v, n ); }
int __wrap_memcmp( void const* a, void const* b, size_t n ) { access_range( a, n, false, PC ); access_range( b, n, false, PC ); return __real_memcmp( a, b, n ); }

// ---- compiler instrumentation --------------------------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry( void* ) {}
void __tsan_func_exit() {}
#define RW( N ) \
    void __tsan_read##N( void* p ) { access( p, N, false, PC ); } \
    void __tsan_write##N( void* p ) { access( p, N, true, PC ); } \
    void __tsan_unaligned_read##N( void* p ) { access( p, N, false, PC ); } \
    void __tsan_unaligned_write##N( void* p ) { access( p, N, true, PC ); } \
    void __tsan_volatile_read##N( void* p ) { access( p, N, false, PC ); } \
    void __tsan_volatile_write##N( void* p ) { access( p, N, true, PC ); }
RW( 1 ) RW( 2 ) RW( 4 ) RW( 8 ) RW( 16 )
void __tsan_read_range( void* p, size_t n ) { access_range( p, n, false, PC ); }
void __tsan_write_range( void* p, size_t n ) { access_range( p, n, true, PC ); }
void __tsan_vptr_update( void** p, void* ) { access( p, 8, true, PC ); }
void __tsan_vptr_read( void** p ) { access( p, 8, false, PC ); }

static void at_pre( void const volatile* p, u64 n, bool w, int mo, void* pc )
{
    access( (void const*)p, n, w, pc, true );
    if ( g_active && !g_rt && g_mt )
    {
        Rt rt;
        sched_point();
        if ( mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE ) acquire( (void*)p );
        if ( w && mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME ) release( (void*)p );
    }
}
#define ATOMIC( B, TY ) \
    TY __tsan_atomic##B##_load( TY const volatile* p, int mo ) { at_pre( p, B / 8, false, mo, PC ); return *p; } \
    void __tsan_atomic##B##_store( TY volatile* p, TY v, int mo ) { at_pre( p, B / 8, true, mo, PC ); *p = v; } \
    TY __tsan_atomic##B##_exchange( TY volatile* p, TY v, int mo ) { at_pre( p, B / 8, true, mo, PC ); TY o = *p; *p = v; return o; } \
    TY __tsan_atomic##B##_fetch_add( TY volatile* p, TY v, int mo ) { at_pre( p, B / 8, true, mo, PC ); TY o = *p; *p = o + v; return o; } \
    TY __tsan_atomic##B##_fetch_sub( TY volatile* p, TY v, int mo ) { at_pre( p, B / 8, true, mo, PC ); TY o = *p; *p = o - v; return o; } \
    TY __tsan_atomic##B##_fetch_and( TY volatile* p, TY v, int mo ) { at_pre( p, B / 8, true, mo, PC ); TY o = *p; *p = o & v; return o; } \
    TY __tsan_atomic##B##_fetch_or( TY volatile* p, TY v, int mo ) { at_pre( p, B / 8, true, mo, PC ); TY o = *p; *p = o | v; return o; } \
    TY __tsan_atomic##B##_fetch_xor( TY volatile* p, TY v, int mo ) { at_pre( p, B / 8, true, mo, PC ); TY o = *p; *p = o ^ v; return o; } \
    TY __tsan_atomic##B##_fetch_nand( TY volatile* p, TY v, int mo ) { at_pre( p, B / 8, true, mo, PC ); TY o = *p; *p = ~( o & v ); return o; } \
    bool __tsan_atomic##B##_compare_exchange_strong( TY volatile* p, TY* e, TY v, int mo, int ) { at_pre( p, B / 8, true, mo, PC ); if ( *p == *e ) { *p = v; return true; } *e = *p; return false; } \
    bool __tsan_atomic##B##_compare_exchange_weak( TY volatile* p, TY* e, TY v, int mo, int ) { at_pre( p, B / 8, true, mo, PC ); if ( *p == *e ) { *p = v; return true; } *e = *p; return false; } \
    TY __tsan_atomic##B##_compare_exchange_val( TY volatile* p, TY e, TY v, int mo, int ) { at_pre( p, B / 8, true, mo, PC ); TY o = *p; if ( o == e ) *p = v; return o; }
ATOMIC( 8, unsigned char ) ATOMIC( 16, unsigned short ) ATOMIC( 32, unsigned int ) ATOMIC( 64, unsigned long )
static char fence_var;
void __tsan_atomic_thread_fence( int ) { if ( g_active && !g_rt && g_mt ) { Rt rt; acquire( &fence_var ); release( &fence_var ); } }
void __tsan_atomic_signal_fence( int ) {}

// ---- threads -------------------------------------------------------------------------------------------
int pthread_create( pthread_t* t, pthread_attr_t const* a, void* ( *f )( void* ), void* arg )
{
    if ( !real_create ) real_create = (create_t)dlsym( RTLD_NEXT, "pthread_create" );
    if ( !sim_on() ) return real_create( t, a, f, arg );
    return sim_create( t, a, f, arg );
}
int pthread_join( pthread_t t, void** r )
{
    if ( !real_join ) real_join = (join_t)dlsym( RTLD_NEXT, "pthread_join" );
    if ( !sim_on() ) return real_join( t, r );
    return sim_join( t, r );
}
int pthread_detach( pthread_t p )
{
    if ( !real_detach ) real_detach = (detach_t)dlsym( RTLD_NEXT, "pthread_detach" );
    if ( !sim_on() ) return real_detach( p );
    Rt rt;
    Thr* t = by_real( p );
    if ( !t ) return ESRCH;
    t->detached = true; t->stack_used = true;
    if ( t->state == T_DONE ) { t->state = T_FREE; --n_alive; if ( n_alive == 1 ) { g_mt = false; countdown = 0; } }
    return real_detach( p );
}
int sched_yield( void ) { if ( sim_on() ) { Rt rt; if ( g_mt ) { int s = O.sched; if ( s == 0 || s == 4 || s == 2 ) { u32 n = cur; for ( u32 i = 1; i < MAXT; ++i ) { u32 k = ( cur + i ) % MAXT; if ( T[k].state == T_RUN ) { n = k; break; } } switch_to( n ); } else reschedule( false ); } } return 0; }
typedef int ( *mtx_t )( pthread_mutex_t* );
#define REALM( NAME ) static mtx_t r = (mtx_t)dlsym( RTLD_NEXT, NAME )
int pthread_mutex_lock( pthread_mutex_t* m )
{
    if ( !sim_on() ) { REALM( "pthread_mutex_lock" ); return r( m ); }
    Rt rt; sched_point();
    SyncVar* s = sync_of( m );
    if ( s->owner == (int)cur ) { if ( m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP ) { ++s->count; return 0; } }
    while ( s->owner >= 0 ) block_on( m );
    s->owner = cur; s->count = 1; acquire( m );
    return 0;
}
int pthread_mutex_trylock( pthread_mutex_t* m )
{
    if ( !sim_on() ) { REALM( "pthread_mutex_trylock" ); return r( m ); }
    Rt rt; sched_point();
    SyncVar* s = sync_of( m );
    if ( s->owner >= 0 ) { if ( s->owner == (int)cur && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP ) { ++s->count; return 0; } return EBUSY; }
    s->owner = cur; s->count = 1; acquire( m );
    return 0;
}
int pthread_mutex_unlock( pthread_mutex_t* m )
{
    if ( !sim_on() ) { REALM( "pthread_mutex_unlock" ); return r( m ); }
    Rt rt;
    SyncVar* s = sync_of( m );
    if ( --s->count > 0 ) return 0;
    release( m ); s->owner = -1; wake( m, 1000 ); sched_point();
    return 0;
}
static int cond_wait( pthread_cond_t* c, pthread_mutex_t* m, bool timed )
{
    pthread_mutex_unlock( m );
    bool to;
    { Rt rt; block_on( c, timed ); to = T[cur].timed_out; acquire( c ); }
    pthread_mutex_lock( m );
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait( pthread_cond_t* c, pthread_mutex_t* m ) { if ( !sim_on() ) { static auto r = (int ( * )( pthread_cond_t*, pthread_mutex_t* ))dlsym( RTLD_NEXT, "pthread_cond_wait" ); return r( c, m ); } return cond_wait( c, m, false ); }
int pthread_cond_timedwait( pthread_cond_t* c, pthread_mutex_t* m, timespec const* t ) { if ( !sim_on() ) { static auto r = (int ( * )( pthread_cond_t*, pthread_mutex_t*, timespec const* ))dlsym( RTLD_NEXT, "pthread_cond_timedwait" ); return r( c, m, t ); } return cond_wait( c, m, true ); }
int pthread_cond_clockwait( pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, timespec const* t ) { if ( !sim_on() ) { static auto r = (int ( * )( pthread_cond_t*, pthread_mutex_t*, clockid_t, timespec const* ))dlsym( RTLD_NEXT, "pthread_cond_clockwait" ); return r( c, m, k, t ); } return cond_wait( c, m, true ); }
int pthread_cond_signal( pthread_cond_t* c ) { if ( !sim_on() ) { static auto r = (int ( * )( pthread_cond_t* ))dlsym( RTLD_NEXT, "pthread_cond_signal" ); return r( c ); } Rt rt; release( c ); wake( c, 1 ); sched_point(); return 0; }
int pthread_cond_broadcast( pthread_cond_t* c ) { if ( !sim_on() ) { static auto r = (int ( * )( pthread_cond_t* ))dlsym( RTLD_NEXT, "pthread_cond_broadcast" ); return r( c ); } Rt rt; release( c ); wake( c, 1000 ); sched_point(); return 0; }
int pthread_once( pthread_once_t* o, void ( *f )( void ) )
{
    if ( !sim_on() ) { static auto r = (int ( * )( pthread_once_t*, void ( * )( void ) ))dlsym( RTLD_NEXT, "pthread_once" ); return r( o, f ); }
    rt_enter();
    while ( *o == 1 ) block_on( o );
    if ( *o == 2 ) { acquire( o ); rt_leave(); return 0; }
    *o = 1;
    rt_leave();
    try { f(); } catch ( ... ) { *o = 0; wake( o, 1000 ); throw; }
    Rt rt;
    *o = 2; release( o ); wake( o, 1000 );
    return 0;
}
struct TlsDtor { void ( *f )( void* ); void* o; };
int __cxa_thread_atexit_impl( void ( *f )( void* ), void* o, void* d );
int __cxa_thread_atexit( void ( *f )( void* ), void* o, void* d )
{
    if ( sim_on() && cur != 0 )
    {
        Dtor* n = (Dtor*)malloc( sizeof( Dtor ) ); n->f = f; n->o = o; n->next = T[cur].dtors; T[cur].dtors = n;
        return 0;
    }
    return __cxa_thread_atexit_impl( f, o, d );
}
long syscall( long num, ... )
{
    va_list ap; va_start( ap, num );
    long a[6]; for ( int i = 0; i < 6; ++i ) a[i] = va_arg( ap, long );
    va_end( ap );
    if ( num == SYS_futex && sim_on() && !g_rt )
    {
        Rt rt;
        int op = (int)a[1] & 127;
        int* p = (int*)a[0];
        if ( op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET )
        {
            sched_point();
            if ( *(int volatile*)p != (int)a[2] ) { errno = EAGAIN; return -1; }
            block_on( p, a[3] != 0 );
            if ( T[cur].timed_out ) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if ( op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET ) { int k = wake( p, (int)a[2] ); sched_point(); return k; }
    }
    return raw6( num, a[0], a[1], a[2], a[3], a[4], a[5] );
}
int get_nprocs( void ) { return sim_on() ? O.cores : 1; }
int get_nprocs_conf( void ) { return sim_on() ? O.cores : 1; }
long sysconf( int n )
{
    static auto r = (long ( * )( int ))dlsym( RTLD_NEXT, "sysconf" );
    if ( sim_on() && ( n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF ) ) return O.cores;
    return r( n );
}

// ---- disk ----------------------------------------------------------------------------------------------
int open( char const* p, int f, ... ) { va_list ap; va_start( ap, f ); unsigned m = va_arg( ap, unsigned ); va_end( ap ); return sim_open( p, f, m ); }
int open64( char const* p, int f, ... ) { va_list ap; va_start( ap, f ); unsigned m = va_arg( ap, unsigned ); va_end( ap ); return sim_open( p, f, m ); }
int openat( int d, char const* p, int f, ... ) { va_list ap; va_start( ap, f ); unsigned m = va_arg( ap, unsigned ); va_end( ap ); if ( d != AT_FDCWD && p[0] != '/' ) return (int)raw( SYS_openat, d, p, f, m ); return sim_open( p, f, m ); }
int openat64( int d, char const* p, int f, ... ) { va_list ap; va_start( ap, f ); unsigned m = va_arg( ap, unsigned ); va_end( ap ); if ( d != AT_FDCWD && p[0] != '/' ) return (int)raw( SYS_openat, d, p, f, m ); return sim_open( p, f, m ); }
int creat( char const* p, mode_t m ) { return sim_open( p, O_CREAT | O_WRONLY | O_TRUNC, m ); }
int creat64( char const* p, mode_t m ) { return sim_open( p, O_CREAT | O_WRONLY | O_TRUNC, m ); }
int close( int fd ) { return sim_close( fd ); }
ssize_t write( int fd, void const* b, size_t n ) { return sim_write( fd, b, n ); }
ssize_t pwrite( int fd, void const* b, size_t n, off_t o ) { return sim_write( fd, b, n, o ); }
ssize_t pwrite64( int fd, void const* b, size_t n, off64_t o ) { return sim_write( fd, b, n, o ); }
ssize_t writev( int fd, struct iovec const* v, int c )
{
    if ( !sim_on() || fd < 0 || fd >= MAXFD || !fds[fd].used ) return raw( SYS_writev, fd, v, c );
    size_t n = 0; for ( int i = 0; i < c; ++i ) n += v[i].iov_len;
    char* b = (char*)__real_malloc( n + 1 ); size_t k = 0;
    for ( int i = 0; i < c; ++i ) { memcpy( b + k, v[i].iov_base, v[i].iov_len ); k += v[i].iov_len; }
    ssize_t r = sim_write( fd, b, n ); int e = errno; __real_free( b ); errno = e;
    return r;
}
ssize_t read( int fd, void* b, size_t n ) { return sim_read( fd, b, n ); }
ssize_t pread( int fd, void* b, size_t n, off_t o ) { return sim_read( fd, b, n, o ); }
ssize_t pread64( int fd, void* b, size_t n, off64_t o ) { return sim_read( fd, b, n, o ); }
ssize_t __read_chk( int fd, void* b, size_t n, size_t ) { return sim_read( fd, b, n ); }
ssize_t readv( int fd, struct iovec const* v, int c )
{
    if ( !sim_on() || fd < 0 || fd >= MAXFD || !fds[fd].used ) return raw( SYS_readv, fd, v, c );
    ssize_t t = 0;
    for ( int i = 0; i < c; ++i ) { ssize_t r = sim_read( fd, v[i].iov_base, v[i].iov_len ); if ( r < 0 ) return t ? t : r; t += r; if ( (size_t)r < v[i].iov_len ) break; }
    return t;
}
int ftruncate( int fd, off_t n ) { if ( sim_on() && fd >= 0 && fd < MAXFD && fds[fd].used ) { Rt rt; int a = op_begin( 't', fds[fd].name, n ); if ( a == A_ERR ) { errno = op_errno; return -1; } int r = (int)raw( SYS_ftruncate, fd, n ); op_end( a, 't', fds[fd].name ); return r; } return (int)raw( SYS_ftruncate, fd, n ); }
int ftruncate64( int fd, off64_t n ) { return ftruncate( fd, n ); }
int truncate( char const* p, off_t n ) { char f[512]; if ( !sim_on() ) return (int)raw( SYS_truncate, p, n ); if ( map_path( p, f, sizeof f, true ) != P_SIM ) { errno = EACCES; return -1; } Rt rt; int a = op_begin( 't', base_name( f ), n ); if ( a == A_ERR ) { errno = op_errno; return -1; } int r = (int)raw( SYS_truncate, f, n ); op_end( a, 't', base_name( f ) ); return r; }
int truncate64( char const* p, off64_t n ) { return truncate( p, n ); }
int fsync( int fd ) { if ( sim_on() && fd >= 0 && fd < MAXFD && fds[fd].used ) { Rt rt; int a = op_begin( 's', fds[fd].name, 0 ); if ( a == A_ERR ) { errno = op_errno; return -1; } op_end( a, 's', fds[fd].name ); } return 0; }
int fdatasync( int fd ) { return fsync( fd ); }
int rename( char const* a, char const* b ) { return sim_rename( a, b ); }
int renameat( int, char const* a, int, char const* b ) { return sim_rename( a, b ); }
int renameat2( int, char const* a, int, char const* b, unsigned ) { return sim_rename( a, b ); }
int unlink( char const* a ) { return sim_unlink( a ); }
int unlinkat( int d, char const* a, int f ) { if ( !sim_on() || ( f & AT_REMOVEDIR ) ) return (int)raw( SYS_unlinkat, d, a, f ); return sim_unlink( a ); }
int remove( char const* a ) { return sim_unlink( a ); }
int link( char const* a, char const* b ) { char fa[512], fb[512]; if ( !sim_on() ) return (int)raw( SYS_link, a, b ); if ( map_path( a, fa, 512, true ) != P_SIM || map_path( b, fb, 512, true ) != P_SIM ) { errno = EACCES; return -1; } Rt rt; int c = op_begin( 'n', base_name( fa ), 0 ); if ( c == A_ERR ) { errno = op_errno; return -1; } int r = (int)raw( SYS_link, fa, fb ); op_end( c, 'n', base_name( fa ) ); return r; }
int mkdir( char const* p, mode_t m ) { char f[512]; if ( !sim_on() ) return (int)raw( SYS_mkdir, p, m ); if ( map_path( p, f, sizeof f, true ) != P_SIM ) { errno = EACCES; return -1; } return (int)raw( SYS_mkdir, f, m ); }
ssize_t sendfile64( int o, int i, off64_t* off, size_t n ) { if ( sim_on() && o >= 0 && o < MAXFD && fds[o].used ) { Rt rt; int a = op_begin( 'w', fds[o].name, n ); if ( a == A_ERR ) { errno = op_errno; return -1; } ssize_t r = raw( SYS_sendfile, o, i, off, n ); op_end( a, 'w', fds[o].name ); return r; } return raw( SYS_sendfile, o, i, off, n ); }
ssize_t sendfile( int o, int i, off_t* off, size_t n ) { return sendfile64( o, i, off, n ); }
ssize_t copy_file_range( int i, off64_t* oi, int o, off64_t* oo, size_t n, unsigned f ) { if ( sim_on() && o >= 0 && o < MAXFD && fds[o].used ) { Rt rt; int a = op_begin( 'w', fds[o].name, n ); if ( a == A_ERR ) { errno = op_errno; return -1; } ssize_t r = raw( SYS_copy_file_range, i, oi, o, oo, n, (long)f ); op_end( a, 'w', fds[o].name ); return r; } return raw( SYS_copy_file_range, i, oi, o, oo, n, (long)f ); }
FILE* fopen( char const* p, char const* m ) { return sim_fopen( p, m ); }
FILE* fopen64( char const* p, char const* m ) { if ( !real_fopen64 ) real_fopen64 = (FILE * ( * )( char const*, char const* ))dlsym( RTLD_NEXT, "fopen64" ); return sim_fopen( p, m ); }
FILE* fdopen( int fd, char const* m ) { if ( sim_on() && fd >= 0 && fd < MAXFD && fds[fd].used ) return wrap_fd( fd, m ); static auto r = (FILE * ( * )( int, char const* ))dlsym( RTLD_NEXT, "fdopen" ); return r( fd, m ); }
int fclose( FILE* f )
{
    if ( !real_fclose ) real_fclose = (int ( * )( FILE* ))dlsym( RTLD_NEXT, "fclose" );
    for ( auto& e : fps ) if ( e.f == f ) { e.f = nullptr; break; }
    return real_fclose( f );
}
int fileno( FILE* f ) { int d = fp_fd( f ); if ( d >= 0 ) return d; if ( !real_fileno ) real_fileno = (int ( * )( FILE* ))dlsym( RTLD_NEXT, "fileno" ); return real_fileno( f ); }

// ---- clock, terminal, entropy ----------------------------------------------------------------------------
int clock_gettime( clockid_t c, struct timespec* ts ) { if ( !sim_on() ) return (int)raw( SYS_clock_gettime, c, ts ); read_clock( ts, c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ); return 0; }
int gettimeofday( struct timeval* tv, void* ) { timespec ts; clock_gettime( CLOCK_REALTIME, &ts ); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time( time_t* t ) { timespec ts; clock_gettime( CLOCK_REALTIME, &ts ); if ( t ) *t = ts.tv_sec; return ts.tv_sec; }
clock_t clock( void ) { timespec ts; clock_gettime( CLOCK_PROCESS_CPUTIME_ID, &ts ); return ( ts.tv_sec % 100000 ) * CLOCKS_PER_SEC + ts.tv_nsec / 1000; }
int nanosleep( struct timespec const* t, struct timespec* ) { if ( !sim_on() ) return (int)raw( SYS_nanosleep, t, 0 ); clk_ns += (u64)t->tv_sec * 1000000000ull + t->tv_nsec; sched_yield(); return 0; }
int clock_nanosleep( clockid_t, int, struct timespec const* t, struct timespec* r ) { return nanosleep( t, r ); }
int usleep( useconds_t u ) { timespec t{ (time_t)( u / 1000000 ), (long)( u % 1000000 ) * 1000 }; return nanosleep( &t, nullptr ); }
int ioctl( int fd, unsigned long req, ... )
{
    va_list ap; va_start( ap, req ); void* a = va_arg( ap, void* ); va_end( ap );
    if ( sim_on() && req == TIOCGWINSZ )
    {
        if ( O.tty_cols < 0 ) { ++S->fk[FK_TTY]; S->nontrivial = 1; errno = ENOTTY; return -1; }
        struct winsize* w = (struct winsize*)a; w->ws_row = 25; w->ws_col = (unsigned short)O.tty_cols; w->ws_xpixel = w->ws_ypixel = 0;
        return 0;
    }
    return (int)raw( SYS_ioctl, fd, req, a );
}
static u64 entropy_ctr = 0;
int getentropy( void* b, size_t n ) { if ( !sim_on() ) return (int)raw( SYS_getrandom, b, n, 0 ) >= 0 ? 0 : -1; Rt rt; unsigned char* c = (unsigned char*)b; for ( size_t i = 0; i < n; ++i ) c[i] = (unsigned char)( mix( ++entropy_ctr, O.arena_shift + O.clock_base ) ); return 0; }
ssize_t getrandom( void* b, size_t n, unsigned f ) { if ( !sim_on() ) return raw( SYS_getrandom, b, n, (long)f ); getentropy( b, n ); return n; }
} // extern "C"

unsigned int std::thread::hardware_concurrency() noexcept { return sim_on() ? (unsigned)O.cores : 1u; }
unsigned int std::random_device::_M_getval() { unsigned v; getentropy( &v, sizeof v ); return v; }

// =====================================================================================================
// supervisor
// =====================================================================================================
namespace sim
{
static std::vector<Scenario>& registry() { static std::vector<Scenario> r; return r; }
Register::Register( char const* p, char const* n, int w, void ( *f )() ) { registry().push_back( { p, n, w, f } ); }

std::string scratch() { return g_scratch; }
static std::string full( std::string const& n ) { return n[0] == '/' ? n : std::string( g_scratch ) + "/" + n; }
bool read_file( std::string const& n, std::string& c )
{
    Rt rt;
    c.clear();
    int fd = (int)raw( SYS_openat, AT_FDCWD, full( n ).c_str(), O_RDONLY, 0 );
    if ( fd < 0 ) return false;
    char b[65536]; ssize_t r;
    while ( ( r = raw( SYS_read, fd, b, sizeof b ) ) > 0 ) c.append( b, r );
    raw( SYS_close, fd );
    return true;
}
void write_file( std::string const& n, std::string const& c )
{
    Rt rt;
    int fd = (int)raw( SYS_openat, AT_FDCWD, full( n ).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666 );
    if ( fd < 0 ) harness_error( "cannot write %s", n.c_str() );
    size_t k = 0; while ( k < c.size() ) { ssize_t r = raw( SYS_write, fd, c.data() + k, c.size() - k ); if ( r <= 0 ) { harness_error( "cannot write %s", n.c_str() ); } k += r; }
    raw( SYS_close, fd );
}
bool exists( std::string const& n ) { return exists_raw( full( n ).c_str() ); }
void remove_file( std::string const& n ) { raw( SYS_unlink, full( n ).c_str() ); }
std::vector<std::string> list_files()
{
    Rt rt;
    std::vector<std::string> r;
    DIR* d = opendir( g_scratch ); if ( !d ) return r;
    while ( dirent* e = readdir( d ) ) { std::string s = e->d_name; if ( s != "." && s != ".." ) r.push_back( s ); }
    closedir( d ); std::sort( r.begin(), r.end() );
    return r;
}
void clear_scratch() { for ( auto& f : list_files() ) { raw( SYS_unlink, full( f ).c_str() ); } }

void default_sched( LifeOpts& o )
{
    static int const cs[] = { 2, 3, 4, 2, 5, 8, 7, 6, 12, 16, 1, 0 };      // 0: the system cannot tell
    o.cores = cs[pick( 12, "cores" )];
    static int const sm[] = { 1, 2, 3, 0, 4, 1, 1 };
    o.sched = sm[pick( 7, "sched" )];
    static u32 const ds[] = { 20, 5, 100, 2, 500, 2000 };
    o.sched_dist = ds[pick( 6, "dist" )];
}

static void* child_main( void* a )
{
    wait_turn( 0 );
    std::function<void()> const& body = *(std::function<void()> const*)a;
    g_active = true;
    g_rt = 0;
    S->end_kind = -1;
    try
    {
        body();
        S->end_kind = RET;
    }
    catch ( std::exception const& e )
    {
        ++g_rt; S->end_kind = EXC; snprintf( S->end_text, sizeof S->end_text, "%s", e.what() ); --g_rt;
    }
    catch ( ... )
    {
        S->end_kind = EXC; snprintf( S->end_text, sizeof S->end_text, "unknown exception" );
    }
    if ( O.run_exit && S->end_kind == RET ) { S->steps = g_steps; S->end_kind = -2; exit( 0 ); }
    g_active = false;
    S->steps = g_steps;
    raw( SYS_exit_group, 0 );
    return nullptr;
}

extern "C" char __executable_start, etext;
static void on_fatal( int sg, siginfo_t*, void* uc )
{   // remember where in the program it happened (the innermost frame that belongs to it)
    u64 pc = 0;
#ifdef __x86_64__
    ucontext_t* u = (ucontext_t*)uc;
    u64 lo = (u64)&__executable_start, hi = (u64)&etext;
    pc = u->uc_mcontext.gregs[REG_RIP];
    u64* sp = (u64*)u->uc_mcontext.gregs[REG_RSP];
    for ( int i = 0; i < 400 && !( pc >= lo && pc < hi ); ++i ) pc = sp[i];
    if ( !( pc >= lo && pc < hi ) ) pc = 0;
#endif
    S->sig_pc = pc;
    signal( sg, SIG_DFL );
    raise( sg );
    raw( SYS_exit_group, 98 );
}
static void on_abort( int ) { S->steps = g_steps; S->end_kind = ABORT; raw( SYS_exit_group, 134 ); }

Outcome life( LifeOpts const& o, std::function<void()> const& body )
{
    if ( g_life >= MAXLIFE - 1 ) harness_error( "too many lifetimes" );
    if ( g_life > 0 ) S->nontrivial = 1;
    S->log_n = 0; S->end_kind = -1; S->end_text[0] = 0; S->sig_pc = 0;
    S->fs_ops = S->allocs = S->threads = S->steps = S->write_bytes = S->switches = S->fs_faults = S->alloc_faults = S->thread_faults = S->preempts = S->max_live = 0;
    note( "L%d begins %s cores=%d sched=%d/%u%s", g_life, o.tag, o.cores, o.sched, o.sched_dist, o.reuse ? " reuse" : "" );
    if ( o.crash_op >= 0 ) note( "L%d plan: dies at operation %ld mode %d", g_life, o.crash_op, o.crash_mode );
    pid_t pid = fork();
    if ( pid < 0 ) harness_error( "fork failed" );
    if ( pid == 0 )
    {
        g_child = true;
        O = o;
        a_fail_at = o.alloc_fail_at; a_fail_len = o.alloc_fail_len;
        t_fail_at = o.thread_fail_at; t_fail_len = o.thread_fail_len;
        fs_fail_at = o.fail_op; fs_fail_len = o.fail_len;
        disk_left = o.disk_budget;
        a_top = 4096 + ( o.arena_shift + 15 ) / 16 * 16;
        g_faults = true;
        (void)!chdir( g_scratch );
        setenv( "TMPDIR", g_scratch, 1 );
        struct rlimit rl{ 0, 0 }; setrlimit( RLIMIT_CORE, &rl );
        rl.rlim_cur = rl.rlim_max = 100; setrlimit( RLIMIT_CPU, &rl );
        alarm( 400 );
        signal( SIGABRT, on_abort );
        { struct sigaction sa{}; sa.sa_sigaction = on_fatal; sa.sa_flags = SA_SIGINFO | SA_NODEFER; for ( int sg : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP } ) sigaction( sg, &sa, nullptr ); }
        if ( !g_verbose )
        {
            int fd = (int)raw( SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY, 0 );
            raw( SYS_dup2, fd, 1 ); raw( SYS_dup2, fd, 2 );
        }
        { int fd = (int)raw( SYS_openat, AT_FDCWD, "/dev/null", O_RDONLY, 0 ); raw( SYS_dup2, fd, 0 ); }
        T[0].state = T_RUN; T[0].id = 0; n_alive = 1; n_unfinished = 1; cur = 0; T[0].go = 0;
        pthread_attr_t at; pthread_attr_init( &at ); pthread_attr_setstack( &at, STACKS, MAIN_STACK );
        pthread_t th;
        if ( real_create( &th, &at, child_main, (void*)&body ) ) raw( SYS_exit_group, 99 );
        T[0].real = th;
        T[0].go = 1; raw( SYS_futex, &T[0].go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0 );
        for ( ;; ) pause();
    }
    int st = 0;
    while ( waitpid( pid, &st, 0 ) < 0 && errno == EINTR ) {}
    Outcome r;
    r.fs_ops = S->fs_ops; r.allocs = S->allocs; r.threads = S->threads; r.steps = S->steps; r.write_bytes = S->write_bytes; r.switches = S->switches;
    r.fs_faults = S->fs_faults; r.alloc_faults = S->alloc_faults; r.thread_faults = S->thread_faults; r.preempts = S->preempts; r.max_live = S->max_live;
    S->total_steps += S->steps; S->total_switches += S->switches; ++S->total_lives;
    if ( S->verdict ) { ++g_life; throw RunEnd{}; }
    r.log.b.assign( S->log, S->log_n );
    r.what = S->end_text;
    if ( WIFSIGNALED( st ) )
    {
        int sg = WTERMSIG( st );
        if ( sg == SIGABRT ) r.kind = ABORT;
        else if ( sg == SIGXCPU ) { r.kind = HANG; violation( "no-progress", "the process uses processor time without end" ); }
        else if ( sg == SIGSEGV || sg == SIGBUS || sg == SIGFPE || sg == SIGILL || sg == SIGTRAP ) { r.kind = SIGV; violation( "memory-signal", "the process dies by signal %d (%s) (pc 0x%lx)", sg, strsignal( sg ), (unsigned long)S->sig_pc ); }
        else if ( sg == SIGALRM ) { r.kind = HANG; violation( "no-progress", "the process waits without end" ); }
        else harness_error( "lifetime killed by signal %d", sg );
    }
    else
    {
        int c = WEXITSTATUS( st );
        if ( c == 77 ) r.kind = CRASH;
        else if ( c == 134 ) r.kind = ABORT;
        else if ( c == 0 && S->end_kind == -2 ) r.kind = RET;
        else if ( c == 0 && S->end_kind >= 0 ) r.kind = S->end_kind;
        else if ( c == 99 ) harness_error( "no thread for a lifetime" );
        else if ( S->end_kind == -1 ) { r.kind = RET; r.what = "called exit"; harness_error( "lifetime left with status %d", c ); }
        else harness_error( "lifetime ended with status %d", c );
    }
    note( "L%d ends: %s%s%s", g_life, kind_name( r.kind ), r.what.empty() ? "" : ": ", r.what.c_str() );
    hmix( r.fs_ops ); hmix( r.allocs ); hmix( r.steps ); hmix( r.threads );
    ++g_life;
    return r;
}

static void run_reset()
{
    memset( S->heads, 0, sizeof S->heads );
    S->pool_n = 0; S->verdict = 0; S->vkind[0] = S->vtext[0] = 0; S->hash = 0x1234; S->nontrivial = 0;
    S->note_n = 0; S->log_n = 0; S->total_steps = S->total_switches = S->total_lives = 0; S->sim_ns = 0;
    g_life = 0;
    clear_scratch();
}
static void run_one( Scenario const& sc, u64 seed )
{
    g_prop = sc.prop; g_scen = sc.name; g_seed = seed;
    run_reset();
    try { sc.run(); }
    catch ( RunEnd const& ) {}
    catch ( std::exception const& e ) { S->verdict = 2; snprintf( S->vtext, sizeof S->vtext, "supervisor exception: %s", e.what() ); }
}
static void jstr( FILE* f, char const* s, size_t n )
{
    fputc( '"', f );
    for ( size_t i = 0; i < n; ++i ) { unsigned char c = s[i]; if ( c == '"' || c == '\\' ) fprintf( f, "\\%c", c ); else if ( c == '\n' ) fputs( "\\n", f ); else if ( c < 32 || c > 126 ) fprintf( f, "\\u%04x", c ); else fputc( c, f ); }
    fputc( '"', f );
}
static void write_replay( char const* path, Scenario const& sc, u64 seed )
{
    FILE* f = real_fopen64( path, "w" );
    if ( !f ) { fprintf( stderr, "cannot write %s\n", path ); _exit( 3 ); }
    fprintf( f, "ceras-sim-replay 1\nproperty %s\nscenario %s\nseed %llu\n", sc.prop, sc.name, (unsigned long long)seed );
    fprintf( f, "kind %s\ntext %.1500s\nhash %016llx\n", S->vkind, S->vtext, (unsigned long long)S->hash );
    for ( u32 s = 0; s < (u32)MAXSTREAM; ++s )
        if ( S->heads[s].n )
        {
            fprintf( f, "stream %u :", s );
            for ( u32 i = 0; i < S->pool_n; ++i ) if ( S->pool[i].stream == s ) fprintf( f, " %u", S->pool[i].value );
            fprintf( f, "\n" );
        }
    fprintf( f, "trace\n" );
    // keep the beginning and the end of long traces
    if ( S->note_n < 40000 ) fwrite( S->notes, 1, S->note_n, f );
    else { fwrite( S->notes, 1, 15000, f ); fprintf( f, "\n...\n" ); fwrite( S->notes + S->note_n - 25000, 1, 25000, f ); }
    real_fclose( f );
}
static bool load_replay( char const* path, std::string& prop, std::string& scen, u64& seed, std::string& kind, u64& hash_ )
{
    FILE* f = real_fopen64( path, "r" ); if ( !f ) return false;
    g_tape_in = new std::vector<std::vector<u32>>( MAXSTREAM );
    char* line = nullptr; size_t cap = 0; ssize_t n;
    while ( ( n = getline( &line, &cap, f ) ) > 0 )
    {
        if ( line[n - 1] == '\n' ) line[--n] = 0;
        if ( !strncmp( line, "property ", 9 ) ) prop = line + 9;
        else if ( !strncmp( line, "scenario ", 9 ) ) scen = line + 9;
        else if ( !strncmp( line, "seed ", 5 ) ) seed = strtoull( line + 5, nullptr, 10 );
        else if ( !strncmp( line, "kind ", 5 ) ) kind = line + 5;
        else if ( !strncmp( line, "hash ", 5 ) ) hash_ = strtoull( line + 5, nullptr, 16 );
        else if ( !strncmp( line, "stream ", 7 ) )
        {
            char* e; unsigned s = strtoul( line + 7, &e, 10 );
            while ( *e == ' ' || *e == ':' ) ++e;
            while ( *e ) { char* b = e; u32 v = strtoul( b, &e, 10 ); if ( e == b ) break; if ( s < (unsigned)MAXSTREAM ) (*g_tape_in)[s].push_back( v ); while ( *e == ' ' ) ++e; }
        }
        else if ( !strcmp( line, "trace" ) ) break;
    }
    free( line ); real_fclose( f );
    return true;
}
static void print_result( FILE* f, Scenario const& sc, u64 seed )
{
    fprintf( f, "{\"scenario\":\"%s\",\"seed\":%llu,\"verdict\":%d,\"kind\":", sc.name, (unsigned long long)seed, S->verdict );
    jstr( f, S->vkind, strlen( S->vkind ) ); fprintf( f, ",\"text\":" ); jstr( f, S->vtext, strlen( S->vtext ) );
    fprintf( f, ",\"hash\":\"%016llx\",\"choices\":%u}\n", (unsigned long long)S->hash, S->pool_n );
    fflush( f );
}
struct Known { std::string prop, scen, kind, text; };
static double wall() { timespec t; raw( SYS_clock_gettime, CLOCK_MONOTONIC, &t ); return t.tv_sec + t.tv_nsec * 1e-9; }

int sim_main( int argc, char** argv )
{
    if ( !real_fopen64 ) real_fopen64 = (FILE * ( * )( char const*, char const* ))dlsym( RTLD_NEXT, "fopen64" );
    real_fclose = (int ( * )( FILE* ))dlsym( RTLD_NEXT, "fclose" );
    real_fileno = (int ( * )( FILE* ))dlsym( RTLD_NEXT, "fileno" );
    real_create = (create_t)dlsym( RTLD_NEXT, "pthread_create" );
    real_join = (join_t)dlsym( RTLD_NEXT, "pthread_join" );
    real_detach = (detach_t)dlsym( RTLD_NEXT, "pthread_detach" );
    auto opt = [&]( char const* name, char const* def ) -> char const* { for ( int i = 2; i + 1 < argc; ++i ) if ( !strcmp( argv[i], name ) ) return argv[i + 1]; return def; };
    if ( argc < 2 ) { fprintf( stderr, "usage: worker|replay|one|list\n" ); return 2; }
    std::string mode = argv[1];
    if ( mode == "list" ) { for ( auto& s : registry() ) printf( "%s %s %d\n", s.prop, s.name, s.weight ); return 0; }
    auto mm = []( void* a, u64 n ) { void* p = mmap( a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0 ); if ( p != a ) { fprintf( stderr, "cannot map simulator memory at %p\n", a ); _exit( 3 ); } };
    mm( ARENA, ARENA_SIZE ); mm( SHADOW, ARENA_SIZE / 8 ); mm( RACE, ARENA_SIZE * 8 ); mm( STACKS, MAIN_STACK + MAXT * STACK_SZ );
    ht_tags = (u64*)calloc( HT, 8 ); ht_cells = (u64*)calloc( HT, 64 );
    S = (Shared*)mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
    if ( S == MAP_FAILED ) { perror( "mmap" ); return 3; }
    char const* base = getenv( "SIM_SCRATCH" ); if ( !base ) base = "/tmp";
    snprintf( g_scratch, sizeof g_scratch, "%s/cerasim-%d", base, (int)getpid() );
    if ( raw( SYS_mkdir, g_scratch, 0700 ) ) { perror( g_scratch ); return 3; }
    auto done = [&]( int rc ) { clear_scratch(); raw( SYS_rmdir, g_scratch ); return rc; };
    auto find = [&]( std::string const& p, std::string const& s ) -> Scenario const* { for ( auto& r : registry() ) if ( p == r.prop && s == r.name ) return &r; return nullptr; };
    char const* verb = opt( "--verbose", "0" ); g_verbose = verb[0] == '1';
    if ( mode == "replay" )
    {
        std::string p, s, k; u64 seed = 0, h = 0;
        if ( argc < 3 || !load_replay( argv[2], p, s, seed, k, h ) ) { fprintf( stderr, "cannot read replay file\n" ); return done( 2 ); }
        Scenario const* sc = find( p, s );
        if ( !sc ) { fprintf( stderr, "unknown scenario %s/%s\n", p.c_str(), s.c_str() ); return done( 2 ); }
        g_replay = true;
        run_one( *sc, seed );
        char const* o = opt( "--out", "" );
        if ( *o ) write_replay( o, *sc, seed );
        print_result( stdout, *sc, seed );
        return done( S->verdict == 1 ? 1 : S->verdict == 2 ? 2 : 0 );
    }
    if ( mode == "one" )
    {
        Scenario const* sc = find( opt( "--prop", "" ), opt( "--scenario", "" ) );
        if ( !sc ) return done( 2 );
        run_one( *sc, strtoull( opt( "--seed", "1" ), nullptr, 10 ) );
        char const* o = opt( "--out", "" );
        if ( *o ) write_replay( o, *sc, g_seed );
        print_result( stdout, *sc, g_seed );
        return done( S->verdict == 1 ? 1 : S->verdict == 2 ? 2 : 0 );
    }
    // worker
    std::string prop = opt( "--prop", "" );
    u64 base_seed = strtoull( opt( "--base", "1" ), nullptr, 10 ), start = strtoull( opt( "--start", "0" ), nullptr, 10 ), stride = strtoull( opt( "--stride", "1" ), nullptr, 10 );
    double limit = atof( opt( "--time", "10" ) ); u64 maxruns = strtoull( opt( "--max", "1000000000" ), nullptr, 10 );
    std::string outdir = opt( "--out", "." ); std::string only = opt( "--scenario", "" );
    std::vector<Known> kn;
    if ( char const* kf = opt( "--known", nullptr ) )
        if ( FILE* f = real_fopen64( kf, "r" ) )
        {
            char* line = nullptr; size_t cap = 0; ssize_t n;
            // property<TAB>scenario<TAB>kind<TAB>text that must occur in the report
            while ( ( n = getline( &line, &cap, f ) ) > 0 )
            {
                if ( line[n - 1] == '\n' ) line[n - 1] = 0;
                std::vector<std::string> c{ "" };
                for ( char* q = line; *q; ++q ) if ( *q == '\t' ) c.push_back( "" ); else c.back() += *q;
                if ( c.size() >= 4 ) kn.push_back( { c[0], c[1], c[2], c[3] } );
            }
            free( line ); real_fclose( f );
        }
    std::vector<Scenario> mine; for ( auto& r : registry() ) if ( prop == r.prop && ( only.empty() || only == r.name ) ) for ( int i = 0; i < r.weight; ++i ) mine.push_back( r );
    if ( mine.empty() ) { fprintf( stderr, "no scenario for %s\n", prop.c_str() ); return done( 2 ); }
    std::string tag = std::to_string( start );
    FILE* out = real_fopen64( ( outdir + "/w" + tag + ".jsonl" ).c_str(), "w" );
    if ( !out ) { perror( "out" ); return done( 3 ); }
    double t0 = wall();
    u64 runs = 0, skipped = 0, nontriv = 0, st = 0, sw = 0, lives = 0, simns = 0, knowns = 0, choices = 0;
    std::unordered_set<u64> hashes, nthashes; std::vector<std::string> samples; std::map<std::string, u64> per_scen; std::map<std::string, u64> known_seen;
    int rc = 0; u64 recheck = 0;
    for ( u64 i = start; runs < maxruns && wall() - t0 < limit; i += stride )
    {
        u64 seed = mix( base_seed * 1000003 + 17, i );
        seed >>= 1;
        Scenario const& sc = mine[i / stride % mine.size()];
        run_one( sc, seed );
        ++runs; per_scen[sc.name]++;
        if ( S->verdict == 3 ) { ++skipped; continue; }
        u64 h = S->hash; choices += S->pool_n;
        hashes.insert( h );
        if ( S->nontrivial ) { nthashes.insert( h ); ++nontriv; }
        st += S->total_steps; sw += S->total_switches; lives += S->total_lives; simns += S->sim_ns + S->total_steps * 2;
        if ( samples.size() < 2 && S->nontrivial && ( runs > 3 || runs == 1 ) && S->verdict == 0 ) { std::string s( S->notes, std::min<size_t>( S->note_n, 600 ) ); samples.push_back( std::string( sc.name ) + " seed " + std::to_string( seed ) + "\n" + s ); }
        // periodic self-check: the same seed gives the same run
        if ( S->verdict == 0 && ( runs % 97 == 5 ) )
        {
            ++recheck;
            u32 save_life = g_life; (void)save_life;
            // counters of the repetition are not evidence: keep a copy
            std::vector<char> keep( (char*)S->fk, (char*)S->fk + sizeof S->fk );
            std::vector<char> kc( (char*)&S->ncount, (char*)&S->ncount + sizeof S->ncount + sizeof S->counters );
            run_one( sc, seed );
            memcpy( S->fk, keep.data(), keep.size() ); memcpy( &S->ncount, kc.data(), kc.size() );
            if ( S->hash != h || S->verdict != 0 )
            {
                fprintf( out, "{\"type\":\"error\",\"text\":\"seed %llu of %s is not reproducible: %016llx %016llx\"}\n", (unsigned long long)seed, sc.name, (unsigned long long)h, (unsigned long long)S->hash );
                rc = 2; break;
            }
        }
        if ( S->verdict == 2 )
        {
            fprintf( out, "{\"type\":\"error\",\"scenario\":\"%s\",\"seed\":%llu,\"text\":", sc.name, (unsigned long long)seed ); jstr( out, S->vtext, strlen( S->vtext ) ); fprintf( out, "}\n" );
            rc = 2; break;
        }
        if ( S->verdict == 1 )
        {
            bool is_known = false;
            for ( auto& k : kn ) if ( k.prop == prop && ( k.scen == "*" || k.scen == sc.name ) && ( k.kind == S->vkind ) && strstr( S->vtext, k.text.c_str() ) ) { is_known = true; known_seen[k.kind + "\t" + k.text]++; }
            if ( is_known ) { ++knowns; continue; }
            std::string path = outdir + "/v" + tag + ".replay";
            write_replay( path.c_str(), sc, seed );
            fprintf( out, "{\"type\":\"violation\",\"scenario\":\"%s\",\"seed\":%llu,\"hash\":\"%016llx\",\"replay\":", sc.name, (unsigned long long)seed, (unsigned long long)S->hash ); jstr( out, path.data(), path.size() );
            fprintf( out, ",\"kind\":" ); jstr( out, S->vkind, strlen( S->vkind ) ); fprintf( out, ",\"text\":" ); jstr( out, S->vtext, strlen( S->vtext ) ); fprintf( out, "}\n" );
            rc = 1; break;
        }
    }
    fprintf( out, "{\"type\":\"summary\",\"runs\":%llu,\"skipped\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"switches\":%llu,\"lifetimes\":%llu,\"sim_ns\":%llu,\"known\":%llu,\"choices\":%llu,\"rechecked\":%llu,\"wall\":%.2f",
             (unsigned long long)runs, (unsigned long long)skipped, (unsigned long long)nontriv, (unsigned long long)st, (unsigned long long)sw, (unsigned long long)lives, (unsigned long long)simns, (unsigned long long)knowns, (unsigned long long)choices, (unsigned long long)recheck, wall() - t0 );
    fprintf( out, ",\"faults\":{" ); bool first = true;
    for ( int k = 0; k < FK_COUNT; ++k ) if ( S->fk[k] ) { fprintf( out, "%s\"%s\":%llu", first ? "" : ",", fk_names[k], (unsigned long long)S->fk[k] ); first = false; }
    fprintf( out, "},\"counters\":{" ); first = true;
    for ( u32 k = 0; k < S->ncount; ++k ) { fprintf( out, "%s", first ? "" : "," ); jstr( out, S->counters[k].name, strlen( S->counters[k].name ) ); fprintf( out, ":%llu", (unsigned long long)S->counters[k].v ); first = false; }
    fprintf( out, "},\"scenarios\":{" ); first = true;
    for ( auto& [k, v] : per_scen ) { fprintf( out, "%s\"%s\":%llu", first ? "" : ",", k.c_str(), (unsigned long long)v ); first = false; }
    fprintf( out, "},\"known_seen\":{" ); first = true;
    for ( auto& [k, v] : known_seen ) { fprintf( out, "%s", first ? "" : "," ); jstr( out, k.data(), k.size() ); fprintf( out, ":%llu", (unsigned long long)v ); first = false; }
    fprintf( out, "},\"cover\":[" ); first = true;
    for ( u32 k = 0; k < S->ncover; ++k ) { fprintf( out, "%s", first ? "" : "," ); jstr( out, S->covernames[k], strlen( S->covernames[k] ) ); first = false; }
    fprintf( out, "],\"samples\":[" ); first = true;
    for ( auto& s : samples ) { fprintf( out, "%s", first ? "" : "," ); jstr( out, s.data(), s.size() ); first = false; }
    fprintf( out, "]}\n" );
    real_fclose( out );
    FILE* hf = real_fopen64( ( outdir + "/h" + tag + ".bin" ).c_str(), "w" );
    for ( u64 h : nthashes ) fwrite( &h, 8, 1, hf );
    real_fclose( hf );
    return done( rc );
}
} // namespace sim

int main( int argc, char** argv ) { int rc = sim::sim_main( argc, argv ); fflush( stdout ); _exit( rc ); }
