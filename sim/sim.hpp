// Deterministic simulator: public interface for the harnesses.
#ifndef CERAS_SIM_HPP
#define CERAS_SIM_HPP
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

namespace sim
{
    typedef std::uint32_t u32;
    typedef std::uint64_t u64;

    // ---- choices (recorded on tapes; 0 is always the simplest value) ----
    u32  pick( u32 n, char const* label );                    // uniform in [0,n); supervisor: plan tape, child: data tape
    bool chance( u32 num, u32 den, char const* label );       // true with probability num/den
    u64  raw_seed( char const* label );                       // a 30-bit value, for bulk data made by Prng

    struct Prng                                               // plain generator for bulk data, not on a tape
    {
        u64 s;
        explicit Prng( u64 seed ) : s( seed ^ 0x1234567 ) { s = next() ^ ( seed << 32 ); s = next(); }
        u64 next() { u64 z = ( s += 0x9E3779B97F4A7C15ull ); z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull; z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull; return z ^ ( z >> 31 ); }
        u32 below( u32 n ) { return (u32)( ( ( next() >> 32 ) * (u64)n ) >> 32 ); }
        double unit() { return ( next() >> 11 ) * ( 1.0 / 9007199254740992.0 ); }
        double range( double a, double b ) { return a + ( b - a ) * unit(); }
    };

    // ---- one process lifetime ----
    enum { FK_EINTR, FK_SHORT, FK_EIO, FK_ENOSPC, FK_OPEN, FK_CLOSE, FK_RENAME, FK_UNLINK, FK_READ_EIO, FK_CRASH, FK_TORN, FK_FULL, FK_THREAD, FK_ALLOC, FK_CLOCK_JUMP, FK_CLOCK_BACK, FK_CLOCK_STALL, FK_TTY, FK_TRUNC, FK_FLIP, FK_PREEMPT, FK_COUNT };

    struct LifeOpts
    {
        // threads
        int  cores = 1;
        int  sched = 0;             // 0 run to completion, 1 random, 2 priorities (PCT), 3 round robin, 4 newest first
        u32  sched_dist = 50;       // mean distance between preemptions, in accesses
        bool races = true;
        u32  thread_fail_rate = 0;  // per 1024
        long thread_fail_at = -1;   // index of the thread start that is refused
        long thread_fail_len = 1;
        // disk (rates per 1024 operations)
        u32  r_eintr = 0, r_short = 0, r_eio = 0, r_open = 0, r_close = 0, r_rename = 0, r_unlink = 0, r_read_eio = 0;
        long fail_op = -1;          // the operation with this index fails (with an error natural for it)
        long fail_len = 1;          // and so many further ones
        long crash_op = -1;         // the process dies at this operation
        int  crash_mode = 0;        // 0 before it, 1 after it, 2 in the middle of a write
        long disk_budget = -1;      // bytes left on the disk
        // memory
        long alloc_fail_at = -1;    // index of the operator new that fails
        long alloc_fail_len = 1;
        bool reuse = false;         // hand released blocks out again at once
        unsigned char fill = 0xA5;  // content of fresh blocks
        u64  arena_shift = 0;       // moves all blocks
        u64  mem_limit = 2ull << 30;
        // clock
        int  clock = 0;             // 0 regular, 1 stalls, 2 jumps forward, 3 jumps backward, 4 all of these, 5 stands still
        long clock_base = 1700000000;
        int  tty_cols = 80;         // -1: ioctl fails
        u64  max_steps = 3000000000ull;
        bool give_up = false;       // a lifetime that exceeds max_steps ends (HANG) without a verdict
        bool run_exit = false;      // leave through exit(): static destructors run
        bool count_allocs_only = false;
        char const* tag = "";
    };

    enum Kind { RET = 0, EXC, ABORT, CRASH, SIGV, HANG, VIOL };
    char const* kind_name( int );

    struct Log                      // results a lifetime hands to the supervisor
    {
        std::string b; size_t pos = 0;
        bool more() const { return pos < b.size(); }
        u64 u();
        std::string s();
    };

    struct Outcome
    {
        int kind = RET;
        std::string what;           // exception text, signal, ...
        Log log;
        u64 fs_ops = 0, allocs = 0, threads = 0, steps = 0, write_bytes = 0, switches = 0, fs_faults = 0, alloc_faults = 0, thread_faults = 0, preempts = 0, max_live = 0;
        bool visible_failure() const { return kind == EXC || kind == ABORT; }
    };

    Outcome life( LifeOpts const& o, std::function<void()> const& body );

    // in a lifetime: results for the supervisor
    void out_u( u64 );
    void out_s( void const* p, size_t n );
    void out_s( std::string const& );
    // in a lifetime: switch fault injection off (set-up, verification) and on
    void faults( bool on );
    bool in_child();
    void set_alloc_fail( long at_from_now, long len );   // arm relative to the current count
    void set_large_limit( u64 min, u64 limit );          // blocks of at least min bytes, allocated from now on, may hold limit bytes together
    void set_thread_fail( long at_from_now, long len );
    void set_fs_fail( long at_from_now, long len );
    void set_cores( int );
    u64  fs_op_count();
    u64  alloc_count();
    int  open_files();
    u64  live_bytes();                                   // what the library holds now
    u64  thread_count();
    u64  alloc_fault_count();
    u64  steps();
    int  live_threads();
    void rt_enter(); void rt_leave();                    // harness bookkeeping: not counted, not failed, not scheduled
    struct Rt { Rt() { rt_enter(); } ~Rt() { rt_leave(); } };
    // arena information (M01)
    bool block_of( void const* p, u64& base, u64& size, bool& live );
    bool addressable( void const* p, size_t n );

    // ---- verdicts ----
    [[noreturn]] void violation( char const* kind, char const* fmt, ... ) __attribute__(( format( printf, 2, 3 ) ));
    [[noreturn]] void harness_error( char const* fmt, ... ) __attribute__(( format( printf, 1, 2 ) ));
    [[noreturn]] void skip();                            // this run's plan makes no sense: not counted
    void note( char const* fmt, ... ) __attribute__(( format( printf, 1, 2 ) ));   // human trace, part of the hash
    void count( char const* name, u64 n = 1 );           // evidence counter
    void cover( char const* cell );                      // a reached (named) situation
    void cover( std::string const& cell );
    void nontrivial();
    void hash( void const* p, size_t n );
    void known( char const* id, char const* fmt, ... ) __attribute__(( format( printf, 2, 3 ) ));  // known finding seen

    // ---- disk, for the supervisor (real effects on the scratch directory, no faults) ----
    std::string scratch();                               // directory; the lifetimes run in it
    bool read_file( std::string const& name, std::string& content );
    void write_file( std::string const& name, std::string const& content );
    bool exists( std::string const& name );
    void remove_file( std::string const& name );
    std::vector<std::string> list_files();
    void clear_scratch();
    void fault_fired( int fk, u64 n = 1 );

    // ---- registry ----
    struct Scenario { char const* prop; char const* name; int weight; void ( *run )(); };
    struct Register { Register( char const* prop, char const* name, int weight, void ( *run )() ); };
    u64 run_seed();
    void default_sched( LifeOpts& );                     // draw cores and a schedule strategy from the plan
}

#define SCENARIO( prop, name, weight ) \
    static void scenario_##prop##_##name(); \
    static ::sim::Register register_##prop##_##name{ #prop, #name, weight, &scenario_##prop##_##name }; \
    static void scenario_##prop##_##name()

#endif
