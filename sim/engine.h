// Deterministic simulator for libarmas: public interface used by scenarios.
#ifndef SIM_ENGINE_H
#define SIM_ENGINE_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <string>
#include <vector>
#include <functional>
#include <initializer_list>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
    u64 s[4];
    void seed(u64 x);
    u64 next();
    u64 below(u64 n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + (int)below((u64)(hi - lo + 1)); }
    bool flip(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

u64 mix(u64 a, u64 b);

// ---------------------------------------------------------------- result of one run (shared memory)
enum { V_OK = 0, V_VIOLATION = 1, V_HARNESS = 2 };
enum { TRACE_MAX = 200000, PLOG_MAX = 4096, NPROBE = 48 };
struct TraceEnt { u64 step; u32 kind; int32_t val; };
struct PLog { u32 ord; char name[20]; int32_t val, lo, hi; };
enum FaultKind { F_ALLOC, F_CREATE, F_SPURIOUS, F_STALL, F_CLOCKJUMP, F_TIMEOUT, F_READ_EOF, F_READ_ERR, F_BYTE_DAMAGE,
                 F_WRITE_ERR, F_SHORT_WRITE, F_SMALL_WS, F_DIRTY_MEM, F_EINTR, F_NKIND };
extern const char *fault_names[F_NKIND];

struct Result {
    int verdict;
    char cls[64];          // violation class
    char site[128];        // identification of the failing site
    char msg[1024];
    u64 pc[6];             // code addresses relevant to the violation
    u64 hash;              // hash of the event log
    u64 sched_hash;        // hash of the schedule only
    u64 param_hash;        // hash of the scenario parameters
    u64 steps, switches, syncops, accesses, allocs, creates;
    u64 sim_ns;
    u64 faults[F_NKIND];
    char probe_name[NPROBE][24];
    u64 probe_n[NPROBE];
    u64 state_hash;        // hash of the order of synchronisation events
    u64 checks;            // oracle evaluations
    u32 max_threads;
    u32 nontrivial;
    char scenario[32];
    char desc[1200];
    u32 ntrace, nplog;
    TraceEnt trace[TRACE_MAX];
    PLog plog[PLOG_MAX];
};

struct RunSpec {
    u64 seed;
    const char *scenario;                 // null: chosen from seed
    std::vector<std::pair<u32, int>> overrides;   // parameter ordinal -> value
    bool replay;                          // trace driven
    std::vector<TraceEnt> trace;
    int verbose;
};

struct Scenario {
    const char *prop;
    const char *name;
    int weight;
    int flavours;                         // bit0: fast, bit1: instr
    void (*fn)();
};
void register_scenario(const Scenario &s);
struct Reg { Reg(const char *prop, const char *name, int w, int fl, void (*fn)()) { register_scenario(Scenario{prop, name, w, fl, fn}); } };
#define SCENARIO(prop, name, weight, flav) \
    static void scn_##prop##_##name(); \
    static sim::Reg reg_##prop##_##name(#prop, #name, weight, flav, scn_##prop##_##name); \
    static void scn_##prop##_##name()
enum { FAST = 1, INSTR = 2, BOTH = 3 };
extern int flavour;                       // FAST or INSTR

void run_child(const char *prop, const RunSpec &spec, Result *res);   // does not return

// ---------------------------------------------------------------- scenario services
extern Result *R;
extern Rng wrng;                          // workload generator (never used for scheduling)
int P(const char *name, int lo, int hi);  // logged, overridable parameter
int PC(const char *name, std::initializer_list<int> vals);  // one of the values
bool PF(const char *name, double p);      // logged coin
void describe(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void violation(const char *cls, const char *site, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void emit(u64 v);                         // into the event log hash
void emit_mem(const void *p, size_t n);
void probe(const char *name);             // rare-condition counter
void fault_fired(FaultKind k);
void checked();
void nontrivial();

// environment seen by the library
void env_set(const char *name, const char *value);   // keeps a private copy
const char *env_get(const char *name);               // current (possibly modified) string
void set_nproc(int n);

// scheduling policy
struct SchedCfg {
    int strategy;          // 0 none (fair default), 1 random, 2 PCT, 3 small quantum, 4 sync only
    double p_point, p_sync;
    int pct_depth; u64 pct_len;
    u64 quantum;
    double p_spurious, p_timeout, p_clockjump, p_stall;
    u64 stall_len;
    u64 adversary_steps;   // afterwards fair scheduling
    u64 fair_budget;       // steps allowed after that -> liveness violation
};
SchedCfg random_sched(u64 est_steps, u64 tasks = 1);   // tasks: pieces of work; scales the liveness budget
void sched_start(const SchedCfg &c);      // begin adversarial scheduling
void sched_stop();                        // fair default again
void sched_extend(u64 fair_budget);       // restart the liveness budget
u64 steps_now();
int live_threads();                       // excluding the caller
int max_live_threads();
void reset_max_threads();
void wait_quiescent();                    // run the others until all are finished or blocked forever
u64 now_ns();

// thread creation by the scenario itself (application threads)
int app_thread(std::function<void()> fn);   // returns tid
void app_join(int tid);

// allocation control
struct AllocFault { int nth; bool from; double prob; bool only_lib; int only_tid; u64 minsize; u64 maxsize; };
void alloc_fault(const AllocFault *f);    // null: none
u64 alloc_count();                        // allocations since the last alloc_fault() call
u64 alloc_failed();                       // injected failures since the last alloc_fault() call
void create_fault(int nth, double prob, bool from = false);
u64 create_count();
u64 create_failed();
u64 live_bytes();
u64 live_blocks();
extern u64 stdout_calls;
u64 alloc_mark();                         // sequence number; blocks with seq > mark are "new"
u64 leaked_since(u64 mark, u64 *pc, u64 *size); // number of live library blocks allocated after mark
void set_fill(int mode);                  // content of fresh malloc memory: 0 zero 1 0xA5 2 NaN 3 random
void set_align(int mode);                 // 0: 64 aligned, 1: random multiple of 16
void set_instr(bool on);                  // instrumentation (scheduling points at accesses) on/off
void check_heap();                        // verify guard zones of all blocks, freed blocks untouched

// operand memory (tracked by the race detector, guarded)
void *operand_mem(size_t bytes, const char *name, int align_off = 0);
void operands_free();                     // the caller frees all of its operands: any later access is a violation
bool is_arena(const void *p);

void *harness_alloc(size_t n);            // plain memory outside the arena (never instrumented/faulted)
}

// plain libc allocation for scenario code (malloc etc. are renamed to the simulator's in scenario objects)
#endif
