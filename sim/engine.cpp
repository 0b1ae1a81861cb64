// Deterministic simulator for libarmas: scheduler, clock, heap, fault injection, race detector.
// Compiled without instrumentation; the library's libc calls are renamed to sim_* by objcopy.
#include "engine.h"
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <ucontext.h>
#include <limits.h>
#include <map>
#include <unordered_map>
#include <deque>
#include <algorithm>

u64 sim::stdout_calls;   // the library's own output to the standard streams (discarded)
extern "C" { extern char __executable_start, etext; }

namespace sim {

const char *fault_names[F_NKIND] = {
    "alloc_failure", "thread_create_failure", "spurious_wakeup", "stalled_thread", "clock_jump", "early_timeout",
    "stream_eof", "stream_read_error", "byte_damage", "stream_write_error", "short_write", "small_workspace", "dirty_memory", "eintr"};

#ifdef SIM_INSTR
int flavour = INSTR;
#else
int flavour = FAST;
#endif

// ------------------------------------------------------------------ PRNG (xoshiro256**)
static inline u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
static u64 splitmix(u64 &x) {
    u64 z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
void Rng::seed(u64 x) { for (int i = 0; i < 4; i++) s[i] = splitmix(x); }
u64 Rng::next() {
    u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
}
u64 mix(u64 a, u64 b) { u64 x = a * 0x9e3779b97f4a7c15ULL ^ (b + 0x7f4a7c15ULL); return splitmix(x); }

// ------------------------------------------------------------------ memory layout
static const u64 ARENA_S = 0x1000000000ULL;       // small, untracked
static const u64 ARENA_T = 0x1040000000ULL;       // tracked (operands, buffers)
static const u64 ARENA_SZ = 0x40000000ULL;        // 1 GB each
static const u64 ARENA_E = ARENA_T + ARENA_SZ;
static const u64 SHADOW_A = 0x1100000000ULL;      // addressability, 1 byte per 8
static const u64 SHADOW_R = 0x1200000000ULL;      // race cells, 16 bytes per 8
static const u64 STACKS = 0x1300000000ULL;
static const u64 STACK_SZ = 1 << 20;
static const u64 STACK0_SZ = 16 << 20;
static const int NSLOT = 48;
static const u64 BIG = 2048;                      // blocks at least this large are tracked

struct Cell { u32 w; u32 r[3]; };
struct Hdr { u64 magic; u64 size; u64 seq; u64 pc; };   // 32 bytes, directly before the block
static const u64 MAGIC_LIVE = 0x51a11fe0badc0deULL, MAGIC_FREE = 0xdeadf4eeb10c0000ULL;
static const int RZ = 32;

static inline u8 *shadow_a(u64 a) { return (u8 *)(SHADOW_A + ((a - ARENA_S) >> 3)); }
static inline Cell *shadow_r(u64 a) { return (Cell *)(SHADOW_R + ((a - ARENA_T) >> 3) * sizeof(Cell)); }

static void map_all() {
    struct { u64 a, n; } m[] = {
        {ARENA_S, 2 * ARENA_SZ}, {SHADOW_A, 2 * ARENA_SZ / 8}, {SHADOW_R, ARENA_SZ / 8 * sizeof(Cell)},
        {STACKS, STACK0_SZ + NSLOT * STACK_SZ}};
    for (auto &x : m) {
        void *p = mmap((void *)x.a, x.n, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void *)x.a) { fprintf(stderr, "sim: mmap %llx failed\n", (unsigned long long)x.a); _exit(3); }
    }
}

// ------------------------------------------------------------------ state
enum { ST_RUN, ST_MUTEX, ST_COND, ST_JOIN, ST_SLEEP, ST_DONE, ST_SEM };
struct VC { u32 c[NSLOT]; };

struct Th {
    int id, slot;
    pthread_t real;
    volatile int baton;
    int state;
    const void *obj;
    bool timed, woken, timedout;
    u64 deadline;
    void *(*fn)(void *);
    void *arg;
    std::function<void()> app;
    void *ret;
    bool detached, joined, is_app, in_lib;
    u64 sp;
    VC vc;
    int prio;
    u64 pc;
};
struct Mtx { int owner = -1; int count = 0; bool recursive = false; VC vc; };
struct Cond { std::deque<int> w; };
struct Sem { int v = 0; VC vc; };
struct Rw { int writer = -1; int readers = 0; VC vc; };

static std::vector<Th *> T;
static int slot_owner[NSLOT];
static int cur = 0;
static std::unordered_map<const void *, Mtx> mtxs;
static std::unordered_map<const void *, Cond> conds;
static std::unordered_map<const void *, Sem> sems;
static std::unordered_map<const void *, Rw> rws;
static std::unordered_map<const void *, VC> atom_vc;

static u64 step_ = 0, next_evt = ~0ULL, last_switch = 0;
static bool active = false;         // inside a run
static bool instr_on = true;
static SchedCfg sc;
static bool sched_on = false;
static u64 adv_end = 0, fair_end = ~0ULL;
static std::vector<u64> pct_pts;
static size_t pct_i = 0;
static int pct_low = 0;
static int stalled_tid = -1; static u64 stalled_until = 0;
static int64_t clock_off = 0;
static u64 clock_extra = 0;
static Rng srng, frng, arng, lrng;
Rng wrng;
Result *R;
static const RunSpec *spec;
static size_t tpos = 0;             // position in replay trace (step-keyed part)
static std::vector<TraceEnt> rsteps; // step keyed
static std::map<u64, int> ralloc, rcreate;
static std::map<std::string, std::string *> envs;
static int nproc_ = 4;
static u64 hash_ = 0xcbf29ce484222325ULL, shash_ = 0xcbf29ce484222325ULL, phash_ = 0xcbf29ce484222325ULL, ohash_ = 0xcbf29ce484222325ULL;
static u32 pord = 0;
static int maxlive = 0;
static const u64 QUANTUM = 20000;

static inline void hmix(u64 &h, u64 v) { h = (h ^ v) * 0x100000001b3ULL; h ^= h >> 29; }
void emit(u64 v) { hmix(hash_, v); }
void emit_mem(const void *p, size_t n) {
    const u8 *b = (const u8 *)p; u64 v;
    for (; n >= 8; n -= 8, b += 8) { memcpy(&v, b, 8); hmix(hash_, v); }
    for (; n; n--, b++) hmix(hash_, *b);
}
void probe(const char *n) {
    for (int i = 0; i < NPROBE; i++) {
        if (!R->probe_name[i][0]) snprintf(R->probe_name[i], sizeof R->probe_name[i], "%s", n);
        if (!strncmp(R->probe_name[i], n, sizeof R->probe_name[i] - 1)) { R->probe_n[i]++; return; }
    }
}
void fault_fired(FaultKind k) { R->faults[k]++; }
void checked() { R->checks++; }
void nontrivial() { R->nontrivial = 1; }
u64 steps_now() { return step_; }
u64 now_ns() { return step_ * 20 + clock_extra; }

static void finish() {
    R->hash = hash_; R->sched_hash = shash_; R->param_hash = phash_; R->state_hash = ohash_;
    R->steps = step_; R->sim_ns = now_ns();
    __sync_synchronize();
    _exit(0);
}
static void put_violation(int verdict, const char *cls, const char *site, const char *fmt, va_list ap) {
    R->verdict = verdict;
    snprintf(R->cls, sizeof R->cls, "%s", cls);
    snprintf(R->site, sizeof R->site, "%s", site ? site : "");
    vsnprintf(R->msg, sizeof R->msg, fmt, ap);
}
void violation(const char *cls, const char *site, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    put_violation(V_VIOLATION, cls, site, fmt, ap);
    for (const char *p = cls; *p; p++) emit(*p);
    finish(); __builtin_unreachable();
}
void harness_error(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    put_violation(V_HARNESS, "harness", "", fmt, ap);
    finish(); __builtin_unreachable();
}
static void violation_pc(const char *cls, u64 pc, u64 pc2, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    R->pc[0] = pc; R->pc[1] = pc2;
    put_violation(V_VIOLATION, cls, "", fmt, ap);
    finish();
}

// ------------------------------------------------------------------ parameters
static int logp(const char *name, int v, int lo, int hi) {
    u32 o = pord++;
    for (auto &x : spec->overrides) if (x.first == o) { v = x.second < lo ? lo : x.second > hi ? hi : x.second; break; }
    if (R->nplog < PLOG_MAX) {
        PLog &l = R->plog[R->nplog++];
        l.ord = o; snprintf(l.name, sizeof l.name, "%s", name); l.val = v; l.lo = lo; l.hi = hi;
    }
    hmix(phash_, (u64)(int64_t)v);
    return v;
}
int P(const char *name, int lo, int hi) { int v = wrng.range(lo, hi); return logp(name, v, lo, hi); }
int PC(const char *name, std::initializer_list<int> vals) {
    int i = (int)wrng.below(vals.size());
    i = logp(name, i, 0, (int)vals.size() - 1);
    if (i < 0 || i >= (int)vals.size()) i = 0;
    return *(vals.begin() + i);
}
bool PF(const char *name, double p) { int v = wrng.flip(p); return logp(name, v, 0, 1) != 0; }
void describe(const char *fmt, ...) {
    size_t n = strlen(R->desc);
    va_list ap; va_start(ap, fmt);
    if (n < sizeof R->desc - 1) vsnprintf(R->desc + n, sizeof R->desc - n, fmt, ap);
}

// ------------------------------------------------------------------ baton
static void fwait(volatile int *f) {
    while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
    __atomic_store_n(f, 0, __ATOMIC_RELEASE);
}
static void fwake(volatile int *f) {
    __atomic_store_n(f, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
}

static bool runnable(Th *t) { return t->state == ST_RUN; }
int live_threads() { int n = 0; for (Th *t : T) if (t->state != ST_DONE && t->id != cur) n++; return n; }
int max_live_threads() { return maxlive; }
void reset_max_threads() { maxlive = 0; }
static u64 realtime() { return 1700000000000000000ULL + now_ns() + clock_off; }

static void log_trace(u32 kind, int val, u64 key) {
    if (R->ntrace < TRACE_MAX) { TraceEnt &e = R->trace[R->ntrace++]; e.step = key; e.kind = kind; e.val = val; }
}

static void set_next_evt();

static void sched_timers() {
    for (Th *t : T)
        if (t->timed && (t->state == ST_COND || t->state == ST_SLEEP || t->state == ST_SEM) && t->deadline <= realtime()) {
            t->timedout = true; t->timed = false;
            if (t->state == ST_COND) { auto &w = conds[t->obj].w; w.erase(std::remove(w.begin(), w.end(), t->id), w.end()); }
            t->state = ST_RUN;
        }
}
static void wake_cond(Th *t) {
    auto &w = conds[t->obj].w;
    w.erase(std::remove(w.begin(), w.end(), t->id), w.end());
    t->timed = false; t->woken = true; t->state = ST_RUN;
}

static const char *state_name(int s) {
    static const char *n[] = {"running", "mutex", "condition", "join", "sleep", "done", "semaphore"};
    return n[s];
}
static void deadlock(const char *cls) {
    char b[700]; size_t n = 0; b[0] = 0;
    int k = 1;
    for (Th *t : T)
        if (t->state != ST_DONE && n < sizeof b - 80) {
            n += snprintf(b + n, sizeof b - n, " t%d:%s@%llx", t->id, state_name(t->state), (unsigned long long)t->pc);
            if (k < 6) R->pc[k++] = t->pc;
        }
    R->pc[0] = T[0]->pc;
    violation(cls, "", "threads:%s", b);
}

static void switch_to(int n) {
    if (n == cur) { last_switch = step_; return; }
    Th *me = T[cur], *to = T[n];
    volatile char mark = 0;
    me->sp = (u64)&mark;
    hmix(shash_, ((u64)n << 48) ^ step_); hmix(hash_, ((u64)n << 40) ^ step_);
    R->switches++;
    last_switch = step_;
    cur = n;
    bool dead = me->state == ST_DONE;
    fwake(&to->baton);
    if (dead) return;             // caller exits its real thread
    fwait(&me->baton);
    if (!active) pause();
}

static int cyclic_next(int from) {
    int n = (int)T.size();
    for (int k = 1; k <= n; k++) { int j = (from + k) % n; if (runnable(T[j])) return j; }
    return -1;
}

enum { W_POINT, W_SYNC, W_YIELD, W_BLOCK };

static int pct_pick() {
    int best = -1;
    for (Th *t : T) if (runnable(t)) {
        if (t->id == stalled_tid && step_ < stalled_until && best >= 0) continue;
        if (best < 0 || t->prio > T[best]->prio || (best == stalled_tid && step_ < stalled_until)) best = t->id;
    }
    return best;
}
static int random_runnable(int except) {
    int c[256], n = 0;
    for (Th *t : T) if (runnable(t) && t->id != except && n < 256) {
        if (t->id == stalled_tid && step_ < stalled_until) continue;
        c[n++] = t->id;
    }
    if (!n) return -1;
    return c[srng.below(n)];
}

static void liveness(void) {
    if (sched_on && step_ > fair_end) deadlock("no-progress");
}

// The one decision function.  step_ has been advanced by the caller.
static void decide(int why) {
    sched_timers();
    bool adversary = sched_on && step_ < adv_end && !spec->replay;
    liveness();
    // faults that are not a choice of thread
    if (spec->replay) {
        while (tpos < rsteps.size() && rsteps[tpos].step < step_) tpos++;
        while (tpos < rsteps.size() && rsteps[tpos].step == step_ && rsteps[tpos].kind != 'T') {
            TraceEnt &e = rsteps[tpos];
            if (e.kind == 'S') { if (e.val >= 0 && e.val < (int)T.size() && T[e.val]->state == ST_COND) { wake_cond(T[e.val]); fault_fired(F_SPURIOUS); hmix(hash_, 'S'); } }
            else if (e.kind == 'J') { clock_off += (int64_t)e.val * 1000000; fault_fired(F_CLOCKJUMP); hmix(hash_, 'J'); }
            else if (e.kind == 'X') { clock_extra += (u64)e.val * 1000; fault_fired(F_TIMEOUT); hmix(hash_, 'X'); }
            tpos++;
        }
        sched_timers();
    } else if (adversary && why != W_POINT) {
        if (sc.p_spurious > 0 && frng.flip(sc.p_spurious)) {
            int c[64], n = 0;
            for (Th *t : T) if (t->state == ST_COND && n < 64) c[n++] = t->id;
            if (n) { int v = c[frng.below(n)]; log_trace('S', v, step_); wake_cond(T[v]); fault_fired(F_SPURIOUS); hmix(hash_, 'S'); }
        }
        if (sc.p_clockjump > 0 && frng.flip(sc.p_clockjump)) {
            int ms = frng.flip(0.5) ? frng.range(-7200000, 7200000) : frng.range(-500, 500);
            log_trace('J', ms, step_); clock_off += (int64_t)ms * 1000000; fault_fired(F_CLOCKJUMP); hmix(hash_, 'J');
            sched_timers();
        }
        if (sc.p_timeout > 0 && frng.flip(sc.p_timeout)) {
            bool any = false;
            for (Th *t : T) if (t->timed && t->state != ST_RUN) any = true;
            if (any) { int us = frng.range(1, 300); log_trace('X', us, step_); clock_extra += (u64)us * 1000; fault_fired(F_TIMEOUT); hmix(hash_, 'X'); sched_timers(); }
        }
        if (sc.p_stall > 0 && step_ >= stalled_until && frng.flip(sc.p_stall)) {
            stalled_tid = (int)frng.below(T.size()); stalled_until = step_ + 1 + frng.below(sc.stall_len);
            if (T[stalled_tid]->state != ST_DONE) fault_fired(F_STALL);
        }
    }
    // default choice
    bool mine = runnable(T[cur]);
    int d;
    if (why == W_BLOCK || why == W_YIELD || !mine) d = cyclic_next(cur);
    else if (step_ - last_switch >= QUANTUM) d = cyclic_next(cur);
    else d = cur;
    if (d < 0) {
        // nothing runnable: advance the clock to the next timer
        u64 best = ~0ULL;
        for (Th *t : T) if (t->timed && t->state != ST_RUN && t->state != ST_DONE && t->deadline < best) best = t->deadline;
        if (best == ~0ULL) deadlock("deadlock");
        if (best > realtime()) clock_extra += best - realtime();
        sched_timers();
        d = cyclic_next(cur);
        if (d < 0) deadlock("deadlock");
    }
    int c = d;
    if (spec->replay) {
        if (tpos < rsteps.size() && rsteps[tpos].step == step_ && rsteps[tpos].kind == 'T') {
            int v = rsteps[tpos].val; tpos++;
            if (v >= 0 && v < (int)T.size() && runnable(T[v])) c = v;
        }
    } else if (adversary) {
        int k;
        switch (sc.strategy) {
        case 1:
            if (why == W_POINT) { k = random_runnable(cur); if (k >= 0) c = k; }
            else if (why == W_BLOCK) { k = random_runnable(-1); if (k >= 0) c = k; }
            else if (srng.flip(sc.p_sync)) { k = random_runnable(-1); if (k >= 0) c = k; }
            break;
        case 2:
            while (pct_i < pct_pts.size() && step_ >= pct_pts[pct_i]) { T[cur]->prio = --pct_low; pct_i++; }
            if (why == W_YIELD) T[cur]->prio = --pct_low;
            k = pct_pick(); if (k >= 0) c = k;
            break;
        case 3:
            if (step_ - last_switch >= sc.quantum) { k = cyclic_next(cur); if (k >= 0) c = k; }
            break;
        case 4:
            if (why != W_POINT && (why == W_BLOCK || srng.flip(sc.p_sync))) { k = random_runnable(-1); if (k >= 0) c = k; }
            break;
        default: break;
        }
        if (c == stalled_tid && step_ < stalled_until) { k = random_runnable(c); if (k >= 0) c = k; }
    }
    if (c != d) log_trace('T', c, step_);
    set_next_evt();
    bool dead = T[cur]->state == ST_DONE;
    switch_to(c);
    if (!dead) set_next_evt();    // an ended thread no longer holds the baton
}

static void set_next_evt() {
    u64 e = last_switch + QUANTUM;
    if (e <= step_) e = step_ + 1;
    if (sched_on) {
        if (fair_end + 1 < e) e = fair_end + 1 > step_ ? fair_end + 1 : step_ + 1;
        if (!spec->replay && step_ < adv_end) {
            u64 k = ~0ULL;
            if (sc.strategy == 1 && sc.p_point > 0) {
                double u = srng.unit(); if (u < 1e-12) u = 1e-12;
                double g = __builtin_log(u) / __builtin_log1p(-sc.p_point);
                k = step_ + 1 + (g > 1e9 ? (u64)1e9 : (u64)g);
            } else if (sc.strategy == 2 && pct_i < pct_pts.size()) k = pct_pts[pct_i] > step_ ? pct_pts[pct_i] : step_ + 1;
            else if (sc.strategy == 3) k = last_switch + sc.quantum > step_ ? last_switch + sc.quantum : step_ + 1;
            if (k < e) e = k;
        }
    }
    if (spec->replay) {
        while (tpos < rsteps.size() && rsteps[tpos].step < step_) tpos++;
        if (tpos < rsteps.size()) { u64 k = rsteps[tpos].step; if (k <= step_) k = step_ + 1; if (k < e) e = k; }
    }
    next_evt = e;
}

static inline void point() {
    // a memory access: cheap unless an event is due
    if (++step_ < next_evt) return;
    if (T.size() < 2) { liveness(); next_evt = step_ + QUANTUM; if (sched_on && fair_end < next_evt) next_evt = fair_end + 1 > step_ ? fair_end + 1 : step_ + 1; return; }
    decide(W_POINT);
}
static void sync_point(int why, u64 tag, u64 pc) {
    if (!active) return;
    step_++; R->syncops++;
    T[cur]->pc = pc;
    hmix(ohash_, tag ^ ((u64)cur << 56));
    hmix(hash_, tag ^ (step_ << 8) ^ ((u64)cur << 56));
    decide(why);
}

void sched_start(const SchedCfg &c) {
    sc = c; sched_on = true;
    adv_end = step_ + c.adversary_steps; fair_end = adv_end + c.fair_budget;
    pct_pts.clear(); pct_i = 0; pct_low = 0;
    if (c.strategy == 2) {
        for (int i = 0; i < c.pct_depth; i++) pct_pts.push_back(step_ + 1 + srng.below(c.pct_len));
        std::sort(pct_pts.begin(), pct_pts.end());
    }
    set_next_evt();
}
void sched_stop() { sched_on = false; set_next_evt(); }
void sched_extend(u64 budget) { if (sched_on) { u64 b = step_ > adv_end ? step_ : adv_end; fair_end = b + budget; set_next_evt(); } }

SchedCfg random_sched(u64 est, u64 tasks) {
    SchedCfg c; memset(&c, 0, sizeof c);
    int k = srng.range(0, 11);
    static const double pp[] = {0.2, 0.03, 0.004, 0.0006, 0.0001};
    c.strategy = k < 4 ? 1 : k < 8 ? 2 : k < 9 ? 3 : 4;
    c.p_point = pp[srng.below(5)];
    static const double ps[] = {0.1, 0.3, 0.6, 0.9};
    c.p_sync = ps[srng.below(4)];
    c.pct_depth = srng.range(1, 12);
    c.pct_len = est / (1 + srng.below(4)) + 10;
    c.quantum = 1 + srng.below(srng.flip(0.5) ? 60 : 3000);
    c.p_spurious = srng.flip(0.4) ? 0.05 : 0;
    c.p_timeout = srng.flip(0.4) ? 0.1 : 0;
    c.p_clockjump = srng.flip(0.15) ? 0.02 : 0;
    c.p_stall = srng.flip(0.35) ? 0.02 : 0;
    c.stall_len = est / 3 + 10;
    c.adversary_steps = est * 4 + 1000;
    c.fair_budget = flavour == INSTR ? 60000000ULL + 20000 * tasks : 400000ULL + 400 * tasks;
    return c;
}

// ------------------------------------------------------------------ vector clocks / races
static inline void vc_join(VC &a, const VC &b) { for (int i = 0; i < NSLOT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static inline void acquire(const VC &v) { vc_join(T[cur]->vc, v); }
static inline void release(VC &v) { Th *t = T[cur]; vc_join(v, t->vc); t->vc.c[t->slot]++; }
static const u32 CLKM = (1u << 26) - 1;

static std::map<u64, std::pair<u64, std::string>> named;   // tracked named regions start -> (end, name)
static std::string where(u64 a) {
    auto it = named.upper_bound(a);
    char b[160];
    if (it != named.begin()) {
        --it;
        if (a < it->second.first + RZ) {
            snprintf(b, sizeof b, "%s+%lld", it->second.second.c_str(), (long long)(a - it->first));
            return b;
        }
    }
    snprintf(b, sizeof b, "arena+0x%llx", (unsigned long long)(a - ARENA_S));
    return b;
}

static u64 last_pc_of[NSLOT];

static void race_report(u64 a, bool w, u32 other, bool otherw, u64 pc) {
    int os = other >> 26;
    violation_pc("data-race", pc, last_pc_of[os], "%s by t%d of %s races with an earlier %s by the thread in slot %d", w ? "write" : "read",
                 cur, where(a).c_str(), otherw ? "write" : "read", os);
}
static inline void race1(u64 a, bool w, u64 pc) {
    Th *t = T[cur];
    Cell *c = shadow_r(a);
    u32 clk = t->vc.c[t->slot] & CLKM, me = ((u32)t->slot << 26) | clk;
    if (c->w && c->w != me) {
        u32 s = c->w >> 26;
        if (s != (u32)t->slot && (c->w & CLKM) > t->vc.c[s]) race_report(a, w, c->w, true, pc);
    }
    if (w) {
        for (int i = 0; i < 3; i++) if (c->r[i]) {
            u32 s = c->r[i] >> 26;
            if (s != (u32)t->slot && (c->r[i] & CLKM) > t->vc.c[s]) race_report(a, w, c->r[i], false, pc);
            c->r[i] = 0;
        }
        c->w = me;
    } else {
        int free_i = -1;
        for (int i = 0; i < 3; i++) {
            u32 r = c->r[i];
            if (!r) { if (free_i < 0) free_i = i; continue; }
            u32 s = r >> 26;
            if (s == (u32)t->slot) { c->r[i] = me; return; }
            if ((r & CLKM) <= t->vc.c[s]) free_i = i;
        }
        if (free_i < 0) free_i = (int)(step_ % 3);
        c->r[free_i] = me;
    }
}

static u64 bump_s = ARENA_S + 64, bump_t = ARENA_T + 64;
static void bad_access(u64 a, size_t n, bool w, u64 pc, u8 sh) {
    const char *cls = sh == 0xFD ? "use-after-free" : "out-of-bounds";
    violation_pc(cls, pc, 0, "%s of %zu bytes at %s", w ? "write" : "read", n, where(a).c_str());
}
static inline void check_range(u64 a, size_t n, bool w, u64 pc) {
    if (n == 0) return;
    u64 e = a + n;
    if ((a < ARENA_T ? bump_s : bump_t) < e) bad_access(a, n, w, pc, 0xFA);
    for (u64 g = a & ~7ULL; g < e; g += 8) {
        u8 s = *shadow_a(g);
        if (__builtin_expect(s, 0)) {
            if (s >= 8) bad_access(a, n, w, pc, s);
            u64 last = (e < g + 8 ? e : g + 8) - g;
            if (last > s) bad_access(a, n, w, pc, 0xFA);
        }
    }
}
static void check_stack(u64 a, size_t n, bool w, u64 pc) {
    u64 o = a - STACKS;
    int slot = o < STACK0_SZ ? 0 : (int)((o - STACK0_SZ) / STACK_SZ) + 1;
    Th *t = T[cur];
    if (slot == t->slot || slot >= NSLOT) return;
    int ow = slot_owner[slot];
    if (ow < 0) { violation_pc("use-after-return", pc, 0, "%s of the stack of a thread slot never used", w ? "write" : "read"); }
    Th *x = T[ow];
    if (x->state == ST_DONE) violation_pc("use-after-return", pc, 0, "%s of %zu bytes on the stack of finished thread t%d", w ? "write" : "read", n, ow);
    if (a < x->sp) violation_pc("use-after-return", pc, 0, "%s of %zu bytes on t%d's stack below its live frames", w ? "write" : "read", n, ow);
}

static inline void access(u64 a, size_t n, bool w, u64 pc) {
    if (!active || !instr_on) return;
    R->accesses++;
    point();
    if (a - ARENA_S < 2 * ARENA_SZ) {
        check_range(a, n, w, pc);
        if (a >= ARENA_T && T.size() > 1) {
            last_pc_of[T[cur]->slot] = pc;
            for (u64 g = a & ~7ULL; g < a + n; g += 8) race1(g, w, pc);
        }
    } else if (a - STACKS < STACK0_SZ + NSLOT * STACK_SZ) check_stack(a, n, w, pc);
}
static void sync_addr(const void *p, u64 pc) {
    // lifetime check of a synchronisation object
    u64 a = (u64)p;
    if (a < 4096) violation_pc("crash", pc, 0, "synchronisation object at address %p", p);
    if (a - ARENA_S < 2 * ARENA_SZ) check_range(a, 4, true, pc);
    else if (a - STACKS < STACK0_SZ + NSLOT * STACK_SZ) check_stack(a, 4, true, pc);
}
void set_instr(bool on) { instr_on = on; }

// ------------------------------------------------------------------ heap
struct Blk { u64 size, seq, pc; bool lib; };
static std::map<u64, Blk> live;
static std::vector<std::pair<u64, u64>> freed;      // for write-after-free detection
static u64 aseq = 0, live_b = 0, acount0 = 0, afail0 = 0;
static AllocFault af; static bool af_on = false;
static u64 af_lib = 0;
static int fillmode = 1, alignmode = 0;
static u64 create_seq = 0, create0 = 0, cfail0 = 0; static int cf_nth = 0; static double cf_p = 0; static bool cf_on = false, cf_from = false;

void set_fill(int m) { fillmode = m; }
void set_align(int m) { alignmode = m; }
static u8 fillbyte() { return fillmode == 0 ? 0 : fillmode == 1 ? 0xA5 : fillmode == 2 ? 0xFF : 0x41; }
bool is_arena(const void *p) { return (u64)p - ARENA_S < 2 * ARENA_SZ; }

static void *arena_alloc(size_t n, bool zero, bool tracked, u64 pc, bool lib, int align_off) {
    u64 &b = tracked ? bump_t : bump_s;
    u64 end = tracked ? ARENA_E : ARENA_T;
    u64 seq = ++aseq;
    if (n > ARENA_SZ / 2 || b + n + 4 * RZ + 256 > end) { return NULL; }
    u64 a = (b + sizeof(Hdr) + RZ + 63) & ~63ULL;
    if (align_off) a += align_off;
    else if (alignmode == 1) a += 16 * (mix(spec->seed, seq) & 3);
    Hdr *h = (Hdr *)(a - sizeof(Hdr));
    h->magic = MAGIC_LIVE ^ a; h->size = n; h->seq = seq; h->pc = pc;
    u64 rend = ((a + n + 7) & ~7ULL);
    memset((void *)(a + n), 0xC7, rend - (a + n) + RZ);
    if (!zero && n) {
        if (fillmode == 3) { u64 x = mix(spec->seed, seq); u8 *p = (u8 *)a; for (size_t i = 0; i < n; i++) { p[i] = (u8)(x >> 56); x = x * 6364136223846793005ULL + 1442695040888963407ULL; } }
        else if (fillmode) memset((void *)a, fillbyte(), n);
    }
    if (flavour == INSTR) {
        memset(shadow_a(a - sizeof(Hdr)), 0xFA, sizeof(Hdr) / 8);
        if (n & 7) *shadow_a(a + (n & ~7ULL)) = n & 7;
        memset(shadow_a(rend), 0xFA, RZ / 8);
    }
    b = rend + RZ;
    live[a] = Blk{n, seq, pc, lib};
    live_b += n;
    return (void *)a;
}
void *operand_mem(size_t bytes, const char *name, int align_off) {
    void *p = arena_alloc(bytes, false, true, 0, false, align_off);
    if (!p) harness_error("operand arena exhausted");
    named[(u64)p] = {(u64)p + bytes, name};
    return p;
}
void *harness_alloc(size_t n) { return ::calloc(1, n ? n : 1); }

void alloc_fault(const AllocFault *f) { af_on = f != NULL; if (f) af = *f; acount0 = af_lib; afail0 = R->faults[F_ALLOC]; }
u64 alloc_count() { return af_lib - acount0; }
u64 alloc_failed() { return R->faults[F_ALLOC] - afail0; }
void create_fault(int nth, double p, bool from) { cf_on = nth > 0 || p > 0; cf_nth = nth; cf_p = p; cf_from = from; create0 = create_seq; cfail0 = R->faults[F_CREATE]; }
u64 create_count() { return create_seq - create0; }
u64 create_failed() { return R->faults[F_CREATE] - cfail0; }
u64 live_bytes() { return live_b; }
u64 live_blocks() { return live.size(); }
u64 alloc_mark() { return aseq; }
u64 leaked_since(u64 mark, u64 *pc, u64 *size) {
    u64 n = 0, best = ~0ULL;
    for (auto &x : live) if (x.second.lib && x.second.seq > mark) {
        n++;
        if (x.second.seq < best) { best = x.second.seq; if (pc) *pc = x.second.pc; if (size) *size = x.second.size; }
    }
    return n;
}

static bool should_fail(size_t size) {
    u64 ord = ++af_lib;
    if (spec->replay) {
        if (ralloc.count(ord)) { fault_fired(F_ALLOC); return true; }
        return false;
    }
    if (!af_on) return false;
    if (af.only_tid >= 0 && cur != af.only_tid) return false;
    if (af.only_tid == -2 && cur == 0) return false;
    if (af.minsize && size < af.minsize) return false;
    if (af.maxsize && size > af.maxsize) return false;
    u64 rel = ord - acount0;
    bool f = false;
    if (af.nth > 0) f = af.from ? rel >= (u64)af.nth : rel == (u64)af.nth;
    if (!f && af.prob > 0) f = (mix(mix(spec->seed, 77), ord) >> 11) * (1.0 / 9007199254740992.0) < af.prob;
    if (f) { log_trace('A', 1, ord); fault_fired(F_ALLOC); }
    return f;
}
static void *lib_alloc(size_t n, bool zero, u64 pc) {
    if (!active) return zero ? ::calloc(1, n) : ::malloc(n);
    R->allocs++;
    sync_point(W_SYNC, 0xA110C, pc);
    if (should_fail(n)) { hmix(hash_, 'F'); errno = ENOMEM; return NULL; }
    void *p = arena_alloc(n, zero, n >= BIG, pc, true, 0);
    if (!p) errno = ENOMEM;
    if (!p && n <= ARENA_SZ / 4) {
        // address space used up: by blocks still in use, or by blocks allocated and freed again
        if (live_b > ARENA_SZ / 2) violation_pc("unbounded-memory", pc, 0, "%llu bytes in use", (unsigned long long)live_b);
        probe("arena-used-up"); active = false; R->verdict = V_OK; finish();
    }
    return p;
}
static void rz_check(u64 a, Blk &b) {
    Hdr *h = (Hdr *)(a - sizeof(Hdr));
    if (h->magic != (MAGIC_LIVE ^ a) || h->size != b.size)
        violation_pc("out-of-bounds", b.pc, 0, "memory before block %s (%llu bytes) overwritten", where(a).c_str(), (unsigned long long)b.size);
    u64 rend = ((a + b.size + 7) & ~7ULL) + RZ;
    for (u64 x = a + b.size; x < rend; x++)
        if (*(u8 *)x != 0xC7)
            violation_pc("out-of-bounds", b.pc, 0, "byte %llu after block %s (%llu bytes) overwritten", (unsigned long long)(x - a - b.size), where(a).c_str(), (unsigned long long)b.size);
}
static void lib_free(void *p, u64 pc) {
    if (!p) return;
    if (!active || !is_arena(p)) {
        if (active) violation_pc("bad-free", pc, 0, "free of %p which is not a heap block", p);
        ::free(p); return;
    }
    sync_point(W_SYNC, 0xF4EE, pc);
    u64 a = (u64)p;
    auto it = live.find(a);
    if (it == live.end()) {
        bool dbl = false;
        if (!(a & 15)) { Hdr *h = (Hdr *)(a - sizeof(Hdr)); dbl = h->magic == (MAGIC_FREE ^ a); }
        violation_pc(dbl ? "double-free" : "bad-free", pc, 0, "free of %s which is %s", where(a).c_str(), dbl ? "already free" : "not the start of a block");
    }
    rz_check(a, it->second);
    u64 n = it->second.size;
    if (flavour == INSTR && a >= ARENA_T && T.size() > 1 && instr_on)
        for (u64 g = a; g < a + n; g += 8) race1(g, true, pc);
    memset(p, 0xDB, n);
    if (flavour == INSTR) memset(shadow_a(a), 0xFD, (n + 7) / 8);
    Hdr *h = (Hdr *)(a - sizeof(Hdr));
    h->magic = MAGIC_FREE ^ a;
    if (freed.size() < 4000) freed.push_back({a, n});
    live_b -= n;
    live.erase(it);
}
void operands_free() {
    for (auto &x : named) {
        auto it = live.find(x.first);
        if (it == live.end()) continue;
        u64 a = it->first, n = it->second.size;
        rz_check(a, it->second);
        memset((void *)a, 0xDB, n);
        if (flavour == INSTR) memset(shadow_a(a), 0xFD, (n + 7) / 8);
        ((Hdr *)(a - sizeof(Hdr)))->magic = MAGIC_FREE ^ a;
        if (freed.size() < 4000) freed.push_back({a, n});
        live_b -= n;
        live.erase(it);
    }
}
void check_heap() {
    for (auto &x : live) rz_check(x.first, x.second);
    for (auto &f : freed) {
        const u8 *p = (const u8 *)f.first;
        for (u64 i = 0; i < f.second; i++) if (p[i] != 0xDB) {
            Hdr *h = (Hdr *)(f.first - sizeof(Hdr));
            violation_pc("use-after-free", h->pc, 0, "byte %llu of a freed block of %llu bytes was overwritten", (unsigned long long)i, (unsigned long long)f.second);
        }
    }
    checked();
}

// ------------------------------------------------------------------ environment
void env_set(const char *name, const char *value) {
    auto it = envs.find(name);
    if (it != envs.end()) { envs.erase(it); }
    if (value) {
        char *buf = (char *)::malloc(strlen(value) + 1); strcpy(buf, value);
        envs[name] = (std::string *)buf;       // raw buffer: the library may scribble on it
    }
}
const char *env_get(const char *name) { auto it = envs.find(name); return it == envs.end() ? NULL : (const char *)it->second; }
void set_nproc(int n) { nproc_ = n; }

// ------------------------------------------------------------------ threads
static void *trampoline(void *p);
static pthread_attr_t mkattr(int slot) {
    pthread_attr_t at; pthread_attr_init(&at);
    u64 lo = slot == 0 ? STACKS : STACKS + STACK0_SZ + (u64)(slot - 1) * STACK_SZ;
    u64 sz = slot == 0 ? STACK0_SZ : STACK_SZ;
    pthread_attr_setstack(&at, (void *)lo, sz);
    return at;
}
static Th *new_thread() {
    int slot = -1;
    for (int s = 0; s < NSLOT; s++) if (slot_owner[s] < 0) { slot = s; break; }
    u32 clk = 0;
    if (slot < 0) {
        for (int s = 0; s < NSLOT; s++) if (T[slot_owner[s]]->state == ST_DONE) { slot = s; break; }
        if (slot < 0) return NULL;
        Th *o = T[slot_owner[slot]];
        pthread_join(o->real, NULL);
        clk = o->vc.c[slot];
    }
    Th *t = new Th();
    t->id = (int)T.size(); t->slot = slot; t->baton = 0; t->state = ST_RUN; t->obj = NULL; t->timed = false;
    t->detached = t->joined = false; t->is_app = false; t->in_lib = false; t->sp = 0; t->prio = (int)(srng.next() % 1000000) + 1;
    if (T.size()) { t->vc = T[cur]->vc; T[cur]->vc.c[T[cur]->slot]++; } else memset(&t->vc, 0, sizeof t->vc);
    if (clk > t->vc.c[slot]) t->vc.c[slot] = clk;
    t->vc.c[slot]++;
    u64 lo = slot == 0 ? STACKS : STACKS + STACK0_SZ + (u64)(slot - 1) * STACK_SZ;
    t->sp = lo;              // until it first runs nothing on its stack is considered dead
    slot_owner[slot] = t->id;
    T.push_back(t);
    return t;
}
static void start_real(Th *t) {
    pthread_attr_t at = mkattr(t->slot);
    int e = pthread_create(&t->real, &at, trampoline, t);
    if (e) harness_error("real pthread_create failed: %d", e);
    pthread_attr_destroy(&at);
    int lv = live_threads();
    if (lv > maxlive) maxlive = lv;
    if ((u32)lv + 1 > R->max_threads) R->max_threads = lv + 1;
}
static void altstack() {
    stack_t ss; ss.ss_size = 65536; ss.ss_flags = 0; ss.ss_sp = ::malloc(ss.ss_size);
    sigaltstack(&ss, NULL);
}
struct ThreadExit { };
static void thread_end(Th *t) {
    step_++; R->syncops++;
    hmix(hash_, 0xE4D ^ (step_ << 8) ^ ((u64)cur << 56));
    t->state = ST_DONE;
    for (Th *x : T) if (x->state == ST_JOIN && x->obj == t) x->state = ST_RUN;
    decide(W_BLOCK);          // hands the baton over and returns since we are done
}
static void *trampoline(void *p) {
    Th *t = (Th *)p;
    altstack();
    fwait(&t->baton);
    if (t->app) t->app(); else t->ret = t->fn(t->arg);
    thread_end(t);
    return NULL;
}
int app_thread(std::function<void()> fn) {
    Th *t = new_thread();
    if (!t) harness_error("too many threads");
    t->app = fn; t->is_app = true;
    start_real(t);
    sync_point(W_SYNC, 0xC4EA7E, 0);
    return t->id;
}
static void join_thread(Th *t, u64 pc) {
    sync_point(W_SYNC, 0x101, pc);
    while (t->state != ST_DONE) {
        Th *me = T[cur]; me->state = ST_JOIN; me->obj = t;
        sync_point(W_BLOCK, 0x102, pc);
    }
    t->joined = true;
    acquire(t->vc);
}
void app_join(int tid) { join_thread(T[tid], 0); }
void wait_quiescent() {
    u64 s0 = step_, f0 = fair_end;
    struct Restore { u64 s0, f0; ~Restore() { fair_end = f0 + (step_ - s0); } } restore{s0, f0};
    fair_end = ~0ull >> 1;
    for (u64 i = 0; i < 2000000; i++) {
        bool other = false;
        for (Th *t : T) if (t->id != cur && (t->state == ST_RUN || (t->timed && t->state != ST_DONE))) other = true;
        if (!other) return;
        // a polling thread never becomes quiescent; give up after a generous number of rounds
        if (i > 3000 && flavour == FAST) return;
        if (i > 200000) return;
        sync_point(W_YIELD, 0x71E1D, 0);
    }
}

// ------------------------------------------------------------------ crash handling
static void on_crash(int sig, siginfo_t *si, void *uc) {
    u64 pc = (u64)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
    // look for a return address on the stack that lies in the executable (for crashes inside libc)
    u64 *sp = (u64 *)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RSP];
    R->pc[0] = pc;
    if (pc < (u64)&__executable_start || pc > (u64)&etext) {
        int k = 1;
        u64 s = (u64)sp;
        if (s - STACKS < STACK0_SZ + NSLOT * STACK_SZ) {
            for (int i = 0; i < 200 && k < 6; i++) {
                if ((u64)(sp + i) >= STACKS + STACK0_SZ + NSLOT * STACK_SZ) break;
                u64 v = sp[i];
                if (v > (u64)&__executable_start && v < (u64)&etext) R->pc[k++] = v;
            }
        }
    }
    R->verdict = V_VIOLATION;
    const char *nm = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : "SIGPROF";
    if (sig == SIGPROF) {
        snprintf(R->cls, sizeof R->cls, "no-progress");
        snprintf(R->msg, sizeof R->msg, "processor time limit of the run exceeded (endless computation)");
        R->pc[0] = 0;
        hash_ = shash_ = 0; step_ = 0;          // not a function of the schedule
    } else {
        snprintf(R->cls, sizeof R->cls, "crash");
        snprintf(R->msg, sizeof R->msg, "%s (address %s)", nm, (u64)si->si_addr < 65536 ? "near null" : is_arena(si->si_addr) ? "in arena" : "wild");
        hmix(hash_, 0xDEAD + sig);
    }
    finish();
}

// ------------------------------------------------------------------ run
static std::vector<Scenario> &scns() { static std::vector<Scenario> v; return v; }
void register_scenario(const Scenario &s) { scns().push_back(s); }
void list_scenarios(FILE *f) {
    for (auto &s : scns()) if (s.flavours & flavour) fprintf(f, "%s %s %d\n", s.prop, s.name, s.weight);
}

static bool mapped = false;
void engine_setup() { if (!mapped) { map_all(); mapped = true; } }

void run_child(const char *prop, const RunSpec &sp, Result *res) {
    engine_setup();
    spec = &sp; R = res;
    u64 s = sp.seed;
    srng.seed(mix(s, 1)); frng.seed(mix(s, 2)); wrng.seed(mix(s, 3)); arng.seed(mix(s, 4)); lrng.seed(mix(s, 5));
    for (int i = 0; i < NSLOT; i++) slot_owner[i] = -1;
    if (sp.replay) {
        for (auto &e : sp.trace) {
            if (e.kind == 'A') ralloc[e.step] = 1;
            else if (e.kind == 'P') rcreate[e.step] = 1;
            else rsteps.push_back(e);
        }
        std::stable_sort(rsteps.begin(), rsteps.end(), [](const TraceEnt &a, const TraceEnt &b) { return a.step < b.step; });
    }
    std::vector<Scenario *> c; int tot = 0;
    std::vector<Scenario> &all = scns();
    std::sort(all.begin(), all.end(), [](const Scenario &a, const Scenario &b) { int k = strcmp(a.prop, b.prop); return k ? k < 0 : strcmp(a.name, b.name) < 0; });
    for (auto &x : all) if (!strcmp(x.prop, prop) && (x.flavours & flavour)) { c.push_back(&x); tot += x.weight; }
    Scenario *pick = NULL;
    if (sp.scenario && sp.scenario[0]) { for (auto *x : c) if (!strcmp(x->name, sp.scenario)) pick = x; }
    else if (tot > 0) { Rng r; r.seed(mix(s, 9)); int k = (int)r.below(tot); for (auto *x : c) { k -= x->weight; if (k < 0) { pick = x; break; } } }
    if (!pick) { snprintf(res->msg, sizeof res->msg, "no scenario"); snprintf(res->cls, sizeof res->cls, "harness"); res->verdict = V_HARNESS; _exit(0); }
    snprintf(res->scenario, sizeof res->scenario, "%s", pick->name);

    // one processor: hand-over between parked threads is cheapest there
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESETHAND;
    int sigs[] = {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF};
    for (int g : sigs) sigaction(g, &sa, NULL);
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = flavour == INSTR ? 60 : 20;
    setitimer(ITIMER_PROF, &it, NULL);

    memset(&sc, 0, sizeof sc);
    Th *t = new_thread();
    void (*fn)() = pick->fn;
    t->app = [fn]() { active = true; set_next_evt(); fn(); check_heap(); active = false; R->verdict = V_OK; finish(); };
    pthread_attr_t at = mkattr(0);
    int e = pthread_create(&t->real, &at, trampoline, t);
    if (e) { fprintf(stderr, "pthread_create %d\n", e); _exit(3); }
    fwake(&t->baton);
    pthread_join(t->real, NULL);
    _exit(4);
}

}  // namespace sim

// =====================================================================================================
// Library-facing functions
// =====================================================================================================
using namespace sim;
#define PCX ((u64)__builtin_return_address(0))
#define NOCHK __attribute__((noinline, used))
extern "C" {

// ---- memory
NOCHK void *sim_malloc(size_t n) { return lib_alloc(n, false, PCX); }
NOCHK void *sim_calloc(size_t a, size_t b) {
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
    return lib_alloc(n, true, PCX);
}
NOCHK void sim_free(void *p) { lib_free(p, PCX); }
NOCHK void *sim_realloc(void *p, size_t n) {
    u64 pc = PCX;
    if (!p) return lib_alloc(n, false, pc);
    if (!active) return ::realloc(p, n);
    auto it = live.find((u64)p);
    if (it == live.end()) violation_pc("bad-free", pc, 0, "realloc of %p which is not a live block", p);
    if (n == 0) { lib_free(p, pc); return NULL; }
    u64 old = it->second.size;
    void *q = lib_alloc(n, false, pc);
    if (!q) return NULL;
    memcpy(q, p, old < n ? old : n);
    lib_free(p, pc);
    return q;
}
NOCHK int sim_posix_memalign(void **r, size_t al, size_t n) { void *p = lib_alloc(n, false, PCX); if (!p) return ENOMEM; *r = p; return 0; }
NOCHK void *sim_aligned_alloc(size_t al, size_t n) { return lib_alloc(n, false, PCX); }
NOCHK char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)lib_alloc(n, false, PCX); if (p) memcpy(p, s, n); return p; }
NOCHK char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)lib_alloc(n + 1, false, PCX); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
NOCHK ssize_t sim_getline(char **line, size_t *cap, FILE *f) {
    u64 pc = PCX;
    if (!*line || !*cap) {
        char *p = (char *)lib_alloc(120, false, pc);
        if (!p) { errno = ENOMEM; return -1; }
        if (*line) lib_free(*line, pc);
        *line = p; *cap = 120; p[0] = 0;
    }
    size_t n = 0;
    for (;;) {
        int c = fgetc(f);
        if (c == EOF) break;
        if (n + 2 > *cap) {
            char *q = (char *)lib_alloc(*cap * 2, false, pc);
            if (!q) { errno = ENOMEM; return -1; }
            memcpy(q, *line, n); lib_free(*line, pc); *line = q; *cap *= 2;
        }
        (*line)[n++] = (char)c;
        if (c == '\n') break;
    }
    (*line)[n] = 0;
    return n ? (ssize_t)n : -1;
}
NOCHK ssize_t sim_getdelim(char **line, size_t *cap, int d, FILE *f) { if (d == '\n') return sim_getline(line, cap, f); return -1; }

NOCHK void *sim_memcpy(void *d, const void *s, size_t n) {
    if (flavour == INSTR && n) { access((u64)s, n, false, PCX); access((u64)d, n, true, PCX); }
    return memmove(d, s, n);
}
NOCHK void *sim_memmove(void *d, const void *s, size_t n) {
    if (flavour == INSTR && n) { access((u64)s, n, false, PCX); access((u64)d, n, true, PCX); }
    return memmove(d, s, n);
}
NOCHK void *sim_memset(void *d, int c, size_t n) {
    if (flavour == INSTR && n) access((u64)d, n, true, PCX);
    return memset(d, c, n);
}

// ---- threads
static Th *by_handle(pthread_t h) { u64 v = (u64)h; if ((v & 0xfff) != 0x7b0 || (v >> 12) == 0 || (v >> 12) > T.size()) return NULL; return T[(v >> 12) - 1]; }
static pthread_t handle_of(Th *t) { return (pthread_t)((((u64)t->id + 1) << 12) | 0x7b0); }

NOCHK int sim_pthread_create(pthread_t *h, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    u64 pc = PCX;
    sync_point(W_SYNC, 0xC4EA, pc);
    u64 ord = ++create_seq; R->creates++;
    bool fail = false;
    if (spec->replay) fail = rcreate.count(ord) > 0;
    else if (cf_on) {
        u64 rel = ord - create0;
        fail = cf_nth > 0 && (cf_from ? rel >= (u64)cf_nth : rel == (u64)cf_nth);
        if (!fail && cf_p > 0) fail = (mix(mix(spec->seed, 78), ord) >> 11) * (1.0 / 9007199254740992.0) < cf_p;
        if (fail) log_trace('P', 1, ord);
    }
    if (fail) { fault_fired(F_CREATE); hmix(hash_, 'P'); return EAGAIN; }
    Th *t = new_thread();
    if (!t) return EAGAIN;
    t->fn = fn; t->arg = arg;
    if (a) { int d; if (!pthread_attr_getdetachstate(a, &d) && d == PTHREAD_CREATE_DETACHED) t->detached = true; }
    if (h) *h = handle_of(t);
    start_real(t);
    sync_point(W_SYNC, 0xC4EB, pc);
    return 0;
}
NOCHK int sim_pthread_join(pthread_t h, void **r) {
    u64 pc = PCX;
    Th *t = by_handle(h);
    if (!t) violation_pc("crash", pc, 0, "pthread_join of an invalid thread handle");
    if (t->joined || t->detached) violation_pc("crash", pc, 0, "pthread_join of a thread that is already joined or detached");
    join_thread(t, pc);
    if (r) *r = t->ret;
    return 0;
}
[[noreturn]] NOCHK void sim_pthread_exit(void *r) { Th *t = T[cur]; t->ret = r; thread_end(t); pthread_exit(NULL); }
NOCHK int sim_pthread_detach(pthread_t h) {
    Th *t = by_handle(h);
    if (!t || t->joined || t->detached) violation_pc("crash", PCX, 0, "pthread_detach of an invalid thread handle");
    t->detached = true; return 0;
}
NOCHK pthread_t sim_pthread_self(void) { return handle_of(T[cur]); }
NOCHK int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
NOCHK int sim_pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t *) { return 0; }
NOCHK int sim_pthread_attr_setaffinity_np(pthread_attr_t *, size_t, const cpu_set_t *) { return 0; }
NOCHK int sim_sched_getaffinity(pid_t, size_t n, cpu_set_t *c) { memset(c, 0, n); for (int i = 0; i < nproc_; i++) CPU_SET(i, c); return 0; }
NOCHK int sim_sched_yield(void) { sync_point(W_YIELD, 0x71E, PCX); return 0; }

// ---- mutex
static int lock_mutex(const void *m, u64 pc) {
    sync_addr(m, pc);
    sync_point(W_SYNC, 0x10C4, pc);
    for (;;) {
        sync_addr(m, pc);
        Mtx &x = mtxs[m];
        if (x.owner < 0) { x.owner = cur; x.count = 1; acquire(x.vc); return 0; }
        if (x.owner == cur && x.recursive) { x.count++; return 0; }
        Th *me = T[cur]; me->state = ST_MUTEX; me->obj = m;
        sync_point(W_BLOCK, 0x10C5, pc);
    }
}
static int unlock_mutex(const void *m, u64 pc, bool pt) {
    Mtx &x = mtxs[m];
    if (x.owner != cur) violation_pc("lock-misuse", pc, 0, "unlock of a mutex the thread does not hold");
    if (x.recursive && --x.count > 0) return 0;
    release(x.vc);
    x.owner = -1;
    for (Th *t : T) if (t->state == ST_MUTEX && t->obj == m) t->state = ST_RUN;
    if (pt) sync_point(W_SYNC, 0x0A10C, pc);
    return 0;
}
NOCHK int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    u64 pc = PCX; sync_addr(m, pc);
    Mtx &x = mtxs[m]; x = Mtx(); memset(&x.vc, 0, sizeof x.vc);
    if (a) { int k; if (!pthread_mutexattr_gettype(a, &k) && k == PTHREAD_MUTEX_RECURSIVE) x.recursive = true; }
    return 0;
}
NOCHK int sim_pthread_mutex_destroy(pthread_mutex_t *m) {
    u64 pc = PCX; sync_addr(m, pc);
    auto it = mtxs.find(m);
    if (it != mtxs.end()) { if (it->second.owner >= 0) return EBUSY; mtxs.erase(it); }
    return 0;
}
NOCHK int sim_pthread_mutex_lock(pthread_mutex_t *m) { return lock_mutex(m, PCX); }
NOCHK int sim_pthread_mutex_trylock(pthread_mutex_t *m) {
    u64 pc = PCX; sync_addr(m, pc); sync_point(W_SYNC, 0x10C6, pc);
    Mtx &x = mtxs[m]; if (x.owner >= 0) return EBUSY; x.owner = cur; x.count = 1; acquire(x.vc); return 0;
}
NOCHK int sim_pthread_mutex_unlock(pthread_mutex_t *m) { u64 pc = PCX; sync_addr(m, pc); return unlock_mutex(m, pc, true); }
NOCHK int sim_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { return lock_mutex(m, PCX); }
NOCHK int sim_pthread_spin_init(pthread_spinlock_t *m, int) { mtxs[(const void *)m] = Mtx(); memset(&mtxs[(const void *)m].vc, 0, sizeof(VC)); return 0; }
NOCHK int sim_pthread_spin_destroy(pthread_spinlock_t *m) { mtxs.erase((const void *)m); return 0; }
NOCHK int sim_pthread_spin_lock(pthread_spinlock_t *m) { return lock_mutex((const void *)m, PCX); }
NOCHK int sim_pthread_spin_unlock(pthread_spinlock_t *m) { return unlock_mutex((const void *)m, PCX, true); }

// ---- condition variables
static int cond_wait(const void *c, const void *m, bool timed, u64 deadline, u64 pc) {
    sync_addr(c, pc);
    if (mtxs[m].owner != cur) violation_pc("lock-misuse", pc, 0, "condition wait without holding the mutex");
    Th *me = T[cur];
    me->woken = me->timedout = false;
    unlock_mutex(m, pc, false);
    if (timed && deadline <= realtime()) {
        sync_point(W_YIELD, 0xC0DE, pc);
        lock_mutex(m, pc);
        return ETIMEDOUT;
    }
    conds[c].w.push_back(me->id);
    me->state = ST_COND; me->obj = c; me->timed = timed; me->deadline = deadline;
    sync_point(W_BLOCK, 0xC0DF, pc);
    int rc = me->timedout ? ETIMEDOUT : 0;
    sync_addr(m, pc);
    lock_mutex(m, pc);
    return rc;
}
NOCHK int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { sync_addr(c, PCX); conds[c] = Cond(); return 0; }
NOCHK int sim_pthread_cond_destroy(pthread_cond_t *c) {
    sync_addr(c, PCX);
    auto it = conds.find(c); if (it != conds.end()) { if (!it->second.w.empty()) violation_pc("lock-misuse", PCX, 0, "condition destroyed while threads wait on it"); conds.erase(it); }
    return 0;
}
NOCHK int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, false, 0, PCX); }
NOCHK int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    return cond_wait(c, m, true, (u64)ts->tv_sec * 1000000000ULL + ts->tv_nsec, PCX);
}
NOCHK int sim_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts) {
    return cond_wait(c, m, true, (u64)ts->tv_sec * 1000000000ULL + ts->tv_nsec, PCX);
}
NOCHK int sim_pthread_cond_signal(pthread_cond_t *c) {
    u64 pc = PCX; sync_addr(c, pc);
    auto &w = conds[c].w;
    if (!w.empty()) {
        // which waiter wakes is the scheduler's choice
        size_t i = 0;
        step_++;
        if (spec->replay) {
            while (tpos < rsteps.size() && rsteps[tpos].step < step_) tpos++;
            if (tpos < rsteps.size() && rsteps[tpos].step == step_ && rsteps[tpos].kind == 'C') { i = rsteps[tpos].val; tpos++; if (i >= w.size()) i = 0; }
        } else if (sched_on && step_ < adv_end && w.size() > 1) { i = srng.below(w.size()); if (i) log_trace('C', (int)i, step_); }
        wake_cond(T[w[i]]);
    }
    sync_point(W_SYNC, 0x516, pc);
    return 0;
}
NOCHK int sim_pthread_cond_broadcast(pthread_cond_t *c) {
    u64 pc = PCX; sync_addr(c, pc);
    auto &w = conds[c].w;
    while (!w.empty()) wake_cond(T[w[0]]);
    sync_point(W_SYNC, 0xB40, pc);
    return 0;
}

// ---- once, rwlock, semaphore, barrier
static std::unordered_map<const void *, int> onces;
NOCHK int sim_pthread_once(pthread_once_t *o, void (*fn)(void)) {
    u64 pc = PCX;
    sync_point(W_SYNC, 0x04CE, pc);
    for (;;) {
        int &s = onces[o];
        if (s == 2) { acquire(mtxs[(const char *)o + 1].vc); return 0; }
        if (s == 0) {
            s = 1; fn(); onces[o] = 2; release(mtxs[(const char *)o + 1].vc);
            for (Th *t : T) if (t->state == ST_MUTEX && t->obj == o) t->state = ST_RUN;
            return 0;
        }
        T[cur]->state = ST_MUTEX; T[cur]->obj = o;
        sync_point(W_BLOCK, 0x04CF, pc);
    }
}
NOCHK int sim_pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *) { Rw &x = rws[m]; x.writer = -1; x.readers = 0; memset(&x.vc, 0, sizeof x.vc); return 0; }
NOCHK int sim_pthread_rwlock_destroy(pthread_rwlock_t *m) { rws.erase(m); return 0; }
static Rw &rw_of(const void *m) { auto it = rws.find(m); if (it == rws.end()) { Rw &x = rws[m]; memset(&x.vc, 0, sizeof x.vc); return x; } return it->second; }
NOCHK int sim_pthread_rwlock_rdlock(pthread_rwlock_t *m) {
    u64 pc = PCX; sync_addr(m, pc); sync_point(W_SYNC, 0x4D1, pc);
    while (rw_of(m).writer >= 0) { T[cur]->state = ST_MUTEX; T[cur]->obj = m; sync_point(W_BLOCK, 0x4D2, pc); }
    Rw &x = rw_of(m); x.readers++; acquire(x.vc); return 0;
}
NOCHK int sim_pthread_rwlock_wrlock(pthread_rwlock_t *m) {
    u64 pc = PCX; sync_addr(m, pc); sync_point(W_SYNC, 0x4D3, pc);
    while (rw_of(m).writer >= 0 || rw_of(m).readers > 0) { T[cur]->state = ST_MUTEX; T[cur]->obj = m; sync_point(W_BLOCK, 0x4D4, pc); }
    Rw &x = rw_of(m); x.writer = cur; acquire(x.vc); return 0;
}
NOCHK int sim_pthread_rwlock_unlock(pthread_rwlock_t *m) {
    u64 pc = PCX; Rw &x = rw_of(m); release(x.vc);
    if (x.writer == cur) x.writer = -1; else x.readers--;
    for (Th *t : T) if (t->state == ST_MUTEX && t->obj == m) t->state = ST_RUN;
    sync_point(W_SYNC, 0x4D5, pc); return 0;
}
struct Bar { unsigned n = 0, in = 0; u64 gen = 0; VC vc; };
static std::unordered_map<const void *, Bar> bars;
NOCHK int sim_pthread_barrier_init(pthread_barrier_t *b, const pthread_barrierattr_t *, unsigned n) { Bar &x = bars[b]; x.n = n; x.in = 0; x.gen = 0; memset(&x.vc, 0, sizeof x.vc); return 0; }
NOCHK int sim_pthread_barrier_destroy(pthread_barrier_t *b) { bars.erase(b); return 0; }
NOCHK int sim_pthread_barrier_wait(pthread_barrier_t *b) {
    u64 pc = PCX; sync_addr(b, pc); sync_point(W_SYNC, 0xBA4, pc);
    Bar &x = bars[b]; release(x.vc);
    if (++x.in >= x.n) {
        x.in = 0; x.gen++;
        for (Th *t : T) if (t->state == ST_MUTEX && t->obj == b) t->state = ST_RUN;
        acquire(x.vc); return PTHREAD_BARRIER_SERIAL_THREAD;
    }
    u64 g = x.gen;
    while (bars[b].gen == g) { T[cur]->state = ST_MUTEX; T[cur]->obj = b; sync_point(W_BLOCK, 0xBA5, pc); }
    acquire(bars[b].vc); return 0;
}
NOCHK int sim_sem_init(sem_t *s, int, unsigned v) { Sem &x = sems[s]; x.v = (int)v; memset(&x.vc, 0, sizeof x.vc); return 0; }
NOCHK int sim_sem_destroy(sem_t *s) { sems.erase(s); return 0; }
static int sem_wait_(sem_t *s, bool timed, u64 dl, u64 pc) {
    sync_addr(s, pc); sync_point(W_SYNC, 0x5E0, pc);
    while (sems[s].v <= 0) {
        Th *me = T[cur];
        if (timed && dl <= realtime()) { errno = ETIMEDOUT; return -1; }
        me->state = ST_SEM; me->obj = s; me->timed = timed; me->deadline = dl; me->timedout = false;
        sync_point(W_BLOCK, 0x5E1, pc);
        if (me->timedout) { errno = ETIMEDOUT; return -1; }
    }
    sems[s].v--; acquire(sems[s].vc); return 0;
}
NOCHK int sim_sem_wait(sem_t *s) { return sem_wait_(s, false, 0, PCX); }
NOCHK int sim_sem_timedwait(sem_t *s, const struct timespec *ts) { return sem_wait_(s, true, (u64)ts->tv_sec * 1000000000ULL + ts->tv_nsec, PCX); }
NOCHK int sim_sem_trywait(sem_t *s) { sync_point(W_SYNC, 0x5E2, PCX); if (sems[s].v <= 0) { errno = EAGAIN; return -1; } sems[s].v--; acquire(sems[s].vc); return 0; }
NOCHK int sim_sem_post(sem_t *s) {
    u64 pc = PCX; sync_addr(s, pc); release(sems[s].vc); sems[s].v++;
    for (Th *t : T) if (t->state == ST_SEM && t->obj == s) { t->state = ST_RUN; t->timed = false; }
    sync_point(W_SYNC, 0x5E3, pc); return 0;
}

// ---- time, environment, randomness
NOCHK int sim_clock_gettime(clockid_t id, struct timespec *ts) {
    u64 t = id == CLOCK_REALTIME ? realtime() : now_ns() + 1000000000ULL;
    ts->tv_sec = t / 1000000000ULL; ts->tv_nsec = t % 1000000000ULL; return 0;
}
NOCHK int sim_gettimeofday(struct timeval *tv, void *) { u64 t = realtime(); tv->tv_sec = t / 1000000000ULL; tv->tv_usec = t % 1000000000ULL / 1000; return 0; }
NOCHK time_t sim_time(time_t *p) { time_t t = realtime() / 1000000000ULL; if (p) *p = t; return t; }
static int sleep_ns(u64 ns, u64 pc) {
    Th *me = T[cur]; me->state = ST_SLEEP; me->obj = NULL; me->timed = true; me->timedout = false; me->deadline = realtime() + ns;
    sync_point(W_BLOCK, 0x51E, pc); return 0;
}
NOCHK int sim_usleep(useconds_t us) { return sleep_ns((u64)us * 1000, PCX); }
NOCHK int sim_nanosleep(const struct timespec *ts, struct timespec *) { return sleep_ns((u64)ts->tv_sec * 1000000000ULL + ts->tv_nsec, PCX); }
NOCHK char *sim_getenv(const char *n) { if (active) sync_point(W_SYNC, 0xE4, PCX); auto it = envs.find(n); return it == envs.end() ? NULL : (char *)it->second; }
NOCHK char *sim_secure_getenv(const char *n) { return sim_getenv(n); }
NOCHK long sim_sysconf(int k) { if (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF) return nproc_; return sysconf(k); }
NOCHK int sim_get_nprocs(void) { return nproc_; }
NOCHK long sim_lrand48(void) { return (long)(lrng.next() >> 33); }
static unsigned short xs[3] = {0x330e, 0xabcd, 0x1234};
NOCHK double sim_drand48(void) { return erand48(xs); }
NOCHK void sim_srand48(long s) { xs[0] = 0x330e; xs[1] = (unsigned short)s; xs[2] = (unsigned short)(s >> 16); }
NOCHK int sim_rand(void) { return (int)(lrng.next() >> 33); }
NOCHK long sim_random(void) { return (long)(lrng.next() >> 33); }
NOCHK int sim_printf(const char *, ...) { sim::stdout_calls++; return 0; }
NOCHK int sim_puts(const char *) { sim::stdout_calls++; return 0; }
NOCHK int sim_putchar(int c) { sim::stdout_calls++; return c; }
NOCHK int sim_vprintf(const char *, va_list) { sim::stdout_calls++; return 0; }
NOCHK void sim_perror(const char *) { sim::stdout_calls++; }
static bool std_stream(FILE *f) { if (f != stdout && f != stderr) return false; sim::stdout_calls++; return true; }
NOCHK int sim_vfprintf(FILE *f, const char *fmt, va_list ap) { return std_stream(f) ? 0 : vfprintf(f, fmt, ap); }
NOCHK int sim_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(f, fmt, ap); va_end(ap); return n; }
NOCHK size_t sim_fwrite(const void *p, size_t n, size_t m, FILE *f) { return std_stream(f) ? m : fwrite(p, n, m, f); }
NOCHK int sim_fputs(const char *s, FILE *f) { return std_stream(f) ? 0 : fputs(s, f); }
NOCHK int sim_fputc(int c, FILE *f) { return std_stream(f) ? c : fputc(c, f); }
NOCHK int sim_putc(int c, FILE *f) { return sim_fputc(c, f); }
[[noreturn]] NOCHK void sim___assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
    R->pc[0] = PCX;
    sim::violation("assert", fn, "assertion %s failed at %s:%u", e, f, l);
}
[[noreturn]] NOCHK void sim_abort(void) { R->pc[0] = PCX; sim::violation("crash", "abort", "abort called"); }
[[noreturn]] NOCHK void sim_exit(int) { R->pc[0] = PCX; sim::violation("crash", "exit", "exit called by the library"); }

// ---- gcc -fsanitize=thread interface, our own runtime
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define RW(N) \
    void __tsan_read##N(void *p) { access((u64)p, N, false, PCX); } \
    void __tsan_write##N(void *p) { access((u64)p, N, true, PCX); } \
    void __tsan_unaligned_read##N(void *p) { access((u64)p, N, false, PCX); } \
    void __tsan_unaligned_write##N(void *p) { access((u64)p, N, true, PCX); } \
    void __tsan_volatile_read##N(void *p) { access((u64)p, N, false, PCX); } \
    void __tsan_volatile_write##N(void *p) { access((u64)p, N, true, PCX); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access((u64)p, n, false, PCX); }
void __tsan_write_range(void *p, size_t n) { access((u64)p, n, true, PCX); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}

static inline void atomic_pre(const volatile void *p, size_t n, bool w, u64 pc) {
    if (!active) return;
    R->accesses++;
    sync_point(W_SYNC, 0xA70, pc);
    u64 a = (u64)p;
    if (a - ARENA_S < 2 * ARENA_SZ) check_range(a, n, w, pc);
    else if (a - STACKS < STACK0_SZ + NSLOT * STACK_SZ) check_stack(a, n, w, pc);
}
static inline void atomic_sync(const volatile void *p, bool acq, bool rel) {
    if (!active) return;
    auto it = atom_vc.find((const void *)p);
    if (it == atom_vc.end()) { VC z; memset(&z, 0, sizeof z); it = atom_vc.emplace((const void *)p, z).first; }
    if (acq) acquire(it->second);
    if (rel) release(it->second);
}
#define AT(N, TY) \
    TY __tsan_atomic##N##_load(const volatile TY *p, int) { atomic_pre(p, N / 8, false, PCX); TY v = __atomic_load_n(p, __ATOMIC_SEQ_CST); atomic_sync(p, true, false); return v; } \
    void __tsan_atomic##N##_store(volatile TY *p, TY v, int) { atomic_pre(p, N / 8, true, PCX); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); atomic_sync(p, false, true); } \
    TY __tsan_atomic##N##_exchange(volatile TY *p, TY v, int) { atomic_pre(p, N / 8, true, PCX); TY r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); atomic_sync(p, true, true); return r; } \
    TY __tsan_atomic##N##_fetch_add(volatile TY *p, TY v, int) { atomic_pre(p, N / 8, true, PCX); TY r = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); atomic_sync(p, true, true); return r; } \
    TY __tsan_atomic##N##_fetch_sub(volatile TY *p, TY v, int) { atomic_pre(p, N / 8, true, PCX); TY r = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); atomic_sync(p, true, true); return r; } \
    TY __tsan_atomic##N##_fetch_and(volatile TY *p, TY v, int) { atomic_pre(p, N / 8, true, PCX); TY r = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); atomic_sync(p, true, true); return r; } \
    TY __tsan_atomic##N##_fetch_or(volatile TY *p, TY v, int) { atomic_pre(p, N / 8, true, PCX); TY r = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); atomic_sync(p, true, true); return r; } \
    TY __tsan_atomic##N##_fetch_xor(volatile TY *p, TY v, int) { atomic_pre(p, N / 8, true, PCX); TY r = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); atomic_sync(p, true, true); return r; } \
    TY __tsan_atomic##N##_fetch_nand(volatile TY *p, TY v, int) { atomic_pre(p, N / 8, true, PCX); TY r = __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); atomic_sync(p, true, true); return r; } \
    bool __tsan_atomic##N##_compare_exchange_strong(volatile TY *p, TY *e, TY v, int, int) { atomic_pre(p, N / 8, true, PCX); bool r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); atomic_sync(p, true, true); return r; } \
    bool __tsan_atomic##N##_compare_exchange_weak(volatile TY *p, TY *e, TY v, int, int) { atomic_pre(p, N / 8, true, PCX); bool r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); atomic_sync(p, true, true); return r; } \
    TY __tsan_atomic##N##_compare_exchange_val(volatile TY *p, TY e, TY v, int, int) { atomic_pre(p, N / 8, true, PCX); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); atomic_sync(p, true, true); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { if (active) sync_point(W_SYNC, 0xFE4CE, PCX); }
void __tsan_atomic_signal_fence(int) {}
}
