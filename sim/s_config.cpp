// C07: reading the configuration variables (also by several threads at first use), and the limit of computing threads.
#include "ref.h"
#include <set>
#define private private_
#include "accel.h"
#undef private
using namespace sim;

namespace {
struct Field { std::string text; std::set<long> ok; };
// a positive number and what may become of it
Field gen_int(const char *n, long def, long maxv, long minv = 1) {
    Field f; long v = P(n, 1, 4) == 1 ? P("small", 1, 4) : 1 + (long)wrng.below(maxv);
    char b[64];
    auto val = [&](long x) { f.ok.insert(x); if (x < minv) f.ok.insert(minv); };
    switch (P("fk", 0, 12)) {
    case 0: f.text = ""; f.ok = {def}; return f;
    case 1: f.text = "0"; f.ok = {def}; return f;
    case 2: snprintf(b, sizeof b, "-%ld", v); f.text = b; f.ok = {def}; return f;
    case 3: f.text = PF("word", .5) ? "abc" : "x1"; f.ok = {def}; return f;
    case 4: snprintf(b, sizeof b, "%ldabc", v); val(v); f.ok.insert(def); break;      // not specified
    case 5: snprintf(b, sizeof b, " %ld", v); val(v); break;
    case 6: snprintf(b, sizeof b, "%s%ld", PF("plus", .5) ? "+" : "00", v); val(v); break;
    default: snprintf(b, sizeof b, "%ld", v); val(v);
    }
    f.text = b; return f;
}
Field gen_size(const char *n, long def, long minv) {
    Field f; char b[64]; long v = 1 + (long)wrng.below(P(n, 0, 3) ? 4000000 : 5000);
    auto val = [&](long x) { f.ok.insert(x < minv ? minv : x); if (x < minv) f.ok.insert(x); };
    switch (P("sk", 0, 13)) {
    case 0: f.text = ""; f.ok = {def}; return f;
    case 1: f.text = "0"; f.ok = {def}; return f;
    case 2: snprintf(b, sizeof b, "-%ld", v); f.ok = {def}; break;
    case 3: snprintf(b, sizeof b, "%s", PF("word", .5) ? "abc" : "k"); f.ok = {def}; break;
    case 4: case 5: v = 1 + v % 4000; snprintf(b, sizeof b, "%ld%s", v, PF("up", .5) ? "K" : "k"); val(v * 1024); break;
    case 6: case 7: v = 1 + v % 1000; snprintf(b, sizeof b, "%ld%s", v, PF("up", .5) ? "M" : "m"); val(v * 1024 * 1024); break;
    case 8: snprintf(b, sizeof b, "0x%lx", v); val(v); break;
    default: snprintf(b, sizeof b, "%ld", v); val(v);
    }
    f.text = b; return f;
}
void want(const char *var, const char *what, long got, const std::set<long> &ok) {
    if (ok.count(got)) return;
    const char *t = env_get(var);
    violation("wrong-config", what, "%s='%s': %s is %ld instead of %ld", var, t ? t : "(unset)", what, got, *ok.begin());
}
struct Seen { armas_env_t e; armas_conf_t c; struct armas_ac_env a; int order; };
}
static void config() {
    std::string cfg, cache, ac; bool has_cfg = PF("hascfg", .85), has_cache = PF("hascache", .75), has_ac = PF("hasac", .8);
    std::set<long> o[7]; long defs[7] = {64, 64, 160, 64, 1024, 256, 0};
    for (int i = 0; i < 7; i++) o[i] = {defs[i]};
    if (has_cfg) {
        int nf = P("nf", 0, 7);
        for (int i = 0; i < nf && i < 6; i++) { Field f = gen_int("val", defs[i], i < 3 ? 500 : 3000, i == 5 ? 2 : 1); cfg += (i ? "," : "") + f.text; o[i] = f.ok; }
        if (nf == 7) { static const char *y[] = {"y", "Y", "yes", "n", "N", "no", "", "0"}; int k = P("fixed", 0, 7); cfg += std::string(",") + y[k]; o[6] = {k < 3 ? 1 : 0}; }
        env_set("ARMAS_CONFIG", cfg.c_str());
    } else env_set("ARMAS_CONFIG", NULL);
    std::set<long> oc = {256 * 1024}, ol = {256 * 1024 / 8};
    if (has_cache) {
        int nf = P("ncf", 0, 2);
        if (nf > 0) { Field f = gen_size("cm", 256 * 1024, 4096); cache += f.text; oc = f.ok; }
        if (nf > 1) { Field f = gen_size("l1", 256 * 1024 / 8, 1024); cache += "," + f.text; ol = f.ok; }
        env_set("ARMAS_CACHE", cache.c_str());
    } else env_set("ARMAS_CACHE", NULL);
    int nproc = PC("nproc", {1, 2, 3, 4, 8, 16, 40}); set_nproc(nproc);
    std::set<long> oi = {400 * 400}, om = {nproc}; long opt = 0; std::set<int> cpus; bool specs = false;
    if (has_ac) {
        int nf = P("naf", 0, 6);
        if (nf > 0) { Field f = gen_int("items", 400 * 400, 100000); ac += f.text; oi = f.ok; }
        if (nf > 1) { Field f = gen_int("maxproc", nproc, 2 * nproc); ac += "," + f.text; om.clear(); for (long v : f.ok) om.insert(v < nproc ? v : nproc); }
        if (nf > 2) {
            static const char *p1[] = {"", "B", "T", "b", "t"}, *p2[] = {"", "R", "Z", "r", "z"};
            int a = P("p1", 0, 4), b = a ? P("p2", 0, 4) : 0; bool two = PF("two", .3);
            ac += std::string(",") + p1[a] + p2[b] + (two ? "2" : PF("one", .1) ? "1" : "");
            opt = (a == 1 || a == 3 ? ARMAS_OBLAS_BLOCKED : a ? ARMAS_OBLAS_TILED : 0) | (b == 1 || b == 3 ? ARMAS_OSCHED_ROUNDROBIN : b ? ARMAS_OSCHED_RANDOM : 0) | (two ? ARMAS_OSCHED_TWO : 0);
        }
        for (int i = 3; i < nf; i++) {
            char b[64]; int k = P("spec", 0, 5), x = P("cpu", 0, nproc + 1), y = x + P("len", 0, 9), s = P("step", 1, 3); unsigned long m = wrng.below(1 << 20);
            specs = true;
            auto set = [&](int c) { if (c < nproc) cpus.insert(c); };
            if (k == 0) snprintf(b, sizeof b, "%s", "");
            else if (k == 1) { snprintf(b, sizeof b, "%d", x); set(x); }
            else if (k == 2) { snprintf(b, sizeof b, "%d-%d", x, y); for (int c = x; c <= y; c++) set(c); }
            else if (k == 3) { snprintf(b, sizeof b, "%d-%d/%d", x, y, s); for (int c = x; c <= y; c += s) set(c); }
            else if (k == 4) { snprintf(b, sizeof b, "0x%lx", m); for (int c = 0; c < 20; c++) if (m >> c & 1) set(c); }
            else { snprintf(b, sizeof b, "%d:0x%lx", x, m); for (int c = 0; c < 20; c++) if (m >> c & 1) set(x + c); }
            ac += std::string(",") + b;
        }
        env_set("ARMAS_AC_CONFIG", ac.c_str());
    } else env_set("ARMAS_AC_CONFIG", NULL);
    describe("ARMAS_CONFIG=%s ARMAS_CACHE=%s ARMAS_AC_CONFIG=%s nproc=%d", has_cfg ? cfg.c_str() : "(unset)", has_cache ? cache.c_str() : "(unset)", has_ac ? ac.c_str() : "(unset)", nproc);
    int nth = P("nth", 1, 4);
    std::vector<Seen> seen(nth);
    for (auto &s : seen) s.order = P("order", 0, 5);
    auto look = [](Seen *s) {
        for (int k = 0; k < 3; k++) switch ((s->order + k * (s->order < 3 ? 1 : 2)) % 3) {
            case 0: s->e = *armas_getenv(); break;
            case 1: s->c = *armas_conf_default(); break;
            default: s->a = *armas_ac_getenv(); break;
        }
    };
    SchedCfg sc = random_sched(flavour == INSTR ? 3000 : 60, 10);
    sched_start(sc);
    std::vector<int> t;
    for (auto &s : seen) { Seen *p = &s; t.push_back(app_thread([p, look] { look(p); })); }
    for (int x : t) app_join(x);
    sched_stop();
    for (auto &s : seen) {
        want("ARMAS_CONFIG", "mb", s.e.mb, o[0]); want("ARMAS_CONFIG", "nb", s.e.nb, o[1]); want("ARMAS_CONFIG", "kb", s.e.kb, o[2]); want("ARMAS_CONFIG", "lb", s.e.lb, o[3]);
        want("ARMAS_CONFIG", "blas1min", s.e.blas1min, o[4]); want("ARMAS_CONFIG", "blas2min", s.e.blas2min, o[5]); want("ARMAS_CONFIG", "fixed", s.e.fixed != 0, o[6]);
        want("ARMAS_CACHE", "cmem", (long)s.e.cmem, oc);
        if (!(s.e.l1mem >= s.e.cmem || *ol.rbegin() >= *oc.begin())) want("ARMAS_CACHE", "l1mem", (long)s.e.l1mem, ol);   // (must be smaller than cmem)
        want("ARMAS_AC_CONFIG", "num_items", (long)s.a.num_items, oi); want("ARMAS_AC_CONFIG", "max_cores", (long)s.a.max_cores, om);
        want("ARMAS_AC_CONFIG", "options", s.a.options, {opt});
        for (int c = 0; c < CPU_SETSIZE; c++) if ((CPU_ISSET(c, &s.a.cpus) != 0) != (cpus.count(c) != 0))
            violation("wrong-config", "cpus", "ARMAS_AC_CONFIG='%s' with %d processors: cpu %d is %sin the set", ac.c_str(), nproc, c, cpus.count(c) ? "not " : "");
        if (s.c.error || s.c.optflags || s.c.work || s.c.accel || s.c.maxiter || s.c.tolmult <= 0) violation("wrong-config", "armas_conf_default", "the default configuration block is not the initial one");
        checked();
    }
    // the environment is what it was
    auto env_same = [](const char *var, bool has, const std::string &v) {
        const char *g = env_get(var);
        if ((g != NULL) != has || (g && v != g)) violation("environment-changed", var, "%s is '%s' afterwards, it was '%s'", var, g ? g : "(unset)", has ? v.c_str() : "(unset)");
    };
    env_same("ARMAS_CONFIG", has_cfg, cfg); env_same("ARMAS_CACHE", has_cache, cache); env_same("ARMAS_AC_CONFIG", has_ac, ac);
    if (specs) probe("cpu-spec");
    if (nth > 1) probe("concurrent-first-use");
    nontrivial();
    check_heap();
}
SCENARIO(C07, config, 2, FAST) { config(); }
SCENARIO(C07, config_instr, 1, INSTR) { config(); }

// at most the configured number of computing threads, also when several calls follow each other
static void thread_limit(int maxd) {
    Layout l = gen_layout();
    int acc = P("accel", 0, 2), ncall = P("ncall", 1, 3);
    std::vector<B3> cs(ncall);
    for (auto &c : cs) gen_b3(c, acc == 0 || PF("anyop", .2) ? -1 : (int)B3_GEMM, maxd, l);
    Env e; gen_ac_env(e, cs[0].m * cs[0].n); gen_blk_env(e);
    describe("accel=%s", ac_names[acc]);
    for (auto &c : cs) describe(" | %s", b3desc(c).c_str());
    int limit = env_threads(e);
    u64 tasks = 1; for (auto &c : cs) tasks += (u64)c.m * c.n / (e.elems > 0 ? e.elems : 1) + 1;
    SchedCfg sc = random_sched(flavour == INSTR ? (u64)maxd * maxd * maxd / 3 : 2000, tasks);
    armas_ac_handle_t h = 0;
    reset_max_threads();
    sched_start(sc);
    if (armas_ac_init(&h, ac_names[acc]) != 0 || !h) violation("init", "armas_ac_init", "accelerator %s cannot be created", ac_names[acc]);
    armas_conf_t cf = *armas_conf_default();
    cf.accel = h;
    for (auto &c : cs) {
        int rc = run_b3(c, &cf);
        if (rc) violation("error-return", b3name[c.op], "returned %d", rc);
        verify_b3(c);
        if (max_live_threads() > limit)
            violation("thread-limit", ac_names[acc], "%d threads were running at the same time for %s, the limit is %d", max_live_threads(), b3desc(c).c_str(), limit);
        checked();
        sched_extend(sc.fair_budget);
    }
    if (max_live_threads() == limit) { probe("at-limit"); nontrivial(); }
    armas_ac_release(h);
    wait_quiescent();
    sched_stop();
    check_heap();
}
SCENARIO(C07, threads, 1, FAST) { thread_limit(60); }
SCENARIO(C07, threads_instr, 1, INSTR) { thread_limit(12); }
