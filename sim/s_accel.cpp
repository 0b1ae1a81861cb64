// C01..C05: accelerated BLAS level 3 operations and accelerator life cycle.
#include "ref.h"
using namespace sim;

namespace {
u64 est_steps(const B3 &c) { return flavour == INSTR ? (u64)c.m * c.n * c.k / 3 + 400 : 400; }
u64 tasks_of(const Env &e, const B3 &c) { return (u64)c.m * c.n / (e.elems > 0 ? e.elems : 1) + 1; }
u64 tasks_of(const Env &e, const std::vector<B3> &cs) { u64 t = 0; for (auto &c : cs) t += tasks_of(e, c); return t; }
int accel_of(int k) { return k < 3 ? k : k - 2; }

void check_threads_gone(const char *what, int before) {
    wait_quiescent();
    if (live_threads() != before)
        violation("thread-left", what, "%s: %d threads of the accelerator still exist and never end", what, live_threads() - before);
}
void check_leak(const char *what, u64 mark) {
    armas_cbuf_release_thread_global();
    u64 pc = 0, size = 0, n = leaked_since(mark, &pc, &size);
    if (n) { R->pc[0] = pc; violation("leak", "", "%s: %llu blocks of library memory never returned (first: %llu bytes)", what, (unsigned long long)n, (unsigned long long)size); }
    checked();
}
// the accelerator splits the work for these parameters
bool splits(const Env &e, int acc, const B3 &c) {
    long sz = (long)c.m * c.n;
    if (env_threads(e) < 2) return false;
    if (acc == 0) return (sz + e.elems - 1) / e.elems >= 2;
    if (c.op != B3_GEMM) return false;
    return sz / e.elems >= 2;
}
void use_memory_modes() { set_fill(P("fill", 0, 3)); set_align(P("align", 0, 1)); }
}

// ---------------------------------------------------------------------------------- C01
static void accel_result(int op, int maxd, bool many) {
    Layout l = gen_layout();
    use_memory_modes();
    int ncall = many ? P("ncall", 1, 4) : 1;
    int acc = accel_of(P("accel", 0, 4));
    std::vector<B3> cs(ncall);
    for (auto &c : cs) { gen_b3(c, op >= 0 ? op : acc == 0 || PF("anyop", .2) ? -1 : (int)B3_GEMM, maxd, l); }
    Env e; gen_ac_env(e, cs[0].m * cs[0].n); gen_blk_env(e);
    describe("accel=%s", ac_names[acc]);
    for (auto &c : cs) describe(" | %s", b3desc(c).c_str());
    armas_ac_handle_t h = 0;
    SchedCfg sc = random_sched(est_steps(cs[0]) * ncall, tasks_of(e, cs));
    sched_start(sc);
    if (armas_ac_init(&h, ac_names[acc]) != 0 || !h) violation("init", "armas_ac_init", "accelerator %s cannot be created", ac_names[acc]);
    armas_conf_t cf = *armas_conf_default();
    cf.accel = h;
    if (PF("local", .2)) cf.optflags |= ARMAS_CBUF_LOCAL;
    for (auto &c : cs) {
        int rc = run_b3(c, &cf);
        if (rc != 0) violation("error-return", b3name[c.op], "%s with %s returned %d (error %d) without any fault", b3desc(c).c_str(), ac_names[acc], rc, cf.error);
        verify_b3(c);
        if (splits(e, acc, c)) { nontrivial(); probe("split"); }
        if (acc == 0 ? false : (c.op == B3_GEMM)) probe("queued");
        sched_extend(sc.fair_budget);
    }
    armas_ac_release(h);
    sched_stop();
    check_heap();
}
SCENARIO(C01, blas3, 60, FAST) { accel_result(-1, 72, true); }
SCENARIO(C01, blas3_instr, 3, INSTR) { accel_result(-1, 20, false); }
// large operands: several cache blocks per thread with the default configuration
SCENARIO(C01, large, 10, FAST) { accel_result(-1, 200, false); }

// very long targets divided in many blocks
SCENARIO(C01, tall, 1, FAST) {
    Layout l = gen_layout(); l.embed = false;
    int big = 1000 * P("big", 20, 260), small = P("small", 1, 2), acc = P("accel", 1, 2);
    B3 c; c.op = B3_GEMM; c.flags = 0; c.alpha = gen_scalar("alpha"); c.beta = gen_scalar("beta"); c.k = P("k", 1, 2);
    bool wide = PF("wide", .5);
    c.m = wide ? small : big; c.n = wide ? big : small;
    make_operand(c.A, "A", c.m, c.k, l); make_operand(c.B, "B", c.k, c.n, l); make_operand(c.C, "C", c.m, c.n, l);
    c.A.save(); c.B.save(); c.C.save();
    Env e; e.nproc = P("nproc", 2, 4); e.maxproc = 0; e.elems = P("tile", 8, 40);
    char b[64]; snprintf(b, sizeof b, "%d,0,%s", e.elems, PF("rr", .5) ? "TR" : "TZ");
    set_nproc(e.nproc); env_set("ARMAS_AC_CONFIG", b);
    describe("nproc=%d ARMAS_AC_CONFIG=%s accel=%s | %s", e.nproc, b, ac_names[acc], b3desc(c).c_str());
    SchedCfg sc = random_sched(400, tasks_of(e, c));
    sched_start(sc);
    armas_ac_handle_t h = 0;
    if (armas_ac_init(&h, ac_names[acc]) != 0 || !h) violation("init", "armas_ac_init", "accelerator %s cannot be created", ac_names[acc]);
    armas_conf_t cf = *armas_conf_default();
    cf.accel = h;
    int rc = run_b3(c, &cf);
    if (rc != 0) violation("error-return", b3name[c.op], "returned %d (error %d) without any fault", rc, cf.error);
    verify_b3(c);
    nontrivial();
    armas_ac_release(h);
    sched_stop();
    check_heap();
}

// ---------------------------------------------------------------------------------- C02
static void accel_liveness(int maxd) {
    Layout l = gen_layout();
    l.pad = PAD_FINITE;
    int acc = P("accel", 1, 8); acc = acc == 1 ? 0 : acc < 5 ? 1 : 2;
    int ncall = P("ncall", 1, 5);
    Env e;
    int kind = P("shape", 0, 3);
    std::vector<B3> cs(ncall);
    for (auto &c : cs) gen_b3(c, B3_GEMM, kind == 0 ? 8 : maxd, l);
    // many tasks for the queue: small tiles, few threads
    gen_ac_env(e, cs[0].m * cs[0].n);
    if (kind == 3) {
        char b[64]; snprintf(b, sizeof b, "%d,%d,%s", e.elems = P("tile", 1, 8), e.maxproc, PF("two", .5) ? "TZ2" : PF("rr", .5) ? "TR" : "T");
        env_set("ARMAS_AC_CONFIG", b); describe("tiles %s ", b);
    }
    describe("accel=%s", ac_names[acc]);
    for (auto &c : cs) describe(" | %s", b3desc(c).c_str());
    SchedCfg sc = random_sched(est_steps(cs[0]) * ncall, tasks_of(e, cs));
    sched_start(sc);
    armas_ac_handle_t h = 0;
    if (armas_ac_init(&h, ac_names[acc]) != 0) violation("init", "armas_ac_init", "accelerator %s cannot be created", ac_names[acc]);
    armas_conf_t cf = *armas_conf_default();
    cf.accel = h;
    for (auto &c : cs) {
        int rc = run_b3(c, &cf);
        if (rc != 0) violation("error-return", b3name[c.op], "%s with %s returned %d without any fault", b3desc(c).c_str(), ac_names[acc], rc);
        checked();
        if (splits(e, acc, c)) nontrivial();
        sched_extend(sc.fair_budget);
    }
    armas_ac_release(h);
    wait_quiescent();
    if (live_threads() != 0) violation("thread-left", "release", "%d accelerator threads never end after release", live_threads());
    sched_stop();
}
SCENARIO(C02, calls, 4, FAST) { accel_liveness(48); }
SCENARIO(C02, calls_instr, 1, INSTR) { accel_liveness(10); }
// two application threads, each with its own handle, or one after the other on a common handle
SCENARIO(C02, shared, 1, FAST) {
    Layout l = gen_layout(); l.pad = PAD_FINITE;
    int acc = P("accel", 0, 2), nth = P("nth", 2, 3);
    std::vector<B3> cs(nth);
    for (auto &c : cs) gen_b3(c, B3_GEMM, 32, l);
    Env e; gen_ac_env(e, cs[0].m * cs[0].n);
    describe("accel=%s threads=%d own handles", ac_names[acc], nth);
    armas_getenv();
    SchedCfg sc = random_sched(est_steps(cs[0]) * nth, tasks_of(e, cs));
    sched_start(sc);
    std::vector<int> t;
    for (int i = 0; i < nth; i++)
        t.push_back(app_thread([&cs, i, acc] {
            armas_ac_handle_t h = 0;
            if (armas_ac_init(&h, ac_names[acc]) != 0) violation("init", "armas_ac_init", "accelerator cannot be created");
            armas_conf_t cf = *armas_conf_default();
            cf.accel = h;
            int rc = run_b3(cs[i], &cf);
            if (rc != 0) violation("error-return", b3name[cs[i].op], "returned %d", rc);
            armas_ac_release(h);
            armas_cbuf_release_thread_global();
        }));
    for (int x : t) app_join(x);
    wait_quiescent();
    if (live_threads() != 0) violation("thread-left", "release", "%d accelerator threads never end after release", live_threads());
    for (auto &c : cs) verify_b3(c);
    nontrivial();
}

// ---------------------------------------------------------------------------------- C03
SCENARIO(C03, history, 3, BOTH) {
    Layout l = gen_layout(); l.pad = PAD_FINITE;
    int maxd = flavour == INSTR ? 10 : 40;
    use_memory_modes();
    Env e; gen_ac_env(e, maxd * maxd / 2);
    armas_conf_default();
    armas_cbuf_release_thread_global();
    u64 mark = alloc_mark();
    int nact = P("nact", 1, 10);
    struct H { armas_ac_handle_t h; int kind, used; };
    std::vector<H> hs;
    SchedCfg sc = random_sched(2000, 8ull * maxd * maxd);
    sched_start(sc);
    int rel = 0, used = 0;
    for (int a = 0; a < nact; a++) {
        int act = P("act", 0, 9);
        if (act < 3 || hs.empty()) {
            if (hs.size() >= 3) continue;
            H x; x.kind = P("kind", 0, 2); x.used = 0; x.h = 0;
            int rc = armas_ac_init(&x.h, ac_names[x.kind]);
            if (rc != 0 || !x.h) violation("init", "armas_ac_init", "accelerator %s cannot be created: %d", ac_names[x.kind], rc);
            describe("init(%s) ", ac_names[x.kind]);
            hs.push_back(x);
        } else if (act < 8) {
            H &x = hs[wrng.below(hs.size())];
            B3 c; gen_b3(c, x.kind == 0 && PF("anyop", .5) ? -1 : (int)B3_GEMM, maxd, l);
            armas_conf_t cf = *armas_conf_default();
            cf.accel = x.h;
            describe("use(%s,%dx%dx%d) ", ac_names[x.kind], c.m, c.n, c.k);
            int rc = run_b3(c, &cf);
            if (rc != 0) violation("error-return", b3name[c.op], "%s with %s returned %d without any fault", b3desc(c).c_str(), ac_names[x.kind], rc);
            verify_b3(c);
            x.used++; used++;
        } else {
            int i = (int)wrng.below(hs.size());
            describe("release(%s) ", ac_names[hs[i].kind]);
            if (!hs[i].used) probe("release-unused");
            armas_ac_release(hs[i].h);
            hs.erase(hs.begin() + i);
            rel++;
            probe("release");
        }
        sched_extend(sc.fair_budget);
    }
    while (!hs.empty()) {
        int i = (int)wrng.below(hs.size());
        describe("release(%s) ", ac_names[hs[i].kind]);
        if (!hs[i].used) probe("release-unused");
        armas_ac_release(hs[i].h);
        hs.erase(hs.begin() + i); rel++;
        sched_extend(sc.fair_budget);
    }
    armas_ac_release(0);
    check_threads_gone("release", 0);
    check_leak("accelerator life cycle", mark);
    check_heap();
    if (used && rel) nontrivial();
}
// one application thread keeps using its accelerator while others create, use and release theirs
SCENARIO(C03, sidebyside, 1, BOTH) {
    Layout l = gen_layout(); l.pad = PAD_FINITE;
    int maxd = flavour == INSTR ? 8 : 32, nth = P("nth", 2, 3);
    Env e; gen_ac_env(e, maxd * maxd / 2);
    armas_conf_default();
    armas_ac_handle_t w = 0; armas_ac_init(&w, "S"); armas_ac_release(w);   // configuration is read before
    armas_cbuf_release_thread_global();
    u64 mark = alloc_mark();
    std::vector<std::vector<B3>> cs(nth);
    std::vector<int> kind(nth), again(nth);
    for (int i = 0; i < nth; i++) {
        kind[i] = P("kind", 0, 2); again[i] = P("again", 0, 1);
        cs[i].resize(P("uses", 0, 2));
        for (auto &c : cs[i]) gen_b3(c, kind[i] == 0 ? -1 : (int)B3_GEMM, maxd, l);
        describe("%s x%zu%s ", ac_names[kind[i]], cs[i].size(), again[i] ? " re-created" : "");
    }
    SchedCfg sc = random_sched(2000, 8ull * maxd * maxd);
    sched_start(sc);
    std::vector<int> t;
    for (int i = 0; i < nth; i++)
        t.push_back(app_thread([&, i] {
            armas_ac_handle_t h = 0;
            armas_conf_t cf = *armas_conf_default();
            if (armas_ac_init(&h, ac_names[kind[i]]) != 0) violation("init", "armas_ac_init", "cannot be created");
            for (auto &c : cs[i]) {
                if (again[i]) { armas_ac_release(h); if (armas_ac_init(&h, ac_names[kind[i]]) != 0) violation("init", "armas_ac_init", "cannot be created again"); }
                cf.accel = h;
                int rc = run_b3(c, &cf);
                if (rc != 0) violation("error-return", b3name[c.op], "returned %d", rc);
            }
            armas_ac_release(h);
            armas_cbuf_release_thread_global();
        }));
    for (int x : t) app_join(x);
    check_threads_gone("release", 0);
    for (auto &v : cs) for (auto &c : v) verify_b3(c);
    check_leak("accelerators side by side", mark);
    check_heap();
    nontrivial();
}

// ---------------------------------------------------------------------------------- C04
static void accel_memory(int maxd) {
    Layout l = gen_layout();
    use_memory_modes();
    int acc = P("accel", 0, 2);
    int ncall = P("ncall", 1, 2);
    std::vector<B3> cs(ncall);
    for (auto &c : cs) gen_b3(c, acc == 0 ? -1 : (int)B3_GEMM, maxd, l);
    if (PF("alias", .15)) for (auto &c : cs) if (c.op == B3_GEMM && c.A.rows() == c.B.rows() && c.A.cols() == c.B.cols()) { c.B = c.A; probe("shared-input"); }
    Env e; gen_ac_env(e, cs[0].m * cs[0].n); gen_blk_env(e);
    describe("accel=%s", ac_names[acc]);
    for (auto &c : cs) describe(" | %s", b3desc(c).c_str());
    // failing allocations and thread creations: a call that gives up must not leave a thread behind
    // which works on the memory of a caller that has gone on
    int fmode = PF("faults", .25) ? P("fmode", 1, 3) : 0, cn = 0, cfrom = 0;
    AllocFault f; memset(&f, 0, sizeof f);
    f.only_lib = true; f.only_tid = -1; f.maxsize = ~0ull;
    if (fmode & 1) { cn = P("cn", 1, 5); cfrom = PF("cfrom", .3); }
    if (fmode & 2) { f.nth = P("nth", 1, 10); f.from = PF("from", .3); }
    SchedCfg sc = random_sched(est_steps(cs[0]) * ncall, tasks_of(e, cs));
    sched_start(sc);
    armas_ac_handle_t h = 0;
    if (armas_ac_init(&h, ac_names[acc]) != 0) violation("init", "armas_ac_init", "cannot be created");
    armas_conf_t cf = *armas_conf_default();
    cf.accel = h;
    for (auto &c : cs) {
        if (fmode & 1) create_fault(cn, 0, cfrom);
        if (fmode & 2) alloc_fault(&f);
        int rc = run_b3(c, &cf);
        u64 nf = fmode ? create_failed() + alloc_failed() : 0;
        create_fault(0, 0); alloc_fault(0);
        if (rc < 0 && nf) {
            probe("reported");
            verify_b3_frame(c);
            operands_free();
            sched_extend(sc.fair_budget);
            wait_quiescent();
            check_heap();
            nontrivial();
            armas_ac_release(h);
            wait_quiescent();
            check_heap();
            return;
        }
        if (rc != 0) violation("error-return", b3name[c.op], "%s with %s returned %d without any fault", b3desc(c).c_str(), ac_names[acc], rc);
        verify_b3_frame(c);
        checked();
        if (splits(e, acc, c)) nontrivial();
        sched_extend(sc.fair_budget);
    }
    armas_ac_release(h);
    wait_quiescent();
    check_heap();
}
SCENARIO(C04, races, 5, INSTR) { accel_memory(20); }
SCENARIO(C04, memory, 2, FAST) { accel_memory(80); }

// ---------------------------------------------------------------------------------- C05
static void accel_faults(int maxd) {
    Layout l = gen_layout(); if (l.pad == PAD_NAN) l.pad = PAD_FINITE;
    set_fill(P("fill", 0, 3));
    int acc = P("accel", 0, 2);
    Env e;
    B3 warm; bool dowarm = PF("warm", .4);
    B3 c, again;
    gen_b3(c, acc == 0 || PF("anyop", .15) ? -1 : (int)B3_GEMM, maxd, l);
    gen_b3(again, c.op, maxd, l);
    if (dowarm) gen_b3(warm, c.op, maxd, l);
    gen_ac_env(e, c.m * c.n);
    if (PF("cache", .5)) env_set("ARMAS_CACHE", "8k,2k");
    bool local = PF("local", .2);
    describe("accel=%s %s", ac_names[acc], b3desc(c).c_str());
    armas_conf_default();
    armas_cbuf_release_thread_global();
    u64 mark = alloc_mark();
    bool during_init = PF("duringinit", .3);
    AllocFault f; memset(&f, 0, sizeof f);
    f.only_lib = true; f.only_tid = -1; f.maxsize = ~0ull;
    int mode = P("fmode", 0, 5);
    int cn = 0; double cp = 0; bool cfrom = false;
    bool af = mode != 1, cfail = mode >= 1 && mode <= 2;
    if (af) {
        f.nth = P("nth", 1, mode == 5 ? 24 : 8);
        f.from = PF("from", .4);
        if (mode == 3) { f.nth = 0; f.from = false; f.prob = PC("prob", {5, 20, 60, 100}) / 100.0; }
        if (mode >= 4) f.only_tid = -2;
        if (PF("bigonly", .2)) f.minsize = 2048;
    }
    if (cfail) {
        if (PF("cprob", .3)) cp = PC("cp", {10, 40, 100}) / 100.0;
        else { cn = P("cn", 1, 6); cfrom = PF("cfrom", .4); }
    }
    SchedCfg sc = random_sched(est_steps(c) * 2, tasks_of(e, c) + tasks_of(e, again));
    sched_start(sc);
    armas_ac_handle_t h = 0;
    if (during_init) { alloc_fault(af ? &f : 0); if (cfail) create_fault(cn, cp, cfrom); }
    int rc = armas_ac_init(&h, ac_names[acc]);
    if (rc < 0) {
        if (!during_init || alloc_failed() == 0) violation("error-return", "armas_ac_init", "armas_ac_init(%s) returned %d without a failing allocation", ac_names[acc], rc);
        if (h) violation("handle", "armas_ac_init", "a failed armas_ac_init left a non-null handle");
        alloc_fault(0); create_fault(0, 0);
        check_threads_gone("failed init", 0);
        check_leak("failed accelerator creation", mark);
        if ((rc = armas_ac_init(&h, ac_names[acc])) != 0) violation("no-recovery", "armas_ac_init", "creating the accelerator after memory is available again returned %d", rc);
        probe("init-failed"); nontrivial();
    } else if (!h) violation("handle", "armas_ac_init", "success without a handle");
    armas_conf_t cf = *armas_conf_default();
    cf.accel = h;
    if (local) cf.optflags |= ARMAS_CBUF_LOCAL;
    if (dowarm && !during_init) {
        rc = run_b3(warm, &cf);
        if (rc != 0) violation("error-return", b3name[c.op], "returned %d before any fault", rc);
        verify_b3(warm);
        if (PF("coldbuf", .5)) armas_cbuf_release_thread_global();
    }
    if (!during_init || !h) { alloc_fault(af ? &f : 0); if (cfail) create_fault(cn, cp, cfrom); }
    cf.error = 0;
    rc = run_b3(c, &cf);
    u64 nf = alloc_failed() + create_failed();
    alloc_fault(0); create_fault(0, 0);
    if (rc > 0) violation("error-return", b3name[c.op], "%s returned the positive value %d", b3desc(c).c_str(), rc);
    if (rc == 0) { verify_b3(c); if (nf) probe("ok-despite-fault"); }
    else {
        if (!nf) violation("error-return", b3name[c.op], "%s with %s returned %d without a fault", b3desc(c).c_str(), ac_names[acc], rc);
        wait_quiescent();
        verify_b3_frame(c);
        probe("reported");
    }
    if (nf) nontrivial();
    sched_extend(sc.fair_budget);
    rc = run_b3(again, &cf);
    if (rc != 0) violation("no-recovery", b3name[again.op], "after the failures stopped %s with %s returned %d", b3desc(again).c_str(), ac_names[acc], rc);
    verify_b3(again);
    armas_ac_release(h);
    check_threads_gone("release", 0);
    check_leak("accelerated call with failures", mark);
    check_heap();
}
SCENARIO(C05, faults, 5, FAST) { accel_faults(40); }
SCENARIO(C05, faults_instr, 2, INSTR) { accel_faults(10); }
