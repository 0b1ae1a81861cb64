// Ways to call an operation of the table: configuration block, accelerator, workspace.
#ifndef SIM_CALLOP_H
#define SIM_CALLOP_H
#include "ops.h"

struct CallEnv {
    armas_conf_t cf;
    armas_ac_handle_t ac = 0;
    int acc = -1;                      // -1 none, 0..2
    armas_wbuf_t cwork = ARMAS_WBNULL; // caller provided block buffer
};
static inline void gen_conf(CallEnv &c, bool accel) {
    if (accel && sim::PF("useac", .45)) c.acc = sim::PC("accel", {0, 0, 0, 1, 2});
    c.cf = *armas_conf_default();
    int o = sim::P("opt", 0, 9);
    if (o == 1 || o == 2) { c.cf.optflags |= ARMAS_CBUF_LOCAL; sim::describe("CBUF_LOCAL "); }
    if (c.acc >= 0) {
        sim::describe("accel=%s ", ac_names[c.acc]);
        if (armas_ac_init(&c.ac, ac_names[c.acc]) != 0) sim::violation("init", "armas_ac_init", "accelerator %s cannot be created", ac_names[c.acc]);
        c.cf.accel = c.ac;
    }
}
static inline void end_conf(CallEnv &c) { if (c.acc >= 0) armas_ac_release(c.ac); c.acc = -1; c.cf.accel = 0; }

// workspace in guarded memory of exactly `bytes` bytes
static inline void ws_make(armas_wbuf_t &w, size_t bytes, int fill) {
    w.buf = (char *)sim::operand_mem(bytes ? bytes : 1, "workspace");
    w.bytes = bytes; w.offset = 0;
    for (size_t k = 0; k < bytes; k++) w.buf[k] = fill == 0 ? 0 : fill == 1 ? (char)0xA5 : (char)sim::wrng.below(256);
    if (fill == 2) for (size_t k = 0; k + 8 <= bytes; k += 8) { double d = NAN; memcpy(w.buf + k, &d, 8); }
}
static inline void ws_refill(armas_wbuf_t &w, int fill) {
    for (size_t k = 0; k < w.bytes; k++) w.buf[k] = fill == 0 ? 0 : fill == 1 ? (char)0xA5 : (char)sim::wrng.below(256);
    if (fill == 2) for (size_t k = 0; k + 8 <= w.bytes; k += 8) { double d = NAN; memcpy(w.buf + k, &d, 8); }
}
// asks the operation for its workspace
static inline size_t ws_query(DOp &op, armas_conf_t *cf) {
    armas_wbuf_t w = ARMAS_WBNULL;
    int rc = op.callw(&w, cf);
    if (rc != 0) sim::violation("query", op.name.c_str(), "%s: the workspace query returned %d (error %d)", op.desc.c_str(), rc, cf ? cf->error : 0);
    return w.bytes;
}
// one or two calls of a generated operation in a generated environment, with every kind of workspace
static inline void op_result(const std::function<void(DOp &, const Layout &)> &gen, int maxd, bool accel) {
    Layout l = gen_layout();
    sim::set_fill(sim::P("fill", 0, 3)); sim::set_align(sim::P("align", 0, 1));
    DOp op;
    gen(op, l);
    sim::describe("%s | ", op.desc.c_str());
    Env e;
    if (accel) gen_ac_env(e, maxd * maxd / 3);
    gen_blk_env(e);
    sim::SchedCfg sc = sim::random_sched(sim::flavour == sim::INSTR ? 40000 : 4000, 2000);
    if (accel) sim::sched_start(sc);
    CallEnv c; gen_conf(c, accel);
    if (op.setup_conf) op.setup_conf(&c.cf);
    bool nocf = c.acc < 0 && !op.setup_conf && c.cf.optflags == armas_conf_default()->optflags && sim::PF("nullconf", .2);
    armas_conf_t *cp = nocf ? NULL : &c.cf;
    int mode = op.callw ? sim::P("wmode", 0, 4) : 0;
    int ncall = sim::P("ncall", 1, 2);
    for (int k = 0; k < ncall; k++) {
        int rc;
        if (k) op.restore();
        if (mode == 0) rc = op.call(cp);
        else {
            size_t need = ws_query(op, cp);
            size_t n = need;
            if (mode == 2 && need > 0) n = sim::wrng.below(need);
            if (mode == 3 && need > 0) { size_t lines = need / 8 / (op.out[0]->m.rows + 1); n = 8 * (size_t)(op.out[0]->m.rows + 1) * sim::wrng.below(lines + 1); }
            if (mode == 4) n = need + 8 * sim::wrng.below(600);
            armas_wbuf_t w; ws_make(w, n, sim::P("wfill", 0, 3));
            bool nul = n == 0;
            if (n < need) sim::fault_fired(sim::F_SMALL_WS);
            c.cf.error = 0;
            rc = op.callw(nul ? ARMAS_NOWORK : &w, cp);
            if (rc < 0 && n < need) {   // refused: allowed, and nothing has happened
                sim::probe("ws-refused");
                op.frame();
                ws_make(w, need, sim::P("wfill", 0, 3));
                op.restore();
                rc = op.callw(need ? &w : ARMAS_NOWORK, cp);
            } else if (n < need) sim::probe("ws-small-accepted");
        }
        if (!op.ok(rc)) sim::violation("error-return", op.name.c_str(), "%s returned %d (error %d) without any fault", op.desc.c_str(), rc, c.cf.error);
        op.check(rc);
        sim::sched_extend(sc.fair_budget);
    }
    sim::nontrivial();
    end_conf(c);
    sim::sched_stop();
    sim::check_heap();
}
#endif
