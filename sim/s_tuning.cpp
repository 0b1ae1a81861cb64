#include "ops.h"
using namespace sim;
// an earlier computation of the thread leaves NaN or infinite values to the block buffer
static void pollute(const armas_conf_t &conf, int maxd) {
    if (!PF("pollute", .25)) return;
    int n = P("pn", 1, maxd);
    double v = PC("pv", {0, 1, 2}) ? NAN : INFINITY;
    std::vector<double> a(n * n, v), b(n * n, -v), c(n * n, 0.0);
    armas_dense_t A, B, C;
    armas_make(&A, n, n, n, a.data()); armas_make(&B, n, n, n, b.data()); armas_make(&C, n, n, n, c.data());
    armas_conf_t cf = conf; cf.optflags &= ~ARMAS_CBUF_LOCAL;
    describe("after product of %d ", n);
    PF("pext", .3) ? armas_ext_mult(1.0, &C, 1.0, &A, &B, 0, &cf) : armas_mult(1.0, &C, 1.0, &A, &B, 0, &cf);
    fault_fired(F_DIRTY_MEM);
}
static void seq(int maxd) {
    Layout l = gen_layout();
    set_fill(P("fill", 0, 3)); set_align(P("align", 0, 1));
    B3 c; gen_b3(c, -1, maxd, l);
    Env e; gen_blk_env(e);
    armas_conf_t cf = *armas_conf_default();
    int o = P("opt", 0, 4);
    if (o == 1) cf.optflags |= ARMAS_CBUF_LOCAL;
    if (o == 2) cf.optflags |= ARMAS_ONAIVE;
    if (o == 3) cf.optflags |= ARMAS_ORECURSIVE;
    describe("opt=%d %s", o, b3desc(c).c_str());
    pollute(cf, maxd);
    int rc = run_b3(c, o == 4 ? NULL : &cf);
    if (rc) violation("error-return", b3name[c.op], "returned %d", rc);
    verify_b3(c);
    check_heap();
    nontrivial();
}
SCENARIO(C07, blas3, 3, FAST) { seq(80); }
SCENARIO(C07, blas3_instr, 1, INSTR) { seq(24); }
// every other dense basic operation, any block size setting
static void basic(int maxd) {
    Layout l = gen_layout();
    set_fill(P("fill", 0, 3)); set_align(P("align", 0, 1));
    DOp op; gen_op(op, G_BLAS | G_EXT, l, maxd);
    Env e; gen_blk_env(e);
    armas_conf_t cf = *armas_conf_default();
    int o = P("opt", 0, 4);
    if (o == 1) cf.optflags |= ARMAS_CBUF_LOCAL;
    if (o == 2) cf.optflags |= ARMAS_ONAIVE;
    if (o == 3) cf.optflags |= ARMAS_ORECURSIVE;
    describe("opt=%d %s", o, op.desc.c_str());
    pollute(cf, maxd);
    int rc = op.call(o == 4 && !op.setup_conf ? NULL : &cf);
    if (!op.ok(rc)) violation("error-return", op.name.c_str(), "%s returned %d (error %d) without any fault", op.desc.c_str(), rc, cf.error);
    op.check(rc);
    check_heap();
    nontrivial();
}
SCENARIO(C07, basic, 3, FAST) { basic(64); }
SCENARIO(C07, basic_instr, 1, INSTR) { basic(20); }
