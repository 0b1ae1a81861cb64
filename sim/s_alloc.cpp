// C08: failing allocations inside dense operations.
#include "callop.h"
using namespace sim;

static void alloc_failures(int groups, int maxd) {
    Layout l = gen_layout(); if (l.pad == PAD_NAN) l.pad = PAD_FINITE;
    set_fill(P("fill", 0, 3)); set_align(P("align", 0, 1));
    DOp op; gen_op(op, groups, l, maxd);
    describe("%s | ", op.desc.c_str());
    Env e; gen_blk_env(e);
    armas_conf_t cf = *armas_conf_default();
    int o = P("opt", 0, 4);
    if (o == 1 || o == 2) { cf.optflags |= ARMAS_CBUF_LOCAL; describe("CBUF_LOCAL "); }
    if (o == 3) { cf.optflags |= ARMAS_ORECURSIVE; describe("recursive "); }
    if (op.setup_conf) op.setup_conf(&cf);
    armas_conf_t *cp = o == 4 && !op.setup_conf ? NULL : &cf;
    armas_cbuf_release_thread_global();
    u64 mark = alloc_mark();
    bool warm = PF("warm", .2), given = op.callw && PF("given", .3);
    size_t need = 0;
    armas_wbuf_t w = ARMAS_WBNULL;
    if (given) { need = ws_query(op, cp); ws_make(w, need, P("wfill", 0, 3)); }
    auto docall = [&]() { return given ? op.callw(need ? &w : ARMAS_NOWORK, cp) : op.call(cp); };
    if (warm) {
        int rc = docall();
        if (!op.ok(rc)) violation("error-return", op.name.c_str(), "%s returned %d (error %d) before any fault", op.desc.c_str(), rc, cf.error);
        op.restore();
    }
    AllocFault f; memset(&f, 0, sizeof f);
    f.only_lib = true; f.only_tid = -1; f.maxsize = ~0ull;
    int mode = P("fmode", 0, 4);
    f.nth = mode == 4 ? 1 : PC("nth", {1, 1, 1, 1, 2, 2, 3, 4, 6});
    f.from = mode == 0 || mode == 4;
    if (mode == 3) { f.nth = 0; f.prob = PC("prob", {10, 30, 60}) / 100.0; }
    alloc_fault(&f);
    cf.error = 0;
    int rc = docall();
    u64 nf = alloc_failed(), na = alloc_count();
    alloc_fault(0);
    if (op.ok(rc)) { op.check(rc); if (nf) probe("ok-despite-fault"); }
    else {
        if (rc > 0) violation("error-return", op.name.c_str(), "%s returned the positive value %d", op.desc.c_str(), rc);
        if (!nf) violation("error-return", op.name.c_str(), "%s returned %d (error %d) without a failing allocation", op.desc.c_str(), rc, cf.error);
        if (cp && cf.error == 0) violation("error-code", op.name.c_str(), "%s returned %d without an error code in the configuration block", op.desc.c_str(), rc);
        op.frame();
        probe("reported"); checked();
    }
    if (nf) nontrivial();
    (void)na;
    // the same call again
    op.restore();
    if (given) ws_refill(w, P("wfill", 0, 3));
    if (given && w.offset) violation("workspace-position", op.name.c_str(), "%s: the workspace position is %zu afterwards", op.desc.c_str(), w.offset);
    cf.error = 0;
    rc = docall();
    if (!op.ok(rc)) violation("no-recovery", op.name.c_str(), "%s returned %d (error %d) after memory is available again", op.desc.c_str(), rc, cf.error);
    op.check(rc);
    armas_cbuf_release_thread_global();
    u64 pc = 0, size = 0, n = leaked_since(mark, &pc, &size);
    if (n) { R->pc[0] = pc; violation("leak", op.name.c_str(), "%s: %llu blocks of memory never returned (first: %llu bytes)", op.desc.c_str(), (unsigned long long)n, (unsigned long long)size); }
    check_heap();
}
SCENARIO(C08, basic, 2, FAST) { alloc_failures(G_BLAS | G_EXT, 48); }
SCENARIO(C08, lapack, 4, FAST) { alloc_failures(G_FACT | G_EIG, 40); }
SCENARIO(C08, basic_instr, 1, INSTR) { alloc_failures(G_BLAS | G_EXT, 14); }
SCENARIO(C08, lapack_instr, 1, INSTR) { alloc_failures(G_FACT | G_EIG, 14); }
