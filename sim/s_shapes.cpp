// C21: operands whose sizes do not fit are refused or used as far as they go, never overrun.
#include "callop.h"
#include <map>
#include <set>
using namespace sim;

// a new exact memory block for an operand of another size; the common part keeps its values
static void reshape(Operand &o, int rows, int cols) {
    Mat old = o.mat();
    size_t nel = (size_t)rows * cols;
    double *b = (double *)operand_mem((nel ? nel : 1) * sizeof(double), o.name.c_str());
    o.base = b; o.nel = nel; o.r0 = o.c0 = 0; o.prow = rows; o.pcol = cols; o.step = rows ? rows : 1;
    for (int j = 0; j < cols; j++) for (int i = 0; i < rows; i++) b[(size_t)j * rows + i] = i < old.r && j < old.c ? (double)old(i, j) : 2 * wrng.unit() - 1;
    armas_make(&o.m, rows, cols, o.step, b);
}
static void shapes(int groups, int maxd) {
    Layout l; l.pad = PAD_FINITE; l.embed = false;
    set_fill(P("fill", 0, 3)); set_align(P("align", 0, 1));
    DOp op;
    gen_op(op, groups, l, maxd);
    // functions of scalars, driven in batches, and functions without a status, for which the sizes are a precondition
    static const std::set<std::string> no_status = {"bdsvd2x2", "bdsvd2x2_vec", "discriminant", "gvcompute", "gvrotate", "qdroots", "sym_eigen2x2", "sym_eigen2x2vec", "gvleft", "gvright", "gvupdate", "gvrot_vec"};
    if (no_status.count(op.name)) return;
    op_reshaped = true;
    // one or two operands (or pivot vectors) of another size
    int no = (int)op.all.size(), np = (int)op.pall.size();
    std::string what;
    // operations of which every dimension of the listed operands is shared with another operand (or has to be square)
    static const std::map<std::string, const char *> shared = {
        {"mult", "A B C"}, {"mult_sym", "A B C"}, {"update2_sym", "A B C"}, {"update_trm", "A B C"}, {"mult_trm", "A"}, {"solve_trm", "A"}, {"update_sym", "C"},
        {"mvmult", "A x y"}, {"mvmult_sym", "A x y"}, {"mvmult_trm", "A x"}, {"mvsolve_trm", "A x"}, {"mvupdate", "A x y"}, {"mvupdate_sym", "A x"}, {"mvupdate2_sym", "A x y"}, {"mvupdate_trm", "A x y"},
        {"axpy", "x y"}, {"axpby", "x y"}, {"swap", "x y"}, {"adot", "x y"},
        // (a vector of scalars or of pivots has to be refused when it is too short, see below)
        {"qrfactor", "tau"}, {"lqfactor", "tau"}, {"qlfactor", "tau"}, {"rqfactor", "tau"}, {"qrbuild", "tau"}, {"lqbuild", "tau"}, {"qlbuild", "tau"}, {"rqbuild", "tau"},
        {"qrmult", "A tau"}, {"lqmult", "A tau"}, {"qlmult", "A tau"}, {"rqmult", "A tau"}, {"qrsolve", "A tau"}, {"lqsolve", "A tau"}, {"housemult", "Q tau"},
        {"hessreduce", "A tau"}, {"hessmult", "A tau"}, {"trdreduce", "A tau"}, {"trdbuild", "A tau"}, {"trdmult", "A tau"},
        {"cholfactor", "pivots"}, {"cholsolve", "A"}, {"cholupdate", "A x"}, {"lufactor", "pivots"}, {"lusolve", "A pivots"}, {"luinverse", "A pivots"},
        {"bkfactor", "A pivots"}, {"bkfactor+bksolve", "A pivots"}, {"ldlfactor", "pivots"}, {"ldlsolve", "A pivots"}, {"ldlinverse", "A pivots"},
        {"bdsvd", "D E"}, {"dqds", "D E"}, {"eigen_sym", "A D"}, {"eigen_sym_selected", "A D"}, {"trdbisect", "D E"}, {"trdeigen", "D E"}, {"trdsec", "d v z"}};
    auto listed = [&](const std::string &name) {
        auto sh = shared.find(op.name.compare(0, 4, "ext_") == 0 ? op.name.substr(4) : op.name);
        return sh != shared.end() && (std::string(" ") + sh->second + " ").find(" " + name + " ") != std::string::npos;
    };
    bool must = true;
    for (auto &o : op.all) if (!o->rows() || !o->cols()) must = false;
    int nk = op.pin.empty() && PF("two", .25) ? 2 : 1;    // (pivots of another matrix would have invalid contents)
    if (nk == 2) must = false;
    for (int k = nk; k > 0; k--) {
    int w = P("which", 0, no + np - 1), how = P("how", 0, 6);
    if (w < no) {
        Operand &o = *op.all[w];
        int r = o.rows(), c = o.cols(), r0 = r, c0 = c;
        if (how == 0 && r > 0) r--;
        if (how == 1 && c > 0) c--;
        if (how == 2) r++;
        if (how == 3) c++;
        if (how == 4) { r = c0; c = r0; }
        if (how == 5) { if (PF("rowszero", .5)) r = 0; else c = 0; }
        if (how == 6) { r = P("newrows", 1, 2 * (r0 > 0 ? r0 : 1)); c = P("newcols", 1, 2 * (c0 > 0 ? c0 : 1)); }
        if (c0 == 1 && r0 > 1 && PF("rowvec", .3) && how < 4) { int t = r; r = c; c = t; }
        char t[99]; snprintf(t, sizeof t, " with %s %dx%d instead of %dx%d", o.name.c_str(), r, c, r0, c0); what += t;
        if (!listed(o.name) || !r || !c || (r == r0 && c == c0)) must = false;
        if (r0 == 1 || c0 == 1) must = must && r * c != r0 * c0;
        if (o.name.compare(0, 3, "tau") == 0) must = must && r * c < r0 * c0;
        reshape(o, r, c);
    } else {
        Piv &p = *op.pall[w - no];
        int n = p.n, n0 = n;
        if (how <= 2) n = n > 0 ? n - 1 : 0; else if (how == 3) n++; else if (how == 4) n = n / 2; else n = P("newlen", 0, 2 * n + 1);
        if (!listed("pivots") || n >= n0) must = false;
        int *ix = (int *)operand_mem((n ? n : 1) * sizeof(int), p.name.c_str());
        for (int i = 0; i < n; i++) ix[i] = i < n0 ? p.idx[i] : i + 1;
        p.idx = ix; p.n = n; armas_pivot_make(&p.p, n, ix);
        char t[99]; snprintf(t, sizeof t, " with pivots %d instead of %d", n, n0); what += t;
    }
    }
    describe("%s%s | ", op.desc.c_str(), what.c_str());
    op.save();
    Env e; gen_blk_env(e);
    u64 mark = (armas_conf_default(), armas_cbuf_release_thread_global(), alloc_mark());
    armas_conf_t cf = *armas_conf_default();
    if (op.setup_conf) op.setup_conf(&cf);
    SchedCfg sc = random_sched(flavour == INSTR ? 40000 : 4000, 2000);
    sched_start(sc);
    cf.error = 0;
    int rc = 0;
    if (op.callw && PF("w", .5)) {
        armas_wbuf_t q = ARMAS_WBNULL;
        rc = op.callw(&q, &cf);
        if (rc >= 0) {
            armas_wbuf_t wb; ws_make(wb, q.bytes, P("wfill", 0, 2));
            cf.error = 0;
            rc = op.callw(q.bytes ? &wb : ARMAS_NOWORK, &cf);
        }
    } else rc = op.call(&cf);
    emit(rc);
    sched_stop();
    probe(rc < 0 ? "refused" : "accepted");
    static const std::set<std::string> no_conf = {"pivot_sort", "qsort_vec", "sort_vec", "abs_sort_vec", "sort_eigenvec"};
    if (rc < 0 && !cf.error && !no_conf.count(op.name)) violation("no-error-code", op.name.c_str(), "%s: the call returned %d without an error code", R->desc, rc);
    if (rc >= 0 && must && !getenv("SIM_ACC")) violation("misfit-accepted", op.name.c_str(), "%s: the operands do not fit together but the call returned %d", R->desc, rc);
    if (rc >= 0 && getenv("SIM_ACC")) violation("accepted", what.c_str(), "%s", R->desc);     // development aid
    op.frame();
    if (rc < 0 && (groups & (G_BLAS | G_EXT | G_L2)))
        for (auto &o : op.all) if (o->nel && memcmp(o->base, o->snap.data(), o->nel * 8))
            violation("refused-but-changed", op.name.c_str(), "%s: the call returned %d (error %d) but changed %s", R->desc, rc, cf.error, o->name.c_str());
    armas_cbuf_release_thread_global();
    u64 pc = 0, size = 0, n = leaked_since(mark, &pc, &size);
    if (n) { R->pc[0] = pc; violation("leak", op.name.c_str(), "%s: %llu blocks never returned", R->desc, (unsigned long long)n); }
    check_heap();
    nontrivial();
}
SCENARIO(C21, shapes, 3, FAST) { shapes(PC("group", {G_BLAS, G_BLAS, G_EXT, G_FACT, G_FACT, G_EIG, G_L2, G_LEVEL}), 40); }
SCENARIO(C21, shapes_instr, 2, INSTR) { shapes(PC("group", {G_BLAS, G_BLAS, G_EXT, G_FACT, G_FACT, G_EIG, G_L2, G_LEVEL}), 14); }
